//! A small deterministic random generator (splitmix64).
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, salt: &str) -> Rng {
        let mut h = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        Rng(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0 .. k-1
    pub fn n(&mut self, k: usize) -> usize {
        (self.next() % k as u64) as usize
    }
    /// a ..= b
    pub fn r(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % (b - a + 1) as u64) as i64
    }
    /// True once in k.
    pub fn one_in(&mut self, k: usize) -> bool {
        self.n(k) == 0
    }
    pub fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T {
        &x[self.n(x.len())]
    }
    pub fn shuffle<T>(&mut self, x: &mut [T]) {
        for i in (1..x.len()).rev() {
            let j = self.n(i + 1);
            x.swap(i, j);
        }
    }
}
