//! The embedding of the specification's integer coordinates into floats:
//! m stands for (m + offset) * 2^k, or (m + offset) / 10 if k is DECIMAL, or
//! (m + offset) / 3 if k is THIRDS.  Further values of k are for affine maps that
//! preserve what the specification says of positions, but not their distances:
//! offsets in units of 2^s (FAR + s), a scale for each axis (`stretch`), and
//! shears along the x (SHEAR + s) or y axis (SHEAR_Y + s) by 2^s.
//! NaN, the infinities and -0 have codes of their own.  The type is 64 or 32, for
//! f64 or f32, or one more: then every other zero is a negative one.
use crate::val::V;
use magog::Coordinate;

pub const NAN: i64 = 2_000_000_000;
pub const PINF: i64 = 1_000_000_000;
pub const NINF: i64 = -1_000_000_000;
pub const NZERO: i64 = 1_500_000_000;
/// A result that is not the image of any integer.
pub const BAD: i64 = 1_999_999_999;
pub const DECIMAL: i64 = 1000;
pub const THIRDS: i64 = 1001;
pub const FAR: i64 = 1100;
const STRETCH: i64 = 10_000;
pub const SHEAR: i64 = 20_000_000;
pub const SHEAR_Y: i64 = 30_000_000;
pub fn stretch(kx: i64, ky: i64) -> i64 {
    STRETCH + (kx + 500) * 1000 + ky + 500
}

thread_local! {
    static ZEROS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Start to count zeros anew.
pub fn restart() {
    ZEROS.with(|z| z.set(0));
}

/// 2^k, denormal ones included.
fn pow2(k: i32) -> f64 {
    if k < -1000 { 2f64.powi(k + 500) * 2f64.powi(-500) } else { 2f64.powi(k) }
}

pub trait Num: Coordinate {
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn raw(bits: u64) -> Self;
}
impl Num for f64 {
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn raw(bits: u64) -> f64 {
        f64::from_bits(bits)
    }
}
impl Num for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn raw(bits: u64) -> f32 {
        f32::from_bits(bits as u32)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Emb {
    pub ty: i64,
    pub k: i64,
    pub ox: i64,
    pub oy: i64,
}

impl Emb {
    pub fn new(ty: i64, k: i64, ox: i64, oy: i64) -> Emb {
        Emb { ty, k, ox, oy }
    }
    pub fn of(v: &V) -> Emb {
        let a = v.ints();
        Emb::new(a[0], a[1], a[2], a[3])
    }
    pub fn v(&self) -> V {
        V::from(vec![self.ty, self.k, self.ox, self.oy])
    }

    pub fn single(&self) -> bool {
        self.ty < 64
    }
    /// Every other zero is negative.
    pub fn signs(mut self) -> Emb {
        self.ty |= 1;
        self
    }

    /// Coordinates are rounded: exact are only equality, order, and whatever is
    /// parallel to an axis.
    pub fn rounds(&self) -> bool {
        self.k == DECIMAL || self.k == THIRDS
    }
    /// Distances along the axes are of different units.
    pub fn skews(&self) -> bool {
        self.k >= STRETCH
    }
    fn shears(&self) -> bool {
        self.k >= SHEAR
    }
    fn divisor(&self) -> f64 {
        if self.k == DECIMAL { 10.0 } else { 3.0 }
    }
    /// Exponent of the unit of the x, or y, axis.
    fn unit(&self, y: bool) -> i32 {
        (match self.k {
            k if k >= SHEAR => 0,
            k if k >= STRETCH => {
                let k = k - STRETCH;
                (if y { k % 1000 } else { k / 1000 }) - 500
            }
            k if k >= FAR => 0,
            k => k,
        }) as i32
    }
    fn offset(&self, y: bool) -> i64 {
        let o = if y { self.oy } else { self.ox };
        if self.k >= FAR && self.k < STRETCH { o << (self.k - FAR) } else { o }
    }

    fn enc<C: Num>(&self, m: i64, o: i64, y: bool) -> C {
        match m {
            _ if self.ty & 1 == 1 && m + o == 0 => {
                let odd = ZEROS.with(|z| {
                    z.set(z.get() + 1);
                    z.get() % 2 == 1
                });
                C::of(if odd { -0.0 } else { 0.0 })
            }
            NAN => C::of(f64::NAN),
            PINF => C::of(f64::INFINITY),
            NINF => C::of(f64::NEG_INFINITY),
            NZERO => C::of(-0.0),
            _ if self.rounds() => C::of((m + o) as f64) / C::of(self.divisor()),
            _ => C::of((m + o) as f64 * pow2(self.unit(y))),
        }
    }
    /// Position (m, n), or a difference of positions.
    fn both<C: Num>(&self, m: i64, n: i64, o: (i64, i64)) -> (C, C) {
        if self.shears() {
            let (m, n) = (m + o.0, n + o.1);
            let (m, n) = match self.k {
                k if k >= SHEAR_Y => (m, n + (m << (k - SHEAR_Y))),
                k => (m + (n << (k - SHEAR)), n),
            };
            return (C::of(m as f64), C::of(n as f64));
        }
        (self.enc(m, o.0, false), self.enc(n, o.1, true))
    }
    pub fn xy<C: Num>(&self, m: i64, n: i64) -> (C, C) {
        self.both(m, n, (self.offset(false), self.offset(true)))
    }
    pub fn dir<C: Num>(&self, m: i64, n: i64) -> (C, C) {
        self.both(m, n, (0, 0))
    }
    pub fn x<C: Num>(&self, m: i64) -> C {
        assert!(!self.shears());
        self.enc(m, self.offset(false), false)
    }
    pub fn y<C: Num>(&self, m: i64) -> C {
        assert!(!self.shears());
        self.enc(m, self.offset(true), true)
    }
    /// A difference: not offset.
    pub fn d<C: Num>(&self, m: i64) -> C {
        assert!(!self.skews());
        self.enc(m, 0, false)
    }

    /// f times the number that is embedded as c; BAD if that is no integer.
    fn dec<C: Num>(&self, c: C, o: i64, f: i64, y: bool) -> i64 {
        let c = c.f();
        if c.is_nan() {
            NAN
        } else if c == f64::INFINITY {
            PINF
        } else if c == f64::NEG_INFINITY {
            NINF
        } else if self.rounds() {
            let m = (c * self.divisor()).round() as i64;
            if self.enc::<C>(m, 0, y).f() == c {
                (m - o) * f
            } else {
                BAD
            }
        } else {
            whole((c / pow2(self.unit(y)) - o as f64) * f as f64)
        }
    }
    /// Where a position was before the shear.
    fn straight<C: Num>(&self, x: C, y: C) -> (f64, f64) {
        let (x, y) = (x.f(), y.f());
        match self.k {
            k if k >= SHEAR_Y => (x, y - x * 2f64.powi((k - SHEAR_Y) as i32)),
            k => (x - y * 2f64.powi((k - SHEAR) as i32), y),
        }
    }
    pub fn dxy<C: Num>(&self, x: C, y: C) -> (i64, i64) {
        if self.shears() {
            let (x, y) = self.straight(x, y);
            return (whole(x - self.ox as f64), whole(y - self.oy as f64));
        }
        (self.dx(x), self.dy(y))
    }
    pub fn dx<C: Num>(&self, c: C) -> i64 {
        assert!(!self.shears());
        self.dec(c, self.offset(false), 1, false)
    }
    pub fn dy<C: Num>(&self, c: C) -> i64 {
        assert!(!self.shears());
        self.dec(c, self.offset(true), 1, true)
    }
    pub fn dx2<C: Num>(&self, c: C) -> i64 {
        assert!(!self.shears());
        self.dec(c, self.offset(false), 2, false)
    }
    pub fn dy2<C: Num>(&self, c: C) -> i64 {
        assert!(!self.shears());
        self.dec(c, self.offset(true), 2, true)
    }
    pub fn dd<C: Num>(&self, c: C) -> i64 {
        assert!(!self.skews());
        self.dec(c, 0, 1, false)
    }
    /// Of degree 1 in x and y each (an area, a determinant).
    pub fn darea<C: Num>(&self, c: C, f: i64) -> i64 {
        if self.rounds() {
            return BAD;
        }
        let unit = (self.unit(false) + self.unit(true)) as i64;
        Emb::new(self.ty, unit, 0, 0).dec(c, 0, f, false)
    }
    /// Of degree 2 (a product): scaled twice.
    pub fn dsq<C: Num>(&self, c: C, f: i64) -> i64 {
        assert!(!self.skews());
        self.darea(c, f)
    }
    /// The nearest integer to f times the number embedded as c.
    fn near<C: Num>(&self, c: C, o: i64, f: i64, y: bool) -> i64 {
        let c = c.f();
        let m = if self.rounds() {
            c * self.divisor()
        } else {
            c / pow2(self.unit(y))
        };
        rounded((m - o as f64) * f as f64)
    }
    pub fn fixed<C: Num>(&self, c: C, f: i64) -> i64 {
        assert!(!self.skews());
        self.near(c, 0, f, false)
    }
    pub fn fixed_xy<C: Num>(&self, x: C, y: C, f: i64) -> (i64, i64) {
        if self.shears() {
            let (x, y) = self.straight(x, y);
            let g = |c: f64, o: i64| rounded((c - o as f64) * f as f64);
            return (g(x, self.ox), g(y, self.oy));
        }
        (self.near(x, self.offset(false), f, false), self.near(y, self.offset(true), f, true))
    }
}

fn whole(m: f64) -> i64 {
    if m == m.floor() && m.abs() < 9e8 { m as i64 } else { BAD }
}
fn rounded(m: f64) -> i64 {
    if m.is_finite() && m.round().abs() < 9e8 { m.round() as i64 } else { BAD }
}

/// Does this embedding preserve the answers to these events?
pub fn suits(e: &Emb, events: &[V]) -> bool {
    if e.rounds() {
        return robust(events);
    }
    if e.k < FAR {
        return true;
    }
    let most = match e.skews() && !e.shears() {
        true if !e.single() => i64::MAX,
        true => 1600,
        false => 100,
    };
    let far = e.k < STRETCH;
    events.iter().all(|v| {
        let (op, a) = (v.at(0).s(), v.at(1));
        let areal = |t: &V| [3, 6].contains(&t.i());
        let known = match op {
            "g.valid" | "g.simple" => !(far && areal(a.at(0)) && e.k > FAR + 40),
            "rep" => !(far && areal(a.at(1)) && e.k > FAR + 40),
            "hull" | "g.bnd" => true,
            "seg.x" => !far,
            "seg.loc" | "seg.det" | "tri" => true,
            _ => false,
        };
        // A representation comes with an embedding of its own.
        let from = if op == "rep" { 1 } else { 0 };
        let mut ps = std::collections::BTreeSet::new();
        known && collect(&V::L(a.l()[from..].to_vec()), &mut ps, most)
    })
}

/// The positions in an input; false if one is further out than that.
pub fn collect(v: &V, out: &mut std::collections::BTreeSet<(i64, i64)>, most: i64) -> bool {
    if let V::L(l) = v {
        let ints: Vec<i64> = l.iter().filter_map(|x| if let V::I(i) = x { Some(*i) } else { None }).collect();
        if ints.len() == l.len() && (ints.len() == 2 || ints.len() == 4) {
            for p in ints.chunks(2) {
                if p[0].abs() > most || p[1].abs() > most {
                    return false;
                }
                out.insert((p[0], p[1]));
            }
            return true;
        }
        return l.iter().all(|x| collect(x, out, most));
    }
    true
}

/// Do the answers to these events not depend on rounding?  Positions that are on
/// a line are so also after each coordinate has been rounded, if that line is
/// parallel to an axis; any others are clearly left or right of each other's lines.
pub fn robust(events: &[V]) -> bool {
    events.iter().all(|e| {
        if !["g.valid", "g.simple", "hull", "seg.x"].contains(&e.at(0).s()) {
            return false;
        }
        let mut ps = std::collections::BTreeSet::new();
        if !collect(e.at(1), &mut ps, 100) || ps.len() > 60 {
            return false;
        }
        let ps: Vec<(i64, i64)> = ps.into_iter().collect();
        for (i, a) in ps.iter().enumerate() {
            for (j, b) in ps[..i].iter().enumerate() {
                if a.0 != b.0 && a.1 != b.1 {
                    for c in &ps[..j] {
                        if (b.0 - a.0) * (c.1 - a.1) == (b.1 - a.1) * (c.0 - a.0) {
                            return false;
                        }
                    }
                }
            }
        }
        true
    })
}
