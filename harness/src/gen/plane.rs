//! Integer geometry that steers the generators towards interesting cases.
//! It is no oracle: what a case has to give is for the specification to say.
use super::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub type P = (i64, i64);
pub type Line = Vec<P>;

pub fn cross(o: P, a: P, b: P) -> i64 {
    (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0)
}
pub fn on(p: P, a: P, b: P) -> bool {
    cross(a, b, p) == 0
        && a.0.min(b.0) <= p.0
        && p.0 <= a.0.max(b.0)
        && a.1.min(b.1) <= p.1
        && p.1 <= a.1.max(b.1)
}
pub fn meet(p: P, q: P, r: P, s: P) -> bool {
    let g = |x: i64| x.signum();
    on(p, r, s)
        || on(q, r, s)
        || on(r, p, q)
        || on(s, p, q)
        || (g(cross(p, q, r)) * g(cross(p, q, s)) == -1 && g(cross(r, s, p)) * g(cross(r, s, q)) == -1)
}
pub fn simple_loop(l: &[P]) -> bool {
    let n = l.len() - 1;
    if n < 3 || l[0] != l[n] {
        return false;
    }
    for i in 0..n {
        if l[i] == l[i + 1] {
            return false;
        }
        for j in i + 1..n {
            if j == i + 1 || (i == 0 && j == n - 1) {
                // share exactly one end
                let (a, b, c) = if j == i + 1 { (l[i], l[i + 1], l[i + 2]) } else { (l[n - 1], l[0], l[1]) };
                if a == c || (cross(a, b, c) == 0 && (on(c, a, b) || on(a, b, c))) {
                    return false;
                }
            } else if meet(l[i], l[i + 1], l[j], l[j + 1]) {
                return false;
            }
        }
    }
    true
}

pub fn close(mut l: Line) -> Line {
    l.push(l[0]);
    l
}

/// A loop through random positions, if that is simple.
pub fn random_loop(r: &mut Rng, n: usize, lo: i64, hi: i64) -> Option<Line> {
    for _ in 0..40 {
        let l = close((0..n).map(|_| (r.r(lo, hi), r.r(lo, hi))).collect());
        if simple_loop(&l) {
            return Some(l);
        }
    }
    None
}

/// A star-shaped loop around the origin with up to n positions.
pub fn star(r: &mut Rng, n: usize, radius: i64) -> Option<Line> {
    let mut dirs: BTreeMap<(i64, i64), P> = BTreeMap::new();
    fn gcd(a: i64, b: i64) -> i64 {
        if b == 0 { a.abs() } else { gcd(b, a % b) }
    }
    for _ in 0..n {
        let p = (r.r(-radius, radius), r.r(-radius, radius));
        let g = gcd(p.0, p.1);
        if g > 0 {
            dirs.insert((p.0 / g, p.1 / g), p);
        }
    }
    let mut v: Vec<P> = dirs.values().cloned().collect();
    let half = |p: &P| if p.1 > 0 || (p.1 == 0 && p.0 > 0) { 0 } else { 1 };
    v.sort_by(|a, b| half(a).cmp(&half(b)).then(0.cmp(&(a.0 * b.1 - a.1 * b.0))));
    if v.len() < 3 {
        return None;
    }
    let l = close(v);
    if simple_loop(&l) { Some(l) } else { None }
}

/// Insert positions on the segments of a line, where there are lattice ones.
pub fn densify(r: &mut Rng, l: &[P], one_in: usize) -> Line {
    let mut out = Vec::new();
    for i in 0..l.len() {
        out.push(l[i]);
        if i + 1 < l.len() {
            let d = (l[i + 1].0 - l[i].0, l[i + 1].1 - l[i].1);
            let g = (1..=d.0.abs().max(d.1.abs())).filter(|k| d.0 % k == 0 && d.1 % k == 0).max().unwrap_or(1);
            for k in 1..g {
                if r.one_in(one_in) {
                    out.push((l[i].0 + d.0 / g * k, l[i].1 + d.1 / g * k));
                }
            }
        }
    }
    out
}
pub fn rotate(l: &[P], k: usize) -> Line {
    if l.len() < 2 {
        return l.to_vec();
    }
    let n = l.len() - 1;
    let mut v: Line = (0..n).map(|i| l[(i + k) % n]).collect();
    v.push(v[0]);
    v
}
pub fn reverse(l: &[P]) -> Line {
    l.iter().rev().cloned().collect()
}
/// Other start, direction, density.
pub fn redraw(r: &mut Rng, l: &[P]) -> Line {
    let mut l = l.to_vec();
    if r.one_in(2) {
        l = densify(r, &l, 2);
    }
    if r.one_in(2) {
        l = reverse(&l);
    }
    let k = r.n(l.len() + 1);
    rotate(&l, k)
}

/// A unimodular map, which keeps all incidences.
#[derive(Clone, Copy)]
pub struct Map(pub i64, pub i64, pub i64, pub i64, pub i64, pub i64);
impl Map {
    pub fn random(r: &mut Rng) -> Map {
        match r.n(8) {
            0 | 1 | 2 => Map(1, 0, 0, 1, 0, 0),
            3 => Map(0, 1, 1, 0, 0, 0),
            4 => Map(1, 1, 0, 1, 0, 0),
            5 => Map(1, 0, -1, 1, 0, 0),
            6 => Map(2, 1, 1, 1, 0, 0),
            _ => Map(-1, 0, 0, 1, r.r(0, 5), r.r(0, 5)),
        }
    }
    pub fn p(&self, p: P) -> P {
        (self.0 * p.0 + self.1 * p.1 + self.4, self.2 * p.0 + self.3 * p.1 + self.5)
    }
    pub fn line(&self, l: &[P]) -> Line {
        l.iter().map(|p| self.p(*p)).collect()
    }
}

// ---- regions of a triangulated square ---------------------------------------

/// Triangles of a w x w square whose unit squares (of side 2) are cut along
/// both diagonals: triangle (x, y, side).
pub type Tri = (i64, i64, u8);
pub struct Board {
    pub w: i64,
}
impl Board {
    pub fn all(&self) -> Vec<Tri> {
        let mut v = Vec::new();
        for x in 0..self.w {
            for y in 0..self.w {
                for s in 0..4 {
                    v.push((x, y, s));
                }
            }
        }
        v
    }
    /// Counter-clockwise corners; side 0 south, 1 east, 2 north, 3 west.
    pub fn corners(t: Tri) -> [P; 3] {
        let (x, y) = (2 * t.0, 2 * t.1);
        let c = (x + 1, y + 1);
        let q = [(x, y), (x + 2, y), (x + 2, y + 2), (x, y + 2)];
        [q[t.2 as usize], q[(t.2 as usize + 1) % 4], c]
    }
    pub fn neighbors(&self, t: Tri) -> Vec<Tri> {
        let mut v = vec![(t.0, t.1, (t.2 + 1) % 4), (t.0, t.1, (t.2 + 3) % 4)];
        let o = match t.2 {
            0 => (t.0, t.1 - 1, 2),
            1 => (t.0 + 1, t.1, 3),
            2 => (t.0, t.1 + 1, 0),
            _ => (t.0 - 1, t.1, 1),
        };
        if o.0 >= 0 && o.1 >= 0 && o.0 < self.w && o.1 < self.w {
            v.push(o);
        }
        v
    }
    /// A connected set of up to n of the free triangles.
    pub fn grow(&self, r: &mut Rng, free: &BTreeSet<Tri>, n: usize) -> BTreeSet<Tri> {
        let mut set = BTreeSet::new();
        if free.is_empty() {
            return set;
        }
        let list: Vec<Tri> = free.iter().cloned().collect();
        set.insert(*r.pick(&list));
        for _ in 0..4 * n {
            if set.len() >= n {
                break;
            }
            let list: Vec<Tri> = set.iter().cloned().collect();
            let t = *r.pick(&list);
            let around = self.neighbors(t);
            let u = *r.pick(&around);
            if free.contains(&u) {
                set.insert(u);
            }
        }
        set
    }
    /// The boundary loops of a region, if no two of them touch and none
    /// touches itself: first those that are counter-clockwise.
    pub fn loops(set: &BTreeSet<Tri>) -> Option<Vec<Line>> {
        let mut edges: BTreeSet<(P, P)> = BTreeSet::new();
        for &t in set {
            let c = Board::corners(t);
            for i in 0..3 {
                let e = (c[i], c[(i + 1) % 3]);
                if !edges.remove(&(e.1, e.0)) {
                    edges.insert(e);
                }
            }
        }
        let mut next: BTreeMap<P, P> = BTreeMap::new();
        for &(a, b) in &edges {
            if next.insert(a, b).is_some() {
                return None;
            }
        }
        let mut loops = Vec::new();
        while let Some((&a, _)) = next.iter().next() {
            let mut l = vec![a];
            let mut at = a;
            while let Some(b) = next.remove(&at) {
                l.push(b);
                at = b;
            }
            loops.push(undensify(&l));
        }
        loops.sort_by_key(|l| area2(l) < 0);
        Some(loops)
    }
    pub fn region(&self, r: &mut Rng, free: &BTreeSet<Tri>, n: usize) -> Option<(BTreeSet<Tri>, Vec<Line>)> {
        for _ in 0..20 {
            let set = self.grow(r, free, n);
            if let Some(l) = Board::loops(&set) {
                if !l.is_empty() {
                    return Some((set, l));
                }
            }
        }
        None
    }
    /// Triangles enclosed by a loop (a boundary of triangles).
    pub fn inside(&self, l: &[P]) -> BTreeSet<Tri> {
        self.all()
            .into_iter()
            .filter(|t| {
                let c = Board::corners(*t);
                // three times the center
                let m = (c[0].0 + c[1].0 + c[2].0, c[0].1 + c[1].1 + c[2].1);
                let mut odd = false;
                for i in 0..l.len() - 1 {
                    let (p, q) = ((3 * l[i].0, 3 * l[i].1), (3 * l[i + 1].0, 3 * l[i + 1].1));
                    if (p.1 <= m.1 && m.1 < q.1 && cross(p, q, m) > 0)
                        || (q.1 <= m.1 && m.1 < p.1 && cross(p, q, m) < 0)
                    {
                        odd = !odd;
                    }
                }
                odd
            })
            .collect()
    }
}
pub fn area2(l: &[P]) -> i64 {
    (0..l.len() - 1).map(|i| l[i].0 * l[i + 1].1 - l[i].1 * l[i + 1].0).sum()
}
/// Leave out the positions in the middle of straight runs of a loop.
pub fn undensify(l: &[P]) -> Line {
    let n = l.len() - 1;
    let v: Line = (0..n).filter(|&i| cross(l[(i + n - 1) % n], l[i], l[(i + 1) % n]) != 0).map(|i| l[i]).collect();
    close(v)
}
