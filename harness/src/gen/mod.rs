//! Drivers: sessions of calls for each property, random and adversarial.
mod geoms;
mod giant;
mod grand;
mod index;
mod misc;
mod plane;
mod rng;
mod shapes;

use crate::emb::{collect, robust, stretch, suits, Emb, DECIMAL, FAR, SHEAR, SHEAR_Y, THIRDS};
use crate::list;
use crate::val::V;
use rng::Rng;
use std::collections::BTreeSet;

pub struct Session {
    pub emb: Emb,
    pub events: Vec<V>,
}
impl Session {
    pub fn new(emb: Emb) -> Session {
        Session { emb, events: vec![] }
    }
    pub fn ev(&mut self, name: &str, input: V) {
        self.events.push(list![name, input]);
    }
    pub fn v(self) -> V {
        V::L(vec![self.emb.v(), V::L(self.events)])
    }
}

pub struct Gen<'a> {
    pub r: Rng,
    pub thorough: bool,
    pub out: &'a mut dyn FnMut(V),
}
impl<'a> Gen<'a> {
    pub fn send(&mut self, s: Session) {
        match self.r.n(8) {
            0 | 1 => self.rounded(s),
            2 | 3 => self.skewed(s),
            4 => self.torn(s),
            _ => self.put(s),
        }
    }
    pub fn send_as_is(&mut self, s: Session) {
        self.put(s)
    }
    /// Send with a wide gap in the middle, if nothing is measured.
    fn torn(&mut self, mut s: Session) {
        let r = &mut self.r;
        let mut ps = BTreeSet::new();
        let suited = s.events.iter().all(|v| {
            let op = v.at(0).s();
            ["g.valid", "g.simple", "g.bnd"].contains(&op) && collect(v.at(1), &mut ps, 100)
        });
        let turn = r.one_in(2);
        let axes = |p: &(i64, i64)| if turn { (p.1, p.0) } else { *p };
        let (lo, hi) = (ps.iter().map(|p| axes(p).1).min(), ps.iter().map(|p| axes(p).1).max());
        if let (true, Some(lo), Some(hi)) = (suited && ps.len() < 60, lo, hi) {
            // (for the integers of the specification)
            let most = (1 << 28) / ((hi - lo + 1) * ps.len() as i64);
            let gap = most.min(1 << r.r(8, 22));
            let cut = axes(r.pick(&ps.into_iter().collect::<Vec<_>>())).0 + r.r(0, 1);
            s.emb = match r.n(3) {
                0 => Emb::new(64, 0, 0, 0),
                1 => Emb::new(64, *r.pick(&[-90, -30, 7, 200]), 0, 0),
                _ => Emb::new(64, stretch(r.r(-60, 60), r.r(-60, 60)), 0, 0),
            };
            s.events = s.events.iter().map(|v| V::L(vec![v.at(0).clone(), tear(v.at(1), turn, cut, gap)])).collect();
        }
        self.put(s)
    }
    /// Send far from the origin, stretched or sheared, if that does not matter.
    fn skewed(&mut self, mut s: Session) {
        let e = skew(&mut self.r);
        if suits(&e, &s.events) {
            s.emb = e;
        }
        self.put(s)
    }
    fn put(&mut self, mut s: Session) {
        if self.r.one_in(5) {
            s.emb = s.emb.signs();
        }
        if !s.events.is_empty() {
            (self.out)(s.v())
        }
    }
    /// Send with coordinates that floats can't represent, if that does not matter.
    pub fn rounded(&mut self, mut s: Session) {
        if robust(&s.events) {
            let r = &mut self.r;
            let k = *r.pick(&[DECIMAL, THIRDS]);
            s.emb = match r.n(3) {
                0 => Emb::new(32, k, 0, 0),
                1 => Emb::new(64, k, 0, 0),
                _ => Emb::new(64, k, r.r(-1000, 1000), r.r(-1000, 1000)),
            };
        }
        self.put(s)
    }
    /// How often, in the quick and the thorough tier.
    pub fn times(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    /// One session of a single call.
    pub fn one(&mut self, e: Emb, name: &str, input: V) {
        let mut s = Session::new(e);
        s.ev(name, input);
        self.send(s);
    }
    /// An embedding for coordinates in -100..100 whose differences are exact
    /// and whose intersections are well separated.
    pub fn emb(&mut self) -> Emb {
        let r = &mut self.r;
        match r.n(16) {
            0..=4 => Emb::new(64, 0, 0, 0),
            5 => Emb::new(64, *r.pick(&[-3, 7]), 0, 0),
            6 | 7 => Emb::new(64, *r.pick(&[-30, -60, -120, -180]), 0, 0),
            8 => Emb::new(64, *r.pick(&[30, 60, 150, 300]), 0, 0),
            9 => Emb::new(64, *r.pick(&[0, -2, 5]), r.r(-1_000_003, 1_000_003), r.r(-1_000_003, 1_000_003)),
            10 => Emb::new(64, -1, r.r(-30, 30), r.r(-30, 30)),
            11 | 12 => Emb::new(32, *r.pick(&[0, 0, -4, 10]), 0, 0),
            13 => Emb::new(32, *r.pick(&[-20, -30, -45]), 0, 0),
            14 => Emb::new(32, *r.pick(&[20, 45]), 0, 0),
            _ => Emb::new(32, *r.pick(&[0, -2, 3]), r.r(-60, 60), r.r(-60, 60)),
        }
    }
}

/// Moves the positions to the right of a line (or above it) further away.
fn tear(v: &V, turn: bool, cut: i64, gap: i64) -> V {
    match v {
        V::L(l) if l.len() == 2 && l.iter().all(|x| matches!(x, V::I(_))) => {
            let mut p = v.ints();
            let i = usize::from(turn);
            if p[i] >= cut && p[i].abs() < 1000 {
                p[i] += gap;
            }
            list![p[0], p[1]]
        }
        V::L(l) => V::L(l.iter().map(|x| tear(x, turn, cut, gap)).collect()),
        _ => v.clone(),
    }
}

/// Affine maps that are exact for coordinates in -100..100.
pub fn skew(r: &mut Rng) -> Emb {
    match r.n(8) {
        0 => Emb::new(64, FAR + r.r(20, 40), r.r(-8, 8), r.r(-8, 8)),
        1 => Emb::new(64, FAR + r.r(41, 48), *r.pick(&[-1, 0, 1]), *r.pick(&[-1, 0, 1])),
        2 => Emb::new(32, FAR + r.r(6, 12), *r.pick(&[-1, 0, 1]), *r.pick(&[-1, 0, 1])),
        3 => Emb::new(64, stretch(r.r(-200, 200), r.r(-200, 200)), r.r(-50, 50), r.r(-50, 50)),
        4 => Emb::new(*r.pick(&[64, 32]), stretch(r.r(-20, 20), r.r(-20, 20)), 0, 0),
        5 => Emb::new(64, SHEAR + r.r(1, 24), r.r(-20, 20), r.r(-20, 20)),
        6 => Emb::new(64, SHEAR_Y + r.r(1, 24), r.r(-20, 20), r.r(-20, 20)),
        _ => Emb::new(32, *r.pick(&[SHEAR, SHEAR_Y]) + r.r(1, 4), 0, 0),
    }
}

pub fn generate(prop: &str, seed: u64, tier: &str, out: &mut dyn FnMut(V)) {
    let mut g = Gen { r: Rng::new(seed, prop), thorough: tier == "thorough", out };
    match prop {
        "C01" => index::queries(&mut g),
        "C02" => index::self_joins(&mut g),
        "C03" => index::joins(&mut g),
        "C04" => index::walks(&mut g),
        "C05" => index::orders(&mut g),
        "C06" => misc::envelopes(&mut g),
        "C07" => misc::intersections(&mut g),
        "C08" => misc::orientations(&mut g),
        "C09" => shapes::lines(&mut g),
        "C10" => shapes::multi_lines(&mut g),
        "C11" => misc::multi_points(&mut g),
        "C12" => shapes::polygons(&mut g),
        "C13" => shapes::multi_polygons(&mut g),
        "C14" => shapes::boundaries(&mut g),
        "C15" => shapes::hulls(&mut g),
        "C16" => misc::texts(&mut g),
        "C17" => shapes::accessors(&mut g),
        "C18" => misc::linear(&mut g),
        "C19" => shapes::representations(&mut g),
        "C20" => shapes::totality(&mut g),
        "C21" => misc::lengths(&mut g),
        "C22" => misc::positions(&mut g),
        "C23" => misc::views(&mut g),
        "C24" => shapes::surface_points(&mut g),
        "C25" => misc::conversions(&mut g),
        "C26" => geoms::histories(&mut g),
        _ => panic!("no driver for {}", prop),
    }
    grand::grand(&mut g, prop);
    giant::giant(&mut g, prop);
}
