//! Histories of geometries that are made from geometries.
use super::shapes::{any_finite_geometry, valid_geometry};
use super::{Gen, Session};
use crate::emb::{NAN, NINF, PINF};
use crate::gen::rng::Rng;
use crate::list;
use crate::val::{L, V};

/// What is known of the geometry in a register.
#[derive(Clone, Copy, PartialEq)]
struct Kind {
    t: i64,
    /// A polygon that is valid and not empty, or one of its rings.
    sound: bool,
    /// It may be empty, so that it should get no holes.
    hollow: bool,
}
const GONE: Kind = Kind { t: 0, sound: false, hollow: true };
/// Empty or points.
const SOME_POINTS: i64 = -4;

/// Not a polygon of any kind, and nothing is said about it.
fn holes_in_nothing(p: &V) -> bool {
    p.l().len() > 1 && p.at(0).l().is_empty()
}

/// With a coordinate that is not a number or infinite, where that can be asked.
fn not_finite(r: &mut Rng, t: i64, d: V) -> V {
    let mut ps = match (t, d) {
        (1, d) => vec![d],
        (2, V::L(ps)) | (4, V::L(ps)) => ps,
        (_, d) => return d,
    };
    if !ps.is_empty() {
        let x = if t == 2 { *r.pick(&[PINF, NINF]) } else { *r.pick(&[NAN, PINF, NINF]) };
        let i = r.n(ps.len());
        let y = ps[i].at(0).i();
        ps[i] = if r.one_in(2) { list![x, y] } else { list![y, x] };
    }
    if t == 1 { ps.remove(0) } else { L(ps) }
}

/// Polygons of exteriors alone, which can be converted.
fn bare(t: i64, d: &V) -> bool {
    let one = |p: &V| p.l().len() == 1;
    t != 0 && (t != 3 || one(d)) && (t != 6 || d.l().iter().all(|p| one(p)))
}

pub fn histories(g: &mut Gen) {
    for _ in 0..g.times(1600, 25000) {
        let e = g.emb();
        let mut s = Session::new(e);
        let r = &mut g.r;
        let mut k = [GONE; 4];
        for _ in 0..r.r(3, 14) {
            let (a, b, to) = (r.n(4), r.n(4), r.n(4));
            let (ka, kb) = (k[a], k[b]);
            let reg = |i: usize| i as i64;
            match r.n(8) {
                0 | 1 => {
                    let valid = r.n(3) > 0;
                    let v = if valid { valid_geometry(r) } else { any_finite_geometry(r) };
                    // Mostly lines and polygons, which can be made into others.
                    let v = match v.at(0).i() {
                        6 if r.one_in(2) && !v.at(1).l().is_empty() => list![3, r.pick(v.at(1).l()).clone()],
                        5 if r.one_in(2) && !v.at(1).l().is_empty() => list![2, r.pick(v.at(1).l()).clone()],
                        4 if r.one_in(2) && !v.at(1).l().is_empty() => list![1, r.pick(v.at(1).l()).clone()],
                        _ => v,
                    };
                    let t = v.at(0).i();
                    let d = if r.one_in(4) { not_finite(r, t, v.at(1).clone()) } else { v.at(1).clone() };
                    if t == 3 && holes_in_nothing(&d) || t == 6 && d.l().iter().any(holes_in_nothing) {
                        continue;
                    }
                    let how = if bare(t, &d) { r.r(0, 4) } else { 0 };
                    let empty = d.l().is_empty() || (t == 3 && d.at(0).l().is_empty());
                    k[to] = Kind { t, sound: valid && t == 3 && !empty, hollow: empty };
                    s.ev("geo.new", list![reg(to), how, t, d]);
                }
                2 => {
                    s.ev("geo.bnd", list![reg(a), reg(to)]);
                    let t = match ka.t {
                        2 | 5 => SOME_POINTS,
                        3 | 6 => 5,
                        _ => 0,
                    };
                    k[to] = Kind { t, sound: false, hollow: true };
                }
                3 => {
                    let i = r.n(3);
                    s.ev("geo.part", list![reg(a), reg(i), reg(to)]);
                    // It may not be there.
                    k[to] = if ka.t == 3 && i == 0 { Kind { t: 2, sound: ka.sound, hollow: ka.hollow } } else { GONE };
                    if ka.t == 2 && i == 0 {
                        k[to] = ka;
                    }
                }
                4 | 5 if [1, 2, 3].contains(&ka.t) && [1, 2, 3, 4, 5, 6].contains(&kb.t) && a != b && r.n(3) > 0 => {
                    // b is joined by a
                    let t = match (kb.t, ka.t) {
                        (1, 1) | (4, 1) => 4,
                        (2, 2) if kb.hollow => 5,
                        (2, 2) => *r.pick(&[3, 5]),
                        (3, 2) if !kb.hollow => 3,
                        (5, 2) => 5,
                        (3, 3) | (6, 3) => 6,
                        _ => continue,
                    };
                    s.ev("geo.join", list![reg(b), reg(a), t, reg(to)]);
                    k[a] = GONE;
                    k[b] = GONE;
                    k[to] = Kind { t, sound: false, hollow: kb.hollow };
                }
                4 | 5 | 6 if [1, 2, 3].contains(&ka.t) => {
                    let t = match ka.t {
                        1 => 4,
                        2 => *r.pick(&[3, 5, 6]),
                        _ => 6,
                    };
                    s.ev("geo.wrap", list![reg(a), t, reg(to)]);
                    k[a] = GONE;
                    k[to] = Kind { t, sound: ka.sound && t == 3, hollow: ka.hollow };
                }
                _ if ka.sound && ka.t == 3 => {
                    if r.one_in(2) {
                        s.ev("geo.hull", list![reg(a), reg(to)]);
                        k[to] = Kind { t: 2, sound: true, hollow: false };
                    } else {
                        s.ev("geo.surf", list![reg(a)]);
                    }
                }
                _ if ka.t.abs() == 4 => {
                    s.ev("geo.thin", list![reg(a), reg(to)]);
                    k[to] = Kind { t: SOME_POINTS, sound: false, hollow: true };
                }
                _ => continue,
            }
            if r.n(3) > 0 {
                s.ev("geo.ask", list![reg(to)]);
            }
            if r.one_in(4) {
                s.ev("geo.eq", list![reg(a), reg(to)]);
            }
        }
        for i in 0..4 {
            s.ev("geo.ask", list![i]);
            s.ev("geo.eq", list![i, (i + 1) % 4]);
        }
        g.send(s);
    }
}
