//! Drivers: things of hundreds of positions or members, so that the library's
//! indexes have several levels.
use super::plane::*;
use super::rng::Rng;
use super::shapes::{lines_v, network, polys_v, ps, pv, tinker};
use super::{Gen, Session};
use crate::list;
use crate::val::{I, V};
use std::collections::BTreeSet;

/// Back and forth, row by row; maybe back to the start.
fn rows(r: &mut Rng, w: i64, h: i64, closed: bool) -> Line {
    let h = if closed { h / 2 * 2 } else { h };
    let mut l: Line = (0..w * h)
        .map(|i| {
            let (x, y) = (i % w, i / w);
            let x = if y % 2 == 0 { x } else { w - 1 - x };
            (3 * x + r.r(-1, 1), 3 * y + r.r(-1, 1))
        })
        .collect();
    if closed {
        l.push((-4, l[l.len() - 1].1));
        l.push((-4, l[0].1));
        l.push(l[0]);
        if l[0].1 == l[l.len() - 2].1 && l[l.len() - 3].1 == l[l.len() - 2].1 {
            l.remove(l.len() - 2);
        }
    }
    l
}
fn sizes(r: &mut Rng) -> (i64, i64) {
    *r.pick(&[(6, 12), (12, 12), (17, 16), (20, 20), (3, 100), (30, 9)])
}
/// The curve, in parts that follow one another.
fn parts(r: &mut Rng, l: &[P], n: usize) -> Vec<Line> {
    let mut at: BTreeSet<usize> = (0..n).map(|_| 1 + r.n(l.len() - 2)).collect();
    at.insert(0);
    at.insert(l.len() - 1);
    let at: Vec<usize> = at.into_iter().collect();
    let mut v: Vec<Line> = at.windows(2).map(|k| l[k[0]..=k[1]].to_vec()).collect();
    for l in v.iter_mut() {
        if r.one_in(2) {
            l.reverse();
        }
    }
    r.shuffle(&mut v);
    v
}
fn diamond(x: i64, y: i64, d: i64) -> Line {
    vec![(x, y - d), (x + d, y), (x, y + d), (x - d, y), (x, y - d)]
}
/// Diamonds of a grid, some of which touch in corners.
fn diamonds(r: &mut Rng, k: i64) -> Vec<Line> {
    let mut v = vec![];
    for i in 0..k {
        for j in 0..k {
            if !r.one_in(6) {
                let d = r.r(1, 2);
                v.push(redraw(r, &diamond(4 * i, 4 * j, d)));
            }
        }
    }
    r.shuffle(&mut v);
    v
}
/// A strictly convex loop of many positions: the sides are distinct directions.
fn round_loop(r: &mut Rng) -> Line {
    let k = r.r(4, 9);
    let mut u: Vec<P> = vec![];
    for x in -k..=k {
        for y in -k..=k {
            if gcd(x.abs(), y.abs()) == 1 && !r.one_in(5) {
                u.push((x, y));
            }
        }
    }
    u.sort_by(|a, b| (a.1 as f64).atan2(a.0 as f64).partial_cmp(&(b.1 as f64).atan2(b.0 as f64)).unwrap());
    let (mut x, mut y) = (0, 0);
    let mut l: Line = vec![];
    for v in &u {
        l.push((x, y));
        x += v.0;
        y += v.1;
    }
    // The last side goes back, if that is still a convex turn; else all directions are used.
    let back = (-x, -y);
    let turn = |a: P, b: P| a.0 * b.1 - a.1 * b.0 > 0;
    if back != (0, 0) && !(turn(u[u.len() - 1], back) && turn(back, u[0])) {
        // leave out none and their opposites instead
        u.retain(|v| v.0 > 0 || v.0 == 0 && v.1 > 0);
        let opposite: Vec<P> = u.iter().map(|v| (-v.0, -v.1)).collect();
        u.extend(opposite);
        l.clear();
        let (mut x, mut y) = (0, 0);
        for v in &u {
            l.push((x, y));
            x += v.0;
            y += v.1;
        }
    } else if back != (0, 0) {
        l.push((x, y));
    }
    l.push(l[0]);
    l
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a } else { gcd(b, a % b) }
}
pub fn shift(l: &[P], x: i64, y: i64) -> Line {
    l.iter().map(|p| (p.0 + x, p.1 + y)).collect()
}
fn frame(lo: i64, hi: i64) -> Line {
    vec![(lo, lo), (hi, lo), (hi, hi), (lo, hi), (lo, lo)]
}
/// A polygon around rows, or one of many holes.
fn polygon(r: &mut Rng) -> Vec<Line> {
    if r.one_in(2) {
        let (w, h) = sizes(r);
        let l = rows(r, w, h, true);
        vec![redraw(r, &l)]
    } else {
        let k = r.r(3, 7);
        let mut p = vec![frame(-3, 4 * k)];
        p.extend(diamonds(r, k));
        p
    }
}
fn disturb(r: &mut Rng, p: &mut [Line]) {
    let i = r.n(p.len());
    match r.n(3) {
        0 => tinker(r, &mut p[i]),
        1 => {
            let (x, y) = (r.r(-2, 2), r.r(-2, 2));
            p[i] = shift(&p[i], x, y)
        }
        _ => {
            let j = r.n(p.len());
            p[i] = reverse(&p[j])
        }
    }
}

pub fn grand(g: &mut Gen, prop: &str) {
    let times = match prop {
        "C09" | "C10" | "C12" | "C13" | "C19" => g.times(48, 800),
        "C14" | "C15" | "C17" | "C20" | "C24" => g.times(60, 1000),
        "C11" | "C21" | "C23" | "C25" => g.times(40, 600),
        _ => 0,
    };
    for round in 0..times {
        let e = g.emb();
        let r = &mut g.r;
        let mut s = Session::new(e);
        let (w, h) = sizes(r);
        let closed = r.one_in(2);
        match prop {
            "C09" => {
                let mut l = rows(r, w, h, closed);
                if round % 4 == 2 {
                    // straight on, and maybe back at either end
                    let u = (r.r(-2, 2), r.r(1, 3));
                    l = (0..w * h).map(|i| (2 * i * u.0, 2 * i * u.1)).collect();
                    let a = l[l.len() - 1];
                    match r.n(4) {
                        0 => l.push((a.0 - u.0, a.1 - u.1)),
                        1 => l.insert(0, *r.pick(&[(u.0, u.1), (3 * u.0, 3 * u.1)])),
                        2 => l.push((a.0 - 3 * u.0, a.1 - 3 * u.1)),
                        _ => {
                            let i = r.n(l.len() - 1);
                            l.insert(i + 1, (l[i].0 - u.0, l[i].1 - u.1))
                        }
                    }
                    s.ev("g.simple", list![2, ps(&l)]);
                    g.send(s);
                    continue;
                }
                if r.one_in(2) {
                    l = redraw_line(r, &l);
                }
                if round % 4 != 0 {
                    tinker(r, &mut l);
                }
                s.ev("g.simple", list![2, ps(&l)]);
            }
            "C10" => {
                let l = rows(r, w, h, closed);
                let n = *r.pick(&[1, 2, 5, 40, 100]);
                let mut v = parts(r, &l, n);
                if round % 3 != 0 {
                    disturb(r, &mut v);
                }
                s.ev("g.simple", list![5, lines_v(&v)]);
            }
            "C12" | "C24" | "C20" | "C17" => {
                let mut p = polygon(r);
                if prop != "C24" && round % 3 != 0 {
                    disturb(r, &mut p);
                }
                if prop == "C17" {
                    s.ev("g.info", list![3, lines_v(&p)]);
                    s.ev("g.info", list![5, lines_v(&p)]);
                    s.ev("g.info", list![2, ps(&p[0])]);
                    s.ev("g.info", list![4, ps(&p[0])]);
                } else {
                    s.ev(if prop == "C24" { "g.surf" } else { "g.valid" }, list![3, lines_v(&p)]);
                }
            }
            "C13" => {
                // diamonds, maybe within the holes of another
                let k = r.r(3, 7);
                let mut m: Vec<Vec<Line>> = diamonds(r, k).into_iter().map(|l| vec![l]).collect();
                if r.one_in(2) {
                    m.push(vec![frame(-9, 4 * k + 9), frame(-3, 4 * k)]);
                } else if r.one_in(2) {
                    let l = rows(r, w, h, true);
                    m.push(vec![shift(&l, 4 * k + 4, -20)]);
                }
                if round % 3 != 0 {
                    let i = r.n(m.len());
                    if r.one_in(2) {
                        disturb(r, &mut m[i]);
                    } else {
                        let j = r.n(m.len());
                        m[i] = m[j].clone();
                    }
                }
                r.shuffle(&mut m);
                s.ev("g.valid", list![6, polys_v(&m)]);
            }
            "C14" => match r.n(3) {
                0 => {
                    let n = r.r(100, 300) as usize;
                    let ls = network(r, 10, n);
                    s.ev("g.bnd", list![5, lines_v(&ls)]);
                }
                1 => {
                    let l = rows(r, w, h, closed);
                    let v = parts(r, &l, 100);
                    s.ev("g.bnd", list![5, lines_v(&v)]);
                    s.ev("g.bnd", list![2, ps(&l)]);
                }
                _ => {
                    let p = polygon(r);
                    s.ev("g.bnd", list![3, lines_v(&p)]);
                    let k = r.r(3, 9);
                    let m: Vec<Vec<Line>> = diamonds(r, k).into_iter().map(|l| vec![l]).collect();
                    s.ev("g.bnd", list![6, polys_v(&m)]);
                }
            },
            "C15" => {
                let l = match r.n(4) {
                    3 => round_loop(r),
                    0 => rows(r, w, h, true),
                    1 => {
                        let b = Board { w: 12 };
                        let free: BTreeSet<Tri> = b.all().into_iter().collect();
                        let n = r.r(100, 280) as usize;
                        match b.region(r, &free, n) {
                            Some(x) => x.1[0].clone(),
                            None => continue,
                        }
                    }
                    // around a circle, with positions all along the sides
                    _ => {
                        let l = star(r, 60, 90).unwrap_or_default();
                        densify(r, &l, 1)
                    }
                };
                if l.len() < 4 {
                    continue;
                }
                s.ev("hull", list![ps(&redraw(r, &l))]);
            }
            "C19" => {
                let p = polygon(r);
                let q: Vec<Line> = p.iter().map(|l| redraw(r, l)).collect();
                s.ev("rep", list![e.v(), 3, lines_v(&p), lines_v(&q)]);
            }
            "C11" => {
                let n = r.r(200, 600);
                let span = *r.pick(&[8, 200]);
                let points: Line = (0..n).map(|_| (r.r(-span, span), r.r(-span, span))).collect();
                s.ev("g.valid", list![4, ps(&points)]);
                s.ev("mp.simple", list![ps(&points)]);
                s.ev("mp.has", list![ps(&points), pv(*r.pick(&points))]);
                s.ev("mp.has", list![ps(&points), pv((r.r(-span, span), span + 1))]);
            }
            "C21" => {
                let l = rows(r, w, h, closed);
                s.ev("len.ls", list![ps(&l)]);
                let v = parts(r, &l, 60);
                s.ev("len.mls", list![lines_v(&v)]);
            }
            "C23" => {
                let (w, h) = if round % 2 == 0 { (r.r(25, 50), r.r(20, 45)) } else { (w, h) };
                let l = rows(r, w, h, closed);
                let k = *r.pick(&[0, 255, 256, 257]);
                s.ev("ls.views", list![k, ps(&l)]);
                for (x, y) in [(r.r(-2, 3 * w), r.r(-2, 3 * h)), *r.pick(&l), l[0], l[l.len() - 1]] {
                    s.ev("ls.index", list![ps(&l), list![x, y, x + r.r(0, 9), y + r.r(0, 9)]]);
                }
                let v = parts(r, &l, 60);
                s.ev("mls.closed", list![lines_v(&v)]);
            }
            _ => {
                let l = rows(r, w, h, closed);
                for k in 2..=4 {
                    s.ev("conv", V::L(vec![I(r.n(4) as i64), I(k), ps(&l)]));
                }
                let v = parts(r, &l, 100);
                s.ev("conv", V::L(vec![I(r.n(4) as i64), I(5), lines_v(&v)]));
                s.ev("conv", V::L(vec![I(r.n(4) as i64), I(6), lines_v(&v)]));
            }
        }
        g.send(s);
    }
}
/// Reversed, or started elsewhere if closed.
fn redraw_line(r: &mut Rng, l: &[P]) -> Line {
    if l[0] == l[l.len() - 1] { redraw(r, l) } else { reverse(l) }
}
