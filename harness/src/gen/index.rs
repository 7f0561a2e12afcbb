//! Drivers for the spatial index.
use super::misc::extreme;
use super::rng::Rng;
use super::{Gen, Session};
use crate::emb::{Emb, NAN, NINF, PINF};
use crate::list;
use crate::val::{I, L, V};

fn bx(a: i64, b: i64, c: i64, d: i64) -> V {
    list![a, b, c, d]
}

/// Sizes around powers of the degree, and others.
fn size(r: &mut Rng, degree: i64, max: i64) -> i64 {
    let n = match r.n(8) {
        0 => r.r(0, 3),
        1 => degree + r.r(-1, 1),
        2 => degree * degree + r.r(-1, 1),
        3 => degree * r.r(1, 5) + r.r(-1, 1),
        4 => degree * degree * degree + r.r(-1, 1),
        5 => r.r(0, 12),
        _ => r.r(0, max),
    };
    n.max(0).min(max)
}

/// Items of a kind: mostly envelopes, of several layouts.
fn items(r: &mut Rng, n: i64, odd: bool) -> (i64, V, i64) {
    let kind = if r.one_in(3) { r.r(1, 9) } else { 0 };
    let span = *r.pick(&[3, 8, 20, 60]);
    let big = *r.pick(&[0, 1, 3, 10]);
    let layout = r.n(6);
    let mut out = Vec::new();
    for i in 0..n {
        let (x, y) = match layout {
            0 => (i % (span + 1), i / (span + 1)),
            1 => (i % 40, i % 40),
            2 => (r.r(0, 2) * 20 + r.r(0, 2), r.r(0, 2) * 20 + r.r(0, 2)),
            3 => (span / 2, r.r(0, span)),
            _ => (r.r(0, span), r.r(0, span)),
        };
        let (w, h) = (r.r(0, big), r.r(0, big));
        let mut c = [x, y, x + w, y + h];
        let mut empty = false;
        if odd {
            match r.n(12) {
                0 => empty = true,
                1 => c[r.n(4)] = NAN,
                2 => {
                    let i = r.n(2);
                    c[i] = NAN;
                    c[i + 2] = NAN;
                }
                3 if r.one_in(3) => c[2 + r.n(2)] = PINF,
                4 if r.one_in(3) => c[r.n(2)] = NINF,
                _ => {}
            }
        }
        out.push(shape(r, kind, c, empty));
    }
    (kind, L(out), span + big)
}

/// A thing of a kind with corners c (or about so).
fn shape(r: &mut Rng, kind: i64, c: [i64; 4], empty: bool) -> V {
    let p = || list![c[0], c[1]];
    let q = || list![c[2], c[3]];
    let ring = || L(vec![p(), list![c[2], c[1]], q(), p()]);
    match kind {
        0 if empty => list![],
        0 if r.one_in(3) => bx(c[2], c[1], c[0], c[3]),
        0 | 2 => bx(c[0], c[1], c[2], c[3]),
        1 | 5 => p(),
        3 | 7 if empty => list![],
        3 | 7 => L(vec![p(), q()]),
        6 if empty => list![],
        6 => L(vec![ring()]),
        8 if empty => L(vec![list![]]),
        8 => L(vec![L(vec![p(), q()]), list![]]),
        9 if empty => list![],
        9 => L(vec![L(vec![ring()]), list![]]),
        _ if empty => list![r.pick(&[0i64, 2, 3, 4, 5, 6]).clone(), list![]],
        _ => match r.n(6) {
            0 => list![1, p()],
            1 => list![2, L(vec![p(), q()])],
            2 => list![3, L(vec![ring()])],
            3 => list![4, L(vec![q(), p()])],
            4 => list![5, L(vec![L(vec![q(), p()])])],
            _ => list![6, L(vec![L(vec![ring()])])],
        },
    }
}

/// Decimal coordinates only where nothing is computed from them.
fn emb(r: &mut Rng) -> Emb {
    if r.one_in(10) {
        return extreme(r);
    }
    match r.n(5) {
        0 | 1 => Emb::new(64, 0, 0, 0),
        2 => Emb::new(64, *r.pick(&[-30, -100, 60, 300]), r.r(-5000, 5000), r.r(-5000, 5000)),
        3 => Emb::new(32, *r.pick(&[0, -3, -40, 30]), r.r(-500, 500), r.r(-500, 500)),
        _ => Emb::new(32, 0, 0, 0),
    }
}

fn emb_decimal(r: &mut Rng) -> Emb {
    if r.one_in(5) {
        Emb::new(*r.pick(&[64, 32]), 1000, r.r(-50, 50), r.r(-50, 50))
    } else {
        emb(r)
    }
}

fn degree(r: &mut Rng) -> i64 {
    *r.pick(&[2, 2, 2, 4, 4, 8, 16])
}

fn build(s: &mut Session, r: &mut Rng, h: i64, max: i64) -> (i64, i64) {
    let d = degree(r);
    let n = size(r, d, max);
    let odd = r.one_in(2);
    let (kind, it, span) = items(r, n, odd);
    s.ev("build", list![h, kind, r.n(2), d, it]);
    (n, span)
}

pub fn queries(g: &mut Gen) {
    for round in 0..g.times(900, 12000) {
        let e = emb(&mut g.r);
        let mut s = Session::new(e);
        let r = &mut g.r;
        let (_, span) = build(&mut s, r, 0, if round % 60 == 0 { 600 } else { 80 });
        for _ in 0..5 {
            let (x, y) = (r.r(-1, span + 1), r.r(-1, span + 1));
            let (w, h) = (*r.pick(&[0, 0, 1, 2, span / 2, 2 * span]), *r.pick(&[0, 0, 1, 2, span / 2, 2 * span]));
            let q = match r.n(16) {
                0 => list![],
                1 => bx(x, NAN, x + w, NAN),
                2 => bx(NINF, y, PINF, y),
                3 => bx(-5, -5, span + 5, span + 5),
                4 => {
                    // unbounded on some sides
                    let mut c = [x, y, x + w, y + h];
                    for (i, c) in c.iter_mut().enumerate() {
                        if r.one_in(2) {
                            *c = if i < 2 { NINF } else { PINF };
                        }
                    }
                    bx(c[0], c[1], c[2], c[3])
                }
                _ => bx(x, y, x + w, y + h),
            };
            s.ev("range", list![0, q]);
        }
        for _ in 0..2 {
            let d = *r.pick(&[0, 1, 2, 5, span, -1]);
            s.ev("within", list![0, r.r(-1, span + 1), r.r(-1, span + 1), d.max(0)]);
        }
        if r.one_in(8) {
            s.ev("range", list![0, bx(NINF, NINF, PINF, PINF)]);
        }
        g.send(s);
    }
    let n = g.times(20, 300);
    large(g, n, 1800, 0);
    for _ in 0..g.times(1, 6) {
        // more items than 16 bits can count
        let mut s = Session::new(emb_decimal(&mut g.r));
        let r = &mut g.r;
        let n = 65536 + r.r(1, 4000);
        let it = L((0..n).map(|i| list![i % 300, i / 300]).collect());
        s.ev("build", list![0, 1, r.n(2), *r.pick(&[2, 16]), it]);
        for _ in 0..4 {
            let (x, y) = (r.r(0, 290), r.r(0, 217));
            s.ev("range", list![0, bx(x, y, x + r.r(0, 20), y + r.r(0, 2))]);
        }
        s.ev("range", list![0, bx(100, 217, 300, 240)]);
        g.send(s);
    }
}

/// Many levels, or wide nodes.
fn large(g: &mut Gen, times: usize, max: i64, joins: usize) {
    for _ in 0..times {
        let r = &mut g.r;
        let e = emb_decimal(r);
        let mut s = Session::new(e);
        for h in 0..joins.max(1) as i64 {
            let d = *r.pick(&[2, 4, 8, 16, 32, 64]);
            let n = r.r(max / 3, max);
            let span = *r.pick(&[30, 99, 400]);
            let it = L((0..n)
                .map(|_| {
                    let (x, y) = (r.r(0, span), r.r(0, span));
                    bx(x, y, x + r.r(0, 3), y + r.r(0, 3))
                })
                .collect());
            s.ev("build", list![h, 0, r.n(2), d, it]);
        }
        match joins {
            0 => {
                for _ in 0..6 {
                    let (x, y) = (r.r(0, 99), r.r(0, 99));
                    s.ev("range", list![0, bx(x, y, x + r.r(0, 30), y + r.r(0, 30))]);
                }
            }
            1 => s.ev("self", list![0]),
            _ => s.ev("join", list![0, 1]),
        }
        g.send(s);
    }
}

pub fn self_joins(g: &mut Gen) {
    for round in 0..g.times(1500, 15000) {
        let mut s = Session::new(emb_decimal(&mut g.r));
        build(&mut s, &mut g.r, 0, if round % 100 == 0 { 300 } else { 45 });
        s.ev("self", list![0]);
        g.send(s);
    }
    let n = g.times(8, 100);
    large(g, n, 500, 1);
}

pub fn joins(g: &mut Gen) {
    for round in 0..g.times(1200, 12000) {
        let mut s = Session::new(emb_decimal(&mut g.r));
        let big = if round % 80 == 0 { 200 } else { 40 };
        build(&mut s, &mut g.r, 0, big);
        let small = if g.r.one_in(3) { 3 } else { 40 };
        build(&mut s, &mut g.r, 1, small);
        s.ev("join", list![0, 1]);
        s.ev("join", list![1, 0]);
        if g.r.one_in(4) {
            s.ev("join", list![0, 0]);
        }
        g.send(s);
    }
    let n = g.times(8, 100);
    large(g, n, 400, 2);
}

pub fn walks(g: &mut Gen) {
    for round in 0..g.times(1500, 15000) {
        let mut s = Session::new(emb_decimal(&mut g.r));
        build(&mut s, &mut g.r, 0, if round % 50 == 0 { 500 } else { 90 });
        s.ev("walk", list![0]);
        if round % 20 == 0 {
            let r = &mut g.r;
            let n = r.r(1, 9);
            let it = L((0..n).map(|_| bx(r.r(0, 5), r.r(0, 5), r.r(0, 5), r.r(0, 5))).collect());
            let d = *r.pick(&[0, 3, 5, 6, 7, 9, 10, 12, 15, 17, 31, 33, 100]);
            s.ev("build.odd", list![r.n(2), d, it]);
        }
        g.send(s);
    }
    for _ in 0..g.times(12, 200) {
        // many levels, or wide nodes
        let r = &mut g.r;
        let d = *r.pick(&[2, 4, 8, 16, 32, 64]);
        let n = r.r(500, 1500);
        let e = emb_decimal(r);
        let it = L((0..n).map(|_| { let (x, y) = (r.r(0, 99), r.r(0, 99)); bx(x, y, x + r.r(0, 5), y) }).collect());
        let mut s = Session::new(e);
        s.ev("build", list![0, 0, r.n(2), d, it]);
        s.ev("walk", list![0]);
        g.send(s);
    }
    let most = if g.thorough { 70000 } else { 20000 };
    for i in 0..g.times(4, 16) {
        // many nodes in a level
        let r = &mut g.r;
        let n = if i == 0 { r.r(most / 2, most) } else { r.r(4097, 9000) };
        let it = L((0..n).map(|i| list![i % 300, i / 300]).collect());
        let mut s = Session::new(emb_decimal(r));
        s.ev("build", list![0, 1, r.n(2), *r.pick(&[2, 4, 16, 32]), it]);
        s.ev("walk", list![0]);
        g.send(s);
    }
}

/// Extents for which cells of the curve's grid are exact: divisors of 65535, times a small power of two.
fn extents() -> Vec<i64> {
    let mut out = vec![0];
    for d in (1..=65535).filter(|d| 65535 % d == 0) {
        out.extend((0..8).map(|k| d << k).filter(|e| *e <= 131072));
    }
    out.sort();
    out
}

pub fn orders(g: &mut Gen) {
    let all = extents();
    for _ in 0..g.times(1000, 12000) {
        let r = &mut g.r;
        let (w, h) = match r.n(5) {
            0 | 1 => (65535, 65535),
            2 | 3 => (*r.pick(&all), *r.pick(&all)),
            _ => {
                // almost square
                let i = r.n(all.len() - 1);
                if r.one_in(2) {
                    (all[i], all[i + 1])
                } else {
                    (all[i + 1], all[i])
                }
            }
        };
        let ty = if r.one_in(3) { 32 } else { 64 };
        let e = if ty == 64 && r.one_in(3) {
            Emb::new(64, *r.pick(&[-20, 0, 33]), r.r(-100_000, 100_000), r.r(-100_000, 100_000))
        } else {
            Emb::new(ty, *r.pick(&[0, 0, -4, -40, 5]), 0, 0)
        };
        let n = if r.one_in(8) { r.r(60, 240) } else { r.r(1, 40) };
        let mut it = Vec::new();
        // cells that are close on the curve, or that differ in one bit
        let base = (r.r(0, w), r.r(0, h));
        for _ in 0..n {
            let p = match r.n(4) {
                0 => (r.r(0, w), r.r(0, h)),
                1 => ((base.0 ^ (1 << r.n(16))).min(w), base.1),
                2 => (base.0, (base.1 ^ (1 << r.n(16))).min(h)),
                _ => ((base.0 + r.r(-3, 3)).max(0).min(w), (base.1 + r.r(-3, 3)).max(0).min(h)),
            };
            let b = r.r(0, 1) * r.r(0, 3).min(p.0).min(w - p.0).min(p.1).min(h - p.1);
            it.push(match r.n(25) {
                0 => list![],
                1 => bx(NAN, p.1, NAN, p.1),
                2 => bx(p.0, NAN, p.0, NAN),
                _ => bx(p.0 - b, p.1 - b, p.0 + b, p.1 + b),
            });
        }
        // the corners of the total envelope
        it.push(bx(0, 0, 0, 0));
        it.push(bx(w, h, w, h));
        if r.one_in(20) {
            it.push(bx(NINF, 0, 0, PINF));
        }
        r.shuffle(&mut it);
        if r.one_in(30) {
            it = vec![list![], list![]];
        }
        let d = degree(r);
        let mut s = Session::new(e);
        s.ev("build", V::L(vec![I(0), I(0), I(1), I(d), L(it)]));
        s.ev("order", list![0]);
        g.send(s);
    }
    // items of any kind: the order is a permutation, and sorting does not fail
    for _ in 0..g.times(150, 2000) {
        // (65535 / extent has to be a float)
        let mut e = emb(&mut g.r);
        while e.k < if e.single() { -100 } else { -1000 } {
            e = emb(&mut g.r);
        }
        let mut s = Session::new(e);
        build(&mut s, &mut g.r, 0, 40);
        s.ev("order", list![0]);
        g.send(s);
    }
}
