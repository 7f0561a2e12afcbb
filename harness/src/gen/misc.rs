//! Drivers for envelopes, segments, points, text, lengths, and one dimension.
use super::rng::Rng;
use super::shapes::{ps, pv};
use super::{Gen, Session};
use crate::emb::{stretch, Emb, NAN, NINF, NZERO, PINF};
use crate::list;
use crate::val::{I, L, V};

/// A coordinate that may be no number, infinite, or a negative zero.
fn odd(r: &mut Rng, span: i64) -> i64 {
    match r.n(14) {
        0 => NAN,
        1 => PINF,
        2 => NINF,
        3 => NZERO,
        4 => 0,
        _ => r.r(-span, span),
    }
}
fn tame(r: &mut Rng, span: i64, oddness: bool) -> i64 {
    if oddness { odd(r, span) } else { r.r(-span, span) }
}
fn grain(r: &mut Rng, span: i64, oddness: bool, tiny: bool) -> i64 {
    match tame(r, span, oddness) {
        NZERO if tiny => 1,
        c if tiny && c.abs() <= span => c | 1,
        c => c,
    }
}
/// The smallest and the largest coordinates there are, where nothing is multiplied.
pub fn extreme(r: &mut Rng) -> Emb {
    let (ty, k) = *r.pick(&[(64, -1072), (64, -1072), (64, -1030), (64, 990), (32, -147), (32, 110)]);
    Emb::new(ty, k, 0, 0)
}
fn plain(r: &mut Rng) -> Emb {
    if r.one_in(7) {
        return extreme(r);
    }
    Emb::new(*r.pick(&[64, 64, 32]), *r.pick(&[0, 0, 5, -3, 30, -40]), 0, 0)
}

pub fn envelopes(g: &mut Gen) {
    for _ in 0..g.times(2500, 40000) {
        let r = &mut g.r;
        let oddness = r.one_in(2);
        let mut e = plain(r);
        if !oddness && r.one_in(2) {
            e = Emb::new(64, *r.pick(&[0, 500, -500]), r.r(-1000, 1000), r.r(-1000, 1000));
        }
        // multiples of the smallest float there is: odd ones, so that centers are exact
        let tiny = r.one_in(12);
        if tiny {
            e = if r.one_in(3) { Emb::new(32, -149, 0, 0) } else { Emb::new(64, -1074, 0, 0) };
        }
        let span = *r.pick(&[2, 5, 40]);
        let mut s = Session::new(e);
        for _ in 0..r.r(4, 14) {
            let mut c = || grain(r, span, oddness, tiny);
            let item = match c().rem_euclid(3) {
                0 => (0, list![c(), c(), c(), c()]),
                1 => (1, list![c(), c()]),
                _ => (2, list![c(), c(), c(), c()]),
            };
            let item = if item.0 == 0 && r.one_in(5) { (0, list![]) } else { item };
            let (a, b, d) = (r.n(4), r.n(4), r.n(4));
            match r.n(12) {
                0 => {
                    let mut c = || grain(r, span, oddness, tiny);
                    s.ev("env.new", list![a, c(), c(), c(), c()])
                }
                1 if r.one_in(3) => s.ev("env.lit", list![a]),
                1 => {
                    let mut c = || grain(r, span, oddness, tiny);
                    let (x1, y1, x2, y2) = (c(), c(), c(), c());
                    s.ev("env.lit", list![d, x1, y1, x2, y2]);
                    s.ev("env.ask", list![d]);
                    // no longer a box: replace it
                    s.ev("env.new", list![d, x1, y1, x2, y2]);
                }
                2 => {
                    let kind = r.n(3);
                    let mut xs = Vec::new();
                    for _ in 0..r.n(6) {
                        let mut c = || grain(r, span, oddness, tiny);
                        xs.push(if kind == 1 {
                            list![c(), c()]
                        } else {
                            list![c(), c(), c(), c()]
                        });
                        if kind == 0 && r.one_in(4) {
                            xs.push(list![]);
                        }
                    }
                    s.ev("env.of", list![a, kind, L(xs)])
                }
                3 | 4 => s.ev("env.expand", list![a, item.0, item.1]),
                5 => s.ev("env.merge", list![a, b, d]),
                6 => s.ev("env.add", list![a, item.0, item.1, d]),
                7 => {
                    let by = match r.n(9) {
                        0 if oddness => NAN,
                        1 if oddness => PINF,
                        _ if tiny => 2 * r.r(0, span),
                        _ => r.r(0, span),
                    };
                    s.ev("env.buffer", list![a, by, d])
                }
                8 => s.ev("env.ask", list![a]),
                9 | 10 => s.ev("env.rel", list![a, b]),
                _ => {
                    let mut c = || grain(r, span, oddness, tiny);
                    s.ev("env.has", list![a, list![c(), c()]])
                }
            }
        }
        for a in 0..4 {
            s.ev("env.ask", list![a]);
            s.ev("env.rel", list![a, (a + 1) % 4]);
        }
        g.send(s);
    }
}

/// A long segment along an axis, and a short one that crosses it, or ends there or
/// just before, close to one of its ends, in a whole position.
fn far_apart(g: &mut Gen) {
    let r = &mut g.r;
    let len: i64 = 1 << r.r(10, 28);
    let (k, a, b) = (r.r(0, 3), r.r(1, 2), r.r(-1, 2));
    let at = if r.one_in(2) { k } else { len - k };
    let lean = if r.one_in(2) { 0 } else { r.r(-2, 2) };
    let mut ps = [(0, 0), (len, 0), (at - lean * a, -a), (at + lean * b, b)];
    if r.one_in(3) {
        // almost parallel
        ps = [(0, 0), (len, 0), (at - len / 2, -a), (at + len / 2, r.r(0, 1) * a)];
    }
    let (mx, my, turn, sx, sy) = (r.one_in(2), r.one_in(2), r.one_in(2), r.r(-2, 2), r.r(-2, 2));
    for p in ps.iter_mut() {
        *p = (if mx { -p.0 } else { p.0 } + sx, if my { -p.1 } else { p.1 } + sy);
        if turn {
            *p = (p.1, p.0);
        }
    }
    let e = match r.n(4) {
        0 => Emb::new(64, 0, 0, 0),
        1 if len <= 1 << 18 => Emb::new(32, *r.pick(&[-7, 0, 10]), 0, 0),
        1 | 2 => Emb::new(64, *r.pick(&[-90, -30, 7, 200]), 0, 0),
        _ => Emb::new(64, stretch(r.r(-60, 60), r.r(-60, 60)), 0, 0),
    };
    let mut s = Session::new(e);
    let (x, y) = ((ps[0], ps[1]), (ps[2], ps[3]));
    s.ev("seg.x", list![sg(x.0, x.1), sg(y.0, y.1)]);
    s.ev("seg.x", list![sg(y.0, y.1), sg(x.0, x.1)]);
    s.ev("seg.x", list![sg(x.1, x.0), sg(y.0, y.1)]);
    s.ev("seg.x", list![sg(x.0, x.1), sg(y.1, y.0)]);
    g.send_as_is(s);
}

fn sg(p: (i64, i64), q: (i64, i64)) -> V {
    list![p.0, p.1, q.0, q.1]
}

pub fn intersections(g: &mut Gen) {
    for _ in 0..g.times(1500, 20000) {
        far_apart(g);
    }
    for _ in 0..g.times(9000, 150000) {
        let e = g.emb();
        let r = &mut g.r;
        let span = *r.pick(&[2, 3, 5, 12, 28]);
        let mut p = || (r.r(-span, span), r.r(-span, span));
        let (a, b, c, d) = (p(), p(), p(), p());
        // positions on the line through a in direction u
        let u = (r.r(-4, 4), r.r(-4, 4));
        let on = |k: i64| (a.0 + u.0 * k, a.1 + u.1 * k);
        let (x, y) = match r.n(9) {
            0 | 1 => ((a, b), (c, d)),
            // collinear
            2 | 3 => ((on(r.r(-4, 4)), on(r.r(-4, 4))), (on(r.r(-4, 4)), on(r.r(-4, 4)))),
            // parallel
            4 => {
                let (i, j) = (r.r(-3, 3), r.r(-3, 3));
                let m = (r.r(-1, 1), r.r(-1, 1));
                ((on(-2), on(r.r(-1, 3))), ((on(i).0 + m.0, on(i).1 + m.1), (on(j).0 + m.0, on(j).1 + m.1)))
            }
            // an end on the other one's line
            5 | 6 => ((on(r.r(-4, 4)), on(r.r(-4, 4))), (on(r.r(-5, 5)), c)),
            // a common end
            7 => ((a, b), (*r.pick(&[a, b]), *r.pick(&[a, b, c]))),
            // degenerate
            _ => ((a, a), *r.pick(&[(a, a), (on(1), on(-1)), (on(1), on(2)), (c, d), (a, c), (c, c)])),
        };
        let mut s = Session::new(e);
        s.ev("seg.x", list![sg(x.0, x.1), sg(y.0, y.1)]);
        s.ev("seg.x", list![sg(y.0, y.1), sg(x.0, x.1)]);
        s.ev("seg.x", list![sg(x.1, x.0), sg(y.0, y.1)]);
        s.ev("seg.x", list![sg(x.0, x.1), sg(y.1, y.0)]);
        g.send(s);
    }
}

pub fn orientations(g: &mut Gen) {
    for _ in 0..g.times(9000, 150000) {
        let r = &mut g.r;
        let e = match r.n(5) {
            0 => Emb::new(64, *r.pick(&[0, -7, 100]), r.r(-1 << 30, 1 << 30), r.r(-1 << 30, 1 << 30)),
            1 => Emb::new(32, *r.pick(&[0, -7, 10]), r.r(-1000, 1000), r.r(-1000, 1000)),
            2 => Emb::new(32, 0, 0, 0),
            _ => Emb::new(64, *r.pick(&[0, 200, -200]), 0, 0),
        };
        let span = *r.pick(&[1, 2, 4, 30, if !e.single() { 5000 } else { 500 }]);
        let mut p = || (r.r(-span, span), r.r(-span, span));
        let (a, b, c) = (p(), p(), p());
        let q = match r.n(6) {
            0 | 1 => c,
            2 => (2 * b.0 - a.0, 2 * b.1 - a.1),
            3 => *r.pick(&[a, b]),
            4 => {
                let k = r.r(-1, 2);
                (a.0 + (b.0 - a.0) * k, a.1 + (b.1 - a.1) * k + r.r(-1, 1))
            }
            _ => ((a.0 + b.0) / 2, (a.1 + b.1) / 2),
        };
        let mut s = Session::new(e);
        s.ev("seg.loc", list![sg(a, b), pv(q)]);
        s.ev("seg.loc", list![sg(b, a), pv(q)]);
        s.ev("seg.loc", list![sg(a, q), pv(b)]);
        if span <= 500 {
            s.ev("seg.det", list![a.0, a.1, q.0, q.1]);
        }
        s.ev("tri", list![pv(a), pv(b), pv(q)]);
        s.ev("tri", list![pv(b), pv(q), pv(a)]);
        s.ev("tri", list![pv(b), pv(a), pv(q)]);
        g.send(s);
    }
}

pub fn multi_points(g: &mut Gen) {
    for _ in 0..g.times(6000, 80000) {
        let r = &mut g.r;
        let e = plain(r);
        let span = *r.pick(&[1, 2, 3, 30]);
        let oddness = r.one_in(2);
        let n = if r.one_in(10) { r.n(60) } else { r.n(9) };
        let points = L((0..n)
            .map(|_| match r.n(4) {
                0 => list![tame(r, span, oddness), tame(r, span, oddness)],
                1 if oddness => list![*r.pick(&[0, NZERO]), *r.pick(&[0, NZERO])],
                _ => list![r.r(-span, span), r.r(-span, span)],
            })
            .collect());
        let mut s = Session::new(e);
        s.ev("g.valid", list![4, points.clone()]);
        s.ev("mp.simple", list![points.clone()]);
        s.ev("g.simple", list![4, points.clone()]);
        s.ev("mp.has", list![points.clone(), list![tame(r, span, oddness), tame(r, span, oddness)]]);
        if n > 0 {
            s.ev("mp.has", list![points.clone(), points.at(r.n(n)).clone()]);
        }
        g.send(s);
    }
}

// ---- text --------------------------------------------------------------------

fn number(r: &mut Rng) -> i64 {
    *r.pick(&[0, 1, 499, 500, 500, 501, 502, 499, 498, 3, 777, 1000]) + r.r(0, 2)
}
fn pair(r: &mut Rng, t: &mut Vec<i64>) {
    t.push(number(r));
    t.push(number(r));
    if r.one_in(60) {
        t.push(number(r));
    }
}
fn parens(r: &mut Rng, t: &mut Vec<i64>, kind: usize) {
    if r.one_in(8) {
        t.push(-4);
        return;
    }
    t.push(-1);
    let n = if kind == 0 { 1 } else { 1 + r.n(4) };
    for i in 0..n {
        if i > 0 {
            t.push(-3);
        }
        match kind {
            0 | 1 => pair(r, t),
            2 => parens(r, t, 1),
            3 => parens(r, t, 2),
            _ => parens(r, t, 0),
        }
    }
    t.push(-2);
}
fn geometry_text(r: &mut Rng, t: &mut Vec<i64>, depth: usize) {
    let (word, kind) = *r.pick(&[(-11, 0), (-12, 1), (-13, 2), (-14, 4), (-15, 2), (-16, 3), (-17, 9), (-13, 2), (-16, 3)]);
    t.push(word);
    if kind == 9 {
        if depth == 0 || r.one_in(6) {
            t.push(-4);
            return;
        }
        t.push(-1);
        for i in 0..1 + r.n(3) {
            if i > 0 {
                t.push(-3);
            }
            geometry_text(r, t, depth - 1);
        }
        t.push(-2);
    } else {
        parens(r, t, kind);
    }
}
const TOKENS: [i64; 23] = [
    -1, -2, -3, -4, -11, -12, -13, -14, -15, -16, -17, -20, -21, -22, -23, -24, -25, -26, 0, 500, 501, 499, 7,
];

pub fn texts(g: &mut Gen) {
    for _ in 0..g.times(9000, 150000) {
        let r = &mut g.r;
        let mut t = Vec::new();
        match r.n(12) {
            0 => {
                for _ in 0..r.n(8) {
                    t.push(*r.pick(&TOKENS));
                }
            }
            1 => {
                // deep
                for _ in 0..r.n(50) {
                    t.push(-17);
                    t.push(-1);
                }
                geometry_text(r, &mut t, 0);
                for _ in 0..r.n(50) {
                    t.push(-2);
                }
            }
            _ => geometry_text(r, &mut t, 2),
        }
        match r.n(5) {
            0 if !t.is_empty() => {
                let i = r.n(t.len());
                t[i] = *r.pick(&TOKENS);
            }
            1 if !t.is_empty() => {
                let i = r.n(t.len());
                t.remove(i);
            }
            2 => {
                let i = r.n(t.len() + 1);
                t.insert(i, *r.pick(&TOKENS));
            }
            _ => {}
        }
        if r.one_in(20) {
            let n = r.n(t.len() + 1);
            t.truncate(n);
        }
        let style = r.r(0, 59);
        g.one(Emb::new(64, 0, 0, 0), "wkt", list![style, V::from(t)]);
    }
}

// ---- lengths, positions, lines -------------------------------------------------

fn small_line(r: &mut Rng, span: i64) -> Vec<(i64, i64)> {
    let n = match r.n(6) {
        0 => r.n(3),
        1 => r.n(40),
        _ => 2 + r.n(6),
    };
    let mut v: Vec<(i64, i64)> = (0..n).map(|_| (r.r(-span, span), r.r(-span, span))).collect();
    for i in 1..n {
        if r.one_in(8) {
            v[i] = v[i - 1];
        }
    }
    v
}

pub fn lengths(g: &mut Gen) {
    for _ in 0..g.times(3500, 50000) {
        let r = &mut g.r;
        let e = match r.n(4) {
            0 => Emb::new(64, *r.pick(&[-30, 20, 100]), r.r(-9999, 9999), r.r(-9999, 9999)),
            1 => Emb::new(32, *r.pick(&[0, -5, 5]), 0, 0),
            _ => Emb::new(64, 0, 0, 0),
        };
        let span = *r.pick(&[2, 5, 60]);
        let l = small_line(r, span);
        let mut back = l.clone();
        back.reverse();
        let k = r.n(5);
        let ls: Vec<V> = (0..k).map(|_| ps(&small_line(r, span))).collect();
        let (a, b, c, d) = (r.r(-span, span), r.r(-span, span), r.r(-span, span), r.r(-span, span));
        // a Pythagorean one
        let t = *r.pick(&[(3, 4), (5, 12), (8, 15), (20, 21), (0, 7), (1000, 0)]);
        let mut s = Session::new(e);
        s.ev("len.ls", list![ps(&l)]);
        s.ev("len.ls", list![ps(&back)]);
        s.ev("len.mls", list![L(ls)]);
        s.ev("seg.info", list![list![a, b, c, d]]);
        s.ev("seg.info", list![list![a, b, a - t.0, b + t.1]]);
        g.send(s);
    }
}

pub fn positions(g: &mut Gen) {
    for _ in 0..g.times(5000, 80000) {
        let r = &mut g.r;
        let oddness = r.one_in(2);
        let e = plain(r);
        let mut s = Session::new(e);
        if e.k.abs() < 100 {
            let span = *r.pick(&[2, 10, if !e.single() { 5000 } else { 400 }]);
            let mut v = || r.r(-span, span);
            let (a, b, c, d, x, y) = (v(), v(), v(), v(), v(), v());
            let k = r.r(1, 1000) * *r.pick(&[1, -1]);
            s.ev("pos.bin", list![list![a, b], list![c, d], k]);
            s.ev("lin.bin", list![x, y, k]);
        }
        let mut c = || tame(r, 9, oddness);
        s.ev("pos.mm", list![list![c(), c()], list![c(), c()]]);
        s.ev("pos.one", list![list![c(), c()]]);
        s.ev("lin.mm", list![c(), c()]);
        s.ev("lin.one", list![c()]);
        let (a, b) = (c(), c());
        s.ev("pos.mm", list![list![a, b], list![b, a]]);
        s.ev("pos.mm", list![list![a, b], list![a, b]]);
        g.send(s);
    }
}

pub fn views(g: &mut Gen) {
    for round in 0..g.times(2500, 40000) {
        let r = &mut g.r;
        let oddness = r.one_in(3);
        let e = if oddness {
            plain(r)
        } else {
            Emb::new(*r.pick(&[64, 32]), *r.pick(&[0, 9, 1000]), r.r(-50, 50), r.r(-50, 50))
        };
        let span = *r.pick(&[1, 3, 12]);
        let mut line = |r: &mut Rng| {
            let n = match r.n(5) {
                0 => r.n(3),
                1 if round % 10 == 0 => r.n(90),
                _ => 2 + r.n(9),
            };
            let mut v: Vec<V> = (0..n).map(|_| list![tame(r, span, oddness), tame(r, span, oddness)]).collect();
            if n > 1 && r.one_in(2) {
                v[n - 1] = v[0].clone();
            }
            L(v)
        };
        let l = line(r);
        let k = r.n(4);
        let ls = L((0..k).map(|_| line(r)).collect());
        let mut s = Session::new(e);
        s.ev("ls.views", list![r.n(5), l.clone()]);
        s.ev("mls.closed", list![ls]);
        s.ev("mls.closed", list![L(vec![l.clone()])]);
        for _ in 0..2 {
            let (x, y) = (r.r(-span, span), r.r(-span, span));
            s.ev("ls.index", list![l.clone(), list![x, y, x + r.r(0, span), y + r.r(0, span)]]);
        }
        g.send(s);
    }
}

pub fn linear(g: &mut Gen) {
    for _ in 0..g.times(2500, 40000) {
        let r = &mut g.r;
        let oddness = r.one_in(2);
        let e = plain(r);
        let span = *r.pick(&[2, 5, 40]);
        let mut s = Session::new(e);
        for _ in 0..r.r(4, 14) {
            let kind = r.n(2);
            let mut thing = |r: &mut Rng| match kind {
                0 if r.one_in(4) => list![],
                0 => list![tame(r, span, oddness), tame(r, span, oddness)],
                _ => I(tame(r, span, oddness)),
            };
            let (a, b, d) = (r.n(4), r.n(4), r.n(4));
            match r.n(13) {
                0 => s.ev("lin.new", list![a, tame(r, span, oddness), tame(r, span, oddness)]),
                1 => s.ev("lin.tuple", list![a, tame(r, span, oddness), tame(r, span, oddness)]),
                2 if r.one_in(3) => s.ev("lin.lit", list![a]),
                2 => {
                    let (x, y) = (tame(r, span, oddness), tame(r, span, oddness));
                    s.ev("lin.lit", list![a, x, y]);
                    s.ev("lin.ask", list![a]);
                    s.ev("lin.new", list![a, x, y]);
                }
                3 => {
                    let n = r.n(6);
                    let xs = L((0..n).map(|_| thing(r)).collect());
                    s.ev("lin.of", list![a, kind, xs])
                }
                4 | 5 => {
                    let x = thing(r);
                    s.ev("lin.expand", list![a, kind, x])
                }
                6 => s.ev("lin.merge", list![a, b, d]),
                7 => s.ev("lin.rel", list![a, b]),
                8 => s.ev("lin.has", list![a, tame(r, span, oddness)]),
                9 => s.ev("lin.pt", if r.one_in(6) { list![] } else { list![odd(r, span)] }),
                10 => {
                    s.ev("lin.line", if r.one_in(6) { list![] } else { list![odd(r, span), odd(r, span)] });
                    s.ev("lin.seg", list![odd(r, span), odd(r, span)]);
                }
                11 => {
                    let n = r.n(6);
                    s.ev("lin.mp", list![L((0..n).map(|_| I(tame(r, span, oddness))).collect())])
                }
                _ => {
                    let n = r.n(6);
                    s.ev("lin.ml", list![L((0..n).map(|_| list![tame(r, span, oddness), tame(r, span, oddness)]).collect())])
                }
            }
        }
        for a in 0..4 {
            s.ev("lin.ask", list![a]);
            s.ev("lin.rel", list![a, (a + 1) % 4]);
        }
        g.send(s);
    }
}

pub fn conversions(g: &mut Gen) {
    for _ in 0..g.times(9000, 120000) {
        let r = &mut g.r;
        let oddness = r.one_in(3);
        let e = if oddness {
            plain(r)
        } else {
            Emb::new(*r.pick(&[64, 32]), *r.pick(&[0, 9, 1000]), r.r(-50, 50), r.r(-50, 50))
        };
        let span = *r.pick(&[1, 3, 40]);
        let p = |r: &mut Rng| list![tame(r, span, oddness), tame(r, span, oddness)];
        let l = |r: &mut Rng| -> V { L((0..r.n(7)).map(|_| p(r)).collect()) };
        let mut s = Session::new(e);
        for _ in 0..2 {
            let kind = r.r(1, 8);
            let d = match kind {
                1 => p(r),
                2 | 3 | 4 => l(r),
                5 | 6 => L((0..r.n(4)).map(|_| l(r)).collect()),
                7 => L(vec![p(r), p(r)]),
                _ => L(vec![p(r), p(r), p(r)]),
            };
            s.ev("conv", list![r.n(4), kind, d]);
        }
        g.send(s);
    }
}
