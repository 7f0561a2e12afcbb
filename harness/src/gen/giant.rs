//! Drivers: things of thousands of positions or members, with whatever is special
//! about them in one place. They are so flat that the specification's integers do.
use super::grand::shift;
use super::plane::*;
use super::rng::Rng;
use super::shapes::{lines_v, polys_v, ps, pv};
use super::{Gen, Session};
use crate::emb::{Emb, NAN};
use crate::list;
use crate::val::{I, L, V};

/// Goes on to the right: x from 0, y in 0..=9.
fn chain(r: &mut Rng, n: i64) -> Line {
    let step = r.r(1, 2);
    (0..n).map(|i| (step * i, if r.one_in(5) { 5 } else { r.r(0, 9) })).collect()
}
/// Comes back from its end, above or below, and maybe touches.
fn tail(r: &mut Rng, l: &mut Line) {
    let (a, b) = (l[0], l[l.len() - 1]);
    let y = if r.one_in(2) { 30 } else { -30 };
    match r.n(6) {
        0 | 1 => {}
        2 | 3 => l.extend([(b.0 + 5, b.1), (b.0 + 5, y), (a.0 - 5, y), a]),
        4 => {
            let k = r.n(l.len());
            let p = l[k];
            l.extend([(b.0 + 1, y), (p.0, y), p]);
        }
        _ => {
            let k = r.n(l.len() - 1);
            let p = l[k];
            l.extend([(b.0 + 5, b.1), (b.0 + 5, y), (p.0 + 1, y), (p.0 + 1, -y / 2)]);
        }
    }
}
/// A loop around a chain, at a distance, or along it.
fn ring(r: &mut Rng, n: i64) -> Line {
    let mut l = chain(r, n);
    let (a, b) = (l[0], l[l.len() - 1]);
    if r.one_in(2) {
        l.extend([(b.0 + 3, 40), (b.0 / 2, 45), (a.0 - 3, 40)]);
    } else {
        l.extend([(b.0, 40), (a.0, 40)]);
    }
    l.push(a);
    // (the specification compares whatever comes before the least x with what comes after)
    let k = if n < 1500 { r.n(n as usize) } else { *r.pick(&[0, 1, 20, n as usize - 20, n as usize]) };
    let l = rotate(&l, k);
    if r.one_in(2) { reverse(&l) } else { l }
}
/// One change in one place: late, early or anywhere.
fn spoil(r: &mut Rng, l: &mut Line) {
    let n = l.len();
    let k = match r.n(4) {
        0 => r.r(2, 40) as usize,
        1 => n - r.r(8, 40) as usize,
        _ => r.r(2, n as i64 - 8) as usize,
    };
    match r.n(7) {
        0 => l.insert(k, l[k]),
        1 => l.insert(k + 1, l[k - 1]),
        2 => l.swap(k, k + 1),
        3 => l[k].1 = NAN,
        4 => l[k] = l[k + 2],
        5 => {
            // touches the segment before the last
            let m = (l[k].0, l[k].1);
            l.insert(k + 2, m)
        }
        _ => l[k].1 += 1,
    }
}
fn square(x: i64, y: i64, d: i64) -> Line {
    vec![(x, y), (x + d, y), (x + d, y + d), (x, y + d), (x, y)]
}
/// Many small loops in rows of a hundred.
fn tiles(r: &mut Rng, n: i64) -> Vec<Line> {
    (0..n)
        .map(|i| {
            let (x, y) = (4 * (i % 100), 4 * (i / 100));
            let d = if r.one_in(10) { 3 } else { 2 };
            let l = if r.one_in(3) { vec![(x, y), (x + d, y + 1), (x + 1, y + 2), (x, y)] } else { square(x, y, d) };
            if r.one_in(2) { reverse(&l) } else { rotate(&l, r.n(3)) }
        })
        .collect()
}
/// Lets one be another, or move, or be within another.
fn spoil_tiles(r: &mut Rng, v: &mut [Line]) {
    let (i, j) = (r.n(v.len()), r.n(v.len()));
    match r.n(5) {
        0 => v[i] = v[j].clone(),
        1 => v[i] = shift(&v[i], 4 * r.r(-1, 1), 1),
        2 => v[i] = shift(&v[i], r.r(-2, 2), r.r(-2, 2)),
        3 => {
            let p = v[j][0];
            v[i] = square(p.0, p.1, 1)
        }
        _ => v[i] = shift(&v[i], 1000, 0),
    }
}

pub fn giant(g: &mut Gen, prop: &str) {
    let e = Emb::new(64, 0, 0, 0);
    for round in 0..g.times(4, 24) {
        let r = &mut g.r;
        let mut s = Session::new(e);
        // more than 16 bits can count, if that can be afforded
        let vast = 65536 + r.r(1, 3000);
        let big = if round == 1 { r.r(8200, 9000) } else { r.r(1000, 5000) };
        let n = if round == 0 { vast } else { big };
        match prop {
            "C02" => {
                // positions, few of them more than once
                let n = if round < 2 { vast } else { r.r(5001, 30000) };
                let mut it: Vec<P> = (0..n).map(|i| (i % 300, i / 300)).collect();
                for _ in 0..r.n(20) {
                    let (i, j) = (r.n(it.len()), r.n(it.len()));
                    it[i] = it[j];
                }
                r.shuffle(&mut it);
                let k = it.len() - 1;
                if r.one_in(2) {
                    it[k] = it[k - 1];
                    it[0] = it[k];
                }
                s.ev("build", list![0, 1, 1, *r.pick(&[2, 8, 16]), ps(&it)]);
                s.ev("self", list![0]);
            }
            "C03" => {
                let it: Vec<P> = (0..n).map(|i| (i % 300, i / 300)).collect();
                let k = r.r(1, 12);
                let few: Vec<V> = (0..k)
                    .map(|_| {
                        let (x, y) = (r.r(-1, 301), r.r(0, n / 300 + 1));
                        list![x, y, x + r.r(0, 4), y + r.r(0, 2)]
                    })
                    .chain([list![0, n / 300, 300, n / 300]])
                    .collect();
                let d = *r.pick(&[2, 4, 16]);
                s.ev("build", list![0, 1, r.n(2), d, ps(&it)]);
                s.ev("build", list![1, 0, r.n(2), d, L(few)]);
                s.ev("join", list![0, 1]);
                s.ev("join", list![1, 0]);
            }
            "C05" => {
                let n = if round == 0 { 20000 } else { r.r(1000, 5000) };
                let mut it: Line = (0..n).map(|_| (r.r(0, 65535), r.r(0, 65535))).collect();
                it[0] = (0, 0);
                it[1] = (65535, 65535);
                r.shuffle(&mut it);
                s.ev("build", list![0, 1, 1, *r.pick(&[2, 16]), ps(&it)]);
                s.ev("order", list![0]);
            }
            "C06" => {
                let mut it: Line = (0..n).map(|_| (r.r(-99, 99), r.r(-99, 99))).collect();
                let k = it.len() - 1 - r.n(3);
                it[k] = *r.pick(&[(100, 0), (0, -100), (-100, 100), (NAN, 101)]);
                s.ev("env.of", list![0, 1, ps(&it)]);
                s.ev("env.ask", list![0]);
                // boxes or segments
                let kind = *r.pick(&[0, 2]);
                let boxes = it[..big as usize].iter().zip(&it[it.len() - big as usize..]).map(|(a, b)| list![a.0, a.1, b.0, b.1]);
                let boxes = L(boxes.collect());
                s.ev("env.of", list![1, kind, boxes]);
                s.ev("env.ask", list![1]);
                s.ev("env.rel", list![0, 1]);
            }
            "C09" => {
                let mut l = chain(r, n);
                tail(r, &mut l);
                if r.one_in(2) {
                    spoil(r, &mut l);
                }
                if r.one_in(3) {
                    l = reverse(&l);
                }
                s.ev("g.simple", list![2, ps(&l)]);
            }
            "C10" => {
                let v = if round % 2 == 0 {
                    let l = chain(r, big);
                    let k = if r.one_in(2) { l.len() - 1 - r.n(3) } else { r.n(l.len()) };
                    let (p, a, b) = (l[k], l[0], l[l.len() - 1]);
                    let mut v = vec![l, vec![(a.0, 30), a], vec![(b.0, -30), b], vec![b, (b.0 + 9, 9)]];
                    match r.n(4) {
                        0 => v.push(vec![(p.0, 40), p]),
                        3 => v.push(vec![(p.0, 40), (p.0 + 1, p.1)]),
                        1 => v.push(vec![(p.0, 40), (p.0 + 1, 15), (p.0 - 1, 12)]),
                        _ => {}
                    }
                    v
                } else {
                    // one after the other, or in many rows
                    let n = r.r(258, 400);
                    let l = chain(r, n);
                    let mut v: Vec<Line> = l.windows(2).map(|a| a.to_vec()).collect();
                    if r.one_in(2) {
                        let n = r.r(258, 400);
                        v.extend(tiles(r, n).iter().map(|l| shift(l, 0, 20)));
                        if r.n(4) > 0 {
                            let k = v.len() - 200;
                            spoil_tiles(r, &mut v[k..]);
                        }
                    } else if r.one_in(2) {
                        let k = r.n(v.len() - 1);
                        v[k][1].1 += 1;
                    }
                    v
                };
                s.ev("g.simple", list![5, lines_v(&v)]);
            }
            "C11" => {
                let mut l: Line = (0..n).map(|i| (i % 300, i / 300)).collect();
                r.shuffle(&mut l);
                let k = l.len() - 1;
                match r.n(4) {
                    0 => l[k] = l[r.n(k)],
                    1 => l[k - 1].0 = NAN,
                    2 => l.push(*r.pick(&l)),
                    _ => {}
                }
                s.ev("g.valid", list![4, ps(&l)]);
                s.ev("mp.simple", list![ps(&l)]);
                s.ev("mp.has", list![ps(&l), pv(l[l.len() - 1])]);
                s.ev("mp.has", list![ps(&l), pv((300, 1))]);
            }
            "C12" | "C19" => {
                let mut p = if round % 2 == 0 {
                    let l = ring(r, big);
                    let x = r.r(1, big - 20);
                    let mut p = vec![l, square(x, 20, 7)];
                    if r.one_in(2) {
                        p.push(square(x + 7, 27, 4));
                    }
                    if r.one_in(2) {
                        // down to the chain, or through it
                        let k = p[0].iter().position(|q| q.0 == x + 12 || q.0 == x + 13).unwrap_or(2);
                        let q = p[0][k];
                        if q.1 < 12 {
                            p.push(vec![(q.0, q.1 + r.r(-1, 1)), (q.0 + 1, 14), (q.0, 15), (q.0, q.1)]);
                            let n = p.len() - 1;
                            p[n][3] = p[n][0];
                        }
                    }
                    p
                } else {
                    let n = r.r(257, 450);
                    let mut v = tiles(r, n);
                    if r.one_in(2) {
                        spoil_tiles(r, &mut v);
                    }
                    r.shuffle(&mut v);
                    let mut p = vec![vec![(-9, -9), (500, -9), (500, 99), (-9, 99), (-9, -9)]];
                    p.extend(v);
                    p
                };
                if round % 2 == 0 && r.one_in(4) {
                    spoil(r, &mut p[0]);
                    let k = p[0].len() - 1;
                    p[0][k] = p[0][0];
                }
                if prop == "C12" {
                    s.ev("g.valid", list![3, lines_v(&p)]);
                } else {
                    let q: Vec<Line> = p.iter().map(|l| reverse(&rotate(l, 1 + r.n(l.len() - 1)))).collect();
                    s.ev("rep", list![e.v(), 3, lines_v(&p), lines_v(&q)]);
                }
            }
            "C13" => {
                let mut m: Vec<Vec<Line>> = if round % 2 == 0 {
                    let l = ring(r, big);
                    let p = *r.pick(&l);
                    let mut m = vec![vec![l, square(5, 20, 9)], vec![square(6, 21, r.r(6, 9))]];
                    if p.1 < 12 {
                        let y = p.1 + *r.pick(&[0, 0, 1]);
                        m.push(vec![vec![(p.0, y), (p.0 - 1, -9), (p.0 + 1, -9), (p.0, y)]]);
                    }
                    m
                } else {
                    let n = r.r(257, 450);
                    let mut v = tiles(r, n);
                    if r.one_in(2) {
                        spoil_tiles(r, &mut v);
                    }
                    v.into_iter().map(|l| vec![l]).collect()
                };
                r.shuffle(&mut m);
                s.ev("g.valid", list![6, polys_v(&m)]);
            }
            "C14" => {
                let l = chain(r, n);
                s.ev("g.bnd", list![2, ps(&l)]);
                let mut v: Vec<Line> = l[..big.min(4000) as usize].windows(2).map(|a| a.to_vec()).collect();
                for _ in 0..r.n(9) {
                    let i = r.n(v.len());
                    v[i].reverse();
                    let j = r.n(v.len());
                    v.remove(j);
                }
                r.shuffle(&mut v);
                s.ev("g.bnd", list![5, lines_v(&v)]);
                let p = vec![ring(r, big), square(3, 20, 5)];
                s.ev("g.bnd", list![3, lines_v(&p)]);
                let t: Vec<Vec<Line>> = tiles(r, 1000).into_iter().map(|l| vec![l]).collect();
                s.ev("g.bnd", list![6, polys_v(&t)]);
            }
            "C15" => {
                let n = if round == 0 { 20000 } else { big };
                s.ev("hull", list![ps(&ring(r, n))]);
            }
            "C16" => {
                let mut t = match r.n(3) {
                    0 => vec![-12, -1],
                    1 => vec![-13, -1, -1],
                    _ => vec![-14, -1],
                };
                let (kind, n) = (t[0], r.r(1000, if round == 0 { 3500 } else { 2000 }));
                for i in 0..n {
                    if i > 0 {
                        t.push(-3);
                    }
                    let two = [r.r(0, 20), r.r(0, 20)];
                    if kind == -14 {
                        t.extend([-1, two[0], two[1], -2]);
                    } else {
                        t.extend(two);
                    }
                }
                t.extend(if kind == -13 { vec![-2, -2] } else { vec![-2] });
                if r.one_in(3) {
                    let k = t.len() - r.r(1, 9) as usize;
                    t.remove(k);
                }
                s.ev("wkt", list![0, V::from(t)]);
            }
            "C17" => {
                let l = chain(r, n);
                for t in [2, 4] {
                    s.ev("g.info", list![t, ps(&l)]);
                }
                s.ev("g.info", list![3, lines_v(&[ring(r, big), square(3, 20, 5)])]);
                s.ev("g.info", list![5, lines_v(&tiles(r, 2000))]);
                let t: Vec<Vec<Line>> = tiles(r, 2000).into_iter().map(|l| vec![l]).collect();
                s.ev("g.info", list![6, polys_v(&t)]);
            }
            "C18" => {
                let xs = |r: &mut Rng, n: i64| {
                    let mut v: Vec<V> = (0..n).map(|_| I(r.r(-99, 99))).collect();
                    v[n as usize - 1] = I(*r.pick(&[100, -100, NAN]));
                    L(v)
                };
                s.ev("lin.of", list![0, 1, xs(r, n)]);
                s.ev("lin.ask", list![0]);
                s.ev("lin.mp", list![xs(r, big)]);
                s.ev("lin.ml", list![L((0..big).map(|i| list![i, r.r(-9, 9999)]).collect())]);
            }
            "C20" => {
                let l = ring(r, if round == 0 { 20000 } else { big });
                let code = |i: usize, last: bool, r: &mut Rng| if last { 9000 + r.n(3) as i64 } else { (i % 2) as i64 };
                let odd = r.n(4);
                let m = l.len();
                let v: Vec<V> = (0..m)
                    .map(|i| {
                        let last = odd > 0 && i == m - 2;
                        list![code(i / 2, last && odd == 1, r), code(i, last && odd > 1, r)]
                    })
                    .collect();
                s.ev("tot", list![4, L(v.clone())]);
                if round > 0 {
                    s.ev("tot", list![2, L(v)]);
                }
            }
            "C21" => {
                // steps of whole lengths
                let (mut x, mut y) = (0, 0);
                let l: Line = (0..n)
                    .map(|i| {
                        let d = *r.pick(&[(1, 0), (0, 1), (3, 4), (4, -3), (0, -2), (0, 0)]);
                        if i > 0 {
                            x += d.0;
                            y += d.1;
                        }
                        (x, y)
                    })
                    .collect();
                s.ev("len.ls", list![ps(&l)]);
                let v: Vec<Line> = l[..big as usize].windows(2).map(|a| a.to_vec()).collect();
                s.ev("len.mls", list![lines_v(&v)]);
            }
            "C23" => {
                let l = if r.one_in(2) { chain(r, n) } else { ring(r, n) };
                s.ev("ls.views", list![*r.pick(&[0, 3]), ps(&l)]);
                for _ in 0..3 {
                    let p = if r.one_in(2) { l[l.len() - 1 - r.n(4)] } else { *r.pick(&l) };
                    s.ev("ls.index", list![ps(&l), list![p.0, p.1, p.0 + r.r(0, 2), p.1]]);
                }
                let mut v: Vec<Line> = tiles(r, 2000);
                let k = v.len() - 1;
                if r.one_in(2) {
                    v[k].pop();
                }
                s.ev("mls.closed", list![lines_v(&v)]);
            }
            "C24" => {
                let l = ring(r, big);
                s.ev("g.surf", list![3, lines_v(&[l.clone(), square(9, 20, 9)])]);
                let n = r.r(100, 300);
                let mut p = vec![vec![(-9, -9), (500, -9), (500, 99), (-9, 99), (-9, -9)]];
                p.extend(tiles(r, n).iter().map(|l| shift(l, 0, 30)));
                s.ev("g.surf", list![3, lines_v(&p)]);
            }
            "C25" => {
                let l = chain(r, n);
                for k in 2..=4 {
                    s.ev("conv", V::L(vec![I(r.n(4) as i64), I(k), ps(&l)]));
                }
                let v = tiles(r, 2000);
                for k in 5..=6 {
                    s.ev("conv", V::L(vec![I(r.n(4) as i64), I(k), lines_v(&v)]));
                }
            }
            "C26" => {
                let n = r.r(300, 1200);
                let l = ring(r, n);
                s.ev("geo.new", list![0, 0, 2, ps(&l)]);
                s.ev("geo.ask", list![0]);
                s.ev("geo.wrap", list![0, 3, 1]);
                s.ev("geo.ask", list![1]);
                s.ev("geo.bnd", list![1, 2]);
                s.ev("geo.ask", list![2]);
                s.ev("geo.hull", list![1, 3]);
                s.ev("geo.ask", list![3]);
                s.ev("geo.surf", list![1]);
                s.ev("geo.eq", list![1, 2]);
            }
            _ => return,
        }
        // (without another embedding)
        g.put(s);
    }
}
