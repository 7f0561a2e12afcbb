//! Drivers for lines, polygons, and collections of them.
use super::plane::*;
use super::rng::Rng;
use super::{skew, Gen, Session};
use crate::emb::{suits, Emb, NAN, NINF, PINF};
use crate::list;
use crate::val::{I, L, V};
use std::collections::BTreeSet;

pub fn pv(p: P) -> V {
    list![p.0, p.1]
}
pub fn ps(l: &[P]) -> V {
    L(l.iter().map(|p| pv(*p)).collect())
}
pub fn lines_v(ls: &[Line]) -> V {
    L(ls.iter().map(|l| ps(l)).collect())
}
type Poly = Vec<Line>;
pub fn polys_v(p: &[Poly]) -> V {
    L(p.iter().map(|r| lines_v(r)).collect())
}

// ---- lines -----------------------------------------------------------------

/// A long curve without touches: a zigzag, a spiral, or steps.
fn long_line(r: &mut Rng, n: i64) -> Line {
    match r.n(4) {
        0 => (0..n).map(|i| (i, r.r(0, 6))).collect(),
        1 => {
            let mut v = vec![(0, 0)];
            let mut p = (0i64, 0i64);
            let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
            for i in 0..n.min(40) {
                let d = dirs[(i % 4) as usize];
                let k = (i / 2 + 1) * 1;
                p = (p.0 + d.0 * k, p.1 + d.1 * k);
                v.push(p);
            }
            v
        }
        2 => (0..n).map(|i| ((i + 1) / 2, i / 2)).collect(),
        _ => {
            // combs: up and down
            let mut v = Vec::new();
            for i in 0..(n / 2).min(25) {
                let (a, b) = (r.r(-3, -1), r.r(3, 6));
                if i % 2 == 0 {
                    v.push((2 * i, a));
                    v.push((2 * i, b));
                } else {
                    v.push((2 * i, b));
                    v.push((2 * i, a));
                }
            }
            v
        }
    }
}
fn any_line(r: &mut Rng) -> Line {
    match r.n(10) {
        0 => {
            let n = r.r(5, 50);
            long_line(r, n)
        }
        1 => {
            let mut l = star(r, 20, 20).unwrap_or_default();
            if r.one_in(2) && !l.is_empty() {
                l = redraw(r, &l);
            }
            l
        }
        2 => {
            let n = 3 + r.n(5);
            random_loop(r, n, 0, 6).unwrap_or_default()
        }
        3 => (0..r.r(2, 6)).map(|i| (i * r.r(1, 2), 2 * i)).collect(),
        _ => {
            let span = *r.pick(&[1, 2, 3, 4, 9]);
            let n = 2 + r.n(7);
            let mut l: Line = (0..n).map(|_| (r.r(0, span), r.r(0, span))).collect();
            if r.one_in(4) {
                l.push(l[0]);
            }
            l
        }
    }
}
/// Breaks a line, or makes it touch itself, or not.
pub fn tinker(r: &mut Rng, l: &mut Line) {
    let n = l.len();
    if n < 2 {
        return;
    }
    let (i, j) = (r.n(n), r.n(n));
    match r.n(9) {
        0 => l[i] = l[j],
        1 => {
            // onto a segment, or next to it
            let k = r.n(n - 1);
            let (a, b) = (l[k], l[k + 1]);
            l[i] = ((a.0 + b.0) / 2 + r.r(0, 1) * r.r(-1, 1), (a.1 + b.1) / 2);
        }
        2 => l.insert(i, l[j]),
        3 => l.insert(i, l[i]),
        4 => l.push(l[0]),
        5 => {
            l.pop();
        }
        6 => l.push(l[j]),
        _ => l[i] = (l[i].0 + r.r(-1, 1), l[i].1 + r.r(-1, 1)),
    }
}

fn with_odd(r: &mut Rng, l: &[P]) -> V {
    let mut v: Vec<V> = l.iter().map(|p| pv(*p)).collect();
    if !v.is_empty() {
        let i = r.n(v.len());
        let c = *r.pick(&[NAN, PINF, NINF]);
        v[i] = if r.one_in(2) { list![c, l[i].1] } else { list![l[i].0, c] };
        if r.one_in(3) {
            let n = v.len();
            v[n - 1] = v[0].clone();
        }
    }
    L(v)
}

pub fn lines(g: &mut Gen) {
    for _ in 0..g.times(1500, 20000) {
        let (e, r) = (g.emb(), &mut g.r);
        let l = match r.n(3) {
            0 => scattered(r),
            1 => fan(r)[0].clone(),
            _ => (0..2 + r.n(4)).map(|_| anywhere(r)).collect(),
        };
        let mut s = Session::new(e);
        s.ev("g.simple", list![2, ps(&l)]);
        g.rounded(s);
    }
    for _ in 0..g.times(3500, 60000) {
        let e = g.emb();
        let r = &mut g.r;
        let mut l = any_line(r);
        if r.one_in(3) {
            l = Map::random(r).line(&l);
        }
        if r.one_in(5) {
            l = densify(r, &l, 2);
        }
        let mut s = Session::new(e);
        s.ev("g.simple", list![2, ps(&l)]);
        if r.one_in(2) {
            tinker(r, &mut l);
            s.ev("g.simple", list![2, ps(&l)]);
        }
        if r.one_in(3) {
            s.ev("g.valid", list![2, ps(&reverse(&l))]);
        }
        if r.one_in(8) {
            s.ev("g.valid", list![2, with_odd(r, &l)]);
        }
        if r.one_in(50) {
            s.ev("g.simple", list![2, ps(&l[..l.len().min(r.n(3))])]);
        }
        g.send(s);
    }
    long_curves(g, &[2]);
}

/// Long curves that touch themselves in one place, or nowhere.
fn long_curves(g: &mut Gen, _types: &[i64]) {
    for _ in 0..g.times(60, 1500) {
        let e = g.emb();
        let r = &mut g.r;
        let n = r.r(60, 140);
        let mut l: Line = (0..n).map(|i| (i / 2, if i % 2 == 0 { 0 } else { r.r(1, 5) })).collect();
        if r.one_in(2) {
            l = l.iter().map(|p| (p.0, p.1 + p.0 / 3)).collect();
        }
        match r.n(3) {
            0 => {
                let k = r.n(l.len());
                let at = l[k];
                l.push((at.0, at.1 + 9));
                l.push(at);
            }
            1 => {
                // back under it, and closed
                l.push((n, -1));
                l.push((-1, -1));
                l.push(l[0]);
            }
            _ => {}
        }
        let mut s = Session::new(e);
        s.ev("g.simple", list![2, ps(&l)]);
        g.send(s);
    }
}

/// Lines along the edges of a triangulated board that meet only at their ends.
pub fn network(r: &mut Rng, w: i64, n: usize) -> Vec<Line> {
    let mut edges: BTreeSet<(P, P)> = BTreeSet::new();
    for t in (Board { w }).all() {
        let c = Board::corners(t);
        for i in 0..3 {
            let (a, b) = (c[i], c[(i + 1) % 3]);
            edges.insert((a.min(b), a.max(b)));
        }
    }
    let mut all: Vec<(P, P)> = edges.into_iter().collect();
    r.shuffle(&mut all);
    all.truncate(n);
    let mut ls: Vec<Line> = all.iter().map(|e| if r.one_in(2) { vec![e.0, e.1] } else { vec![e.1, e.0] }).collect();
    // join two lines where only they meet
    for _ in 0..n {
        if ls.len() < 2 {
            break;
        }
        let i = r.n(ls.len());
        let end = *ls[i].last().unwrap();
        let with: Vec<usize> = (0..ls.len()).filter(|&j| ls[j].contains(&end)).collect();
        if with.len() == 2 {
            let j = if with[0] == i { with[1] } else { with[0] };
            if ls[i][0] == end {
                continue;
            }
            let mut other = ls[j].clone();
            if other.last() == Some(&end) {
                other.reverse();
            }
            if other[0] != end || other.last() == Some(&end) {
                continue;
            }
            ls[i].extend(&other[1..]);
            ls.remove(j);
        }
    }
    ls
}

pub fn multi_lines(g: &mut Gen) {
    for _ in 0..g.times(3000, 30000) {
        let (e, r) = (g.emb(), &mut g.r);
        let mut ls = fan(r);
        if r.one_in(5) {
            ls.push(scattered(r));
        }
        let mut s = Session::new(e);
        s.ev("g.simple", list![5, lines_v(&ls)]);
        g.rounded(s);
    }
    for _ in 0..g.times(2600, 40000) {
        let e = g.emb();
        let r = &mut g.r;
        let mut ls: Vec<Line> = match r.n(6) {
            0 | 1 => {
                let (w, n) = (r.r(1, 3), 2 + r.n(14));
                network(r, w, n)
            }
            2 => {
                // loops of a region, and lines
                let b = Board { w: 3 };
                let free: BTreeSet<Tri> = b.all().into_iter().collect();
                let n = 2 + r.n(20);
                let mut v = b.region(r, &free, n).map_or(vec![], |x| x.1);
                let extra = r.n(3);
                v.extend(network(r, 3, extra));
                v
            }
            3 => (0..r.r(1, 4)).map(|_| any_line(r)).collect(),
            4 => {
                // copies, parts and reversals of one line
                let l = any_line(r);
                let k = r.n(l.len().max(1));
                let mut v = vec![l[..l.len().min(k + 1)].to_vec(), l[k.min(l.len())..].to_vec()];
                if r.one_in(3) {
                    v.push(reverse(&l));
                }
                v.retain(|l| l.len() != 1);
                v
            }
            _ => {
                let span = *r.pick(&[2, 3, 5]);
                (0..r.r(2, 4)).map(|_| (0..2 + r.n(2)).map(|_| (r.r(0, span), r.r(0, span))).collect()).collect()
            }
        };
        if r.one_in(8) {
            let i = r.n(ls.len() + 1);
            ls.insert(i, vec![]);
        }
        if r.one_in(3) {
            let m = Map::random(r);
            ls = ls.iter().map(|l| m.line(l)).collect();
        }
        if r.one_in(4) {
            ls = ls.iter().map(|l| densify(r, l, 2)).collect();
        }
        if r.one_in(4) && !ls.is_empty() {
            let i = r.n(ls.len());
            tinker(r, &mut ls[i]);
        }
        r.shuffle(&mut ls);
        let mut s = Session::new(e);
        s.ev("g.simple", list![5, lines_v(&ls)]);
        if r.one_in(3) {
            ls.reverse();
            s.ev("g.valid", list![5, lines_v(&ls)]);
        }
        if r.one_in(12) && !ls.is_empty() {
            let i = r.n(ls.len());
            let mut v: Vec<V> = ls.iter().map(|l| ps(l)).collect();
            v[i] = with_odd(r, &ls[i]);
            s.ev("g.valid", list![5, L(v)]);
        }
        g.send(s);
    }
    // long members
    for _ in 0..g.times(40, 1000) {
        let e = g.emb();
        let r = &mut g.r;
        let n = r.r(20, 60);
        let a: Line = (0..n).map(|i| (i, r.r(1, 4))).collect();
        let mut b: Line = (0..n).map(|i| (i, r.r(-4, 0))).collect();
        let k = r.n(n as usize);
        match r.n(4) {
            0 => b[k].1 = a[k].1,
            1 => b[0] = a[0],
            2 => {
                b[0] = a[0];
                let i = n as usize - 1;
                b[i] = a[i];
            }
            _ => {}
        }
        let mut s = Session::new(e);
        s.ev("g.simple", list![5, lines_v(&[a, b])]);
        g.send(s);
    }
}

// ---- regions ---------------------------------------------------------------

/// A polygon of a region of the board, with its holes and maybe others that
/// touch at most in vertices; and the region.
fn board_polygon(r: &mut Rng, b: &Board, free: &BTreeSet<Tri>, n: usize) -> Option<(Poly, BTreeSet<Tri>)> {
    let (mut set, loops) = b.region(r, free, n)?;
    // the region's own loops: shell first, then holes
    let mut poly = loops;
    // cut out triangles whose sides are all within the region
    for _ in 0..r.n(3) {
        let core: BTreeSet<Tri> = set
            .iter()
            .filter(|t| {
                let ns = b.neighbors(**t);
                ns.len() == 3 && ns.iter().all(|u| set.contains(u))
            })
            .cloned()
            .collect();
        let k = 1 + r.n(4);
        let hole = b.grow(r, &core, k);
        if hole.is_empty() {
            continue;
        }
        // its neighbors have to stay, else it shares a side with another hole
        if let Some(l) = Board::loops(&hole) {
            if l.len() == 1 && hole.iter().all(|t| b.neighbors(*t).iter().all(|u| set.contains(u))) {
                for t in &hole {
                    set.remove(t);
                }
                poly.push(l[0].clone());
            }
        }
    }
    Some((poly, set))
}

fn redraw_poly(r: &mut Rng, p: &Poly) -> Poly {
    p.iter().map(|l| redraw(r, l)).collect()
}

fn some_loop(r: &mut Rng, lo: i64, hi: i64) -> Line {
    for _ in 0..50 {
        let n = 3 + r.n(4);
        if let Some(l) = random_loop(r, n, lo, hi) {
            return l;
        }
    }
    vec![(lo, lo), (hi, lo), (lo, hi), (lo, lo)]
}

fn any_polygon(r: &mut Rng) -> Poly {
    match r.n(7) {
        0 => {
            // loops on a small grid: they may cross, touch, overlap
            let hi = r.r(2, 5);
            let mut p = vec![some_loop(r, 0, hi)];
            for _ in 0..r.n(3) {
                p.push(some_loop(r, 0, hi));
            }
            p
        }
        1 => {
            // small loops within a large one, touching or beyond its sides
            let mut p = vec![vec![(0, 0), (8, 0), (8, 8), (0, 8), (0, 0)]];
            if r.one_in(2) {
                p[0] = vec![(0, 0), (4, -2), (8, 0), (10, 4), (8, 8), (4, 10), (0, 8), (-2, 4), (0, 0)];
            }
            for _ in 0..1 + r.n(4) {
                let (x, y) = (r.r(-1, 6), r.r(-1, 6));
                let l = some_loop(r, 0, 3);
                p.push(l.iter().map(|q| (q.0 + x, q.1 + y)).collect());
            }
            p
        }
        2 => {
            // many holes in a grid, which may touch in corners
            let k = 4;
            let mut p = vec![vec![(0, 0), (20, 0), (20, 20), (0, 20), (0, 0)]];
            for i in 0..k {
                for j in 0..k {
                    if r.one_in(2) {
                        let (x, y, d) = (2 + 4 * i, 2 + 4 * j, r.r(1, 2));
                        p.push(vec![(x, y - d), (x + d, y), (x, y + d), (x - d, y), (x, y - d)]);
                    }
                }
            }
            p
        }
        3 => {
            let mut p = vec![star(r, 24, 30).unwrap_or_default()];
            for _ in 0..r.n(4) {
                let (x, y) = (r.r(-12, 12), r.r(-12, 12));
                let l = star(r, 6, 5).unwrap_or_default();
                p.push(l.iter().map(|q| (q.0 + x, q.1 + y)).collect());
            }
            p
        }
        _ => {
            let b = Board { w: r.r(2, 4) };
            let free: BTreeSet<Tri> = b.all().into_iter().collect();
            let n = (b.w * b.w * 3) as usize;
            let n = 4 + r.n(n);
            board_polygon(r, &b, &free, n).map_or(vec![], |x| x.0)
        }
    }
}

fn shell_inside(r: &mut Rng, p: &mut Poly) {
    match r.n(8) {
        0 if p.len() > 1 => {
            let n = r.n(p.len());
            p.swap(0, n)
        }
        1 if p.len() > 1 => {
            let l = p[r.n(p.len())].clone();
            p.push(l)
        }
        2 if !p.is_empty() => {
            let i = r.n(p.len());
            tinker(r, &mut p[i])
        }
        3 if !p.is_empty() => {
            let i = r.n(p.len());
            p[i].pop();
        }
        4 if !p.is_empty() => {
            // move a ring
            let i = r.n(p.len());
            let (x, y) = (r.r(-2, 2), r.r(-2, 2));
            p[i] = p[i].iter().map(|q| (q.0 + x, q.1 + y)).collect();
        }
        5 => p.push(vec![]),
        _ => {}
    }
}

// ---- general position ---------------------------------------------------------

fn anywhere(r: &mut Rng) -> P {
    let w = *r.pick(&[7, 25, 100]);
    (r.r(-w, w), r.r(-w, w))
}
/// Lines that start or end at a few hubs, and may cross.
fn fan(r: &mut Rng) -> Vec<Line> {
    let hubs: Line = (0..1 + r.n(3)).map(|_| anywhere(r)).collect();
    (0..2 + r.n(3))
        .map(|_| {
            let mut l: Line = (0..1 + r.n(2)).map(|_| anywhere(r)).collect();
            l.push(*r.pick(&hubs));
            if r.one_in(2) {
                l.reverse();
                if r.one_in(2) {
                    l.push(*r.pick(&hubs));
                }
            }
            l
        })
        .collect()
}
/// A simple loop of few positions.
fn scattered(r: &mut Rng) -> Line {
    let n = 3 + r.n(4);
    let l = if r.one_in(2) {
        star(r, 6, 90)
    } else {
        let w = *r.pick(&[7, 25, 100]);
        random_loop(r, n, -w, w)
    };
    l.map_or(vec![], |l| redraw_corners(r, &l))
}
/// Another start or direction.
fn redraw_corners(r: &mut Rng, l: &[P]) -> Line {
    let k = r.n(l.len() - 1);
    let m = rotate(l, k);
    if r.one_in(2) { reverse(&m) } else { m }
}
/// Loops that share a few positions.
fn scattered_pair(r: &mut Rng) -> (Line, Line) {
    let a = scattered(r);
    for _ in 0..10 {
        let n = 3 + r.n(2);
        let mut l: Line = (0..n).map(|_| anywhere(r)).collect();
        for _ in 0..r.n(3) {
            if !a.is_empty() {
                let i = r.n(l.len());
                l[i] = *r.pick(&a);
            }
        }
        let b = close(l);
        if simple_loop(&b) {
            return (a, b);
        }
    }
    let b = scattered(r);
    (a, b)
}

/// A loop all of whose positions are on another one.
fn inscribed(r: &mut Rng, l: &[P]) -> Option<Line> {
    let all = densify(r, l, 1);
    let n = all.len() - 1;
    for _ in 0..30 {
        let k = 3 + r.n(3);
        let mut at: Vec<usize> = (0..k).map(|_| r.n(n)).collect();
        if r.one_in(2) {
            at.sort();
        }
        let m = close(at.iter().map(|i| all[*i]).collect());
        if simple_loop(&m) {
            return Some(m);
        }
    }
    None
}
/// A loop with pockets, and one that touches it at all of its positions.
fn inscribed_pair(r: &mut Rng) -> Option<(Line, Line)> {
    let a = match r.n(3) {
        0 => {
            // a frame with a gap, and walls to touch
            let (w, h, d) = (r.r(1, 4), r.r(1, 4), r.r(1, 2));
            let mut l = vec![(0, 0), (w, 0), (w, h), (w + d, h), (w + d, -d), (-d, -d), (-d, h + r.r(0, 1)), (0, h)];
            if r.one_in(2) {
                l.insert(1, (r.r(0, w), -r.r(0, d - 1)));
            }
            close(l)
        }
        1 => any_loop(r)?,
        _ => {
            let n = 4 + r.n(6);
            random_loop(r, n, 0, 6)?
        }
    };
    if !simple_loop(&a) {
        return None;
    }
    let b = inscribed(r, &a)?;
    let m = Map::random(r);
    Some((redraw(r, &m.line(&a)), redraw(r, &m.line(&b))))
}

/// Mostly no ring: of few positions, flat, repeating itself, crossing itself.
fn no_ring(r: &mut Rng, l: &Line) -> Line {
    if l.is_empty() {
        return l.clone();
    }
    let n = r.r(2, 6);
    if r.one_in(2) {
        // on a line
        let d = (r.r(-1, 1), r.r(-1, 1));
        let mut l: Line = (0..n - 1).map(|k| (l[0].0 + k * d.0, l[0].1 + k * d.1)).chain([l[0]]).collect();
        if r.one_in(2) {
            r.shuffle(&mut l[1..]);
        }
        return l;
    }
    let mut l: Line = l.iter().take(n as usize).copied().collect();
    if r.one_in(2) {
        for q in l.iter_mut() {
            *q = (q.0 + r.r(-1, 1), q.1 + r.r(-1, 1));
        }
    }
    if !r.one_in(4) {
        let (k, q) = (l.len() - 1, l[0]);
        l[k] = q;
    }
    l
}

pub fn polygons(g: &mut Gen) {
    for _ in 0..g.times(1500, 20000) {
        let (e, r) = (g.emb(), &mut g.r);
        let (a, b) = scattered_pair(r);
        let mut s = Session::new(e);
        s.ev("g.valid", list![3, lines_v(&[a.clone(), b.clone()])]);
        s.ev("g.valid", list![3, lines_v(&[b, a])]);
        g.rounded(s);
    }
    for round in 0..g.times(2200, 40000) {
        let e = g.emb();
        let r = &mut g.r;
        let mut p = any_polygon(r);
        let mut s = Session::new(e);
        if r.one_in(3) {
            let m = Map::random(r);
            p = p.iter().map(|l| m.line(l)).collect();
        }
        s.ev("g.simple", list![3, lines_v(&p)]);
        if r.one_in(2) {
            let mut q = redraw_poly(r, &p);
            if q.len() > 1 {
                r.shuffle(&mut q[1..]);
            }
            s.ev("g.valid", list![3, lines_v(&q)]);
        }
        if r.one_in(2) {
            shell_inside(r, &mut p);
            s.ev("g.simple", list![3, lines_v(&p)]);
        }
        if r.one_in(6) && !p.is_empty() {
            let (mut p, i) = (p.clone(), r.n(p.len()));
            p[i] = no_ring(r, &p[i]);
            s.ev("g.valid", list![3, lines_v(&p)]);
        }
        if r.one_in(20) && !p.is_empty() {
            let i = r.n(p.len());
            let mut v: Vec<V> = p.iter().map(|l| ps(l)).collect();
            v[i] = with_odd(r, &p[i]);
            s.ev("g.valid", list![3, L(v)]);
        }
        if round % 500 == 0 {
            s.ev("g.valid", list![3, list![]]);
            s.ev("g.valid", list![3, L(vec![list![], list![]])]);
            s.ev("g.valid", list![3, L(vec![list![], ps(&[(0, 0), (1, 0), (0, 1), (0, 0)])])]);
        }
        g.send(s);
    }
    // pairs of small loops: all ways to cross and touch
    for _ in 0..g.times(2500, 60000) {
        let e = g.emb();
        let r = &mut g.r;
        let hi = r.r(2, 4);
        let (a, b) = match inscribed_pair(r) {
            Some(p) if r.one_in(2) => p,
            _ => (some_loop(r, 0, hi), some_loop(r, 0, hi)),
        };
        let mut s = Session::new(e);
        s.ev("g.valid", list![3, lines_v(&[a.clone(), b.clone()])]);
        s.ev("g.valid", list![3, lines_v(&[b.clone(), a.clone()])]);
        let out = vec![(-99, -99), (99, -99), (99, 99), (-99, 99), (-99, -99)];
        s.ev("g.valid", list![3, lines_v(&[out, a, b])]);
        g.send(s);
    }
}

/// Polygons of a partition of the board, one after the other from what is left.
fn board_polygons(r: &mut Rng) -> Vec<Poly> {
    let b = Board { w: r.r(2, 4) };
    let mut free: BTreeSet<Tri> = b.all().into_iter().collect();
    let mut ps = Vec::new();
    for _ in 0..1 + r.n(4) {
        let n = 2 + r.n(24);
        if let Some((p, set)) = board_polygon(r, &b, &free, n) {
            for t in &set {
                free.remove(t);
                // mostly keep polygons from sharing sides
                if !r.one_in(40) {
                    for u in b.neighbors(*t) {
                        free.remove(&u);
                    }
                }
            }
            ps.push(p);
        }
    }
    ps
}

/// A shell with holes in the cells of a grid, and islands in holes, mostly; islands
/// may have a lake with an island again.  Now and then an island is elsewhere.
fn archipelago(r: &mut Rng) -> Vec<Poly> {
    let sq = |x: i64, y: i64, w: i64| vec![(x, y), (x + w, y), (x + w, y + w), (x, y + w), (x, y)];
    let (w, h) = (r.r(1, 3), r.r(1, 3));
    let mut shell = vec![vec![(0, 0), (12 * w, 0), (12 * w, 12 * h), (0, 12 * h), (0, 0)]];
    let mut m = Vec::new();
    let stray = if r.one_in(2) { r.n((w * h) as usize) } else { usize::MAX };
    for i in 0..(w * h) as usize {
        let (x, y) = (12 * (i as i64 % w), 12 * (i as i64 / w));
        let hole = i != stray && !r.one_in(4);
        if hole {
            shell.push(sq(x + 1, y + 1, 10));
        }
        if i == stray || (hole && !r.one_in(4)) {
            let z = r.r(1, 3);
            let (px, py) = (x + 1 + r.r(0, 8 - 2 * z), y + 1 + r.r(0, 8 - 2 * z));
            let (px, py) = if r.one_in(3) { (px, py) } else { (px.max(x + 2), py.max(y + 2)) };
            let mut p = vec![sq(px, py, 2 * z)];
            if z == 3 && !r.one_in(3) {
                p.push(sq(px + 1, py + 1, 4));
                if r.one_in(2) {
                    m.push(vec![sq(px + 2, py + 2, 2)]);
                }
            } else if z > 1 && r.one_in(6) {
                m.push(vec![sq(px + 1, py + 1, 1)]);
            }
            m.push(p);
        }
    }
    if r.one_in(3) {
        let x = -r.r(1, 5);
        m.push(vec![sq(x, 3, -x)]);
    }
    m.push(shell);
    r.shuffle(&mut m);
    if r.one_in(2) {
        for p in m.iter_mut() {
            r.shuffle(&mut p[1..]);
        }
    }
    m
}

fn any_multi_polygon(r: &mut Rng) -> Vec<Poly> {
    match r.n(8) {
        6 | 7 => archipelago(r),
        0 => (0..r.r(1, 3)).map(|_| any_polygon(r)).collect(),
        1 => {
            let hi = r.r(2, 5);
            (0..r.r(2, 4)).map(|_| vec![some_loop(r, 0, hi)]).collect()
        }
        2 => {
            // nested frames
            let mut v = Vec::new();
            for k in 0..r.r(1, 3) {
                let (a, b) = (3 * k, 30 - 3 * k);
                let gap = r.r(1, 3);
                let sq = |a: i64, b: i64| vec![(a, a), (b, a), (b, b), (a, b), (a, a)];
                v.push(vec![sq(a, b), sq(a + gap, b - gap)]);
            }
            v
        }
        _ => board_polygons(r),
    }
}

pub fn multi_polygons(g: &mut Gen) {
    for _ in 0..g.times(1500, 20000) {
        let (e, r) = (g.emb(), &mut g.r);
        let (a, b) = scattered_pair(r);
        let mut s = Session::new(e);
        s.ev("g.valid", list![6, polys_v(&[vec![a.clone()], vec![b.clone()]])]);
        s.ev("g.valid", list![6, polys_v(&[vec![b], vec![a]])]);
        g.rounded(s);
    }
    for _ in 0..g.times(2000, 40000) {
        let e = g.emb();
        let r = &mut g.r;
        let mut m = any_multi_polygon(r);
        if r.one_in(3) {
            let t = Map::random(r);
            m = m.iter().map(|p| p.iter().map(|l| t.line(l)).collect()).collect();
        }
        let mut s = Session::new(e);
        s.ev("g.simple", list![6, polys_v(&m)]);
        if r.one_in(2) {
            let mut q: Vec<Poly> = m.iter().map(|p| redraw_poly(r, p)).collect();
            r.shuffle(&mut q);
            s.ev("g.valid", list![6, polys_v(&q)]);
        }
        if r.one_in(2) && !m.is_empty() {
            let i = r.n(m.len());
            match r.n(6) {
                4 if !m[i].is_empty() => {
                    let k = r.n(m[i].len());
                    m[i][k] = no_ring(r, &m[i][k]);
                }
                0 => m.push(m[i].clone()),
                1 => m.push(vec![]),
                2 if m[i].len() > 1 => {
                    // fill a hole
                    let h = m[i][1].clone();
                    m.push(vec![h]);
                }
                3 => {
                    let (x, y) = (r.r(-2, 2), r.r(-2, 2));
                    m[i] = m[i].iter().map(|l| l.iter().map(|q| (q.0 + x, q.1 + y)).collect()).collect();
                }
                _ => shell_inside(r, &mut m[i]),
            }
            s.ev("g.simple", list![6, polys_v(&m)]);
        }
        g.send(s);
    }
    // two small triangles or quadrilaterals
    for _ in 0..g.times(2000, 40000) {
        let e = g.emb();
        let r = &mut g.r;
        let hi = r.r(2, 4);
        let (a, b) = match inscribed_pair(r) {
            Some(p) if r.one_in(2) => p,
            _ => (some_loop(r, 0, hi), some_loop(r, 0, hi)),
        };
        let mut s = Session::new(e);
        s.ev("g.valid", list![6, polys_v(&[vec![a.clone()], vec![b.clone()]])]);
        s.ev("g.valid", list![6, polys_v(&[vec![b], vec![a]])]);
        g.send(s);
    }
}

// ---- boundaries, hulls, accessors -------------------------------------------

pub fn valid_geometry(r: &mut Rng) -> V {
    match r.n(9) {
        0 => list![0, list![]],
        1 => list![1, pv((r.r(-5, 5), r.r(-5, 5)))],
        2 => {
            let l = match r.n(5) {
                0 => vec![],
                1 => some_loop(r, 0, 5),
                2 => {
                    let n = r.r(3, 20);
                    long_line(r, n)
                }
                3 => vec![(0, 0), (1, r.r(1, 3)), (2, 0)],
                _ => vec![(r.r(0, 2), 0), (r.r(3, 5), 1)],
            };
            list![2, ps(&l)]
        }
        3 | 4 => {
            let b = Board { w: 3 };
            let free: BTreeSet<Tri> = b.all().into_iter().collect();
            let n = 2 + r.n(30);
            let p = if r.one_in(6) { vec![] } else { board_polygon(r, &b, &free, n).map_or(vec![], |x| x.0) };
            list![3, lines_v(&redraw_poly_rings(r, &p))]
        }
        5 => {
            let mut s: BTreeSet<P> = BTreeSet::new();
            for _ in 0..r.n(6) {
                s.insert((r.r(0, 3), r.r(0, 3)));
            }
            let mut v: Line = s.into_iter().collect();
            r.shuffle(&mut v);
            list![4, ps(&v)]
        }
        6 | 7 => {
            let (w, n) = (r.r(1, 3), r.n(12));
            let mut ls = network(r, w, n);
            if r.one_in(4) {
                ls.push(vec![]);
            }
            if r.one_in(4) {
                let l = some_loop(r, 50, 55);
                ls.push(l);
            }
            r.shuffle(&mut ls);
            list![5, lines_v(&ls)]
        }
        _ => {
            let mut m = board_polygons(r);
            if r.one_in(4) {
                m.push(vec![]);
            }
            r.shuffle(&mut m);
            list![6, polys_v(&m)]
        }
    }
}
fn redraw_poly_rings(r: &mut Rng, p: &Poly) -> Poly {
    if r.one_in(2) { redraw_poly(r, p) } else { p.clone() }
}

pub fn boundaries(g: &mut Gen) {
    for _ in 0..g.times(5000, 80000) {
        let e = if g.r.one_in(8) { super::misc::extreme(&mut g.r) } else { g.emb() };
        let mut v = valid_geometry(&mut g.r);
        if g.r.one_in(6) {
            let d = spoil(&mut g.r, v.at(1));
            v = list![v.at(0).clone(), d];
        }
        g.one(e, "g.bnd", v);
    }
    // many lines that share ends
    for _ in 0..g.times(1500, 20000) {
        let e = g.emb();
        let r = &mut g.r;
        let n = 3 + r.n(40);
        let w = r.r(1, 4);
        let ls = network(r, w, n);
        let mut v = lines_v(&ls);
        if r.one_in(5) {
            for _ in 0..1 + r.n(4) {
                v = spoil(r, &v);
            }
        }
        g.one(e, "g.bnd", list![5, v]);
    }
}

pub fn surface_points(g: &mut Gen) {
    for _ in 0..g.times(4000, 60000) {
        let mut e = g.emb();
        let r = &mut g.r;
        if r.one_in(6) {
            // the middle of two positions may not be a float, or infinite
            e = Emb::new(64, *r.pick(&[-1074, -1074, 1014]), 0, 0);
        }
        let b = Board { w: 4 };
        if r.one_in(2) {
            // loops, maybe several ones next to each other
            let mut m: Vec<Poly> = vec![];
            for i in 0..1 + r.n(4) as i64 / 3 * 3 {
                if let Some(l) = any_loop(r) {
                    let l = redraw(r, &l).iter().map(|p| (p.0 + 100 * i, p.1)).collect();
                    m.push(vec![l]);
                }
            }
            if m.is_empty() {
                continue;
            }
            if m.len() == 1 && r.one_in(2) {
                g.one(e, "g.surf", list![3, lines_v(&m[0])]);
            } else {
                g.one(e, "g.surf", list![6, polys_v(&m)]);
            }
        } else if r.one_in(2) {
            let free: BTreeSet<Tri> = b.all().into_iter().collect();
            let n = 2 + r.n(50);
            let p = if r.one_in(10) { vec![] } else { board_polygon(r, &b, &free, n).map_or(vec![], |x| x.0) };
            let p = redraw_poly(r, &p);
            g.one(e, "g.surf", list![3, lines_v(&p)]);
        } else {
            let mut m = board_polygons(r);
            for _ in 0..r.n(3) {
                m.push(vec![]);
            }
            if r.one_in(8) {
                m.retain(|p| p.is_empty());
            }
            r.shuffle(&mut m);
            let m: Vec<Poly> = m.iter().map(|p| redraw_poly(r, p)).collect();
            g.one(e, "g.surf", list![6, polys_v(&m)]);
        }
    }
}

/// Simple loops of all sorts.
fn any_loop(r: &mut Rng) -> Option<Line> {
    match r.n(8) {
        0 => star(r, 40, 40),
        1 | 2 => {
            let b = Board { w: r.r(1, 4) };
            let free: BTreeSet<Tri> = b.all().into_iter().collect();
            let n = 1 + r.n(40);
            b.region(r, &free, n).map(|x| x.1[0].clone())
        }
        3 => {
            // a box with positions all along its sides
            let (w, h) = (r.r(1, 5), r.r(1, 5));
            let l = vec![(0, 0), (w, 0), (w, h), (0, h), (0, 0)];
            Some(densify(r, &l, 1))
        }
        4 => {
            // a spiral, closed along its own outside
            let mut l = vec![(0, 0), (4, 0), (4, 4), (-4, 4), (-4, -4), (8, -4), (8, 8), (-8, 8), (-8, -8)];
            l.extend([(-8, -9), (-9, -9), (-9, 9), (9, 9), (9, -5), (-3, -5), (-3, 3), (3, 3), (3, 1), (0, 1)].iter());
            let l = close(l);
            if simple_loop(&l) { Some(l) } else { None }
        }
        _ => {
            let (n, hi) = (3 + r.n(6), *r.pick(&[2, 3, 4, 8]));
            random_loop(r, n, 0, hi)
        }
    }
}

pub fn hulls(g: &mut Gen) {
    for _ in 0..g.times(1000, 20000) {
        let (e, r) = (g.emb(), &mut g.r);
        let l = scattered(r);
        if l.len() > 3 {
            let mut s = Session::new(e);
            s.ev("hull", list![ps(&l)]);
            g.rounded(s);
        }
    }
    for _ in 0..g.times(7000, 120000) {
        let e = g.emb();
        let r = &mut g.r;
        let l = any_loop(r);
        let l = match l {
            Some(l) => l,
            None => continue,
        };
        let l = redraw(r, &l);
        let l = Map::random(r).line(&l);
        if simple_loop(&l) {
            g.one(e, "hull", list![ps(&l)]);
        }
    }
}

pub fn any_finite_geometry(r: &mut Rng) -> V {
    match r.n(8) {
        0 => list![0, list![]],
        1 => list![1, pv((r.r(-5, 5), r.r(-5, 5)))],
        2 => list![2, ps(&any_line(r))],
        3 => list![3, lines_v(&any_polygon(r))],
        4 => list![4, ps(&(0..r.n(6)).map(|_| (r.r(0, 3), r.r(0, 3))).collect::<Line>())],
        5 => list![5, lines_v(&std::iter::repeat(()).take(r.n(4)).map(|_| if r.one_in(4) { vec![] } else { any_line(r) }).collect::<Vec<Line>>())],
        6 => list![6, polys_v(&any_multi_polygon(r))],
        _ => r
            .pick(&[
                list![2, list![]],
                list![3, list![]],
                list![3, L(vec![list![]])],
                list![3, L(vec![list![], list![]])],
                list![4, list![]],
                list![5, list![]],
                list![5, L(vec![list![], list![]])],
                list![6, list![]],
                list![6, L(vec![list![], list![]])],
                list![3, L(vec![list![], L(vec![pv((1, 1)), pv((2, 2))])])],
                list![6, L(vec![list![], L(vec![L(vec![pv((1, 1)), pv((2, 5))])])])],
            ])
            .clone(),
    }
}

/// Replace one of the numbers by an odd one.
fn spoil(r: &mut Rng, v: &V) -> V {
    match v {
        I(_) => I(*r.pick(&[NAN, PINF, NINF])),
        L(x) if !x.is_empty() => {
            let i = r.n(x.len());
            let mut y = x.clone();
            y[i] = spoil(r, &x[i]);
            L(y)
        }
        _ => v.clone(),
    }
}

pub fn accessors(g: &mut Gen) {
    for _ in 0..g.times(3500, 60000) {
        let e = g.emb();
        let r = &mut g.r;
        let v = any_finite_geometry(r);
        let mut s = Session::new(e);
        s.ev("g.info", v.clone());
        if r.one_in(3) {
            let d = spoil(r, v.at(1));
            s.ev("g.info", list![v.at(0).clone(), d]);
        }
        let v = valid_geometry(r);
        s.ev("g.bnd", v.clone());
        if r.one_in(3) {
            s.ev("g.simple", v);
        }
        g.send(s);
    }
}

// ---- representations ----------------------------------------------------------

fn remap(t: i64, d: &V, f: &dyn Fn(P) -> P) -> V {
    let p = |v: &V| pv(f((v.at(0).i(), v.at(1).i())));
    let l = |v: &V| L(v.l().iter().map(|x| p(x)).collect());
    let ll = |v: &V| L(v.l().iter().map(|x| l(x)).collect());
    match t {
        0 => d.clone(),
        1 => p(d),
        2 | 4 => l(d),
        3 | 5 => ll(d),
        _ => L(d.l().iter().map(|x| ll(x)).collect()),
    }
}
fn to_line(v: &V) -> Line {
    v.l().iter().map(|x| (x.at(0).i(), x.at(1).i())).collect()
}
/// The same curve: reversed, with more positions.
fn same_curve(r: &mut Rng, v: &V) -> V {
    let mut l = to_line(v);
    if l.is_empty() {
        return v.clone();
    }
    if r.one_in(2) {
        l = densify(r, &l, 2);
    }
    if l.len() >= 4 && l[0] == l[l.len() - 1] && r.one_in(2) {
        let k = r.n(l.len());
        l = rotate(&l, k);
    }
    if r.one_in(2) {
        l = reverse(&l);
    }
    ps(&l)
}
/// The same rings, other holes' order; an empty shell has no representations.
fn same_polygon(r: &mut Rng, v: &V) -> V {
    let mut rings: Vec<V> = v.l().iter().map(|x| same_curve(r, x)).collect();
    if rings.len() > 2 {
        r.shuffle(&mut rings[1..]);
    }
    L(rings)
}
fn same(r: &mut Rng, t: i64, d: &V) -> V {
    match t {
        0 | 1 => d.clone(),
        2 => same_curve(r, d),
        3 => same_polygon(r, d),
        _ => {
            let mut x: Vec<V> = d
                .l()
                .iter()
                .map(|y| match t {
                    5 => same_curve(r, y),
                    6 => same_polygon(r, y),
                    _ => y.clone(),
                })
                .collect();
            r.shuffle(&mut x);
            L(x)
        }
    }
}

pub fn representations(g: &mut Gen) {
    for _ in 0..g.times(3000, 50000) {
        let (e, e2) = (g.emb(), g.emb());
        let r = &mut g.r;
        let v = if r.one_in(2) { any_finite_geometry(r) } else { valid_geometry(r) };
        let (t, d) = (v.at(0).i(), v.at(1).clone());
        let mut s = Session::new(e);
        for _ in 0..2 {
            let mut d2 = same(r, t, &d);
            let m = Map::random(r);
            if r.one_in(2) {
                d2 = remap(t, &d2, &|p| m.p(p));
            }
            let e2 = match r.n(4) {
                0 | 1 => e2,
                2 => Emb::new(*r.pick(&[32, 64]), 0, 0, 0),
                _ => Some(skew(r)).filter(|k| suits(k, &[list!["g.valid", list![t, d2.clone()]]])).unwrap_or(e2),
            };
            s.ev("rep", list![e2.v(), t, d.clone(), d2]);
        }
        g.send(s);
    }
}

// ---- arbitrary floats -----------------------------------------------------------

fn code(r: &mut Rng, mood: usize) -> i64 {
    match mood {
        0 => r.r(0, 27),
        1 => r.r(2000 - 12, 2000 + 12),
        2 => r.r(4000 - 3, 4000 + 3),
        3 => *r.pick(&[0, 1, 2, 4, 8, 9, 4000, 4001, 3999, 2001, 2002, 2003]),
        4 => r.r(5000, 8999),
        _ => {
            let m = r.n(5);
            code(r, m)
        }
    }
}
fn codes(r: &mut Rng, depth: usize, mood: usize, ring: bool) -> V {
    if depth == 0 {
        return list![code(r, mood), code(r, mood)];
    }
    let n = match depth {
        1 if ring => 2 + r.n(7),
        1 => r.n(9),
        _ => r.n(4),
    };
    let mut v: Vec<V> = (0..n).map(|_| codes(r, depth - 1, mood, ring)).collect();
    if depth == 1 && ring && n > 2 && !r.one_in(5) {
        v.push(v[0].clone());
    }
    L(v)
}
/// Nearly collinear loops: positions along a line, off by little.
fn sliver(r: &mut Rng, depth: usize) -> V {
    if depth == 1 {
        let n = r.n(4) + 3;
        let mut v: Vec<V> = (0..n)
            .map(|_| {
                let k = r.r(-6, 6);
                match r.n(3) {
                    0 => list![2000 + k, 2000 + 3 * k],
                    1 => list![2000 + 3 * k, 2000 + k + r.r(0, 1)],
                    _ => list![2000 + k, 2000 - k],
                }
            })
            .collect();
        v.push(v[0].clone());
        L(v)
    } else {
        L((0..1 + r.n(3)).map(|_| sliver(r, depth - 1)).collect())
    }
}
fn spoil_code(r: &mut Rng, v: &V) -> V {
    match v {
        I(_) => I(*r.pick(&[9000, 9001, 9002])),
        L(x) if !x.is_empty() => {
            let i = r.n(x.len());
            let mut y = x.clone();
            y[i] = spoil_code(r, &x[i]);
            L(y)
        }
        _ => v.clone(),
    }
}

/// Loops through a common pool of decimal positions, which they share.
fn pool(r: &mut Rng, depth: usize) -> V {
    let span = *r.pick(&[3, 6, 12]);
    let pts: Vec<V> = (0..7).map(|_| list![2000 + r.r(0, span), 2000 + r.r(0, span)]).collect();
    fn make(r: &mut Rng, depth: usize, pts: &[V]) -> V {
        if depth == 1 {
            let mut q = pts.to_vec();
            r.shuffle(&mut q);
            q.truncate(3 + r.n(3));
            q.push(q[0].clone());
            L(q)
        } else {
            let n = 1 + r.n(3);
            L((0..n).map(|_| make(r, depth - 1, pts)).collect())
        }
    }
    make(r, depth, &pts)
}

/// Geometries with any pair of odd coordinates at any one position (and, in a
/// loop, at its first and last one).
fn odd_positions(g: &mut Gen) {
    let c = |x: i64, y: i64| list![2000 + x, 2000 + y];
    let square = |x: i64, s: i64| L(vec![c(x, x), c(x + s, x), c(x + s, x + s), c(x, x + s), c(x, x)]);
    let line = |x: i64| L(vec![c(x, 0), c(x + 1, 3), c(x + 2, 0)]);
    let plate = |x: i64| L(vec![square(x, 9), square(x + 2, 2), square(x + 5, 2)]);
    let shapes = [
        (1, c(1, 2)),
        (2, line(0)),
        (2, square(0, 3)),
        (4, line(0)),
        (5, L(vec![line(0), line(8), square(20, 3)])),
        (3, L(vec![square(0, 3)])),
        (3, plate(0)),
        (6, L(vec![plate(0), L(vec![square(20, 3)])])),
    ];
    /// All positions of v in turn, and loops' ends, replaced by p.
    fn replaced(v: &V, p: &V, out: &mut Vec<V>) {
        let l = v.l();
        if let I(_) = l[0] {
            return out.push(p.clone());
        }
        if l.len() > 3 && l[0] == l[l.len() - 1] {
            let mut x = l.to_vec();
            x[0] = p.clone();
            x[l.len() - 1] = p.clone();
            out.push(L(x));
        }
        for i in 0..l.len() {
            let mut inner = vec![];
            replaced(&l[i], p, &mut inner);
            for y in inner {
                let mut x = l.to_vec();
                x[i] = y;
                out.push(L(x));
            }
        }
    }
    let odd = [9000, 9001, 9002, 14, 15, 1, 2003, 11];
    for ty in [64, 32] {
        for (t, d) in &shapes {
            for x in odd {
                let mut s = Session::new(Emb::new(ty, 0, 0, 0));
                for y in odd {
                    let mut all = vec![];
                    replaced(d, &list![x, y], &mut all);
                    for d2 in all {
                        s.ev("tot", list![*t, d2]);
                    }
                }
                g.send(s);
            }
        }
    }
}

pub fn totality(g: &mut Gen) {
    odd_positions(g);
    let depth = |t: i64| match t {
        1 => 0,
        2 | 4 => 1,
        3 | 5 => 2,
        _ => 3,
    };
    for _ in 0..g.times(20000, 400000) {
        let r = &mut g.r;
        let e = Emb::new(*r.pick(&[64, 32]), 0, 0, 0);
        let t = *r.pick(&[1, 2, 2, 3, 3, 3, 4, 5, 5, 6, 6, 6]);
        let mood = r.n(6);
        let d = match r.n(4) {
            0 if depth(t) > 0 => sliver(r, depth(t)),
            1 if depth(t) > 0 => pool(r, depth(t)),
            _ => {
                let ring = t == 3 || t == 6 || r.one_in(2);
                codes(r, depth(t), mood, ring)
            }
        };
        let d = if r.one_in(5) { spoil_code(r, &d) } else { d };
        g.one(e, "tot", list![t, d]);
    }
    // what the specification decides: validity of small and odd geometries
    for _ in 0..g.times(500, 8000) {
        let e = g.emb();
        let r = &mut g.r;
        let v = any_finite_geometry(r);
        let mut s = Session::new(e);
        let d = spoil(r, v.at(1));
        if v.at(0).i() != 0 {
            s.ev("g.valid", list![v.at(0).clone(), d]);
        }
        s.ev("g.valid", v);
        g.send(s);
    }
}
