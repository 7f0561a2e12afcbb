//! Executes the operations of an event session on the real library.
use crate::emb::{restart, Emb, Num, BAD};
use crate::list;
use crate::val::{I, L, V};
use magog::flatbush::{Flatbush, FlatbushNode};
use magog::linear::primitives as lp;
use magog::linear::types as lt;
use magog::planar::primitives::*;
use magog::planar::types::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Regs<C: Num> {
    trees: Vec<Option<Flatbush<C>>>,
    envs: Vec<Envelope<C>>,
    lenvs: Vec<lp::Envelope<C>>,
    geoms: Vec<Geometry<C>>,
}

pub fn b(x: bool) -> V {
    I(x as i64)
}

// ---- decoding and encoding -------------------------------------------------

fn pos<C: Num>(e: &Emb, v: &V) -> Position<C> {
    at(e, v.at(0).i(), v.at(1).i())
}
fn at<C: Num>(e: &Emb, x: i64, y: i64) -> Position<C> {
    let (x, y) = e.xy(x, y);
    Position::new(x, y)
}
/// 1 less, 2 the same, 3 greater, 0 not comparable.
fn order(o: Option<std::cmp::Ordering>) -> i64 {
    o.map_or(0, |o| 2 + o as i64)
}
fn pos_v<C: Num>(e: &Emb, p: Position<C>) -> V {
    let (x, y) = e.dxy(p.x, p.y);
    list![x, y]
}
fn positions<C: Num>(e: &Emb, v: &V) -> Vec<Position<C>> {
    v.l().iter().map(|p| pos(e, p)).collect()
}
fn seg<C: Num>(e: &Emb, v: &V) -> Segment<C> {
    let a = v.ints();
    Segment::new(at(e, a[0], a[1]), at(e, a[2], a[3]))
}
fn seg_v<C: Num>(e: &Emb, s: Segment<C>) -> V {
    let ((x1, y1), (x2, y2)) = (e.dxy(s.start.x, s.start.y), e.dxy(s.end.x, s.end.y));
    list![x1, y1, x2, y2]
}
fn env<C: Num>(e: &Emb, v: &V) -> Envelope<C> {
    if v.l().is_empty() {
        return Envelope::empty();
    }
    let a = v.ints();
    Envelope::new(
        Position::new(e.x(a[0]), e.y(a[1])),
        Position::new(e.x(a[2]), e.y(a[3])),
    )
}
fn env_v<C: Num>(e: &Emb, v: Envelope<C>) -> V {
    match v {
        Envelope::Empty => list![],
        Envelope::Bounds { min, max } => list![e.dx(min.x), e.dy(min.y), e.dx(max.x), e.dy(max.y)],
    }
}
fn line<C: Num>(e: &Emb, v: &V) -> LineString<C> {
    LineString::new(positions(e, v))
}
fn line_v<C: Num>(e: &Emb, l: &LineString<C>) -> V {
    L(l.positions.iter().map(|p| pos_v(e, *p)).collect())
}
fn poly<C: Num>(e: &Emb, v: &V) -> Polygon<C> {
    let mut rings = v.l().iter().map(|r| line(e, r));
    let exterior = rings.next().unwrap_or_else(|| LineString::new(vec![]));
    let interiors: Vec<LineString<C>> = rings.collect();
    if interiors.is_empty() {
        Polygon::from(exterior)
    } else {
        Polygon::new(exterior, interiors)
    }
}
fn poly_v<C: Num>(e: &Emb, p: &Polygon<C>) -> V {
    let mut rings = vec![line_v(e, &p.exterior)];
    rings.extend(p.interiors.iter().map(|r| line_v(e, r)));
    L(rings)
}
fn mpoint<C: Num>(e: &Emb, v: &V) -> MultiPoint<C> {
    MultiPoint::from(positions::<C>(e, v))
}
fn mline<C: Num>(e: &Emb, v: &V) -> MultiLineString<C> {
    MultiLineString::new(v.l().iter().map(|l| line(e, l)).collect())
}
fn mpoly<C: Num>(e: &Emb, v: &V) -> MultiPolygon<C> {
    MultiPolygon::new(v.l().iter().map(|p| poly(e, p)).collect())
}
pub fn geometry<C: Num>(e: &Emb, t: i64, d: &V) -> Geometry<C> {
    match t {
        0 => Geometry::from(Empty::new()),
        1 => Geometry::from(Point::new(pos(e, d))),
        2 => Geometry::from(line(e, d)),
        3 => Geometry::from(poly(e, d)),
        4 => Geometry::from(mpoint(e, d)),
        5 => Geometry::from(mline(e, d)),
        6 => Geometry::from(mpoly(e, d)),
        _ => panic!("harness: type {}", t),
    }
}
pub fn geometry_v<C: Num>(e: &Emb, g: &Geometry<C>) -> V {
    match g {
        Geometry::Empty(_) => list![0, list![]],
        Geometry::Point(p) => list![1, pos_v(e, p.0)],
        Geometry::LineString(l) => list![2, line_v(e, l)],
        Geometry::Polygon(p) => list![3, poly_v(e, p)],
        Geometry::MultiPoint(m) => list![4, L(m.points.iter().map(|p| pos_v(e, p.0)).collect())],
        Geometry::MultiLineString(m) => {
            list![5, L(m.line_strings.iter().map(|l| line_v(e, l)).collect())]
        }
        Geometry::MultiPolygon(m) => list![6, L(m.polygons.iter().map(|p| poly_v(e, p)).collect())],
    }
}
/// Boundaries: the points of a MultiPoint in a canonical order.
fn boundary_v<C: Num>(e: &Emb, g: &Geometry<C>) -> V {
    let v = geometry_v(e, g);
    match g {
        Geometry::MultiPoint(_) => list![4, v.at(1).clone().sorted()],
        _ => v,
    }
}
fn type_code(name: &str) -> i64 {
    match name {
        "Empty" => 0,
        "Point" => 1,
        "LineString" => 2,
        "Polygon" => 3,
        "MultiPoint" => 4,
        "MultiLineString" => 5,
        "MultiPolygon" => 6,
        _ => BAD,
    }
}
fn lpos<C: Num>(e: &Emb, v: &V) -> lp::Position<C> {
    lp::Position::new(e.x(v.i()))
}
fn lenv<C: Num>(e: &Emb, v: &V) -> lp::Envelope<C> {
    if v.l().is_empty() {
        lp::Envelope::empty()
    } else {
        lp::Envelope::new(lpos(e, v.at(0)), lpos(e, v.at(1)))
    }
}
fn lenv_v<C: Num>(e: &Emb, v: lp::Envelope<C>) -> V {
    match v {
        lp::Envelope::Empty => list![],
        lp::Envelope::Bounds { min, max } => list![e.dx(min.x), e.dx(max.x)],
    }
}

// ---- spatial index ---------------------------------------------------------

fn plant<C: Num, T: HasEnvelope<C>>(items: Vec<T>, sorted: bool, degree: usize) -> Flatbush<C> {
    if sorted {
        Flatbush::new(&items, degree)
    } else {
        Flatbush::new_unsorted(&items, degree)
    }
}

/// Geometry does not implement HasEnvelope; it has an envelope() of its own.
struct Wrapped<C: Num>(Geometry<C>);
impl<C: Num> HasEnvelope<C> for Wrapped<C> {
    fn envelope(&self) -> Envelope<C> {
        self.0.envelope()
    }
}

fn build<C: Num>(e: &Emb, kind: i64, sorted: bool, degree: usize, items: &V) -> Flatbush<C> {
    let it = items.l().iter();
    match kind {
        0 if items.l().is_empty() && !sorted && degree == 8 => Flatbush::new_empty(),
        0 => plant(it.map(|v| env::<C>(e, v)).collect(), sorted, degree),
        1 => plant(it.map(|v| pos::<C>(e, v)).collect(), sorted, degree),
        2 => plant(it.map(|v| seg::<C>(e, v)).collect(), sorted, degree),
        3 => plant(it.map(|v| line::<C>(e, v)).collect(), sorted, degree),
        4 => plant(
            it.map(|v| Wrapped(geometry::<C>(e, v.at(0).i(), v.at(1)))).collect(),
            sorted,
            degree,
        ),
        5 => plant(it.map(|v| Point::new(pos::<C>(e, v))).collect(), sorted, degree),
        6 => plant(it.map(|v| poly::<C>(e, v)).collect(), sorted, degree),
        7 => plant(it.map(|v| mpoint::<C>(e, v)).collect(), sorted, degree),
        8 => plant(it.map(|v| mline::<C>(e, v)).collect(), sorted, degree),
        9 => plant(it.map(|v| mpoly::<C>(e, v)).collect(), sorted, degree),
        _ => panic!("harness: kind {}", kind),
    }
}

fn walk<C: Num>(e: &Emb, t: &Flatbush<C>, node: FlatbushNode<C>, limit: &mut i64) -> V {
    *limit -= 1;
    if *limit < 0 {
        return list![BAD, list![], BAD, list![]];
    }
    let children = if node.level == 0 {
        list![]
    } else {
        L(t.get_children(node).into_iter().map(|c| walk(e, t, c, limit)).collect())
    };
    let idx = if node.level == 0 { node.sibling_index as i64 } else { -1 };
    list![node.level, env_v(e, node.envelope), idx, children]
}

fn leaves<C: Num>(t: &Flatbush<C>, node: FlatbushNode<C>, out: &mut Vec<usize>) {
    if node.level == 0 {
        out.push(node.sibling_index);
    } else {
        for c in t.get_children(node) {
            leaves(t, c, out);
        }
    }
}

fn pairs(v: Vec<(usize, usize)>) -> V {
    L(v.into_iter().map(|(i, j)| list![i, j]).collect::<Vec<V>>()).sorted()
}

// ---- text ------------------------------------------------------------------

/// The text of number m in a style, and its value.
fn number(style: i64, m: i64) -> (String, f64) {
    let n = m - 500;
    let sign = if n < 0 { "-" } else { "" };
    let a = n.abs();
    if style / 30 % 2 == 1 {
        // Less usual ways of writing numbers.
        let s = match style % 5 {
            0 if n == 0 => "-0".to_string(),
            0 => format!("{}.", n),
            1 => format!("{}{}.{:02}", sign, if a < 4 { String::new() } else { (a / 4).to_string() }, a % 4 * 25),
            // one that is too large for a float
            2 if m == 777 => "1e999".to_string(),
            2 if m == 3 => "-17.5E308".to_string(),
            2 => format!("{}{}E+300", if n == 0 { "-" } else { "" }, n),
            3 => format!("{}{}.0e-320", if n <= 0 { "-" } else { "+" }, a),
            _ => format!("{}{}.1000000000000000055511151231257827021181583404541015625", sign, a),
        };
        let x = s.trim_start_matches('+').parse().unwrap();
        return (s, x);
    }
    match style % 5 {
        0 => (format!("{}", n), n as f64),
        1 => (format!("{}{}.{:02}", sign, a / 4, a % 4 * 25), n as f64 / 4.0),
        2 => (format!("{}{}.{}", sign, a / 10, a % 10), n as f64 / 10.0),
        3 => (format!("{}e1", n), n as f64 * 10.0),
        _ => (
            format!("{}{}.{:03}", if n < 0 { "-" } else { "+" }, a / 1000, a % 1000),
            n as f64 / 1000.0,
        ),
    }
}

pub fn text(style: i64, tokens: &V) -> String {
    let mut s = String::new();
    let mut h: u64 = style as u64 * 7919 + 17;
    let mut prev_solid = false;
    for t in tokens.l() {
        let t = t.i();
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let word = |w: &str| match (style / 5) % 3 {
            0 => w.to_string(),
            1 => w.to_lowercase(),
            _ => w
                .chars()
                .enumerate()
                .map(|(i, c)| if i % 2 == 0 { c } else { c.to_ascii_lowercase() })
                .collect(),
        };
        let (piece, solid) = match t {
            -1 => ("(".to_string(), false),
            -2 => (")".to_string(), false),
            -3 => (",".to_string(), false),
            -4 => (word("EMPTY"), true),
            -11 => (word("POINT"), true),
            -12 => (word("LINESTRING"), true),
            -13 => (word("POLYGON"), true),
            -14 => (word("MULTIPOINT"), true),
            -15 => (word("MULTILINESTRING"), true),
            -16 => (word("MULTIPOLYGON"), true),
            -17 => (word("GEOMETRYCOLLECTION"), true),
            -20 => (word("LINEARRING"), true),
            -21 => ("1.2.3".to_string(), true),
            -22 => ("&%$".to_string(), true),
            -23 => ("\u{e4}\u{f6}\u{1F600}".to_string(), true),
            -24 => ("--4".to_string(), true),
            -25 => ("\u{0}".to_string(), false),
            -26 => ("12\u{e4}".to_string(), true),
            m if m >= 0 => (number(style, m).0, true),
            _ => panic!("harness: token {}", t),
        };
        let blanks = [" ", "  ", "\t", "\n ", "\r\n"];
        if prev_solid && solid {
            s.push_str(blanks[(h >> 33) as usize % 5]);
        } else if (style / 15) % 2 == 1 && (h >> 40) % 2 == 1 {
            s.push_str(blanks[(h >> 33) as usize % 5]);
        }
        s.push_str(&piece);
        prev_solid = solid;
    }
    s
}

fn wkt(style: i64, tokens: &V) -> V {
    let s = text(style, tokens);
    match magog::serde::wkt::parse_wkt(&s) {
        Err(_) => list![0, list![]],
        Ok(geoms) => {
            let back = |c: f64| -> V {
                for t in tokens.l() {
                    if t.i() >= 0 && number(style, t.i()).1.to_bits() == c.to_bits() {
                        return t.clone();
                    }
                }
                I(BAD)
            };
            let p = |p: Position<f64>| list![back(p.x), back(p.y)];
            let l = |l: &LineString<f64>| L(l.positions.iter().map(|x| p(*x)).collect());
            let poly = |g: &Polygon<f64>| {
                let mut r = vec![l(&g.exterior)];
                r.extend(g.interiors.iter().map(|i| l(i)));
                L(r)
            };
            let one = |g: &Geometry<f64>| match g {
                Geometry::Empty(_) => list![0, list![]],
                Geometry::Point(x) => list![1, p(x.0)],
                Geometry::LineString(x) => list![2, l(x)],
                Geometry::Polygon(x) => list![3, poly(x)],
                Geometry::MultiPoint(m) => list![4, L(m.points.iter().map(|x| p(x.0)).collect())],
                Geometry::MultiLineString(m) => {
                    list![5, L(m.line_strings.iter().map(|x| l(x)).collect())]
                }
                Geometry::MultiPolygon(m) => list![6, L(m.polygons.iter().map(|x| poly(x)).collect())],
            };
            list![1, L(geoms.iter().map(|g| one(g)).collect())]
        }
    }
}

// ---- arbitrary floats ------------------------------------------------------

const FINITE: [f64; 28] = [
    0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.30000000000000004, 0.3, 1.0000000000000002,
    0.9999999999999999, 1e-300, 5e-324, -5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1e308,
    -1e308, 1e200, -1e200, 1e154, 1.5e154, 1e16, 9007199254740993.0, 3.3333333333333335, 1e-8, 2.0,
    1e300,
];
const FINITE32: [f32; 28] = [
    0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 0.30000004, 1.0000001, 0.99999994, 1e-38, 1e-45, -1e-45,
    f32::MIN_POSITIVE, f32::MAX, f32::MIN, 1e38, -1e38, 1e20, -1e20, 1e19, 1.5e19, 1e8, 16777217.0,
    3.3333333, 1e-8, 2.0, 3e37,
];

/// Codes below 28: special finite values; 1000.. : k/10 near-degenerate values;
/// 5000..: hashed arbitrary finite bits; 9000, 9001, 9002: NaN, +inf, -inf.
fn float<C: Num>(ty: i64, code: i64) -> C {
    match code {
        9000 => C::of(f64::NAN),
        9001 => C::of(f64::INFINITY),
        9002 => C::of(f64::NEG_INFINITY),
        0..=27 if ty == 32 => C::of(FINITE32[code as usize] as f64),
        0..=27 => C::of(FINITE[code as usize]),
        1000..=2999 => C::of((code - 2000) as f64) / C::of(10.0),
        3000..=4999 => C::of(1.0) + C::of((code - 4000) as f64) * C::of(if ty == 32 { 1.1920929e-7 } else { f64::EPSILON }),
        _ => {
            let mut h = code as u64;
            loop {
                h = (h ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                h ^= h >> 29;
                let c = C::raw(h);
                if c.f().is_finite() {
                    return c;
                }
            }
        }
    }
}

fn total<C: Num>(ty: i64, t: i64, d: &V) -> V {
    let p = |v: &V| Position::<C>::new(float(ty, v.at(0).i()), float(ty, v.at(1).i()));
    let l = |v: &V| LineString::new(v.l().iter().map(|x| p(x)).collect());
    let pg = |v: &V| {
        let mut r = v.l().iter().map(|x| l(x));
        let ext = r.next().unwrap_or_else(|| LineString::new(vec![]));
        Polygon::new(ext, r.collect())
    };
    b(match t {
        1 => Point::new(p(d)).validate().is_ok(),
        2 => l(d).validate().is_ok(),
        3 => pg(d).validate().is_ok(),
        4 => MultiPoint::from(d.l().iter().map(|x| p(x)).collect::<Vec<_>>()).validate().is_ok(),
        5 => MultiLineString::new(d.l().iter().map(|x| l(x)).collect()).validate().is_ok(),
        6 => MultiPolygon::new(d.l().iter().map(|x| pg(x)).collect()).validate().is_ok(),
        _ => panic!("harness: type {}", t),
    })
}

/// Geometries through the conversions from tuples (0), arrays (1), positions (2),
/// or nested library types (3); a polygon from its exterior alone.
fn converted<C: Num>(e: &Emb, how: i64, t: i64, d: &V) -> Geometry<C> {
    let tup = |v: &V| -> (C, C) { (e.x(v.at(0).i()), e.y(v.at(1).i())) };
    let arr = |v: &V| -> [C; 2] { [e.x(v.at(0).i()), e.y(v.at(1).i())] };
    macro_rules! with {
        ($p:expr) => {{
            let p = &$p;
            let l = |v: &V| all(v, p);
            match t {
                1 => Geometry::from(Point::<C>::from(p(d))),
                2 => Geometry::from(LineString::<C>::from(l(d))),
                3 => Geometry::from(Polygon::<C>::from(l(d))),
                4 => Geometry::from(MultiPoint::<C>::from(l(d))),
                5 => Geometry::from(MultiLineString::<C>::from(all(d, &l))),
                6 => Geometry::from(MultiPolygon::<C>::from(all(d, &l))),
                n => panic!("harness: conversion {}", n),
            }
        }};
    }
    match (how, t) {
        (0, _) => with!(tup),
        (1, _) => with!(arr),
        (2, _) => with!(|v: &V| -> Position<C> { pos(e, v) }),
        (_, 1) => Geometry::from(Point::<C>::new(pos(e, d))),
        (_, 2) => line_of(&line::<C>(e, d)),
        (_, 3) => Geometry::from(Polygon::<C>::from(line::<C>(e, d))),
        (_, 4) => Geometry::from(MultiPoint::new(all(d, &|v| Point::new(pos(e, v))))),
        (_, 5) => Geometry::from(MultiLineString::<C>::from(all(d, &|v| line::<C>(e, v)))),
        (_, 6) => Geometry::from(MultiPolygon::<C>::from(all(d, &|v| Polygon::from(line::<C>(e, v))))),
        (_, n) => panic!("harness: conversion {}", n),
    }
}
fn all<T>(v: &V, f: &dyn Fn(&V) -> T) -> Vec<T> {
    v.l().iter().map(|x| f(x)).collect()
}
fn conv<C: Num>(e: &Emb, how: i64, what: &V, d: &V) -> V {
    let tup = |v: &V| -> (C, C) { (e.x(v.at(0).i()), e.y(v.at(1).i())) };
    let arr = |v: &V| -> [C; 2] { [e.x(v.at(0).i()), e.y(v.at(1).i())] };
    macro_rules! with {
        ($p:expr) => {{
            let p = $p;
            if what.i() == 7 {
                list![7, seg_v(e, Segment::<C>::from((p(d.at(0)), p(d.at(1)))))]
            } else {
                let c = Triangle::<C>::from((p(d.at(0)), p(d.at(1)), p(d.at(2)))).to_array();
                list![8, L(c.iter().map(|q| pos_v(e, *q)).collect::<Vec<V>>())]
            }
        }};
    }
    match (what.i(), how) {
        (1..=6, _) => geometry_v(e, &converted::<C>(e, how, what.i(), d)),
        (_, 0) => with!(tup),
        (_, 1) => with!(arr),
        _ => with!(|v: &V| -> Position<C> { pos(e, v) }),
    }
}
fn line_of<C: Num>(l: &LineString<C>) -> Geometry<C> {
    Geometry::from(LineString::collect_from(l.segments_iter().map(|s| s.start).chain(l.end_point().map(|p| p.0))))
}

// ---- geometries in registers -------------------------------------------------

fn line_part<C: Num>(e: &Emb, l: &LineString<C>) -> V {
    list![env_v(e, l.envelope()), l.validate().is_ok(), l.is_closed()]
}
fn poly_part<C: Num>(e: &Emb, p: &Polygon<C>) -> V {
    let mut rings = vec![line_part(e, &p.exterior)];
    rings.extend(p.interiors.iter().map(|r| line_part(e, r)));
    list![env_v(e, p.envelope()), p.validate().is_ok(), L(rings)]
}
/// Everything there is to say about a geometry.
fn ask<C: Num>(e: &Emb, g: &Geometry<C>) -> V {
    let (valid, parts) = match g {
        Geometry::Empty(x) => (x.validate().is_ok(), list![]),
        Geometry::Point(x) => (x.validate().is_ok(), list![]),
        Geometry::MultiPoint(x) => (x.validate().is_ok(), list![]),
        Geometry::LineString(x) => (x.validate().is_ok(), list![line_part(e, x)]),
        Geometry::Polygon(x) => (x.validate().is_ok(), list![poly_part(e, x)]),
        Geometry::MultiLineString(x) => {
            (x.validate().is_ok(), L(x.line_strings.iter().map(|l| line_part(e, l)).collect()))
        }
        Geometry::MultiPolygon(x) => (x.validate().is_ok(), L(x.polygons.iter().map(|p| poly_part(e, p)).collect())),
    };
    list![
        type_code(g.geometry_type()),
        g.dimension() as i64,
        g.is_empty(),
        env_v(e, g.envelope()),
        g.is_simple(),
        valid,
        boundary_v(e, g),
        boundary_v(e, &g.boundary()),
        parts,
        list![*g == fresh(g), fresh(g) == *g]
    ]
}
/// The geometry made from its coordinates again.
fn fresh<C: Num>(g: &Geometry<C>) -> Geometry<C> {
    fn line<C: Num>(l: &LineString<C>) -> LineString<C> {
        LineString::new(l.positions.clone())
    }
    fn poly<C: Num>(p: &Polygon<C>) -> Polygon<C> {
        Polygon::new(line(&p.exterior), p.interiors.iter().map(line).collect())
    }
    match g {
        Geometry::Empty(_) => Geometry::empty(),
        Geometry::Point(p) => Geometry::from(Point::new(p.0)),
        Geometry::MultiPoint(m) => Geometry::from(MultiPoint::new(m.points.iter().map(|p| Point::new(p.0)).collect())),
        Geometry::LineString(l) => Geometry::from(line(l)),
        Geometry::Polygon(p) => Geometry::from(poly(p)),
        Geometry::MultiLineString(m) => Geometry::from(MultiLineString::new(m.line_strings.iter().map(line).collect())),
        Geometry::MultiPolygon(m) => Geometry::from(MultiPolygon::new(m.polygons.iter().map(poly).collect())),
    }
}
/// The lines a geometry is made of.
fn line_parts<C: Num>(g: &Geometry<C>) -> Vec<&LineString<C>> {
    fn rings<C: Num>(p: &Polygon<C>) -> Vec<&LineString<C>> {
        std::iter::once(&p.exterior).chain(p.interiors.iter()).collect()
    }
    match g {
        Geometry::LineString(l) => vec![l],
        Geometry::MultiLineString(m) => m.line_strings.iter().collect(),
        Geometry::Polygon(p) => rings(p),
        Geometry::MultiPolygon(m) => m.polygons.iter().flat_map(|p| rings(p)).collect(),
        _ => vec![],
    }
}
/// A geometry of type k that consists of the one alone.
fn wrap<C: Num>(g: Geometry<C>, k: i64) -> Geometry<C> {
    match (g, k) {
        (Geometry::Point(p), 4) => Geometry::from(MultiPoint::new(vec![p])),
        (Geometry::LineString(l), 3) => Geometry::from(Polygon::from(l)),
        (Geometry::LineString(l), 5) => Geometry::from(MultiLineString::from(vec![l])),
        (Geometry::LineString(l), 6) => Geometry::from(MultiPolygon::from(vec![l])),
        (Geometry::Polygon(p), 6) => Geometry::from(MultiPolygon::from(vec![p])),
        _ => panic!("harness: wrap"),
    }
}
/// A geometry of type k that consists of the one and the other.
fn join<C: Num>(g: Geometry<C>, o: Geometry<C>, k: i64) -> Geometry<C> {
    fn more<T>(mut v: Vec<T>, x: T) -> Vec<T> {
        v.push(x);
        v
    }
    match (g, o, k) {
        (Geometry::Point(p), Geometry::Point(q), 4) => Geometry::from(MultiPoint::new(vec![p, q])),
        (Geometry::MultiPoint(m), Geometry::Point(q), 4) => Geometry::from(MultiPoint::new(more(m.points, q))),
        (Geometry::LineString(l), Geometry::LineString(q), 5) => Geometry::from(MultiLineString::new(vec![l, q])),
        (Geometry::MultiLineString(m), Geometry::LineString(q), 5) => {
            Geometry::from(MultiLineString::from(more(m.line_strings, q)))
        }
        (Geometry::LineString(l), Geometry::LineString(q), 3) => Geometry::from(Polygon::new(l, vec![q])),
        (Geometry::Polygon(p), Geometry::LineString(q), 3) => {
            Geometry::from(Polygon::new(p.exterior, more(p.interiors, q)))
        }
        (Geometry::Polygon(p), Geometry::Polygon(q), 6) => Geometry::from(MultiPolygon::new(vec![p, q])),
        (Geometry::MultiPolygon(m), Geometry::Polygon(q), 6) => {
            Geometry::from(MultiPolygon::new(more(m.polygons, q)))
        }
        _ => panic!("harness: join"),
    }
}
fn take<C: Num>(r: &mut Regs<C>, i: usize) -> Geometry<C> {
    std::mem::replace(&mut r.geoms[i], Geometry::empty())
}

// ---- operations ------------------------------------------------------------

fn valid<C: Num>(e: &Emb, t: i64, d: &V) -> bool {
    match t {
        0 => Empty::<C>::new().validate().is_ok(),
        1 => Point::<C>::new(pos(e, d)).validate().is_ok(),
        2 => line::<C>(e, d).validate().is_ok(),
        3 => poly::<C>(e, d).validate().is_ok(),
        4 => mpoint::<C>(e, d).validate().is_ok(),
        5 => mline::<C>(e, d).validate().is_ok(),
        6 => mpoly::<C>(e, d).validate().is_ok(),
        _ => panic!("harness: type {}", t),
    }
}

macro_rules! on_type {
    ($e:expr, $t:expr, $d:expr, $x:ident => $body:expr) => {
        match $t {
            0 => { let $x = Empty::<C>::new(); $body }
            1 => { let $x = Point::<C>::new(pos($e, $d)); $body }
            2 => { let $x = line::<C>($e, $d); $body }
            3 => { let $x = poly::<C>($e, $d); $body }
            4 => { let $x = mpoint::<C>($e, $d); $body }
            5 => { let $x = mline::<C>($e, $d); $body }
            6 => { let $x = mpoly::<C>($e, $d); $body }
            _ => panic!("harness: type {}", $t),
        }
    };
}

fn op<C: Num>(e: &Emb, r: &mut Regs<C>, name: &str, a: &V) -> V {
    let h = |n: usize| a.at(n).i() as usize;
    match name {
        // spatial index
        "build" => {
            r.trees[h(0)] = None;
            r.trees[h(0)] = Some(build(e, a.at(1).i(), a.at(2).i() == 1, h(3), a.at(4)));
            list![]
        }
        "build.odd" => {
            // a degree that is no power of two: is it refused?
            let (sorted, degree, items) = (a.at(0).i() == 1, h(1), a.at(2));
            let res = catch_unwind(AssertUnwindSafe(|| build::<C>(e, 0, sorted, degree, items)));
            list![res.is_err()]
        }
        "range" => {
            let t = r.trees[h(0)].as_ref().unwrap();
            V::from(t.find_intersection_candidates(env::<C>(e, a.at(1)))).sorted()
        }
        "within" => {
            let t = r.trees[h(0)].as_ref().unwrap();
            V::from(t.find_candidates_within(
                Position::new(e.x(a.at(1).i()), e.y(a.at(2).i())),
                e.d(a.at(3).i()),
            ))
            .sorted()
        }
        "self" => pairs(r.trees[h(0)].as_ref().unwrap().find_self_intersection_candidates()),
        "join" => pairs(
            r.trees[h(0)]
                .as_ref()
                .unwrap()
                .find_other_rtree_intersection_candidates(r.trees[h(1)].as_ref().unwrap()),
        ),
        "walk" => {
            let t = r.trees[h(0)].as_ref().unwrap();
            list![walk(e, t, t.root_node(), &mut 100_000), env_v(e, t.envelope())]
        }
        "order" => {
            let t = r.trees[h(0)].as_ref().unwrap();
            let mut out = Vec::new();
            leaves(t, t.root_node(), &mut out);
            V::from(out)
        }
        // envelopes
        "env.new" => {
            let p = |i| Position::new(e.x(a.at(i).i()), e.y(a.at(i + 1).i()));
            r.envs[h(0)] = Envelope::new(p(1), p(3));
            env_v(e, r.envs[h(0)])
        }
        "env.lit" => {
            // Any pair of corners, also in the wrong order.
            let p = |i| Position::new(e.x(a.at(i).i()), e.y(a.at(i + 1).i()));
            r.envs[h(0)] = if a.l().len() == 1 {
                Envelope::Empty
            } else {
                Envelope::Bounds { min: p(1), max: p(3) }
            };
            env_v(e, r.envs[h(0)])
        }
        "env.of" => {
            let it = a.at(2).l().iter();
            r.envs[h(0)] = match a.at(1).i() {
                0 => Envelope::of(it.map(|v| env(e, v)).collect::<Vec<_>>().iter()),
                1 => Envelope::of(it.map(|v| pos(e, v)).collect::<Vec<_>>().iter()),
                _ => Envelope::of(it.map(|v| seg(e, v)).collect::<Vec<_>>().iter()),
            };
            env_v(e, r.envs[h(0)])
        }
        "env.expand" => {
            let x = &mut r.envs[h(0)];
            match a.at(1).i() {
                0 => x.expand(env(e, a.at(2))),
                1 => x.expand(pos(e, a.at(2))),
                _ => x.expand(seg(e, a.at(2))),
            }
            env_v(e, r.envs[h(0)])
        }
        "env.merge" => {
            r.envs[h(2)] = r.envs[h(0)].merge(r.envs[h(1)]);
            env_v(e, r.envs[h(2)])
        }
        "env.add" => {
            // merge with a position or segment
            let x = r.envs[h(0)];
            r.envs[h(3)] = match a.at(1).i() {
                0 => x.merge(env(e, a.at(2))),
                1 => x.merge(pos(e, a.at(2))),
                _ => x.merge(seg(e, a.at(2))),
            };
            env_v(e, r.envs[h(3)])
        }
        "env.buffer" => {
            r.envs[h(2)] = r.envs[h(0)].buffer(e.d(a.at(1).i()));
            env_v(e, r.envs[h(2)])
        }
        "env.ask" => {
            let x = r.envs[h(0)];
            let opt = |p: Option<Position<C>>| p.map_or(list![], |p| pos_v(e, p));
            let center = x.center().map_or(list![], |p| list![e.dx2(p.x), e.dy2(p.y)]);
            list![
                x.is_empty(),
                opt(x.min()),
                opt(x.max()),
                center,
                x.validate().is_ok(),
                env_v(e, x.envelope())
            ]
        }
        "env.rel" => {
            let (x, y) = (r.envs[h(0)], r.envs[h(1)]);
            list![x.contains(y), y.contains(x), x.intersects(y), y.intersects(x)]
        }
        "env.has" => {
            let x = r.envs[h(0)];
            let p = pos::<C>(e, a.at(1));
            list![x.contains(p), x.intersects(p.envelope())]
        }
        // segments and triangles
        "seg.x" => {
            let (s, o) = (seg::<C>(e, a.at(0)), seg::<C>(e, a.at(1)));
            match s.intersect_segment(o) {
                SegmentIntersection::None => list![0],
                SegmentIntersection::Position(p) => {
                    let (x, y) = e.dxy(p.x, p.y);
                    if x != BAD && y != BAD {
                        list![1, x, y]
                    } else {
                        let (x, y) = e.fixed_xy(p.x, p.y, 256);
                        list![3, x, y]
                    }
                }
                SegmentIntersection::Segment(t) => {
                    let v = seg_v(e, t).ints();
                    if (v[0], v[1]) <= (v[2], v[3]) {
                        list![2, v[0], v[1], v[2], v[3]]
                    } else {
                        list![2, v[2], v[3], v[0], v[1]]
                    }
                }
            }
        }
        "seg.loc" => {
            let s = seg::<C>(e, a.at(0));
            let p = pos::<C>(e, a.at(1));
            let loc = match s.position_location(p) {
                PositionLocation::Left => 1,
                PositionLocation::On => 0,
                PositionLocation::Right => -1,
            };
            list![loc, s.contains(p)]
        }
        "seg.det" => {
            let d = |i: usize| -> Position<C> {
                let (x, y) = e.dir(a.at(i).i(), a.at(i + 1).i());
                Position::new(x, y)
            };
            list![e.darea(Segment::new(d(0), d(2)).determinant(), 1)]
        }
        "seg.info" => {
            let s = seg::<C>(e, a.at(0));
            list![
                env_v(e, s.envelope()),
                s.validate().is_ok(),
                e.dsq(s.length_squared(), 1),
                e.fixed(s.length(), 256)
            ]
        }
        "tri" => {
            let p = |i: usize| -> Position<C> { pos(e, a.at(i)) };
            let t = Triangle::new(p(0), p(1), p(2));
            let c = t.to_array();
            list![
                e.darea(t.signed_area(), 2),
                e.darea(t.area(), 2),
                list![pos_v(e, c[0]), pos_v(e, c[1]), pos_v(e, c[2])]
            ]
        }
        // geometries
        "g.valid" => list![valid::<C>(e, a.at(0).i(), a.at(1))],
        "rep" => {
            // another representation, embedded in another way
            let e2 = Emb::of(a.at(0));
            let (t, d, d2) = (a.at(1).i(), a.at(2), a.at(3));
            let other = match e2.single() {
                true => valid::<f32>(&e2, t, d2),
                _ => valid::<f64>(&e2, t, d2),
            };
            list![valid::<C>(e, t, d), other]
        }
        "g.simple" => {
            let (t, d) = (a.at(0).i(), a.at(1));
            let simple = on_type!(e, t, d, x => x.is_simple());
            let ring = t == 2 && line::<C>(e, d).is_ring();
            list![valid::<C>(e, t, d), simple, geometry::<C>(e, t, d).is_simple(), ring]
        }
        "g.bnd" => {
            let (t, d) = (a.at(0).i(), a.at(1));
            let direct = on_type!(e, t, d, x => x.boundary());
            let wrapped = geometry::<C>(e, t, d).boundary();
            list![boundary_v(e, &direct), boundary_v(e, &wrapped), wrapped.boundary().is_empty()]
        }
        "g.surf" => {
            let (t, d) = (a.at(0).i(), a.at(1));
            let p = if t == 3 { poly::<C>(e, d).point_on_surface() } else { mpoly::<C>(e, d).point_on_surface() };
            p.map_or(list![], |p| list![e.dx2(p.0.x), e.dy2(p.0.y)])
        }
        "conv" => conv::<C>(e, h(0) as i64, a.at(1), a.at(2)),
        "g.info" => {
            let (t, d) = (a.at(0).i(), a.at(1));
            let g = || geometry::<C>(e, t, d);
            let direct = on_type!(e, t, d, x =>
                list![type_code(x.geometry_type()), x.dimension() as i64, x.is_empty(), env_v(e, x.envelope())]);
            let w = g();
            let wrapped =
                list![type_code(w.geometry_type()), w.dimension() as i64, w.is_empty(), env_v(e, w.envelope())];
            let back = |o: Option<Geometry<C>>| o.map_or(list![], |x| geometry_v(e, &x));
            let conv = list![
                back(g().as_empty().map(Geometry::from)),
                back(g().as_point().map(Geometry::from)),
                back(g().as_linestring().map(Geometry::from)),
                back(g().as_polygon().map(Geometry::from)),
                back(g().as_multipoint().map(Geometry::from)),
                back(g().as_multilinestring().map(Geometry::from)),
                back(g().as_multipolygon().map(Geometry::from))
            ];
            list![direct, wrapped, conv]
        }
        "mp.simple" => {
            let m = mpoint::<C>(e, a.at(0));
            let s = m.make_simple();
            let xs: Vec<V> = m.points.iter().map(|p| list![e.dx(p.x()), e.dy(p.y())]).collect();
            list![m.validate().is_ok(), geometry_v(e, &s), s.is_simple(), m.num_points(), L(xs)]
        }
        "mp.has" => list![mpoint::<C>(e, a.at(0)).contains_point(&Point::new(pos(e, a.at(1))))],
        "hull" => {
            let p = Polygon::from(line::<C>(e, a.at(0)));
            let hull = p.convex_hull();
            let mut v: Vec<V> = hull.positions.iter().map(|p| pos_v(e, *p)).collect();
            let closed = v.len() >= 2 && v[0] == v[v.len() - 1];
            if closed {
                v.pop();
                let first = (0..v.len()).min_by_key(|&i| v[i].clone()).unwrap();
                v.rotate_left(first);
            }
            list![closed, L(v)]
        }
        "ls.views" => {
            let ps = a.at(1);
            let l: LineString<C> = match a.at(0).i() {
                0 => line(e, ps),
                1 => LineString::from(positions::<C>(e, ps)),
                2 => LineString::from(positions::<C>(e, ps).iter().map(|p| (p.x, p.y)).collect::<Vec<_>>()),
                3 => LineString::from(positions::<C>(e, ps).iter().map(|p| [p.x, p.y]).collect::<Vec<_>>()),
                _ => LineString::collect_from(positions::<C>(e, ps).into_iter()),
            };
            let opt = |p: Option<Point<C>>| p.map_or(list![], |p| pos_v(e, p.0));
            let n = ps.l().len();
            list![
                l.num_points(),
                line_v(e, &l),
                L((0..n + 2).map(|i| opt(l.get_point(i))).collect::<Vec<V>>()),
                list![opt(l.start_point()), opt(l.end_point())],
                L(l.segments_iter().map(|s| seg_v(e, s)).collect::<Vec<V>>()),
                L((0..n.max(1) - 1).map(|i| seg_v(e, l.get_segment(i))).collect::<Vec<V>>()),
                list![l.is_closed(), l.is_empty()],
                env_v(e, l.envelope())
            ]
        }
        "ls.index" => {
            let l = line::<C>(e, a.at(0));
            V::from(l.build_rtree().find_intersection_candidates(env::<C>(e, a.at(1)))).sorted()
        }
        "geo.new" => {
            let (t, d) = (a.at(2).i(), a.at(3));
            r.geoms[h(0)] = match a.at(1).i() {
                0 => geometry(e, t, d),
                how => match t {
                    3 => converted(e, how - 1, t, d.at(0)),
                    6 => converted(e, how - 1, t, &L(d.l().iter().map(|p| p.at(0).clone()).collect())),
                    _ => converted(e, how - 1, t, d),
                },
            };
            list![]
        }
        // a new geometry in the second register, from the one in the first
        "geo.bnd" => {
            r.geoms[h(1)] = r.geoms[h(0)].boundary();
            list![]
        }
        "geo.thin" => {
            if let Geometry::MultiPoint(m) = &r.geoms[h(0)] {
                r.geoms[h(1)] = m.make_simple();
            }
            list![]
        }
        "geo.hull" => {
            if let Geometry::Polygon(p) = &r.geoms[h(0)] {
                let hull = p.convex_hull();
                let v = line_v(e, &hull);
                r.geoms[h(1)] = Geometry::from(hull);
                v
            } else {
                panic!("harness: hull")
            }
        }
        "geo.surf" => {
            let p = match &r.geoms[h(0)] {
                Geometry::Polygon(p) => p.point_on_surface(),
                Geometry::MultiPolygon(m) => m.point_on_surface(),
                _ => panic!("harness: surf"),
            };
            p.map_or(list![], |p| list![e.dx2(p.0.x), e.dy2(p.0.y)])
        }
        "geo.part" => {
            let part = line_parts(&r.geoms[h(0)]).get(h(1)).map(|l| (*l).clone());
            r.geoms[h(2)] = part.map_or(Geometry::empty(), Geometry::from);
            list![]
        }
        "geo.wrap" => {
            let g = take(r, h(0));
            r.geoms[h(2)] = wrap(g, a.at(1).i());
            list![]
        }
        "geo.join" => {
            let (g, o) = (take(r, h(0)), take(r, h(1)));
            r.geoms[h(3)] = join(g, o, a.at(2).i());
            list![]
        }
        "geo.eq" => list![r.geoms[h(0)] == r.geoms[h(1)], r.geoms[h(1)] == r.geoms[h(0)]],
        "geo.ask" => ask(e, &r.geoms[h(0)]),
        "mls.closed" => list![mline::<C>(e, a.at(0)).is_closed()],
        "len.ls" => list![e.fixed(line::<C>(e, a.at(0)).length(), 256)],
        "len.mls" => list![e.fixed(mline::<C>(e, a.at(0)).length(), 256)],
        // positions
        "pos.bin" => {
            let d = |v: &V| Position::<C>::new(e.d(v.at(0).i()), e.d(v.at(1).i()));
            let dv = |p: Position<C>| list![e.dd(p.x), e.dd(p.y)];
            let (p, q, s) = (d(a.at(0)), d(a.at(1)), C::of(a.at(2).i() as f64));
            list![
                dv(p + q),
                dv(p - q),
                dv(p * s),
                dv(p * s / s),
                e.dsq(Position::dot(p, q), 1),
                e.dsq(Position::cross(p, q), 1)
            ]
        }
        "pos.mm" => {
            let (p, q) = (pos::<C>(e, a.at(0)), pos::<C>(e, a.at(1)));
            let (lo, hi) = Position::min_max(p, q);
            let (cl, ch) = p.x.min_max(q.x);
            list![
                pos_v(e, p.min(q)),
                pos_v(e, p.max(q)),
                pos_v(e, lo),
                pos_v(e, hi),
                list![e.dx(cl), e.dx(ch)],
                p == q,
                Segment::new(p, q).validate().is_ok(),
                order(p.partial_cmp(&q)),
                order(q.partial_cmp(&p)),
                match (p.to_hashable(), q.to_hashable()) {
                    (Ok(s), Ok(t)) => {
                        let both: std::collections::HashSet<_> = [s, t].into_iter().collect();
                        list![both.len() == 1]
                    }
                    _ => list![],
                },
                Segment::new(p, q) == Segment::new(q, p)
            ]
        }
        "pos.one" => {
            let p = pos::<C>(e, a.at(0));
            let safe = p.to_hashable();
            let back = match &safe {
                Ok(s) => pos_v(e, Position::from(*s)),
                Err(_) => list![],
            };
            list![
                p.validate().is_ok(),
                safe.is_ok(),
                back,
                pos_v(e, Position::from((p.x, p.y))),
                pos_v(e, Position::from([p.x, p.y])),
                env_v(e, p.envelope()),
                list![e.dx(Point::new(p).x()), e.dy(Point::new(p).y())],
                Point::new(p).validate().is_ok()
            ]
        }
        // text
        "wkt" => wkt(a.at(0).i(), a.at(1)),
        // arbitrary floats
        "tot" => list![total::<C>(if e.single() { 32 } else { 64 }, a.at(0).i(), a.at(1))],
        // linear
        "lin.new" => {
            r.lenvs[h(0)] = lp::Envelope::new(lpos(e, a.at(1)), lpos(e, a.at(2)));
            lenv_v(e, r.lenvs[h(0)])
        }
        "lin.lit" => {
            r.lenvs[h(0)] = if a.l().len() == 1 {
                lp::Envelope::Empty
            } else {
                lp::Envelope::Bounds { min: lpos(e, a.at(1)), max: lpos(e, a.at(2)) }
            };
            lenv_v(e, r.lenvs[h(0)])
        }
        "lin.tuple" => {
            r.lenvs[h(0)] = lp::Envelope::from((lpos::<C>(e, a.at(1)), lpos::<C>(e, a.at(2))));
            lenv_v(e, r.lenvs[h(0)])
        }
        "lin.of" => {
            let it = a.at(2).l().iter();
            r.lenvs[h(0)] = match a.at(1).i() {
                0 => lp::Envelope::of(it.map(|v| lenv(e, v)).collect::<Vec<_>>().iter()),
                _ => lp::Envelope::of(it.map(|v| lpos(e, v)).collect::<Vec<_>>().iter()),
            };
            lenv_v(e, r.lenvs[h(0)])
        }
        "lin.expand" => {
            let x = &mut r.lenvs[h(0)];
            match a.at(1).i() {
                0 => x.expand(lenv(e, a.at(2))),
                _ => x.expand(lpos(e, a.at(2))),
            }
            lenv_v(e, r.lenvs[h(0)])
        }
        "lin.merge" => {
            r.lenvs[h(2)] = r.lenvs[h(0)].merge(r.lenvs[h(1)]);
            lenv_v(e, r.lenvs[h(2)])
        }
        "lin.ask" => {
            let x = r.lenvs[h(0)];
            list![x.is_empty(), x.validate().is_ok(), lenv_v(e, lp::HasEnvelope::envelope(&x))]
        }
        "lin.rel" => {
            let (x, y) = (r.lenvs[h(0)], r.lenvs[h(1)]);
            list![x.contains(y), y.contains(x), x.intersects(y), y.intersects(x)]
        }
        "lin.has" => list![r.lenvs[h(0)].contains(lpos::<C>(e, a.at(1)))],
        "lin.pt" => {
            let p = if a.l().is_empty() {
                lt::Point::<C>::empty()
            } else {
                lt::Point::from(e.x::<C>(a.at(0).i()))
            };
            list![
                p.is_empty(),
                p.x().map_or(list![], |x| list![e.dx(x)]),
                lenv_v(e, lp::HasEnvelope::envelope(&p))
            ]
        }
        "lin.line" => {
            let l = if a.l().is_empty() {
                lt::Line::<C>::empty()
            } else {
                lt::Line::from((e.x::<C>(a.at(0).i()), e.x::<C>(a.at(1).i())))
            };
            let end = |p: Option<lt::Point<C>>| p.map_or(list![], |p| list![e.dx(p.0.x)]);
            list![l.is_empty(), end(l.start()), end(l.end()), lenv_v(e, lp::HasEnvelope::envelope(&l))]
        }
        "lin.mp" => {
            let n = a.at(0).l().len();
            let m = if n == 0 {
                lt::MultiPoint::<C>::empty()
            } else {
                lt::MultiPoint::from(a.at(0).l().iter().map(|v| e.x::<C>(v.i())).collect::<Vec<C>>())
            };
            let pt = |i| m.get_point(i).map_or(list![], |p| list![e.dx(p.0.x)]);
            list![
                m.num_points(),
                L((0..n + 2).map(pt).collect::<Vec<V>>()),
                lenv_v(e, lp::HasEnvelope::envelope(&m))
            ]
        }
        "lin.ml" => {
            let n = a.at(0).l().len();
            let m = if n == 0 {
                lt::MultiLine::<C>::empty()
            } else {
                lt::MultiLine::from(
                    a.at(0)
                        .l()
                        .iter()
                        .map(|v| (e.x::<C>(v.at(0).i()), e.x::<C>(v.at(1).i())))
                        .collect::<Vec<(C, C)>>(),
                )
            };
            let ln = |i| {
                m.get_line(i).map_or(list![], |l| {
                    let end = |p: Option<lt::Point<C>>| p.map_or(list![], |p| list![e.dx(p.0.x)]);
                    list![end(l.start()), end(l.end())]
                })
            };
            list![
                m.is_empty(),
                L((0..n + 2).map(ln).collect::<Vec<V>>()),
                lenv_v(e, lp::HasEnvelope::envelope(&m))
            ]
        }
        "lin.seg" => {
            let s = lp::Segment::<C>::from((e.x::<C>(a.at(0).i()), e.x::<C>(a.at(1).i())));
            list![
                e.dx(s.min().x),
                e.dx(s.max().x),
                s.validate().is_ok(),
                lenv_v(e, lp::HasEnvelope::envelope(&s)),
                list![e.dx(s.start.x), e.dx(s.end.x)]
            ]
        }
        "lin.bin" => {
            let d = |v: &V| lp::Position::<C>::new(e.d(v.i()));
            let (p, q, s) = (d(a.at(0)), d(a.at(1)), C::of(a.at(2).i() as f64));
            let f = |p: lp::Position<C>| e.dd(p.x);
            list![f(p + q), f(p - q), f(p * s), f(p * s / s)]
        }
        "lin.mm" => {
            let (p, q) = (lpos::<C>(e, a.at(0)), lpos::<C>(e, a.at(1)));
            let f = |p: lp::Position<C>| e.dx(p.x);
            let (lo, hi) = lp::Position::min_max(p, q);
            list![
                f(p.min(q)),
                f(p.max(q)),
                f(lo),
                f(hi),
                order(p.partial_cmp(&q)),
                order(q.partial_cmp(&p))
            ]
        }
        "lin.one" => {
            let p = lpos::<C>(e, a.at(0));
            let safe = p.to_hashable();
            let back = match &safe {
                Ok(s) => list![e.dx(lp::Position::from(*s).x)],
                Err(_) => list![],
            };
            list![
                p.validate().is_ok(),
                safe.is_ok(),
                back,
                e.dx(lp::Position::from(p.x).x),
                lenv_v(e, lp::HasEnvelope::envelope(&p))
            ]
        }
        _ => panic!("harness: operation {}", name),
    }
}

pub const HARNESS: i64 = 9;

thread_local!(static IN_LIBRARY: std::cell::Cell<bool> = std::cell::Cell::new(false));
pub fn in_library() -> bool {
    IN_LIBRARY.with(|x| x.get())
}

fn session<C: Num>(e: &Emb, events: &[V], done: &mut dyn FnMut(usize)) -> Vec<V> {
    let mut r = Regs::<C> {
        trees: vec![None, None],
        envs: vec![Envelope::empty(); 4],
        lenvs: vec![lp::Envelope::empty(); 4],
        geoms: (0..4).map(|_| Geometry::empty()).collect(),
    };
    let mut out = Vec::new();
    for (i, ev) in events.iter().enumerate() {
        let name = ev.at(0).s();
        let input = ev.at(1);
        done(i);
        IN_LIBRARY.with(|x| x.set(true));
        let res = catch_unwind(AssertUnwindSafe(|| op::<C>(e, &mut r, name, input)));
        IN_LIBRARY.with(|x| x.set(false));
        let (status, res) = match res {
            Ok(v) => (0, v),
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if msg.starts_with("harness:") {
                    (HARNESS, list![])
                } else {
                    (1, list![])
                }
            }
        };
        out.push(list![name, input.clone(), status as i64, res]);
        if status != 0 && name == "build" {
            break; // the rest of the session has no index to work on
        }
    }
    out
}

/// Run a session [emb, [[op, in, ..], ..]] and return it with the outcomes.
pub fn run(s: &V, done: &mut dyn FnMut(usize)) -> V {
    let e = Emb::of(s.at(0));
    let events = s.at(1).l();
    restart();
    let out = match e.single() {
        true => session::<f32>(&e, events, done),
        _ => session::<f64>(&e, events, done),
    };
    L(vec![s.at(0).clone(), L(out)])
}
