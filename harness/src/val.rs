//! The wire format of events: nested lists of integers, written as JSON for
//! TLC's Json module, or as TLA+ tuples by TLC's CSVWrite.
use std::fmt::Write;

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum V {
    I(i64),
    L(Vec<V>),
    /// Only names of operations.
    S(String),
}

pub use V::{I, L, S};

impl V {
    pub fn i(&self) -> i64 {
        match self {
            I(x) => *x,
            _ => panic!("harness: expected an integer, got {}", self),
        }
    }
    pub fn l(&self) -> &[V] {
        match self {
            L(x) => x,
            _ => panic!("harness: expected a list, got {}", self),
        }
    }
    pub fn at(&self, n: usize) -> &V {
        &self.l()[n]
    }
    pub fn ints(&self) -> Vec<i64> {
        self.l().iter().map(|v| v.i()).collect()
    }
    pub fn sorted(self) -> V {
        match self {
            L(mut x) => {
                x.sort();
                L(x)
            }
            _ => self,
        }
    }
    pub fn s(&self) -> &str {
        match self {
            S(x) => x,
            _ => panic!("harness: expected a name, got {}", self),
        }
    }
}

impl From<&str> for V {
    fn from(x: &str) -> V {
        S(x.to_string())
    }
}
impl From<i64> for V {
    fn from(x: i64) -> V {
        I(x)
    }
}
impl From<i32> for V {
    fn from(x: i32) -> V {
        I(x as i64)
    }
}
impl From<usize> for V {
    fn from(x: usize) -> V {
        I(x as i64)
    }
}
impl From<bool> for V {
    fn from(x: bool) -> V {
        I(x as i64)
    }
}
impl<T: Into<V>> From<Vec<T>> for V {
    fn from(x: Vec<T>) -> V {
        L(x.into_iter().map(|y| y.into()).collect())
    }
}

#[macro_export]
macro_rules! list {
    ($($x:expr),* $(,)?) => { $crate::val::V::L(vec![$($crate::val::V::from($x)),*]) };
}

impl std::fmt::Display for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut s = String::new();
        put(self, &mut s);
        f.write_str(&s)
    }
}

fn put(v: &V, s: &mut String) {
    match v {
        I(x) => write!(s, "{}", x).unwrap(),
        S(x) => write!(s, "\"{}\"", x).unwrap(),
        L(x) => {
            s.push('[');
            for (i, y) in x.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                put(y, s);
            }
            s.push(']');
        }
    }
}

/// Parse a JSON list or TLA+ tuple of integers and lists.
pub fn parse(s: &str) -> V {
    let b = s.as_bytes();
    let mut i = 0;
    let v = parse_at(b, &mut i).unwrap_or_else(|| panic!("harness: cannot parse {}", s));
    v
}

fn skip(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] == b' ' || b[*i] == b',' || b[*i] == b'\n') {
        *i += 1;
    }
}

fn parse_at(b: &[u8], i: &mut usize) -> Option<V> {
    skip(b, i);
    if *i >= b.len() {
        return None;
    }
    let open = match b[*i] {
        b'[' => 1,
        b'<' => 2,
        _ => 0,
    };
    if open > 0 {
        *i += open;
        let mut items = Vec::new();
        loop {
            skip(b, i);
            if *i >= b.len() {
                return None;
            }
            if b[*i] == b']' || b[*i] == b'>' {
                *i += open;
                return Some(L(items));
            }
            items.push(parse_at(b, i)?);
        }
    }
    if b[*i] == b'"' {
        let end = *i + 1 + b[*i + 1..].iter().position(|&c| c == b'"')?;
        let name = std::str::from_utf8(&b[*i + 1..end]).ok()?.to_string();
        *i = end + 1;
        return Some(S(name));
    }
    let start = *i;
    if b[*i] == b'-' {
        *i += 1;
    }
    while *i < b.len() && b[*i].is_ascii_digit() {
        *i += 1;
    }
    std::str::from_utf8(&b[start..*i]).ok()?.parse().ok().map(I)
}
