//! S-expressions: the one data format of plans, requests, logs and replay files.
use std::fmt;
#[derive(Clone, PartialEq, Debug)]
pub enum X {
    I(i64),
    F(f64),
    S(String),
    L(Vec<X>),
}
use X::*;
impl fmt::Display for X {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            I(i) => write!(f, "{}", i),
            F(v) => write!(f, "f{:016x}", v.to_bits()),
            S(s) => write!(f, "{}", s),
            L(v) => {
                f.write_str("(")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(" ")?;
                    }
                    x.fmt(f)?;
                }
                f.write_str(")")
            }
        }
    }
}
impl X {
    pub fn parse(s: &str) -> X {
        let b = s.as_bytes();
        let mut p = 0;
        let r = go(b, &mut p);
        r
    }
    pub fn l(&self) -> &[X] {
        match self {
            L(v) => v,
            _ => panic!("sim: list expected, got {}", self),
        }
    }
    pub fn lm(&mut self) -> &mut Vec<X> {
        match self {
            L(v) => v,
            _ => panic!("sim: list expected"),
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            I(i) => *i,
            F(f) => *f as i64,
            _ => panic!("sim: int expected, got {}", self),
        }
    }
    pub fn f(&self) -> f64 {
        match self {
            I(i) => *i as f64,
            F(f) => *f,
            _ => panic!("sim: number expected, got {}", self),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            S(s) => s,
            _ => panic!("sim: symbol expected, got {}", self),
        }
    }
    pub fn head(&self) -> &str {
        match self {
            L(v) if !v.is_empty() => match &v[0] {
                S(s) => s,
                _ => "",
            },
            _ => "",
        }
    }
    pub fn at(&self, i: usize) -> &X {
        &self.l()[i]
    }
    pub fn tail(&self) -> &[X] {
        &self.l()[1..]
    }
    pub fn ints(v: &[i64]) -> X {
        L(v.iter().map(|i| I(*i)).collect())
    }
    pub fn readable(&self) -> String {
        match self {
            F(v) => format!("{:?}", v),
            L(v) => format!("({})", v.iter().map(|x| x.readable()).collect::<Vec<_>>().join(" ")),
            _ => self.to_string(),
        }
    }
}
fn go(b: &[u8], p: &mut usize) -> X {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
    if *p < b.len() && b[*p] == b'(' {
        *p += 1;
        let mut v = vec![];
        loop {
            while *p < b.len() && b[*p].is_ascii_whitespace() {
                *p += 1;
            }
            if *p >= b.len() {
                break;
            }
            if b[*p] == b')' {
                *p += 1;
                break;
            }
            v.push(go(b, p));
        }
        return L(v);
    }
    let st = *p;
    while *p < b.len() && !b[*p].is_ascii_whitespace() && b[*p] != b'(' && b[*p] != b')' {
        *p += 1;
    }
    let t = std::str::from_utf8(&b[st..*p]).unwrap();
    if let Ok(i) = t.parse::<i64>() {
        return I(i);
    }
    if t.len() == 17 && t.starts_with('f') {
        if let Ok(v) = u64::from_str_radix(&t[1..], 16) {
            return F(f64::from_bits(v));
        }
    }
    S(t.to_string())
}
pub trait ToX {
    fn x(self) -> X;
}
impl ToX for i64 { fn x(self) -> X { I(self) } }
impl ToX for i32 { fn x(self) -> X { I(self as i64) } }
impl ToX for u32 { fn x(self) -> X { I(self as i64) } }
impl ToX for u64 { fn x(self) -> X { I(self as i64) } }
impl ToX for usize { fn x(self) -> X { I(self as i64) } }
impl ToX for bool { fn x(self) -> X { I(self as i64) } }
impl ToX for f64 { fn x(self) -> X { F(self) } }
impl ToX for &str { fn x(self) -> X { S(self.to_string()) } }
impl ToX for String { fn x(self) -> X { S(self) } }
impl ToX for X { fn x(self) -> X { self } }
impl ToX for &X { fn x(self) -> X { self.clone() } }
impl ToX for Vec<X> { fn x(self) -> X { L(self) } }
#[macro_export]
macro_rules! x { ($($e:expr),* $(,)?) => { $crate::x::X::L(vec![$($crate::x::ToX::x($e)),*]) } }
