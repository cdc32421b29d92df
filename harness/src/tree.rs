//! The value domain in which the library's result and the model's prediction
//! are compared.
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum T {
    Null,
    B(bool),
    I(i64),
    /// bit pattern of an f32
    F(u32),
    S(String),
    Y(Vec<u8>),
    L(Vec<T>),
    N(&'static str, Vec<(&'static str, T)>),
}
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        use T::*;
        match (self, o) {
            (Null, Null) => true,
            (B(a), B(b)) => a == b,
            (I(a), I(b)) => a == b,
            // the payload of a NaN is not promised
            (F(a), F(b)) => a == b || (f32::from_bits(*a).is_nan() && f32::from_bits(*b).is_nan()),
            (S(a), S(b)) => a == b,
            (Y(a), Y(b)) => a == b,
            (L(a), L(b)) => a == b,
            (N(a, x), N(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}
impl T {
    pub fn s(v: &str) -> T {
        T::S(v.to_string())
    }
    pub fn f(v: f32) -> T {
        T::F(v.to_bits())
    }
    pub fn get(&self, k: &str) -> &T {
        match self {
            T::N(_, v) => v.iter().find(|(n, _)| *n == k).map(|(_, t)| t).unwrap_or(&T::Null),
            _ => &T::Null,
        }
    }
    pub fn at(&self, i: usize) -> &T {
        match self {
            T::L(v) => v.get(i).unwrap_or(&T::Null),
            _ => &T::Null,
        }
    }
}
pub fn so(v: Option<&str>) -> T {
    v.map(T::s).unwrap_or(T::Null)
}
pub fn fo(v: Option<f32>) -> T {
    v.map(T::f).unwrap_or(T::Null)
}
pub fn io<I: Into<i64>>(v: Option<I>) -> T {
    v.map(|x| T::I(x.into())).unwrap_or(T::Null)
}
pub fn lst<X>(v: &[X], f: impl Fn(&X) -> T) -> T {
    T::L(v.iter().map(f).collect())
}
pub fn dbg<D: std::fmt::Debug>(d: &D) -> T {
    T::S(format!("{d:?}"))
}
pub fn dbo<D: std::fmt::Debug>(d: &Option<D>) -> T {
    d.as_ref().map(dbg).unwrap_or(T::Null)
}

fn short(t: &T) -> String {
    let mut s = String::new();
    match t {
        T::N(n, _) => write!(s, "{n}{{..}}").unwrap(),
        T::L(v) => write!(s, "list of {}", v.len()).unwrap(),
        T::Y(v) if v.len() > 40 => write!(s, "{} bytes", v.len()).unwrap(),
        T::F(b) => write!(s, "{} (0x{b:08x})", f32::from_bits(*b)).unwrap(),
        t => write!(s, "{t:?}").unwrap(),
    }
    if s.len() > 160 {
        s = s.chars().take(160).collect();
    }
    s
}

/// First difference: (stable path without indices, description)
pub fn diff(exp: &T, got: &T) -> Option<(String, String)> {
    fn go(e: &T, g: &T, path: &str, full: &str) -> Option<(String, String)> {
        match (e, g) {
            (T::N(a, x), T::N(b, y)) if a == b && x.len() == y.len() => {
                for ((ka, va), (kb, vb)) in x.iter().zip(y) {
                    assert_eq!(ka, kb, "observation schema mismatch in {a}");
                    if va != vb {
                        return go(va, vb, &format!("{a}.{ka}"), &format!("{full}/{a}.{ka}"));
                    }
                }
                None
            }
            (T::L(a), T::L(b)) => {
                if a.len() != b.len() {
                    return Some((format!("{path}#len"), format!("{full}: expected {} entries, got {}", a.len(), b.len())));
                }
                for (i, (va, vb)) in a.iter().zip(b).enumerate() {
                    if va != vb {
                        return go(va, vb, path, &format!("{full}[{i}]"));
                    }
                }
                None
            }
            (a, b) if a == b => None,
            (a, b) => Some((path.to_string(), format!("{full}: expected {}, got {}", short(a), short(b)))),
        }
    }
    if exp == got { None } else { go(exp, got, "", "") }
}

pub fn hash(t: &T, h: u64) -> u64 {
    use crate::explore::fnv;
    match t {
        T::Null => fnv(h.wrapping_add(1), b"0"),
        T::B(b) => fnv(h.wrapping_add(2), &[*b as u8]),
        T::I(i) => fnv(h.wrapping_add(3), &i.to_le_bytes()),
        T::F(i) => fnv(h.wrapping_add(4), &i.to_le_bytes()),
        T::S(s) => fnv(h.wrapping_add(5), s.as_bytes()),
        T::Y(s) => fnv(h.wrapping_add(6), s),
        T::L(v) => v.iter().fold(fnv(h.wrapping_add(7), &v.len().to_le_bytes()), |h, t| hash(t, h)),
        T::N(n, v) => v.iter().fold(fnv(h.wrapping_add(8), n.as_bytes()), |h, (_, t)| hash(t, h)),
    }
}
