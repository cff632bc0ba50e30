//! The abstract documents that the real code is compared against.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Doc {
    Null,
    Undef,
    Bool(bool),
    Int(i128),
    F32(f32),
    F64(f64),
    Str(String),
    Data(Vec<u8>),
    Arr(Vec<Doc>),
    Dict(BTreeMap<String, Doc>),
}

use Doc::*;

fn short(s: &str) -> String {
    if s.len() <= 40 {
        format!("{s:?}")
    } else {
        let mut e = 20;
        while !s.is_char_boundary(e) {
            e += 1;
        }
        format!("{:?}…({} bytes, hash {:x})", &s[..e], s.len(), crate::rng::hash64(s.as_bytes()) & 0xffff)
    }
}

impl Doc {
    pub fn kind(&self) -> &'static str {
        match self {
            Null => "null",
            Undef => "undefined",
            Bool(_) => "bool",
            Int(_) => "int",
            F32(_) => "float",
            F64(_) => "double",
            Str(_) => "string",
            Data(_) => "data",
            Arr(_) => "array",
            Dict(_) => "dict",
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Arr(a) => format!("array[{}]", a.len()),
            Dict(d) => format!("dict{{{}}}", d.len()),
            Str(s) => format!("string {}", short(s)),
            Data(d) => format!("data[{}] {:02x?}", d.len(), &d[..d.len().min(12)]),
            other => format!("{other:?}"),
        }
    }
    /// First difference, with its path, or None when equal. NaNs are equal, -0.0 and 0.0 are not.
    pub fn diff(&self, got: &Doc) -> Option<String> {
        fn go(e: &Doc, g: &Doc, path: &mut String) -> Option<String> {
            let bad = |p: &str| Some(format!("at {}: expected {}, got {}", if p.is_empty() { "root" } else { p }, e.brief(), g.brief()));
            match (e, g) {
                (Null, Null) | (Undef, Undef) => None,
                (Bool(a), Bool(b)) if a == b => None,
                (Int(a), Int(b)) if a == b => None,
                (F32(a), F32(b)) if a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) => None,
                (F64(a), F64(b)) if a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) => None,
                (Str(a), Str(b)) if a == b => None,
                (Data(a), Data(b)) if a == b => None,
                (Arr(a), Arr(b)) => {
                    if a.len() != b.len() {
                        return bad(path);
                    }
                    for (i, (x, y)) in a.iter().zip(b).enumerate() {
                        let l = path.len();
                        path.push_str(&format!("[{i}]"));
                        let r = go(x, y, path);
                        if r.is_some() {
                            return r;
                        }
                        path.truncate(l);
                    }
                    None
                }
                (Dict(a), Dict(b)) => {
                    for k in a.keys() {
                        if !b.contains_key(k) {
                            return Some(format!("at {path}: key {} is missing ({} of {} keys present)", short(k), b.len(), a.len()));
                        }
                    }
                    for k in b.keys() {
                        if !a.contains_key(k) {
                            return Some(format!("at {path}: unexpected key {}", short(k)));
                        }
                    }
                    for (k, x) in a {
                        let l = path.len();
                        path.push_str(&format!("[{}]", short(k)));
                        let r = go(x, &b[k], path);
                        if r.is_some() {
                            return r;
                        }
                        path.truncate(l);
                    }
                    None
                }
                _ => bad(path),
            }
        }
        go(self, got, &mut String::new())
    }
    pub fn nodes(&self) -> usize {
        match self {
            Arr(a) => 1 + a.iter().map(Doc::nodes).sum::<usize>(),
            Dict(d) => 1 + d.values().map(Doc::nodes).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Arr(a) => 1 + a.iter().map(Doc::depth).max().unwrap_or(0),
            Dict(d) => 1 + d.values().map(Doc::depth).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn is_collection(&self) -> bool {
        matches!(self, Arr(_) | Dict(_))
    }
    pub fn fp(&self) -> u64 {
        fn go(d: &Doc, h: &mut u64) {
            let mut mix = |x: u64| *h = (*h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
            match d {
                Null => mix(1),
                Undef => mix(2),
                Bool(b) => mix(3 + u64::from(*b)),
                Int(i) => mix(*i as u64 ^ 0x5555),
                F32(f) => mix(u64::from(f.to_bits()) << 7),
                F64(f) => mix(f.to_bits() ^ 0x77),
                Str(s) => mix(crate::rng::hash64(s.as_bytes())),
                Data(s) => mix(crate::rng::hash64(s) ^ 0xAAAA),
                Arr(a) => {
                    mix(0xA0 + a.len() as u64 * 31);
                    for x in a {
                        go(x, h);
                    }
                }
                Dict(m) => {
                    mix(0xD0 + m.len() as u64 * 37);
                    for (k, x) in m {
                        *h ^= crate::rng::hash64(k.as_bytes());
                        go(x, h);
                    }
                }
            }
        }
        let mut h = 77;
        go(self, &mut h);
        h
    }
}
