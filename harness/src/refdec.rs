//! An independent decoder of the wire format, in two strengths.
//!
//! * `strict`: what the encoder is allowed to produce. Decodes to the abstract document, or says which
//!   rule of the format is broken.
//! * `walk`: what a reader does with any bytes that were accepted. Visits every value that can be
//!   reached and reports a read outside of the data.
use crate::doc::Doc;
use crate::ensure;
use crate::st::{self, R};
use std::collections::BTreeMap;

pub fn varint(b: &[u8]) -> Option<(usize, u64)> {
    let mut v: u64 = 0;
    for (i, x) in b.iter().enumerate().take(10) {
        let bits = u64::from(x & 0x7F);
        if i == 9 && bits > 1 {
            return None;
        }
        v |= bits << (7 * i);
        if x & 0x80 == 0 {
            return Some((i + 1, v));
        }
    }
    None
}

pub fn varint_len(mut v: u64) -> usize {
    let mut n = 1;
    while v >= 0x80 {
        v >>= 7;
        n += 1;
    }
    n
}

pub struct Strict<'a> {
    b: &'a [u8],
    keys: Option<&'a [String]>,
    /// (start, end) of everything that was reached, without padding
    regions: Vec<(usize, usize)>,
    pub shared_keys_used: usize,
}

/// Decode what the encoder produced, following the rules of the format to the letter.
/// `keys` is the shared key table, by index.
pub fn strict(b: &[u8], keys: Option<&[String]>) -> R<(Doc, usize)> {
    let mut s = Strict { b, keys, regions: vec![], shared_keys_used: 0 };
    let n = b.len();
    ensure!(n >= 2 && n % 2 == 0, "the encoded data has a size of {n}");
    let t = n - 2;
    ensure!(b[t] & 0x80 != 0, "the trailer is not a pointer: {:02x?}", &b[t..]);
    s.regions.push((t, n));
    let mut at = s.pointer(t, false)?;
    let mut end = t;
    if b[at] & 0x80 != 0 {
        ensure!(at + 4 == t, "the trailer points to a pointer which is not just before it");
        st::hit("ref_far_roots");
        s.regions.push((at, at + 4));
        end = at;
        at = s.pointer(at, true)?;
        ensure!(b[at] & 0x80 == 0, "the root is a pointer to a pointer to a pointer");
    }
    let d = s.value(at, end)?;
    ensure!(d.is_collection(), "the root is a {}", d.kind());
    // Everything in the output is reachable, but for single padding bytes, which are zero.
    s.regions.sort_unstable();
    let mut pos = 0;
    for (a, e) in &s.regions {
        ensure!(*a >= pos, "two values overlap at {a}");
        ensure!(a - pos <= 1, "{} bytes at {pos} do not belong to any value", a - pos);
        ensure!(b[pos..*a].iter().all(|x| *x == 0), "the padding at {pos} is not zero");
        pos = *e;
    }
    st::add("ref_regions_checked", s.regions.len() as u64);
    st::hit("ref_documents_decoded");
    Ok((d, s.shared_keys_used))
}

impl Strict<'_> {
    fn pointer(&self, at: usize, wide: bool) -> R<usize> {
        let b = self.b;
        ensure!(b[at] & 0x40 == 0, "the pointer at {at} is marked external");
        let off = if wide { st::hit("ref_wide_pointers"); ((usize::from(b[at] & 0x3F) << 24) | (usize::from(b[at + 1]) << 16) | (usize::from(b[at + 2]) << 8) | usize::from(b[at + 3])) * 2 } else { st::hit("ref_narrow_pointers"); ((usize::from(b[at] & 0x3F) << 8) | usize::from(b[at + 1])) * 2 };
        ensure!(off != 0, "the pointer at {at} has an offset of 0");
        ensure!(off <= at, "the pointer at {at} has an offset of {off}, which is before the data");
        Ok(at - off)
    }

    /// Decode the value at `at`, which must be complete before `end`.
    fn value(&mut self, at: usize, end: usize) -> R<Doc> {
        ensure!(at % 2 == 0, "the value at {at} is not aligned");
        ensure!(at + 2 <= end, "the value at {at} does not end before {end}");
        let (h, l) = (self.b[at], self.b[at] & 0x0F);
        let mut size = 2;
        let d = match h >> 4 {
            0 => {
                let v = (i128::from(l) << 8) | i128::from(self.b[at + 1]);
                Doc::Int(if v & 0x800 != 0 { v - 0x1000 } else { v })
            }
            1 => {
                let n = usize::from(l & 7) + 1;
                size = 1 + n;
                ensure!(at + size <= end, "the integer at {at} does not end before {end}");
                let mut v: u128 = 0;
                for i in 0..n {
                    v |= u128::from(self.b[at + 1 + i]) << (8 * i);
                }
                st::hit("ref_long_ints");
                Doc::Int(if l & 8 != 0 { v as i128 } else {
                    let sh = 128 - 8 * n as u32;
                    ((v << sh) as i128) >> sh
                })
            }
            2 => {
                ensure!(l & 3 == 0, "the float at {at} has the header {h:02x}");
                ensure!(self.b[at + 1] == 0, "the float at {at} is not padded with 0");
                if l & 8 != 0 {
                    size = 10;
                    ensure!(at + size <= end, "the double at {at} does not end before {end}");
                    Doc::F64(f64::from_le_bytes(self.b[at + 2..at + 10].try_into().unwrap()))
                } else {
                    size = 6;
                    ensure!(at + size <= end, "the float at {at} does not end before {end}");
                    let f = f32::from_le_bytes(self.b[at + 2..at + 6].try_into().unwrap());
                    if l & 4 != 0 { Doc::F64(f64::from(f)) } else { Doc::F32(f) }
                }
            }
            3 => {
                ensure!(self.b[at + 1] == 0, "the constant at {at} is not padded with 0");
                match l {
                    0x0 => Doc::Null,
                    0x4 => Doc::Bool(false),
                    0x8 => Doc::Bool(true),
                    0xC => Doc::Undef,
                    _ => return Err(format!("the special value at {at} is {h:02x}")),
                }
            }
            k @ (4 | 5) => {
                let (start, len) = if l == 0xF {
                    let Some((n, len)) = varint(&self.b[at + 1..end]) else { return Err(format!("the size of the string at {at} is not a varint")) };
                    ensure!(len >= 15 && n == varint_len(len), "the size of the string at {at} is {len} in a varint of {n} bytes");
                    (at + 1 + n, usize::try_from(len).map_err(|e| e.to_string())?)
                } else {
                    (at + 1, usize::from(l))
                };
                ensure!(len <= end - start.min(end), "the string at {at} of {len} bytes does not end before {end}");
                if len == 0 {
                    ensure!(self.b[at + 1] == 0, "the empty string at {at} is not padded with 0");
                }
                size = (start - at + len).max(2);
                let b = &self.b[start..start + len];
                if k == 4 { Doc::Str(std::str::from_utf8(b).map_err(|e| format!("the string at {at} is not UTF-8: {e}"))?.to_string()) } else { Doc::Data(b.to_vec()) }
            }
            6 | 7 => return self.collection(at, end),
            _ => return Err(format!("a pointer at {at} where a value is expected")),
        };
        ensure!(at + size <= end, "the value at {at} does not end before {end}");
        self.regions.push((at, at + size));
        Ok(d)
    }

    fn collection(&mut self, at: usize, end: usize) -> R<Doc> {
        let h = self.b[at];
        let is_dict = h >> 4 == 7;
        let wide = h & 8 != 0;
        let w = if wide { 4 } else { 2 };
        let mut n = (usize::from(h & 7) << 8) | usize::from(self.b[at + 1]);
        let mut hdr = 2;
        if n == 0x7FF {
            let Some((m, c)) = varint(&self.b[at + 2..end]) else { return Err(format!("the count of the collection at {at} is not a varint")) };
            ensure!(c >= 0x7FF && m == varint_len(c), "the count of the collection at {at} is {c} in a varint of {m} bytes");
            n = usize::try_from(c).map_err(|e| e.to_string())?;
            hdr += m;
            st::hit("ref_long_counts");
            if m % 2 == 1 {
                ensure!(self.b[at + hdr] == 0, "the count of the collection at {at} is not padded with 0");
                hdr += 1;
            }
        }
        if wide {
            st::hit("ref_wide_collections");
        }
        let cells = if is_dict { n.checked_mul(2) } else { Some(n) };
        let body = cells.and_then(|c| c.checked_mul(w));
        let Some(body) = body.filter(|x| *x <= end.saturating_sub(at + hdr)) else { return Err(format!("the collection at {at} of {n} does not end before {end}")) };
        self.regions.push((at, at + hdr + body));
        let cell = |s: &mut Self, i: usize| -> R<(usize, Option<Doc>)> {
            let p = at + hdr + i * w;
            if s.b[p] & 0x80 != 0 {
                let t = s.pointer(p, wide)?;
                ensure!(s.b[t] & 0x80 == 0, "the element at {p} is a pointer to a pointer");
                // the target must be before the collection, and complete there
                ensure!(t < at, "the element at {p} points into its own collection");
                let d = s.value(t, at)?;
                return Ok((p, Some(d)));
            }
            let l = s.regions.len();
            let d = s.value(p, p + w)?;
            ensure!(!d.is_collection(), "a collection inside of the element at {p}");
            s.regions.truncate(l);
            if wide {
                ensure!(s.b[p + 2] == 0 && s.b[p + 3] == 0, "the wide element at {p} is not padded with 0");
            }
            Ok((p, Some(d)))
        };
        if !is_dict {
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                if let (_, Some(d)) = cell(self, i)? {
                    v.push(d);
                }
            }
            return Ok(Doc::Arr(v));
        }
        let mut m = BTreeMap::new();
        let mut last: Option<(bool, i128, String)> = None;
        for i in 0..n {
            let p = at + hdr + 2 * i * w;
            let inline = self.b[p] & 0x80 == 0;
            let (p, k) = cell(self, 2 * i)?;
            let (ord, name) = match k {
                Some(Doc::Int(k)) => {
                    ensure!(inline, "the integer key at {p} is not inline");
                    let Some(keys) = self.keys else { return Err(format!("an integer key at {p} without shared keys")) };
                    let Some(name) = usize::try_from(k).ok().and_then(|k| keys.get(k)) else { return Err(format!("the shared key {k} at {p} is not in the table of {}", keys.len())) };
                    self.shared_keys_used += 1;
                    st::hit("ref_shared_keys");
                    ((false, k, String::new()), name.clone())
                }
                Some(Doc::Str(s)) => {
                    if let Some(keys) = self.keys {
                        ensure!(!keys.contains(&s), "the key {s:?} at {p} is in the shared keys, but written as a string");
                    }
                    st::hit(if inline { "ref_inline_keys" } else { "ref_pointer_keys" });
                    ((true, 0, s.clone()), s)
                }
                Some(d) => return Err(format!("the key at {p} is a {}", d.kind())),
                None => return Err("no key".into()),
            };
            if let Some(l) = &last {
                ensure!(*l < ord, "the keys of the dict at {at} are not sorted: {l:?} before {ord:?}");
            }
            last = Some(ord);
            let (_, v) = cell(self, 2 * i + 1)?;
            if let Some(v) = v {
                ensure!(m.insert(name.clone(), v).is_none(), "the key {name:?} is twice in the dict at {at}");
            }
        }
        Ok(Doc::Dict(m))
    }
}

/// What can be read from any accepted bytes.
#[derive(Debug, Clone)]
pub enum Raw {
    /// value type tag byte and the bytes of the scalar
    Scalar(usize),
    Arr(Vec<Raw>),
    /// alternating keys and values
    Dict(Vec<Raw>),
}

pub enum WalkErr {
    /// A read outside of the data, at this position.
    Outside(String),
    /// Too many values to visit (shared sub-values).
    TooBig,
}

pub struct Walk<'a> {
    b: &'a [u8],
    pub visits: usize,
    pub max_depth: usize,
    budget: usize,
}

impl<'a> Walk<'a> {
    pub fn new(b: &'a [u8], budget: usize) -> Self {
        Walk { b, visits: 0, max_depth: 0, budget }
    }

    /// `bytes` must be at least 2 and of even length.
    pub fn root(&mut self) -> Result<Raw, WalkErr> {
        let t = self.b.len() - 2;
        let (at, end) = self.follow(t, false, self.b.len())?;
        self.value(at, end, 0)
    }

    /// Follow pointers from the cell at `p` whose data ends at `end`.
    fn follow(&mut self, mut p: usize, mut wide: bool, mut end: usize) -> Result<(usize, usize), WalkErr> {
        loop {
            let b = self.b;
            if p + 2 > b.len() {
                return Err(WalkErr::Outside(format!("a value at {p}")));
            }
            if b[p] & 0x80 == 0 {
                return Ok((p, end));
            }
            self.visits += 1;
            if wide && p + 4 > end {
                return Err(WalkErr::Outside(format!("a wide pointer at {p} which ends after {end}")));
            }
            let off = if wide { (u32::from_be_bytes([b[p] & 0x3F, b[p + 1], b[p + 2], b[p + 3]])) as usize * 2 } else { usize::from(u16::from_be_bytes([b[p] & 0x3F, b[p + 1]])) * 2 };
            if b[p] & 0x40 != 0 {
                return Err(WalkErr::Outside(format!("an external pointer at {p}")));
            }
            if off == 0 || off > p {
                return Err(WalkErr::Outside(format!("a pointer at {p} with an offset of {off}")));
            }
            end = p;
            p -= off;
            wide = true;
        }
    }

    fn value(&mut self, at: usize, end: usize, depth: usize) -> Result<Raw, WalkErr> {
        self.visits += 1;
        self.max_depth = self.max_depth.max(depth);
        if self.visits > self.budget || depth > 3000 {
            return Err(WalkErr::TooBig);
        }
        let b = self.b;
        let out = |what: &str| Err(WalkErr::Outside(format!("{what} at {at}, of which only {} bytes are there", b.len() - at)));
        let l = b[at] & 0x0F;
        let size = match b[at] >> 4 {
            0 | 3 => 2,
            1 => 2 + usize::from(l & 7),
            2 => if l & 8 != 0 { 10 } else { 6 },
            4 | 5 => {
                if l == 0xF {
                    match varint(&b[at + 1..end.min(b.len())]) {
                        Some((n, len)) => usize::try_from(len).ok().and_then(|x| x.checked_add(1 + n)).unwrap_or(usize::MAX),
                        None => 2,
                    }
                } else {
                    (1 + usize::from(l)).max(2)
                }
            }
            6 | 7 => {
                let w = if b[at] & 8 != 0 { 4 } else { 2 };
                let mut n = (u64::from(l & 7) << 8) | u64::from(b[at + 1]);
                let mut hdr = 2;
                if n == 0x7FF {
                    match varint(&b[at + 2..end.min(b.len())]) {
                        Some((m, c)) => {
                            n = c;
                            hdr += m + m % 2;
                        }
                        None => n = 0,
                    }
                }
                let is_dict = b[at] >> 4 == 7;
                let cells = if is_dict { n.checked_mul(2) } else { Some(n) };
                let fits = cells.and_then(|c| usize::try_from(c).ok()).and_then(|c| c.checked_mul(w)).and_then(|c| c.checked_add(at + hdr)).is_some_and(|e| e <= b.len());
                if !fits {
                    return out("a collection");
                }
                let n = cells.unwrap_or(0) as usize;
                let mut v = Vec::new();
                for i in 0..n {
                    let p = at + hdr + i * w;
                    let (t, e) = self.follow(p, w == 4, p + w)?;
                    v.push(self.value(t, e, depth + 1)?);
                }
                return Ok(if is_dict { Raw::Dict(v) } else { Raw::Arr(v) });
            }
            _ => return out("a pointer"),
        };
        if size > b.len() - at {
            return out("a value");
        }
        Ok(Raw::Scalar(at))
    }
}

/// The document which `walk` has found in data of another writer, if its keys are strings.
pub fn content(b: &[u8], raw: &Raw) -> Option<Doc> {
    match raw {
        Raw::Scalar(at) => {
            let (at, l) = (*at, b[*at] & 0x0F);
            Some(match b[at] >> 4 {
                0 => {
                    let v = (i128::from(l) << 8) | i128::from(b[at + 1]);
                    Doc::Int(if v & 0x800 != 0 { v - 0x1000 } else { v })
                }
                1 => {
                    let n = usize::from(l & 7) + 1;
                    let mut x = [0_u8; 8];
                    x[..n].copy_from_slice(&b[at + 1..at + 1 + n]);
                    let u = u64::from_le_bytes(x);
                    Doc::Int(if l & 8 != 0 { i128::from(u) } else {
                        let sh = 64 - 8 * n as u32;
                        i128::from(((u << sh) as i64) >> sh)
                    })
                }
                2 if l & 8 != 0 => Doc::F64(f64::from_le_bytes(b[at + 2..at + 10].try_into().ok()?)),
                2 => {
                    let f = f32::from_le_bytes(b[at + 2..at + 6].try_into().ok()?);
                    if l & 4 != 0 { Doc::F64(f64::from(f)) } else { Doc::F32(f) }
                }
                3 => match l {
                    0x0 => Doc::Null,
                    0x4 => Doc::Bool(false),
                    0x8 => Doc::Bool(true),
                    0xC => Doc::Undef,
                    _ => return None,
                },
                k => {
                    let (start, len) = if l == 0xF {
                        let (n, len) = varint(&b[at + 1..])?;
                        (at + 1 + n, len as usize)
                    } else {
                        (at + 1, usize::from(l))
                    };
                    let s = b.get(start..start.checked_add(len)?)?;
                    if k == 4 { Doc::Str(std::str::from_utf8(s).ok()?.to_string()) } else { Doc::Data(s.to_vec()) }
                }
            })
        }
        Raw::Arr(v) => v.iter().map(|x| content(b, x)).collect::<Option<Vec<_>>>().map(Doc::Arr),
        Raw::Dict(v) => {
            let mut m = BTreeMap::new();
            for p in v.chunks(2) {
                let Doc::Str(k) = content(b, &p[0])? else { return None };
                m.insert(k, content(b, &p[1])?);
            }
            Some(Doc::Dict(m))
        }
    }
}

/// Documents of the original implementation (C++), from the repository.
pub static PERSON: &[u8] = include_bytes!("../fixtures/1person.fleece");
pub static PEOPLE: &[u8] = include_bytes!("../fixtures/1000people.fleece");
