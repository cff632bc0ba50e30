//! Generators, biased towards the boundaries of the encoding.
use crate::doc::Doc;
use crate::rng::Rng;
use std::collections::BTreeMap;

const STR_LENS: &[usize] = &[0, 1, 1, 2, 3, 4, 5, 7, 12, 13, 14, 15, 16, 17, 18, 30, 31, 63, 64, 126, 127, 128, 129, 130, 255, 256, 257];
const CHARS: &[char] = &['a', 'b', 'c', 'k', 'z', 'A', 'Z', '0', '9', '_', '-', ' ', '.', '/', '"', '\0', '\n', '\x7f', 'é', 'ß', 'Ω', 'я', '中', '日', '€', '\u{FFFF}', '😀', '\u{10FFFF}', 'n', 'm', 'e', 't'];

/// Any character, with those which text processing is tempted to treat in its own way more often.
pub fn any_char(r: &mut Rng) -> char {
    const SPECIAL: &[char] = &['\u{FEFF}', '\u{FFFD}', '\u{FFFE}', '\u{FFFF}', '\u{D7FF}', '\u{E000}', '\u{200B}', '\u{200D}', '\u{2028}', '\u{2029}', '\u{AD}',
        '\u{85}', '\u{A0}', '\u{301}', '\u{3000}', '\u{1}', '\u{1B}', '\u{7F}', '\u{80}', '\u{7FF}', '\u{800}', '\u{10000}', '\u{10FFFF}', '\n', '\r', '\t',
        '"', '\\', '/', 'İ', 'ß', 'ﬁ', 'ǅ'];
    if r.bool() {
        return *r.pick(SPECIAL);
    }
    let bits = r.range(7, 21) as u32;
    char::from_u32((r.u64() as u32) & ((1 << bits) - 1)).unwrap_or('\u{FEFF}')
}

pub fn string_of_len(r: &mut Rng, len: usize) -> String {
    let mut s = String::with_capacity(len);
    let mode = r.below(4);
    while s.len() < len {
        let c = match mode {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => (b'!' + r.below(94) as u8) as char,
            2 if r.one_in(3) => any_char(r),
            _ => *r.pick(CHARS),
        };
        if s.len() + c.len_utf8() <= len {
            s.push(c);
        } else {
            s.push((b'0' + r.below(10) as u8) as char);
        }
        if s.len() > 600 {
            // fill cheaply
            let unit = "qwertyuiop";
            while s.len() + unit.len() <= len {
                s.push_str(unit);
            }
        }
    }
    s
}

pub fn str_len(r: &mut Rng) -> usize {
    match r.below(200) {
        0 => r.range(16380, 16390),
        1 => r.range(2000, 6000),
        2..=20 => r.range(0, 300),
        21..=60 => r.range(0, 20),
        _ => *r.pick(STR_LENS),
    }
}

pub fn string(r: &mut Rng) -> String {
    let n = str_len(r);
    string_of_len(r, n)
}

pub fn data(r: &mut Rng) -> Vec<u8> {
    let n = str_len(r);
    let k = r.u64();
    let m = r.below(3);
    (0..n).map(|i| match m { 0 => (k >> (i % 57)) as u8, 1 => 0, _ => 0xFF }).collect()
}

/// Any integer that fits i64 or u64, biased to where the encoding changes.
pub fn int(r: &mut Rng) -> i128 {
    let v: i128 = match r.below(10) {
        0 => i128::from(r.irange(-2100, 2100)),
        1 => *r.pick(&[0, 1, -1, 2046, 2047, 2048, 2049, -2047, -2048, -2049, -2050, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, -32769, 65535, 65536]),
        2..=6 => {
            let k = r.below(65) as u32;
            let b = 1_i128 << k;
            let b = if r.bool() { b } else { -b };
            b + i128::from(r.irange(-2, 2))
        }
        7 => {
            // a random number of significant bits
            let k = r.below(64);
            let b = i128::from(r.u64() >> k);
            if r.bool() { b } else { -b }
        }
        8 => {
            // with zero bytes at the low end
            let k = r.below(8) * 8;
            i128::from((r.u64() >> r.below(64)) << k)
        }
        _ => i128::from(r.u64() as i64),
    };
    v.clamp(i128::from(i64::MIN), i128::from(u64::MAX))
}

pub fn f64_(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => *r.pick(&[0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 0.999_999, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 5e-324, 2047.0, 2048.0, 32767.0, 32768.5, -32769.0, 65535.0, 65536.0, 9.223_372_036_854_775e18, 9.223_372_036_854_776e18, 1.8e19, 1e300]),
        1 | 2 => f64::from_bits(r.u64()),
        3 => r.irange(-100_000, 100_000) as f64 / 7.0,
        4 => r.irange(-5000, 5000) as f64,
        5 => f64::from(f32::from_bits(r.u64() as u32)),
        _ => (r.u64() as i64 >> r.below(64)) as f64,
    }
}

pub fn f32_(r: &mut Rng) -> f32 {
    match r.below(5) {
        0 => *r.pick(&[0.0, -0.0, 0.5, -0.5, 1.0, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX, f32::MIN, 1e-45, 16_777_216.0, 16_777_217.0]),
        1 | 2 => f32::from_bits(r.u64() as u32),
        3 => r.irange(-5000, 5000) as f32,
        _ => f64_(r) as f32,
    }
}

pub fn leaf(r: &mut Rng) -> Doc {
    match r.weighted(&[4, 3, 6, 24, 6, 8, 20, 10]) {
        0 => Doc::Null,
        1 => Doc::Undef,
        2 => Doc::Bool(r.bool()),
        3 => Doc::Int(int(r)),
        4 => Doc::F32(f32_(r)),
        5 => Doc::F64(f64_(r)),
        6 => Doc::Str(string(r)),
        _ => Doc::Data(data(r)),
    }
}

/// Keys: a small pool of families, so that dicts have common prefixes, one-byte keys, keys around the
/// 16 byte limit of the shared keys, keys that are not eligible for them, and long ones.
pub fn key(r: &mut Rng) -> String {
    match r.below(16) {
        0 => String::new(),
        1 => ((b'a' + r.below(26) as u8) as char).to_string(),
        2 => r.pick(CHARS).to_string(),
        3 => format!("key{}", r.below(40)),
        4 => format!("k{:02}", r.below(100)),
        5 => {
            let n = r.range(13, 19);
            let mut s = "abcdefghijklmnopqrstuvw"[..n].to_string();
            if r.bool() {
                s.pop();
                s.push(*r.pick(&['x', 'y', '-', '_', '.', '7']));
            }
            s
        }
        6 => {
            let n = r.range(1, 20);
            "é_Ω中-aя".chars().cycle().skip(r.below(7)).take(n.min(9)).collect()
        }
        7 => format!("name-{}", r.below(30)),
        8 => format!("not eligible {}", r.below(30)),
        9 => format!("a{}", "\0".repeat(r.below(3))),
        10 => {
            let n = *r.pick(&[14, 15, 16, 17, 31, 127, 128, 129]);
            let mut s = "p".repeat(n - 1);
            s.push((b'a' + r.below(4) as u8) as char);
            s
        }
        11 => string(r),
        12 => (*r.pick(&["id", "name", "age", "type", "value", "date", "first_name", "last-name", "address", "email_address", "_id", "_rev"])).to_string(),
        _ => {
            let n = r.range(2, 10);
            (0..n).map(|_| *r.pick(&['a', 'b', 'c', '_', '-', '1', 'B'])).collect()
        }
    }
}

/// A key which is eligible for the shared keys.
pub fn shareable_key(r: &mut Rng) -> String {
    let n = r.range(1, 16);
    let mut s = String::new();
    while s.len() < n {
        let c = *r.pick(&['a', 'b', 'c', 'x', 'y', 'z', 'A', 'Q', '0', '7', '_', '-', 'e', 'é', '中']);
        if s.len() + c.len_utf8() <= 16 {
            s.push(c);
        } else {
            break;
        }
    }
    s
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub nodes: usize,
    pub depth: usize,
    /// Never generate leaves larger than this.
    pub small: bool,
}

fn count(r: &mut Rng, budget: usize) -> usize {
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=6 => r.below(8),
        7 | 8 => r.below(40),
        _ => budget,
    };
    n.min(budget)
}

pub fn tree(r: &mut Rng, cfg: Cfg, budget: &mut usize, depth: usize) -> Doc {
    if *budget > 0 {
        *budget -= 1;
    }
    let leafy = depth >= cfg.depth || *budget == 0;
    match if leafy { 0 } else { r.below(if depth == 0 { 2 } else { 5 }) } {
        0 if depth == 0 && !leafy => {
            let n = count(r, *budget);
            Doc::Arr((0..n).map(|_| tree(r, cfg, budget, depth + 1)).collect())
        }
        1 if !leafy => {
            let n = count(r, *budget);
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = key(r);
                if cfg.small && k.len() > 64 {
                    continue;
                }
                m.insert(k, tree(r, cfg, budget, depth + 1));
            }
            Doc::Dict(m)
        }
        2 if !leafy => {
            let n = count(r, *budget);
            Doc::Arr((0..n).map(|_| tree(r, cfg, budget, depth + 1)).collect())
        }
        _ => {
            let l = leaf(r);
            match &l {
                Doc::Str(s) if cfg.small && s.len() > 40 => Doc::Int(3),
                Doc::Data(s) if cfg.small && s.len() > 40 => Doc::Null,
                _ => l,
            }
        }
    }
}

/// A random document with an array or dict at the top.
pub fn doc(r: &mut Rng) -> Doc {
    let nodes = match r.below(12) {
        0 => 1,
        1 | 2 => 4,
        3..=6 => 15,
        7..=9 => 60,
        10 => 300,
        _ => 1200,
    };
    let depth = *r.pick(&[1, 2, 3, 4, 6, 12, 40]);
    let mut b = nodes;
    let d = tree(r, Cfg { nodes, depth, small: false }, &mut b, 0);
    wrap(r, d)
}

pub fn small_doc(r: &mut Rng) -> Doc {
    let nodes = *r.pick(&[2, 5, 12, 25]);
    let mut b = nodes;
    let d = tree(r, Cfg { nodes, depth: 4, small: true }, &mut b, 0);
    if d.is_collection() { d } else { Doc::Arr(vec![d]) }
}

fn wrap(r: &mut Rng, d: Doc) -> Doc {
    let mut d = if d.is_collection() { d } else { Doc::Arr(vec![d]) };
    // Sometimes deep.
    if r.one_in(20) {
        for _ in 0..r.range(1, 120) {
            d = if r.bool() { Doc::Arr(vec![d]) } else { Doc::Dict([(key(r), d)].into()) };
        }
    }
    d
}

/// The bytes that a string or data of this length takes out of line, with padding.
pub fn str_size(len: usize) -> usize {
    let n = if len < 15 {
        1 + len
    } else {
        let mut v = len;
        let mut c = 1;
        while v >= 0x80 {
            v >>= 7;
            c += 1;
        }
        1 + c + len
    };
    n + n % 2
}

fn filler(r: &mut Rng, size: usize) -> Doc {
    // out-of-line value of exactly `size` bytes (even, >= 4)
    let mut len = size.saturating_sub(1).max(2);
    while str_size(len) > size && len > 2 {
        len -= 1;
    }
    if r.bool() {
        Doc::Str(string_of_len(r, len))
    } else {
        Doc::Data(vec![r.u64() as u8; len])
    }
}

/// Documents whose pointers have distances around 16 KB, where 2-byte pointers end.
pub fn distance_doc(r: &mut Rng) -> Doc {
    let limit = 0x4000usize;
    let tail = *r.pick(&[0, 1, 2, 3, 5, 9, 17, 60, 200]);
    let n_out = *r.pick(&[1, 2, 3, 4, 8, 20]);
    // a spread around the limit that covers every element position
    let spread = 4 * (tail + n_out) + 12;
    let total = (limit + spread / 2).saturating_sub(2 * r.below(spread + 4)) & !1;
    let target = if r.one_in(12) { *r.pick(&[0x7ff0, 0x7ffe, 0x8000, 0x8010, 0xFFF8, 0x10000, 0x10010, 0x1_ffff]) } else { total };
    let mut sizes = vec![];
    let mut left = target;
    for i in 0..n_out {
        let s = if i + 1 == n_out { left } else { (r.below(left / 2) & !1).max(4) };
        let s = s.max(4);
        sizes.push(s);
        left = left.saturating_sub(s).max(4);
    }
    r.shuffle(&mut sizes);
    let mut elems: Vec<Doc> = sizes.iter().map(|s| filler(r, *s)).collect();
    for _ in 0..tail {
        let e = match r.below(5) {
            0 => Doc::Str(string_of_len(r, 1)),
            1 => Doc::Str(String::new()),
            2 => Doc::Data(vec![7]),
            _ => Doc::Int(i128::from(r.irange(-2048, 2047))),
        };
        let at = if r.bool() { elems.len() } else { r.below(elems.len() + 1) };
        elems.insert(at, e);
    }
    if r.one_in(3) {
        // a nested collection at either end
        let inner = small_doc(r);
        let at = if r.bool() { 0 } else { r.below(elems.len() + 1) };
        elems.insert(at, inner);
    }
    let d = match r.below(3) {
        0 => Doc::Arr(elems),
        1 => Doc::Dict(elems.into_iter().enumerate().map(|(i, e)| (match r.below(4) {
            0 => format!("{}{i}", (b'a' + r.below(26) as u8) as char),
            1 => format!("key_{i:05}"),
            2 => format!("{:03}-a_long_key_that_is_not_shared", 999usize.saturating_sub(i)),
            _ => char::from_u32(0x21 + (i as u32 % 90)).unwrap_or('x').to_string() + &if i < 90 { String::new() } else { i.to_string() },
        }, e)).collect()),
        _ => {
            // one far element, then a collection that is closed just before the outer one
            let mut v = elems;
            v.push(Doc::Arr((0..r.below(30)).map(|i| Doc::Int(i as i128)).collect()));
            Doc::Arr(v)
        }
    };
    match r.below(4) {
        0 => Doc::Arr(vec![Doc::Int(1), d, Doc::Int(2)]),
        1 => Doc::Dict([("d".to_string(), d), ("other".to_string(), Doc::Str("out of line".into()))].into()),
        _ => d,
    }
}

pub const COUNTS: &[usize] = &[0, 1, 2, 14, 15, 16, 126, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 2045, 2046, 2047, 2048, 2049, 2050, 2175, 2176, 4095, 4096, 8190, 8191, 8192, 8193, 9000, 16382, 16383, 16384, 16385, 16386, 20000, 32767, 32768, 40000];

/// Collections with many elements: long counts, far root pointers, wide collections.
pub fn count_doc(r: &mut Rng, max: usize) -> Doc {
    let mut n = *r.pick(COUNTS);
    while n > max {
        n = *r.pick(COUNTS);
    }
    let kind = r.below(4);
    let one = |r: &mut Rng, i: usize| match kind {
        0 => Doc::Int((i % 2000) as i128),
        1 => if i % 97 == 0 { leaf_small(r) } else { Doc::Int(i as i128) },
        2 => Doc::Str(format!("{i}")),
        _ => if r.one_in(50) { Doc::Arr(vec![Doc::Int(i as i128)]) } else { Doc::Bool(i % 2 == 0) },
    };
    let d = match r.below(3) {
        0 | 1 => Doc::Arr((0..n).map(|i| one(r, i)).collect()),
        _ => {
            let m = r.below(3);
            Doc::Dict((0..n).map(|i| (match m { 0 => format!("{i}"), 1 => format!("k{i:06}"), _ => format!("{:x}-and a longer key", i * 7) }, one(r, i))).collect())
        }
    };
    match r.below(5) {
        0 => Doc::Arr(vec![Doc::Str("before".into()), d, Doc::Str("after".into())]),
        1 => Doc::Dict([("c".to_string(), d), ("string key".to_string(), Doc::Int(1))].into()),
        _ => d,
    }
}

pub fn leaf_small(r: &mut Rng) -> Doc {
    loop {
        let l = leaf(r);
        match &l {
            Doc::Str(s) if s.len() > 40 => {}
            Doc::Data(s) if s.len() > 40 => {}
            _ => return l,
        }
    }
}

/// Replace some values by near copies of other ones, so that whatever confuses equal, similar or
/// neighbouring values shows.
pub fn echo(r: &mut Rng, d: &mut Doc) {
    fn collect(d: &Doc, out: &mut Vec<Doc>) {
        match d {
            Doc::Arr(a) => {
                if a.len() < 20 && d.nodes() < 60 && !a.is_empty() {
                    out.push(d.clone());
                }
                a.iter().for_each(|x| collect(x, out));
            }
            Doc::Dict(m) => {
                if m.len() < 20 && d.nodes() < 60 && !m.is_empty() {
                    out.push(d.clone());
                }
                for (k, x) in m {
                    if out.len() < 400 {
                        out.push(Doc::Str(k.clone()));
                    }
                    collect(x, out);
                }
            }
            Doc::Str(_) | Doc::Data(_) | Doc::Int(_) | Doc::F32(_) | Doc::F64(_) if out.len() < 400 => out.push(d.clone()),
            _ => {}
        }
    }
    fn place(r: &mut Rng, d: &mut Doc, pool: &[Doc], rate: usize) {
        match d {
            Doc::Arr(a) => {
                for i in 0..a.len() {
                    if r.one_in(rate) {
                        // near: of the value before it
                        a[i] = if i > 0 && r.bool() { a[i - 1].clone() } else { r.pick(pool).clone() };
                        near(r, &mut a[i]);
                    } else {
                        place(r, &mut a[i], pool, rate);
                    }
                }
            }
            Doc::Dict(m) => {
                for x in m.values_mut() {
                    if r.one_in(rate) {
                        *x = r.pick(pool).clone();
                        near(r, x);
                    } else {
                        place(r, x, pool, rate);
                    }
                }
            }
            _ => {}
        }
    }
    let mut pool = vec![];
    collect(d, &mut pool);
    pool.retain(|x| x.nodes() < d.nodes().max(2));
    if pool.is_empty() {
        return;
    }
    let rate = *r.pick(&[2, 3, 8]);
    place(r, d, &pool, rate);
}

/// Change a value a little, or its type only, or nothing.
fn near(r: &mut Rng, d: &mut Doc) {
    let at = |r: &mut Rng, n: usize| match r.below(4) {
        0 => 0,
        1 => n - 1,
        2 => n / 2,
        _ => r.below(n),
    };
    match d {
        Doc::Str(s) => match r.below(8) {
            0 => {}
            1 => {
                s.pop();
            }
            2 => s.push(*r.pick(CHARS)),
            3 => *d = Doc::Data(s.as_bytes().to_vec()),
            _ => {
                if s.is_empty() {
                    return;
                }
                let mut c: Vec<char> = s.chars().collect();
                let i = at(r, c.len());
                c[i] = if c[i] == 'x' { 'y' } else if c[i].is_ascii() { 'x' } else { 'Ж' };
                *s = c.into_iter().collect();
            }
        },
        Doc::Data(b) => match r.below(8) {
            0 => {}
            1 => {
                b.pop();
            }
            2 => b.push(0),
            3 => {
                if let Ok(s) = String::from_utf8(b.clone()) {
                    *d = Doc::Str(s);
                }
            }
            _ => {
                if b.is_empty() {
                    return;
                }
                let i = at(r, b.len());
                b[i] ^= 1 << r.below(8);
            }
        },
        Doc::Int(i) => match r.below(6) {
            0 => {}
            1 => *d = Doc::F64(*i as f64),
            2 => *d = Doc::F32(*i as f32),
            3 => *i = (-*i).clamp(i128::from(i64::MIN), i128::from(u64::MAX)),
            4 => *i ^= 1 << r.below(62),
            _ => *i = (*i + i128::from(r.irange(-1, 1))).clamp(i128::from(i64::MIN), i128::from(u64::MAX)),
        },
        Doc::F64(f) => match r.below(4) {
            0 => {}
            1 => *d = Doc::F32(*f as f32),
            2 => *f = f64::from_bits(f.to_bits() ^ (1 << r.below(64))),
            _ => *f = -*f,
        },
        Doc::F32(f) => match r.below(4) {
            0 => {}
            1 => *d = Doc::F64(f64::from(*f)),
            2 => *f = f32::from_bits(f.to_bits() ^ (1 << r.below(32))),
            _ => *f = -*f,
        },
        Doc::Arr(a) if !a.is_empty() => {
            let i = at(r, a.len());
            match r.below(5) {
                0 => {}
                1 => {
                    a.pop();
                }
                _ => near(r, &mut a[i]),
            }
        }
        Doc::Dict(m) if !m.is_empty() => {
            let i = at(r, m.len());
            let k = m.keys().nth(i).cloned().unwrap_or_default();
            match r.below(5) {
                0 => {}
                1 => {
                    m.remove(&k);
                }
                2 => {
                    // the same value under a key which is nearly the same
                    if let Some(v) = m.remove(&k) {
                        let mut k = Doc::Str(k);
                        near(r, &mut k);
                        if let Doc::Str(k) = k {
                            m.insert(k, v);
                        }
                    }
                }
                _ => {
                    if let Some(x) = m.get_mut(&k) {
                        near(r, x);
                    }
                }
            }
        }
        _ => {}
    }
}

/// The mix that most properties use.
pub fn any_doc(r: &mut Rng) -> Doc {
    let mut d = any_doc_plain(r);
    if r.one_in(4) && d.nodes() < 3000 {
        echo(r, &mut d);
        crate::st::hit("documents_of_similar_values");
    }
    d
}

fn any_doc_plain(r: &mut Rng) -> Doc {
    match r.below(40) {
        0..=5 => distance_doc(r),
        6 => count_doc(r, 3000),
        7 if r.one_in(4) => count_doc(r, 50_000),
        8..=14 => dicty(r),
        15..=19 => small_doc(r),
        _ => doc(r),
    }
}

/// Documents that repeat the same keys in many dicts, as records do.
pub fn dicty(r: &mut Rng) -> Doc {
    let nk = r.range(1, 12);
    let keys: Vec<String> = (0..nk).map(|_| if r.one_in(4) { key(r) } else { shareable_key(r) }).collect();
    let n = r.range(1, 12);
    let rec = |r: &mut Rng, depth: usize| {
        fn go(r: &mut Rng, keys: &[String], depth: usize) -> Doc {
            let mut m = BTreeMap::new();
            for k in keys {
                if r.one_in(4) {
                    continue;
                }
                let v = if depth > 0 && r.one_in(4) { go(r, keys, depth - 1) } else { leaf_small(r) };
                m.insert(k.clone(), v);
            }
            Doc::Dict(m)
        }
        go(r, &keys, depth)
    };
    if r.one_in(3) {
        rec(r, 3)
    } else {
        Doc::Arr((0..n).map(|_| rec(r, 2)).collect())
    }
}
