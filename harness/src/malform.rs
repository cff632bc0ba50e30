//! Bytes which may or may not be a document: from noise to documents with a single wrong bit.
use crate::rng::Rng;
use crate::{drive, gen, refenc};

fn interesting(r: &mut Rng) -> u8 {
    *r.pick(&[0x00, 0x01, 0x02, 0x03, 0x04, 0x06, 0x07, 0x08, 0x0F, 0x10, 0x17, 0x18, 0x1F, 0x20, 0x24, 0x28, 0x2C, 0x30, 0x34, 0x38, 0x3C, 0x40, 0x41, 0x42, 0x4E, 0x4F, 0x50, 0x5F, 0x60, 0x61, 0x67, 0x68, 0x6F, 0x70, 0x71, 0x77, 0x78, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFE, 0xFF])
}

pub fn valid(r: &mut Rng, tiny: bool) -> Vec<u8> {
    if !tiny && r.one_in(25) {
        return crate::refdec::PERSON.to_vec();
    }
    let d = match r.below(if tiny { 4 } else { 12 }) {
        0..=6 => gen::small_doc(r),
        7 => gen::dicty(r),
        8 => gen::leaf_small(r),
        9 if r.one_in(6) => gen::distance_doc(r),
        10 if r.one_in(12) => gen::count_doc(r, 4200),
        _ => {
            let mut b = 30;
            gen::tree(r, gen::Cfg { nodes: 30, depth: 8, small: true }, &mut b, 0)
        }
    };
    if d.is_collection() && r.bool() {
        drive::bytes(&d, r).unwrap_or_default()
    } else {
        refenc::encode(&d, None, refenc::Style::random(r), r)
    }
}

/// A header which claims some size, in a state near to what is there.
fn piece(r: &mut Rng, out: &mut Vec<u8>) {
    let near = |r: &mut Rng| *r.pick(&[0_u8, 1, 1, 2, 2, 3, 4, 5, 7]);
    match r.below(14) {
        0 => out.extend([r.below(16) as u8, r.u64() as u8]),
        1 => {
            out.push(0x10 | r.below(16) as u8);
            for _ in 0..r.below(10) {
                out.push(r.u64() as u8);
            }
        }
        2 => {
            out.extend([0x20 | *r.pick(&[0, 4, 8, 12, 1]), 0]);
            for _ in 0..*r.pick(&[0, 2, 4, 4, 6, 8, 8]) {
                out.push(r.u64() as u8);
            }
        }
        3 => out.extend([0x30 | r.below(16) as u8, 0]),
        4 | 5 => {
            let n = r.below(16);
            out.push(*r.pick(&[0x40, 0x50]) | n as u8);
            let mut len = n;
            if n == 15 {
                len = r.below(40);
                varint(r, out, len as u64);
            }
            let len = (len + 2).saturating_sub(r.below(4));
            for _ in 0..len {
                out.push(if r.one_in(20) { r.u64() as u8 } else { b'a' + r.below(26) as u8 });
            }
        }
        6..=8 => {
            let wide = r.one_in(3);
            let dict = r.one_in(3);
            let n = near(r);
            let tag = if dict { 0x70 } else { 0x60 } | if wide { 8 } else { 0 };
            if r.one_in(8) {
                out.extend([tag | 7, 0xFF]);
                let x = u64::from(n);
                varint(r, out, x);
                if out.len() % 2 == 1 {
                    out.push(0);
                }
            } else {
                out.extend([tag, n]);
            }
            let cells = n as usize * if dict { 2 } else { 1 };
            let cells = if r.one_in(6) { r.below(8) } else { cells };
            for i in 0..cells {
                let key = dict && i % 2 == 0;
                cell(r, out, wide, key);
            }
        }
        9 | 10 => {
            let wide = r.bool();
            let n = out.len();
            pointer(r, out, wide, n);
        }
        11 => {
            for _ in 0..r.below(6) {
                let b = interesting(r);
                out.push(b);
            }
        }
        12 => out.extend([0, 0]),
        _ => out.extend([0x60, 0]),
    }
    if out.len() % 2 == 1 {
        out.push(if r.one_in(10) { interesting(r) } else { 0 });
    }
}

fn varint(r: &mut Rng, out: &mut Vec<u8>, v: u64) {
    let mut v = match r.below(8) {
        0 => *r.pick(&[0, 14, 15, 127, 128, 2046, 2047, 2048, 16383, 16384, 1 << 31, 1 << 32, (1 << 32) + 1, u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX / 4, u64::MAX / 4 + 2, u64::MAX - 10, (1 << 63) + 2, (1 << 62) + 1]),
        1 => r.u64() >> r.below(64),
        _ => v,
    };
    let pad = if r.one_in(10) { r.below(10) } else { 0 };
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    if pad > 0 {
        out.push(v as u8 | 0x80);
        for _ in 1..pad {
            out.push(0x80);
        }
        out.push(if r.one_in(3) { r.u64() as u8 } else { 0 });
    } else {
        out.push(v as u8);
    }
}

fn pointer(r: &mut Rng, out: &mut Vec<u8>, wide: bool, at: usize) {
    let mut off = if at < 4 || r.one_in(12) { r.below(40) } else { r.range(1, at / 2) };
    if r.one_in(30) {
        off = *r.pick(&[0, 0x3FFF, 0x3FFF_FFFF, 0x1FFF, 0x2000]);
    }
    if r.one_in(40) {
        off = (at / 2).wrapping_add(1);
    }
    let ext = r.one_in(60);
    if wide {
        let mut b = ((off as u32) & 0x3FFF_FFFF).to_be_bytes();
        b[0] |= if ext { 0xC0 } else { 0x80 };
        out.extend(b);
    } else {
        let mut b = ((off as u16) & 0x3FFF).to_be_bytes();
        b[0] |= if ext { 0xC0 } else { 0x80 };
        out.extend(b);
    }
}

fn cell(r: &mut Rng, out: &mut Vec<u8>, wide: bool, key: bool) {
    let at = out.len();
    match r.below(10) {
        0..=4 => pointer(r, out, wide, at),
        5 if !key => out.extend([r.below(16) as u8, r.u64() as u8]),
        5 => out.extend([0x41, b'a' + r.below(26) as u8]),
        6 => out.extend([0x41, b'a' + r.below(26) as u8]),
        7 => out.extend([0x30 | *r.pick(&[0, 4, 8, 12]), 0]),
        8 => {
            let b = interesting(r);
            out.extend([b, r.below(4) as u8]);
        }
        _ => out.extend([*r.pick(&[0x60, 0x70, 0x40, 0x50, 0x00]), 0]),
    }
    let w = if wide { 4 } else { 2 };
    while out.len() < at + w {
        out.push(if r.one_in(20) { interesting(r) } else { 0 });
    }
}

pub fn structured(r: &mut Rng) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..r.range(1, 12) {
        piece(r, &mut out);
    }
    if r.one_in(5) {
        // a wide pointer in front of the trailer
        let at = out.len();
        pointer(r, &mut out, true, at);
        out.extend([0x80, 2]);
        return out;
    }
    let at = out.len();
    let off = if r.one_in(30) { r.below(0x2000) } else { 1 + r.below(at.max(2) / 2) };
    out.extend((0x8000 | off as u16).to_be_bytes());
    out
}

pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    let n = b.len();
    if n == 0 {
        b.push(r.u64() as u8);
        return;
    }
    // Headers, keys, pointers and the end are what matters, and all are at even positions.
    let at = match r.below(4) {
        0 => n - 1 - r.below(n.min(8)),
        1 => r.below(n),
        2 => r.below(n) & !1,
        _ => (0..8).map(|_| r.below(n) & !1).find(|i| b[*i] >= 0x60).unwrap_or(0),
    };
    match r.below(16) {
        0 | 1 => b[at] ^= 1 << r.below(8),
        2 | 3 => b[at] = interesting(r),
        4 => b[at] = r.u64() as u8,
        5 => b[at] = b[at].wrapping_add(1),
        6 => b[at] = b[at].wrapping_sub(1),
        7 => {
            let k = r.range(1, n.min(10));
            b.drain(..k);
        }
        8 => {
            let k = r.range(1, n.min(10));
            b.truncate(n - k);
        }
        9 => {
            let p = r.below(n + 1);
            for _ in 0..*r.pick(&[1, 2, 2, 4]) {
                let x = interesting(r);
                b.insert(p, x);
            }
        }
        10 => {
            let k = r.range(1, n.min(4));
            let p = r.below(n - k + 1);
            b.drain(p..p + k);
        }
        11 => {
            // copy a part elsewhere
            let k = r.range(1, n.min(16));
            let (f, t) = (r.below(n - k + 1), r.below(n - k + 1));
            let part = b[f..f + k].to_vec();
            b[t..t + k].copy_from_slice(&part);
        }
        12 => {
            // the width of a collection, or its count
            if let Some(i) = (0..20).map(|_| r.below(n) & !1).find(|i| (0x60..0x80).contains(&b[*i])) {
                match r.below(5) {
                    0 => b[i] ^= 8,
                    1 => b[i] ^= 0x10,
                    2 => b[i] |= 7,
                    3 if i + 1 < n => b[i + 1] = b[i + 1].wrapping_add(1),
                    _ if i + 1 < n => {
                        b[i] |= 7;
                        b[i + 1] = 0xFF;
                    }
                    _ => {}
                }
            }
        }
        13 => {
            // where a pointer goes
            if let Some(i) = (0..20).map(|_| r.below(n) & !1).find(|i| b[*i] >= 0x80 && i + 1 < n) {
                match r.below(4) {
                    0 => b[i + 1] = r.below(8) as u8,
                    1 => b[i + 1] = b[i + 1].wrapping_add(1),
                    2 => b[i + 1] = b[i + 1].wrapping_sub(1),
                    _ => b[i] ^= 0x40,
                }
            }
        }
        14 => {
            let x = [interesting(r), interesting(r)];
            let at = at & !1;
            for (i, x) in x.iter().enumerate() {
                if at + i < n {
                    b[at + i] = *x;
                }
            }
        }
        _ => {
            let o = structured(r);
            let p = r.below(n + 1) & !1;
            if r.bool() {
                b.splice(p..p, o);
            } else {
                b.truncate(p);
                b.extend(o);
            }
        }
    }
}

pub fn any(r: &mut Rng, tiny: bool) -> Vec<u8> {
    match r.below(20) {
        0 => {
            let n = r.below(80);
            (0..n).map(|_| r.u64() as u8).collect()
        }
        1 => {
            let n = r.below(40);
            (0..n).map(|_| interesting(r)).collect()
        }
        2..=9 => structured(r),
        10 => {
            let mut b = structured(r);
            for _ in 0..r.range(1, 3) {
                mutate(r, &mut b);
            }
            b
        }
        11 => valid(r, tiny),
        _ => {
            let mut b = valid(r, tiny);
            for _ in 0..*r.pick(&[1, 1, 1, 2, 2, 3, 5, 10]) {
                mutate(r, &mut b);
            }
            b
        }
    }
}

/// The `i`-th part of 512, which together are all 2-byte inputs, all of 4 bytes that point to their
/// start, and all headers followed by each of several small bodies.
pub fn enumerated(i: u64, mut f: impl FnMut(&[u8]) -> crate::st::R) -> crate::st::R {
    let bodies: [&[u8]; 6] = [&[], &[0x80, 0x01], &[0x80, 0x01, 0, 0], &[0x41, b'a', 0x00, 0x05], &[0x80, 0x02, 0x80, 0x01, 0x00, 0x07], &[0x80, 0x00, 0x00, 0x01, 0x41, 0x61, 0, 0]];
    for h in i * 128..(i + 1) * 128 {
        let h = [(h >> 8) as u8, h as u8];
        f(&h)?;
        for b in bodies {
            // before the header there is a string and a number that pointers can reach
            for pre in [&[][..], &[0x42, b'h', b'i', 0], &[0x41, b'k', 0x0F, 0xFF]] {
                let mut v = pre.to_vec();
                v.extend(h);
                v.extend(b);
                let off = 1 + b.len() / 2;
                v.extend([0x80, off as u8]);
                f(&v)?;
                if b.len() >= 4 {
                    // a wide collection
                    v[pre.len()] |= 8;
                    f(&v)?;
                }
            }
        }
    }
    Ok(())
}
