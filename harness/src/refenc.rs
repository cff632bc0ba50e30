//! An independent encoder which produces any legal layout of a document, not only the one that the
//! real encoder chooses: needless wide collections, values out of line although they fit, shared
//! values, long forms of integers, unused bytes between values, pointers through pointers, ...
use crate::doc::Doc;
use crate::rng::Rng;
use crate::st;
use std::collections::HashMap;

#[derive(Clone, Copy)]
pub struct Style {
    pub wide_pct: usize,
    pub out_of_line_pct: usize,
    pub gap_pct: usize,
    pub share_pct: usize,
    pub chain_pct: usize,
    pub long_int_pct: usize,
}

impl Style {
    pub fn random(r: &mut Rng) -> Style {
        let p = |r: &mut Rng| *r.pick(&[0, 0, 10, 50, 100]);
        Style { wide_pct: p(r), out_of_line_pct: p(r), gap_pct: *r.pick(&[0, 0, 10, 40]), share_pct: p(r), chain_pct: *r.pick(&[0, 0, 5, 30]), long_int_pct: p(r) }
    }
}

enum Cell {
    Inline(Vec<u8>),
    At(usize),
}

pub struct RefEnc<'a> {
    pub out: Vec<u8>,
    r: &'a mut Rng,
    s: Style,
    table: Option<&'a HashMap<String, u16>>,
    seen: HashMap<Vec<u8>, usize>,
}

fn pct(r: &mut Rng, p: usize) -> bool {
    r.below(100) < p
}

fn put_varint(out: &mut Vec<u8>, mut v: usize) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

impl<'a> RefEnc<'a> {
    fn scalar(&mut self, d: &Doc) -> Vec<u8> {
        match d {
            Doc::Null => vec![0x30, 0],
            Doc::Undef => vec![0x3C, 0],
            Doc::Bool(b) => vec![if *b { 0x38 } else { 0x34 }, 0],
            Doc::Int(i) => {
                let i = *i;
                let long = pct(self.r, self.s.long_int_pct);
                if (-2048..=2047).contains(&i) && !long {
                    let v = (i as i16 as u16) & 0xFFF;
                    return v.to_be_bytes().to_vec();
                }
                let unsigned = i > i128::from(i64::MAX) || (i >= 0 && self.r.bool());
                let mut n = 1;
                if unsigned {
                    while n < 8 && i >> (8 * n) != 0 {
                        n += 1;
                    }
                } else {
                    while n < 8 && !(-(1_i128 << (8 * n - 1))..1_i128 << (8 * n - 1)).contains(&i) {
                        n += 1;
                    }
                }
                if long {
                    st::hit("refenc_long_form_ints");
                    n = self.r.range(n, 8);
                }
                let mut v = vec![0x10 | if unsigned { 8 } else { 0 } | (n as u8 - 1)];
                v.extend(&i.to_le_bytes()[..n]);
                v
            }
            Doc::F32(f) => {
                let mut v = vec![0x20, 0];
                v.extend(f.to_le_bytes());
                v
            }
            Doc::F64(f) => {
                if (f64::from(*f as f32)).to_bits() == f.to_bits() && self.r.bool() {
                    st::hit("refenc_doubles_in_4_bytes");
                    let mut v = vec![0x24, 0];
                    v.extend((*f as f32).to_le_bytes());
                    return v;
                }
                // 4 marks what is a double although it has 4 bytes, and adds nothing to one of 8 bytes
                let mut v = vec![if self.r.one_in(4) { 0x2C } else { 0x28 }, 0];
                v.extend(f.to_le_bytes());
                v
            }
            Doc::Str(s) => Self::blob(0x40, s.as_bytes()),
            Doc::Data(s) => Self::blob(0x50, s),
            Doc::Arr(_) | Doc::Dict(_) => unreachable!(),
        }
    }

    fn blob(tag: u8, b: &[u8]) -> Vec<u8> {
        let mut v = vec![];
        if b.len() < 15 {
            v.push(tag | b.len() as u8);
        } else {
            v.push(tag | 0xF);
            put_varint(&mut v, b.len());
        }
        v.extend(b);
        if b.is_empty() {
            v.push(0);
        }
        v
    }

    fn gap(&mut self) {
        if self.out.len() % 2 == 1 {
            let x = if self.s.gap_pct > 0 { self.r.u64() as u8 } else { 0 };
            self.out.push(x);
        }
        if pct(self.r, self.s.gap_pct) {
            st::hit("refenc_gaps");
            for _ in 0..2 * self.r.range(1, 9) {
                let x = self.r.u64() as u8;
                self.out.push(x);
            }
        }
    }

    fn place(&mut self, b: Vec<u8>) -> usize {
        if pct(self.r, self.s.share_pct) {
            if let Some(p) = self.seen.get(&b) {
                st::hit("refenc_shared_values");
                return *p;
            }
        }
        self.gap();
        let p = self.out.len();
        self.out.extend(&b);
        if self.out.len() % 2 == 1 {
            self.out.push(0);
        }
        self.seen.insert(b, p);
        p
    }

    fn wide_pointer(from: usize, to: usize) -> [u8; 4] {
        let mut b = (((from - to) / 2) as u32).to_be_bytes();
        b[0] |= 0x80;
        b
    }

    fn chain(&mut self, mut p: usize) -> usize {
        while pct(self.r, self.s.chain_pct) {
            st::hit("refenc_pointers_to_pointers");
            self.gap();
            let at = self.out.len();
            // the target of a wide pointer has to be before it, and to be a complete cell
            let b = Self::wide_pointer(at, p);
            self.out.extend(b);
            p = at;
        }
        p
    }

    fn cell(&mut self, d: &Doc, wide: bool) -> Cell {
        match d {
            Doc::Arr(_) | Doc::Dict(_) => {
                let empty = matches!(d, Doc::Arr(a) if a.is_empty()) || matches!(d, Doc::Dict(a) if a.is_empty());
                if empty && !pct(self.r, self.s.out_of_line_pct) {
                    st::hit("refenc_inline_empty_collections");
                    return Cell::Inline(vec![if matches!(d, Doc::Arr(_)) { 0x60 } else { 0x70 }, 0]);
                }
                let p = self.collection(d);
                Cell::At(self.chain(p))
            }
            leaf => {
                let b = self.scalar(leaf);
                if b.len() <= if wide { 4 } else { 2 } && !pct(self.r, self.s.out_of_line_pct) {
                    if b.len() > 2 {
                        st::hit("refenc_inline_in_wide");
                    }
                    return Cell::Inline(b);
                }
                let p = self.place(b);
                Cell::At(self.chain(p))
            }
        }
    }

    fn collection(&mut self, d: &Doc) -> usize {
        let mut wide = pct(self.r, self.s.wide_pct);
        let (tag, n) = match d {
            Doc::Arr(a) => (0x60, a.len()),
            Doc::Dict(m) => (0x70, m.len()),
            _ => unreachable!(),
        };
        let mut cells = vec![];
        match d {
            Doc::Arr(a) => {
                for x in a {
                    let c = self.cell(x, wide);
                    cells.push(c);
                }
            }
            Doc::Dict(m) => {
                let mut keyed: Vec<(Option<u16>, &String, &Doc)> = m.iter().map(|(k, v)| (self.table.and_then(|t| t.get(k).copied()), k, v)).collect();
                keyed.sort_by(|a, b| match (a.0, b.0) {
                    (Some(x), Some(y)) => x.cmp(&y),
                    (Some(_), None) => std::cmp::Ordering::Less,
                    (None, Some(_)) => std::cmp::Ordering::Greater,
                    _ => a.1.as_bytes().cmp(b.1.as_bytes()),
                });
                for (id, k, v) in keyed {
                    let kc = match id {
                        Some(i) => {
                            st::hit("refenc_shared_keys");
                            Cell::Inline(i.to_be_bytes().to_vec())
                        }
                        None => self.cell(&Doc::Str(k.clone()), wide),
                    };
                    let vc = self.cell(v, wide);
                    cells.push(kc);
                    cells.push(vc);
                }
            }
            _ => unreachable!(),
        }
        self.gap();
        let at = self.out.len();
        let mut hdr = vec![];
        if n < 0x7FF {
            hdr.extend([tag | (n >> 8) as u8, n as u8]);
        } else {
            hdr.extend([tag | 7, 0xFF]);
            put_varint(&mut hdr, n);
            if hdr.len() % 2 == 1 {
                hdr.push(0);
            }
        }
        let needs_wide = cells.iter().enumerate().any(|(i, c)| matches!(c, Cell::At(p) if at + hdr.len() + 2 * i - p > 0x7FFE));
        if needs_wide {
            st::hit("refenc_needed_wide");
        } else if wide {
            st::hit("refenc_needless_wide");
        }
        wide |= needs_wide;
        if wide {
            hdr[0] |= 8;
        }
        self.out.extend(hdr);
        for c in cells {
            let p = self.out.len();
            match c {
                Cell::Inline(mut b) => {
                    b.resize(if wide { 4 } else { 2 }, 0);
                    self.out.extend(b);
                }
                Cell::At(t) => {
                    if wide {
                        self.out.extend(Self::wide_pointer(p, t));
                    } else {
                        if p - t > 0x3FFF {
                            st::hit("refenc_far_narrow_pointers");
                        }
                        let b = ((p - t) / 2) as u16 | 0x8000;
                        self.out.extend(b.to_be_bytes());
                    }
                }
            }
        }
        at
    }
}

pub fn encode(d: &Doc, table: Option<&HashMap<String, u16>>, s: Style, r: &mut Rng) -> Vec<u8> {
    let mut e = RefEnc { out: vec![], r, s, table, seen: HashMap::new() };
    if !d.is_collection() || matches!(d, Doc::Arr(a) if a.is_empty()) || matches!(d, Doc::Dict(a) if a.is_empty()) {
        let b = match d {
            Doc::Arr(_) => vec![0x60, 0],
            Doc::Dict(_) => vec![0x70, 0],
            _ => e.scalar(d),
        };
        if b.len() == 2 && e.r.bool() {
            st::hit("refenc_two_byte_documents");
            return b;
        }
        let p = e.place(b);
        let p = e.chain(p);
        return e.trailer(p);
    }
    let p = e.collection(d);
    let p = e.chain(p);
    e.trailer(p)
}

impl RefEnc<'_> {
    fn trailer(mut self, mut p: usize) -> Vec<u8> {
        self.gap();
        let at = self.out.len();
        if at - p > 0x7FFE || pct(self.r, self.s.wide_pct / 3) {
            st::hit("refenc_far_roots");
            let b = Self::wide_pointer(at, p);
            self.out.extend(b);
            p = at;
        }
        let at = self.out.len();
        let b = ((at - p) / 2) as u16 | 0x8000;
        self.out.extend(b.to_be_bytes());
        self.out
    }
}
