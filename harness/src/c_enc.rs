//! C01–C05 and C09: what the encoder writes, and what is read back.
use crate::doc::Doc;
use crate::drive::{self, e2s};
use crate::rng::{hash64, Rng};
use crate::st::{self, R};
use crate::{ensure, gen, observe, refdec, refenc, Ctx};
use fleece::alloced::{AllocedArray, AllocedDict};
use fleece::value::DecodeError;
use fleece::{fleece, Array, Dict, Encoder, Scope, SharedKeys, Value};
use std::collections::BTreeMap;

pub fn open(b: &[u8]) -> R<&Value> {
    Value::from_bytes(b).map_err(|e| format!("valid data of {} bytes is rejected: {e}", b.len()))
}

pub fn some_doc(r: &mut Rng, c: Ctx) -> Doc {
    if c.tiny() {
        gen::small_doc(r)
    } else {
        gen::any_doc(r)
    }
}

fn fp(d: &Doc) -> u64 {
    if d.nodes() > 1 {
        d.fp() | 1
    } else {
        0
    }
}

fn note(d: &Doc) {
    st::add("nodes", d.nodes() as u64);
    st::max("depth_max", d.depth() as u64);
    st::describe(|| {
        let mut s = format!("{d:?}");
        if s.len() > 700 {
            let mut e = 700;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            s.truncate(e);
            s.push('…');
        }
        s
    });
}

/// Whatever is written is read back.
pub fn c01(r: &mut Rng, c: Ctx) -> R<u64> {
    // Every length of strings and data around the limits, and the empty documents, at first.
    let d = match c.case {
        n if n < 150 => {
            let len = n as usize;
            let s = gen::string_of_len(r, len);
            let b = s.as_bytes().to_vec();
            Doc::Dict([("s".to_string(), Doc::Str(s.clone())), ("bytes".to_string(), Doc::Data(b.clone())), ("l".to_string(), Doc::Arr(vec![Doc::Data(b), Doc::Str(s.clone()), Doc::Arr(vec![]), Doc::Dict(BTreeMap::new())])), (s.clone(), Doc::Str(s))].into())
        }
        n if n < 200 => Doc::Arr(vec![Doc::Str(gen::string_of_len(r, [16382, 16383, 16384, 16385, 255, 256, 2047, 2048, 40_000, 150][n as usize % 10])), Doc::Int(1)]),
        _ => some_doc(r, c),
    };
    note(&d);
    let b = drive::exact(&drive::bytes(&d, r)?);
    observe::expect("read back", open(&b)?, observe::FULL, &d)?;
    Ok(fp(&d))
}

/// Sizes, counts and distances make no difference.
pub fn c02(r: &mut Rng, c: Ctx) -> R<u64> {
    if c.tiny() {
        let d = gen::small_doc(r);
        note(&d);
        both(&d, r)?;
        return Ok(fp(&d));
    }
    let thorough = c.thorough;
    if (c.case == 1 || c.case == 2 && thorough) && c.variant == crate::Variant::Dbg {
        // Farther than pointers reach: refused, or read back.
        let n = if c.case == 1 { 1100 << 20 } else { 4200 << 20 };
        let big = vec![0_u8; n];
        let far = ["an early string", "and a key"];
        let kind = r.below(3);
        let mut e = Encoder::new();
        let written = (|| {
            if kind == 0 {
                e.begin_array(0)?;
                e.write_value(far[0])?;
                e.write_value(&big[..])?;
                e.write_value("second")?;
                e.write_value(&3_i8)?;
                e.end_array()
            } else {
                e.begin_dict()?;
                e.write_key(far[1])?;
                e.write_value(far[0])?;
                e.write_key("b")?;
                if kind == 2 {
                    e.begin_array(1)?;
                }
                e.write_value(&big[..])?;
                if kind == 2 {
                    e.end_array()?;
                }
                e.end_dict()
            }
        })();
        if let Err(why) = written {
            ensure!(matches!(why, fleece::encoder::EncodeError::PointerTooLarge), "a document of {n} bytes is refused for {why:?}");
            st::hit("documents_beyond_reach_refused");
            return Ok(1);
        }
        let b = e.finish();
        let v = open(&b)?;
        if kind == 0 {
            let Some(a) = v.as_array() else { return Err("an enormous array is not an array".into()) };
            ensure!(a.len() == 4 && a[0].to_str() == far[0] && a[2].to_str() == "second" && a[3].to_int() == 3, "the elements of an enormous array");
            ensure!(a[1].to_data() == &big[..], "enormous data is not read back");
        } else {
            let Some(d) = v.as_dict() else { return Err("an enormous dict is not a dict".into()) };
            ensure!(d.get(far[1]).map(|v| v.to_str()) == Some(far[0]), "a far key of an enormous dict");
            let data = if kind == 1 { d.get("b") } else { d.get("b").and_then(|v| v.as_array()).and_then(|a| a.get(0)) };
            ensure!(data.map(|v| v.to_data() == &big[..]) == Some(true), "enormous data in a dict is not read back");
        }
        return Ok(1);
    }
    if c.case == 0 || (thorough && c.case == 3) {
        // Distances that need all of a wide pointer.
        let n = if thorough { 400 << 20 } else { 72 << 20 };
        let big = vec![7_u8; n];
        let mut e = Encoder::new();
        (|| {
            e.begin_array(0)?;
            e.write_value("first")?;
            e.write_value(&big[..])?;
            e.begin_dict()?;
            e.write_key("a key that is far away from its dict")?;
            e.write_value(&big[..big.len() / 16])?;
            e.write_key("b")?;
            e.write_value("x")?;
            e.end_dict()?;
            e.end_array()
        })().map_err(e2s)?;
        let b = e.finish();
        let v = open(&b)?;
        let Some(a) = v.as_array() else { return Err("a large array is not an array".into()) };
        ensure!(a.len() == 3 && a[0].to_str() == "first", "the first element of a large array is {:?}", a[0].value_type());
        ensure!(a[1].to_data() == &big[..], "large data is not read back: {} bytes", a[1].to_data().len());
        let Some(d) = a[2].as_dict() else { return Err("a dict after large data is not a dict".into()) };
        ensure!(d.get("b").map(|v| v.to_str()) == Some("x"), "a key in a dict after large data");
        ensure!(d.get("a key that is far away from its dict").map(|v| v.to_data().len()) == Some(big.len() / 16), "a far key in a dict");
        st::hit("documents_over_64_MB");
        return Ok(1);
    }
    if (4..76).contains(&c.case) {
        // Sizes and counts around the powers of two beyond, up to varints of 4 bytes.
        let n = c.case as usize - 4;
        let mut p = *r.pick(&[(1_usize << 16) + [0, 1, 0, 0][n % 4], 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21]);
        let kind = n % 12;
        if c.variant != crate::Variant::Dbg || matches!(kind, 5 | 6 | 7) {
            p = p.min(1 << 18);
        }
        let p = p + *r.pick(&[0, 0, 1, 2, 3, 40]) - *r.pick(&[0, 0, 1, 2, 3, 17]);
        let text = |n: usize| "0123456789 abcdef ghijk".chars().cycle().take(n).collect::<String>();
        let d = match kind {
            0 => Doc::Arr((0..p).map(|i| Doc::Int((i % 2048) as i128)).collect()),
            1 => Doc::Arr(vec![Doc::Str(text(p)), Doc::Int(1)]),
            2 => Doc::Arr(vec![Doc::Data(text(p).into_bytes()), Doc::Str("after".into())]),
            3 => Doc::Dict([(text(p), Doc::Int(5)), ("short".into(), Doc::Bool(true)), (text(p) + "!", Doc::Str("other".into()))].into()),
            4 => Doc::Arr(vec![Doc::Str("first".into()), Doc::Arr((0..p).map(|i| if i % 999 == 7 { Doc::Str(format!("{i} of them")) } else { Doc::Bool(i % 3 == 0) }).collect()), Doc::Str("last".into())]),
            5 => Doc::Dict((0..p / 2).map(|i| (format!("{i:x}"), Doc::Int((i % 1000) as i128))).collect()),
            6 => Doc::Dict((0..p / 4).map(|i| (format!("a longer key {i}"), if i % 5 == 0 { Doc::Str(format!("value {i}")) } else { Doc::Null })).collect()),
            7 => Doc::Arr((0..p / 4).map(|i| Doc::Dict([("id".to_string(), Doc::Int(i as i128)), ("n".to_string(), Doc::Bool(i % 2 == 0))].into())).collect()),
            8 => Doc::Arr((0..p / 8).map(|i| Doc::Str(format!("element {i}"))).collect()),
            9 => Doc::Arr((0..p / 8).map(|i| Doc::F64(i as f64 / 3.0)).collect()),
            10 => Doc::Dict([("list".to_string(), Doc::Arr((0..p).map(|i| Doc::Int((i % 2000) as i128 - 1000)).collect())), ("text".to_string(), Doc::Str(text(p)))].into()),
            _ => Doc::Arr(vec![Doc::Arr(vec![Doc::Str(text(p / 2)), Doc::Str(text(p))]), Doc::Dict([("k".to_string(), Doc::Data(text(p).into_bytes())), ("key of some length".to_string(), Doc::Str("x".into()))].into())]),
        };
        note(&d);
        st::hit("sizes_beyond_16_bits");
        both(&d, r).map_err(|e| format!("size {p}, kind {kind}: {e}"))?;
        return Ok(fp(&d));
    }
    if c.case < 1000 {
        // Sweep the distance of one element over a limit.
        let n = c.case as usize;
        let form = n % 5;
        let (before, after) = *r.pick(&[(0, 0), (0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (2, 0), (3, 3), (0, 7), (7, 0), (0, 40), (5, 40), (0, 300), (40, 1), (300, 0), (0, 1500)]);
        let limit = *r.pick(&[0x4000, 0x4000, 0x4000, 0x4000, 0x8000, 0x8000, 0x10000]);
        let cell = if form == 1 || form == 2 { 4 } else { 2 };
        let mut lo = (limit as usize).saturating_sub(before * cell + 40 + after * 2);
        let hi = limit as usize - before * cell + 24;
        lo = lo.max(hi.saturating_sub(160));
        let mut size = lo & !1;
        while size <= hi {
            let mut len = size - 1;
            while gen::str_size(len) > size {
                len -= 1;
            }
            let far = if n % 2 == 0 { Doc::Str("s".repeat(len)) } else { Doc::Data(vec![0x81; len]) };
            let small = |i: usize| if i % 7 == 3 { Doc::Str(String::new()) } else { Doc::Int(i as i128 - 3) };
            let mut elems: Vec<Doc> = (0..before).map(small).collect();
            elems.push(far);
            elems.extend((0..after).map(|i| small(i + 2)));
            let d = match form {
                0 => Doc::Arr(elems),
                // keys of one byte (inline), then keys out of line
                1 if elems.len() < 90 => Doc::Dict(elems.into_iter().enumerate().map(|(i, e)| (((b' ' + 1 + i as u8) as char).to_string(), e)).collect()),
                1 | 2 => Doc::Dict(elems.into_iter().enumerate().map(|(i, e)| (format!("{i:04}"), e)).collect()),
                3 => Doc::Arr(vec![Doc::Arr(elems), Doc::Int(5)]),
                _ => Doc::Dict([("z".to_string(), Doc::Arr(elems)), ("other".to_string(), Doc::Bool(true))].into()),
            };
            if size == lo & !1 {
                note(&d);
            }
            st::hit("distances_swept");
            both(&d, r).map_err(|e| format!("out-of-line value of {size} bytes, {before} elements before and {after} after it, form {form}: {e}"))?;
            size += 2;
        }
        return Ok(hash64(&c.case.to_le_bytes()) | 1);
    }
    if c.case < 1200 {
        // Sweep the number of elements over a limit of the count, or of the distance of the root.
        let n = c.case as usize - 1000;
        let (mid, max) = *r.pick(&[(2047, 2), (2047, 2), (4093, 6), (8190, 5), (8188, 6), (16383, 2), (128, 2), (32768, 2)]);
        for k in mid - max..=mid + max {
            let d = match n % 6 {
                0 => Doc::Arr((0..k).map(|i| Doc::Int((i % 2048) as i128)).collect()),
                1 if k < 9000 => Doc::Dict((0..k).map(|i| (format!("{i}"), Doc::Int(i as i128))).collect()),
                2 => Doc::Arr((0..k).map(|i| if i % 1000 == 7 { Doc::F64(i as f64) } else { Doc::Bool(true) }).collect()),
                3 => Doc::Arr(std::iter::once(Doc::Str("x".repeat(17_000))).chain((1..k).map(|i| Doc::Int((i % 1000) as i128))).collect()),
                4 if k < 9000 => Doc::Dict((0..k).map(|i| (format!("key with a long name {i}"), Doc::Null)).collect()),
                _ => Doc::Arr(vec![Doc::Arr((0..k).map(|i| Doc::Int((i % 2048) as i128)).collect()), Doc::Str("tail".into())]),
            };
            if k == mid {
                note(&d);
            }
            st::hit("counts_swept");
            both(&d, r).map_err(|e| format!("collection of {k} elements, form {}: {e}", n % 6))?;
        }
        return Ok(hash64(&c.case.to_le_bytes()) | 1);
    }
    let d = match r.below(6) {
        0 => gen::count_doc(r, if thorough { 70_000 } else { 20_000 }),
        1 => {
            // Several collections which are each near a limit.
            Doc::Arr((0..r.range(2, 4)).map(|_| gen::distance_doc(r)).collect())
        }
        _ => gen::distance_doc(r),
    };
    note(&d);
    both(&d, r)?;
    Ok(fp(&d))
}

/// Encode with and without shared keys, and read back.
fn both(d: &Doc, r: &mut Rng) -> R {
    let b = drive::exact(&drive::bytes(d, r)?);
    observe::expect("read back", open(&b)?, observe::FULL, d)?;
    if r.one_in(3) {
        let s = drive::scoped(d, SharedKeys::new(), r)?;
        let Some(v) = s.root() else { return Err("a document with shared keys has no root".into()) };
        observe::expect("read back with shared keys", v.value(), observe::Opt { sk: s.shared_keys().map(|x| &**x), probes: true }, d)?;
    }
    Ok(())
}

enum Open {
    Arr(Vec<Doc>),
    Dict(BTreeMap<String, Doc>, Option<String>),
}

/// Calls which are out of place are rejected and have no effect, all others are accepted.
pub fn c03(r: &mut Rng, c: Ctx) -> R<u64> {
    let mut enc = Encoder::new();
    let shared = r.one_in(3);
    if shared {
        enc.set_shared_keys(SharedKeys::new());
    }
    let mut stack: Vec<Open> = vec![];
    let mut root: Option<Doc> = None;
    let mut log = String::new();
    let steps = if c.tiny() { r.range(1, 25) } else { *r.pick(&[3, 10, 30, 100, 300]) };
    let wild = *r.pick(&[1, 3, 10]);
    let bulky = !c.tiny() && r.one_in(8);
    let mut bulk = 0;
    // many collections open at once
    let mut deep = if !c.tiny() && r.one_in(30) { *r.pick(&[66, 130, 258, 258, 300, 520]) } else { 0 };
    let steps = steps + 3 * deep;
    // what has been read from elsewhere, for write_fleece
    let other = gen::small_doc(r);
    let other_bytes = drive::bytes(&other, r)?;
    let other_value = open(&other_bytes)?;
    let (mut rejected, mut accepted) = (0_u64, 0_u64);

    fn put(stack: &mut [Open], root: &mut Option<Doc>, d: Doc) {
        match stack.last_mut() {
            Some(Open::Arr(a)) => a.push(d),
            Some(Open::Dict(m, k)) => {
                if let Some(k) = k.take() {
                    m.insert(k, d);
                }
            }
            None => *root = Some(d),
        }
    }
    fn close(o: Open) -> Doc {
        match o {
            Open::Arr(a) => Doc::Arr(a),
            Open::Dict(m, _) => Doc::Dict(m),
        }
    }
    for _ in 0..steps {
        // Mostly sensible calls, sometimes any.
        let can_value = match stack.last() {
            None => false,
            Some(Open::Arr(_)) => true,
            Some(Open::Dict(_, k)) => k.is_some(),
        };
        let can_begin = if stack.is_empty() { root.is_none() } else { can_value };
        let op = if stack.len() < deep && !r.one_in(8) {
            if !can_begin { 2 } else { r.below(2) }
        } else if bulk > 0 && !stack.is_empty() && r.bool() {
            6 // close what is large
        } else if r.one_in(wild) || (root.is_some() && stack.is_empty()) {
            r.below(7)
        } else if !can_value && !stack.is_empty() {
            if r.one_in(4) { 6 } else { 2 }
        } else {
            match r.below(10) {
                0 | 1 => 0,
                2 | 3 => 1,
                4 => 5,
                5 => 6,
                6 => 4,
                _ => 3,
            }
        };
        if deep > 0 && stack.len() >= deep {
            st::hit("deep_sequences");
            // at this depth for a while, then back
            if r.one_in(40) {
                deep = 0;
            }
        } else if root.is_some() {
            deep = 0;
        }
        let state = match stack.last() {
            None => 'n',
            Some(Open::Arr(_)) => 'a',
            Some(Open::Dict(_, None)) => 'k',
            Some(Open::Dict(_, Some(_))) => 'v',
        };
        let (name, want, got) = match op {
            0 => {
                // The capacity is only a hint
                let got = enc.begin_array(if r.one_in(8) { *r.pick(&[usize::MAX, usize::MAX / 4, isize::MAX as usize, 1 << 44, 70_000]) } else { r.below(20) });
                if can_begin {
                    stack.push(Open::Arr(vec![]));
                }
                ("begin_array".to_string(), can_begin, got)
            }
            1 => {
                let got = enc.begin_dict();
                if can_begin {
                    stack.push(Open::Dict(BTreeMap::new(), None));
                }
                ("begin_dict".to_string(), can_begin, got)
            }
            2 => {
                let k = gen::key(r);
                if let Some(Open::Dict(m, None)) = stack.last() {
                    if m.contains_key(&k) {
                        continue;
                    }
                }
                let want = matches!(stack.last(), Some(Open::Dict(_, None)));
                let got = enc.write_key(&k);
                if want {
                    if let Some(Open::Dict(_, p)) = stack.last_mut() {
                        *p = Some(k.clone());
                    }
                }
                (format!("write_key({} bytes)", k.len()), want, got)
            }
            3 if bulky && bulk < 4 && can_value && r.one_in(3) => {
                // much at once, so that pointers to what is before, or to the root, need to be wide
                st::hit("bulk_writes");
                bulk += 1;
                let d = match stack.last() {
                    Some(Open::Arr(_)) if r.bool() => {
                        let n = r.range(2000, 9000);
                        let mut res = Ok(());
                        for i in 0..n {
                            res = res.and(enc.write_value((i % 2000) as i32));
                            put(&mut stack, &mut root, Doc::Int((i % 2000) as i128));
                        }
                        if let Err(e) = res {
                            return Err(format!("one of {n} values is rejected: {e}"));
                        }
                        Doc::Bool(true)
                    }
                    _ => {
                        let n = r.range(16_000, 40_000);
                        Doc::Str("much ".repeat(n / 5))
                    }
                };
                let got = drive::write_leaf(&mut enc, &d, r);
                put(&mut stack, &mut root, d);
                ("much".to_string(), true, got)
            }
            3 => {
                let d = if c.tiny() { gen::leaf_small(r) } else { gen::leaf(r) };
                let got = drive::write_leaf(&mut enc, &d, r);
                let n = format!("write_value({})", d.kind());
                if can_value {
                    put(&mut stack, &mut root, d);
                }
                (n, can_value, got)
            }
            4 => {
                // some value of the other document
                let (v, d): (&Value, Doc) = match (r.below(3), other_value.as_array(), &other) {
                    (0, Some(a), Doc::Arr(docs)) if !docs.is_empty() => {
                        let i = r.below(docs.len());
                        (&a[i], docs[i].clone())
                    }
                    _ => (other_value, other.clone()),
                };
                let want = if d.is_collection() { can_begin } else { can_value };
                let got = enc.write_fleece(v);
                let n = format!("write_fleece({})", d.kind());
                if want {
                    put(&mut stack, &mut root, d);
                }
                (n, want, got)
            }
            5 => {
                let want = matches!(stack.last(), Some(Open::Arr(_)));
                let got = enc.end_array();
                if want {
                    if let Some(o) = stack.pop() {
                        put(&mut stack, &mut root, close(o));
                    }
                }
                ("end_array".to_string(), want, got)
            }
            _ => {
                let want_arr = matches!(stack.last(), Some(Open::Arr(_)));
                let is_dict = matches!(stack.last(), Some(Open::Dict(_, None)));
                if want_arr && !r.one_in(wild) {
                    let got = enc.end_array();
                    if let Some(o) = stack.pop() {
                        put(&mut stack, &mut root, close(o));
                    }
                    ("end_array".to_string(), true, got)
                } else {
                    let got = enc.end_dict();
                    if is_dict {
                        if let Some(o) = stack.pop() {
                            put(&mut stack, &mut root, close(o));
                        }
                    }
                    ("end_dict".to_string(), is_dict, got)
                }
            }
        };
        if log.len() < 1500 {
            log.push_str(&format!(" {name}{}", if want { "" } else { "!" }));
        }
        if want {
            accepted += 1;
        } else {
            rejected += 1;
        }
        if want != got.is_ok() {
            st::describe(|| log.clone());
            return Err(format!("{name} with {} open collections {}: {:?}", stack.len(), if want { "is rejected" } else { "is accepted" }, got.err()));
        }
        if let Err(e) = got {
            // The reason is that of the rule which was broken
            use fleece::encoder::EncodeError as E;
            let what = name.split('(').next().unwrap_or_default();
            let ok = match (what, state) {
                ("write_key", 'n' | 'a') => matches!(e, E::DictNotOpen),
                ("write_key", _) => matches!(e, E::DictWaitingForValue),
                ("end_array", _) => matches!(e, E::ArrayNotOpen),
                ("end_dict", 'v') => matches!(e, E::DictWaitingForValue),
                ("end_dict", _) => matches!(e, E::DictNotOpen),
                (_, 'k') => matches!(e, E::DictWaitingForKey),
                ("begin_array" | "begin_dict" | "write_fleece", 'n') => matches!(e, E::MultiTopLevelCollection | E::CollectionNotOpen),
                ("write_value", 'n') => matches!(e, E::CollectionNotOpen),
                _ => false,
            };
            if !ok || e.to_string().is_empty() {
                st::describe(|| log.clone());
                return Err(format!("{name} in state {state:?} is rejected as {e:?}"));
            }
        }
    }
    st::add("calls_accepted", accepted);
    st::add("calls_rejected", rejected);
    st::hit("call_sequences");
    // finish closes what is open, and drops a key without a value
    if !stack.is_empty() {
        st::hit("sequences_with_unclosed_collections");
    }
    let unclosed = stack.len();
    while let Some(o) = stack.pop() {
        put(&mut stack, &mut root, close(o));
    }
    log.push_str(&format!(" finish (with {unclosed} open)"));
    st::describe(|| log.clone());
    let Some(want) = root else {
        let (n, e) = if shared {
            let s = enc.finish_scoped();
            (s.data().map_or(0, |d| d.len()), s.root().is_none())
        } else {
            (enc.finish().len(), true)
        };
        ensure!(n == 0 && e, "nothing was written, but the output is {n} bytes");
        return Ok(0);
    };
    if shared {
        let s = enc.finish_scoped();
        let Some(v) = s.root() else { return Err("the document has no root".into()) };
        observe::expect("after the calls", v.value(), observe::Opt { sk: s.shared_keys().map(|x| &**x), probes: true }, &want)?;
    } else if r.bool() {
        let b = enc.finish();
        observe::expect("after the calls", open(&b)?, observe::FULL, &want)?;
    } else {
        let v = enc.finish_value();
        observe::expect("after the calls", v.value(), observe::FULL, &want)?;
    }
    Ok((hash64(log.as_bytes()) ^ want.fp()) | 1)
}

fn same_shape(want: &Doc, what: &str, arr: Option<&Array>, dict: Option<&Dict>) -> R {
    match want {
        Doc::Arr(_) => {
            let Some(a) = arr else { return Err(format!("{what}: an array is not opened as an array")) };
            ensure!(dict.is_none(), "{what}: an array is opened as a dict");
            check(what, observe::array(a, observe::FULL)?, want)
        }
        Doc::Dict(_) => {
            let Some(d) = dict else { return Err(format!("{what}: a dict is not opened as a dict")) };
            ensure!(arr.is_none(), "{what}: a dict is opened as an array");
            check(what, observe::dict(d, observe::FULL)?, want)
        }
        _ => {
            ensure!(arr.is_none() && dict.is_none(), "{what}: a {} is opened as a collection", want.kind());
            Ok(())
        }
    }
}

pub fn check(what: &str, got: Doc, want: &Doc) -> R {
    match want.diff(&got) {
        None => {
            st::hit("documents_compared");
            Ok(())
        }
        Some(d) => Err(format!("{what}: {d}")),
    }
}

/// All ways to build and to open a document agree.
pub fn c04(r: &mut Rng, c: Ctx) -> R<u64> {
    if c.case % 4 == 3 {
        return macros(r);
    }
    let d = some_doc(r, c);
    note(&d);
    // The same calls give the same bytes
    let w = r.u64();
    let encode = |mut enc: Encoder| -> R<Encoder> {
        drive::write(&mut enc, &d, &mut Rng::new(&[w])).map_err(e2s)?;
        Ok(enc)
    };
    let b1 = encode(Encoder::new())?.finish();
    ensure!(b1 == encode(Encoder::default())?.finish(), "the same calls give different bytes");
    let fv = encode(Encoder::new())?.finish_value();
    observe::expect("finish_value", fv.value(), observe::FULL, &d)?;
    let sc = encode(Encoder::new())?.finish_scoped();
    ensure!(sc.data().as_deref() == Some(&b1[..]), "finish_scoped without shared keys gives other bytes than finish");
    ensure!(sc.shared_keys().is_none(), "finish_scoped without shared keys has shared keys");
    let Some(sr) = sc.root() else { return Err("finish_scoped: no root".into()) };
    observe::expect("finish_scoped", sr.value(), observe::FULL, &d)?;
    // Appending to other data
    let prefix: Vec<u8> = (0..r.below(80)).map(|_| r.u64() as u8).collect();
    let b2 = encode(Encoder::new_to_vec(prefix.clone()))?.finish();
    ensure!(b2[..prefix.len()] == prefix[..], "new_to_vec changes the data before");
    // after an odd number of bytes there is one of padding
    ensure!(b2[prefix.len().next_multiple_of(2)..] == b1[..], "new_to_vec with {} bytes before gives other bytes", prefix.len());
    st::hit(if prefix.len() % 2 == 0 { "written_after_other_data" } else { "written_after_odd_data" });
    observe::expect("new_to_vec", open(&b2)?, observe::FULL, &d)?;
    // Another order of the keys
    let b3 = drive::bytes(&d, r)?;
    observe::expect("another order of keys", open(&b3)?, observe::FULL, &d)?;
    st::hit("constructions_compared");

    // Opening, including from documents laid out otherwise, with a scalar at the root, or invalid.
    let (b, d) = match r.below(4) {
        0 => {
            let d = gen::leaf_small(r);
            (refenc::encode(&d, None, refenc::Style::random(r), r), d)
        }
        1 => (refenc::encode(&d, None, refenc::Style::random(r), r), d),
        _ => (b1, d),
    };
    let b = drive::exact(&b);
    let v = open(&b)?;
    observe::expect("from_bytes", v, observe::FULL, &d)?;
    let u = unsafe { Value::from_bytes_unchecked(&b) };
    ensure!(observe::addr(u) == observe::addr(v), "from_bytes_unchecked finds another root than from_bytes");
    observe::expect("from_bytes_unchecked", u, observe::FULL, &d)?;
    let cl = Value::clone_from_bytes(&b).map_err(|e| format!("clone_from_bytes: {e}"))?;
    let cu = unsafe { Value::clone_from_bytes_unchecked(&b) };
    let sc = Scope::new(b.to_vec(), None);
    let sc_root = sc.root().ok_or("a scope of valid data has no root")?;
    let aa = Array::from_bytes(&b);
    let ad = Dict::from_bytes(&b);
    ensure!(aa.is_ok() || matches!(aa, Err(DecodeError::IsNotArray)), "Array::from_bytes of a {}: {:?}", d.kind(), aa.err());
    ensure!(ad.is_ok() || matches!(ad, Err(DecodeError::IsNotDict)), "Dict::from_bytes of a {}: {:?}", d.kind(), ad.err());
    same_shape(&d, "Array/Dict::from_bytes", aa.ok(), ad.ok())?;
    let ca = Array::clone_from_bytes(&b);
    let cd = Dict::clone_from_bytes(&b);
    ensure!(ca.is_ok() || matches!(ca, Err(DecodeError::IsNotArray)), "Array::clone_from_bytes of a {}: {:?}", d.kind(), ca.err());
    ensure!(cd.is_ok() || matches!(cd, Err(DecodeError::IsNotDict)), "Dict::clone_from_bytes of a {}: {:?}", d.kind(), cd.err());
    same_shape(&d, "from_bytes, as_array/as_dict", v.as_array(), v.as_dict())?;
    drop(b);
    same_shape(&d, "Array/Dict::clone_from_bytes", ca.as_ref().ok().map(|x| x.value()), cd.as_ref().ok().map(|x| x.value()))?;
    observe::expect("clone_from_bytes", cl.value(), observe::FULL, &d)?;
    observe::expect("clone_from_bytes_unchecked", &cu, observe::FULL, &d)?;
    observe::expect("Scope::new", sc_root.value(), observe::FULL, &d)?;
    let cl2 = cl.clone();
    ensure!(cl == cl2 && cl != cu, "equality of owned values");
    let (ta, td): (Option<AllocedArray>, Option<AllocedDict>) = (cl.to_array(), cl2.to_dict());
    same_shape(&d, "to_array/to_dict of an owned value", ta.as_deref(), td.as_deref())?;
    st::hit("openings_compared");
    Ok(fp(&d))
}

fn macros(r: &mut Rng) -> R<u64> {
    let (i, f, b) = (gen::int(r).clamp(i64::MIN.into(), i64::MAX.into()) as i64, gen::f64_(r), r.bool());
    let (s1, s2) = (gen::string(r), gen::string(r));
    let (s1, s2) = (s1.as_str(), s2.as_str());
    let data_ = gen::data(r);
    let data = &data_[..];
    let none: Option<i64> = None;
    let u = gen::int(r).clamp(0, u64::MAX.into()) as u64;
    let (i_, f_, b_, s1_, s2_, d_, u_) = (Doc::Int(i.into()), Doc::F64(f), Doc::Bool(b), Doc::Str(s1.into()), Doc::Str(s2.into()), Doc::Data(data.to_vec()), Doc::Int(u.into()));
    fn dict(p: Vec<(&str, Doc)>) -> Doc {
        Doc::Dict(p.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    fn arr(v: Vec<Doc>) -> Doc {
        Doc::Arr(v)
    }
    let k = r.below(9);
    let (got, want): (R<Doc>, Doc) = match k {
        0 => (observe::dict(&fleece!{ "i": i, "f": f, "b": b, "text": s1, "s2": s2, "data": data, "none": none, "u": u }, observe::FULL),
            dict(vec![("i", i_), ("f", f_), ("b", b_), ("text", s1_), ("s2", s2_), ("data", d_), ("none", Doc::Null), ("u", u_)])),
        1 => (observe::array(&fleece![i, f, b, s1, data, none, u, s2], observe::FULL), arr(vec![i_, f_, b_, s1_, d_, Doc::Null, u_, s2_])),
        2 => (observe::dict(&fleece!{ "nested": { "a": i, "deeper": { "x": [ s1, s2 ], "y": {} } }, "list": [ i, [ f, [ b ] ], { "k": s1 } ], "empty": [], "": u }, observe::FULL),
            dict(vec![("nested", dict(vec![("a", i_.clone()), ("deeper", dict(vec![("x", arr(vec![s1_.clone(), s2_])), ("y", dict(vec![]))]))])),
                ("list", arr(vec![i_, arr(vec![f_, arr(vec![b_])]), dict(vec![("k", s1_)])])), ("empty", arr(vec![])), ("", u_)])),
        3 => (observe::array(&fleece![ [ i ], [], [ [ [ s1, f ] ] ], { "a": [ { "b": u } ], "c key that is longer than the others": data }, {} ], observe::FULL),
            arr(vec![arr(vec![i_]), arr(vec![]), arr(vec![arr(vec![arr(vec![s1_, f_])])]), dict(vec![("a", arr(vec![dict(vec![("b", u_)])])), ("c key that is longer than the others", d_)]), dict(vec![])])),
        4 => (observe::dict(&fleece!{ "z": i, "y": s1, "x": f, "a": s2, "m": data, }, observe::FULL), dict(vec![("z", i_), ("y", s1_), ("x", f_), ("a", s2_), ("m", d_)])),
        5 => (observe::array(&fleece![ { "only": { "one": { "key": i } } }, ], observe::FULL), arr(vec![dict(vec![("only", dict(vec![("one", dict(vec![("key", i_)]))]))])])),
        6 => (observe::dict(&fleece!{ "lit": 12345, "neg": (-7), "s": "literal text", "t": true, "fl": 2.5 }, observe::FULL),
            dict(vec![("lit", Doc::Int(12345)), ("neg", Doc::Int(-7)), ("s", Doc::Str("literal text".into())), ("t", Doc::Bool(true)), ("fl", Doc::F64(2.5))])),
        7 => (observe::array(&fleece![ 1, "two", 3.5, false, [ 4, "five" ], { "six": 7 } ], observe::FULL),
            arr(vec![Doc::Int(1), Doc::Str("two".into()), Doc::F64(3.5), Doc::Bool(false), arr(vec![Doc::Int(4), Doc::Str("five".into())]), dict(vec![("six", Doc::Int(7))])])),
        _ => (observe::dict(&fleece!{ "people": [ { "name": s1, "age": i, "tags": [ "a", s2 ] }, { "name": s2, "age": u, "tags": [] } ], "count": 2 }, observe::FULL),
            dict(vec![("people", arr(vec![dict(vec![("name", s1_.clone()), ("age", i_), ("tags", arr(vec![Doc::Str("a".into()), s2_.clone()]))]), dict(vec![("name", s2_), ("age", u_), ("tags", arr(vec![]))])])), ("count", Doc::Int(2))])),
    };
    note(&want);
    st::hit("macro_documents");
    check(&format!("fleece! (form {k})"), got.map_err(|e| format!("fleece! (form {k}): {e}"))?, &want)?;
    // without anything inside
    let (e1, e2) = (fleece!{}, fleece![]);
    let _ = &e2;
    let _ = &e1;
    Ok(want.fp() | 1)
}

/// Numbers keep their value, whichever type, position or path is used to write them.
pub fn c05(r: &mut Rng, c: Ctx) -> R<u64> {
    let n = if c.tiny() { 6 } else { 150 };
    let mut docs: Vec<Doc> = vec![];
    // All of the 16-bit integers, in 512 cases.
    if c.case < 512 && !c.tiny() {
        for i in 0..192_i128 {
            docs.push(Doc::Int(c.case as i128 * 192 + i - 32768));
        }
        st::add("small_integers_enumerated", 192);
    } else {
        for _ in 0..n {
            docs.push(match r.below(6) {
                0 => Doc::F64(gen::f64_(r)),
                1 => Doc::F32(gen::f32_(r)),
                2 if r.one_in(8) => Doc::Bool(r.bool()),
                _ => Doc::Int(gen::int(r)),
            });
        }
    }
    let want = Doc::Arr(docs.clone());
    note(&want);
    for pick in 0..10 {
        let mut enc = Encoder::new();
        let far = r.one_in(4);
        (|| {
            enc.begin_array(0)?;
            if far {
                // a wide array
                enc.write_value("w".repeat(17_000).as_str())?;
            }
            for d in &docs {
                match d {
                    Doc::Int(i) => drive::write_int(&mut enc, *i, pick, r.below(4))?,
                    d => drive::write_leaf(&mut enc, d, r)?,
                }
            }
            enc.end_array()
        })().map_err(e2s)?;
        let b = drive::exact(&enc.finish());
        let v = open(&b)?;
        let Some(a) = v.as_array() else { return Err("an array of numbers is not an array".into()) };
        let off = usize::from(far);
        ensure!(a.len() == docs.len() + off, "an array of {} numbers has {} elements", docs.len() + off, a.len());
        for (i, d) in docs.iter().enumerate() {
            let g = observe::scalar(&a[i + off])?;
            st::hit("numbers_compared");
            let Some(g) = g else { return Err(format!("{} is read as a collection", d.brief())) };
            if let Some(e) = d.diff(&g) {
                return Err(format!("{} (written as type {pick}{}): {e}", d.brief(), if far { ", wide" } else { "" }));
            }
        }
        if pick % 5 == 0 {
            // through a copy to another document, and a mutable array
            let mut enc = Encoder::new();
            enc.write_fleece(v).map_err(e2s)?;
            let b2 = enc.finish();
            let a2 = Array::from_bytes(&b2).map_err(|e| format!("re-encoded numbers: {e}"))?;
            let m = a.to_mutable();
            for (i, d) in docs.iter().enumerate() {
                for (how, v) in [("re-encoded", a2.get(i + off)), ("mutable copy", m.get(i + off))] {
                    let Some(v) = v else { return Err(format!("{how}: element {i} is missing")) };
                    let Some(g) = observe::scalar(v)? else { return Err(format!("{how}: {} is a collection", d.brief())) };
                    if let Some(e) = d.diff(&g) {
                        return Err(format!("{how} {}: {e}", d.brief()));
                    }
                    st::hit("numbers_compared");
                }
            }
        }
    }
    // stored in mutable collections, by every type
    let mut m = fleece::MutableArray::new();
    let mut md = fleece::MutableDict::new();
    let mut want = vec![];
    for d in docs.iter().take(80) {
        macro_rules! types { ($i:expr; $($t:ty),*) => { $( if let Ok(x) = <$t>::try_from($i) { m.push(&x); md.insert(&format!("{:05}", want.len()), x); want.push(d); } )* } }
        match d {
            Doc::Int(i) => { types!(*i; i8, u8, i16, u16, i32, u32, i64, u64, isize, usize); }
            Doc::F32(f) => {
                m.push(f);
                md.insert(&format!("{:05}", want.len()), *f);
                want.push(d);
            }
            Doc::F64(f) => {
                m.push(f);
                md.insert(&format!("{:05}", want.len()), *f);
                want.push(d);
            }
            _ => {}
        }
    }
    for (i, d) in want.iter().enumerate() {
        for (how, v) in [("array", m.get(i)), ("dict", md.get(&format!("{i:05}")))] {
            let Some(v) = v else { return Err(format!("a number in a mutable {how} is missing")) };
            let Some(g) = observe::scalar(v)? else { return Err("a number in a mutable collection is a collection".into()) };
            st::hit("numbers_compared");
            if let Some(e) = d.diff(&g) {
                return Err(format!("in a mutable {how}, {}: {e}", d.brief()));
            }
        }
    }
    Ok(Doc::Arr(docs).fp() | 1)
}

/// A key which the shared keys have room for.
pub fn eligible(k: &str) -> bool {
    k.len() <= 16 && k.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-')
}

/// The output follows the wire format.
pub fn c09(r: &mut Rng, c: Ctx) -> R<u64> {
    let d = some_doc(r, c);
    note(&d);
    let b = drive::bytes(&d, r)?;
    let (got, _) = refdec::strict(&b, None)?;
    check("independent decoder", got, &d)?;
    let mut sk = SharedKeys::new();
    if r.one_in(3) {
        for _ in 0..r.below(60) {
            let k = gen::shareable_key(r);
            sk.encode_and_insert(&k);
        }
        if r.one_in(6) {
            let n = match r.below(4) {
                0 => 2048 - r.below(100) as u16,
                1 => r.range(900, 2047) as u16,
                _ => 2048 - r.below(6) as u16,
            };
            while sk.len() < n {
                let k = format!("fill{}", sk.len());
                if sk.encode_and_insert(&k).is_none() {
                    return Err(format!("{k:?} is not added to {} shared keys", sk.len()));
                }
            }
        }
    }
    let had = sk.len();
    let s = drive::scoped(&d, sk, r)?;
    let Some(table) = s.shared_keys() else { return Err("no shared keys".into()) };
    let keys: Vec<String> = (0..table.len()).map_while(|i| table.decode(i).map(str::to_string)).collect();
    ensure!(keys.len() == usize::from(table.len()), "the shared key {} of {} can't be decoded", keys.len(), table.len());
    st::add("shared_keys_added", u64::from(table.len() - had.min(table.len())));
    let Some(data) = s.data() else { return Err("no data".into()) };
    let (got, _) = refdec::strict(&data, Some(&keys)).map_err(|e| format!("with shared keys: {e}"))?;
    check("independent decoder, with shared keys", got, &d)?;
    // every key that can be shared is, as long as there is room
    fn all<'a>(d: &'a Doc, f: &mut impl FnMut(&'a str)) {
        match d {
            Doc::Arr(a) => a.iter().for_each(|x| all(x, f)),
            Doc::Dict(m) => m.iter().for_each(|(k, v)| {
                f(k);
                all(v, f);
            }),
            _ => {}
        }
    }
    if table.len() < 2048 {
        let mut missing = None;
        all(&d, &mut |k| {
            // Keys of at most one byte are written inline when they are not in the table.
            if k.len() > 1 && eligible(k) != keys.iter().any(|x| x == k) && missing.is_none() {
                missing = Some(k);
            }
        });
        if let Some(k) = missing {
            return Err(format!("the key {k:?} is {}in the {} shared keys", if eligible(k) { "not " } else { "" }, keys.len()));
        }
    }
    Ok(fp(&d))
}

