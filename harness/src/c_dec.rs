//! C06–C08: what a reader does with data from elsewhere.
use crate::c_enc::{check, open};
use crate::doc::Doc;
use crate::refdec::{Raw, Walk, WalkErr};
use crate::rng::{hash64, Rng};
use crate::st::{self, R};
use crate::{drive, dynser, ensure, gen, malform, observe, refenc, Ctx};
use fleece::{Array, Dict, Encoder, Scope, SharedKeys, Value};
use std::collections::HashMap;
use std::sync::Arc;

pub enum Kind {
    /// Too many values to visit
    Skip,
    /// A reader would leave the data
    Bad(String),
    Good(Raw),
}

pub fn classify(b: &[u8], budget: usize) -> Kind {
    if b.len() < 2 || b.len() % 2 != 0 {
        return Kind::Bad("the size is wrong".into());
    }
    if b.len() > 2 && b[b.len() - 2] & 0x80 == 0 {
        return Kind::Bad("the trailer is not a pointer".into());
    }
    let mut w = Walk::new(b, budget);
    let r = w.root();
    st::max("walk_visits_max", w.visits as u64);
    match r {
        Ok(raw) => Kind::Good(raw),
        Err(WalkErr::TooBig) => Kind::Skip,
        Err(WalkErr::Outside(s)) => Kind::Bad(s),
    }
}

fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(240).map(|x| format!("{x:02x}")).collect();
    if b.len() > 240 {
        s.push_str(&format!("… ({} bytes)", b.len()));
    }
    s
}

/// Opening any bytes ends with a value or an error, and always the same.
pub fn c06(r: &mut Rng, c: Ctx) -> R<u64> {
    if c.case < 512 && !c.tiny() {
        let mut n = 0;
        malform::enumerated(c.case, |b| {
            n += 1;
            total(b, &mut Rng::new(&[c.case, n]))
        })?;
        st::add("inputs_enumerated", n);
        return Ok(hash64(&c.case.to_le_bytes()) | 1);
    }
    if c.case % 400 == 7 && !c.tiny() {
        // A chain of pointers as long as the data
        let n = *r.pick(&[1000, 50_000, if c.thorough { 2_000_000 } else { 300_000 }]);
        let mut b = vec![0x00, 0x07, 0x00, 0x00];
        for _ in 0..n {
            b.extend([0x80, 0x00, 0x00, 0x02]);
        }
        b.extend([0x80, 0x02]);
        let v = open(&b).map_err(|e| format!("a chain of {n} pointers: {e}"))?;
        ensure!(v.to_int() == 7, "a chain of {n} pointers ends at {:?}", v.value_type());
        st::hit("long_pointer_chains");
    }
    let mut fp = 1;
    for _ in 0..if c.tiny() { 4 } else { 60 } {
        let b = malform::any(r, c.tiny());
        fp ^= hash64(&b).rotate_left(7);
        total(&b, r)?;
    }
    Ok(fp | 1)
}

fn total(bytes: &[u8], r: &mut Rng) -> R {
    let b = drive::exact(bytes);
    st::describe(|| hex(bytes));
    st::hit("inputs");
    match classify(&b, 20_000) {
        // C07 is about whether bad data is rejected
        Kind::Good(_) => st::hit("inputs_well_formed"),
        Kind::Bad(_) => st::hit("inputs_malformed"),
        Kind::Skip => {
            st::hit("inputs_skipped");
            return Ok(());
        }
    }
    let r1 = Value::from_bytes(&b);
    let ok = r1.is_ok();
    st::hit(if ok { "inputs_accepted" } else { "inputs_rejected" });
    if b.is_empty() || b.len() % 2 == 1 {
        ensure!(!ok, "data of {} bytes is accepted", b.len());
    }
    let at = r1.as_ref().ok().map(|v| observe::addr(v) - b.as_ptr() as usize);
    let e1 = match &r1 {
        Err(e) => format!("{e} {e:?}"),
        Ok(_) => String::new(),
    };
    ensure!(ok || e1.len() > 2, "an error without a message");
    let r2 = Value::from_bytes(&b);
    ensure!(r2.is_ok() == ok, "the second time, the same data is {}", if ok { "rejected" } else { "accepted" });
    ensure!(&b[..] == bytes, "opening changes the data");
    // At another address, aligned or not
    let shift = r.below(4);
    let mut moved = vec![0x80; shift];
    moved.extend(bytes);
    let moved = moved.into_boxed_slice();
    let r3 = Value::from_bytes(&moved[shift..]);
    ensure!(r3.is_ok() == ok, "at another address, the same data is {}", if ok { "rejected" } else { "accepted" });
    ensure!(r3.ok().map(|v| observe::addr(v) - moved[shift..].as_ptr() as usize) == at, "at another address, the root is elsewhere");
    let cl = Value::clone_from_bytes(&b);
    ensure!(cl.is_ok() == ok, "clone_from_bytes {} what from_bytes {}", if ok { "rejects" } else { "accepts" }, if ok { "accepts" } else { "rejects" });
    let (ia, id) = r1.as_ref().map(|v| (v.as_array().is_some(), v.as_dict().is_some())).unwrap_or_default();
    ensure!(Array::from_bytes(&b).is_ok() == ia && Array::clone_from_bytes(&b).is_ok() == ia, "Array::from_bytes disagrees with Value::from_bytes");
    ensure!(Dict::from_bytes(&b).is_ok() == id && Dict::clone_from_bytes(&b).is_ok() == id, "Dict::from_bytes disagrees with Value::from_bytes");
    for e in [Array::from_bytes(&b).err(), Dict::from_bytes(&b).err()].into_iter().flatten() {
        let _ = format!("{e} {e:?}");
    }
    let sc = Scope::new(bytes.to_vec(), None);
    ensure!(sc.root().is_some() == ok, "a scope of {} data has {} root", if ok { "valid" } else { "invalid" }, if ok { "no" } else { "a" });
    ensure!(sc.data().as_deref() == Some(bytes), "a scope has other data than it was given");
    let sk = SharedKeys::from_state_bytes(&b);
    ensure!(sk.is_none() || ia, "shared keys are read from data which is not an array");
    if let Some(sk) = sk {
        st::hit("states_accepted");
        ensure!(sk.len() <= 2048, "{} shared keys", sk.len());
    }
    let any: Result<serde::de::IgnoredAny, _> = fleece::from_bytes(&b);
    ensure!(ok || any.is_err(), "deserialization accepts what from_bytes rejects");
    if let Err(e) = any {
        let _ = format!("{e} {e:?}");
    }
    Ok(())
}

/// Whatever is accepted can be read without leaving the data.
pub fn c07(r: &mut Rng, c: Ctx) -> R<u64> {
    if c.case < 512 && !c.tiny() {
        let mut n = 0;
        malform::enumerated(c.case, |b| {
            n += 1;
            safe(b, &mut Rng::new(&[c.case, n])).map(|_| ())
        })?;
        st::add("inputs_enumerated", n);
        return Ok(hash64(&c.case.to_le_bytes()) | 1);
    }
    let mut fp = 0;
    let (mut done, mut tries) = (0, 0);
    let want = if c.tiny() { 2 } else { 30 };
    while done < want && tries < want * 8 {
        tries += 1;
        let b = malform::any(r, c.tiny());
        if safe(&b, r)? {
            done += 1;
            fp ^= hash64(&b).rotate_left(11) | 1;
        }
    }
    Ok(fp)
}

fn safe(bytes: &[u8], r: &mut Rng) -> R<bool> {
    let mut shifted;
    let shift = if r.one_in(3) { r.below(4) } else { 0 };
    shifted = vec![0xEE_u8; shift];
    shifted.extend(bytes);
    let shifted = shifted.into_boxed_slice();
    let b = &shifted[shift..];
    st::describe(|| hex(bytes));
    st::hit("inputs");
    let raw = match classify(b, 20_000) {
        Kind::Skip => {
            st::hit("inputs_skipped");
            return Ok(false);
        }
        Kind::Bad(why) => {
            if Value::from_bytes(b).is_ok() {
                return Err(format!("data is accepted although reading it leads out of it: {why}"));
            }
            st::hit("inputs_which_lead_outside_rejected");
            return Ok(false);
        }
        Kind::Good(raw) => raw,
    };
    let Ok(v) = Value::from_bytes(b) else {
        st::hit("inputs_rejected_for_other_reasons");
        return Ok(false);
    };
    st::hit("inputs_accepted");
    let base = b.as_ptr() as usize;
    read(v, &raw, base, b.len())?;
    let dbg = format!("{v:?}");
    st::add("debug_bytes", dbg.len() as u64);
    // Everything else that reads values
    if let Some(a) = v.as_array() {
        let m = a.to_mutable();
        ensure!(m.len() == a.len(), "a mutable copy of an array of {} has {} elements", a.len(), m.len());
        touch_marray(&m);
        let _ = format!("{m:?}");
    }
    if let Some(d) = v.as_dict() {
        let m = d.to_mutable();
        ensure!(m.len() <= d.len(), "a mutable copy of a dict of {} has {} pairs", d.len(), m.len());
        touch_mdict(&m);
        let _ = format!("{m:?}");
    }
    if v.as_array().is_some() || v.as_dict().is_some() {
        let mut e = Encoder::new();
        if r.bool() {
            e.set_shared_keys(SharedKeys::new());
        }
        e.write_fleece(v).map_err(|e| format!("accepted data is not re-encoded: {e}"))?;
        let out = e.finish();
        ensure!(Value::from_bytes(&out).is_ok(), "re-encoded data is rejected");
        st::hit("values_reencoded");
    }
    let any: Result<dynser::AnyVal, _> = fleece::from_bytes(b);
    if let Ok(x) = any {
        st::add("serde_values_read", x.0 as u64);
    }
    let _ = SharedKeys::from_state_bytes(b);
    let copy = Value::clone_from_bytes(b).map_err(|e| format!("clone_from_bytes of accepted data: {e}"))?;
    let copy2 = copy.clone();
    drop(copy);
    read(&copy2, &raw, observe::addr(&copy2) - (observe::addr(v) - base), b.len())?;
    // With shared keys for its integer keys
    let mut sk = SharedKeys::new();
    let n = match r.below(40) {
        0 => r.range(1000, 2048),
        1 => r.range(200, 1100),
        2 => 2048,
        3..=6 => r.range(12, 60),
        _ => r.below(12),
    };
    st::max("table_of_a_damaged_document_max", n as u64);
    for i in 0..n {
        sk.encode_and_insert(&format!("k{i}"));
    }
    let sc = Scope::new(bytes.to_vec(), Some(Arc::new(sk)));
    if let Some(v) = sc.root() {
        read(&v, &raw, observe::addr(&v) - (observe::addr(Value::from_bytes(b).map_err(|e| e.to_string())?) - base), b.len())?;
        let _ = format!("{:?}", v.value());
        if let Some(d) = v.as_dict() {
            touch_mdict(&d.to_mutable());
        }
    }
    Ok(true)
}

fn touch_marray(m: &fleece::MutableArray) {
    for x in m {
        touch(x.value(), x.array(), x.dict());
    }
}
fn touch_mdict(m: &fleece::MutableDict) {
    for (k, x) in m {
        st::add("mutable_bytes_read", k.len() as u64);
        touch(x.value(), x.array(), x.dict());
    }
}
fn touch(v: Option<&Value>, a: Option<&fleece::MutableArray>, d: Option<&fleece::MutableDict>) {
    if let Some(v) = v {
        let n = v.to_data().iter().fold(0_u64, |a, b| a ^ u64::from(*b)) as i64 ^ v.to_int() ^ v.to_str().len() as i64 ^ v.to_double() as i64;
        st::add("mutable_values_read", 1 + (n & 0) as u64);
    }
    if let Some(a) = a {
        touch_marray(a);
    }
    if let Some(d) = d {
        touch_mdict(d);
    }
}

/// Reads all there is, and follows along in what the reference found.
fn read(v: &Value, raw: &Raw, base: usize, len: usize) -> R {
    st::hit("values_read");
    let at = observe::addr(v);
    ensure!(at >= base && at + 2 <= base + len, "a value outside of the data, at {}", at as isize - base as isize);
    let within = |s: &[u8], what: &str| -> R {
        let p = s.as_ptr() as usize;
        ensure!(s.is_empty() || (p >= base && p + s.len() <= base + len), "{what} outside of the data: {} bytes at {} of {len}", s.len(), p as isize - base as isize);
        std::hint::black_box(s.iter().fold(0_u8, |a, b| a ^ b));
        Ok(())
    };
    within(v.to_data(), "data")?;
    within(v.to_str().as_bytes(), "a string")?;
    ensure!(std::str::from_utf8(v.to_str().as_bytes()).is_ok(), "a string which is not UTF-8");
    std::hint::black_box((v.to_bool(), v.to_int(), v.to_unsigned_int(), v.to_short(), v.to_unsigned_short(), v.to_double(), v.to_float(), v.required_size(), v.len(), v.is_empty()));
    match raw {
        Raw::Scalar(p) => {
            ensure!(at - base == *p, "the value at {p} is read at {}", at - base);
            ensure!(v.as_array().is_none() && v.as_dict().is_none(), "the scalar at {p} is a collection");
        }
        Raw::Arr(items) => {
            let Some(a) = v.as_array() else { return Err("an array is not read as one".into()) };
            ensure!(a.len() == items.len() && a.is_empty() == items.is_empty(), "an array of {} has a length of {}", items.len(), a.len());
            let mut n = 0;
            for (i, x) in a.iter().enumerate() {
                let Some(raw) = items.get(i) else { return Err(format!("an array of {} yields more elements", items.len())) };
                let Some(g) = a.get(i) else { return Err(format!("an array of {}: get({i}) is None", items.len())) };
                ensure!(observe::addr(g) == observe::addr(x), "get({i}) and iteration yield different values");
                read(x, raw, base, len)?;
                n += 1;
            }
            ensure!(n == items.len(), "an array of {} yields {n} elements", items.len());
            for i in [n, n + 1, usize::MAX, usize::MAX / 2 + 1] {
                ensure!(a.get(i).is_none(), "an array of {n}: get({i}) is Some");
            }
        }
        Raw::Dict(items) => {
            let Some(d) = v.as_dict() else { return Err("a dict is not read as one".into()) };
            ensure!(d.len() * 2 == items.len() && d.is_empty() == items.is_empty(), "a dict of {} has a length of {}", items.len() / 2, d.len());
            if let Some((k, x)) = d.first() {
                ensure!(items.len() >= 2, "an empty dict has a first pair");
                read(k, &items[0], base, len)?;
                read(x, &items[1], base, len)?;
            }
            let mut addrs = std::collections::HashSet::new();
            let mut n = 0;
            let mut keys: Vec<String> = vec![];
            for (k, x) in d.iter() {
                ensure!(2 * n + 1 < items.len(), "a dict of {} yields more pairs", items.len() / 2);
                addrs.insert(observe::addr(x));
                read(x, &items[2 * n + 1], base, len)?;
                if keys.len() < 40 {
                    keys.push(k.to_string());
                }
                n += 1;
            }
            keys.extend(["", "a", "k", "k0", "zzz", "\u{10FFFF}", "a key that does not fit inline"].map(String::from));
            for k in keys {
                if let Some(g) = d.get(k.as_str()) {
                    let g = observe::addr(g);
                    ensure!(g >= base && g < base + len, "the key {k:?} yields a value outside of the data");
                    ensure!(addrs.contains(&g) || n * 2 < items.len(), "the key {k:?} yields a value which is not in the dict");
                }
                d.contains_key(k.as_str());
            }
        }
    }
    Ok(())
}

/// A document of the C++ implementation, which shares strings between values.
fn foreign(bytes: &[u8], r: &mut Rng) -> R<u64> {
    let shift = r.below(4);
    let mut v = vec![0xEE; shift];
    v.extend(bytes);
    let v = v.into_boxed_slice();
    let b = &v[shift..];
    let Kind::Good(raw) = classify(b, 1_000_000) else { return Err("HARNESS-PANIC the reference decoder refuses the document of another writer".into()) };
    let Some(d) = crate::refdec::content(b, &raw) else { return Err("HARNESS-PANIC the reference decoder can't read the document of another writer".into()) };
    let root = open(b)?;
    observe::expect("document of another writer", root, observe::FULL, &d)?;
    if bytes.len() < 10_000 || r.one_in(2) {
        read(root, &raw, b.as_ptr() as usize, b.len())?;
    }
    // A part of it, which has its data in all of the document
    let (mut part, mut want) = (root, &d);
    for _ in 0..r.below(4) {
        match (part.as_array(), part.as_dict(), want) {
            (Some(a), _, Doc::Arr(x)) if !x.is_empty() => {
                let i = r.below(x.len());
                (part, want) = (a.get(i).ok_or("no element")?, &x[i]);
            }
            (_, Some(a), Doc::Dict(x)) if !x.is_empty() => {
                let Some((k, d)) = x.iter().nth(r.below(x.len())) else { break };
                let Some(v) = a.get(k.as_str()) else { return Err(format!("document of another writer: no key {k:?}")) };
                if !d.is_collection() {
                    break;
                }
                (part, want) = (v, d);
            }
            _ => break,
        }
    }
    if let (Some(a), Doc::Arr(_)) = (part.as_array(), want) {
        check("mutable copy of a document of another writer", observe::marray(&a.to_mutable())?, want)?;
    }
    if let (Some(x), Doc::Dict(_)) = (part.as_dict(), want) {
        check("mutable copy of a document of another writer", observe::mdict(&x.to_mutable())?, want)?;
    }
    if want.is_collection() {
        let keyed = r.bool();
        let mut e = Encoder::new();
        if keyed {
            e.set_shared_keys(SharedKeys::new());
        }
        e.write_fleece(part).map_err(drive::e2s)?;
        if keyed {
            let s = e.finish_scoped();
            let root = s.root().ok_or("a re-encoded document of another writer is rejected")?;
            observe::expect("re-encoded document of another writer", &root, observe::Opt { sk: s.shared_keys().map(|x| &**x), probes: false }, want)?;
        } else {
            let out = e.finish();
            observe::expect("re-encoded document of another writer", open(&out)?, observe::FULL, want)?;
        }
    }
    st::hit("documents_of_another_writer");
    Ok(hash64(b) ^ want.fp() | 1)
}

/// Every layout which the format allows is read.
pub fn c08(r: &mut Rng, c: Ctx) -> R<u64> {
    if c.case % 500 == 3 && !c.tiny() {
        return foreign(crate::refdec::PEOPLE, r);
    }
    if c.case % 50 == 4 {
        return foreign(crate::refdec::PERSON, r);
    }
    let d = match r.below(10) {
        0 => gen::leaf(r),
        1 => gen::leaf_small(r),
        _ => {
            if c.tiny() {
                gen::small_doc(r)
            } else {
                gen::any_doc(r)
            }
        }
    };
    st::describe(|| format!("{:.600}", format!("{d:?}")));
    let style = refenc::Style::random(r);
    let with_keys = r.one_in(3);
    if !with_keys {
        let b = refenc::encode(&d, None, style, r);
        let shift = if r.one_in(3) { r.below(4) } else { 0 };
        let mut v = vec![0xEE; shift];
        v.extend(&b);
        let v = v.into_boxed_slice();
        let root = open(&v[shift..])?;
        observe::expect("read", root, observe::FULL, &d)?;
        let u = unsafe { Value::from_bytes_unchecked(&v[shift..]) };
        observe::expect("read unchecked", u, observe::FULL, &d)?;
        if let (Some(a), Doc::Arr(_)) = (root.as_array(), &d) {
            check("mutable copy", observe::marray(&a.to_mutable())?, &d)?;
        }
        if let (Some(x), Doc::Dict(_)) = (root.as_dict(), &d) {
            check("mutable copy", observe::mdict(&x.to_mutable())?, &d)?;
        }
        if d.is_collection() {
            let mut e = Encoder::new();
            e.write_fleece(root).map_err(drive::e2s)?;
            let out = e.finish();
            observe::expect("re-encoded", open(&out)?, observe::FULL, &d)?;
        }
        st::hit("layouts_read");
        return Ok(if b.len() > 4 { hash64(&b) | 1 } else { 0 });
    }
    // With some of the keys in a table
    let mut sk = SharedKeys::new();
    let mut table = HashMap::new();
    let mut keys = vec![];
    collect_keys(&d, &mut keys);
    r.shuffle(&mut keys);
    let share = *r.pick(&[30, 70, 100]);
    let unused = if r.one_in(40) { r.range(900, 2040) } else { r.below(40) };
    st::max("keys_before_those_of_the_document_max", unused as u64);
    for i in 0..unused {
        sk.encode_and_insert(&format!("unused{}", if unused > 40 { i } else { r.below(1000) }));
    }
    for k in keys {
        if r.below(100) < share && crate::c_enc::eligible(&k) && sk.len() < 2048 {
            let Some(i) = sk.encode_and_insert(&k) else { return Err(format!("the key {k:?} is not added to {} shared keys", sk.len())) };
            table.insert(k, i);
        }
    }
    let b = refenc::encode(&d, Some(&table), style, r);
    let s = Scope::new(b.clone(), Some(Arc::new(sk)));
    let Some(root) = s.root() else { return Err(format!("valid data with shared keys is rejected: {:?}", Value::from_bytes(&b).err().map(|e| e.to_string()))) };
    observe::expect("read with shared keys", root.value(), observe::Opt { sk: s.shared_keys().map(|x| &**x), probes: true }, &d)?;
    if let Some(a) = root.as_array() {
        check("mutable copy with shared keys", observe::marray(&a.to_mutable())?, &d)?;
    }
    if let Some(x) = root.as_dict() {
        check("mutable copy with shared keys", observe::mdict(&x.to_mutable())?, &d)?;
    }
    st::hit("layouts_with_shared_keys_read");
    Ok(if b.len() > 4 { hash64(&b) | 1 } else { 0 })
}

pub fn collect_keys(d: &Doc, out: &mut Vec<String>) {
    match d {
        Doc::Arr(a) => a.iter().for_each(|x| collect_keys(x, out)),
        Doc::Dict(m) => m.iter().for_each(|(k, v)| {
            if !out.contains(k) || out.len() > 3000 {
                out.push(k.clone());
            }
            collect_keys(v, out);
        }),
        _ => {}
    }
}

/// The defects that are known and not repaired: ends normally if the behaviour is right.
pub fn known(name: &str) {
    match name {
        "deep_nesting" => {
            let mut b = vec![0x60, 0x00];
            for _ in 0..400_000 {
                b.extend([0x60, 0x01, 0x80, (if b.len() == 2 { 4 } else { 6 }) / 2]);
            }
            b.extend([0x80, 0x02]);
            println!("{}", Value::from_bytes(&b).is_ok());
        }
        "shared_subarrays" => {
            let mut b = vec![0x60, 0x00];
            for i in 0..60 {
                b.extend([0x60, 0x02, 0x80, if i == 0 { 2 } else { 4 }, 0x80, if i == 0 { 3 } else { 5 }]);
            }
            b.extend([0x80, 0x03]);
            println!("{}", Value::from_bytes(&b).is_ok());
        }
        "key_outlives_scope" => {
            let mut e = Encoder::new();
            e.set_shared_keys(SharedKeys::new());
            let ok = e.begin_dict().is_ok() && e.write_key("name").is_ok() && e.write_value(1).is_ok() && e.end_dict().is_ok();
            let s = e.finish_scoped();
            if let (true, Some(r)) = (ok, s.root()) {
                let keys: Vec<&str> = r.as_dict().map(|d| d.iter().map(|(k, _)| k).collect()).unwrap_or_default();
                drop(s);
                println!("{keys:?}");
            }
        }
        _ => std::process::exit(2),
    }
}
