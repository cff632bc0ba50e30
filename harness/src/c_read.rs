//! C10 and C11: lookups in dicts, access to arrays.
use crate::c_enc::{eligible, open};
use crate::doc::Doc;
use crate::drive;
use crate::rng::{hash64, Rng};
use crate::st::{self, R};
use crate::{ensure, gen, observe, refenc, Ctx};
use fleece::{Array, Dict, Scope, SharedKeys, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

/// A set of keys in which neighbours are close to each other in the order of the dict.
fn key_set(r: &mut Rng, n: usize) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    let mode = r.below(9);
    let mut tries = 0;
    while s.len() < n && tries < n * 6 + 50 {
        tries += 1;
        let i = s.len();
        let k = match mode {
            // every prefix of one string
            0 => {
                let base = "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ-0123456789";
                base[..(tries - 1) % 60].to_string() + &if tries > 60 { format!("~{}", tries / 60) } else { String::new() }
            }
            1 => format!("key{}", r.below(n * 2 + 2)),
            2 => format!("{i:05}"),
            // single characters of 1 to 4 bytes, and pairs
            3 => {
                let c = char::from_u32(r.below(0x3000) as u32).unwrap_or('q');
                if r.one_in(3) { format!("{c}{c}") } else { c.to_string() }
            }
            // in the 16 byte region, with the difference at the end
            4 => format!("{}{}", &"longer_common_prefix"[..r.range(12, 20)], r.below(n + 3)),
            5 => format!("{}{}", "\u{0}\u{7f}aé"[..r.below(2)].to_string(), "\0".repeat(i % 40) + &format!("{}", i / 40)),
            6 => gen::shareable_key(r),
            7 => {
                // unicode order differs from UTF-16 order here
                let c = *r.pick(&['\u{FFFD}', '\u{FFFF}', '\u{10000}', '😀', '\u{E000}', '\u{D7FF}', 'z', '\u{80}', '\u{7ff}', '\u{800}']);
                format!("{}{c}{}", if r.bool() { "k" } else { "" }, r.below(n))
            }
            _ => gen::key(r),
        };
        s.insert(k);
    }
    s
}

/// Keys which are not in the set, but close to the ones that are.
fn neighbours(keys: &BTreeSet<String>, r: &mut Rng, max: usize) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "\0".into(), "~~~~".into(), "\u{10FFFF}\u{10FFFF}".into(), "a".into(), "m".into(), "key".into(), "not a key of this dict".into()];
    let all: Vec<&String> = keys.iter().collect();
    for _ in 0..max.min(all.len() * 4) {
        let k = *r.pick(&all);
        let mut b: Vec<char> = k.chars().collect();
        match r.below(8) {
            0 => b.push('\0'),
            1 => {
                b.pop();
            }
            2 => {
                if let Some(c) = b.pop() {
                    b.push(char::from_u32(c as u32 + 1).unwrap_or('x'));
                }
            }
            3 => {
                if let Some(c) = b.pop() {
                    b.push(char::from_u32((c as u32).wrapping_sub(1)).unwrap_or('x'));
                }
            }
            4 => b.insert(0, 'a'),
            5 => {
                if !b.is_empty() {
                    b.remove(0);
                }
            }
            6 => b.push('z'),
            _ => b = k.to_uppercase().chars().collect(),
        }
        v.push(b.into_iter().collect());
    }
    v.retain(|k| !keys.contains(k));
    v
}

fn pick_count(r: &mut Rng, c: Ctx) -> usize {
    if c.tiny() {
        return r.below(9);
    }
    match r.below(32) {
        30 => gen::COUNTS[r.below(27)],
        31 => r.range(1, 9) * 256 - r.below(2),
        0 => 0,
        1 => 1,
        2 => 2,
        3..=14 => r.range(1, 12),
        15..=23 => r.range(3, 90),
        24..=27 => r.range(80, 700),
        28 => r.range(2040, 2056),
        _ => r.range(700, 5000),
    }
}

fn want_value(i: usize, style: usize) -> Doc {
    match style {
        0 => Doc::Int(i as i128),
        1 => Doc::Str(format!("value {i}")),
        2 => match i % 5 {
            0 => Doc::Int(i as i128 - 3),
            1 => Doc::Str(format!("v{i}")),
            2 => Doc::Arr(vec![Doc::Int(i as i128)]),
            3 => Doc::Dict([("i".to_string(), Doc::Int(i as i128))].into()),
            _ => Doc::Int(i as i128 * 7_000_000_001),
        },
        _ => Doc::Arr(vec![Doc::Str(format!("a longer text, so that the dict has far pointers: {i:0>120}"))]),
    }
}

fn lookups(d: &Dict, want: &BTreeMap<String, Doc>, absent: &[String], sk: Option<&SharedKeys>, r: &mut Rng) -> R {
    ensure!(d.len() == want.len(), "a dict of {} has a length of {}", want.len(), d.len());
    let n = want.len();
    for (k, w) in want {
        let what = || format!("dict of {n}{}: key {k:?}", if d.is_wide() { " (wide)" } else { "" });
        let Some(v) = d.get(k.as_str()) else { return Err(format!("{}: get is None", what())) };
        st::hit("present_keys_looked_up");
        let g = observe::value(v, observe::FULL)?;
        if let Some(e) = w.diff(&g) {
            return Err(format!("{}: get: {e}", what()));
        }
        ensure!(d.contains_key(k.as_str()), "{}: contains_key is false", what());
        if r.one_in(4) {
            let again = [d.get(k), d.get(&k.clone().into_boxed_str()), Some(&d[k.as_str()])];
            ensure!(again.iter().all(|x| x.map(observe::addr) == Some(observe::addr(v))), "{}: equal keys of another type find another value", what());
        }
        if let Some(sk) = sk {
            let g = d.get_with_shared_keys(k.as_str(), sk);
            ensure!(g.map(observe::addr) == Some(observe::addr(v)), "{}: get_with_shared_keys finds {}", what(), if g.is_some() { "another value" } else { "nothing" });
            ensure!(d.contains_key_with_shared_keys(k.as_str(), sk), "{}: contains_key_with_shared_keys is false", what());
        }
    }
    for k in absent {
        st::hit("absent_keys_looked_up");
        ensure!(d.get(k.as_str()).is_none(), "dict of {n}: get({k:?}) finds a value although the key is absent");
        ensure!(!d.contains_key(k.as_str()), "dict of {n}: contains_key({k:?}) although the key is absent");
        if let Some(sk) = sk {
            ensure!(d.get_with_shared_keys(k.as_str(), sk).is_none(), "dict of {n}: get_with_shared_keys({k:?}) finds a value although the key is absent");
            ensure!(!d.contains_key_with_shared_keys(k.as_str(), sk), "dict of {n}: contains_key_with_shared_keys({k:?}) although the key is absent");
        }
    }
    Ok(())
}

/// Iteration: each pair once, in order of the keys (the shared ones first), with exact lengths.
fn iterations(d: &Dict, want: &BTreeMap<String, Doc>, shared: impl Fn(&str) -> Option<u16>, r: &mut Rng) -> R {
    let n = want.len();
    let what = if d.is_wide() { "wide dict" } else { "dict" };
    let mut order: Vec<(Option<u16>, &String)> = want.keys().map(|k| (shared(k), k)).collect();
    // None is less than Some, so the shared keys have to be moved to the front
    order.sort_by(|a, b| match (a.0, b.0) {
        (Some(x), Some(y)) => x.cmp(&y),
        (Some(_), None) => std::cmp::Ordering::Less,
        (None, Some(_)) => std::cmp::Ordering::Greater,
        (None, None) => a.1.as_bytes().cmp(b.1.as_bytes()),
    });
    ensure!(d.is_empty() == (n == 0), "{what} of {n}: is_empty is {}", d.is_empty());
    match d.first() {
        None => ensure!(n == 0, "{what} of {n}: there is no first pair"),
        Some((k, v)) => {
            ensure!(n > 0, "an empty {what} has a first pair");
            match order[0].0 {
                Some(i) => ensure!(k.to_unsigned_short() == i, "{what} of {n}: the first key is {} instead of the shared key {i}", k.to_unsigned_short()),
                None => ensure!(k.to_str() == order[0].1, "{what} of {n}: the first key is {:?} instead of {:?}", k.to_str(), order[0].1),
            }
            ensure!(d.get(order[0].1.as_str()).map(observe::addr) == Some(observe::addr(v)), "{what} of {n}: the first value is not the one of the first key");
        }
    }
    let mut it = d.iter();
    let mut i = 0;
    loop {
        let h = it.size_hint();
        ensure!(h == (n - i, Some(n - i)), "{what} of {n}: size_hint after {i} pairs is {h:?}");
        let Some((k, v)) = it.next() else { break };
        ensure!(i < n, "{what} of {n}: the iterator yields more pairs");
        ensure!(k == order[i].1, "{what} of {n}: the key at {i} is {k:?} instead of {:?}", order[i].1);
        if i % 7 == 0 {
            ensure!(d.get(k).map(observe::addr) == Some(observe::addr(v)), "{what} of {n}: iteration and get yield different values for {k:?}");
        }
        i += 1;
    }
    ensure!(i == n, "{what} of {n}: the iterator ends after {i} pairs");
    ensure!(it.next().is_none(), "{what} of {n}: the iterator goes on after its end");
    st::add("pairs_iterated_in_order", n as u64);
    ensure!(d.iter().count() == n, "{what} of {n}: count is {}", d.iter().count());
    ensure!(d.iter().last().map(|x| x.0) == order.last().map(|x| x.1.as_str()), "{what} of {n}: the last key");
    for _ in 0..4 {
        let j = r.below(n + 2);
        ensure!(d.iter().nth(j).map(|x| x.0) == order.get(j).map(|x| x.1.as_str()), "{what} of {n}: nth({j}) is {:?}", d.iter().nth(j).map(|x| x.0));
        ensure!(d.into_iter().skip(j).count() == n.saturating_sub(j), "{what} of {n}: skip({j}) leaves {}", d.iter().skip(j).count());
    }
    Ok(())
}

pub fn c10(r: &mut Rng, c: Ctx) -> R<u64> {
    let n = pick_count(r, c);
    let large = c.variant == crate::Variant::Dbg && (10..16).contains(&c.case);
    let keys = if large {
        // more entries than 16 bits can count
        st::hit("dicts_beyond_16_bits");
        let n = r.pick(&[0xFFFF, 0x1_0000, 0x1_0001, 70_000, 0x1_8000]) + r.below(3);
        match c.case % 3 {
            0 => (0..n).map(|i| format!("{i:06}")).collect(),
            1 => (0..n).map(|i| format!("{i}")).collect(),
            _ => (0..n).map(|i| format!("a longer key {i} ")).collect(),
        }
    } else {
        key_set(r, n)
    };
    let style = r.below(4);
    let want: BTreeMap<String, Doc> = keys.iter().enumerate().map(|(i, k)| (k.clone(), want_value(i, style))).collect();
    let absent = neighbours(&keys, r, if c.tiny() { 10 } else { 200 });
    st::max("dict_keys_max", want.len() as u64);
    st::add("dict_keys", want.len() as u64);
    st::describe(|| format!("{} keys, values of style {style}: {:?}…", want.len(), want.keys().take(12).collect::<Vec<_>>()));
    let doc = Doc::Dict(want.clone());
    // Possibly not at the root
    let (doc, nested) = if r.one_in(3) { (Doc::Arr(vec![Doc::Int(1), doc, Doc::Str("after the dict".into())]), true) } else { (doc, false) };
    fn dict<'a>(v: &'a Value, nested: bool) -> R<&'a Dict> {
        let v = if nested { v.as_array().and_then(|a| a.get(1)).ok_or("no element 1")? } else { v };
        v.as_dict().ok_or_else(|| "not a dict".to_string())
    }
    // Without shared keys
    let b = drive::bytes(&doc, r)?;
    let d = dict(open(&b)?, nested)?;
    lookups(d, &want, &absent, None, r).and_then(|()| iterations(d, &want, |_| None, r)).map_err(|e| format!("encoded: {e}"))?;
    let st_ = refenc::Style { share_pct: 0, ..refenc::Style::random(r) };
    let b = refenc::encode(&doc, None, st_, r);
    let d = dict(open(&b)?, nested)?;
    lookups(d, &want, &absent, None, r).and_then(|()| iterations(d, &want, |_| None, r)).map_err(|e| format!("another layout: {e}"))?;
    // With shared keys
    let mut sk = SharedKeys::new();
    for k in &absent {
        if r.one_in(5) {
            // in the table, but not in the dict
            sk.encode_and_insert(k);
        }
    }
    for k in &keys {
        if r.one_in(3) {
            sk.encode_and_insert(k);
        }
    }
    if r.one_in(15) {
        for i in 0.. {
            if sk.encode_and_insert(&format!("fill{i}")).is_none() {
                break;
            }
        }
        st::hit("full_tables");
    }
    let table0 = sk.clone();
    let s = drive::scoped(&doc, sk, r)?;
    let Some(root) = s.root() else { return Err("no root".into()) };
    let Some(table) = s.shared_keys() else { return Err("no shared keys".into()) };
    let d = dict(&root, nested)?;
    if d.first().is_some_and(|(k, _)| k.value_type() == fleece::ValueType::Short) {
        st::hit("dicts_with_shared_keys");
    }
    let ids = |k: &str| table.encode(k);
    lookups(d, &want, &absent, Some(table), r).and_then(|()| iterations(d, &want, ids, r)).map_err(|e| format!("with shared keys: {e}"))?;
    // With some of the keys shared
    let mut ids = HashMap::new();
    for k in &keys {
        if let (Some(i), true) = (table0.encode(k), r.bool()) {
            ids.insert(k.clone(), i);
        }
    }
    // Every key in the table has to be written as one
    let mut t2 = SharedKeys::new();
    let mut order: Vec<(u16, String)> = ids.iter().map(|(k, i)| (*i, k.clone())).collect();
    order.sort();
    let mut ids2 = HashMap::new();
    for (_, k) in order {
        if let Some(i) = t2.encode_and_insert(&k) {
            ids2.insert(k, i);
        }
    }
    ensure!(ids2.keys().all(|k| eligible(k)), "a key which can't be shared is in the shared keys");
    let b = refenc::encode(&doc, Some(&ids2), st_, r);
    let s = Scope::new(b, Some(Arc::new(t2)));
    let Some(root) = s.root() else { return Err("another layout with shared keys is rejected".into()) };
    let d = dict(&root, nested)?;
    let ids = |k: &str| ids2.get(k).copied();
    lookups(d, &want, &absent, s.shared_keys().map(|x| &**x), r).and_then(|()| iterations(d, &want, ids, r)).map_err(|e| format!("another layout with shared keys: {e}"))?;
    ensure!(panics(|| {
        let _ = &d["\u{1}no such key\u{1}"];
    }), "indexing with an absent key does not panic");
    ensure!(Dict::empty().get("a").is_none() && Dict::empty().is_empty() && Dict::empty().first().is_none() && Dict::empty().iter().next().is_none(), "the empty dict is not empty");
    Ok(if keys.is_empty() { 0 } else { doc.fp() | 1 })
}

pub fn panics(f: impl FnOnce()) -> bool {
    crate::guard(|| {
        f();
        Ok(())
    }).is_err()
}

fn arrays(a: &Array, want: &[Doc], r: &mut Rng, full: bool) -> R {
    let n = want.len();
    let what = if a.is_wide() { "wide array" } else { "array" };
    ensure!(a.len() == n && a.is_empty() == (n == 0), "{what} of {n}: the length is {}", a.len());
    ensure!(a.iter().len() == n, "{what} of {n}: iter().len() is {}", a.iter().len());
    let same = |i: usize, v: Option<&Value>, how: &str| -> R {
        let Some(v) = v else { return Err(format!("{what} of {n}: {how}: no element {i}")) };
        let g = observe::value(v, observe::FULL)?;
        st::hit("elements_compared");
        match want[i].diff(&g) {
            Some(e) => Err(format!("{what} of {n}: {how}: element {i}: {e}")),
            None => Ok(()),
        }
    };
    if full {
        let d = observe::array(a, observe::FULL)?;
        if let Some(e) = Doc::Arr(want.to_vec()).diff(&d) {
            return Err(format!("{what}: {e}"));
        }
    }
    for _ in 0..12 {
        if n > 0 {
            let i = match r.below(4) {
                0 => 0,
                1 => n - 1,
                _ => r.below(n),
            };
            same(i, a.get(i), "get")?;
            same(i, Some(&a[i]), "index")?;
            same(i, a.iter().nth(i), "nth")?;
            same(i, a.into_iter().skip(i).next(), "skip")?;
            let k = r.range(1, 9);
            let mut it = a.iter();
            // partial consumption
            let took = it.by_ref().take(i).count();
            ensure!(took == i, "{what} of {n}: take({i}) yields {took}");
            ensure!(it.size_hint() == (n - i, Some(n - i)), "{what} of {n}: size_hint after {i} is {:?}", it.size_hint());
            same(i, it.next(), "the element after a partial iteration")?;
            let mut pos = i + 1;
            while let Some(v) = it.nth(k - 1) {
                pos += k;
                ensure!(pos <= n, "{what} of {n}: nth({}) yields an element after the end", k - 1);
                if r.one_in(20) || pos == n {
                    same(pos - 1, Some(v), "repeated nth")?;
                }
                ensure!(it.size_hint() == (n - pos, Some(n - pos)), "{what} of {n}: size_hint at {pos} is {:?}", it.size_hint());
            }
            ensure!(n - pos < k, "{what} of {n}: nth({}) ends at {pos}", k - 1);
            ensure!(it.next().is_none(), "{what} of {n}: the iterator goes on after its end");
            st::hit("partial_iterations");
        }
        let i = n + match r.below(5) { 0 => 0, 1 => 1, 2 => r.below(5000), 3 => (u32::MAX as usize) - r.below(3), _ => usize::MAX - n - r.below(4) };
        ensure!(a.get(i).is_none(), "{what} of {n}: get({i}) is Some");
        ensure!(a.iter().nth(i).is_none(), "{what} of {n}: nth({i}) is Some");
    }
    // Two iterators do not disturb each other, and both agree with `for`
    let mut x = a.iter();
    let mut y = a.iter();
    let mut i = 0;
    for z in a {
        let p = x.next().map(observe::addr);
        ensure!(p == Some(observe::addr(z)), "{what} of {n}: two iterators differ at {i}");
        if i % 2 == 1 {
            y.next();
            ensure!(y.next().map(observe::addr) == p, "{what} of {n}: two iterators differ at {i}");
        }
        i += 1;
    }
    ensure!(i == n && a.iter().count() == n && a.iter().last().map(observe::addr) == n.checked_sub(1).and_then(|i| a.get(i)).map(observe::addr), "{what} of {n}: for yields {i}");
    ensure!(panics(|| {
        let _ = &a[n];
    }), "{what} of {n}: [{n}] does not panic");
    Ok(())
}

pub fn c11(r: &mut Rng, c: Ctx) -> R<u64> {
    let kind = r.below(6);
    let large = 2 * gen::COUNTS.len() as u64;
    let n = if c.tiny() {
        r.below(9)
    } else if c.variant == crate::Variant::Dbg && (large..large + 12).contains(&c.case) {
        // more elements than 16 bits can count
        st::hit("arrays_beyond_16_bits");
        match c.case - large {
            0 => (1 << 20) + r.below(2),
            1 => (1 << 17) + r.below(3) - 1,
            _ => *r.pick(&[0xFFFE, 0xFFFF, 0x1_0000, 0x1_0001, 70_000, 0x1_FFFF]),
        }
    } else if c.case < 2 * gen::COUNTS.len() as u64 {
        gen::COUNTS[c.case as usize / 2]
    } else {
        match r.below(20) {
            0..=9 => r.below(20),
            10..=15 => r.below(300),
            16 | 17 => r.range(2040, 2060),
            18 => r.range(4000, 9000),
            _ => *r.pick(gen::COUNTS),
        }
    };
    let items: Vec<Doc> = (0..n).map(|i| match kind {
        0 => Doc::Int(i as i128 - 2048),
        1 => Doc::Str(format!("{i}")),
        2 => Doc::Int(i as i128 * 99_991),
        3 => match i % 7 {
            0 => Doc::Int(i as i128),
            1 => Doc::Str(format!("element {i}")),
            2 => Doc::Arr(vec![]),
            3 => Doc::Arr(vec![Doc::Int(i as i128), Doc::Str("x".into())]),
            4 => Doc::Dict([(format!("k{i}"), Doc::Int(1))].into()),
            5 => Doc::F64(i as f64 / 3.0),
            _ => Doc::Null,
        },
        4 => if r.one_in(30) { gen::leaf(r) } else { Doc::Int(i as i128 % 100) },
        _ => gen::leaf_small(r),
    }).collect();
    st::max("array_len_max", n as u64);
    st::describe(|| format!("array of {n}, elements of kind {kind}"));
    let mut v = items.clone();
    let wide = !c.tiny() && r.one_in(4);
    if wide {
        // the far element makes it wide
        let at = r.below(v.len() + 1);
        v.insert(at, Doc::Str("far".repeat(7000)));
    }
    let nested = r.one_in(3);
    let doc = if nested { Doc::Dict([("the array".to_string(), Doc::Arr(v.clone())), ("z".to_string(), Doc::Int(9))].into()) } else { Doc::Arr(v.clone()) };
    fn get(x: &Value, nested: bool) -> R<&Array> {
        let x = if nested { x.as_dict().and_then(|d| d.get("the array")).ok_or("no array")? } else { x };
        x.as_array().ok_or_else(|| "not an array".to_string())
    }
    let b = drive::exact(&drive::bytes(&doc, r)?);
    arrays(get(open(&b)?, nested)?, &v, r, true).map_err(|e| format!("encoded: {e}"))?;
    let b = drive::exact(&refenc::encode(&doc, None, refenc::Style::random(r), r));
    arrays(get(open(&b)?, nested)?, &v, r, n < 3000).map_err(|e| format!("another layout: {e}"))?;
    if !nested {
        let al = Array::clone_from_bytes(&b).map_err(|e| e.to_string())?;
        drop(b);
        arrays(&al, &v, r, false).map_err(|e| format!("owned: {e}"))?;
    }
    for (v, d) in [(Value::null(), Doc::Null), (Value::undefined(), Doc::Undef), (Value::bool(true), Doc::Bool(true)), (Value::bool(false), Doc::Bool(false))] {
        observe::accessors(v, &d).map_err(|e| format!("a constant value: {e}"))?;
        ensure!(observe::scalar(v)?.is_some_and(|g| d.diff(&g).is_none()), "the constant value {} reads as another", d.brief());
    }
    ensure!(Array::empty().to_mutable().is_empty() && fleece::Dict::empty().to_mutable().is_empty(), "a mutable copy of an empty collection is not empty");
    let e = Array::empty();
    ensure!(e.is_empty() && e.get(0).is_none() && e.iter().next().is_none() && e.iter().size_hint() == (0, Some(0)), "the empty array is not empty");
    let e = fleece::alloced::AllocedArray::empty();
    let e2 = fleece::alloced::AllocedDict::empty();
    ensure!(e.is_empty() && e.get(0).is_none() && e.iter().next().is_none() && e2.is_empty() && e2.get("").is_none() && e2.iter().next().is_none(), "the empty owned collections are not empty");
    Ok(if n == 0 { 0 } else { doc.fp() ^ hash64(&[kind as u8]) | 1 })
}
