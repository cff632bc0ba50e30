//! Reads a value through every part of the public read API, cross-checks the answers against each
//! other and against what the accessors are specified to return, and yields the abstract document.
use crate::doc::Doc;
use crate::ensure;
use crate::st::{self, R};
use fleece::{Array, Dict, MutableArray, MutableDict, SharedKeys, Value, ValueType};
use std::collections::BTreeMap;

pub fn addr(v: &Value) -> usize {
    std::ptr::from_ref(v).cast::<u8>() as usize
}

/// The kind of a value, and its accessor conversions.
pub fn scalar(v: &Value) -> R<Option<Doc>> {
    let d = match v.value_type() {
        ValueType::Null => Doc::Null,
        ValueType::Undefined => Doc::Undef,
        ValueType::False => Doc::Bool(false),
        ValueType::True => Doc::Bool(true),
        ValueType::Short => Doc::Int(i128::from(v.to_short())),
        ValueType::Int => Doc::Int(i128::from(v.to_int())),
        ValueType::UnsignedInt => Doc::Int(i128::from(v.to_unsigned_int())),
        ValueType::Float => Doc::F32(v.to_float()),
        ValueType::Double32 | ValueType::Double64 => Doc::F64(v.to_double()),
        ValueType::String => Doc::Str(v.to_str().to_string()),
        ValueType::Data => Doc::Data(v.to_data().to_vec()),
        ValueType::Array | ValueType::Dict => return Ok(None),
        ValueType::Pointer => return Err("a read returned an unresolved pointer".into()),
    };
    accessors(v, &d)?;
    Ok(Some(d))
}

/// What each accessor must return for a value with the content `d`.
pub fn accessors(v: &Value, d: &Doc) -> R {
    st::hit("accessor_tables");
    let what = || d.brief();
    let b = v.to_bool();
    let eb = match d {
        Doc::Bool(x) => *x,
        Doc::Int(i) => *i != 0,
        Doc::F32(f) => *f != 0.0,
        Doc::F64(f) => *f != 0.0,
        _ => true,
    };
    ensure!(b == eb, "to_bool of {} is {b}", what());
    let (i, u, s, us, f, f32_) = (v.to_int(), v.to_unsigned_int(), v.to_short(), v.to_unsigned_short(), v.to_double(), v.to_float());
    match d {
        Doc::Bool(x) => {
            let x = u8::from(*x);
            ensure!(i == i64::from(x) && u == u64::from(x) && s == i16::from(x) && us == u16::from(x) && f == f64::from(x) && f32_ == f32::from(x), "number conversions of {}: {i} {u} {s} {us} {f} {f32_}", what());
        }
        Doc::Int(n) => {
            ensure!(i == *n as i64, "to_int of {} is {i}", what());
            ensure!(u == *n as u64, "to_unsigned_int of {} is {u}", what());
            ensure!(s == *n as i16, "to_short of {} is {s}", what());
            if *n >= 0 || v.value_type() != ValueType::Short {
                ensure!(us == *n as u16, "to_unsigned_short of {} is {us}", what());
            }
            ensure!(f == *n as f64, "to_double of {} is {f}", what());
            ensure!(f32_ == (*n as f64) as f32, "to_float of {} is {f32_}", what());
        }
        Doc::F32(_) | Doc::F64(_) => {
            let x = match d {
                Doc::F32(x) => f64::from(*x),
                Doc::F64(x) => *x,
                _ => 0.0,
            };
            ensure!(f.to_bits() == x.to_bits() || (f.is_nan() && x.is_nan()), "to_double of {} is {f}", what());
            ensure!(f32_.to_bits() == (x as f32).to_bits() || (f32_.is_nan() && x.is_nan()), "to_float of {} is {f32_}", what());
            ensure!(i == x as i64, "to_int of {} is {i}", what());
            if x.is_nan() || (0.0..9.2e18).contains(&x) {
                ensure!(u == x as u64, "to_unsigned_int of {} is {u}", what());
            }
            ensure!(s == x as i16, "to_short of {} is {s}", what());
            ensure!(us == x as u16, "to_unsigned_short of {} is {us}", what());
        }
        _ => {
            ensure!(i == 0 && u == 0 && s == 0 && us == 0 && f == 0.0 && f32_ == 0.0, "number conversions of {}: {i} {u} {s} {us} {f} {f32_}", what());
        }
    }
    match d {
        Doc::Str(x) => ensure!(v.to_str() == x && v.to_data() == x.as_bytes(), "string accessors of {} : {:?} / {:02x?}", what(), v.to_str(), v.to_data()),
        Doc::Data(x) => ensure!(v.to_str().is_empty() && v.to_data() == &x[..], "data accessors of {}: {:?} / {:02x?}", what(), v.to_str(), v.to_data()),
        _ => ensure!(v.to_str().is_empty() && v.to_data().is_empty(), "string accessors of {} are not empty", what()),
    }
    ensure!(v.as_array().is_some() == matches!(d, Doc::Arr(_)), "as_array of {}", what());
    ensure!(v.as_dict().is_some() == matches!(d, Doc::Dict(_)), "as_dict of {}", what());
    Ok(())
}

thread_local! {
    static TURN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// What is looked at more closely in this case.
pub fn turn(case: u64) {
    TURN.with(|t| t.set((case.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as usize));
}

/// An iterator of `n` elements does what every iterator does, whichever of its methods are called. `id` tells elements apart.
/// `exact`: its size hint is exact.
pub fn laws<I: Iterator>(what: &str, n: usize, exact: bool, make: impl Fn() -> I, id: impl Fn(I::Item) -> usize) -> R {
    let turn = TURN.with(|t| {
        t.set(t.get().wrapping_add(1));
        t.get()
    });
    if turn % 8 != 0 {
        return Ok(());
    }
    let turn = turn / 8;
    st::hit("iterator_laws_checked");
    let ids: Vec<usize> = {
        let mut v = vec![];
        let mut it = make();
        while let Some(x) = it.next() {
            v.push(id(x));
        }
        v
    };
    ensure!(ids.len() == n, "{what} of {n}: the iterator yields {} elements", ids.len());
    let k = match turn % 5 {
        0 => 0,
        1 => 1.min(n),
        2 => n.saturating_sub(1),
        3 => n,
        _ => turn.wrapping_mul(7919) % (n + 1),
    };
    let mut it = make();
    let got = it.nth(k).map(&id);
    ensure!(got == ids.get(k).copied(), "{what} of {n}: nth({k}) yields another element than the iteration");
    let left = n.saturating_sub(k + 1);
    let (low, high) = it.size_hint();
    ensure!(if exact { low == left && high == Some(left) } else { low <= left && high.is_none_or(|h| h >= left) }, "{what} of {n}: size_hint after nth({k}) is {:?}", it.size_hint());
    let rest: Vec<usize> = it.map(&id).collect();
    ensure!(rest == ids.get(k + 1..).unwrap_or(&[]), "{what} of {n}: after nth({k}), {} elements follow, or others", rest.len());
    match turn % 7 {
        0 => ensure!(make().count() == n, "{what} of {n}: count is {}", make().count()),
        1 => ensure!(make().last().map(&id) == ids.last().copied(), "{what} of {n}: last is another element"),
        2 => {
            let got: Vec<usize> = make().skip(k).step_by(3).map(&id).collect();
            let want: Vec<usize> = ids.iter().copied().skip(k).step_by(3).collect();
            ensure!(got == want, "{what} of {n}: every third element after {k} is another");
        }
        3 => {
            let mut it = make();
            let first: Vec<usize> = it.by_ref().take(k).map(&id).collect();
            ensure!(first == ids[..k], "{what} of {n}: the first {k} elements are others");
            ensure!(it.count() == n - k, "{what} of {n}: count after {k} elements is wrong");
        }
        4 => {
            let mut i = 0;
            let ok = make().all(|x| {
                i += 1;
                id(x) == ids[i - 1]
            });
            ensure!(ok && i == n, "{what} of {n}: all is {ok} after {i} elements");
        }
        5 => {
            let got = make().fold(0_usize, |a, x| a.wrapping_mul(31).wrapping_add(id(x)));
            let want = ids.iter().fold(0_usize, |a, x| a.wrapping_mul(31).wrapping_add(*x));
            ensure!(got == want, "{what} of {n}: fold sees other elements");
        }
        _ => {
            let mut it = make();
            if let Some(want) = ids.get(k) {
                ensure!(it.position(|x| id(x) == *want).is_some_and(|p| ids[p] == *want), "{what} of {n}: the element {k} is not found in its iterator");
            }
            ensure!(make().nth(n).is_none() && make().nth(usize::MAX).is_none(), "{what} of {n}: nth after the end is an element");
        }
    }
    Ok(())
}

fn ref_id(v: Option<&Value>, a: Option<&MutableArray>, d: Option<&MutableDict>) -> usize {
    v.map(addr).or(a.map(|x| std::ptr::from_ref(x) as usize)).or(d.map(|x| std::ptr::from_ref(x) as usize)).unwrap_or(1)
}

/// How much to cross-check while reading.
#[derive(Clone, Copy)]
pub struct Opt<'a> {
    /// Look up every key with this table explicitly, too.
    pub sk: Option<&'a SharedKeys>,
    /// Probe absent keys and out of range indexes.
    pub probes: bool,
}

pub const FULL: Opt<'static> = Opt { sk: None, probes: true };

pub fn value(v: &Value, o: Opt) -> R<Doc> {
    if let Some(d) = scalar(v)? {
        st::hit("values_read");
        return Ok(d);
    }
    if let Some(a) = v.as_array() {
        accessors(v, &Doc::Arr(vec![]))?;
        array(a, o)
    } else if let Some(d) = v.as_dict() {
        accessors(v, &Doc::Dict(BTreeMap::new()))?;
        dict(d, o)
    } else {
        Err("a value which is neither a scalar, an array nor a dict".into())
    }
}

pub fn array(a: &Array, o: Opt) -> R<Doc> {
    st::hit("arrays_read");
    let n = a.len();
    ensure!(a.is_empty() == (n == 0), "array of {n}: is_empty is {}", a.is_empty());
    ensure!(a.width() == if a.is_wide() { 4 } else { 2 }, "array of {n}: is_wide is {} and width {}", a.is_wide(), a.width());
    if a.is_wide() {
        st::hit("wide_arrays_read");
        st::max("wide_array_len_max", n as u64);
    }
    st::max("array_len_max", n as u64);
    let mut out = vec![];
    let mut it = a.iter();
    loop {
        let left = n.saturating_sub(out.len());
        let h = it.size_hint();
        ensure!(h == (left, Some(left)), "array of {n}: size_hint after {} elements is {h:?}", out.len());
        let Some(e) = it.next() else { break };
        let i = out.len();
        ensure!(i < n, "array of {n}: the iterator yields more elements");
        let Some(g) = a.get(i) else { return Err(format!("array of {n}: get({i}) is None")) };
        ensure!(addr(g) == addr(e), "array of {n}: get({i}) and iteration yield different values");
        ensure!(addr(&a[i]) == addr(e), "array of {n}: [{i}] and iteration yield different values");
        out.push(value(e, o)?);
    }
    ensure!(out.len() == n, "array of {n}: the iterator yields {} elements", out.len());
    ensure!(it.next().is_none() && it.next().is_none(), "array of {n}: the iterator restarts after its end");
    laws("array", n, true, || a.iter(), addr)?;
    if o.probes {
        for i in [n, n + 1, n + 2, n.wrapping_mul(2) + 5, n + 2048, usize::MAX, usize::MAX / 2, usize::MAX / 4 + 1, 1 << 31, 1 << 32, (1 << 63) + 1] {
            if i >= n {
                ensure!(a.get(i).is_none(), "array of {n}: get({i}) is Some");
            }
        }
    }
    Ok(Doc::Arr(out))
}

pub fn absent_keys<'a>(present: impl Iterator<Item = &'a String>, has: impl Fn(&str) -> bool) -> Vec<String> {
    let mut probes: Vec<String> = vec!["".into(), "\0".into(), "a".into(), "zz".into(), "~".into(), "Ω".into(), "\u{10FFFF}".into(), "no_such_key".into(), "a_key_longer_than_sixteen_bytes".into()];
    for (i, k) in present.enumerate() {
        if i > 24 {
            break;
        }
        probes.push(format!("{k}x"));
        probes.push(format!("{k}\0"));
        probes.push(format!("{k}{k}"));
        let mut t = k.clone();
        if t.pop().is_some() {
            probes.push(t);
        }
        probes.push(k.to_uppercase());
    }
    probes.retain(|k| !has(k));
    probes
}

/// A dict whose keys can all be resolved: in a live scope, or without shared keys.
pub fn dict(d: &Dict, o: Opt) -> R<Doc> {
    st::hit("dicts_read");
    let n = d.len();
    ensure!(d.is_empty() == (n == 0), "dict of {n}: is_empty is {}", d.is_empty());
    ensure!(d.width() == if d.is_wide() { 4 } else { 2 }, "dict of {n}: is_wide is {} and width {}", d.is_wide(), d.width());
    if d.is_wide() {
        st::hit("wide_dicts_read");
        st::max("wide_dict_len_max", n as u64);
    }
    st::max("dict_len_max", n as u64);
    let mut out = BTreeMap::new();
    let mut it = d.iter();
    let mut count = 0;
    let mut first = true;
    loop {
        let left = n.saturating_sub(count);
        let h = it.size_hint();
        ensure!(h == (left, Some(left)), "dict of {n}: size_hint after {count} pairs is {h:?}");
        let Some((k, v)) = it.next() else { break };
        count += 1;
        ensure!(count <= n, "dict of {n}: the iterator yields more pairs");
        if first {
            first = false;
            let Some((k0, v0)) = d.first() else { return Err(format!("dict of {n}: first is None")) };
            ensure!(addr(v0) == addr(v), "dict of {n}: first and iteration yield different values");
            if k0.value_type() == ValueType::Short {
                st::hit("dicts_with_shared_keys_read");
            } else {
                ensure!(k0.to_str() == k, "dict of {n}: the first key is {:?} but iteration yields {k:?}", k0.to_str());
            }
        }
        let Some(g) = d.get(k) else { return Err(format!("dict of {n}: get({k:?}) is None for a key which is iterated")) };
        ensure!(addr(g) == addr(v), "dict of {n}: get({k:?}) and iteration yield different values");
        ensure!(addr(&d[k]) == addr(v), "dict of {n}: [{k:?}] and iteration yield different values");
        ensure!(d.contains_key(k), "dict of {n}: contains_key({k:?}) is false");
        if let Some(sk) = o.sk {
            let g = d.get_with_shared_keys(k, sk);
            ensure!(g.map(addr) == Some(addr(v)), "dict of {n}: get_with_shared_keys({k:?}) is {}", if g.is_some() { "another value" } else { "None" });
            ensure!(d.contains_key_with_shared_keys(k, sk), "dict of {n}: contains_key_with_shared_keys({k:?}) is false");
        }
        ensure!(out.insert(k.to_string(), value(v, o)?).is_none(), "dict of {n}: the key {k:?} is iterated twice");
    }
    ensure!(count == n, "dict of {n}: the iterator yields {count} pairs");
    ensure!(d.first().is_some() == (n > 0), "dict of {n}: first");
    laws("dict", n, true, || d.iter(), |(k, v)| addr(v) ^ (k.len() << 48))?;
    if o.probes {
        for k in absent_keys(out.keys(), |k| out.contains_key(k)) {
            ensure!(d.get(k.as_str()).is_none(), "dict of {n}: get({k:?}) is Some for a key which is not there");
            ensure!(!d.contains_key(k.as_str()), "dict of {n}: contains_key({k:?}) for a key which is not there");
            if let Some(sk) = o.sk {
                ensure!(d.get_with_shared_keys(k.as_str(), sk).is_none(), "dict of {n}: get_with_shared_keys({k:?}) is Some for a key which is not there");
            }
        }
    }
    Ok(Doc::Dict(out))
}

pub fn marray(a: &MutableArray) -> R<Doc> {
    st::hit("mutable_arrays_read");
    let n = a.len();
    ensure!(a.is_empty() == (n == 0), "mutable array of {n}: is_empty is {}", a.is_empty());
    let mut out = vec![];
    let mut it = a.iter();
    loop {
        let left = n.saturating_sub(out.len());
        let h = it.size_hint();
        ensure!(h == (left, Some(left)), "mutable array of {n}: size_hint after {} elements is {h:?}", out.len());
        let Some(r) = it.next() else { break };
        let i = out.len();
        let kinds = (r.is_value(), r.is_array(), r.is_dict());
        ensure!(kinds == (r.value().is_some(), r.array().is_some(), r.dict().is_some()), "mutable array element {i}: inconsistent kind {kinds:?}");
        let same = a.get(i).map(addr) == r.value().map(addr)
            && a.get_array(i).map(|x| x as *const _) == r.array().map(|x| x as *const _)
            && a.get_dict(i).map(|x| x as *const _) == r.dict().map(|x| x as *const _);
        ensure!(same, "mutable array element {i}: get and iteration yield different values");
        out.push(if let Some(v) = r.value() {
            ensure!(addr(&a[i]) == addr(v), "mutable array element {i}: [{i}] differs");
            value(v, FULL)?
        } else if let Some(x) = r.array() {
            marray(x)?
        } else if let Some(x) = r.dict() {
            mdict(x)?
        } else {
            return Err(format!("mutable array element {i} is nothing"));
        });
    }
    ensure!(out.len() == n, "mutable array of {n}: the iterator yields {} elements", out.len());
    laws("mutable array", n, true, || a.iter(), |x| ref_id(x.value(), x.array(), x.dict()))?;
    for i in [n, n + 1, usize::MAX] {
        ensure!(a.get(i).is_none() && a.get_array(i).is_none() && a.get_dict(i).is_none(), "mutable array of {n}: get({i}) is Some");
    }
    Ok(Doc::Arr(out))
}

pub fn mdict(d: &MutableDict) -> R<Doc> {
    st::hit("mutable_dicts_read");
    let n = d.len();
    ensure!(d.is_empty() == (n == 0), "mutable dict of {n}: is_empty is {}", d.is_empty());
    let mut out = BTreeMap::new();
    let mut it = d.iter();
    let mut count = 0;
    loop {
        let left = n.saturating_sub(count);
        let h = it.size_hint();
        ensure!(h == (left, Some(left)), "mutable dict of {n}: size_hint after {count} pairs is {h:?}");
        let Some((k, r)) = it.next() else { break };
        count += 1;
        let kinds = (r.is_value(), r.is_array(), r.is_dict());
        ensure!(kinds == (r.value().is_some(), r.array().is_some(), r.dict().is_some()), "mutable dict key {k:?}: inconsistent kind {kinds:?}");
        let same = d.get(k).map(addr) == r.value().map(addr)
            && d.get_array(k).map(|x| x as *const _) == r.array().map(|x| x as *const _)
            && d.get_dict(k).map(|x| x as *const _) == r.dict().map(|x| x as *const _);
        ensure!(same, "mutable dict key {k:?}: get and iteration yield different values");
        ensure!(d.contains_key(k), "mutable dict key {k:?}: contains_key is false");
        let v = if let Some(v) = r.value() {
            ensure!(addr(&d[k]) == addr(v), "mutable dict key {k:?}: [{k:?}] differs");
            value(v, FULL)?
        } else if let Some(x) = r.array() {
            marray(x)?
        } else if let Some(x) = r.dict() {
            mdict(x)?
        } else {
            return Err(format!("mutable dict key {k:?} is nothing"));
        };
        ensure!(out.insert(k.to_string(), v).is_none(), "mutable dict of {n}: the key {k:?} is iterated twice");
    }
    ensure!(count == n, "mutable dict of {n}: the iterator yields {count} pairs");
    laws("mutable dict", n, true, || d.iter(), |(k, x)| ref_id(x.value(), x.array(), x.dict()) ^ (k.len() << 48))?;
    for k in absent_keys(out.keys(), |k| out.contains_key(k)) {
        ensure!(!d.contains_key(&k) && d.get(&k).is_none() && d.get_array(&k).is_none() && d.get_dict(&k).is_none(), "mutable dict of {n}: the absent key {k:?} is found");
    }
    Ok(Doc::Dict(out))
}

/// Read and compare with the expected document.
pub fn expect(what: &str, v: &Value, o: Opt, want: &Doc) -> R {
    let got = value(v, o).map_err(|e| format!("{what}: {e}"))?;
    match want.diff(&got) {
        None => {
            st::hit("documents_compared");
            Ok(())
        }
        Some(d) => Err(format!("{what}: {d}")),
    }
}
