//! C18–C21: mutable collections, copies, and re-encoding.
use crate::c_dec::collect_keys;
use crate::c_enc::{open, some_doc};
use crate::c_read::panics;
use crate::doc::Doc;
use crate::drive::{self, e2s};
use crate::rng::{hash64, Rng};
use crate::st::{self, R};
use crate::{ensure, gen, observe, refdec, refenc, Ctx};
use fleece::alloced::{AllocedArray, AllocedDict};
use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

type Map = BTreeMap<String, Doc>;

/// Call `$put!(value)` with `d` as one of the types which can hold it.
macro_rules! with_leaf {
    ($r:expr, $d:expr, |$x:ident| $put:expr) => {{
        let pick = $r.below(10);
        let opt = $r.one_in(4);
        macro_rules! p {
            ($e:expr) => {{
                let y = $e;
                if opt {
                    let $x = Some(y);
                    $put
                } else {
                    let $x = y;
                    $put
                }
            }};
        }
        match $d {
            Doc::Null => if opt { let $x = None::<&str>; $put } else { let $x = NullValue; $put },
            Doc::Undef => { let $x = UndefinedValue; $put }
            Doc::Bool(b) => p!(*b),
            Doc::F32(f) => p!(*f),
            Doc::F64(f) => p!(*f),
            Doc::Str(s) => p!(s.as_str()),
            Doc::Data(s) => p!(&s[..]),
            Doc::Int(i) => {
                let mut done = false;
                macro_rules! t { ($n:expr, $t:ty) => { if !done && (pick == $n) { if let Ok(v) = <$t>::try_from(*i) { done = true; p!(v); } } } }
                t!(0, i8);
                t!(1, u8);
                t!(2, i16);
                t!(3, u16);
                t!(4, i32);
                t!(5, u32);
                t!(6, isize);
                t!(7, usize);
                t!(8, u64);
                if !done {
                    if let Ok(v) = i64::try_from(*i) {
                        p!(v);
                    } else if let Ok(v) = u64::try_from(*i) {
                        p!(v);
                    }
                }
            }
            Doc::Arr(_) | Doc::Dict(_) => unreachable!(),
        }
    }};
}

/// Leaves around the size which is kept inline by mutable collections, too.
fn leaf(r: &mut Rng) -> Doc {
    match r.below(5) {
        0 => {
            let n = r.range(11, 18);
            Doc::Str(gen::string_of_len(r, n))
        }
        1 => Doc::Data(vec![r.u64() as u8; r.range(11, 18)]),
        _ => gen::leaf(r),
    }
}

struct Log(String);

impl Log {
    fn add(&mut self, s: std::fmt::Arguments) {
        if self.0.len() < 800 {
            self.0.push_str(&s.to_string());
            self.0.push(';');
        }
    }
}

fn new_array(r: &mut Rng) -> R<(MutableArray, Vec<Doc>)> {
    match r.below(3) {
        0 => Ok((MutableArray::new(), vec![])),
        1 => {
            let d = (0..r.below(5)).map(|_| if r.one_in(4) { gen::small_doc(r) } else { leaf(r) }).collect::<Vec<_>>();
            let b = drive::bytes(&Doc::Arr(d.clone()), r)?;
            let a = Array::from_bytes(&b).map_err(|e| e.to_string())?;
            Ok((if r.bool() { MutableArray::from(a) } else { MutableArray::clone_from(a) }, d))
        }
        _ => {
            let mut a = MutableArray::new();
            let mut m = vec![];
            for _ in 0..r.below(4) {
                let l = leaf(r);
                with_leaf!(r, &l, |x| a.push(&x));
                m.push(l);
            }
            Ok((a, m))
        }
    }
}

fn new_dict(r: &mut Rng, sk: Option<&Arc<SharedKeys>>) -> R<(MutableDict, Map)> {
    match r.below(3) {
        0 => Ok((match sk {
            Some(sk) if r.bool() => MutableDict::new_with_shared_keys(sk.clone()),
            _ => if r.bool() { MutableDict::new() } else { MutableDict::default() },
        }, Map::new())),
        1 => {
            let d: Map = (0..r.below(5)).map(|_| (gen::key(r), if r.one_in(4) { gen::small_doc(r) } else { leaf(r) })).collect();
            if r.bool() {
                let s = drive::scoped(&Doc::Dict(d.clone()), SharedKeys::new(), r)?;
                let Some(m) = MutableDict::from_scope(&s) else { return Err("from_scope of a dict is None".into()) };
                return Ok((m, d));
            }
            let b = drive::bytes(&Doc::Dict(d.clone()), r)?;
            let a = Dict::from_bytes(&b).map_err(|e| e.to_string())?;
            Ok((if r.bool() { a.to_mutable() } else { MutableDict::clone_from(a) }, d))
        }
        _ => {
            let mut a = MutableDict::new();
            let mut m = Map::new();
            for _ in 0..r.below(4) {
                let (k, l) = (gen::key(r), leaf(r));
                with_leaf!(r, &l, |x| a.insert(&k, x));
                m.insert(k, l);
            }
            Ok((a, m))
        }
    }
}

/// The values which exist without a document.
fn constant(d: &Doc) -> Option<&'static Value> {
    let v = match d {
        Doc::Null => Value::null(),
        Doc::Undef => Value::undefined(),
        Doc::Bool(b) => Value::bool(*b),
        _ => return None,
    };
    st::hit("constant_values");
    Some(v)
}

/// A value of an encoded document, for `set_fleece` and `push_fleece`.
fn fleece_of(d: &Doc, r: &mut Rng) -> Vec<u8> {
    refenc::encode(d, None, refenc::Style::random(r), r)
}

fn alloced(d: &Doc, r: &mut Rng) -> R<fleece::alloced::AllocedValue> {
    let b = drive::bytes(d, r)?;
    Value::clone_from_bytes(&b).map_err(|e| e.to_string())
}

fn array_op(a: &mut MutableArray, m: &mut Vec<Doc>, r: &mut Rng, sk: Option<&Arc<SharedKeys>>, log: &mut Log, depth: usize) -> R {
    st::hit("mutations");
    let n = m.len();
    let at = match r.below(8) {
        _ if n == 0 => 0,
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    };
    // Go down
    if depth < 6 && n > 0 && r.one_in(3) {
        match &mut m[at] {
            Doc::Arr(x) => {
                ensure!(a.get_dict_mut(at).is_none(), "get_dict_mut of an array");
                let Some(y) = a.get_array_mut(at) else { return Err(format!("get_array_mut({at}) is None")) };
                log.add(format_args!("[{at}]"));
                return array_op(y, x, r, sk, log, depth + 1);
            }
            Doc::Dict(x) => {
                ensure!(a.get_array_mut(at).is_none(), "get_array_mut of a dict");
                let Some(y) = a.get_dict_mut(at) else { return Err(format!("get_dict_mut({at}) is None")) };
                log.add(format_args!("[{at}]"));
                return dict_op(y, x, r, sk, log, depth + 1);
            }
            _ => ensure!(a.get_array_mut(at).is_none() && a.get_dict_mut(at).is_none(), "get_array_mut or get_dict_mut of a scalar"),
        }
    }
    ensure!(a.get_array_mut(n + r.below(3)).is_none() && a.get_dict_mut(n + r.below(3)).is_none(), "get_array_mut or get_dict_mut after the end");
    let op = r.below(10);
    match op {
        0..=2 => {
            let l = leaf(r);
            log.add(format_args!("push {}", l.brief()));
            match (&l, r.bool()) {
                (Doc::Str(s), true) => a.push(s.as_str()),
                (Doc::Data(s), true) => a.push(&s[..]),
                _ => with_leaf!(r, &l, |x| a.push(&x)),
            }
            m.push(l);
        }
        3 if n > 0 => {
            let l = leaf(r);
            log.add(format_args!("set {at} {}", l.brief()));
            with_leaf!(r, &l, |x| a.set(at, x));
            m[at] = l;
        }
        4 if n > 0 => {
            let (x, d) = new_array(r)?;
            log.add(format_args!("set_array {at} of {}", d.len()));
            if r.one_in(3) {
                let v = alloced(&Doc::Arr(d.clone()), r)?;
                let Some(mut v) = v.to_array() else { return Err("to_array".into()) };
                if d.is_empty() && r.bool() {
                    v = AllocedArray::empty();
                }
                a.set_array(at, v);
            } else {
                a.set_array(at, x);
            }
            m[at] = Doc::Arr(d);
        }
        5 if n > 0 => {
            let (x, d) = new_dict(r, sk)?;
            log.add(format_args!("set_dict {at} of {}", d.len()));
            if r.one_in(3) {
                let v = alloced(&Doc::Dict(d.clone()), r)?;
                let Some(mut v) = v.to_dict() else { return Err("to_dict".into()) };
                if d.is_empty() && r.bool() {
                    v = AllocedDict::empty();
                }
                a.set_dict(at, v);
            } else {
                a.set_dict(at, x);
            }
            m[at] = Doc::Dict(d);
        }
        6 => {
            let d = if r.bool() { gen::small_doc(r) } else { leaf(r) };
            let b = fleece_of(&d, r);
            let v = match constant(&d) {
                Some(v) if r.bool() => v,
                _ => open(&b)?,
            };
            if n > 0 && r.bool() {
                log.add(format_args!("set_fleece {at} {}", d.brief()));
                a.set_fleece(at, v);
                m[at] = d;
            } else {
                log.add(format_args!("push_fleece {}", d.brief()));
                a.push_fleece(v);
                m.push(d);
            }
        }
        7 => {
            let i = match r.below(4) {
                0 => n,
                1 => n + r.below(10),
                2 => at,
                _ => if r.one_in(4) { usize::MAX } else { n.saturating_sub(1) },
            };
            log.add(format_args!("remove {i}"));
            a.remove(i);
            if i < n {
                m.remove(i);
            }
        }
        8 if r.one_in(3) => {
            let i = n + r.below(3);
            log.add(format_args!("set {i} after the end"));
            ensure!(panics(|| a.set(i, 1)), "set({i}) of {n} does not panic");
        }
        _ => {
            // through a clone
            let x = a.clone();
            log.add(format_args!("clone"));
            *a = x;
        }
    }
    Ok(())
}

fn dict_op(a: &mut MutableDict, m: &mut Map, r: &mut Rng, sk: Option<&Arc<SharedKeys>>, log: &mut Log, depth: usize) -> R {
    st::hit("mutations");
    let known = (!m.is_empty() && r.one_in(2)).then(|| m.keys().nth(r.below(m.len())).cloned()).flatten();
    let k = match known {
        Some(k) if r.one_in(5) => k + "\0",
        Some(k) => k,
        None => match sk {
            // the keys of the table, and others
            Some(sk) if r.one_in(2) && !sk.is_empty() => sk.decode(r.below(usize::from(sk.len())) as u16).unwrap_or("").to_string(),
            _ => if r.bool() { gen::key(r) } else { gen::shareable_key(r) },
        },
    };
    if depth < 6 && r.one_in(3) {
        match m.get_mut(&k) {
            Some(Doc::Arr(x)) => {
                ensure!(a.get_dict_mut(&k).is_none(), "get_dict_mut of an array");
                let Some(y) = a.get_array_mut(&k) else { return Err(format!("get_array_mut({k:?}) is None")) };
                log.add(format_args!("[{k:?}]"));
                return array_op(y, x, r, sk, log, depth + 1);
            }
            Some(Doc::Dict(x)) => {
                ensure!(a.get_array_mut(&k).is_none(), "get_array_mut of a dict");
                let Some(y) = a.get_dict_mut(&k) else { return Err(format!("get_dict_mut({k:?}) is None")) };
                log.add(format_args!("[{k:?}]"));
                return dict_op(y, x, r, sk, log, depth + 1);
            }
            _ => ensure!(a.get_array_mut(&k).is_none() && a.get_dict_mut(&k).is_none(), "get_array_mut({k:?}) or get_dict_mut of a scalar, or of nothing"),
        }
    }
    match r.below(10) {
        0..=3 => {
            let l = leaf(r);
            log.add(format_args!("insert {k:?} {}", l.brief()));
            with_leaf!(r, &l, |x| a.insert(&k, x));
            m.insert(k, l);
        }
        4 => {
            let (x, d) = new_dict(r, sk)?;
            log.add(format_args!("insert_dict {k:?} of {}", d.len()));
            if r.one_in(3) {
                let v = alloced(&Doc::Dict(d.clone()), r)?;
                let Some(mut v) = v.to_dict() else { return Err("to_dict".into()) };
                if d.is_empty() && r.bool() {
                    v = AllocedDict::empty();
                }
                a.insert_dict(&k, v);
            } else {
                a.insert_dict(&k, x);
            }
            m.insert(k, Doc::Dict(d));
        }
        5 => {
            let (x, d) = new_array(r)?;
            log.add(format_args!("insert_array {k:?} of {}", d.len()));
            if r.one_in(3) {
                let v = alloced(&Doc::Arr(d.clone()), r)?;
                let Some(mut v) = v.to_array() else { return Err("to_array".into()) };
                if d.is_empty() && r.bool() {
                    v = AllocedArray::empty();
                }
                a.insert_array(&k, v);
            } else {
                a.insert_array(&k, x);
            }
            m.insert(k, Doc::Arr(d));
        }
        6 | 7 => {
            log.add(format_args!("remove {k:?}"));
            a.remove(&k);
            m.remove(&k);
        }
        _ => {
            let x = a.clone();
            log.add(format_args!("clone"));
            *a = x;
        }
    }
    Ok(())
}

fn same(what: &str, got: R<Doc>, want: &Doc, log: &Log) -> R {
    let got = got.map_err(|e| format!("{what}: {e}; after {}", log.0))?;
    st::hit("models_compared");
    match want.diff(&got) {
        None => Ok(()),
        Some(e) => Err(format!("{what}: {e}; after {}", log.0)),
    }
}

fn some_sk(r: &mut Rng) -> Arc<SharedKeys> {
    let mut sk = SharedKeys::new();
    for _ in 0..r.below(15) {
        let k = gen::shareable_key(r);
        sk.encode_and_insert(&k);
    }
    if r.one_in(30) {
        // nearly or entirely full
        let n = 2048 - r.below(4);
        for i in 0..n {
            if usize::from(sk.len()) < n {
                sk.encode_and_insert(&format!("key{i}"));
            }
        }
    }
    for k in ["id", "name", "k01", "key1", "a", ""] {
        if r.bool() {
            sk.encode_and_insert(k);
        }
    }
    Arc::new(sk)
}

/// Sizes at which a collection of many elements changes its representation, or which do not fit small types.
const MANY: &[usize] = &[120, 127, 128, 200, 255, 256, 257, 300, 511, 513, 1000, 2040, 2046, 2047, 2048, 2049, 3000];

fn many(r: &mut Rng) -> Vec<Doc> {
    let n = if r.one_in(4) { *r.pick(&[4096, 8192, 16_384, 16_390, 65_535, 65_536, 66_000, 75_000, 131_072]) } else { *r.pick(MANY) };
    let kind = r.below(3);
    (0..n + r.below(3)).map(|i| match kind {
        0 => Doc::Int(i as i128),
        1 => if i % 50 == 49 { leaf(r) } else { Doc::Str(format!("{i}")) },
        _ => if i % 100 == 77 { Doc::Arr(vec![Doc::Int(i as i128)]) } else { Doc::F64(i as f64 / 2.0) },
    }).collect()
}

fn many_array(r: &mut Rng) -> R<(MutableArray, Vec<Doc>)> {
    st::hit("large_mutables");
    let d = many(r);
    if d.len() > 65_536 {
        st::hit("mutable_arrays_beyond_16_bits");
    }
    if r.bool() {
        let mut a = MutableArray::new();
        for x in &d {
            match x {
                Doc::Arr(_) => a.push_fleece(open(&drive::bytes(x, r)?)?),
                x => with_leaf!(r, x, |x| a.push(&x)),
            }
        }
        return Ok((a, d));
    }
    let b = drive::bytes(&Doc::Arr(d.clone()), r)?;
    Ok((Array::from_bytes(&b).map_err(|e| e.to_string())?.to_mutable(), d))
}

fn many_dict(r: &mut Rng, sk: &Arc<SharedKeys>) -> R<(MutableDict, Map)> {
    st::hit("large_mutables");
    let mut d = many(r);
    d.truncate(if r.bool() { 5000 } else { 70_000 });
    if d.len() > 65_536 {
        st::hit("mutable_dicts_beyond_16_bits");
    }
    let m: Map = d.into_iter().enumerate().map(|(i, x)| (format!("key{i}"), x)).collect();
    match r.below(3) {
        0 => {
            let mut a = if r.bool() { MutableDict::new_with_shared_keys(sk.clone()) } else { MutableDict::new() };
            let mut order: Vec<&String> = m.keys().collect();
            r.shuffle(&mut order);
            for k in order {
                match &m[k] {
                    x @ Doc::Arr(_) => {
                        let v = alloced(x, r)?.to_array().ok_or("to_array")?;
                        a.insert_array(k, v);
                    }
                    x => with_leaf!(r, x, |x| a.insert(k, x)),
                }
            }
            Ok((a, m))
        }
        1 => {
            let s = drive::scoped(&Doc::Dict(m.clone()), SharedKeys::new(), r)?;
            Ok((MutableDict::from_scope(&s).ok_or("from_scope of a dict is None")?, m))
        }
        _ => {
            let b = drive::bytes(&Doc::Dict(m.clone()), r)?;
            Ok((Dict::from_bytes(&b).map_err(|e| e.to_string())?.to_mutable(), m))
        }
    }
}

pub fn c18(r: &mut Rng, c: Ctx) -> R<u64> {
    let sk = some_sk(r);
    let large = !c.tiny() && c.case % 100 == 9;
    let every = if large { 50 } else { 4 };
    let (mut a, mut m) = if large { many_array(r)? } else { new_array(r)? };
    let mut log = Log(format!("from {:?};", Doc::Arr(m.clone()).brief()));
    let ops = if c.tiny() { 8 } else { *r.pick(&[5, 20, 60, 150]) };
    for i in 0..ops {
        array_op(&mut a, &mut m, r, Some(&sk), &mut log, 0).map_err(|e| format!("{e}; after {}", log.0))?;
        if i % every == 0 || m.len() < 4 {
            same("a mutable array", observe::marray(&a), &Doc::Arr(m.clone()), &log)?;
        }
    }
    same("a mutable array", observe::marray(&a), &Doc::Arr(m.clone()), &log)?;
    let _ = format!("{a:?}").len();
    st::describe(|| log.0.clone());
    // The iterator, consumed in part
    let n = m.len();
    let mut it = a.iter();
    for i in 0..=n {
        ensure!(it.size_hint() == (n - i, Some(n - i)), "size_hint after {i} of {n} is {:?}", it.size_hint());
        ensure!(it.next().is_some() == (i < n), "next at {i} of {n}");
    }
    ensure!(it.next().is_none() && it.size_hint() == (0, Some(0)), "after the end of the iterator: {:?}", it.size_hint());
    ensure!((&a).into_iter().count() == n, "into_iter yields another number of elements");
    Ok(Doc::Arr(m).fp() ^ hash64(log.0.as_bytes()) | 1)
}

pub fn c19(r: &mut Rng, c: Ctx) -> R<u64> {
    let sk = some_sk(r);
    let large = !c.tiny() && c.case % 100 == 9;
    let every = if large { 50 } else { 4 };
    let (mut a, mut m) = if large { many_dict(r, &sk)? } else if r.bool() { (MutableDict::new_with_shared_keys(sk.clone()), Map::new()) } else { new_dict(r, Some(&sk))? };
    let mut log = Log(format!("from {:?};", Doc::Dict(m.clone()).brief()));
    let ops = if c.tiny() { 8 } else { *r.pick(&[5, 20, 60, 150]) };
    for i in 0..ops {
        dict_op(&mut a, &mut m, r, Some(&sk), &mut log, 0).map_err(|e| format!("{e}; after {}", log.0))?;
        if i % every == 0 || m.len() < 4 {
            same("a mutable dict", observe::mdict(&a), &Doc::Dict(m.clone()), &log)?;
        }
    }
    same("a mutable dict", observe::mdict(&a), &Doc::Dict(m.clone()), &log)?;
    let _ = format!("{a:?}").len();
    st::describe(|| log.0.clone());
    let n = m.len();
    let mut it = a.iter();
    for i in 0..=n {
        ensure!(it.size_hint() == (n - i, Some(n - i)), "size_hint after {i} of {n} is {:?}", it.size_hint());
        ensure!(it.next().is_some() == (i < n), "next at {i} of {n}");
    }
    // The keys outlive the iterator
    let keys: Vec<&str> = (&a).into_iter().map(|(k, _)| k).collect();
    let mut keys: Vec<String> = keys.into_iter().map(str::to_string).collect();
    keys.sort();
    ensure!(keys == m.keys().cloned().collect::<Vec<_>>(), "the keys of the iterator are {keys:?}");
    Ok(Doc::Dict(m).fp() ^ hash64(log.0.as_bytes()) | 1)
}

enum M {
    A(MutableArray),
    D(MutableDict),
}

impl M {
    fn read(&self) -> R<Doc> {
        match self {
            M::A(a) => observe::marray(a),
            M::D(d) => observe::mdict(d),
        }
    }
    fn copy(&self) -> M {
        match self {
            M::A(a) => M::A(a.clone()),
            M::D(d) => M::D(d.clone()),
        }
    }
    fn mutate(&mut self, d: &mut Doc, n: usize, r: &mut Rng, log: &mut Log) -> R {
        for _ in 0..n {
            match (&mut *self, &mut *d) {
                (M::A(a), Doc::Arr(m)) => array_op(a, m, r, None, log, 0)?,
                (M::D(a), Doc::Dict(m)) => dict_op(a, m, r, None, log, 0)?,
                _ => return Err("HARNESS-PANIC kinds".into()),
            }
        }
        Ok(())
    }
}

fn large(r: &mut Rng, x: Vec<Doc>) -> Doc {
    if x.len() > 65_536 {
        st::hit("sources_beyond_16_bits");
    }
    if r.bool() {
        return Doc::Arr(x);
    }
    let most = if r.bool() { 5000 } else { 70_000 };
    Doc::Dict(x.into_iter().take(most).enumerate().map(|(i, x)| (format!("key{i}"), x)).collect())
}

pub fn c20(r: &mut Rng, c: Ctx) -> R<u64> {
    let d = if c.tiny() || r.bool() { gen::small_doc(r) } else { some_doc(r, c) };
    let d = if !c.tiny() && c.case % 150 == 9 {
        let x = many(r);
        large(r, x)
    } else if d.nodes() > 1500 {
        gen::dicty(r)
    } else {
        d
    };
    st::describe(|| format!("{:.600}", format!("{d:?}")));
    let mut log = Log(String::new());
    let how = r.below(9);
    // The source, and what keeps it alive
    let mut bytes: Vec<u8> = vec![];
    let mut scope: Option<Arc<Scope>> = None;
    let mut owned: Option<fleece::alloced::AllocedValue> = None;
    match how {
        0..=2 => bytes = if r.bool() { drive::bytes(&d, r)? } else { refenc::encode(&d, None, refenc::Style::random(r), r) },
        3 | 4 => {
            let b = if r.bool() { drive::bytes(&d, r)? } else { refenc::encode(&d, None, refenc::Style::random(r), r) };
            owned = Some(Value::clone_from_bytes(&b).map_err(|e| e.to_string())?);
        }
        5 => scope = Some(Scope::new(drive::bytes(&d, r)?, r.bool().then(|| Arc::new(SharedKeys::new())))),
        _ => {
            let mut sk = SharedKeys::new();
            if r.bool() {
                let mut keys = vec![];
                collect_keys(&d, &mut keys);
                r.shuffle(&mut keys);
                for k in &keys {
                    sk.encode_and_insert(k);
                }
            }
            scope = Some(drive::scoped(&d, sk, r)?);
        }
    }
    let root: Option<fleece::alloced::AllocedValue> = scope.as_ref().map(|s| s.root().ok_or("no root")).transpose()?.or(owned);
    let before = bytes.clone();
    let v: &Value = match &root {
        Some(v) => v.value(),
        None => open(&bytes)?,
    };
    let k = r.below(5);
    log.add(format_args!("copy {how}/{k}"));
    let mut m = match &d {
        Doc::Arr(_) => {
            let Some(a) = v.as_array() else { return Err("not an array".into()) };
            if let Some(s) = &scope {
                ensure!(MutableDict::from_scope(s).is_none() && MutableDict::try_from(&**s).is_err(), "a mutable dict from a scope with an array");
            }
            M::A(match (k, &root, &scope) {
                (0, _, Some(s)) => MutableArray::from_scope(s).ok_or("from_scope of an array is None")?,
                (1, _, Some(s)) => MutableArray::try_from(&**s).map_err(|()| "try_from a scope with an array fails")?,
                (2, Some(o), _) => MutableArray::from(o.clone().to_array().ok_or("to_array")?),
                (3, _, _) => MutableArray::from(a),
                (4, _, _) => MutableArray::clone_from(a),
                _ => a.to_mutable(),
            })
        }
        _ => {
            let Some(a) = v.as_dict() else { return Err("not a dict".into()) };
            if let Some(s) = &scope {
                ensure!(MutableArray::from_scope(s).is_none() && MutableArray::try_from(&**s).is_err(), "a mutable array from a scope with a dict");
            }
            M::D(match (k, &root, &scope) {
                (0, _, Some(s)) => MutableDict::from_scope(s).ok_or("from_scope of a dict is None")?,
                (1, _, Some(s)) => MutableDict::try_from(&**s).map_err(|()| "try_from a scope with a dict fails")?,
                (2, Some(o), _) => MutableDict::from(o.clone().to_dict().ok_or("to_dict")?),
                (3, _, _) => MutableDict::clone_from(a),
                _ => a.to_mutable(),
            })
        }
    };
    same("a mutable copy", m.read(), &d, &log)?;
    st::hit("copies_compared");
    let mut want = d.clone();
    let n = if c.tiny() { 3 } else { r.range(1, 25) };
    // A clone is independent in both directions.
    let mut m2 = m.copy();
    let mut want2 = d.clone();
    same("a clone", m2.read(), &d, &log)?;
    m.mutate(&mut want, n, r, &mut log).map_err(|e| format!("{e}; after {}", log.0))?;
    same("a mutated copy", m.read(), &want, &log)?;
    same("a clone, after the original was mutated", m2.read(), &d, &log)?;
    let mut log2 = Log("in a clone: ".into());
    m2.mutate(&mut want2, n, r, &mut log2).map_err(|e| format!("{e}; after {}", log2.0))?;
    same("a mutated clone", m2.read(), &want2, &log2)?;
    same("a mutated copy, after its clone was mutated", m.read(), &want, &log)?;
    // The source is as it was.
    observe::expect("the source, after a copy of it was mutated", v, observe::FULL, &d)?;
    ensure!(bytes == before, "the source data has changed");
    if let Some(s) = &scope {
        if let Some(root) = s.root() {
            observe::expect("the scope, after a copy of its root was mutated", &root, observe::FULL, &d)?;
        }
    }
    // The copy does not need it.
    bytes.fill(0xFF);
    drop((bytes, root, scope));
    let junk: Vec<Vec<u8>> = (0..6).map(|i| vec![0xDD; before.len() + 8 * i]).collect();
    std::hint::black_box(&junk);
    same("a mutated copy, whose source is gone", m.read(), &want, &log)?;
    let m3 = m.copy();
    drop(m);
    same("a clone, whose original is gone", m3.read(), &want, &log)?;
    same("a mutated clone", m2.read(), &want2, &log2)?;
    Ok(d.fp() ^ hash64(log.0.as_bytes()) | 1)
}

/// Re-encoding copies the content.
pub fn c21(r: &mut Rng, c: Ctx) -> R<u64> {
    let mut docs: Vec<Doc> = (0..r.range(1, 3)).map(|_| if r.one_in(6) { leaf(r) } else if c.tiny() { gen::small_doc(r) } else { some_doc(r, c) }).collect();
    if !c.tiny() && c.case % 150 == 9 {
        let x = many(r);
        docs[0] = large(r, x);
    }
    st::describe(|| format!("{:.600}", format!("{docs:?}")));
    struct Src {
        bytes: Vec<u8>,
        scope: Option<Arc<Scope>>,
    }
    let mut srcs = vec![];
    let mut common = SharedKeys::new();
    for d in &docs {
        let x = match r.below(4) {
            0 if d.is_collection() => Src { bytes: drive::bytes(d, r)?, scope: None },
            1 | 2 if d.is_collection() => {
                let s = drive::scoped(d, if r.bool() { common.clone() } else { SharedKeys::new() }, r)?;
                if let (Some(t), true) = (s.shared_keys(), r.bool()) {
                    common = (**t).clone();
                }
                Src { bytes: vec![], scope: Some(s) }
            }
            _ => {
                let mut table = HashMap::new();
                let mut sk = SharedKeys::new();
                if r.bool() {
                    let mut keys = vec![];
                    collect_keys(d, &mut keys);
                    r.shuffle(&mut keys);
                    for k in keys {
                        if r.bool() {
                            if let Some(i) = sk.encode_and_insert(&k) {
                                table.insert(k, i);
                            }
                        }
                    }
                }
                let b = refenc::encode(d, Some(&table), refenc::Style::random(r), r);
                Src { scope: Some(Scope::new(b, Some(Arc::new(sk)))), bytes: vec![] }
            }
        };
        srcs.push(x);
    }
    let mut roots = vec![];
    for s in &srcs {
        roots.push(match &s.scope {
            Some(s) => Some(s.root().ok_or("valid data is rejected")?),
            None => None,
        });
    }
    let mut values: Vec<&Value> = vec![];
    for (s, root) in srcs.iter().zip(&roots) {
        values.push(match root {
            Some(v) => v.value(),
            None => open(&s.bytes)?,
        });
    }
    // The target
    let shared = r.below(3);
    let prefix = if r.one_in(4) { vec![0xAB_u8; r.below(40)] } else { vec![] };
    let mut e = if prefix.is_empty() { Encoder::new() } else { Encoder::new_to_vec(prefix.clone()) };
    if shared == 1 {
        e.set_shared_keys(SharedKeys::new());
    } else if shared == 2 {
        e.set_shared_keys(common.clone());
    }
    let form = if docs.len() == 1 && docs[0].is_collection() && r.bool() { 0 } else { r.range(1, 3) };
    let want = match form {
        0 => {
            e.write_fleece(values[0]).map_err(e2s)?;
            docs[0].clone()
        }
        1 => {
            if r.one_in(3) {
                ensure!(docs[0].is_collection() || e.write_fleece(values[0]).is_err(), "a scalar is written without an open collection");
            }
            let mut w = vec![];
            (|| {
                e.begin_array(r.below(4))?;
                for (v, d) in values.iter().zip(&docs) {
                    if r.bool() {
                        let l = if r.bool() { gen::leaf_small(r) } else { r.pick(&[Doc::Null, Doc::Undef, Doc::Bool(true), Doc::Bool(false)]).clone() };
                        match constant(&l) {
                            Some(v) if r.bool() => {
                                e.write_fleece(v)?;
                            }
                            _ => drive::write_leaf(&mut e, &l, r)?,
                        }
                        w.push(l);
                    }
                    e.write_fleece(v)?;
                    w.push(d.clone());
                    // and parts of it
                    if let (Some(a), Doc::Arr(x)) = (v.as_array(), d) {
                        for (v, d) in a.iter().zip(x).take(3) {
                            e.write_fleece(v)?;
                            w.push(d.clone());
                        }
                    }
                    if let (Some(a), Doc::Dict(x)) = (v.as_dict(), d) {
                        for (k, v) in a.iter().take(3) {
                            e.write_fleece(v)?;
                            w.push(x[k].clone());
                        }
                    }
                }
                e.end_array()
            })().map_err(e2s)?;
            Doc::Arr(w)
        }
        _ => {
            let mut w = Map::new();
            let misuse = r.bool();
            (|| {
                e.begin_dict()?;
                for (i, (v, d)) in values.iter().zip(&docs).enumerate() {
                    if misuse && e.write_fleece(v).is_ok() {
                        w.insert("a value without a key was accepted".into(), Doc::Null);
                    }
                    let k = format!("{}{i}", gen::key(r));
                    e.write_key(&k)?;
                    e.write_fleece(v)?;
                    w.insert(k, d.clone());
                    if r.bool() {
                        let k = format!("other{i}");
                        e.write_key(&k)?;
                        e.write_value(i as i64)?;
                        w.insert(k, Doc::Int(i as i128));
                    }
                }
                e.end_dict()
            })().map_err(e2s)?;
            Doc::Dict(w)
        }
    };
    // The source may go now.
    let drop_first = r.bool();
    if drop_first {
        drop(values);
        drop(roots);
        srcs.clear();
    }
    if shared == 0 || !prefix.is_empty() {
        if shared == 0 {
            let out = e.finish();
            ensure!(out[..prefix.len()] == prefix[..], "the data before is changed");
            observe::expect("re-encoded", open(&out)?, observe::FULL, &want)?;
            if prefix.is_empty() && form < 2 {
                let (got, _) = refdec::strict(&out, None).map_err(|e| format!("re-encoded: {e}"))?;
                if let Some(e) = want.diff(&got) {
                    return Err(format!("re-encoded, independent decoder: {e}"));
                }
            }
        } else {
            let s = e.finish_scoped();
            let root = s.root().ok_or("re-encoded data is rejected")?;
            observe::expect("re-encoded with shared keys", &root, observe::Opt { sk: s.shared_keys().map(|x| &**x), probes: true }, &want)?;
        }
    } else {
        let s = e.finish_scoped();
        let root = s.root().ok_or("re-encoded data is rejected")?;
        let table = s.shared_keys().ok_or("no shared keys")?;
        observe::expect("re-encoded with shared keys", &root, observe::Opt { sk: Some(table), probes: true }, &want)?;
        let keys: Vec<String> = (0..table.len()).map_while(|i| table.decode(i).map(str::to_string)).collect();
        let data = s.data().ok_or("no data")?;
        if form < 2 {
            let (got, n) = refdec::strict(&data, Some(&keys)).map_err(|e| format!("re-encoded with shared keys: {e}"))?;
            st::add("shared_keys_written", n as u64);
            if let Some(e) = want.diff(&got) {
                return Err(format!("re-encoded with shared keys, independent decoder: {e}"));
            }
        }
    }
    st::hit("documents_reencoded");
    Ok(if want.nodes() > 1 { want.fp() ^ form as u64 | 1 } else { 0 })
}
