//! C27: what reading, writing and changing cost, in executed branches and in allocated bytes.
//!
//! The variant `cost` is built with coverage instrumentation which calls `__sanitizer_cov_trace_pc` at each edge of
//! the code of this crate, of fleece and of its dependencies. Here it counts, per thread, so the cost of an operation
//! is the same number in each run. An allocator which counts gives the bytes. Bounds are relative to the cost of the
//! same operation on something small, so that they do not depend on how the code is written.
use crate::doc::Doc;
use crate::rng::{hash64, Rng};
use crate::st::{self, R};
use crate::{drive, ensure, gen, refenc, Ctx};
use fleece::{Array, Dict, MutableArray, MutableDict, Scope, SharedKeys, Value};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::hint::black_box;
use std::sync::Arc;

#[cfg(all(fleece_cost, target_arch = "x86_64"))]
mod count {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;

    std::arch::global_asm!(
        ".text", ".globl __sanitizer_cov_trace_pc", "__sanitizer_cov_trace_pc:", "incq %fs:FLEECE_COST_N@tpoff", "ret",
        ".section .tbss,\"awT\",@nobits", ".globl FLEECE_COST_N", ".align 8", ".type FLEECE_COST_N,@object", ".size FLEECE_COST_N,8",
        "FLEECE_COST_N:", ".zero 8", ".text", options(att_syntax)
    );

    pub fn edges() -> u64 {
        let x: u64;
        // SAFETY: reads a thread-local variable of this module
        unsafe { std::arch::asm!("movq %fs:FLEECE_COST_N@tpoff, {}", out(reg) x, options(att_syntax, nostack)) };
        x
    }

    thread_local! {
        static LIVE: Cell<i64> = const { Cell::new(0) };
        static PEAK: Cell<i64> = const { Cell::new(0) };
        static TOTAL: Cell<i64> = const { Cell::new(0) };
    }

    pub struct Counting;

    fn note(n: i64) {
        let _ = LIVE.try_with(|l| {
            l.set(l.get() + n);
            let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
        });
        if n > 0 {
            let _ = TOTAL.try_with(|t| t.set(t.get() + n));
        }
    }

    // SAFETY: passes everything on
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            note(l.size() as i64);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            note(-(l.size() as i64));
            System.dealloc(p, l);
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            note(l.size() as i64);
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            note(n as i64 - l.size() as i64);
            if n > l.size() {
                // which may move all of it
                let _ = TOTAL.try_with(|t| t.set(t.get() + l.size() as i64));
            }
            System.realloc(p, l, n)
        }
    }

    #[global_allocator]
    static ALLOCATOR: Counting = Counting;

    pub fn start() -> (u64, i64, i64) {
        let live = LIVE.with(Cell::get);
        PEAK.with(|p| p.set(live));
        (edges(), live, TOTAL.with(Cell::get))
    }

    pub fn stop(s: (u64, i64, i64)) -> super::Cost {
        super::Cost { edges: edges() - s.0, peak: (PEAK.with(Cell::get) - s.1) as u64, total: (TOTAL.with(Cell::get) - s.2) as u64 }
    }
}

#[cfg(not(all(fleece_cost, target_arch = "x86_64")))]
mod count {
    pub fn start() {}
    pub fn stop((): ()) -> super::Cost {
        panic!("HARNESS: the costs can only be counted in the variant `cost`")
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Cost {
    edges: u64,
    /// the most bytes in use at a time
    peak: u64,
    /// bytes allocated altogether
    total: u64,
}

fn cost<T>(f: impl FnOnce() -> T) -> (Cost, T) {
    let s = count::start();
    let x = black_box(f());
    let c = count::stop(s);
    st::hit("operations_measured");
    st::add("edges_counted", c.edges);
    (c, x)
}

/// The mean and the greatest of several costs.
#[derive(Clone, Copy, Default, Debug)]
struct Many {
    mean: u64,
    max: u64,
    peak: u64,
    total: u64,
}

fn each<T, U>(items: &[T], mut f: impl FnMut(&T) -> R<U>) -> R<Many> {
    let mut m = Many::default();
    let mut sum = 0;
    for x in items {
        let (c, r) = cost(|| f(x));
        r?;
        sum += c.edges;
        m.max = m.max.max(c.edges);
        m.peak = m.peak.max(c.peak);
        m.total = m.total.max(c.total);
    }
    m.mean = sum / items.len().max(1) as u64;
    Ok(m)
}

fn log2(n: usize) -> f64 {
    ((n + 2) as f64).log2()
}

fn bound(what: &str, got: f64, most: f64, how: impl FnOnce() -> String) -> R {
    st::max("percent_of_a_bound_max", (got * 100.0 / most) as u64);
    ensure!(got <= most, "{what}: {}", how());
    Ok(())
}

/// `large` costs no more than `small`, apart from a factor which grows with the logarithm of the size.
fn logarithmic(what: &str, small: (usize, Many), large: (usize, Many)) -> R {
    let f = log2(large.0) / log2(small.0);
    let mean = small.1.mean as f64 * f * 4.0 + 300.0;
    let max = small.1.max as f64 * f * 6.0 + 1500.0;
    st::hit("logarithmic_bounds_checked");
    bound(what, large.1.mean as f64, mean, || format!("{} branches on average for {} entries, but {} for {}", large.1.mean, large.0, small.1.mean, small.0))?;
    bound(what, large.1.max as f64, max, || format!("up to {} branches for {} entries, but {} for {}", large.1.max, large.0, small.1.max, small.0))
}

fn constant(what: &str, small: (usize, Many), large: (usize, Many)) -> R {
    st::hit("constant_bounds_checked");
    bound(what, large.1.mean as f64, small.1.mean as f64 * 4.0 + 200.0, || format!("{} branches on average for {} entries, but {} for {}", large.1.mean, large.0, small.1.mean, small.0))?;
    bound(what, large.1.max as f64, small.1.max as f64 * 6.0 + 1500.0, || format!("up to {} branches for {} entries, but {} for {}", large.1.max, large.0, small.1.max, small.0))
}

/// Per entry, `large` costs no more than `small`; with `sorting`, apart from the logarithm.
fn linear(what: &str, small: (usize, Cost), large: (usize, Cost), sorting: bool) -> R {
    let f = if sorting { log2(large.0) / log2(small.0) } else { 1.0 };
    let per = large.0 as f64 / small.0 as f64;
    // opening depends on nothing but the bytes
    let spare = if what.starts_with("opening") { 2.0 } else { 4.0 };
    st::hit("linear_bounds_checked");
    bound(what, large.1.edges as f64, (small.1.edges as f64 + 300.0) * per * f * spare, || format!("{} branches for {} entries, but {} for {}", large.1.edges, large.0, small.1.edges, small.0))?;
    // vectors which double may waste a factor of two, and again while they are copied
    bound(what, large.1.peak as f64, (small.1.peak as f64 + 256.0) * per * 6.0 + 100_000.0, || format!("{} bytes of memory for {} entries, but {} for {}", large.1.peak, large.0, small.1.peak, small.0))?;
    bound(what, large.1.total as f64, (small.1.total as f64 + 256.0) * per * 10.0 + 200_000.0, || format!("{} bytes allocated for {} entries, but {} for {}", large.1.total, large.0, small.1.total, small.0))?;
    Ok(())
}

/// No copy of the document is made.
fn in_place(what: &str, n: usize, peak: u64, total: u64) -> R {
    st::hit("in_place_bounds_checked");
    bound(what, peak.max(total / 4) as f64, 2048.0, || format!("up to {peak} bytes of memory in use and {total} allocated, for {n} entries"))
}

fn keys(r: &mut Rng, n: usize, style: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..n).map(|i| match style {
        0 => format!("{i:05}"),
        1 => format!("k{i}"),
        2 => format!("a key which is too long to be shared {i}"),
        3 => format!("{}_{i}", i % 13),
        _ => format!("é{i}ü"),
    }).collect();
    if r.bool() {
        r.shuffle(&mut v);
    }
    v
}

fn value(i: usize, style: usize) -> Doc {
    match style {
        0 => Doc::Int(i as i128 % 1000),
        1 => Doc::Str(format!("the value {i}")),
        2 => Doc::Arr(vec![Doc::Int(i as i128), Doc::Str("abc".into())]),
        3 => Doc::F64(i as f64 / 7.0),
        _ => Doc::Dict([("x".to_string(), Doc::Int(i as i128)), ("yy".to_string(), Doc::Bool(true))].into()),
    }
}

fn some<T: Clone>(r: &mut Rng, v: &[T], n: usize) -> Vec<T> {
    let mut out: Vec<T> = v.first().into_iter().chain(v.last()).cloned().collect();
    while out.len() < n {
        out.push(r.pick(v).clone());
    }
    out
}

fn lookups(r: &mut Rng, sizes: [usize; 2]) -> R<u64> {
    let (ks, vs, layout) = (r.below(5), r.below(5), r.below(4));
    // a key table has at most 2048 keys
    let sizes = if layout >= 2 { sizes.map(|n| n.min(2000)) } else { sizes };
    st::describe(|| format!("lookups in dicts of {sizes:?}: keys {ks}, values {vs}, layout {layout}"));
    let style = refenc::Style { share_pct: 0, ..refenc::Style::random(r) };
    let mut gets = vec![];
    let mut absents = vec![];
    let mut mutables = vec![];
    let mut wholes = vec![];
    for n in sizes {
        let k = keys(r, n, ks);
        let m: BTreeMap<String, Doc> = k.iter().enumerate().map(|(i, k)| (k.clone(), value(i, vs))).collect();
        let doc = Doc::Dict(m);
        let present = some(r, &k, 60);
        let absent: Vec<String> = present.iter().map(|k| match r.below(3) { 0 => format!("{k}~"), 1 => k[..k.len() - k.chars().last().map_or(0, char::len_utf8)].to_string() + "\u{1}", _ => format!("\u{1}{k}") }).collect();
        let (owned, scope);
        let seed = r.fork();
        let (x, made) = cost(|| drive::scoped(&doc, SharedKeys::new(), &mut seed.clone()));
        let b = made?.data().ok_or("a scope has no data")?;
        let (y, ok) = cost(|| Value::from_bytes(&b).is_ok());
        ensure!(ok, "the document is refused");
        wholes.push([(n, x), (n, y)]);
        let d: &Dict = match layout {
            0 => {
                owned = drive::exact(&drive::bytes(&doc, r)?);
                Dict::from_bytes(&owned).map_err(|e| e.to_string())?
            }
            1 => {
                owned = drive::exact(&refenc::encode(&doc, None, style, r));
                Dict::from_bytes(&owned).map_err(|e| e.to_string())?
            }
            _ => {
                scope = drive::scoped(&doc, SharedKeys::new(), r)?;
                let Some(root) = scope.root() else { return Err("no root".into()) };
                owned = Box::new([]);
                let _ = &owned;
                // lives as long as the scope
                let root: &Value = unsafe { &*(&*root as *const Value) };
                root.as_dict().ok_or("no dict")?
            }
        };
        let table = (layout == 3).then(|| Scope::find_shared_keys(d.first().map_or(std::ptr::null(), |x| x.0 as *const Value as *const u8))).flatten();
        let got = |k: &String, want: bool| -> R {
            let x = match &table {
                Some(t) => d.get_with_shared_keys(k.as_str(), t),
                None => d.get(k.as_str()),
            };
            ensure!(x.is_some() == want, "the key {k:?} is {}", if want { "not found" } else { "found" });
            Ok(())
        };
        let g = each(&present, |k| got(k, true))?;
        let a = each(&absent, |k| got(k, false))?;
        in_place("lookup in a dict", n, g.peak.max(a.peak), g.total.max(a.total))?;
        gets.push((n, g));
        absents.push((n, a));
        // the first pairs do not depend on the rest
        let f = each(&[0, 1, 2, 3], |i| d.iter().nth(*i).ok_or("no pair".to_string()).map(|x| x.0.len()))?;
        let e = each(&[()], |()| Ok(d.first().is_some() && d.contains_key("x") && !d.is_empty() && d.len() == n))?;
        in_place("the first pairs of a dict", n, f.peak.max(e.peak), f.total.max(e.total))?;
        bound("reading", f.max as f64, 6000.0, || format!("{} branches for the first pairs of a dict of {n}", f.max))?;
        // a whole iteration
        let (all, c) = cost(|| d.iter().count());
        ensure!(c == n, "{c} pairs instead of {n}");
        in_place("iteration of a dict", n, all.peak, all.total)?;
        bound("reading", all.edges as f64, (400 * n as u64 + 3000) as f64, || format!("{} branches for the iteration of a dict of {n}", all.edges))?;
        // a mutable copy
        let mut m = d.to_mutable();
        let p = each(&present, |k| { ensure!(m.contains_key(k), "the key {k:?} is not in the copy"); Ok(()) })?;
        let q = each(&present, |k| {
            let found = match vs { 0 | 1 | 3 => m.get(k).is_some(), 2 => m.get_array(k).is_some(), _ => m.get_dict(k).is_some() };
            ensure!(found, "the key {k:?} is not in the copy");
            Ok(())
        })?;
        let t = each(&absent, |k| {
            let found = match vs { 0 | 1 | 3 => m.get(k).is_some(), 2 => m.get_array_mut(k).is_some(), _ => m.get_dict_mut(k).is_some() };
            ensure!(!found, "the key {k:?} is in the copy");
            Ok(())
        })?;
        let i = each(&present, |k| { m.insert(k, 5_u8); Ok(()) })?;
        let l = each(&[(), (), ()], |()| Ok(m.len() == n && !m.is_empty() && m.iter().size_hint().0 == n))?;
        let w = each(&[0, 1, 2], |k| Ok(m.iter().nth(*k).is_some()))?;
        let gone = each(&present, |k| { m.remove(k); m.insert(k, 6_u8); Ok(()) })?;
        in_place("the length of a mutable dict", n, l.peak.max(w.peak), l.total.max(w.total))?;
        in_place("lookup in a mutable dict", n, p.peak.max(q.peak).max(t.peak), p.total.max(q.total).max(t.total))?;
        let (all, c) = cost(|| m.iter().count());
        ensure!(c == n, "{c} pairs instead of {n} in the mutable copy");
        in_place("iteration of a mutable dict", n, all.peak, all.total)?;
        bound("reading", all.edges as f64, (300 * n as u64 + 3000) as f64, || format!("{} branches for the iteration of a mutable dict of {n}", all.edges))?;
        mutables.push([(n, p), (n, q), (n, t), (n, i), (n, l), (n, w), (n, gone)]);
    }
    linear("encoding a dict with a key table", wholes[0][0], wholes[1][0], true)?;
    linear("opening a dict with a key table", wholes[0][1], wholes[1][1], false)?;
    logarithmic("lookup of a key", gets[0], gets[1])?;
    logarithmic("lookup of an absent key", absents[0], absents[1])?;
    for (i, what) in ["the presence of a key in a mutable dict", "lookup in a mutable dict", "lookup of an absent key in a mutable dict", "replacing a value in a mutable dict", "the length of a mutable dict", "the first pairs of a mutable dict", "removing from a mutable dict"].into_iter().enumerate() {
        logarithmic(what, mutables[0][i], mutables[1][i])?;
    }
    Ok(hash64(&[ks as u8, vs as u8, layout as u8]))
}

fn indexing(r: &mut Rng, sizes: [usize; 2]) -> R<u64> {
    let (vs, layout) = (r.below(5), r.below(2));
    st::describe(|| format!("indexing of arrays of {sizes:?}: values {vs}, layout {layout}"));
    let style = refenc::Style::random(r);
    let (mut gets, mut nths, mut muts, mut sizes_of) = (vec![], vec![], vec![], vec![]);
    for n in sizes {
        let doc = Doc::Arr((0..n).map(|i| value(i, vs)).collect());
        let b = drive::exact(&if layout == 0 { drive::bytes(&doc, r)? } else { refenc::encode(&doc, None, style, r) });
        let a = Array::from_bytes(&b).map_err(|e| e.to_string())?;
        let mut at: Vec<usize> = (0..40).map(|_| r.below(n)).collect();
        at.extend([0, n - 1, n / 2]);
        let g = each(&at, |i| a.get(*i).ok_or("no element".to_string()).map(Value::value_type))?;
        let p = each(&at, |i| { ensure!(a.get(n + i).is_none(), "an element after the end"); Ok(()) })?;
        let t = each(&at, |i| a.iter().nth(*i).ok_or("no element".to_string()).map(Value::value_type))?;
        let s = each(&at, |i| { let mut x = a.iter(); x.nth(*i); Ok(x.next().map(Value::value_type)) })?;
        in_place("indexing of an array", n, g.peak.max(t.peak).max(p.peak).max(s.peak), g.total.max(t.total).max(p.total).max(s.total))?;
        let (all, c) = cost(|| a.iter().map(Value::value_type).count());
        ensure!(c == n, "{c} elements instead of {n}");
        in_place("iteration of an array", n, all.peak, all.total)?;
        bound("reading", all.edges as f64, (200 * n as u64 + 2000) as f64, || format!("{} branches for the iteration of an array of {n}", all.edges))?;
        let mut m = a.to_mutable();
        let ml = each(&[(), (), ()], |()| Ok(m.len() == n && !m.is_empty() && m.iter().size_hint().0 == n && m.get(n).is_none()))?;
        let mw = each(&[0, 1, 2], |k| Ok(m.iter().nth(*k).is_some()))?;
        in_place("the length of a mutable array", n, ml.peak.max(mw.peak), ml.total.max(mw.total))?;
        let al = each(&[(), (), ()], |()| Ok(a.len() == n && !a.is_empty() && a.iter().size_hint().0 == n && a.iter().next().is_some()))?;
        let mg = each(&at, |i| Ok(m.get(*i).is_some() || m.get_array(*i).is_some() || m.get_dict(*i).is_some()))?;
        in_place("indexing of a mutable array", n, mg.peak, mg.total)?;
        let ms = each(&at, |i| { m.set(*i, 5_u8); Ok(()) })?;
        gets.push((n, g));
        gets.push((n, p));
        nths.push((n, t));
        nths.push((n, s));
        muts.push((n, mg));
        muts.push((n, ms));
        sizes_of.push([(n, ml), (n, mw), (n, al)]);
    }
    for (i, what) in ["the length of a mutable array", "the first elements of a mutable array", "the length and the first element of an array"].into_iter().enumerate() {
        constant(what, sizes_of[0][i], sizes_of[1][i])?;
    }
    for i in 0..2 {
        constant("indexing", gets[i], gets[i + 2])?;
        // nothing promises that skipping is more than the iteration of what is skipped
        bound("reading", nths[i + 2].1.max as f64, 200.0 * sizes[1] as f64 + 2000.0, || format!("{} branches for skipping in an array of {}", nths[i + 2].1.max, sizes[1]))?;
        constant("indexing of a mutable array", muts[i], muts[i + 2])?;
    }
    Ok(hash64(&[9, vs as u8, layout as u8]))
}

/// A document which is n times as large as the part.
fn repeat(r: &mut Rng, part: &Doc, n: usize, shape: usize) -> Doc {
    let _ = r;
    match shape {
        0 => Doc::Arr(vec![part.clone(); n]),
        1 => Doc::Dict((0..n).map(|i| (format!("{i:x}"), part.clone())).collect()),
        2 => Doc::Dict((0..n).map(|i| (format!("a long key of the number {}", (i * 7919) % 100_003), part.clone())).collect()),
        _ => {
            let per = (n as f64).sqrt() as usize;
            Doc::Arr((0..n.div_ceil(per)).map(|i| Doc::Arr(vec![part.clone(); per.min(n - i * per)])).collect())
        }
    }
}

fn whole(r: &mut Rng, sizes: [usize; 2]) -> R<u64> {
    let part = if r.bool() { value(r.below(1000), r.below(5)) } else { gen::small_doc(r) };
    let sizes = if part.nodes() > 30 { sizes.map(|n| n.min(1500)) } else { sizes };
    let shape = r.below(4);
    let other = r.bool();
    let style = refenc::Style { share_pct: 0, ..refenc::Style::random(r) };
    st::describe(|| format!("documents of {sizes:?} parts in shape {shape}, a part is {:.200}", format!("{part:?}")));
    let mut c: Vec<Vec<(&'static str, Cost)>> = vec![];
    let mut asked = vec![];
    for n in sizes {
        let doc = repeat(r, &part, n, shape);
        let mut v = vec![];
        let seed = r.fork();
        let (x, b) = cost(|| drive::bytes(&doc, &mut seed.clone()));
        v.push(("encoding", x));
        let mut b = drive::exact(&b?);
        if other {
            b = drive::exact(&refenc::encode(&doc, None, style, r));
        }
        let (x, ok) = cost(|| Value::from_bytes(&b).is_ok());
        ensure!(ok, "the document is refused");
        in_place("opening a document", n, x.peak, x.total)?;
        v.push(("opening", x));
        let root = Value::from_bytes(&b).map_err(|e| e.to_string())?;
        let (x, o) = cost(|| Value::clone_from_bytes(&b).is_ok());
        ensure!(o, "the document is refused");
        ensure!(x.peak <= b.len() as u64 * 2 + 2048, "an owned value of {} bytes uses {} bytes of memory", b.len(), x.peak);
        v.push(("an owned value", x));
        // What an owned value and a scope are asked for does not depend on their size.
        let own = Value::clone_from_bytes(&b).map_err(|e| e.to_string())?;
        let o = each(&[(), (), ()], |()| {
            let copy = own.clone();
            let array = own.clone().to_array().map(|a| a.clone().len());
            let dict = own.clone().to_dict().map(|d| d.clone().len());
            Ok((copy.value_type(), array, dict))
        })?;
        in_place("copies of an owned value", n, o.peak, o.total)?;
        drop(own);
        let arc: Arc<[u8]> = Arc::from(&b[..]);
        let kept = Scope::new(arc.clone(), None);
        let k = each(&[(), (), ()], |()| Ok((kept.data().is_some(), kept.range(), kept.root().is_some())))?;
        in_place("what a scope is asked for", n, k.peak, k.total)?;
        drop(kept);
        asked.push([(n, o), (n, k)]);
        let (x, s) = cost(|| Scope::new(arc.clone(), None));
        ensure!(x.peak <= b.len() as u64 + 4096, "a scope of shared data of {} bytes uses {} bytes of memory", b.len(), x.peak);
        v.push(("a scope", x));
        drop(s);
        let (x, ok) = cost(|| {
            let mut e = fleece::Encoder::new();
            e.write_fleece(root).map(|()| e.finish().len())
        });
        ok.map_err(drive::e2s)?;
        v.push(("re-encoding", x));
        if let Some(a) = root.as_array() {
            let (x, m) = cost(|| a.to_mutable());
            v.push(("a mutable copy", x));
            let (x, _m) = cost(|| MutableArray::clone(&m));
            v.push(("a clone of a mutable array", x));
            let (x, mut g) = cost(|| {
                let mut g = MutableArray::new();
                for i in 0..n {
                    g.push(&i);
                }
                g
            });
            v.push(("pushing", x));
            let (x, ()) = cost(|| {
                while !g.is_empty() {
                    g.remove(g.len() - 1);
                }
            });
            v.push(("removing from the end", x));
        }
        if let Some(d) = root.as_dict() {
            let (x, m) = cost(|| d.to_mutable());
            v.push(("a mutable copy (dict)", x));
            let (x, _m) = cost(|| MutableDict::clone(&m));
            v.push(("a clone of a mutable dict", x));
            let names: Vec<String> = d.iter().map(|x| x.0.to_string()).collect();
            let (x, mut g) = cost(|| {
                let mut g = MutableDict::new();
                for k in &names {
                    g.insert(k, 5_u8);
                }
                g
            });
            v.push(("inserting", x));
            let (x, ()) = cost(|| {
                for k in &names {
                    g.remove(k);
                }
            });
            v.push(("removing", x));
        }
        let (x, t) = cost(|| drive::scoped(&doc, SharedKeys::new(), &mut seed.clone()));
        let t = t?;
        v.push(("encoding with a key table", x));
        let b = t.data().ok_or("a scope has no data")?;
        let (x, ok) = cost(|| Value::from_bytes(&b).is_ok());
        ensure!(ok, "the document is refused");
        in_place("opening a document", n, x.peak, x.total)?;
        v.push(("opening with a key table", x));
        let (x, n2) = cost(|| t.root().map(|x| walk(&x)));
        // an iterator of a dict is on the heap, so this depends on the depth and on the number of dicts
        bound("reading", x.peak as f64, 100_000.0, || format!("{} bytes of memory in use to read a document of {n} parts", x.peak))?;
        v.push(("reading with a key table", x));
        ensure!(n2 == Some(doc.nodes()), "{n2:?} values instead of {}", doc.nodes());
        let (x, n2) = cost(|| walk(root));
        v.push(("reading", x));
        ensure!(n2 == doc.nodes(), "{n2} values instead of {}", doc.nodes());
        let (x, t) = cost(|| format!("{root:?}").len());
        v.push(("the debug text", x));
        ensure!(t > 0, "no text");
        c.push(v);
    }
    constant("copies of an owned value", asked[0][0], asked[1][0])?;
    constant("what a scope is asked for", asked[0][1], asked[1][1])?;
    for (a, b) in c[0].iter().zip(&c[1]) {
        let sorting = a.0.starts_with("encoding") || a.0.contains("dict") || a.0 == "inserting" || a.0 == "removing";
        linear(a.0, (sizes[0], a.1), (sizes[1], b.1), sorting)?;
    }
    Ok(part.fp() ^ shape as u64)
}

fn walk(v: &Value) -> usize {
    1 + if let Some(a) = v.as_array() {
        a.iter().map(walk).sum::<usize>()
    } else if let Some(d) = v.as_dict() {
        d.iter().map(|x| walk(x.1)).sum::<usize>()
    } else {
        v.to_str().len() / (1 << 40)
    }
}

fn tables(r: &mut Rng) -> R<u64> {
    let sizes = [r.range(8, 30), r.range(1200, 2040)];
    let style = *r.pick(&[0, 1, 3, 4]);
    st::describe(|| format!("key tables of {sizes:?}, keys {style}"));
    let (mut enc, mut dec, mut abs, mut state, mut restore, mut insert, mut lens) = (vec![], vec![], vec![], vec![], vec![], vec![], vec![]);
    for n in sizes {
        let k = keys(r, n, style);
        let (x, t) = cost(|| {
            let mut t = SharedKeys::new();
            for k in &k {
                if t.encode_and_insert(k).is_none() {
                    return Err(format!("the table does not take {k:?}"));
                }
            }
            Ok(t)
        });
        let t = t?;
        insert.push((n, x));
        let probe = some(r, &k, 60);
        let e = each(&probe, |k| t.encode(k).ok_or(format!("{k:?} is not found")))?;
        let d = each(&probe, |k| t.decode(t.encode(k).unwrap_or(0)).ok_or("not decoded".to_string()).map(str::len))?;
        let a = each(&probe, |k| { ensure!(t.encode(&format!("{k}-")).is_none() || k.len() > 15, "found"); Ok(()) })?;
        in_place("a key table", n, e.peak.max(d.peak), e.total.max(d.total))?;
        let l = each(&[(), (), ()], |()| Ok((t.len(), t.is_empty(), t.can_add("another"), t.can_add("not eligible"), t.iter().next().is_some())))?;
        in_place("the length of a key table", n, l.peak, l.total)?;
        lens.push((n, l));
        enc.push((n, e));
        dec.push((n, d));
        abs.push((n, a));
        let (x, s) = cost(|| t.get_state_bytes());
        state.push((n, x));
        let (x, u) = cost(|| SharedKeys::from_state_bytes(&s));
        restore.push((n, x));
        ensure!(u.is_some_and(|u| u.len() as usize == n), "the table is not restored");
    }
    constant("the length of a key table", lens[0], lens[1])?;
    constant("the integer of a key", enc[0], enc[1])?;
    constant("the key of an integer", dec[0], dec[1])?;
    constant("the integer of an absent key", abs[0], abs[1])?;
    linear("building a key table", insert[0], insert[1], false)?;
    linear("saving a key table", state[0], state[1], false)?;
    linear("restoring a key table", restore[0], restore[1], false)?;
    Ok(hash64(&[7, style as u8]))
}

fn scopes(r: &mut Rng) -> R<u64> {
    let sizes = [r.range(4, 20), r.range(800, 3000)];
    st::describe(|| format!("{sizes:?} scopes"));
    let (mut find, mut out, mut make, mut gone) = (vec![], vec![], vec![], vec![]);
    let sk = Arc::new(SharedKeys::new());
    for n in sizes {
        let len = r.range(4, 60);
        let data: Vec<Arc<[u8]>> = (0..n + 60).map(|_| Arc::from(vec![0x30_u8; len * 2])).collect();
        let mut live: Vec<Arc<Scope>> = data[..n].iter().map(|d| Scope::new(d.clone(), Some(sk.clone()))).collect();
        let at: Vec<usize> = (0..60).map(|_| r.below(n)).collect();
        let f = each(&at, |i| { ensure!(Scope::containing(data[*i].as_ptr()).is_some_and(|s| Arc::ptr_eq(&s, &live[*i])), "scope {i} is not found"); Ok(()) })?;
        let o = each(&at, |i| { ensure!(Scope::find_shared_keys((i as *const usize).cast()).is_none(), "a scope contains the stack"); Ok(()) })?;
        in_place("finding a scope", n, f.peak, f.total)?;
        find.push((n, f));
        out.push((n, o));
        let new: Vec<usize> = (n..n + 60).collect();
        live.reserve(60);
        let m = each(&new, |i| { live.push(Scope::new(data[*i].clone(), None)); Ok(()) })?;
        ensure!(m.total <= 40_000, "{} bytes allocated for a scope, when there are {n}", m.total);
        make.push((n, m));
        let d = each(&at, |_| { let i = live.len() / 2; drop(live.swap_remove(i)); Ok(()) })?;
        gone.push((n, d));
    }
    logarithmic("finding a scope", find[0], find[1])?;
    logarithmic("finding no scope", out[0], out[1])?;
    logarithmic("registering a scope", make[0], make[1])?;
    logarithmic("dropping a scope", gone[0], gone[1])?;
    Ok(11)
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Person {
    name: String,
    age: u32,
    tags: Vec<String>,
    home: Option<Home>,
    kind: Kind,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Home {
    lat: f64,
    lon: f64,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Kind {
    One,
    Two(u64, i8),
    Three { text: String },
}

fn serde_(r: &mut Rng, sizes: [usize; 2]) -> R<u64> {
    let map = r.bool();
    st::describe(|| format!("serde with {sizes:?} records, as a map: {map}"));
    let mut c: Vec<Vec<(&'static str, Cost)>> = vec![];
    for n in sizes {
        let n = n.min(4000);
        let people: Vec<Person> = (0..n).map(|i| Person {
            name: format!("person {i}"),
            age: i as u32,
            tags: (0..i % 4).map(|k| format!("tag{k}")).collect(),
            home: (i % 3 != 0).then(|| Home { lat: i as f64 / 3.0, lon: -1.5 }),
            kind: match i % 3 { 0 => Kind::One, 1 => Kind::Two(i as u64, -1), _ => Kind::Three { text: "abc".into() } },
        }).collect();
        let mut v = vec![];
        if map {
            let m: HashMap<String, Person> = people.into_iter().map(|p| (p.name.clone(), p)).collect();
            let (x, b) = cost(|| fleece::to_bytes(&m));
            v.push(("serialization", x));
            let b = b.map_err(|e| e.to_string())?;
            let (x, back) = cost(|| fleece::from_bytes::<HashMap<String, Person>>(&b));
            v.push(("deserialization", x));
            ensure!(back.map_err(|e| e.to_string())? == m, "the map has changed");
        } else {
            let (x, b) = cost(|| fleece::to_bytes(&people));
            v.push(("serialization", x));
            let b = b.map_err(|e| e.to_string())?;
            let (x, back) = cost(|| fleece::from_bytes::<Vec<Person>>(&b));
            v.push(("deserialization", x));
            ensure!(back.map_err(|e| e.to_string())? == people, "the list has changed");
        }
        c.push(v);
    }
    for (a, b) in c[0].iter().zip(&c[1]) {
        linear(a.0, (sizes[0].min(4000), a.1), (sizes[1].min(4000), b.1), true)?;
    }
    Ok(hash64(&[5, u8::from(map)]))
}

pub fn c27(r: &mut Rng, c: Ctx) -> R<u64> {
    let _ = c;
    // what is set up once in a thread is no cost of the first operation
    let _ = Scope::containing(std::ptr::null());
    let small = r.range(8, 60);
    let large = small * r.range(24, 400);
    let sizes = [small, large];
    let kind = r.below(20);
    let fp = match kind {
        0..=6 => lookups(r, sizes)?,
        7..=9 => indexing(r, sizes)?,
        10..=14 => whole(r, [small, large.min(6000)])?,
        15 => tables(r)?,
        16 | 17 => scopes(r)?,
        _ => serde_(r, sizes)?,
    };
    Ok(hash64(&[fp.to_le_bytes(), (small as u64).to_le_bytes(), (large as u64).to_le_bytes()].concat()) | 1)
}
