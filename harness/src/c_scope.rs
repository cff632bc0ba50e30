//! C15–C17: which scope a pointer belongs to, also under concurrency, and the life of owned values.
use crate::doc::Doc;
use crate::drive::{self, e2s};
use crate::rng::Rng;
use crate::st::{self, R};
use crate::{ensure, gen, observe, Ctx, Variant};
use fleece::alloced::{AllocedArray, AllocedDict, AllocedValue};
use fleece::{Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

/// A table whose keys are in an order of its own, so that the wrong table leads to the wrong values.
fn table(r: &mut Rng, id: u64) -> SharedKeys {
    let mut sk = SharedKeys::new();
    sk.encode_and_insert(&format!("s{id}"));
    let mut names = ["name", "age", "type", "x", "yy", "id", "tags", "n0", "n1", "n2"];
    r.shuffle(&mut names);
    for n in &names[..r.range(0, 10)] {
        sk.encode_and_insert(n);
    }
    sk
}

fn record(r: &mut Rng, id: u64) -> Doc {
    let mut m = BTreeMap::new();
    m.insert(format!("s{id}"), Doc::Int(i128::from(id)));
    for n in ["name", "age", "type", "x", "yy", "id", "tags", "n0", "not eligible"] {
        if r.one_in(3) {
            continue;
        }
        m.insert(n.to_string(), match r.below(4) {
            0 => Doc::Int(i128::from(id) * 3 + n.len() as i128),
            1 => Doc::Str(format!("{n} of {id}")),
            2 => Doc::Arr(vec![Doc::Int(i128::from(id)), Doc::Dict([("name".to_string(), Doc::Str(format!("inner {id}")))].into())]),
            _ => Doc::Dict([("x".to_string(), Doc::Int(1)), ("yy".to_string(), Doc::Int(i128::from(id)))].into()),
        });
    }
    if r.bool() { Doc::Dict(m) } else { Doc::Arr(vec![Doc::Dict(m.clone()), Doc::Int(1), Doc::Dict(m)]) }
}

struct Live {
    scope: Arc<Scope>,
    keep: Arc<[u8]>,
    doc: Option<Doc>,
    sk: Option<Arc<SharedKeys>>,
    bytes: Vec<u8>,
    registered: bool,
}

type Job = Box<dyn FnOnce() + Send>;

/// A second thread which does what it is told while the first one waits.
struct Other {
    jobs: Option<std::sync::mpsc::Sender<Job>>,
    done: std::sync::mpsc::Receiver<()>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Other {
    fn new() -> Self {
        let (jobs, todo) = std::sync::mpsc::channel::<Job>();
        let (tell, done) = std::sync::mpsc::channel();
        let thread = std::thread::spawn(move || {
            while let Ok(job) = todo.recv() {
                job();
                if tell.send(()).is_err() {
                    break;
                }
            }
        });
        Other { jobs: Some(jobs), done, thread: Some(thread) }
    }

    /// A panic of the job ends the thread, and is reported as an error here.
    fn run(&self, job: impl FnOnce() + Send + 'static) -> R<()> {
        st::hit("operations_by_a_second_thread");
        let sent = self.jobs.as_ref().is_some_and(|j| j.send(Box::new(job)).is_ok());
        ensure!(sent && self.done.recv().is_ok(), "an operation in a second thread panicked");
        Ok(())
    }

    fn find(&self, p: usize) -> R<Option<Arc<Scope>>> {
        let (tx, rx) = std::sync::mpsc::channel();
        self.run(move || { let _ = tx.send(Scope::containing(p as *const u8)); })?;
        rx.recv().map_err(|_| "no answer from the second thread".to_string())
    }
}

impl Drop for Other {
    fn drop(&mut self) {
        self.jobs = None;
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

/// One thread at a time: `containing` is exactly the registered scope whose data holds the pointer.
pub fn c15(r: &mut Rng, c: Ctx) -> R<u64> {
    let mut live: Vec<Live> = vec![];
    // Data of scopes that are gone, to be opened again.
    let mut kept: Vec<(Arc<[u8]>, Option<Doc>, Option<Arc<SharedKeys>>)> = vec![];
    let mut roots: Vec<(AllocedValue, Option<Doc>)> = vec![];
    let mut gone: Vec<(usize, usize)> = vec![];
    let mut log = String::new();
    let other = r.one_in(3).then(Other::new);
    let mut id = c.case * 100;
    let steps = if c.tiny() { 14 } else { r.range(20, 120) };
    let sizes = [0, 1, 2, 3, 8, 15, 16, 17, 24, 32, 48, 64, 100, 1000];
    let same_size = r.bool().then(|| *r.pick(&sizes[3..]));
    for _ in 0..steps {
        id += 1;
        let op = r.weighted(&[10, 6, 4, 4, 3, 4, 2]);
        log.push_str(&format!("{op}"));
        match op {
            // a document with shared keys, or other data
            0 => {
                let l = match r.below(4) {
                    0 => {
                        let d = record(r, id);
                        let s = drive::scoped(&d, table(r, id), r)?;
                        let (Some(sk), Some(keep)) = (s.shared_keys().cloned(), s.data()) else { return Err("finish_scoped: no shared keys or no data".into()) };
                        Live { bytes: keep.to_vec(), scope: s, keep, doc: Some(d), sk: Some(sk), registered: true }
                    }
                    1 => {
                        let d = record(r, id);
                        let b = drive::bytes(&d, r)?;
                        let sk = r.bool().then(|| Arc::new(SharedKeys::new()));
                        let s = Scope::new(b.clone(), sk.clone());
                        let Some(keep) = s.data() else { return Err("no data".into()) };
                        Live { scope: s, keep, doc: Some(d), sk, bytes: b, registered: true }
                    }
                    _ => {
                        let n = same_size.unwrap_or(*r.pick(&sizes));
                        let b: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
                        let sk = r.bool().then(|| Arc::new(table(r, id)));
                        let s = match r.below(3) {
                            0 => Scope::new(b.clone(), sk.clone()),
                            1 => Scope::new(b.clone().into_boxed_slice(), sk.clone()),
                            _ => Scope::new(Arc::<[u8]>::from(&b[..]), sk.clone()),
                        };
                        ensure!(s.root().is_some() == Value::from_bytes(&b).is_ok(), "root of a scope of {b:02x?}");
                        let Some(keep) = s.data() else { return Err("no data".into()) };
                        Live { scope: s, keep, doc: None, sk, bytes: b, registered: n > 0 }
                    }
                };
                ensure!(l.scope.shared_keys().is_some() == l.sk.is_some() && l.scope.shared_keys().zip(l.sk.as_ref()).is_none_or(|(a, b)| Arc::ptr_eq(a, b)), "a scope has other shared keys than it was given");
                st::hit("scopes_created");
                live.push(l);
            }
            // drop
            1 if !live.is_empty() => {
                let at = r.below(live.len());
                let l = live.swap_remove(at);
                gone.push((l.keep.as_ptr() as usize, l.bytes.len()));
                if let Some(o) = other.as_ref().filter(|_| r.bool()) {
                    let s = l.scope.clone();
                    o.run(move || drop(s))?;
                }
                if r.one_in(3) {
                    if let Some(root) = l.scope.root() {
                        roots.push((root, if l.sk.is_none() { l.doc.clone() } else { None }));
                    }
                }
                if r.one_in(3) {
                    kept.push((l.keep.clone(), l.doc.clone(), l.sk.clone()));
                }
                if let Some(o) = other.as_ref().filter(|_| r.bool()) {
                    o.run(move || drop(l))?;
                }
                st::hit("scopes_dropped");
            }
            // remove
            2 if !live.is_empty() => {
                let at = r.below(live.len());
                if live[at].registered {
                    match other.as_ref().filter(|_| r.bool()) {
                        Some(o) => {
                            let s = live[at].scope.clone();
                            o.run(move || s.remove())?;
                        }
                        None => live[at].scope.remove(),
                    }
                    live[at].registered = false;
                    st::hit("scopes_removed");
                    if r.bool() {
                        live[at].scope.remove();
                    }
                }
            }
            // open the data of a scope which is gone again
            3 if !kept.is_empty() => {
                let at = r.below(kept.len());
                let (keep, doc, sk) = kept.swap_remove(at);
                if live.iter().any(|l| Arc::ptr_eq(&l.keep, &keep)) {
                    continue;
                }
                let s = Scope::new(keep.clone(), sk.clone());
                st::hit("scopes_reopened");
                ensure!(s.data().is_some_and(|d| Arc::ptr_eq(&d, &keep)), "a scope over an Arc has other data");
                let n = keep.len();
                live.push(Live { scope: s, bytes: keep.to_vec(), keep, doc, sk, registered: n > 0 });
            }
            4 => {
                // churn the heap
                let v: Vec<Vec<u8>> = (0..r.below(20)).map(|_| vec![0xDD; *r.pick(&sizes)]).collect();
                std::hint::black_box(&v);
                if r.one_in(4) {
                    roots.clear();
                    kept.clear();
                }
            }
            5 if !live.is_empty() => {
                // A scope which is found keeps its data.
                let at = r.below(live.len());
                if live[at].registered {
                    let p = live[at].keep.as_ptr();
                    let Some(found) = Scope::containing(p) else { return Err("a live scope is not found".into()) };
                    let l = live.swap_remove(at);
                    let bytes = l.bytes.clone();
                    drop(l);
                    let again = Scope::containing(p);
                    ensure!(again.is_some_and(|a| Arc::ptr_eq(&a, &found)), "a scope is not found although a reference to it remains");
                    ensure!(found.data().as_deref() == Some(&bytes[..]), "a scope has lost its data");
                    drop(found);
                    ensure!(Scope::containing(p).is_none(), "a scope is found after all references are gone");
                    gone.push((p as usize, bytes.len()));
                    st::hit("scopes_kept_by_lookup");
                }
            }
            6 if !live.is_empty() => {
                // equality
                let (a, b) = (r.below(live.len()), r.below(live.len()));
                ensure!((*live[a].scope == *live[b].scope) == (a == b), "equality of scopes");
            }
            _ => {}
        }
        // Look at all the boundaries.
        for (i, l) in live.iter().enumerate() {
            let (start, n) = (l.keep.as_ptr() as usize, l.bytes.len());
            ensure!(l.scope.range() == Some(start..start + n), "the range of a scope is {:x?} instead of {start:x}+{n}", l.scope.range());
            let mut probes = vec![];
            if n > 0 {
                probes.extend([0, n - 1, n / 2, r.below(n)]);
            }
            for p in probes {
                let f = match other.as_ref().filter(|_| r.one_in(10)) {
                    Some(o) => o.find(start + p)?,
                    None => Scope::containing((start + p) as *const u8),
                };
                st::hit("pointers_looked_up");
                if l.registered {
                    let Some(f) = f else { return Err(format!("step {log}: the scope {i} of {n} bytes is not found by its byte {p}")) };
                    ensure!(Arc::ptr_eq(&f, &l.scope), "step {log}: another scope is found by the byte {p} of {n} of the scope {i}");
                    let k = Scope::find_shared_keys((start + p) as *const u8);
                    ensure!(k.is_some() == l.sk.is_some() && k.zip(l.sk.as_ref()).is_none_or(|(a, b)| Arc::ptr_eq(&a, b)), "step {log}: other shared keys are found by the byte {p} of {n} of the scope {i}");
                } else {
                    ensure!(f.is_none() && Scope::find_shared_keys((start + p) as *const u8).is_none(), "step {log}: a removed scope is found by the byte {p} of {n}");
                }
            }
            for p in [start.wrapping_sub(1), start + n, start + n + 1] {
                // There is always a header of an `Arc` between two scopes.
                if live.iter().any(|o| (o.keep.as_ptr() as usize..o.keep.as_ptr() as usize + o.bytes.len()).contains(&p)) {
                    continue;
                }
                ensure!(Scope::containing(p as *const u8).is_none(), "step {log}: a scope is found by a pointer {} bytes from the start of the scope {i} of {n}", p as isize - start as isize);
                st::hit("pointers_outside_looked_up");
            }
            if let Some(d) = l.doc.as_ref().filter(|_| r.one_in(3)) {
                let Some(root) = l.scope.root() else { return Err("no root".into()) };
                if l.registered || l.sk.is_none() {
                    observe::expect("a live scope", &root, observe::Opt { sk: l.sk.as_deref(), probes: false }, d)?;
                } else {
                    ensure!(root.value().as_array().is_some() == matches!(d, Doc::Arr(_)), "the root of a removed scope");
                }
                ensure!(l.scope.data().as_deref() == Some(&l.bytes[..]), "a scope has other data");
            }
        }
        gone.retain(|_| !r.one_in(40));
        for (start, n) in &gone {
            for p in [*start, start + n / 2, start + n.saturating_sub(1)] {
                let owner = live.iter().find(|o| o.registered && (o.keep.as_ptr() as usize..o.keep.as_ptr() as usize + o.bytes.len()).contains(&p));
                let f = match other.as_ref().filter(|_| r.one_in(10)) {
                    Some(o) => o.find(p)?,
                    None => Scope::containing(p as *const u8),
                };
                st::hit("freed_pointers_looked_up");
                match owner {
                    None => ensure!(f.is_none(), "step {log}: a scope is found by a pointer into a dropped one"),
                    Some(o) => {
                        st::hit("reused_addresses_looked_up");
                        ensure!(f.is_some_and(|f| Arc::ptr_eq(&f, &o.scope)), "step {log}: the scope which took the place of a dropped one is not found");
                    }
                }
            }
        }
        for (v, d) in &roots {
            if let Some(d) = d {
                observe::expect("a root after its scope was dropped", v, observe::FULL, d)?;
                st::hit("roots_read_after_drop");
            }
        }
    }
    ensure!(Scope::containing(std::ptr::null()).is_none() && Scope::find_shared_keys(usize::MAX as *const u8).is_none(), "a scope is found by a null pointer");
    st::describe(|| format!("operations {log}"));
    Ok(crate::rng::hash64(log.as_bytes()) | 1)
}

static CLOCK: AtomicU64 = AtomicU64::new(1);

fn tick() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

const NEVER: u64 = u64::MAX;

struct Born {
    id: u64,
    start: usize,
    len: usize,
    t0: u64,
    t1: u64,
}

struct Look {
    target: u64,
    addr: usize,
    t0: u64,
    t1: u64,
    found: Option<u64>,
}

#[derive(Default)]
struct Log {
    born: Vec<Born>,
    looks: Vec<Look>,
    /// (scope, begin, end) of calls to remove
    removes: Vec<(u64, u64, u64)>,
    /// (scope, begin) before the reference in a slot is given up; references from lookups extend the life only
    gave_up: Vec<(u64, u64)>,
    /// (scope, end) after any reference is given up
    released: Vec<(u64, u64)>,
    order: Vec<(u64, u8)>,
    docs_read: u64,
    found_by_value: u64,
}

struct Slot {
    scope: Arc<Scope>,
    id: u64,
    start: usize,
    len: usize,
    doc: Arc<Doc>,
}

fn id_of(s: &Scope) -> Option<u64> {
    s.shared_keys()?.decode(0)?.strip_prefix('s')?.parse().ok()
}

/// Several threads create, look up, remove and drop scopes; the log of it is checked afterwards.
pub fn c16(r: &mut Rng, c: Ctx) -> R<u64> {
    let threads = if c.tiny() { 3 } else { r.range(2, 8) };
    let ops = match c.variant {
        Variant::Miri => 10,
        Variant::Tsan => 100,
        _ => r.range(60, 400),
    };
    let slots_n = *r.pick(&[1, 2, 4, 16]);
    let mode = r.below(4);
    let fixed = r.bool();
    let slots: Arc<Vec<Mutex<Option<Slot>>>> = Arc::new((0..slots_n).map(|_| Mutex::new(None)).collect());
    let barrier = Arc::new(Barrier::new(threads));
    let stop = Arc::new(AtomicBool::new(false));
    let seeds: Vec<Rng> = (0..threads).map(|_| r.fork()).collect();
    let mut handles = vec![];
    for (t, mut r) in seeds.into_iter().enumerate() {
        let (slots, barrier, stop) = (slots.clone(), barrier.clone(), stop.clone());
        handles.push(std::thread::spawn(move || {
            barrier.wait();
            let x = crate::guard(|| actor(&mut r, t as u64, ops, mode, fixed, &slots, &stop));
            if x.is_err() {
                stop.store(true, Ordering::SeqCst);
            }
            (x, st::take())
        }));
    }
    let mut logs = vec![];
    let mut err = None;
    for h in handles {
        let Ok((x, counts)) = h.join() else { return Err("HARNESS-PANIC in a thread".into()) };
        for (k, v) in counts {
            if k.ends_with("_max") { st::max(k, v) } else { st::add(k, v) };
        }
        match x {
            Ok(l) => logs.push(l),
            Err(e) => err = err.or(Some(e)),
        }
    }
    if let Some(e) = err {
        return Err(format!("with {threads} threads: {e}"));
    }
    let end = tick();
    // The scopes that are left die now.
    for s in slots.iter() {
        if let Ok(mut s) = s.lock() {
            if let Some(s) = s.take() {
                let Some(f) = Scope::containing(s.start as *const u8) else {
                    // it may have been removed
                    if logs.iter().any(|l| l.removes.iter().any(|x| x.0 == s.id)) {
                        continue;
                    }
                    return Err("a live scope is not found at the end".into());
                };
                ensure!(id_of(&f) == Some(s.id), "another scope is found at the end");
            }
        }
    }
    check_log(&logs, end)?;
    let mut order: Vec<(u64, u8, usize)> = logs.iter().enumerate().flat_map(|(t, l)| l.order.iter().map(move |(x, k)| (*x, *k, t))).collect();
    order.sort_unstable();
    let mut switches = 0;
    let mut fp = threads as u64;
    for w in order.windows(2) {
        switches += u64::from(w[0].2 != w[1].2);
        fp = fp.rotate_left(3) ^ ((w[1].2 as u64) << 8 | u64::from(w[1].1)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    st::add("thread_switches_observed", switches);
    st::add("events_in_logs", order.len() as u64);
    st::max("threads_max", threads as u64);
    st::describe(|| format!("{threads} threads, {ops} operations each, {slots_n} slots: {} events, {switches} switches", order.len()));
    Ok(if switches > 0 { fp | 1 } else { 0 })
}

fn actor(r: &mut Rng, t: u64, ops: usize, mode: usize, fixed: bool, slots: &[Mutex<Option<Slot>>], stop: &AtomicBool) -> R<Log> {
    let mut log = Log::default();
    // Pointers that this thread has seen, of scopes which may be gone
    let mut seen: Vec<(u64, usize, usize)> = vec![];
    let mut held: Vec<(Arc<Scope>, u64)> = vec![];
    let mut n = 0;
    for _ in 0..ops {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        if r.one_in(8) {
            match mode {
                0 => {}
                1 => std::thread::yield_now(),
                2 => (0..r.below(300)).for_each(|_| std::hint::spin_loop()),
                _ => std::thread::sleep(std::time::Duration::from_micros(r.below(30) as u64)),
            }
        }
        let slot = r.below(slots.len());
        let op = r.weighted(&[4, 6, 10, 2, 2, 1]);
        match op {
            // replace or empty a slot
            0 => {
                n += 1;
                let id = CLOCK.fetch_add(1, Ordering::SeqCst) * 64 + t;
                let d = if fixed { Doc::Dict([("name".to_string(), Doc::Str(format!("{id:020}")))].into()) } else { record(r, id) };
                let mut enc = Encoder::new();
                let mut sk = SharedKeys::new();
                sk.encode_and_insert(&format!("s{id}"));
                if !fixed {
                    for k in ["yy", "name", "x", "id", "tags"] {
                        if r.bool() {
                            sk.encode_and_insert(k);
                        }
                    }
                }
                enc.set_shared_keys(sk);
                drive::write(&mut enc, &d, r).map_err(e2s)?;
                let t0 = tick();
                let s = enc.finish_scoped();
                let t1 = tick();
                let Some(range) = s.range() else { return Err("a new scope has no range".into()) };
                log.born.push(Born { id, start: range.start, len: range.len(), t0, t1 });
                log.order.push((t0, 0));
                seen.push((id, range.start, range.len()));
                st::hit("scopes_created");
                let new = Slot { scope: s, id, start: range.start, len: range.len(), doc: Arc::new(d) };
                let old = slots[slot].lock().map_err(|_| "HARNESS-PANIC poisoned")?.replace(new);
                drop_slot(old, &mut log);
            }
            1 => {
                if r.one_in(4) {
                    let old = slots[slot].lock().map_err(|_| "HARNESS-PANIC poisoned")?.take();
                    if old.is_some() {
                        drop_slot(old, &mut log);
                    }
                } else {
                    // Read a document while others come and go.
                    let x = slots[slot].lock().map_err(|_| "HARNESS-PANIC poisoned")?.as_ref().map(|s| (s.scope.clone(), s.id, s.doc.clone(), s.start, s.len));
                    if let Some((scope, id, doc, start, len)) = x {
                        log.order.push((tick(), 1));
                        seen.push((id, start, len));
                        let Some(root) = scope.root() else { return Err("a live scope has no root".into()) };
                        // Only dicts of a scope that nobody removes can be read by key.
                        if id % 4 != 0 {
                            observe::expect("a document under churn", &root, observe::Opt { sk: scope.shared_keys().map(|x| &**x), probes: false }, &doc)?;
                            log.docs_read += 1;
                            if r.one_in(3) {
                                match &*doc {
                                    Doc::Dict(_) => {
                                        let m = root.as_dict().map(|d| d.to_mutable()).ok_or("not a dict")?;
                                        let g = observe::mdict(&m)?;
                                        if let Some(e) = doc.diff(&g) {
                                            return Err(format!("a mutable copy under churn: {e}"));
                                        }
                                    }
                                    _ => {
                                        let m = root.as_array().map(|d| d.to_mutable()).ok_or("not an array")?;
                                        let g = observe::marray(&m)?;
                                        if let Some(e) = doc.diff(&g) {
                                            return Err(format!("a mutable copy under churn: {e}"));
                                        }
                                    }
                                }
                            }
                            let k = Scope::find_shared_keys(observe::addr(&root) as *const u8);
                            ensure!(k.as_ref().zip(scope.shared_keys()).is_some_and(|(a, b)| Arc::ptr_eq(a, b)), "other shared keys are found for a live document: {:?}", k.map(|k| k.decode(0).map(str::to_string)));
                            log.found_by_value += 1;
                        }
                        drop(root);
                        if r.one_in(3) && held.len() < 6 {
                            held.push((scope, id));
                        } else {
                            drop(scope);
                            log.released.push((id, tick()));
                        }
                    }
                }
            }
            // look up
            2 => {
                if seen.is_empty() || r.one_in(3) {
                    let x = slots[slot].lock().map_err(|_| "HARNESS-PANIC poisoned")?.as_ref().map(|s| (s.id, s.start, s.len));
                    seen.extend(x);
                }
                if seen.len() > 30 {
                    seen.drain(..10);
                }
                if !seen.is_empty() {
                    for _ in 0..r.range(1, 4) {
                        let (id, start, len) = *r.pick(&seen);
                        let addr = match r.below(6) {
                            0 => start,
                            1 => start + len - 1,
                            2 => start + len,
                            3 => start.wrapping_sub(1),
                            _ => start + r.below(len),
                        };
                        let t0 = tick();
                        let f = Scope::containing(addr as *const u8);
                        let t1 = tick();
                        let found = match &f {
                            Some(s) => match id_of(s) {
                                Some(id) => Some(id),
                                None => return Err("a scope is found which was never created".into()),
                            },
                            None => None,
                        };
                        if let Some(s) = &f {
                            ensure!(s.range().is_some_and(|x| x.contains(&addr)), "a scope is found whose range does not contain the pointer");
                        }
                        log.order.push((t0, 2 + u8::from(found.is_some())));
                        log.looks.push(Look { target: id, addr, t0, t1, found });
                        st::hit("pointers_looked_up");
                        if let (Some(s), Some(id)) = (f, found) {
                            st::hit("lookups_that_found");
                            if r.one_in(4) && held.len() < 6 {
                                held.push((s, id));
                            } else {
                                drop(s);
                                log.released.push((id, tick()));
                            }
                        }
                    }
                }
            }
            // release a reference
            3 => {
                if !held.is_empty() {
                    let at = r.below(held.len());
                    let (s, id) = held.swap_remove(at);
                    drop(s);
                    log.released.push((id, tick()));
                }
            }
            // remove a scope: only those of which nobody reads the keys
            4 => {
                let x = slots[slot].lock().map_err(|_| "HARNESS-PANIC poisoned")?.as_ref().filter(|s| s.id % 4 == 0).map(|s| (s.scope.clone(), s.id));
                if let Some((s, id)) = x {
                    let t0 = tick();
                    s.remove();
                    let t1 = tick();
                    log.removes.push((id, t0, t1));
                    log.order.push((t0, 4));
                    st::hit("scopes_removed");
                    drop(s);
                    log.released.push((id, tick()));
                }
            }
            // other users of the registry
            _ => {
                let s = Scope::new(vec![], None);
                ensure!(s.root().is_none(), "empty data has a root");
                let b = drive::bytes(&Doc::Dict([("k".to_string(), Doc::Int(i128::from(t)))].into()), r)?;
                let v = Value::from_bytes(&b).map_err(|e| e.to_string())?;
                ensure!(Scope::containing(b.as_ptr()).is_none(), "a scope is found for data which is in none");
                ensure!(v.as_dict().and_then(|d| d.get("k")).map(Value::to_int) == Some(t as i64), "a document without a scope, under churn");
                let m: Vec<(&str, i64)> = v.as_dict().map(|d| d.iter().map(|(k, v)| (k, v.to_int())).collect()).unwrap_or_default();
                ensure!(m == [("k", t as i64)], "a document without a scope, under churn: {m:?}");
            }
        }
    }
    for (s, id) in held {
        drop(s);
        log.released.push((id, tick()));
    }
    std::hint::black_box(n);
    st::add("documents_read_under_churn", log.docs_read);
    st::add("shared_keys_found_under_churn", log.found_by_value);
    Ok(log)
}

fn drop_slot(old: Option<Slot>, log: &mut Log) {
    if let Some(old) = old {
        let t0 = tick();
        log.gave_up.push((old.id, t0));
        log.order.push((t0, 5));
        drop(old.scope);
        log.released.push((old.id, tick()));
        st::hit("scopes_dropped");
    }
}

/// Every lookup must be explained by the lives of the scopes.
fn check_log(logs: &[Log], end: u64) -> R {
    struct Life {
        start: usize,
        len: usize,
        t0: u64,
        t1: u64,
        gave_up: u64,
        released: u64,
        remove0: u64,
        remove1: u64,
    }
    let mut lives: HashMap<u64, Life> = HashMap::new();
    for l in logs {
        for b in &l.born {
            lives.insert(b.id, Life { start: b.start, len: b.len, t0: b.t0, t1: b.t1, gave_up: NEVER, released: 0, remove0: NEVER, remove1: NEVER });
        }
    }
    for l in logs {
        for (id, t) in &l.gave_up {
            lives.get_mut(id).ok_or("HARNESS-PANIC unknown scope")?.gave_up = *t;
        }
        for (id, t) in &l.released {
            let x = lives.get_mut(id).ok_or("a scope is found which was never created")?;
            x.released = x.released.max(*t);
        }
        for (id, t0, t1) in &l.removes {
            let x = lives.get_mut(id).ok_or("HARNESS-PANIC unknown scope")?;
            x.remove0 = x.remove0.min(*t0);
            x.remove1 = x.remove1.min(*t1);
        }
    }
    for x in lives.values_mut() {
        if x.gave_up == NEVER {
            x.released = NEVER;
        }
    }
    for k in logs.iter().flat_map(|l| &l.looks) {
        st::hit("lookups_checked");
        let range = |x: &Life| x.start <= k.addr && k.addr < x.start + x.len;
        match k.found {
            Some(id) => {
                let Some(x) = lives.get(&id) else { return Err(format!("the scope s{id} is found, but was never created")) };
                ensure!(range(x), "a lookup of {:#x} finds a scope of {:#x}+{}", k.addr, x.start, x.len);
                ensure!(x.t0 < k.t1, "a scope is found before it is created");
                ensure!(x.released > k.t0, "a scope is found after its last reference was dropped (lookup {}–{}, released {})", k.t0, k.t1, x.released);
                ensure!(x.remove1 > k.t0, "a scope is found after it was removed (lookup {}–{}, removed {})", k.t0, k.t1, x.remove1);
                st::hit("lookups_explained_by_a_live_scope");
            }
            None => {
                // The target must not have been there for the whole time.
                if let Some(x) = lives.get(&k.target) {
                    let surely = range(x) && x.t1 < k.t0 && x.gave_up > k.t1 && x.remove0 > k.t1;
                    ensure!(!surely, "a lookup of {:#x} ({}–{}) finds nothing, but a scope of {:#x}+{} was there (created at {}, given up at {}, end {end})", k.addr, k.t0, k.t1, x.start, x.len, x.t1, x.gave_up as i64);
                    if range(x) {
                        st::hit("lookups_explained_by_a_gone_scope");
                    }
                }
            }
        }
    }
    Ok(())
}

enum Owned {
    V(AllocedValue),
    A(AllocedArray),
    D(AllocedDict),
    S(Arc<[u8]>),
    /// A scope which is alive, of a document, or of other bytes.
    Live(Arc<Scope>),
    Bytes(Arc<Scope>, Arc<Vec<u8>>),
}

impl Clone for Owned {
    fn clone(&self) -> Self {
        match self {
            Owned::V(x) => Owned::V(x.clone()),
            Owned::A(x) => Owned::A(x.clone()),
            Owned::D(x) => Owned::D(x.clone()),
            Owned::S(x) => Owned::S(x.clone()),
            Owned::Live(x) => Owned::Live(x.clone()),
            Owned::Bytes(x, b) => Owned::Bytes(x.clone(), b.clone()),
        }
    }
}

impl Owned {
    fn read(&self) -> R<Doc> {
        match self {
            Owned::V(x) => observe::value(x.value(), observe::FULL),
            Owned::A(x) => observe::array(x, observe::FULL),
            Owned::D(x) => observe::dict(x.value(), observe::FULL),
            Owned::S(x) => observe::value(Value::from_bytes(x).map_err(|e| e.to_string())?, observe::FULL),
            Owned::Live(x) => observe::value(x.root().ok_or("a live scope of a document has no root")?.value(), observe::FULL),
            Owned::Bytes(x, b) => {
                let data = x.data().ok_or("a live scope has lost its data")?;
                ensure!(data[..] == b[..], "the data of a live scope has changed: {:02x?} instead of {:02x?}", &data[..data.len().min(40)], &b[..b.len().min(40)]);
                st::hit("bytes_of_scopes_read");
                Ok(Doc::Null)
            }
        }
    }
    fn addr(&self) -> usize {
        match self {
            Owned::V(x) => observe::addr(x.value()),
            Owned::A(x) => std::ptr::from_ref(x.value()).cast::<u8>() as usize,
            Owned::D(x) => std::ptr::from_ref(x.value()).cast::<u8>() as usize,
            Owned::S(x) => x.as_ptr() as usize,
            Owned::Live(x) | Owned::Bytes(x, _) => x.data().map_or(0, |d| d.as_ptr() as usize),
        }
    }
}

fn churn(r: &mut Rng, size: usize) {
    let v: Vec<Vec<u8>> = (0..r.range(1, 12)).map(|_| vec![r.u64() as u8 | 0x80; (size + 16 + r.below(3)).saturating_sub(r.below(3))]).collect();
    std::hint::black_box(&v);
    st::add("blocks_churned", v.len() as u64);
}

/// Owned values stay as they are, whatever happens to what they came from, in all threads.
pub fn c17(r: &mut Rng, c: Ctx) -> R<u64> {
    let mut pool: Vec<(Owned, Arc<Doc>)> = vec![];
    let n = if c.tiny() { 2 } else { r.range(2, 7) };
    let mut fp = 0;
    let mut keyed: Vec<(AllocedValue, Arc<SharedKeys>, Arc<Doc>)> = vec![];
    for i in 0..n {
        let d = if c.tiny() || r.bool() { gen::small_doc(r) } else { gen::doc(r) };
        fp ^= d.fp().rotate_left(i as u32);
        let plain = drive::bytes(&d, r)?;
        let size = plain.len();
        let kind = r.below(9);
        let d = if kind == 8 { Doc::Null } else { d };
        let v = match kind {
            7 => Owned::Live(Scope::new(plain, None)),
            8 => {
                // Scopes keep any bytes, also those which are not a document
                let mut b = plain;
                match r.below(3) {
                    0 => b = gen::data(r),
                    1 => b.extend_from_slice(&[0; 3]),
                    _ => b[size - 2..].fill(0xFF),
                }
                let b = if b.is_empty() { vec![1] } else { b };
                let x = Arc::new(b.clone());
                Owned::Bytes(Scope::new(b, None), x)
            }
            0 | 1 => {
                let mut src = plain;
                let v = if r.bool() { Value::clone_from_bytes(&src).map_err(|e| e.to_string())? } else { unsafe { Value::clone_from_bytes_unchecked(&src) } };
                // The source is overwritten, then freed.
                src.fill(0xFF);
                std::hint::black_box(&src);
                Owned::V(v)
            }
            2 => {
                let mut e = Encoder::new();
                drive::write(&mut e, &d, r).map_err(e2s)?;
                Owned::V(e.finish_value())
            }
            3 => {
                let s = Scope::new(plain, None);
                let v = s.root().ok_or("no root")?;
                if r.bool() {
                    s.remove();
                }
                drop(s);
                Owned::V(v)
            }
            4 => {
                let s = Scope::new(plain, None);
                let v = s.data().ok_or("no data")?;
                drop(s);
                Owned::S(v)
            }
            5 => {
                let mut src = plain;
                let v = match &d {
                    Doc::Arr(_) => Owned::A(fleece::Array::clone_from_bytes(&src).map_err(|e| e.to_string())?),
                    _ => Owned::D(fleece::Dict::clone_from_bytes(&src).map_err(|e| e.to_string())?),
                };
                src.fill(0xFF);
                v
            }
            _ => {
                // With shared keys: the data and the table remain, the scope does not
                let s = drive::scoped(&d, SharedKeys::new(), r)?;
                let v = s.root().ok_or("no root")?;
                let t = s.shared_keys().cloned().ok_or("no shared keys")?;
                keyed.push((v, t, Arc::new(d.clone())));
                drop(s);
                let s = Scope::new(plain, Some(Arc::new(SharedKeys::new())));
                Owned::V(s.root().ok_or("no root")?)
            }
        };
        churn(r, size);
        let before = v.addr();
        let at = pool.len();
        pool.push((v.clone(), Arc::new(d.clone())));
        // Some are one of many
        let crowd = vec![v.clone(); *r.pick(&[0, 0, 0, 1, 2, 5, 10, 40, 300])];
        st::max("clones_of_one_value_max", crowd.len() as u64);
        // Narrowing keeps the data, and clones are the same value.
        if let Owned::V(x) = &v {
            let clone = x.clone();
            ensure!(clone == *x && clone.partial_cmp(x) == Some(std::cmp::Ordering::Equal), "a clone of an owned value is not equal to it");
            match &d {
                Doc::Arr(_) => {
                    let a = clone.to_array().ok_or("to_array of an array is None")?;
                    pool.push((Owned::A(a), Arc::new(d.clone())));
                    ensure!(x.clone().to_dict().is_none(), "to_dict of an array");
                }
                Doc::Dict(_) => {
                    let a = clone.to_dict().ok_or("to_dict of a dict is None")?;
                    pool.push((Owned::D(a), Arc::new(d.clone())));
                    ensure!(x.clone().to_array().is_none(), "to_array of a dict");
                }
                _ => {}
            }
            // Of some, only the narrowed one remains
            if pool.len() > at + 1 && r.bool() {
                pool.swap_remove(at);
                st::hit("only_the_narrowed_value_remains");
            }
        }
        drop(v);
        drop(crowd);
        ensure!(pool.iter().any(|(o, _)| o.addr() == before), "a clone has moved");
    }
    st::describe(|| format!("{} owned values, the first is {:.300}", pool.len(), format!("{:?}", pool[0].1)));
    for (v, d) in &pool {
        check(v, d, "an owned value")?;
    }
    macro_rules! some {
        ($v:ident) => {
            pool.iter().filter_map(|x| if let Owned::$v(x) = &x.0 { Some(x.clone()) } else { None }).collect::<Vec<_>>()
        };
    }
    let (v, a, o) = (some!(V), some!(A), some!(D));
    if c.case % 4 == 0 || c.tiny() {
        v.iter().try_for_each(|x| coherent(x, &v))?;
        a.iter().try_for_each(|x| coherent(x, &a))?;
        o.iter().try_for_each(|x| coherent(x, &o))?;
    }
    drop((v, a, o));
    // Send them around; all threads read, clone and drop, in a different order.
    let threads = if c.tiny() { 2 } else { r.range(1, 5) };
    let rounds = if c.tiny() { 2 } else { 6 };
    let mut handles = vec![];
    let barrier = Arc::new(Barrier::new(threads));
    let exchange: Arc<Mutex<Vec<(Owned, Arc<Doc>)>>> = Arc::new(Mutex::new(vec![]));
    for _ in 0..threads {
        let mut mine = pool.clone();
        let mut r = r.fork();
        let (barrier, exchange) = (barrier.clone(), exchange.clone());
        handles.push(std::thread::spawn(move || {
            barrier.wait();
            let x = crate::guard(|| {
                for _ in 0..rounds {
                    if mine.is_empty() {
                        break;
                    }
                    let at = r.below(mine.len());
                    check(&mine[at].0, &mine[at].1, "an owned value in another thread")?;
                    match r.below(5) {
                        0 => {
                            let x = mine[at].clone();
                            mine.push(x);
                        }
                        4 => {
                            // Narrowed in this thread, with or without the wide one
                            if let Owned::V(x) = &mine[at].0 {
                                let x = x.clone();
                                let d = mine[at].1.clone();
                                if r.bool() {
                                    mine.swap_remove(at);
                                }
                                let n = match &*d {
                                    Doc::Arr(_) => Owned::A(x.to_array().ok_or("to_array of an array is None")?),
                                    Doc::Dict(_) => Owned::D(x.to_dict().ok_or("to_dict of a dict is None")?),
                                    _ => Owned::V(x),
                                };
                                mine.push((n, d));
                                st::hit("narrowed_in_threads");
                            }
                        }
                        1 => {
                            let (v, d) = mine.swap_remove(at);
                            exchange.lock().map_err(|_| "HARNESS-PANIC poisoned")?.push((v, d));
                        }
                        2 => {
                            let x = exchange.lock().map_err(|_| "HARNESS-PANIC poisoned")?.pop();
                            mine.extend(x);
                        }
                        _ => {
                            mine.swap_remove(at);
                        }
                    }
                    churn(&mut r, 64);
                }
                Ok(())
            });
            (x, st::take())
        }));
    }
    let keep_one = r.below(pool.len());
    let kept = pool.swap_remove(keep_one);
    drop(pool);
    churn(r, 100);
    let mut err = None;
    for h in handles {
        let Ok((x, counts)) = h.join() else { return Err("HARNESS-PANIC in a thread".into()) };
        for (k, v) in counts {
            if k.ends_with("_max") { st::max(k, v) } else { st::add(k, v) };
        }
        if let Err(e) = x {
            err = err.or(Some(e));
        }
    }
    if let Some(e) = err {
        return Err(e);
    }
    check(&kept.0, &kept.1, "the last owned value")?;
    let rest = std::mem::take(&mut *exchange.lock().map_err(|_| "HARNESS-PANIC poisoned")?);
    for (v, d) in &rest {
        check(v, d, "an exchanged owned value")?;
    }
    drop(rest);
    // Values which outlive their scope can still be read with the table
    for (v, t, d) in &keyed {
        with_table(v, d, t)?;
        st::hit("keyed_values_read_after_their_scope");
    }
    // Copies outlive what they were copied from.
    let (o, d) = kept;
    match &o {
        Owned::V(v) => {
            if let Some(a) = v.as_array() {
                let m: MutableArray = a.to_mutable();
                drop(o);
                churn(r, 64);
                same(&observe::marray(&m)?, &d, "a mutable copy whose source is gone")?;
            } else if let Some(x) = v.as_dict() {
                let m: MutableDict = x.to_mutable();
                drop(o);
                churn(r, 64);
                same(&observe::mdict(&m)?, &d, "a mutable copy whose source is gone")?;
            }
        }
        _ => drop(o),
    }
    Ok(fp | 1)
}

fn same(got: &Doc, want: &Doc, what: &str) -> R {
    match want.diff(got) {
        Some(e) => Err(format!("{what}: {e}")),
        None => Ok(()),
    }
}

/// All ways to get at an owned value lead to the same one, and its order and equality are those of its address.
fn coherent<T: ?Sized + std::fmt::Debug>(x: &fleece::alloced::Alloced<T>, others: &[fleece::alloced::Alloced<T>]) -> R {
    let at = |x: *const T| x.cast::<u8>() as usize;
    let v = at(x.value());
    let all = [at(&**x), at(x.as_ref()), at(std::borrow::Borrow::<T>::borrow(x)), at(*std::borrow::Borrow::<*const T>::borrow(x)), at(x.clone().value())];
    ensure!(all.iter().all(|a| *a == v), "the value at {v:x} is also at {all:x?}");
    for y in others {
        let w = at(y.value());
        ensure!((x == y) == (v == w) && x.cmp(y) == v.cmp(&w) && x.partial_cmp(y) == Some(v.cmp(&w)), "owned values at {v:x} and {w:x} are equal: {}, in order: {:?}", x == y, x.cmp(y));
    }
    ensure!(!format!("{x:?}").is_empty(), "an owned value is shown as nothing");
    st::hit("owned_values_compared");
    Ok(())
}

fn check(v: &Owned, d: &Doc, what: &str) -> R {
    st::hit("owned_values_read");
    same(&v.read().map_err(|e| format!("{what}: {e}"))?, d, what)
}

/// Read with a table instead of a scope.
fn with_table(v: &Value, d: &Doc, t: &SharedKeys) -> R {
    match d {
        Doc::Arr(a) => {
            let Some(x) = v.as_array() else { return Err("a value which outlives its scope is not an array".into()) };
            ensure!(x.len() == a.len(), "a value which outlives its scope has a length of {} instead of {}", x.len(), a.len());
            for (x, d) in x.iter().zip(a) {
                with_table(x, d, t)?;
            }
            Ok(())
        }
        Doc::Dict(m) => {
            let Some(x) = v.as_dict() else { return Err("a value which outlives its scope is not a dict".into()) };
            ensure!(x.len() == m.len(), "a value which outlives its scope has a length of {} instead of {}", x.len(), m.len());
            for (k, d) in m {
                let Some(y) = x.get_with_shared_keys(k.as_str(), t) else { return Err(format!("a value which outlives its scope has no key {k:?}")) };
                with_table(y, d, t)?;
            }
            Ok(())
        }
        leaf => match observe::scalar(v)? {
            Some(g) => same(&g, leaf, "a value which outlives its scope"),
            None => Err("a value which outlives its scope is a collection".into()),
        },
    }
}
