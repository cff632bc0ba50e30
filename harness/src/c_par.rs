//! C26: many threads read the same documents, owned values and key tables, and work on their own.
use crate::doc::Doc;
use crate::dynser;
use crate::rng::{hash64, Rng};
use crate::st::{self, R};
use crate::{c_serde, drive, ensure, gen, observe, refenc, Ctx, Variant};
use fleece::alloced::AllocedValue;
use fleece::{MutableArray, MutableDict, Scope, SharedKeys, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

/// What all threads share, and what it has to look like to each of them.
struct World {
    scopes: Vec<(Arc<Scope>, Arc<[u8]>, Doc)>,
    owned: Vec<(AllocedValue, Doc)>,
    mutables: Vec<(MutableArray, Doc)>,
    mdicts: Vec<(MutableDict, Doc)>,
    table: Arc<SharedKeys>,
    keys: Vec<String>,
    typed: Vec<(dynser::Ty, dynser::Val, Vec<u8>)>,
    /// bytes which one thread made from a generator in this state
    made: Vec<(Rng, Doc, Vec<u8>)>,
}

fn doc_of(r: &mut Rng, heavy: bool) -> Doc {
    match r.below(if heavy { 8 } else { 4 }) {
        0 => Doc::Arr(vec![gen::leaf_small(r), gen::leaf_small(r)]),
        1..=3 => gen::small_doc(r),
        4 => gen::doc(r),
        5 => gen::dicty(r),
        _ => {
            let n = r.range(10, 300);
            Doc::Dict((0..n).map(|i| (format!("key{i}"), if i % 9 == 0 { Doc::Arr(vec![Doc::Str(format!("{i}")), Doc::Int(i as i128)]) } else { gen::leaf_small(r) })).collect())
        }
    }
}

fn eq(what: &str, got: R<Doc>, want: &Doc) -> R {
    let got = got.map_err(|e| format!("{what}: {e}"))?;
    match want.diff(&got) {
        Some(e) => Err(format!("{what}: {e}")),
        None => Ok(()),
    }
}

static OVERLAP: AtomicU64 = AtomicU64::new(0);

fn act(w: &World, r: &mut Rng, own: &mut Vec<(Arc<Scope>, Doc)>) -> R {
    OVERLAP.fetch_add(1, Ordering::Relaxed);
    let kind = r.below(14);
    match kind {
        0..=2 => {
            let (s, data, want) = r.pick(&w.scopes);
            let Some(root) = s.root() else { return Err("a scope which is shared by threads has no root".into()) };
            let sk = s.shared_keys().map(|x| &**x);
            eq("a document which is shared by threads", observe::value(&root, observe::Opt { sk, probes: r.bool() }), want)?;
            ensure!(s.data().is_some_and(|d| Arc::ptr_eq(&d, data)), "a scope which is shared by threads has other data");
            ensure!(Scope::containing(data.as_ptr()).is_some_and(|x| Arc::ptr_eq(&x, s)), "a scope which is shared by threads is not found");
            st::hit("shared_documents_read");
        }
        3 => {
            let (v, want) = r.pick(&w.owned);
            let mine = v.clone();
            eq("an owned value which is shared by threads", observe::value(&mine, observe::FULL), want)?;
            match want {
                Doc::Arr(_) => {
                    let Some(a) = mine.to_array() else { return Err("an owned array is no array".into()) };
                    eq("an owned array which is shared by threads", observe::array(&a, observe::FULL), want)?;
                }
                Doc::Dict(_) => {
                    let Some(d) = mine.to_dict() else { return Err("an owned dict is no dict".into()) };
                    eq("an owned dict which is shared by threads", observe::dict(&d, observe::FULL), want)?;
                }
                _ => ensure!(mine.to_dict().is_none(), "an owned scalar is a dict"),
            }
            st::hit("shared_owned_values_read");
        }
        4 | 5 => {
            // the table in both directions
            for _ in 0..12 {
                let i = r.below(w.keys.len() + 3);
                let k = w.keys.get(i).map_or("not in the table", String::as_str);
                let want = (i < w.keys.len()).then_some(i as u16);
                ensure!(w.table.encode(k) == want, "a key table which is shared by threads: {k:?} is {:?} instead of {want:?}", w.table.encode(k));
                ensure!(w.table.decode(i as u16) == w.keys.get(i).map(String::as_str), "a key table which is shared by threads: {i} is {:?}", w.table.decode(i as u16));
            }
            if r.one_in(4) {
                let all: Vec<String> = w.table.iter().map(|x| x.0.to_string()).collect();
                ensure!(all == w.keys, "a key table which is shared by threads has {} keys in its iteration instead of {}", all.len(), w.keys.len());
                ensure!(w.table.len() as usize == w.keys.len(), "a key table which is shared by threads has a length of {}", w.table.len());
            }
            st::hit("shared_tables_read");
        }
        6 => {
            // a copy of the table grows
            let mut mine = SharedKeys::clone(&w.table);
            let d = doc_of(r, false);
            let extra = format!("x{}", r.below(100_000));
            let got = mine.encode_and_insert(&extra);
            if w.keys.len() < 2048 && !w.keys.contains(&extra) {
                ensure!(got == Some(w.keys.len() as u16), "a copy of a shared key table gives {got:?} for a new key");
                ensure!(w.table.encode(&extra).is_none(), "a key which was added to a copy of the table is in the shared table");
            }
            let s = drive::scoped(&d, mine, r)?;
            let Some(root) = s.root() else { return Err("a new scope has no root".into()) };
            eq("a document with a copy of a shared key table", observe::value(&root, observe::Opt { sk: s.shared_keys().map(|x| &**x), probes: true }), &d)?;
            own.push((s.clone(), d));
            if own.len() > 3 {
                own.remove(0);
            }
            st::hit("copies_of_shared_tables_grown");
        }
        7 => {
            // documents of this thread, which other threads must not have touched
            for (s, d) in own.iter() {
                let Some(root) = s.root() else { return Err("a scope of this thread has no root".into()) };
                eq("a document of this thread", observe::value(&root, observe::FULL), d)?;
            }
        }
        8 => {
            // a mutable copy of something shared
            let (s, _, want) = r.pick(&w.scopes);
            match want {
                Doc::Arr(a) => {
                    let Some(mut m) = MutableArray::from_scope(s) else { return Err("no mutable copy of a shared array".into()) };
                    m.push(&7_u8);
                    if !a.is_empty() {
                        m.set(0, "changed");
                    }
                    ensure!(m.len() == a.len() + 1, "a mutable copy has a length of {}", m.len());
                    drop(m);
                }
                Doc::Dict(d) => {
                    let Some(mut m) = MutableDict::from_scope(s) else { return Err("no mutable copy of a shared dict".into()) };
                    for k in d.keys().take(3) {
                        m.insert(k, "changed");
                    }
                    m.remove("no such key");
                    ensure!(m.len() == d.len(), "a mutable copy has a length of {}", m.len());
                }
                _ => {}
            }
            let Some(root) = s.root() else { return Err("a shared scope has no root".into()) };
            eq("a document whose copies are changed in threads", observe::value(&root, observe::FULL), want)?;
            st::hit("shared_documents_copied");
        }
        9 => {
            if let Some((m, want)) = w.mutables.get(r.below(w.mutables.len() + 1)) {
                eq("a mutable array which is read by threads", observe::marray(m), want)?;
                eq("a clone of a mutable array which is read by threads", observe::marray(&m.clone()), want)?;
                st::hit("shared_mutables_read");
            }
            if let Some((m, want)) = w.mdicts.get(r.below(w.mdicts.len() + 1)) {
                eq("a mutable dict which is read by threads", observe::mdict(m), want)?;
                eq("a clone of a mutable dict which is read by threads", observe::mdict(&m.clone()), want)?;
                st::hit("shared_mutables_read");
            }
        }
        10 => {
            // re-encoding
            let (s, _, want) = r.pick(&w.scopes);
            let Some(root) = s.root() else { return Err("a shared scope has no root".into()) };
            let mut e = fleece::Encoder::new();
            e.write_fleece(&root).map_err(drive::e2s)?;
            let b = e.finish();
            let v = Value::from_bytes(&b).map_err(|e| format!("a re-encoded document is refused: {e}"))?;
            eq("a shared document, re-encoded", observe::value(v, observe::FULL), want)?;
            st::hit("shared_documents_reencoded");
        }
        11 => {
            let (g, d, want) = r.pick(&w.made);
            let b = drive::bytes(d, &mut g.clone())?;
            ensure!(&b == want, "encoding in several threads gives other bytes: {:?} instead of {:?}", &b[..b.len().min(60)], &want[..want.len().min(60)]);
            st::hit("encodings_compared");
        }
        12 => {
            if let Some((t, v, b)) = w.typed.get(r.below(w.typed.len() + 1)) {
                c_serde::same("serde in several threads", t, v, dynser::de(t, b))?;
                let again = c_serde::bytes_of(dynser::Ser(t, v))?;
                ensure!(&again == b, "serializing in several threads gives other bytes");
                st::hit("shared_serde_documents_read");
            }
        }
        _ => {
            let (s, data, _) = r.pick(&w.scopes);
            let Some(root) = s.root() else { return Err("a shared scope has no root".into()) };
            let a = format!("{:?}", root.value());
            let b = format!("{:?}", Value::from_bytes(data).map_err(|e| e.to_string())?);
            ensure!(a == b, "the debug text of a shared value differs: {a:.200} and {b:.200}");
        }
    }
    Ok(())
}

/// What one thread of a storm reads again and again, and what it has to find.
struct Small {
    table: SharedKeys,
    keys: Vec<String>,
    scope: Arc<Scope>,
    map: Vec<(String, i64)>,
    list: Vec<i64>,
    list_bytes: Vec<u8>,
    mutable: MutableArray,
    mdict: MutableDict,
}

fn small(r: &mut Rng, id: usize) -> R<Small> {
    let mut table = SharedKeys::new();
    let mut keys: Vec<String> = vec![];
    let n = *r.pick(&[0, 1, 2, 7, 30, 60]);
    for i in 0..n {
        let k = format!("{}{}", (b'a' + r.below(20) as u8) as char, (i * 31 + id * 7) % 97);
        if table.encode(&k).is_none() && table.encode_and_insert(&k).is_some() {
            keys.push(k);
        }
    }
    let mut map: Vec<(String, i64)> = vec![];
    for i in 0..r.range(1, 12) {
        let k = match keys.get(r.below(keys.len() + 4)) {
            Some(k) => k.clone(),
            None => format!("{}{}", ["a name too long to be shared ", "b", "id "][r.below(3)], r.below(50)),
        };
        if map.iter().all(|(o, _)| *o != k) {
            map.push((k, (id * 1000 + i) as i64));
        }
    }
    let d = Doc::Dict(map.iter().map(|(k, v)| (k.clone(), Doc::Int(i128::from(*v)))).collect());
    let scope = drive::scoped(&d, table.clone(), r)?;
    let list: Vec<i64> = (0..r.below(40)).map(|i| (id * 3000 + i) as i64 * if r.one_in(5) { 1 << 40 } else { 1 }).collect();
    let list_bytes = fleece::to_bytes(&list).map_err(|e| format!("an array is not serialized: {e}"))?;
    let (mut mutable, mut mdict) = (MutableArray::new(), if r.bool() { MutableDict::new() } else { MutableDict::new_with_shared_keys(Arc::new(table.clone())) });
    for i in &list {
        mutable.push(i);
    }
    for (k, v) in &map {
        mdict.insert(k, *v);
    }
    Ok(Small { table, keys, scope, map, list, list_bytes, mutable, mdict })
}

impl Small {
    /// One short operation.
    fn once(&self, kind: usize, r: &mut Rng) -> R {
        match kind {
            0 => {
                let i = if r.one_in(4) { 500 } else { r.below(self.keys.len() + 2) };
                let got = self.table.decode(i as u16);
                ensure!(got == self.keys.get(i).map(String::as_str), "the key {i} of a table of {} is {got:?}", self.keys.len());
            }
            1 => {
                let i = r.below(self.keys.len() + 1);
                let k = self.keys.get(i).map_or("not in it", String::as_str);
                let got = self.table.encode(k);
                ensure!(got == (i < self.keys.len()).then_some(i as u16), "the key {k:?} of a table of {} is {got:?}", self.keys.len());
                ensure!(usize::from(self.table.len()) == self.keys.len(), "a table of {} has a length of {}", self.keys.len(), self.table.len());
            }
            2 => {
                let Some(root) = self.scope.root() else { return Err("no root".into()) };
                let Some(d) = root.as_dict() else { return Err("no dict".into()) };
                let (k, v) = r.pick(&self.map);
                let got = d.get(k).map(Value::to_int);
                ensure!(got == Some(*v), "{k:?} of a dict is {got:?} instead of {v}");
                ensure!(d.get("nothing").is_none() && d.len() == self.map.len(), "a dict of {} has a length of {}", self.map.len(), d.len());
            }
            3 => {
                let Ok(v) = Value::from_bytes(&self.list_bytes) else { return Err("an array is refused".into()) };
                let Some(a) = v.as_array() else { return Err("no array".into()) };
                let i = r.below(self.list.len() + 1);
                let got = a.get(i).map(Value::to_int);
                ensure!(got == self.list.get(i).copied(), "the element {i} of an array is {got:?} instead of {:?}", self.list.get(i));
                ensure!(a.len() == self.list.len(), "an array of {} has a length of {}", self.list.len(), a.len());
            }
            4 => {
                let mut e = fleece::Encoder::new();
                (|| {
                    e.begin_array(0)?;
                    for i in &self.list {
                        e.write_value(*i)?;
                    }
                    e.end_array()
                })().map_err(drive::e2s)?;
                let got = e.finish();
                ensure!(got == self.list_bytes, "an array is encoded as {:02x?} instead of {:02x?}", got, self.list_bytes);
            }
            5 => {
                let got = fleece::from_bytes::<Vec<i64>>(&self.list_bytes).map_err(|e| format!("an array is refused by serde: {e}"))?;
                ensure!(got == self.list, "an array is deserialized as {got:?}");
                let b = fleece::to_bytes(&self.list).map_err(|e| format!("an array is not serialized: {e}"))?;
                ensure!(b == self.list_bytes, "an array is serialized as {b:02x?} instead of {:02x?}", self.list_bytes);
            }
            6 => {
                let Some(range) = self.scope.range() else { return Err("a scope without a range".into()) };
                let p = (range.start + r.below(range.len())) as *const u8;
                ensure!(Scope::containing(p).is_some_and(|s| Arc::ptr_eq(&s, &self.scope)), "a scope is not found, or another one");
            }
            7 => {
                let i = r.below(self.list.len() + 1);
                let got = self.mutable.get(i).map(|v| v.to_int());
                ensure!(got == self.list.get(i).copied(), "the element {i} of a mutable array is {got:?} instead of {:?}", self.list.get(i));
            }
            8 => {
                let (k, v) = r.pick(&self.map);
                let got = self.mdict.get(k).map(|v| v.to_int());
                ensure!(got == Some(*v) && !self.mdict.contains_key("nothing"), "{k:?} of a mutable dict is {got:?} instead of {v}");
            }
            _ => {
                let b = self.table.get_state_bytes();
                let Some(t) = SharedKeys::from_state_bytes(&b) else { return Err("a state is refused".into()) };
                ensure!(t.iter().map(|k| k.0).eq(self.keys.iter().map(String::as_str)) || t.iter().count() == self.keys.len() && self.keys.iter().enumerate().all(|(i, k)| t.encode(k) == Some(i as u16)), "a table of {} is restored as one of {}", self.keys.len(), t.len());
            }
        }
        Ok(())
    }
}

/// All threads do the same short operation again and again, each with objects of its own and those of the others.
fn storm(r: &mut Rng, c: Ctx) -> R<u64> {
    let threads = if c.tiny() { 2 } else { r.range(2, 8) };
    let kind = r.below(10);
    let all: Vec<Small> = (0..threads).map(|i| small(r, i)).collect::<R<_>>()?;
    let own = r.below(3);
    let times = match c.variant {
        Variant::Miri => 4,
        Variant::Tsan => 300,
        _ => match kind { 4 | 5 => 1500, 9 => 300, _ => 6000 },
    };
    st::describe(|| format!("{threads} threads, {times} times the operation {kind} on objects of {}", ["their own", "their own and of others", "all"][own]));
    let barrier = Barrier::new(threads);
    let results: Vec<R> = std::thread::scope(|sc| {
        let handles: Vec<_> = (0..threads).map(|t| {
            let mut r = r.fork();
            let (all, barrier) = (&all, &barrier);
            sc.spawn(move || {
                barrier.wait();
                crate::guard(|| {
                    for _ in 0..times {
                        let at = if own == 0 || own == 1 && r.bool() { t } else { r.below(all.len()) };
                        all[at].once(kind, &mut r)?;
                    }
                    Ok(())
                })
            })
        }).collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("HARNESS-PANIC in a thread".into()))).collect()
    });
    for x in results {
        x.map_err(|e| format!("{threads} threads at the same operation: {e}"))?;
    }
    st::add("operations_in_storms", (threads * times) as u64);
    let mut fp = vec![kind as u8, own as u8, threads as u8];
    for s in &all {
        fp.extend(s.keys.iter().flat_map(|k| k.bytes()));
        fp.extend(&s.list_bytes);
    }
    Ok(hash64(&fp) | 1)
}

pub fn c26(r: &mut Rng, c: Ctx) -> R<u64> {
    if r.one_in(4) {
        return storm(r, c);
    }
    let heavy = !c.tiny() && c.variant != Variant::Tsan;
    let mut keys: Vec<String> = vec![];
    let mut t = SharedKeys::new();
    let n = match r.below(6) {
        0 => 0,
        1 if heavy => r.range(1000, 2048),
        _ => r.below(60),
    };
    while keys.len() < n {
        let k = match r.below(3) { 0 => format!("k{}", keys.len()), 1 => format!("key{}", r.below(4000)), _ => gen::shareable_key(r) };
        if t.encode(&k).is_none() && t.encode_and_insert(&k).is_some() {
            keys.push(k);
        }
    }
    let mut scopes = vec![];
    let mut fp = vec![];
    for _ in 0..r.range(1, if heavy { 5 } else { 3 }) {
        let d = doc_of(r, heavy);
        fp.extend(d.fp().to_le_bytes());
        let s = match r.below(4) {
            0 => Scope::new(drive::bytes(&d, r)?, None),
            1 => Scope::new(refenc::encode(&d, None, refenc::Style { share_pct: 0, ..refenc::Style::random(r) }, r), None),
            _ => {
                // all of these have their own table, which starts as the shared one
                drive::scoped(&d, t.clone(), r)?
            }
        };
        let Some(data) = s.data() else { return Err("a scope has no data".into()) };
        scopes.push((s, data, d));
    }
    let mut owned = vec![];
    for _ in 0..r.range(1, 3) {
        let d = doc_of(r, heavy);
        let b = drive::bytes(&d, r)?;
        owned.push((Value::clone_from_bytes(&b).map_err(|e| e.to_string())?, d));
    }
    let (mut mutables, mut mdicts) = (vec![], vec![]);
    for (s, _, d) in &scopes {
        if let Some(m) = MutableArray::from_scope(s) {
            mutables.push((m, d.clone()));
        }
        if let Some(m) = MutableDict::from_scope(s) {
            mdicts.push((m, d.clone()));
        }
    }
    let mut typed = vec![];
    for _ in 0..r.below(3) {
        let (t, v) = c_serde::typed(r, c);
        let b = c_serde::bytes_of(dynser::Ser(&t, &v))?;
        typed.push((t, v, b));
    }
    let mut made = vec![];
    for _ in 0..2 {
        let d = doc_of(r, heavy);
        let g = r.fork();
        let b = drive::bytes(&d, &mut g.clone())?;
        made.push((g, d, b));
    }
    let threads = if c.tiny() { 3 } else { r.range(2, 8) };
    let ops = if c.tiny() { 4 } else { r.range(8, if heavy { 60 } else { 30 }) };
    st::describe(|| format!("{threads} threads, {ops} operations each on {} scopes, {} owned values, {} mutable collections and a table of {n} keys; the first document is {:.200}", scopes.len(), owned.len(), mutables.len() + mdicts.len(), format!("{:?}", scopes[0].2)));
    let w = World { scopes, owned, mutables, mdicts, table: Arc::new(t), keys, typed, made };
    let barrier = Barrier::new(threads);
    let overlaps = AtomicU64::new(0);
    let mut err = None;
    std::thread::scope(|sc| {
        let handles: Vec<_> = (0..threads).map(|_| {
            let mut r = r.fork();
            let (w, barrier, overlaps) = (&w, &barrier, &overlaps);
            std::thread::Builder::new().stack_size(if c.tiny() { 8 << 20 } else { 64 << 20 }).spawn_scoped(sc, move || {
                barrier.wait();
                let x = crate::guard(|| {
                    let mut own = vec![];
                    for _ in 0..ops {
                        match r.below(12) {
                            0 => std::thread::yield_now(),
                            1 => (0..r.below(200)).for_each(|_| std::hint::spin_loop()),
                            _ => {}
                        }
                        let before = OVERLAP.load(Ordering::Relaxed);
                        act(w, &mut r, &mut own)?;
                        if OVERLAP.load(Ordering::Relaxed) > before + 1 {
                            overlaps.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                    Ok(())
                });
                (x, st::take())
            }).expect("a thread")
        }).collect();
        for h in handles {
            match h.join() {
                Ok((x, counts)) => {
                    for (k, v) in counts {
                        if k.ends_with("_max") { st::max(k, v) } else { st::add(k, v) };
                    }
                    if let Err(e) = x {
                        err = err.take().or(Some(e));
                    }
                }
                Err(_) => err = err.take().or(Some("HARNESS-PANIC in a thread".into())),
            }
        }
    });
    if let Some(e) = err {
        return Err(format!("{threads} threads: {e}"));
    }
    st::add("operations_overlapped_by_others", overlaps.load(Ordering::Relaxed));
    st::max("threads_max", threads as u64);
    // And all of it once more, alone
    for (s, _, d) in &w.scopes {
        let Some(root) = s.root() else { return Err("a scope has no root after the threads".into()) };
        eq("a document after the threads", observe::value(&root, observe::FULL), d)?;
    }
    for (v, d) in &w.owned {
        eq("an owned value after the threads", observe::value(v, observe::FULL), d)?;
    }
    fp.push(threads as u8);
    Ok(hash64(&fp) | 1)
}
