//! C12–C14: the table of shared keys, its persisted state, and documents which use it.
use crate::c_dec::collect_keys;
use crate::c_enc::{eligible, open, some_doc};
use crate::doc::Doc;
use crate::drive::{self, e2s};
use crate::rng::{hash64, Rng};
use crate::st::{self, R};
use crate::{ensure, gen, observe, refenc, Ctx};
use fleece::{Array, Encoder, Scope, SharedKeys, Value, ValueType};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

/// What the table must be: the keys in the order in which they were added.
#[derive(Clone, Default)]
pub struct Model {
    keys: Vec<String>,
    ids: HashMap<String, u16>,
}

const LIMIT: usize = 2048;

impl Model {
    fn insert(&mut self, k: &str) -> Option<u16> {
        if let Some(i) = self.ids.get(k) {
            return Some(*i);
        }
        if self.keys.len() >= LIMIT || !eligible(k) {
            return None;
        }
        let i = self.keys.len() as u16;
        self.keys.push(k.to_string());
        self.ids.insert(k.to_string(), i);
        Some(i)
    }

    /// Compare everything that can be seen of the table.
    fn check(&self, sk: &SharedKeys, what: &str) -> R {
        let n = self.keys.len();
        ensure!(usize::from(sk.len()) == n, "{what}: {} keys instead of {n}", sk.len());
        ensure!(sk.is_empty() == (n == 0), "{what}: is_empty of {n} keys");
        for (i, k) in self.keys.iter().enumerate() {
            ensure!(sk.encode(k) == Some(i as u16), "{what}: {k:?} is encoded as {:?} instead of {i}", sk.encode(k));
            ensure!(sk.decode(i as u16) == Some(k), "{what}: {i} is decoded as {:?} instead of {k:?}", sk.decode(i as u16));
        }
        st::add("table_entries_checked", n as u64);
        for i in [n, n + 1, n + 7, 2047, 2048, 2049, 4095, 4096, 32767, 32768, 65535] {
            if i >= n && i <= 65535 {
                ensure!(sk.decode(i as u16).is_none(), "{what}: {i} is decoded as {:?} although there are {n} keys", sk.decode(i as u16));
            }
        }
        let mut seen = HashSet::new();
        for (k, i) in sk {
            ensure!(self.ids.get(k) == Some(&i), "{what}: iteration yields {k:?} as {i} instead of {:?}", self.ids.get(k));
            ensure!(seen.insert(i), "{what}: iteration yields {i} twice");
        }
        observe::laws("key table", n, false, || sk.iter(), |(_, i)| usize::from(i))?;
        ensure!(seen.len() == n && sk.iter().count() == n, "{what}: iteration yields {} keys instead of {n}", seen.len());
        Ok(())
    }
}

/// Keys around what is eligible: lengths, characters, prefixes of each other.
fn odd_key(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => gen::key(r),
        2 => {
            let n = r.range(14, 18);
            "sixteen_bytes_and_more"[..n].to_string()
        }
        3 => format!("{}\0", gen::shareable_key(r)),
        4 => "\0".repeat(r.range(1, 17)),
        5 => {
            // multi-byte characters across the limit
            let mut s: String = "abcdefghijklmno"[..r.range(11, 15)].into();
            s.push(*r.pick(&['é', '中', 'Ω', '😀', '٣', 'x']));
            s
        }
        6 => format!("{}{}", gen::shareable_key(r), r.pick(&[".", " ", "/", "\u{301}", "😀", "\0", "€", "'"])),
        7 => (*r.pick(&["ä", "ß", "٣", "Ⅷ", "²", "ª", "中", "_", "-", "--", "__", "0"])).to_string(),
        8 => format!("k{}", r.below(50)),
        9 => format!("key_number_{:05}", r.below(60)),
        _ => gen::shareable_key(r),
    }
}

pub fn c12(r: &mut Rng, c: Ctx) -> R<u64> {
    let mut sk = if r.bool() { SharedKeys::new() } else { SharedKeys::default() };
    let mut m = Model::default();
    let mut log = String::new();
    let fill = !c.tiny() && r.one_in(8);
    if fill {
        let upto = LIMIT - r.below(40);
        let mut i = 0;
        while m.keys.len() < upto {
            let k = format!("f{i:x}{}", if i % 3 == 0 { "_with_length" } else { "" });
            i += 1;
            let (a, b) = (sk.encode_and_insert(&k), m.insert(&k));
            ensure!(a == b, "{k:?} is added as {a:?} instead of {b:?}");
        }
        log.push_str(&format!("fill to {upto};"));
        st::hit("tables_filled");
    }
    let mut clones: Vec<(SharedKeys, Model)> = vec![];
    let ops = if c.tiny() { 12 } else { 150 };
    for _ in 0..ops {
        let k = if r.one_in(3) && !m.keys.is_empty() {
            // of the table, or close to one of it
            let k = r.pick(&m.keys).clone();
            match r.below(6) {
                0 => k + "x",
                1 => k + "\0",
                2 => k[..k.len() - k.chars().last().map_or(0, char::len_utf8)].to_string(),
                _ => k,
            }
        } else {
            odd_key(r)
        };
        if log.len() < 500 {
            log.push_str(&format!(" {k:?}"));
        }
        st::hit("table_operations");
        let had = m.ids.get(&k).copied();
        match r.below(5) {
            0 => ensure!(sk.encode(&k) == had, "encode({k:?}) is {:?} instead of {had:?}", sk.encode(&k)),
            1 => {
                if had.is_none() {
                    let can = m.keys.len() < LIMIT && eligible(&k);
                    ensure!(sk.can_add(&k) == can, "can_add({k:?}) is {} with {} keys", !can, m.keys.len());
                }
            }
            2 if r.one_in(10) => clones.push((sk.clone(), m.clone())),
            _ => {
                let can = sk.can_add(&k);
                let (a, b) = (sk.encode_and_insert(&k), m.insert(&k));
                ensure!(a == b, "encode_and_insert({k:?}) is {a:?} instead of {b:?}, with {} keys", m.keys.len());
                if had.is_none() {
                    ensure!(can == a.is_some(), "can_add({k:?}) was {can}, but encode_and_insert is {a:?}");
                }
                st::hit(if had.is_some() { "keys_known" } else if a.is_some() { "keys_added" } else if eligible(&k) { "keys_refused_because_full" } else { "keys_refused_as_ineligible" });
            }
        }
        let (i, j) = (r.below(70_000), r.below(m.keys.len() + 2));
        for i in [i.min(65535), j] {
            ensure!(sk.decode(i as u16) == m.keys.get(i).map(String::as_str), "decode({i}) is {:?} with {} keys", sk.decode(i as u16), m.keys.len());
        }
    }
    st::describe(|| format!("{} keys at the end:{log}", m.keys.len()));
    m.check(&sk, "the table")?;
    let _ = format!("{sk:?}").len();
    // Clones are independent.
    for (i, (mut csk, mut cm)) in clones.into_iter().enumerate() {
        cm.check(&csk, "a clone of the table, after additions to the original")?;
        for j in 0..5 {
            let k = format!("clone{i}_{j}");
            let (a, b) = (csk.encode_and_insert(&k), cm.insert(&k));
            ensure!(a == b, "in a clone, {k:?} is added as {a:?} instead of {b:?}");
            ensure!(sk.encode(&k).is_none(), "an addition to a clone changes the original");
        }
        cm.check(&csk, "a clone of the table")?;
        st::hit("clones_checked");
    }
    m.check(&sk, "the table, after additions to its clones")?;
    Ok(if m.keys.is_empty() { 0 } else { m.keys.iter().fold(1_u64, |h, k| h.rotate_left(5) ^ hash64(k.as_bytes())) | 1 })
}

fn some_table(r: &mut Rng, c: Ctx) -> R<(SharedKeys, Model)> {
    let mut sk = SharedKeys::new();
    let mut m = Model::default();
    let n = if c.tiny() { r.below(6) } else { *r.pick(&[0, 1, 2, 3, 10, 40, 200, 900, 2046, 2047, 2048, 2048]) };
    let mode = r.below(4);
    let mut tries = 0;
    // where the unusual keys are
    let special = [r.below(n + 1), n.saturating_sub(1), *r.pick(&[127, 255, 256, 511, 1023, 1024, 2046])];
    while m.keys.len() < n && tries < 20_000 {
        tries += 1;
        let k = match mode {
            _ if special.contains(&m.keys.len()) && r.bool() => if r.bool() { String::new() } else { odd_key(r) },
            _ if r.one_in(50) => odd_key(r),
            0 => format!("{tries}"),
            1 => format!("sixteen_byte{tries:04}"),
            2 => if tries < 40 { odd_key(r) } else { format!("k{tries:x}") },
            _ => if tries < 400 { gen::shareable_key(r) } else { format!("{tries}-é") },
        };
        let (a, b) = (sk.encode_and_insert(&k), m.insert(&k));
        ensure!(a == b, "{k:?} is added as {a:?} instead of {b:?}");
    }
    Ok((sk, m))
}

/// What is saved of a table restores it.
pub fn c13(r: &mut Rng, c: Ctx) -> R<u64> {
    let (mut sk, mut m) = some_table(r, c)?;
    let n = m.keys.len();
    st::max("state_keys_max", n as u64);
    st::describe(|| format!("{n} keys: {:?}…", &m.keys[..n.min(12)]));
    let state = sk.get_state_bytes();
    // The state is an array of the keys in their order.
    let want = Doc::Arr(m.keys.iter().map(|k| Doc::Str(k.clone())).collect());
    observe::expect("the state", open(&state)?, observe::FULL, &want)?;
    let restored = |b: &[u8], what: &str| -> R<SharedKeys> {
        let Some(x) = SharedKeys::from_state_bytes(b) else { return Err(format!("{what}: the state of {n} keys is not accepted")) };
        m.check(&x, what)?;
        st::hit("tables_restored");
        Ok(x)
    };
    let mut restored1 = restored(&state, "restored")?;
    ensure!(restored1.get_state_bytes() == state, "the state of a restored table differs");
    // From any layout of the same array
    let other = refenc::encode(&want, None, refenc::Style::random(r), r);
    restored(&other, "restored from another layout")?;
    // As a part of another document
    let mut e = Encoder::new();
    let in_dict = r.bool();
    (|| {
        if in_dict {
            e.begin_dict()?;
            e.write_key("version")?;
            e.write_value(1)?;
            e.write_key("keys")?;
        } else {
            e.begin_array(0)?;
        }
        Ok(())
    })().map_err(e2s)?;
    ensure!(sk.write_state(&mut e).is_some(), "write_state fails inside of a document");
    (|| if in_dict { e.end_dict() } else { e.write_value("after").and_then(|()| e.end_array()) })().map_err(e2s)?;
    let b = e.finish();
    let v = open(&b)?;
    let part = if in_dict { v.as_dict().and_then(|d| d.get("keys")) } else { v.as_array().and_then(|a| a.get(0)) };
    let Some(part) = part else { return Err("the state inside of a document is not found".into()) };
    let Some(x) = SharedKeys::from_state_value(part) else { return Err("the state inside of a document is not accepted".into()) };
    m.check(&x, "restored from a part of a document")?;
    // write_state where it can't be written
    let mut e = Encoder::new();
    if e.begin_dict().is_ok() {
        ensure!(sk.write_state(&mut e).is_none(), "write_state succeeds where a key is expected");
    }
    // Documents that were written with the old table are read with the restored one.
    let d = if c.tiny() { gen::small_doc(r) } else { gen::dicty(r) };
    let s = drive::scoped(&d, sk.clone(), r)?;
    let (Some(bytes), Some(grown)) = (s.data(), s.shared_keys().cloned()) else { return Err("no data".into()) };
    let bytes = bytes.to_vec();
    let mut gm = m.clone();
    let mut dk = vec![];
    collect_keys(&d, &mut dk);
    for i in m.keys.len()..usize::from(grown.len()) {
        let Some(k) = grown.decode(i as u16) else { return Err(format!("the key {i} of {} is not decoded", grown.len())) };
        ensure!(dk.iter().any(|x| x == k), "the key {k:?} is in the table, but not in the document");
        ensure!(gm.insert(k) == Some(i as u16), "the key {k:?} is added twice, or is not eligible");
    }
    gm.check(&grown, "the table after a document")?;
    let state2 = grown.get_state_bytes();
    drop((s, grown));
    let Some(re) = SharedKeys::from_state_bytes(&state2) else { return Err("the state of a grown table is not accepted".into()) };
    gm.check(&re, "restored after a document")?;
    let s2 = Scope::new(bytes, Some(Arc::new(re)));
    let Some(root) = s2.root() else { return Err("a document is rejected after its table was restored".into()) };
    observe::expect("read with the restored table", &root, observe::Opt { sk: s2.shared_keys().map(|x| &**x), probes: true }, &d)?;
    // Both grow in the same way.
    for i in 0..r.below(12) {
        let k = if r.bool() { odd_key(r) } else { format!("grow{i}") };
        let want = m.insert(&k);
        let (a, b) = (sk.encode_and_insert(&k), restored1.encode_and_insert(&k));
        ensure!(a == want && b == want, "{k:?} is added as {want:?}, but to the table as {a:?}, and to the restored one as {b:?}");
    }
    m.check(&sk, "the table, grown")?;
    m.check(&restored1, "the restored table, grown")?;
    // What is not a state
    let bad = match r.below(6) {
        0 => Doc::Dict([("a".to_string(), Doc::Str("b".into()))].into()),
        1 => {
            let mut v: Vec<Doc> = m.keys.iter().take(5).map(|k| Doc::Str(k.clone())).collect();
            let at = r.below(v.len() + 1);
            v.insert(at, loop {
                let l = gen::leaf_small(r);
                if !matches!(l, Doc::Str(_)) {
                    break l;
                }
            });
            Doc::Arr(v)
        }
        2 => Doc::Arr(vec![Doc::Str("fine".into()), Doc::Str(loop {
            let k = odd_key(r);
            if !eligible(&k) {
                break k;
            }
        })]),
        3 => Doc::Arr(vec![Doc::Str("a".into()), Doc::Arr(vec![Doc::Str("b".into())])]),
        4 if !c.tiny() => Doc::Arr((0..2049 + r.below(4)).map(|i| Doc::Str(format!("{i}"))).collect()),
        _ => gen::leaf_small(r),
    };
    let b = refenc::encode(&bad, None, refenc::Style::random(r), r);
    ensure!(SharedKeys::from_state_bytes(&b).is_none(), "shared keys are read from {}", bad.brief());
    ensure!(SharedKeys::from_state_value(open(&b)?).is_none(), "shared keys are read from {}", bad.brief());
    st::hit("wrong_states_refused");
    ensure!(SharedKeys::from_state_bytes(&[]).is_none() && SharedKeys::from_state_bytes(&state[..state.len() / 2 * 2 - 2]).is_none_or(|x| x.len() <= LIMIT as u16), "shared keys from truncated data");
    Ok(if n == 0 { 0 } else { m.keys.iter().fold(1_u64, |h, k| h.rotate_left(5) ^ hash64(k.as_bytes())) ^ d.fp() | 1 })
}

fn all_values<'a>(v: &'a Value, f: &mut impl FnMut(&'a Value) -> R) -> R {
    f(v)?;
    if let Some(a) = v.as_array() {
        for x in a {
            all_values(x, f)?;
        }
    }
    if let Some(d) = v.as_dict() {
        for (_, x) in d {
            all_values(x, f)?;
        }
    }
    Ok(())
}

/// Documents with shared keys read the same as without, as the table evolves.
pub fn c14(r: &mut Rng, c: Ctx) -> R<u64> {
    let (mut sk, mut m) = if r.bool() { some_table(r, c)? } else { (SharedKeys::new(), Model::default()) };
    let docs: Vec<Doc> = (0..if c.tiny() { 2 } else { r.range(1, 5) }).map(|_| match r.below(3) {
        0 => some_doc(r, c),
        _ if c.tiny() => gen::small_doc(r),
        _ => gen::dicty(r),
    }).collect();
    st::describe(|| format!("a table of {} keys, then {} documents, the first is {:.400}", m.keys.len(), docs.len(), format!("{:?}", docs[0])));
    let mut live: Vec<(Arc<Scope>, usize)> = vec![];
    let mut olds: Vec<Vec<u8>> = vec![];
    let mut fp = 0;
    for (i, d) in docs.iter().enumerate() {
        let plain = drive::bytes(d, r)?;
        observe::expect("without shared keys", open(&plain)?, observe::FULL, d)?;
        let s = drive::scoped(d, sk.clone(), r)?;
        let (Some(root), Some(table), Some(data)) = (s.root(), s.shared_keys().cloned(), s.data()) else { return Err("finish_scoped: no root, shared keys or data".into()) };
        observe::expect("with shared keys", &root, observe::Opt { sk: Some(&table), probes: true }, d)?;
        ensure!(s.range() == Some(data.as_ptr() as usize..data.as_ptr() as usize + data.len()), "the range of the scope is not that of its data");
        // The table has only grown, by keys of the document.
        let mut dk = vec![];
        collect_keys(d, &mut dk);
        let dk: HashSet<String> = dk.into_iter().collect();
        for i in m.keys.len()..usize::from(table.len()) {
            let Some(k) = table.decode(i as u16) else { return Err(format!("the key {i} of {} is not decoded", table.len())) };
            ensure!(dk.contains(k), "the key {k:?} is in the table, but not in the document");
            ensure!(m.insert(k) == Some(i as u16), "the key {k:?} is added twice, or is not eligible");
        }
        m.check(&table, "the table after a document")?;
        // The keys of everything in the data are found, and they are those of the scope.
        let mut n = 0;
        all_values(&root, &mut |v| {
            n += 1;
            if n % 7 == 1 {
                let f = Scope::find_shared_keys(observe::addr(v) as *const u8);
                ensure!(f.is_some_and(|f| Arc::ptr_eq(&f, &table)), "the shared keys of the scope are not found for a value in it");
                st::hit("shared_keys_found");
            }
            Ok(())
        })?;
        let mut shared = 0;
        all_values(&root, &mut |v| {
            if let Some((k, _)) = v.as_dict().and_then(fleece::Dict::first) {
                shared += u64::from(k.value_type() == ValueType::Short);
            }
            Ok(())
        })?;
        st::add("dicts_with_shared_keys", shared);
        st::hit("shared_documents_compared");
        if shared > 0 {
            fp ^= d.fp().rotate_left(i as u32) | 1;
        }
        // A document with shared keys at a part of which we look with a given table
        if let Some(Some(d2)) = root.as_array().map(|a| a.iter().find_map(Value::as_dict)) {
            for (k, v) in d2 {
                ensure!(d2.get_with_shared_keys(k, &table).map(observe::addr) == Some(observe::addr(v)), "get_with_shared_keys({k:?})");
            }
        }
        olds.push(data.to_vec());
        sk = (*table).clone();
        if r.one_in(3) {
            // through its state
            let Some(x) = SharedKeys::from_state_bytes(&table.get_state_bytes()) else { return Err("the state is not accepted".into()) };
            sk = x;
        }
        if r.bool() {
            // Keys that the encoder inlined in this document enter the table after all.
            for k in dk.iter().filter(|k| k.len() < 2).cloned().chain([odd_key(r)]).collect::<std::collections::BTreeSet<_>>() {
                let (a, b) = (sk.encode_and_insert(&k), m.insert(&k));
                ensure!(a == b, "{k:?} is added as {a:?} instead of {b:?}");
                st::add("inlined_keys_added_later", u64::from(k.len() < 2));
            }
        }
        drop((root, data));
        live.push((s, i));
        if r.one_in(3) {
            let at = r.below(live.len());
            live.swap_remove(at);
        }
        // Documents which are still there keep their table.
        for (s, i) in &live {
            let Some(root) = s.root() else { return Err("a scope has lost its root".into()) };
            observe::expect("an earlier document", &root, observe::Opt { sk: s.shared_keys().map(|x| &**x), probes: false }, &docs[*i])?;
            st::hit("earlier_documents_read");
        }
    }
    // Old documents with the newest table
    let newest = Arc::new(sk);
    for (i, b) in olds.into_iter().enumerate() {
        let s = Scope::new(b, Some(newest.clone()));
        let Some(root) = s.root() else { return Err("an old document is rejected".into()) };
        observe::expect("an old document with a newer table", &root, observe::Opt { sk: Some(&newest), probes: false }, &docs[i])?;
        st::hit("old_documents_read_with_newer_tables");
    }
    let _ = Array::empty();
    Ok(fp)
}
