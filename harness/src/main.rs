//! Runs the workload of one property against the real crate, under the monitors of that property.
//!
//! `fleece-verif run PROP --seed S --shard I --shards N --from A --to B --max-secs T --progress FILE --variant V --tier T`
//! writes one JSON object to stdout. Case C of a property is always the same workload (for a seed and
//! a tier), so that `--from C --to C+1` repeats it.
#![allow(clippy::all)]
mod c_cost;
mod c_enc;
mod c_dec;
mod c_keys;
mod c_mut;
mod c_par;
mod c_read;
mod c_scope;
mod c_serde;
mod dynser;
mod doc;
mod drive;
mod gen;
mod malform;
mod observe;
mod refdec;
mod refenc;
mod rng;
mod st;

use rng::Rng;
use st::R;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Variant {
    Dbg,
    Asan,
    Tsan,
    Miri,
    Cost,
}

#[derive(Clone, Copy)]
pub struct Ctx {
    pub case: u64,
    pub seed: u64,
    pub variant: Variant,
    pub thorough: bool,
}

impl Ctx {
    pub fn tiny(&self) -> bool {
        self.variant == Variant::Miri
    }
}

/// Ok(fingerprint of a non-trivial case) or Ok(0) for a trivial one, Err(how the property is broken).
pub type Prop = fn(&mut Rng, Ctx) -> R<u64>;

pub fn props() -> Vec<(&'static str, Prop)> {
    vec![
        ("C01", c_enc::c01 as Prop), ("C02", c_enc::c02), ("C03", c_enc::c03), ("C04", c_enc::c04), ("C05", c_enc::c05),
        ("C06", c_dec::c06), ("C07", c_dec::c07), ("C08", c_dec::c08), ("C09", c_enc::c09), ("C10", c_read::c10),
        ("C11", c_read::c11), ("C12", c_keys::c12), ("C13", c_keys::c13), ("C14", c_keys::c14), ("C15", c_scope::c15),
        ("C16", c_scope::c16), ("C17", c_scope::c17), ("C18", c_mut::c18), ("C19", c_mut::c19), ("C20", c_mut::c20),
        ("C21", c_mut::c21), ("C22", c_serde::c22), ("C23", c_serde::c23), ("C24", c_serde::c24), ("C25", c_serde::c25),
        ("C26", c_par::c26), ("C27", c_cost::c27),
    ]
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Run something that may panic. A panic in the crate under test is an error, one in this harness too, but marked.
pub fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("/harness/src/") {
                Err(format!("HARNESS-PANIC at {loc}: {msg}"))
            } else {
                Err(format!("panic at {loc}: {msg}"))
            }
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let num = |name: &str, d: u64| opt(name).and_then(|x| x.parse().ok()).unwrap_or(d);
    if args.first().map(String::as_str) == Some("known") {
        let Some(name) = args.get(1) else { std::process::exit(2) };
        c_dec::known(name);
        return;
    }
    if args.first().map(String::as_str) != Some("run") || args.len() < 2 {
        eprintln!("usage: run PROP …");
        std::process::exit(2);
    }
    let id = args[1].clone();
    let Some((name, f)) = props().into_iter().find(|(n, _)| *n == id) else {
        eprintln!("no such property {id}");
        std::process::exit(2);
    };
    let variant = match opt("--variant").as_deref() {
        Some("asan") => Variant::Asan,
        Some("tsan") => Variant::Tsan,
        Some("miri") => Variant::Miri,
        Some("cost") => Variant::Cost,
        _ => Variant::Dbg,
    };
    let seed = num("--seed", 1);
    let (shard, shards, from, to) = (num("--shard", 0), num("--shards", 1), num("--from", 0), num("--to", 100));
    let limit = Duration::from_secs(num("--max-secs", 100_000));
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let progress = opt("--progress");
    let verbose = args.iter().any(|a| a == "--verbose");
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| (*s).to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if verbose {
            eprintln!("panic at {loc}: {msg}");
        }
        PANIC.with(|p| {
            // The first panic is the cause.
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
    let stack = if variant == Variant::Miri { 64 << 20 } else { 512 << 20 };
    let out = std::thread::Builder::new().stack_size(stack).spawn(move || {
        let mut progress = progress.and_then(|p| std::fs::File::create(p).ok());
        let t0 = Instant::now();
        let mut seen: HashSet<u64> = HashSet::new();
        let (mut evaluations, mut trivial) = (0_u64, 0_u64);
        let mut samples: Vec<String> = vec![];
        let mut violations: Vec<(u64, String, String)> = vec![];
        let mut stopped = false;
        let prop_no = u64::from(id.as_bytes()[1]) * 16 + u64::from(id.as_bytes()[2]);
        let mut case = from + (shard + shards - from % shards) % shards;
        let mut next_sample = 1;
        while case < to {
            if t0.elapsed() > limit {
                stopped = true;
                break;
            }
            if let Some(p) = &mut progress {
                let _ = p.seek(SeekFrom::Start(0));
                let _ = p.write_all(format!("{case:20}").as_bytes());
            }
            let mut rng = Rng::new(&[seed, prop_no, case]);
            PANIC.with(|p| p.borrow_mut().take());
            st::describe(String::new);
            observe::turn(case);
            let ctx = Ctx { case, seed, variant, thorough };
            let r = guard(|| f(&mut rng, ctx));
            evaluations += 1;
            match r {
                Ok(0) => trivial += 1,
                Ok(fp) => {
                    if seen.insert(fp) && seen.len() == next_sample && samples.len() < 4 {
                        next_sample = next_sample * 7 + 1;
                        samples.push(format!("case {case}: {}", st::description()));
                    }
                }
                Err(e) => {
                    violations.push((case, e, st::description()));
                    if violations.len() >= 5 {
                        stopped = true;
                        break;
                    }
                }
            }
            case += shards;
        }
        let counts: BTreeMap<_, _> = st::take();
        let mut o = String::new();
        o.push_str(&format!("{{\"property\":{},\"evaluations\":{evaluations},\"trivial\":{trivial},\"stopped\":{stopped},\"wall\":{:.3},", json_str(name), t0.elapsed().as_secs_f64()));
        o.push_str(&format!("\"counts\":{{{}}},", counts.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"samples\":[{}],", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"violations\":[{}],", violations.iter().map(|(c, e, d)| format!("{{\"case\":{c},\"error\":{},\"input\":{}}}", json_str(e), json_str(d))).collect::<Vec<_>>().join(",")));
        o.push_str(&format!("\"fps\":[{}]}}", seen.iter().map(|x| format!("\"{x:x}\"")).collect::<Vec<_>>().join(",")));
        println!("{o}");
        !violations.is_empty()
    });
    match out.map(|h| h.join()) {
        Ok(Ok(false)) => {}
        Ok(Ok(true)) => std::process::exit(1),
        _ => std::process::exit(3),
    }
}
