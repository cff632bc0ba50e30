//! What the monitors observed in this process.
use std::cell::RefCell;
use std::collections::BTreeMap;

thread_local! {
    static COUNTS: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    static SAMPLE: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn add(name: &'static str, n: u64) {
    COUNTS.with(|c| *c.borrow_mut().entry(name).or_insert(0) += n);
}
pub fn hit(name: &'static str) {
    add(name, 1);
}
pub fn max(name: &'static str, n: u64) {
    COUNTS.with(|c| {
        let mut c = c.borrow_mut();
        let e = c.entry(name).or_insert(0);
        *e = (*e).max(n);
    });
}
pub fn take() -> BTreeMap<&'static str, u64> {
    COUNTS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
/// Describe the current case, for the samples and the violation reports.
pub fn describe(s: impl FnOnce() -> String) {
    SAMPLE.with(|c| *c.borrow_mut() = s());
}
pub fn description() -> String {
    SAMPLE.with(|c| c.borrow().clone())
}

pub type R<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !($c) { return Err(format!($($f)*)); } };
}
