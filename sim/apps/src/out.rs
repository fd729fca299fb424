use serde_json::Value;
use std::collections::BTreeMap;

/// What one simulated run came to.
#[derive(Default)]
pub struct Out {
    pub viol: Option<(String, String)>,
    pub hash: u64,
    pub log: Vec<String>,
    pub injected: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub judged: u64,
    pub states: Vec<u64>,
    /// listed findings met on the way
    pub known: BTreeMap<String, String>,
}
static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
/// Keys of the findings that are listed.
pub fn set_known(k: Vec<String>) {
    let _ = KNOWN.set(k);
}
impl Out {
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.viol.is_none() {
            self.viol = Some((class.into(), detail));
        }
    }
    /// A violation with the exact signature of a finding that may be listed: if it is, the run goes on.
    pub fn fail_as(&mut self, key: &str, class: &str, detail: String) {
        if KNOWN.get().is_some_and(|k| k.iter().any(|x| x == key)) {
            self.known.entry(key.into()).or_insert(detail);
        } else {
            self.fail(class, detail);
        }
    }
    pub fn inject(&mut self, k: &str, n: u64) {
        *self.injected.entry(k.into()).or_insert(0) += n;
    }
    pub fn see(&mut self, x: u64) {
        self.hash = crate::rng::mix(self.hash, x);
    }
}
thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn hush() {
    std::panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = i.to_string())));
}
/// Runs real code; a panic becomes its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v[k].as_array().map_or(&[], |x| x)
}
