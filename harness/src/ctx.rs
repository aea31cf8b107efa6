//! Case context, event ledger, budgets, and the allocation monitor.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicU64 = AtomicU64::new(0);
/// live bytes above which the process gives up (exit 98)
pub static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tally(l.size() as u64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        tally(n as u64);
        unsafe { System.realloc(p, l, n) }
    }
}
fn tally(n: u64) {
    ALLOCS.fetch_add(1, Relaxed);
    BYTES.fetch_add(n, Relaxed);
    let live = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if live > LIMIT.load(Relaxed) && live < u64::MAX / 2 {
        LIMIT.store(u64::MAX, Relaxed);
        // no unwinding from an allocator: end the process with a code the parent knows
        eprintln!("memory budget exceeded: {live} bytes live");
        std::process::exit(98);
    }
}

#[global_allocator]
static A: Counting = Counting;

pub fn live() -> u64 {
    LIVE.load(Relaxed)
}

/// In the confirming run of a case that killed its worker, the last thing handed to the crate
/// is kept in a file, so that the report can name it.
pub static NOTE_FILE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub fn note(f: impl FnOnce() -> String) {
    if let Some(p) = NOTE_FILE.get() {
        let _ = std::fs::write(p, f());
    }
}

pub type Res = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
    pub thorough: bool,
    pub idx: u64,
    pub evals: u64,
    pub ev: BTreeMap<&'static str, u64>,
    pub nontriv: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Ctx {
    pub fn event(&mut self, k: &'static str) {
        *self.ev.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.ev.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.ev.entry(k).or_default();
        *e = (*e).max(n);
    }
    /// one evaluation of the oracle; `key` identifies the case when it is non-trivial
    pub fn eval(&mut self, key: Option<u64>) {
        self.evals += 1;
        if let Some(k) = key {
            self.nontriv.insert(k);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

pub fn h<X: std::hash::Hash>(x: &X) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new_with_keys(1, 2);
    x.hash(&mut s);
    s.finish()
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}... ({} bytes)", &s[..k], s.len())
}
