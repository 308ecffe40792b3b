//! The exploration kernel: families of cases, each case a finite set of
//! histories; every history of every case is executed (no sampling).

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Counters and samples of one run (or of one worker's share of it).
#[derive(Default)]
pub struct Ctx {
    pub histories: u64,
    pub transitions: u64,
    pub states: u64,
    pub nontrivial: u64,
    pub skipped_cases: u64,
    pub cases: u64,
    pub case_states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub trace_on: bool,
    pub narrative: Vec<String>,
}

impl Ctx {
    pub fn step(&mut self) { self.transitions += 1; }
    pub fn state<T: Hash>(&mut self, t: &T) { self.case_states.insert(h64(t)); }
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 200_000 { self.outcomes.insert(h64(t)); }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) { *c += n; }
        else { self.counters.insert(k.to_string(), n); }
    }
    pub fn say<F: FnOnce() -> String>(&mut self, f: F) {
        if self.trace_on { let s = f(); self.narrative.push(s); }
    }
    pub fn end_case(&mut self) {
        self.states += self.case_states.len() as u64;
        self.case_states.clear();
    }
}

pub type R = Result<(), String>;

pub trait Case {
    fn nhist(&self) -> u64;
    /// Execute history `h` on the real code, compare with the oracle.
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R;
    fn describe(&self, h: u64) -> String;
}

pub trait Family {
    fn name(&self) -> String;
    /// What is enumerated, and the bounds.
    fn bounds(&self) -> String;
    fn ncases(&self) -> usize;
    /// `None`: outside the property's domain (counted as skipped).
    fn case(&self, i: usize) -> Option<Box<dyn Case>>;
}

/// A family whose cases have each exactly one history given by a closure.
pub struct FnFamily<T: 'static> {
    pub name: String,
    pub bounds: String,
    pub items: Vec<T>,
    pub show: fn(&T) -> String,
    pub run: fn(&T, &mut Ctx) -> R,
}
struct FnCase<T: 'static> { item: T, show: fn(&T) -> String, run: fn(&T, &mut Ctx) -> R }
impl<T: Clone + 'static> Family for FnFamily<T> {
    fn name(&self) -> String { self.name.clone() }
    fn bounds(&self) -> String { self.bounds.clone() }
    fn ncases(&self) -> usize { self.items.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        Some(Box::new(FnCase { item: self.items[i].clone(), show: self.show, run: self.run }))
    }
}
impl<T: 'static> Case for FnCase<T> {
    fn nhist(&self) -> u64 { 1 }
    fn run(&mut self, _h: u64, cx: &mut Ctx) -> R { (self.run)(&self.item, cx) }
    fn describe(&self, _h: u64) -> String { (self.show)(&self.item) }
}

thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    let s = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else { "<non-string panic>".to_string() };
    let mut one: String = s.split_whitespace().collect::<Vec<_>>().join(" ");
    if one.len() > 400 { let mut k = 400; while !one.is_char_boundary(k) { k -= 1 } one.truncate(k); }
    one
}

/// Run `f`; a panic becomes `Err(message)`.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn run_one(c: &mut Box<dyn Case>, h: u64, cx: &mut Ctx) -> R {
    cx.histories += 1;
    match guarded(AssertUnwindSafe(|| c.run(h, cx))) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}

/// All tuples over `0..n` of length `len`, as a mixed-radix decode.
pub fn digits(mut h: u64, n: u64, len: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len { v.push((h % n) as usize); h /= n; }
    v.reverse();
    v
}

pub fn ensure(b: bool, f: impl FnOnce() -> String) -> R { if b { Ok(()) } else { Err(f()) } }

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } }
}
