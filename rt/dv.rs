// Runtime of the derive checks: seeded choices, event log, faults, and the runner that drives a
// value directly and inside an enum with the same script and compares everything observed.
#![allow(dead_code, static_mut_refs)]
use std::cell::{Cell, RefCell};
use std::collections::HashSet;

// A counting allocator; counts are per thread.
pub struct Counting;
thread_local! { static ALLOCS: Cell<u64> = const { Cell::new(0) }; }
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { let _ = ALLOCS.try_with(|a| a.set(a.get() + 1)); unsafe { std::alloc::System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { unsafe { std::alloc::System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { let _ = ALLOCS.try_with(|a| a.set(a.get() + 1)); unsafe { std::alloc::System.realloc(p, l, n) } }
}
#[global_allocator]
static A: Counting = Counting;
pub fn allocs() -> u64 { ALLOCS.with(|a| a.get()) }
/// The enum is no larger than its largest field and a discriminant.
pub fn chk_size<T>(fields: &[(usize, usize)]) {
    let (s, a) = fields.iter().fold((0, 1), |(s, a), f| (s.max(f.0), a.max(f.1)));
    if std::mem::size_of::<T>() > (s + a).next_multiple_of(a) { log(format!("TOO LARGE {} fields {fields:?}", std::mem::size_of::<T>())); }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: u64) -> u64 { self.next() % k }
    pub fn u(&mut self, k: usize) -> usize { (self.next() % k as u64) as usize }
    pub fn b(&mut self, num: u64, den: u64) -> bool { self.n(den) < num }
}

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static FAULT: Cell<i64> = const { Cell::new(-1) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static RNG: RefCell<Rng> = const { RefCell::new(Rng(0)) };
}
pub fn log(s: String) { let _ = LOG.try_with(|l| { let mut l = l.borrow_mut(); if l.len() < 4000 { l.push(s); } }); }
pub fn take_log() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
#[macro_export]
macro_rules! ev { ($($t:tt)*) => { $crate::log(format!($($t)*)) } }

/// The monitored call of a mock: counted, logged, and panicking when the script says so.
pub fn call(s: String) {
    CALLS.with(|c| c.set(c.get() + 1));
    let boom = FAULT.with(|f| { let v = f.get(); f.set(v - 1); v == 0 });
    if boom { log(format!("{s} PANICS")); panic!("scripted panic in {s}"); }
    log(s);
}
#[macro_export]
macro_rules! call { ($($t:tt)*) => { $crate::call(format!($($t)*)) } }
/// Decisions of the mocks (short reads, errors, pending): their own stream, the same for both runs.
pub fn choose(k: u64) -> u64 { RNG.with(|r| r.borrow_mut().n(k)) }
pub fn live(d: i64) { let _ = LIVE.try_with(|l| l.set(l.get() + d)); }

/// A value whose drop is observed.
#[derive(Debug)]
pub struct Guard(pub u32);
impl Guard { pub fn new(k: u32) -> Guard { live(1); Guard(k) } }
impl Drop for Guard { fn drop(&mut self) { live(-1); log(format!("drop {}", self.0)); } }

pub struct Case { pub name: &'static str, pub direct: fn(&mut Rng), pub subject: fn(&mut Rng) }

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
pub struct Seen { pub log: Vec<String>, pub end: Result<(), String>, pub live: i64, pub calls: u64, pub allocs: u64 }
pub fn observe(f: fn(&mut Rng), seed: u64, fault: i64) -> Seen {
    take_log();
    LIVE.with(|l| l.set(0));
    CALLS.with(|c| c.set(0));
    FAULT.with(|f| f.set(fault));
    RNG.with(|r| *r.borrow_mut() = Rng(seed ^ 0x5555_0000_1234));
    let mut r = Rng(seed);
    let a0 = allocs();
    let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r)));
    let allocs = allocs() - a0;
    let end = end.map_err(msg);
    FAULT.with(|f| f.set(-1));
    Seen { log: take_log(), end, live: LIVE.with(|l| l.get()), calls: CALLS.with(|c| c.get()), allocs }
}
fn fh(x: &impl std::hash::Hash) -> u64 { use std::hash::{DefaultHasher, Hasher}; let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }

/// Counters of what the monitors saw, for the evidence.
static STATS: std::sync::Mutex<std::collections::BTreeMap<String, u64>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
pub fn stat(k: &str, n: u64) { *STATS.lock().unwrap_or_else(|e| e.into_inner()).entry(k.to_string()).or_insert(0) += n; }
pub fn hash(x: &impl std::hash::Hash) -> u64 { fh(x) }

pub fn main(cases: &[Case]) {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[1].parse().unwrap();
    let runs: u64 = args[2].parse().unwrap();
    let only = args.get(3).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    let count = std::env::var("DV_ALLOC").is_ok();
    for (k, c) in cases.iter().enumerate() {
        if let Some(o) = &only { if o != c.name { continue; } }
        let mut traces = HashSet::new();
        let mut ops = std::collections::BTreeMap::new();
        let (mut events, mut panics, mut calls) = (0u64, 0u64, 0u64);
        println!("AUTO {}", c.name);
        for r in 0..runs {
            let s = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ ((k as u64) << 40) ^ r.wrapping_mul(0x9E3779B97F4A7C15);
            let fault = if r % 8 == 7 { (s >> 20) as i64 & 15 } else { -1 };
            let a = observe(c.direct, s, fault);
            let b = observe(c.subject, s, fault);
            events += b.log.len() as u64;
            calls += b.calls;
            if a.end.is_err() { panics += 1; }
            traces.insert(fh(&a.log));
            for l in &b.log { let w = l.split(' ').next().unwrap_or(""); if let Some(n) = ops.get_mut(w) { *n += 1; } else { ops.insert(w.to_string(), 1u64); } }
            if count && b.end.is_ok() { stat("allocations_direct", a.allocs); stat("allocations_in_enum", b.allocs); }
            if count && b.end.is_ok() && a.log == b.log && b.allocs > a.allocs {
                println!("MISMATCH {} run={} seed={}: the value itself allocates {} times, inside the enum {} times", c.name, r, s, a.allocs, b.allocs);
                break;
            }
            if a.log != b.log || a.end != b.end || a.live != b.live {
                let i = a.log.iter().zip(&b.log).position(|(x, y)| x != y).unwrap_or(a.log.len().min(b.log.len()));
                let one = |s: String| s.replace('\n', "\\n");
                println!("{}", one(format!("MISMATCH {} run={} seed={}: at event {} the value itself gives {:?}, inside the enum {:?}; end {:?} vs {:?}; undropped {} vs {}; before: {:?}",
                    c.name, r, s, i, a.log.get(i), b.log.get(i), a.end, b.end, a.live, b.live, &a.log[i.saturating_sub(4)..i])));
                break;
            }
        }
        let ops: Vec<String> = ops.iter().map(|(k, v)| format!("{k}:{v}")).collect();
        println!("STAT {} {} {} {} {} {} {}", c.name, runs, events, traces.len(), panics, calls, ops.join(","));
    }
    for (k, v) in STATS.lock().unwrap_or_else(|e| e.into_inner()).iter() { println!("XSTAT {k} {v}"); }
    println!("DONE");
}
