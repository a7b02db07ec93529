// Runtime of the generated programs: input stream, event log, monitored branch values, consumers.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Debug, Display, Write as _};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

// ---- counting allocator --------------------------------------------------------------------
pub struct Counting;
thread_local! { static ALLOCS: Cell<u64> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let _ = ALLOCS.try_with(|a| a.set(a.get() + 1)); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let _ = ALLOCS.try_with(|a| a.set(a.get() + 1)); unsafe { System.realloc(p, l, n) } }
}
#[global_allocator]
static A: Counting = Counting;
pub fn allocs() -> u64 { ALLOCS.with(|a| a.get()) }

// ---- input stream and event log ------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ev { C, N, T, New, Next, Back, Hint, Drop, Fmt, Poll, U, UErr, Use, Size, Mark, G, Gone }
pub type Event = (Ev, u32, u32);
const CAP: usize = 6000;
pub struct Ctx { state: u64, fuel: u32, pub log: Vec<Event>, live: i64 }
thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx { state: 0, fuel: 0, log: Vec::with_capacity(CAP + 8), live: 0 }); }
#[cfg_attr(loc, track_caller)]
fn ev(k: Ev, a: u32, b: u32) {
    #[cfg(loc)]
    loc::note(k, a);
    CTX.with(|c| { let mut c = c.borrow_mut(); if c.log.len() < CAP { c.log.push((k, a, b)); } });
}
fn draw() -> u32 {
    let r = CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.fuel == 0 { return None; }
        c.fuel -= 1;
        c.state = c.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = c.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        Some((z ^ (z >> 31)) as u32)
    });
    match r { Some(r) => r, None => panic!("out of fuel") }
}
pub fn reset(seed: u64, fuel: u32) { CTX.with(|c| { let mut c = c.borrow_mut(); c.state = seed; c.fuel = fuel; c.log.clear(); c.live = 0; }) }
pub fn take_log() -> Vec<Event> { CTX.with(|c| c.borrow().log.clone()) }
pub fn live() -> i64 { CTX.with(|c| c.borrow().live) }
fn add_live(d: i64) { CTX.with(|c| c.borrow_mut().live += d) }

/// A condition of the generated program.
#[cfg_attr(loc, track_caller)] pub fn c(id: u32) -> bool { let b = draw() & 1 == 1; ev(Ev::C, id, b as u32); b }
/// A number below `k`.
#[cfg_attr(loc, track_caller)] pub fn n(id: u32, k: u32) -> u32 { let v = draw() % k; ev(Ev::N, id, v); v }
/// A side effect.
#[cfg_attr(loc, track_caller)] pub fn t(id: u32) { ev(Ev::T, id, 0) }
#[cfg_attr(loc, track_caller)] pub fn tv(id: u32, v: u32) -> u32 { ev(Ev::T, id, v); v }
/// Burns fuel, so that every endless loop ends.
pub fn tick() { draw(); }
/// What `?` means: the success value, or a boxed error returned from the function.
#[macro_export]
macro_rules! q { ($b:ident, $e:expr) => { match $e { Ok(v) => v, Err(e) => return Err($b(e)) } } }
#[cfg_attr(loc, track_caller)] pub fn sink(v: u32) { ev(Ev::U, v, 0) }
#[cfg_attr(loc, track_caller)] pub fn opt(id: u32) -> Option<u32> { let v = n(id, 3); if v == 0 { None } else { Some(v) } }
#[cfg_attr(loc, track_caller)] pub fn ur(id: u32) -> Result<u32, u32> { let v = n(id, 5); ev(Ev::UErr, id, v); if v == 0 { Err(id) } else { Ok(v) } }
#[cfg_attr(loc, track_caller)] pub fn pick<T>(id: u32, a: impl FnOnce() -> T, b: impl FnOnce() -> T) -> T { if c(id) { a() } else { b() } }
#[cfg_attr(loc, track_caller)] pub fn arr<T>(id: u32, v: [T; 2]) -> T { let [a, b] = v; if c(id) { a } else { b } }
#[cfg_attr(loc, track_caller)] pub fn idf<T>(id: u32, x: T) -> T { t(id); x }
#[cfg_attr(loc, track_caller)] pub fn two<T>(id: u32, v: u32, x: T) -> T { ev(Ev::T, id, v); x }
#[cfg_attr(loc, track_caller)] pub fn pick2<T>(id: u32, [a, b]: [T; 2]) -> T { if n(id, 2) == 0 { a } else { b } }

// ---- monitored values ----------------------------------------------------------------------
/// `N` names the branch (a different type for each), `P` varies the size.
pub struct L<const N: u32, const P: usize> { v: u32, pos: u32, pad: [u64; P] }
#[cfg_attr(loc, track_caller)] pub fn leaf<const N: u32, const P: usize>(v: u32) -> L<N, P> { ev(Ev::New, N, v); add_live(1); L { v, pos: 0, pad: [7; P] } }
impl<const N: u32, const P: usize> L<N, P> {
    fn len_(&self) -> u32 { ((N + self.v) % 4).saturating_sub(self.pos) }
    fn item(&self, i: u32) -> u32 { N.wrapping_mul(64).wrapping_add(self.v).wrapping_add(i) }
}
impl<const N: u32, const P: usize> Drop for L<N, P> { fn drop(&mut self) { ev(Ev::Drop, N, self.pos); add_live(-1); } }
impl<const N: u32, const P: usize> Iterator for L<N, P> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        ev(Ev::Next, N, self.pos);
        if self.len_() == 0 { return None; }
        self.pos += 1;
        Some(self.item(self.pos))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { ev(Ev::Hint, N, self.pos); let l = self.len_() as usize; (l, Some(l)) }
}
impl<const N: u32, const P: usize> DoubleEndedIterator for L<N, P> {
    fn next_back(&mut self) -> Option<u32> {
        ev(Ev::Back, N, self.pos);
        if self.len_() == 0 { return None; }
        self.v = self.v.wrapping_sub(1).wrapping_add(4);
        self.pos += 1;
        Some(self.item(100 + self.pos))
    }
}
impl<const N: u32, const P: usize> ExactSizeIterator for L<N, P> { fn len(&self) -> usize { self.len_() as usize } }
impl<const N: u32, const P: usize> Debug for L<N, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { ev(Ev::Fmt, N, f.width().unwrap_or(0) as u32 + 100 * f.alternate() as u32); f.pad("D")?; write!(f, "{}:{}", N, self.v) }
}
impl<const N: u32, const P: usize> Display for L<N, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { ev(Ev::Fmt, N, 1000 + f.precision().unwrap_or(0) as u32); f.pad("S")?; write!(f, "{}:{}", N, self.v) }
}
impl<const N: u32, const P: usize> Future for L<N, P> {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        ev(Ev::Poll, N, self.pos);
        let this = unsafe { self.get_unchecked_mut() };
        if this.len_() == 0 { Poll::Ready(this.item(0)) } else { this.pos += 1; cx.waker().wake_by_ref(); Poll::Pending }
    }
}

// ---- temporaries and locals whose drop is observed -------------------------------------------
pub struct Tmp(u32);
#[cfg_attr(loc, track_caller)] pub fn tmp(id: u32) -> Tmp { ev(Ev::G, id, 0); Tmp(id) }
impl Tmp { pub fn v(&self, x: u32) -> u32 { x } }
impl Drop for Tmp { fn drop(&mut self) { ev(Ev::Gone, self.0, 0) } }
/// A temporary that borrows a local.
pub struct Peek<'a>(&'a Tmp);
impl Tmp { #[cfg_attr(loc, track_caller)] pub fn peek(&self) -> Peek<'_> { ev(Ev::G, self.0, 1); Peek(self) } }
impl Peek<'_> { pub fn val(&self) -> u32 { self.0.0 % 7 } }
impl Drop for Peek<'_> { fn drop(&mut self) { ev(Ev::Gone, self.0.0, 1) } }

// ---- the boxed reference semantics ---------------------------------------------------------
pub type BI = Box<dyn Iterator<Item = u32>>;
pub fn bi<T: Iterator<Item = u32> + 'static>(x: T) -> BI { Box::new(x) }
pub trait DE: DoubleEndedIterator<Item = u32> + ExactSizeIterator {}
impl<T: DoubleEndedIterator<Item = u32> + ExactSizeIterator> DE for T {}
pub type BE = Box<dyn DE>;
pub fn be<T: DE + 'static>(x: T) -> BE { Box::new(x) }
pub type BD = Box<dyn Debug>;
pub fn bd<T: Debug + 'static>(x: T) -> BD { Box::new(x) }
pub trait DD: Debug + Display {}
impl<T: Debug + Display> DD for T {}
pub type BDD = Box<dyn DD>;
pub fn bdd<T: DD + 'static>(x: T) -> BDD { Box::new(x) }
pub type BF = Pin<Box<dyn Future<Output = u32>>>;
pub fn bf<T: Future<Output = u32> + 'static>(x: T) -> BF { Box::pin(x) }

pub trait Idm: Sized { #[cfg_attr(loc, track_caller)] fn idm(self, id: u32) -> Self { t(id); self } }
impl<T> Idm for T {}

/// `Result<u32, L<..>>` for `?`.
#[cfg_attr(loc, track_caller)] pub fn tr<const N: u32, const P: usize>(id: u32) -> Result<u32, L<N, P>> { if n(id, 4) == 0 { Err(leaf::<N, P>(id % 7)) } else { Ok(id % 5) } }
#[cfg_attr(loc, track_caller)] pub fn trr<T, const N: u32, const P: usize>(id: u32, v: T) -> Result<T, L<N, P>> { if n(id, 4) == 0 { Err(leaf::<N, P>(id % 7)) } else { Ok(v) } }

pub struct St { pub f: u32, pub g: u32 }
#[cfg_attr(loc, track_caller)] pub fn static_(x: u32) { sink(x ^ 1) }
#[cfg_attr(loc, track_caller)] pub fn return_(x: u32, f: impl Fn() -> bool) { sink(x ^ f() as u32) }
// macros that return a value, under names that std has for macros that do not
#[macro_export] macro_rules! lk_id { ($e:expr) => { $e } }
pub mod lk { pub use crate::lk_id as panic; pub use crate::lk_id as unreachable; }
// ---- consumers -----------------------------------------------------------------------------
struct Sink(u32);
impl fmt::Write for Sink { fn write_str(&mut self, s: &str) -> fmt::Result { for b in s.bytes() { self.0 = (self.0 ^ b as u32).wrapping_mul(16777619); } Ok(()) } }
fn h(o: Option<u32>) -> u32 { o.map_or(77, |v| v.wrapping_mul(3)) }

#[cfg_attr(loc, track_caller)] pub fn use_i<T: Iterator<Item = u32>>(id: u32, mut it: T) -> u32 {
    let mut acc = id;
    for _ in 0..3 {
        let op = n(id, 12);
        let r = match op {
            0 | 1 | 2 => h(it.next()),
            3 => h(it.nth(1)),
            4 => { let (a, b) = it.size_hint(); (a as u32) * 31 + b.map_or(5, |x| x as u32) }
            5 => { let r = it.fold(3u32, |a, x| a.wrapping_mul(7).wrapping_add(x)); ev(Ev::Use, id, r); return r; }
            6 => { let r = it.count() as u32; ev(Ev::Use, id, r); return r; }
            7 => { let r = h(it.last()); ev(Ev::Use, id, r); return r; }
            8 => it.any(|x| x % 3 == 0) as u32,
            9 => it.position(|x| x % 5 == 0).map_or(9, |x| x as u32),
            10 => { for x in it { acc = acc.wrapping_mul(31).wrapping_add(x); } ev(Ev::Use, id, acc); return acc; }
            _ => h(it.find(|x| x % 2 == 0)),
        };
        ev(Ev::Use, op, r);
        acc = acc.wrapping_mul(31).wrapping_add(r);
    }
    acc
}
#[cfg_attr(loc, track_caller)] pub fn use_e<T: DoubleEndedIterator<Item = u32> + ExactSizeIterator>(id: u32, mut it: T) -> u32 {
    let mut acc = it.len() as u32;
    for _ in 0..3 {
        let r = match n(id, 5) { 0 | 1 => h(it.next_back()), 2 => h(it.next()), 3 => it.len() as u32, _ => h(it.rfind(|x| x % 2 == 0)) };
        ev(Ev::Use, id, r);
        acc = acc.wrapping_mul(31).wrapping_add(r);
    }
    acc
}
#[cfg_attr(loc, track_caller)] pub fn use_d<T: Debug>(id: u32, x: T) -> u32 {
    let mut s = Sink(2166136261);
    let _ = match n(id, 3) { 0 => write!(s, "{:?}", x), 1 => write!(s, "{:#?}", x), _ => write!(s, "{:>6?}", x) };
    ev(Ev::Use, id, s.0);
    s.0
}
#[cfg_attr(loc, track_caller)] pub fn use_dd<T: Debug + Display>(id: u32, x: T) -> u32 {
    let mut s = Sink(2166136261);
    let _ = match n(id, 3) { 0 => write!(s, "{:?}", x), 1 => write!(s, "{:.1}", x), _ => write!(s, "{}{:5?}", x, x) };
    ev(Ev::Use, id, s.0);
    s.0
}
fn rw() -> RawWaker {
    fn cl(_: *const ()) -> RawWaker { rw() }
    fn no(_: *const ()) {}
    fn wk(_: *const ()) { ev(Ev::Mark, 0, 0) }
    static VT: RawWakerVTable = RawWakerVTable::new(cl, wk, wk, no);
    RawWaker::new(std::ptr::null(), &VT)
}
#[cfg_attr(loc, track_caller)] pub fn use_f<T: Future<Output = u32>>(id: u32, f: T) -> u32 {
    let mut f = std::pin::pin!(f);
    let w = unsafe { Waker::from_raw(rw()) };
    let mut cx = Context::from_waker(&w);
    for _ in 0..50 {
        if n(id, 10) == 0 { ev(Ev::Use, id, 12345); return 12345; }
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { ev(Ev::Use, id, v); return v; }
    }
    99
}
pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    let w = unsafe { Waker::from_raw(rw()) };
    let mut cx = Context::from_waker(&w);
    for _ in 0..500 { if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; } }
    panic!("future never ready")
}
#[cfg_attr(loc, track_caller)] pub fn use_r<E: Debug + Display>(id: u32, r: Result<u32, E>) -> u32 { match r { Ok(v) => { ev(Ev::Use, id, v); v } Err(e) => use_dd(id, e) } }
#[cfg_attr(loc, track_caller)] pub fn use_rd<E: Debug>(id: u32, r: Result<u32, E>) -> u32 { match r { Ok(v) => { ev(Ev::Use, id, v); v } Err(e) => use_d(id, e) } }
/// The value that came out of annotated code is no larger than its largest branch value and a discriminant.
pub fn size_ok<T>(max: usize, x: T) -> T {
    let s = std::mem::size_of_val(&x);
    if s > max + 8 { ev(Ev::Size, s as u32, max as u32); }
    x
}
#[cfg_attr(loc, track_caller)] pub fn use_i_s<T: Iterator<Item = u32>>(max: usize, id: u32, x: T) -> u32 { use_i(id, size_ok(max, x)) }
#[cfg_attr(loc, track_caller)] pub fn use_e_s<T: DoubleEndedIterator<Item = u32> + ExactSizeIterator>(max: usize, id: u32, x: T) -> u32 { use_e(id, size_ok(max, x)) }
#[cfg_attr(loc, track_caller)] pub fn use_d_s<T: Debug>(max: usize, id: u32, x: T) -> u32 { use_d(id, size_ok(max, x)) }
#[cfg_attr(loc, track_caller)] pub fn use_dd_s<T: Debug + Display>(max: usize, id: u32, x: T) -> u32 { use_dd(id, size_ok(max, x)) }

// ---- the runner ----------------------------------------------------------------------------
pub struct Prog { pub name: &'static str, pub auto: fn() -> u32, pub refp: fn() -> u32, pub noalloc: bool }

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
fn one(f: fn() -> u32, seed: u64, fuel: u32) -> (Result<u32, String>, Vec<Event>, i64, u64) {
    reset(seed, fuel);
    let a0 = allocs();
    let r = std::panic::catch_unwind(f);
    let a1 = allocs();
    (r.map_err(msg), take_log(), live(), a1 - a0)
}
fn fh(x: &impl std::hash::Hash) -> u64 { use std::hash::{DefaultHasher, Hasher}; let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }

/// Runs every program `runs` times; prints one line per mismatch and a JSON summary per program.
pub fn main(progs: &[Prog]) {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[1].parse().unwrap();
    let runs: u64 = args[2].parse().unwrap();
    let only = args.get(3).cloned();
    std::panic::set_hook(Box::new(|_i| {
        #[cfg(loc)]
        loc::panic(_i);
    }));
    #[cfg(loc)]
    if true { return loc::main(progs, seed, runs, only); }
    for (k, p) in progs.iter().enumerate() {
        if let Some(o) = &only { if o != p.name { continue; } }
        let mut traces = std::collections::HashSet::new();
        let mut leaves = std::collections::HashSet::new();
        let (mut events, mut panics, mut fuel_out, mut dry) = (0u64, 0u64, 0u64, 0u64);
        let mut bad = None;
        // The boxed halves first: a crash or an endless run after "AUTO" is the annotated half's.
        let sd = |r: u64| seed.wrapping_mul(0x2545F4914F6CDD1D) ^ ((k as u64) << 32) ^ r.wrapping_mul(0x9E3779B97F4A7C15);
        let refs: Vec<_> = (0..runs).map(|r| one(p.refp, sd(r), 300)).collect();
        println!("AUTO {}", p.name);
        for (r, a) in refs.into_iter().enumerate() {
            let s = sd(r as u64);
            let b = one(p.auto, s, 300);
            events += b.1.len() as u64;
            if b.1.is_empty() { dry += 1; }
            match &a.0 { Err(m) if m == "out of fuel" => fuel_out += 1, Err(_) => panics += 1, Ok(_) => {} }
            traces.insert(fh(&a.1));
            for e in &a.1 { if e.0 == Ev::New { leaves.insert(e.1); } }
            let why = if a.0 != b.0 { "result" } else if a.1 != b.1 { "trace" } else if b.2 != a.2 { "live" }
                else if p.noalloc && b.0.is_ok() && b.3 != 0 { "alloc" } else { continue };
            let i = a.1.iter().zip(&b.1).position(|(x, y)| x != y).unwrap_or(a.1.len().min(b.1.len()));
            bad = Some(format!("MISMATCH {} why={} run={} seed={} expected={:?}/{} events got={:?}/{} events, first difference at event {}: expected {:?} got {:?}; before: {:?}; live {} vs {}; allocations {}",
                p.name, why, r, s, a.0, a.1.len(), b.0, b.1.len(), i, a.1.get(i), b.1.get(i), &a.1[i.saturating_sub(6)..i], a.2, b.2, b.3));
            break;
        }
        if let Some(b) = bad { println!("{b}"); }
        println!("STAT {} {} {} {} {} {} {} {}", p.name, runs, events, traces.len(), leaves.len(), panics, fuel_out, dry);
    }
    println!("DONE");
}

// ---- source positions ----------------------------------------------------------------------
/// Where every event (and panic) of the two halves comes from.
#[cfg(loc)]
mod loc {
    use super::*;
    use std::panic::{Location, PanicHookInfo};
    type At = (u32, u32, &'static str, u32, u32); // kind, id, file, line, column
    thread_local! { static AT: RefCell<Vec<At>> = const { RefCell::new(Vec::new()) }; }
    #[track_caller]
    pub fn note(k: Ev, id: u32) {
        let l = Location::caller();
        AT.with(|a| { let mut a = a.borrow_mut(); if a.len() < CAP { a.push((k as u32, id, l.file(), l.line(), l.column())) } });
    }
    pub fn panic(i: &PanicHookInfo<'_>) {
        let l = i.location().unwrap();
        let f: &'static str = Box::leak(l.file().to_string().into_boxed_str());
        AT.with(|a| { if let Ok(mut a) = a.try_borrow_mut() { if a.len() < CAP { a.push((100, 0, f, l.line(), l.column())) } } });
    }
    fn take() -> Vec<At> { AT.with(|a| std::mem::take(&mut *a.borrow_mut())) }
    pub fn main(progs: &[Prog], seed: u64, runs: u64, only: Option<String>) {
        for (k, p) in progs.iter().enumerate() {
            if only.as_ref().map_or(false, |o| o != p.name) { continue; }
            let mut pairs = std::collections::BTreeSet::new();
            let (mut events, mut odd) = (0u64, 0u64);
            for r in 0..runs {
                let s = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ ((k as u64) << 32) ^ r.wrapping_mul(0x9E3779B97F4A7C15);
                take();
                let a = one(p.refp, s, 300); let la = take();
                let b = one(p.auto, s, 300); let lb = take();
                if a.1 != b.1 || la.len() != lb.len() { odd += 1; continue; }
                events += la.len() as u64;
                for (x, y) in la.iter().zip(&lb) { pairs.insert((x.0, x.1, x.2, x.3, x.4, y.2, y.3, y.4)); }
            }
            for (k, id, f, l, c, g, m, d) in &pairs { println!("LOC {} {k} {id} {f} {l} {c} {g} {m} {d}", p.name); }
            println!("STAT {} {events} {} {odd}", p.name, pairs.len());
        }
        println!("DONE");
    }
}
