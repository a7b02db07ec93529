// C04: operators, conversions, closures, coroutines. Cells carry unique ids, so that a reference
// shows which object it refers to; what is left of a mock is logged when it is dropped.
use std::ops::{Bound, Coroutine, CoroutineState, Deref, DerefMut, Index, IndexMut, RangeBounds};
use std::pin::Pin;
#[derive(Debug, PartialEq)]
pub struct Cv { id: u32, v: u32 }
pub struct Mo<const K: u32> { a: [Cv; 3], s: String, b: (Bound<u32>, Bound<u32>), g: Guard }
impl<const K: u32> Drop for Mo<K> { fn drop(&mut self) { ev!("left {K} {:?} {:?}", self.a, self.s); } }
pub fn mo<const K: u32>(r: &mut Rng) -> Mo<K> {
    let b = |r: &mut Rng| match r.n(3) { 0 => Bound::Unbounded, 1 => Bound::Included(r.n(5) as u32), _ => Bound::Excluded(r.n(9) as u32) };
    Mo { a: [0, 1, 2].map(|i| Cv { id: K * 10 + i, v: r.n(4) as u32 }), s: format!("s{K}"), b: (b(r), b(r)), g: Guard::new(K) }
}
impl<const K: u32> Deref for Mo<K> { type Target = Cv; fn deref(&self) -> &Cv { call!("deref {K}"); &self.a[0] } }
impl<const K: u32> DerefMut for Mo<K> { fn deref_mut(&mut self) -> &mut Cv { call!("deref_mut {K}"); &mut self.a[1] } }
impl<const K: u32> Index<usize> for Mo<K> { type Output = Cv; fn index(&self, i: usize) -> &Cv { call!("index {K} {i}"); &self.a[i] } }
impl<const K: u32> IndexMut<usize> for Mo<K> { fn index_mut(&mut self, i: usize) -> &mut Cv { call!("index_mut {K} {i}"); &mut self.a[2 - i] } }
impl<'s, const K: u32> Index<&'s str> for Mo<K> { type Output = str; fn index(&self, i: &'s str) -> &str { call!("index {K} {i:?}"); &self.s[i.len()..] } }
impl<const K: u32> RangeBounds<u32> for Mo<K> {
    fn start_bound(&self) -> Bound<&u32> { call!("start_bound {K}"); self.b.0.as_ref() }
    fn end_bound(&self) -> Bound<&u32> { call!("end_bound {K}"); self.b.1.as_ref() }
}
impl<const K: u32> RangeBounds<str> for Mo<K> {
    fn start_bound(&self) -> Bound<&str> { call!("start_bound str {K}"); Bound::Included(&self.s) }
    fn end_bound(&self) -> Bound<&str> { call!("end_bound str {K}"); Bound::Unbounded }
}
impl<const K: u32> AsRef<str> for Mo<K> { fn as_ref(&self) -> &str { call!("as_ref str {K}"); &self.s } }
impl<const K: u32> AsRef<[u8]> for Mo<K> { fn as_ref(&self) -> &[u8] { call!("as_ref u8 {K}"); &self.s.as_bytes()[1..] } }
impl<const K: u32> AsRef<Cv> for Mo<K> { fn as_ref(&self) -> &Cv { call!("as_ref Cv {K}"); &self.a[2] } }
impl<const K: u32> AsMut<Cv> for Mo<K> { fn as_mut(&mut self) -> &mut Cv { call!("as_mut Cv {K}"); &mut self.a[2] } }
impl<const K: u32> AsMut<[Cv]> for Mo<K> { fn as_mut(&mut self) -> &mut [Cv] { call!("as_mut [Cv] {K}"); &mut self.a[1..] } }
impl<'x, const K: u32> FnOnce<(&'x u32,)> for Mo<K> { type Output = u64; extern "rust-call" fn call_once(mut self, (x,): (&'x u32,)) -> u64 { call!("call_once {K} {x}"); self.a[0].v += x; 3 } }
impl<'x, const K: u32> FnMut<(&'x u32,)> for Mo<K> { extern "rust-call" fn call_mut(&mut self, (x,): (&'x u32,)) -> u64 { call!("call_mut {K} {x}"); self.a[0].v += x; self.a[0].v as u64 * 2 } }
impl<'x, const K: u32> Fn<(&'x u32,)> for Mo<K> { extern "rust-call" fn call(&self, (x,): (&'x u32,)) -> u64 { call!("call {K} {x}"); *x as u64 + K as u64 * 10 } }
impl<const K: u32> FnOnce<(String,)> for Mo<K> { type Output = Guard; extern "rust-call" fn call_once(self, (x,): (String,)) -> Guard { call!("call_once {K} {x}"); Guard::new(70) } }
impl<const K: u32> FnMut<(String,)> for Mo<K> { extern "rust-call" fn call_mut(&mut self, (x,): (String,)) -> Guard { call!("call_mut {K} {x}"); self.s += &x; Guard::new(71) } }
impl<const K: u32> Fn<(String,)> for Mo<K> { extern "rust-call" fn call(&self, (x,): (String,)) -> Guard { call!("call {K} {x}"); Guard::new(72) } }

/// A coroutine that is not Unpin and reports when it has moved.
pub struct Co<const K: u32> { n: u32, at: usize, g: Guard, _p: std::marker::PhantomPinned }
pub fn co<const K: u32>(r: &mut Rng) -> Co<K> { Co { n: r.n(5) as u32, at: 0, g: Guard::new(K), _p: std::marker::PhantomPinned } }
impl<const K: u32> Co<K> {
    fn here(&mut self) -> &'static str { let a = self as *const _ as usize; let o = self.at; self.at = a; if o == 0 || o == a { "" } else { " MOVED" } }
}
impl<const K: u32> Coroutine<u32> for Co<K> {
    type Yield = u64;
    type Return = String;
    fn resume(self: Pin<&mut Self>, x: u32) -> CoroutineState<u64, String> {
        let s = unsafe { self.get_unchecked_mut() };
        let m = s.here();
        call!("resume {K} {x} {}{m}", s.n);
        s.n = s.n.wrapping_sub(1);
        if s.n > 99 { CoroutineState::Complete(format!("r{K}")) } else { CoroutineState::Yielded(s.n as u64 + 10) }
    }
}
impl<'x, const K: u32> Coroutine<&'x str> for Co<K> {
    type Yield = &'x str;
    type Return = Guard;
    fn resume(self: Pin<&mut Self>, x: &'x str) -> CoroutineState<&'x str, Guard> {
        let s = unsafe { self.get_unchecked_mut() };
        let m = s.here();
        call!("resume str {K} {x} {}{m}", s.n);
        if s.n == 0 { CoroutineState::Complete(Guard::new(60)) } else { s.n -= 1; CoroutineState::Yielded(&x[1..]) }
    }
}
impl<const K: u32> Drop for Co<K> { fn drop(&mut self) { let at = self.at; let here = self as *const _ as usize; if at != 0 && at != here { ev!("dropped elsewhere {K}"); } } }

pub fn drive_deref<T: Deref<Target = Cv>>(t: T, r: &mut Rng) { for _ in 0..1 + r.n(3) { ev!("=deref {:?} {}", *t, t.deref().id); } ev!("=same {}", std::ptr::eq(&*t, &*t)); }
pub fn drive_derefmut<T: DerefMut<Target = Cv>>(mut t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(3) { match r.n(3) { 0 => ev!("=deref {:?}", *t), 1 => t.v += r.n(9) as u32, _ => { let c = t.deref_mut(); ev!("=mut {c:?}"); c.v ^= 5; } } }
}
pub fn drive_index<T: Index<usize, Output = Cv> + for<'x> Index<&'x str, Output = str>>(t: T, r: &mut Rng) { for _ in 0..1 + r.n(3) { match r.n(2) { 0 => { let k = r.u(4); ev!("=index {:?}", t[k]) } _ => ev!("=index {:?}", &t[["", "x", "xx"][r.u(3)]]) } } }
pub fn drive_indexmut<T: IndexMut<usize, Output = Cv>>(mut t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(4) { let k = r.u(4); match r.n(3) { 0 => ev!("=index {:?}", t[k]), 1 => t[k].v += r.n(9) as u32, _ => { let c = t.index_mut(k); ev!("=mut {c:?}"); *c = Cv { id: 777, v: 1 } } } }
}
pub fn drive_index1<T: Index<usize, Output = u32>>(t: T, r: &mut Rng) { let k = r.u(4); ev!("=index {:?}", t[k]); }
pub fn drive_range<T: RangeBounds<u32>>(t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(4) {
        match r.n(5) {
            0 => ev!("=start {:?}", t.start_bound()),
            1 => ev!("=end {:?}", t.end_bound()),
            2 => ev!("=contains {}", t.contains(&(r.n(9) as u32))),
            3 => ev!("=empty {:?}", (t.start_bound().cloned(), t.end_bound().cloned())),
            _ => { let mut k = 0; while k < 12 { if t.contains(&k) { break; } k += 1; } ev!("=first {k}") }
        }
    }
    if r.b(1, 2) { let m: std::collections::BTreeMap<u32, u32> = (0..9).map(|x| (x, x)).collect(); ev!("=map {:?}", m.range(t).collect::<Vec<_>>()); }
}
pub fn drive_range2<T: RangeBounds<u32> + RangeBounds<str>>(t: T, r: &mut Rng) {
    ev!("=str {:?} {:?}", RangeBounds::<str>::start_bound(&t), RangeBounds::<str>::end_bound(&t));
    if r.b(1, 2) { ev!("=has {}", RangeBounds::<str>::contains(&t, "s3")); }
    drive_range(t, r)
}
pub fn drive_asref<T: AsRef<str> + AsRef<[u8]>>(t: T, r: &mut Rng) { let s: &str = t.as_ref(); ev!("=s {s:?}"); let s: &[u8] = t.as_ref(); ev!("=u {s:?}"); if r.b(1, 2) { let s: &str = t.as_ref(); let q: &str = t.as_ref(); ev!("=same {}", s.as_ptr() == q.as_ptr()); } }
pub fn drive_asref1<T: AsRef<str>>(t: T, r: &mut Rng) { for _ in 0..1 + r.n(2) { let s: &str = t.as_ref(); ev!("=s {s:?}"); } }
pub fn drive_asmut<T: AsMut<Cv> + AsMut<[Cv]> + AsRef<Cv>>(mut t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(3) { match r.n(3) { 0 => { let c: &mut Cv = t.as_mut(); c.v += 7; ev!("=m {c:?}") } 1 => { let c: &mut [Cv] = t.as_mut(); c[r.u(2)].v += 70; ev!("=m {c:?}") } _ => { let c: &Cv = t.as_ref(); ev!("=c {c:?}") } } }
}
pub fn drive_asmut1<T: AsMut<[u32]>>(mut t: T, r: &mut Rng) { for _ in 0..1 + r.n(3) { let s = t.as_mut(); s[r.u(2)] += 3; ev!("=m {s:?}"); } }
pub fn drive_fn<T: for<'x> Fn(&'x u32) -> u64>(mut t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(4) { let k = r.n(9) as u32; match r.n(4) { 0 | 1 => ev!("=call {}", t(&k)), 2 => ev!("=call_mut {}", t.call_mut((&k,))), _ => { let d: &dyn for<'x> Fn(&'x u32) -> u64 = &t; ev!("=dyn {}", d(&k)) } } }
    match r.n(3) { 0 => ev!("=once {}", t.call_once((&4,))), 1 => ev!("=map {:?}", [1u32, 2].iter().map(t).collect::<Vec<_>>()), _ => drop(t) }
}
pub fn drive_fnmut<T: for<'x> FnMut(&'x u32) -> u64>(mut t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(4) { let k = r.n(9) as u32; ev!("=call_mut {}", t(&k)); }
    match r.n(3) { 0 => ev!("=once {}", t.call_once((&4,))), 1 => ev!("=map {:?}", [1u32, 2].iter().map(t).collect::<Vec<_>>()), _ => drop(t) }
}
pub fn drive_fnonce<T: for<'x> FnOnce(&'x u32) -> u64>(t: T, r: &mut Rng) { let k = r.n(9) as u32; if r.b(4, 5) { ev!("=once {}", t(&k)); } }
pub fn drive_fns<T: Fn(String) -> Guard + for<'x> Fn(&'x u32) -> u64>(mut t: T, r: &mut Rng) {
    match r.n(4) { 0 => ev!("=call {:?}", t("a".to_string())), 1 => ev!("=call_mut {:?}", t.call_mut(("b".to_string(),))), 2 => ev!("=call {:?}", t(&9)), _ => {} }
    if r.b(1, 2) { let g = t.call_once(("c".to_string(),)); ev!("=once {g:?}"); }
}
pub fn drive_co<T: Coroutine<u32, Yield = u64, Return = String>>(t: T, r: &mut Rng) {
    let mut t = if r.b(1, 2) { Box::pin(t) } else { let b = Box::new(t); Box::into_pin(b) };
    for _ in 0..r.n(8) { match t.as_mut().resume(r.n(100) as u32) { CoroutineState::Yielded(y) => ev!("=y {y}"), CoroutineState::Complete(c) => { ev!("=c {c}"); break } } }
}
pub fn drive_co2<T: Coroutine<u32, Yield = u64, Return = String> + for<'x> Coroutine<&'x str, Yield = &'x str, Return = Guard>>(t: T, r: &mut Rng) {
    let mut t = std::pin::pin!(t);
    for _ in 0..r.n(8) {
        if r.b(1, 2) { match t.as_mut().resume(r.n(100) as u32) { CoroutineState::Yielded(y) => ev!("=y {y}"), CoroutineState::Complete(c) => { ev!("=c {c}"); break } } }
        else { match t.as_mut().resume("hello") { CoroutineState::Yielded(y) => ev!("=y {y}"), CoroutineState::Complete(c) => { ev!("=c {c:?}"); break } } }
    }
}
