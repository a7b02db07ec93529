// C06: the common part of the async mocks, and Future. A mock is not Unpin, reports when it has moved,
// wakes or keeps the waker of the caller's context, and is pending now and then.
use std::future::Future;
use std::marker::PhantomPinned;
use std::pin::{Pin, pin};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker, ready};
use std::io::{self, IoSlice, IoSliceMut, SeekFrom};
pub struct Wk(u64);
impl Wake for Wk { fn wake(self: Arc<Self>) { ev!("wake {}", self.0); } fn wake_by_ref(self: &Arc<Self>) { ev!("wakeref {}", self.0); } }
impl Drop for Wk { fn drop(&mut self) { ev!("wakerdrop {}", self.0); } }
pub fn waker(r: &mut Rng) -> Waker { Arc::new(Wk(r.n(3))).into() }
pub struct Am<const K: u32> { n: u64, at: usize, kept: Option<Waker>, buf: Vec<u8>, pos: usize, g: Guard, _p: PhantomPinned }
pub fn am<const K: u32>(r: &mut Rng) -> Am<K> { Am { n: r.n(6), at: 0, kept: None, buf: (0..r.n(12)).map(|i| (i * 7 + K as u64) as u8).collect(), pos: 0, g: Guard::new(K), _p: PhantomPinned } }
impl<const K: u32> Am<K> {
    fn here(&mut self) -> &'static str { let a = self as *const _ as usize; let o = self.at; self.at = a; if o == 0 || o == a { "" } else { " MOVED" } }
    /// Logs the call; true when it is to be pending.
    fn enter(&mut self, what: String, cx: Option<&mut Context<'_>>) -> bool {
        let m = self.here();
        call!("{what} {K}{m} n{} p{}", self.n, self.pos);
        let Some(cx) = cx else { return false };
        if let Some(w) = self.kept.take() { if w.will_wake(cx.waker()) { ev!("samewaker"); } if choose(2) == 0 { w.wake(); } }
        if choose(4) == 0 { if choose(2) == 0 { cx.waker().wake_by_ref(); } else { self.kept = Some(cx.waker().clone()); } return true; }
        false
    }
    fn fail(&self) -> io::Result<()> { if choose(8) == 0 { Err(io::Error::new(io::ErrorKind::Other, format!("am{K} {}", choose(5)))) } else { Ok(()) } }
    fn some(&mut self, max: usize) -> &[u8] { let n = max.min(self.buf.len() - self.pos); let n = if n > 1 { 1 + choose(n as u64) as usize } else { n }; self.pos += n; &self.buf[self.pos - n..self.pos] }
}
impl<const K: u32> Drop for Am<K> { fn drop(&mut self) { let here = self as *const _ as usize; if self.at != 0 && self.at != here { ev!("dropped elsewhere {K}"); } ev!("left {K} {} {:?} {}", self.n, self.buf, self.pos); } }
macro_rules! me { ($s:ident) => { unsafe { $s.get_unchecked_mut() } } }
impl<const K: u32> Future for Am<K> {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> { let s = me!(self); if s.enter("poll".into(), Some(cx)) { Poll::Pending } else { Poll::Ready(s.n + K as u64 * 100) } }
}
/// The same, but Unpin.
pub struct Um<const K: u32>(u64, Guard);
pub fn um<const K: u32>(r: &mut Rng) -> Um<K> { Um(r.n(3), Guard::new(K)) }
impl<const K: u32> Future for Um<K> { type Output = u64; fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> { call!("poll um {K} {}", self.0); if self.0 == 0 { Poll::Ready(K as u64) } else { self.0 -= 1; cx.waker().wake_by_ref(); Poll::Pending } } }
pub fn drive_future<T: Future<Output = u64>>(t: T, r: &mut Rng) {
    let ws = [waker(r), waker(r)];
    if r.b(1, 4) {
        let mut f = pin!(async { let g = Guard::new(500); let v = t.await; drop(g); v });
        for _ in 0..r.n(9) { if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&ws[r.u(2)])) { ev!("=await {v}"); break; } }
        return;
    }
    let mut t = Box::pin(t);
    for _ in 0..r.n(9) { let p = t.as_mut().poll(&mut Context::from_waker(&ws[r.u(2)])); ev!("=poll {p:?}"); if p.is_ready() { break; } }
    drop(t);
    ev!("=wakers dropped after");
}
