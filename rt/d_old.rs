// C08: futures 0.1 and tokio 0.1.
use futures::{Async, AsyncSink, Future, Poll, Sink, StartSend, Stream, executor::{self, Notify}, task};
use std::io::{self, Read, Write};
use std::sync::Arc;
use tokio::io::{AsyncRead, AsyncWrite};
pub struct Om<const K: u32> { n: u64, buf: Vec<u8>, pos: usize, g: Guard }
pub fn om<const K: u32>(r: &mut Rng) -> Om<K> { Om { n: r.n(6), buf: (0..r.n(12)).map(|i| (i * 7 + K as u64) as u8).collect(), pos: 0, g: Guard::new(K) } }
impl<const K: u32> Drop for Om<K> { fn drop(&mut self) { ev!("left {K} {} {:?} {}", self.n, self.buf, self.pos); } }
impl<const K: u32> Om<K> {
    fn enter(&mut self, what: String, intask: bool) -> bool {
        call!("{what} {K} n{} p{}", self.n, self.pos);
        if choose(4) == 0 { if intask && choose(2) == 0 { task::current().notify(); } return true; }
        false
    }
    fn fail(&self) -> Result<(), String> { if choose(8) == 0 { Err(format!("om{K} {}", choose(5))) } else { Ok(()) } }
    fn iofail(&self) -> io::Result<()> { match choose(9) { 0 => Err(io::ErrorKind::WouldBlock.into()), 1 => Err(io::Error::new(io::ErrorKind::Other, format!("om{K}"))), _ => Ok(()) } }
}
impl<const K: u32> Future for Om<K> { type Item = u64; type Error = String; fn poll(&mut self) -> Poll<u64, String> { if self.enter("poll".into(), true) { return Ok(Async::NotReady); } self.fail()?; Ok(Async::Ready(self.n + K as u64)) } }
impl<const K: u32> Stream for Om<K> { type Item = u64; type Error = String; fn poll(&mut self) -> Poll<Option<u64>, String> { if self.enter("poll_stream".into(), true) { return Ok(Async::NotReady); } self.fail()?; if self.n == 0 { return Ok(Async::Ready(None)); } self.n -= 1; Ok(Async::Ready(Some(self.n * 10 + K as u64))) } }
impl<const K: u32> Sink for Om<K> {
    type SinkItem = String; type SinkError = String;
    fn start_send(&mut self, x: String) -> StartSend<String, String> { if self.enter(format!("start_send {x}"), true) { return Ok(AsyncSink::NotReady(x + "back")); } self.fail()?; self.n += x.len() as u64; Ok(AsyncSink::Ready) }
    fn poll_complete(&mut self) -> Poll<(), String> { if self.enter("poll_complete".into(), true) { return Ok(Async::NotReady); } self.fail()?; Ok(Async::Ready(())) }
    fn close(&mut self) -> Poll<(), String> { if self.enter("close".into(), true) { return Ok(Async::NotReady); } self.fail()?; self.n = 77; Ok(Async::Ready(())) }
}
impl<const K: u32> Read for Om<K> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { call!("read {K} {}", b.len()); self.iofail()?; let n = b.len().min(self.buf.len() - self.pos).min(1 + choose(4) as usize); b[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]); self.pos += n; Ok(n) } }
impl<const K: u32> Write for Om<K> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { call!("write {K} {b:?}"); self.iofail()?; let n = b.len().min(choose(4) as usize); self.buf.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { call!("flush {K}"); self.iofail() }
}
impl<const K: u32> AsyncRead for Om<K> {
    unsafe fn prepare_uninitialized_buffer(&self, b: &mut [u8]) -> bool { call!("prepare {K} {b:?}"); for (i, x) in b.iter_mut().enumerate() { *x = i as u8 + K as u8; } choose(2) == 0 }
    fn poll_read(&mut self, b: &mut [u8]) -> Poll<usize, io::Error> { if self.enter(format!("poll_read {}", b.len()), false) { return Ok(Async::NotReady); } self.iofail()?; let n = b.len().min(self.buf.len() - self.pos); b[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]); self.pos += n; Ok(Async::Ready(n)) }
}
impl<const K: u32> AsyncWrite for Om<K> {
    fn poll_write(&mut self, b: &[u8]) -> Poll<usize, io::Error> { if self.enter(format!("poll_write {b:?}"), false) { return Ok(Async::NotReady); } self.iofail()?; self.buf.extend(b); Ok(Async::Ready(b.len())) }
    fn poll_flush(&mut self) -> Poll<(), io::Error> { if self.enter("poll_flush".into(), false) { return Ok(Async::NotReady); } self.iofail()?; Ok(Async::Ready(())) }
    fn shutdown(&mut self) -> Poll<(), io::Error> { if self.enter("shutdown".into(), false) { return Ok(Async::NotReady); } self.iofail()?; self.buf.push(99); Ok(Async::Ready(())) }
}
/// Only the required methods.
pub struct Od<const K: u32>(Om<K>);
pub fn od<const K: u32>(r: &mut Rng) -> Od<K> { Od(om(r)) }
impl<const K: u32> Read for Od<K> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { Read::read(&mut self.0, b) } }
impl<const K: u32> Write for Od<K> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { Write::write(&mut self.0, b) } fn flush(&mut self) -> io::Result<()> { Write::flush(&mut self.0) } }
impl<const K: u32> AsyncRead for Od<K> {}
impl<const K: u32> AsyncWrite for Od<K> { fn shutdown(&mut self) -> Poll<(), io::Error> { AsyncWrite::shutdown(&mut self.0) } }
impl<const K: u32> Sink for Od<K> { type SinkItem = String; type SinkError = String; fn start_send(&mut self, x: String) -> StartSend<String, String> { self.0.start_send(x) } fn poll_complete(&mut self) -> Poll<(), String> { self.0.poll_complete() } fn close(&mut self) -> Poll<(), String> { call!("close od {K}"); self.0.poll_complete() } }
struct Nt;
impl Notify for Nt { fn notify(&self, id: usize) { ev!("notify {id}"); } }
pub fn drive_old_future<T: Future<Item = u64, Error = String>>(t: T, r: &mut Rng) {
    let n = Arc::new(Nt);
    let mut s = executor::spawn(t);
    for _ in 0..1 + r.n(6) { let e = s.poll_future_notify(&n, r.u(5)); ev!("=poll {e:?}"); if !matches!(e, Ok(Async::NotReady)) { break; } }
    if r.b(1, 4) { let mut s = executor::spawn(s.into_inner().map(|x| x + 1).map_err(|e| e + "!").or_else(|e| Err::<u64, String>(e))); ev!("=comb {:?}", s.poll_future_notify(&n, 9)); }
}
pub fn drive_old_stream<T: Stream<Item = u64, Error = String>>(t: T, r: &mut Rng) {
    let n = Arc::new(Nt);
    let mut s = executor::spawn(t);
    for _ in 0..1 + r.n(8) { ev!("=poll {:?}", s.poll_stream_notify(&n, r.u(5))); }
    if r.b(1, 4) { let mut s = executor::spawn(s.into_inner().collect()); for _ in 0..9 { let e = s.poll_future_notify(&n, 9); ev!("=collect {e:?}"); if !matches!(e, Ok(Async::NotReady)) { break; } } }
}
pub fn drive_old_sink<T: Sink<SinkItem = String, SinkError = String>>(t: T, r: &mut Rng) {
    let n = Arc::new(Nt);
    let mut s = executor::spawn(t);
    for _ in 0..1 + r.n(8) { let id = r.u(5); match r.n(4) { 0 | 1 => ev!("=send {:?}", s.start_send_notify(format!("i{}", r.n(9)), &n, id)), 2 => ev!("=flush {:?}", s.poll_flush_notify(&n, id)), _ => ev!("=close {:?}", s.close_notify(&n, id)) } }
}
fn ord<T: AsyncRead>(t: &mut T, r: &mut Rng) {
    let mut b = vec![5u8; r.u(7)];
    match r.n(5) { 0 => { let e = unsafe { t.prepare_uninitialized_buffer(&mut b) }; ev!("=prepare {e} {b:?}") } 1 => { let e = t.read(&mut b); ev!("=read {e:?} {b:?}") } 2 => { let e = t.read_exact(&mut b); ev!("=exact {e:?} {b:?}") } _ => { let e = t.poll_read(&mut b); ev!("=poll_read {e:?} {b:?}") } }
}
fn owr<T: AsyncWrite>(t: &mut T, r: &mut Rng) {
    let d: Vec<u8> = (0..r.n(6)).map(|i| i as u8 * 3).collect();
    match r.n(7) { 0 => ev!("=write {:?}", t.write(&d)), 1 => ev!("=flush {:?}", t.flush()), 2 | 3 => ev!("=poll_write {:?}", t.poll_write(&d)), 4 => ev!("=poll_flush {:?}", t.poll_flush()), 5 => ev!("=all {:?}", t.write_all(&d)), _ => ev!("=shutdown {:?}", t.shutdown()) }
}
pub fn drive_old_read<T: AsyncRead>(mut t: T, r: &mut Rng) { for _ in 0..1 + r.n(6) { ord(&mut t, r); } }
pub fn drive_old_write<T: AsyncWrite>(mut t: T, r: &mut Rng) { for _ in 0..1 + r.n(6) { owr(&mut t, r); } }
pub fn drive_old_all<T: AsyncRead + AsyncWrite + Sink<SinkItem = String, SinkError = String> + Future<Item = u64, Error = String>>(mut t: T, r: &mut Rng) {
    for _ in 0..2 + r.n(4) { if r.b(1, 2) { ord(&mut t, r) } else { owr(&mut t, r) } }
    if r.b(1, 2) { drive_old_sink(t, r) } else { drive_old_future(t, r) }
}
