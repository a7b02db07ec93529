// C06: tokio 0.2.
use tokio::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
use std::mem::MaybeUninit;
impl<const K: u32> AsyncRead for Am<K> {
    unsafe fn prepare_uninitialized_buffer(&self, b: &mut [MaybeUninit<u8>]) -> bool { call!("prepare {K} {}", b.len()); for (i, x) in b.iter_mut().enumerate() { *x = MaybeUninit::new(i as u8 + K as u8); } choose(2) == 0 }
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { let s = me!(self); if s.enter(format!("poll_read {}", b.len()), Some(cx)) { return Poll::Pending; } s.fail()?; let d = s.some(b.len()); b[..d.len()].copy_from_slice(d); Poll::Ready(Ok(d.len())) }
}
impl<const K: u32> AsyncBufRead for Am<K> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { let s = me!(self); if s.enter("poll_fill_buf".into(), Some(cx)) { return Poll::Pending; } s.fail()?; Poll::Ready(Ok(&s.buf[s.pos..])) }
    fn consume(self: Pin<&mut Self>, n: usize) { let s = me!(self); s.enter(format!("consume {n}"), None); s.pos = (s.pos + n).min(s.buf.len()); }
}
impl<const K: u32> AsyncWrite for Am<K> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { let s = me!(self); if s.enter(format!("poll_write {b:?}"), Some(cx)) { return Poll::Pending; } s.fail()?; let n = b.len().min(1 + choose(5) as usize); s.buf.extend(&b[..n]); Poll::Ready(Ok(n)) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { let s = me!(self); if s.enter("poll_flush".into(), Some(cx)) { return Poll::Pending; } Poll::Ready(s.fail()) }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { let s = me!(self); if s.enter("poll_shutdown".into(), Some(cx)) { return Poll::Pending; } s.buf.push(99); Poll::Ready(s.fail()) }
}
impl<const K: u32> AsyncSeek for Am<K> {
    fn start_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<io::Result<()>> { let s = me!(self); if s.enter(format!("start_seek {p:?}"), Some(cx)) { return Poll::Pending; } s.n += 1; Poll::Ready(s.fail()) }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> { let s = me!(self); if s.enter("poll_complete".into(), Some(cx)) { return Poll::Pending; } s.fail()?; Poll::Ready(Ok(s.n + choose(50))) }
}
fn rd<T: AsyncRead>(mut t: Pin<&mut T>, cx: &mut Context<'_>, r: &mut Rng) {
    if r.b(1, 3) { let mut b = vec![MaybeUninit::new(200u8); r.u(5)]; let z = unsafe { t.prepare_uninitialized_buffer(&mut b) }; ev!("=prepare {z} {:?}", b.iter().map(|x| unsafe { x.assume_init() }).collect::<Vec<_>>()); }
    else if r.b(1, 4) { let mut v: Vec<u8> = Vec::with_capacity(9); let e = t.poll_read_buf(cx, &mut v); ev!("=read_buf {e:?} {v:?}"); }
    else { let mut b = vec![0u8; r.u(7)]; let e = t.poll_read(cx, &mut b); ev!("=read {e:?} {b:?}"); }
}
fn wr<T: AsyncWrite + ?Sized>(mut t: Pin<&mut T>, cx: &mut Context<'_>, r: &mut Rng) {
    let d: Vec<u8> = (0..r.n(6)).map(|i| i as u8 * 3).collect();
    match r.n(4) { 0 | 1 => ev!("=write {:?}", t.poll_write(cx, &d)), 2 => ev!("=flush {:?}", t.poll_flush(cx)), _ => ev!("=shutdown {:?}", t.poll_shutdown(cx)) }
}
fn sk<T: AsyncSeek + ?Sized>(mut t: Pin<&mut T>, cx: &mut Context<'_>, r: &mut Rng) {
    let p = [SeekFrom::Start(r.n(9)), SeekFrom::End(-(r.n(9) as i64)), SeekFrom::Current(r.n(9) as i64)][r.u(3)];
    if r.b(1, 2) { ev!("=start_seek {:?}", t.start_seek(cx, p)) } else { ev!("=complete {:?}", t.poll_complete(cx)) }
}
pub fn drive_tok_read<T: AsyncRead>(t: T, r: &mut Rng) { let ws = [waker(r), waker(r)]; let mut t = pin!(t); for _ in 0..1 + r.n(6) { rd(t.as_mut(), &mut Context::from_waker(&ws[r.u(2)]), r); } }
pub fn drive_tok_bufread<T: AsyncBufRead>(t: T, r: &mut Rng) {
    let ws = [waker(r), waker(r)]; let mut t = pin!(t);
    for _ in 0..1 + r.n(6) { let mut cx = Context::from_waker(&ws[r.u(2)]); match r.n(3) { 0 => rd(t.as_mut(), &mut cx, r), 1 => t.as_mut().consume(r.u(3)), _ => ev!("=fill {:?}", t.as_mut().poll_fill_buf(&mut cx)) } }
}
pub fn drive_tok_write<T: AsyncWrite>(t: T, r: &mut Rng) { let ws = [waker(r), waker(r)]; let mut t = pin!(t); for _ in 0..1 + r.n(6) { wr(t.as_mut(), &mut Context::from_waker(&ws[r.u(2)]), r); } }
pub fn drive_tok_seek<T: AsyncSeek>(t: T, r: &mut Rng) { let ws = [waker(r), waker(r)]; let mut t = pin!(t); for _ in 0..1 + r.n(6) { sk(t.as_mut(), &mut Context::from_waker(&ws[r.u(2)]), r); } }
pub fn drive_tok_all<T: AsyncBufRead + AsyncWrite + AsyncSeek + Future<Output = u64>>(t: T, r: &mut Rng) {
    let ws = [waker(r), waker(r)]; let mut t = Box::pin(t);
    for _ in 0..1 + r.n(8) { let mut cx = Context::from_waker(&ws[r.u(2)]); match r.n(5) { 0 => rd(t.as_mut(), &mut cx, r), 1 => wr(t.as_mut(), &mut cx, r), 2 => sk(t.as_mut(), &mut cx, r), 3 => ev!("=poll {:?}", t.as_mut().poll(&mut cx)), _ => { ev!("=fill {:?}", t.as_mut().poll_fill_buf(&mut cx)); t.as_mut().consume(1) } } }
}
