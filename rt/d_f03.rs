// C06: futures 0.3.
use futures::{io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncBufReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite, AsyncWriteExt}, sink::{Sink, SinkExt}, stream::{Stream, StreamExt}};
impl<const K: u32> Stream for Am<K> {
    type Item = u64;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> { let s = me!(self); if s.enter("poll_next".into(), Some(cx)) { return Poll::Pending; } s.n = s.n.wrapping_sub(1); Poll::Ready(if s.n > 99 { None } else { Some(s.n * 10 + K as u64) }) }
    fn size_hint(&self) -> (usize, Option<usize>) { call!("size_hint {K}"); (K as usize, Some(self.n as usize)) }
}
macro_rules! sink { ($($t:ty)*) => { $(impl<const K: u32> Sink<$t> for Am<K> {
    type Error = String;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> { let s = me!(self); if s.enter("poll_ready".into(), Some(cx)) { return Poll::Pending; } Poll::Ready(s.fail().map_err(|e| e.to_string())) }
    fn start_send(self: Pin<&mut Self>, x: $t) -> Result<(), String> { let s = me!(self); s.enter(format!("start_send {x:?} {}", stringify!($t)), None); s.n += 1; s.fail().map_err(|e| e.to_string()) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> { let s = me!(self); if s.enter(concat!("poll_flush ", stringify!($t)).into(), Some(cx)) { return Poll::Pending; } Poll::Ready(s.fail().map_err(|e| e.to_string())) }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> { let s = me!(self); if s.enter(concat!("poll_close ", stringify!($t)).into(), Some(cx)) { return Poll::Pending; } s.n = 55; Poll::Ready(s.fail().map_err(|e| e.to_string())) }
})* } }
sink!(u32 String);
impl<const K: u32> AsyncRead for Am<K> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { let s = me!(self); if s.enter(format!("poll_read {}", b.len()), Some(cx)) { return Poll::Pending; } s.fail()?; let d = s.some(b.len()); b[..d.len()].copy_from_slice(d); Poll::Ready(Ok(d.len())) }
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, v: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        let s = me!(self); if s.enter(format!("poll_read_vectored {:?}", v.iter().map(|x| x.len()).collect::<Vec<_>>()), Some(cx)) { return Poll::Pending; } s.fail()?;
        let mut n = 0; for b in v.iter_mut().rev() { let d = s.some(b.len()); b[..d.len()].copy_from_slice(d); n += d.len(); } Poll::Ready(Ok(n))
    }
}
impl<const K: u32> AsyncBufRead for Am<K> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { let s = me!(self); if s.enter("poll_fill_buf".into(), Some(cx)) { return Poll::Pending; } s.fail()?; Poll::Ready(Ok(&s.buf[s.pos..])) }
    fn consume(self: Pin<&mut Self>, n: usize) { let s = me!(self); s.enter(format!("consume {n}"), None); s.pos = (s.pos + n).min(s.buf.len()); }
}
impl<const K: u32> AsyncWrite for Am<K> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { let s = me!(self); if s.enter(format!("poll_write {b:?}"), Some(cx)) { return Poll::Pending; } s.fail()?; let n = b.len().min(1 + choose(5) as usize); s.buf.extend(&b[..n]); Poll::Ready(Ok(n)) }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, v: &[IoSlice<'_>]) -> Poll<io::Result<usize>> { let s = me!(self); if s.enter(format!("poll_write_vectored {:?}", v.iter().map(|x| x.to_vec()).collect::<Vec<_>>()), Some(cx)) { return Poll::Pending; } s.fail()?; let n = v.iter().map(|x| x.len()).sum::<usize>(); for x in v { s.buf.extend(x.iter()); } Poll::Ready(Ok(n)) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { let s = me!(self); if s.enter("poll_flush".into(), Some(cx)) { return Poll::Pending; } Poll::Ready(s.fail()) }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { let s = me!(self); if s.enter("poll_close".into(), Some(cx)) { return Poll::Pending; } s.buf.push(99); Poll::Ready(s.fail()) }
}
impl<const K: u32> AsyncSeek for Am<K> {
    fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<io::Result<u64>> { let s = me!(self); if s.enter(format!("poll_seek {p:?}"), Some(cx)) { return Poll::Pending; } s.fail()?; Poll::Ready(Ok(choose(50))) }
}
fn finish<F: Future>(f: F, w: &Waker) -> Option<F::Output> { let mut f = pin!(f); for _ in 0..40 { if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(w)) { return Some(x); } } None }
pub fn drive_stream<T: Stream<Item = u64>>(t: T, r: &mut Rng) {
    let ws = [waker(r), waker(r)];
    let mut t = Box::pin(t);
    for _ in 0..r.n(9) { match r.n(5) { 0 => ev!("=hint {:?}", t.size_hint()), 1 => ev!("=next {:?}", finish(t.next(), &ws[0])), _ => ev!("=poll {:?}", t.as_mut().poll_next(&mut Context::from_waker(&ws[r.u(2)]))) } }
    if r.b(1, 4) { ev!("=collect {:?}", finish(t.map(|x| x + 1).collect::<Vec<_>>(), &ws[1])); }
}
pub fn drive_sink<T: Sink<u32, Error = String> + Sink<String, Error = String>>(t: T, r: &mut Rng) {
    let ws = [waker(r), waker(r)];
    let mut t = pin!(t);
    for _ in 0..1 + r.n(8) {
        let mut cx = Context::from_waker(&ws[r.u(2)]);
        match r.n(9) {
            0 => ev!("=ready {:?}", Sink::<u32>::poll_ready(t.as_mut(), &mut cx)), 1 => ev!("=ready {:?}", Sink::<String>::poll_ready(t.as_mut(), &mut cx)),
            2 => ev!("=send {:?}", Sink::<u32>::start_send(t.as_mut(), r.n(99) as u32)), 3 => ev!("=send {:?}", Sink::<String>::start_send(t.as_mut(), format!("s{}", r.n(9)))),
            4 => ev!("=flush {:?}", Sink::<u32>::poll_flush(t.as_mut(), &mut cx)), 5 => ev!("=flush {:?}", Sink::<String>::poll_flush(t.as_mut(), &mut cx)),
            6 => ev!("=close {:?}", Sink::<u32>::poll_close(t.as_mut(), &mut cx)), 7 => ev!("=sendall {:?}", finish(SinkExt::<u32>::send(&mut t, 7), &ws[0])),
            _ => ev!("=close {:?}", Sink::<String>::poll_close(t.as_mut(), &mut cx)),
        }
    }
}
fn rd<T: AsyncRead + ?Sized>(mut t: Pin<&mut T>, cx: &mut Context<'_>, r: &mut Rng) {
    if r.b(1, 2) { let mut b = vec![0u8; r.u(7)]; let e = t.poll_read(cx, &mut b); ev!("=read {e:?} {b:?}"); }
    else { let (mut a, mut b) = (vec![1u8; r.u(4)], [2u8; 3]); let e = t.poll_read_vectored(cx, &mut [IoSliceMut::new(&mut a), IoSliceMut::new(&mut b)]); ev!("=readv {e:?} {a:?} {b:?}"); }
}
fn wr<T: AsyncWrite + ?Sized>(mut t: Pin<&mut T>, cx: &mut Context<'_>, r: &mut Rng) {
    let d: Vec<u8> = (0..r.n(6)).map(|i| i as u8 * 3).collect();
    match r.n(5) { 0 | 1 => ev!("=write {:?}", t.poll_write(cx, &d)), 2 => ev!("=writev {:?}", t.poll_write_vectored(cx, &[IoSlice::new(&d), IoSlice::new(b"zz")])), 3 => ev!("=flush {:?}", t.poll_flush(cx)), _ => ev!("=close {:?}", t.poll_close(cx)) }
}
pub fn drive_f03_read<T: AsyncRead>(t: T, r: &mut Rng) {
    let ws = [waker(r), waker(r)]; let mut t = pin!(t);
    for _ in 0..1 + r.n(6) { rd(t.as_mut(), &mut Context::from_waker(&ws[r.u(2)]), r); }
    if r.b(1, 5) { let mut v = [0u8; 4]; let e = finish(t.read_exact(&mut v), &ws[0]); ev!("=exact {e:?} {v:?}"); }
}
pub fn drive_f03_bufread<T: AsyncBufRead>(t: T, r: &mut Rng) {
    let ws = [waker(r), waker(r)]; let mut t = pin!(t);
    for _ in 0..1 + r.n(6) { let mut cx = Context::from_waker(&ws[r.u(2)]); match r.n(3) { 0 => rd(t.as_mut(), &mut cx, r), 1 => t.as_mut().consume(r.u(3)), _ => ev!("=fill {:?}", t.as_mut().poll_fill_buf(&mut cx)) } }
    if r.b(1, 5) { let mut v = vec![]; let e = finish(t.read_until(21, &mut v), &ws[0]); ev!("=until {e:?} {v:?}"); }
}
pub fn drive_f03_write<T: AsyncWrite>(t: T, r: &mut Rng) { let ws = [waker(r), waker(r)]; let mut t = pin!(t); for _ in 0..1 + r.n(6) { wr(t.as_mut(), &mut Context::from_waker(&ws[r.u(2)]), r); } if r.b(1, 5) { ev!("=all {:?}", finish(t.write_all(b"abcdef"), &ws[0])); } }
pub fn drive_f03_seek<T: AsyncSeek>(t: T, r: &mut Rng) {
    let ws = [waker(r), waker(r)]; let mut t = pin!(t);
    for _ in 0..1 + r.n(4) { let p = [SeekFrom::Start(r.n(9)), SeekFrom::End(-(r.n(9) as i64)), SeekFrom::Current(r.n(9) as i64)][r.u(3)]; ev!("=seek {:?}", t.as_mut().poll_seek(&mut Context::from_waker(&ws[r.u(2)]), p)); }
}
pub fn drive_f03_all<T: AsyncBufRead + AsyncWrite + AsyncSeek + Stream<Item = u64> + Future<Output = u64>>(t: T, r: &mut Rng) {
    let ws = [waker(r), waker(r)]; let mut t = Box::pin(t);
    for _ in 0..1 + r.n(8) {
        let mut cx = Context::from_waker(&ws[r.u(2)]);
        match r.n(6) { 0 => rd(t.as_mut(), &mut cx, r), 1 => wr(t.as_mut(), &mut cx, r), 2 => ev!("=seek {:?}", t.as_mut().poll_seek(&mut cx, SeekFrom::Start(4))), 3 => ev!("=next {:?}", t.as_mut().poll_next(&mut cx)), 4 => ev!("=poll {:?}", t.as_mut().poll(&mut cx)), _ => { ev!("=fill {:?}", t.as_mut().poll_fill_buf(&mut cx)); t.as_mut().consume(1) } }
    }
}
