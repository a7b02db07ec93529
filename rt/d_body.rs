// C06: http_body 1.
use http_body::{Body, Frame, SizeHint};
impl<const K: u32> Body for Am<K> {
    type Data = std::io::Cursor<Vec<u8>>;
    type Error = String;
    fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Self::Data>, String>>> {
        let s = me!(self);
        if s.enter("poll_frame".into(), Some(cx)) { return Poll::Pending; }
        if let Err(e) = s.fail() { return Poll::Ready(Some(Err(e.to_string()))); }
        let d = s.some(5).to_vec();
        Poll::Ready(if d.is_empty() { None } else { Some(Ok(Frame::data(std::io::Cursor::new(d)))) })
    }
    fn is_end_stream(&self) -> bool { call!("is_end_stream {K}"); self.n % 2 == 0 }
    fn size_hint(&self) -> SizeHint { call!("size_hint {K}"); let mut h = SizeHint::new(); h.set_lower(self.n); if K % 2 == 0 { h.set_upper(self.n + 1 + K as u64); } h }
}
/// The defaults of is_end_stream and size_hint.
pub struct Bd<const K: u32>(u32, Guard);
pub fn bd<const K: u32>(_: &mut Rng) -> Bd<K> { Bd(3, Guard::new(K)) }
impl<const K: u32> Body for Bd<K> { type Data = std::io::Cursor<Vec<u8>>; type Error = String; fn poll_frame(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<Frame<Self::Data>, String>>> { call!("poll_frame bd {K}"); if self.0 == 0 { return Poll::Ready(None); } self.0 -= 1; Poll::Ready(Some(Ok(Frame::data(std::io::Cursor::new(vec![self.0 as u8]))))) } }
pub fn drive_body<T: Body<Data = std::io::Cursor<Vec<u8>>, Error = String>>(t: T, r: &mut Rng) {
    let ws = [waker(r), waker(r)]; let mut t = pin!(t);
    for _ in 0..1 + r.n(9) {
        match r.n(5) { 0 => ev!("=end {}", t.is_end_stream()), 1 => { let h = t.size_hint(); ev!("=hint {} {:?} {:?}", h.lower(), h.upper(), h.exact()) }
            _ => { let p = t.as_mut().poll_frame(&mut Context::from_waker(&ws[r.u(2)])); ev!("=frame {:?}", p.map(|o| o.map(|x| x.map(|f| f.into_data().map_err(|_| "trailers"))))) } }
    }
}
