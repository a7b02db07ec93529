// C05: errors.
use std::error::Error;
use std::fmt;
pub struct Em<const K: u32> { n: u32, inner: Option<Box<dyn Error + Send + Sync>>, g: Guard }
pub fn em<const K: u32>(r: &mut Rng) -> Em<K> {
    let inner: Option<Box<dyn Error + Send + Sync>> = match r.n(4) { 0 => None, 1 => Some(Box::new(fmt::Error)), 2 => Some("text".into()), _ => Some(Box::new(Leaf(r.n(5) as u32, Some(Box::new(Leaf(9, None)))))) };
    Em { n: r.n(9) as u32, inner, g: Guard::new(K) }
}
#[derive(Debug)]
pub struct Leaf(u32, Option<Box<Leaf>>);
impl fmt::Display for Leaf { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "leaf{}", self.0) } }
impl Error for Leaf { fn source(&self) -> Option<&(dyn Error + 'static)> { call!("source leaf {}", self.0); self.1.as_ref().map(|x| &**x as _) } }
impl<const K: u32> fmt::Display for Em<K> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { call!("display {K} {:?} {:?}", f.width(), f.alternate()); f.pad(&format!("em{K}-{}", self.n))?; if choose(7) == 0 { Err(fmt::Error) } else { Ok(()) } } }
impl<const K: u32> fmt::Debug for Em<K> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { call!("debug {K} {:?}", f.alternate()); f.debug_struct("Em").field("n", &self.n).field("k", &K).finish() } }
impl<const K: u32> Error for Em<K> {
    fn source(&self) -> Option<&(dyn Error + 'static)> { call!("source {K}"); self.inner.as_ref().map(|x| &**x as _) }
    #[allow(deprecated)]
    fn description(&self) -> &str { call!("description {K}"); ["d0", "d1", "d2"][self.n as usize % 3] }
    fn cause(&self) -> Option<&dyn Error> { None }
}
fn shown(f: impl FnOnce(&mut String) -> fmt::Result) { let mut s = String::new(); let e = f(&mut s); ev!("=shown {e:?} {s:?}"); }
/// What must be seen of an enum that holds `p`: `src` is what its source() gives.
fn view<E: Error>(e: &E, r: &mut Rng, src: impl Fn(&E) -> &(dyn Error + 'static), same: impl Fn(&(dyn Error + 'static)) -> (bool, bool)) {
    use fmt::Write;
    for _ in 0..1 + r.n(4) {
        match r.n(9) {
            0 => shown(|s| write!(s, "{e}")),
            1 => shown(|s| write!(s, "{e:?}")),
            2 => shown(|s| write!(s, "{e:#?}")),
            3 => shown(|s| write!(s, "{e:>12}|")),
            4 => ev!("=description {:?}", e.description()),
            _ => {
                let s = src(e);
                ev!("=source {:?}", same(s));
                let mut next = Some(s);
                let mut n = 0;
                while let Some(x) = next { if r.b(1, 2) { shown(|s| write!(s, "{x}")); } else { shown(|s| write!(s, "{x:?}")); } n += 1; next = if n < 6 { x.source() } else { None }; }
                ev!("=chain {n}");
            }
        }
    }
}
pub fn err_direct<P: Error + 'static>(p: P, r: &mut Rng) { view(&p, r, |p| p, |_| (true, true)); if r.b(1, 3) { let b: Box<dyn Error> = Box::new(p); ev!("=boxed {}", b.to_string().len() < 99); } }
pub fn err_enum<P: Error + 'static, T: Error + 'static>(t: T, r: &mut Rng) {
    let lo = &t as *const T as usize;
    let hi = lo + size_of::<T>();
    view(&t, r, |t| t.source().expect("the source of the enum is its field"), |s| (s.is::<P>(), s.downcast_ref::<P>().is_some_and(|p| { let a = p as *const P as usize; lo <= a && a + size_of::<P>() <= hi })));
    if r.b(1, 3) { let b: Box<dyn Error> = Box::new(t); ev!("=boxed {}", b.to_string().len() < 99); }
}
