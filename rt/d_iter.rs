// C01: iterators. A mock overrides exactly the methods of the property.
pub struct M<const K: u32> { v: Vec<u32>, a: usize, b: usize, g: Guard }
pub fn m<const K: u32>(r: &mut Rng) -> M<K> {
    let n = r.u(7);
    let v: Vec<u32> = (0..n).map(|_| r.n(10) as u32 + K * 100).collect();
    M { a: 0, b: v.len(), v, g: Guard::new(K) }
}
impl<const K: u32> M<K> {
    fn f(&mut self) -> Option<u32> { if self.a < self.b { self.a += 1; Some(self.v[self.a - 1]) } else { None } }
    fn l(&mut self) -> Option<u32> { if self.a < self.b { self.b -= 1; Some(self.v[self.b]) } else { None } }
}
impl<const K: u32> Iterator for M<K> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { call!("next {K}"); self.f() }
    fn size_hint(&self) -> (usize, Option<usize>) { call!("size_hint {K}"); let n = self.b - self.a; (n, Some(n)) }
    fn count(self) -> usize { call!("count {K}"); self.b - self.a + 1000 }
    fn last(mut self) -> Option<u32> { call!("last {K}"); self.l() }
    fn nth(&mut self, n: usize) -> Option<u32> { call!("nth {K} {n}"); for _ in 0..n { self.f(); } self.f() }
    fn collect<B: FromIterator<u32>>(mut self) -> B { call!("collect {K} {}", std::any::type_name::<B>()); let mut o = vec![]; while let Some(x) = self.l() { o.push(x + 1); } o.into_iter().collect() }
    fn partition<B: Default + Extend<u32>, F: FnMut(&u32) -> bool>(mut self, mut f: F) -> (B, B) {
        call!("partition {K}");
        let (mut p, mut q) = (B::default(), B::default());
        while let Some(x) = self.f() { if f(&x) { p.extend(Some(x)) } else { q.extend(Some(x)) } }
        p.extend(Some(5000));
        (p, q)
    }
    fn fold<B, F: FnMut(B, u32) -> B>(mut self, init: B, mut f: F) -> B { call!("fold {K}"); let mut b = init; while let Some(x) = self.f() { b = f(b, x); } b }
    fn all<F: FnMut(u32) -> bool>(&mut self, mut f: F) -> bool { call!("all {K}"); while let Some(x) = self.f() { if !f(x) { return false; } } true }
    fn any<F: FnMut(u32) -> bool>(&mut self, mut f: F) -> bool { call!("any {K}"); while let Some(x) = self.f() { if f(x) { return true; } } false }
    fn find<P: FnMut(&u32) -> bool>(&mut self, mut f: P) -> Option<u32> { call!("find {K}"); while let Some(x) = self.f() { if f(&x) { return Some(x); } } None }
    fn find_map<B, F: FnMut(u32) -> Option<B>>(&mut self, mut f: F) -> Option<B> { call!("find_map {K}"); while let Some(x) = self.f() { if let Some(y) = f(x) { return Some(y); } } None }
    fn position<P: FnMut(u32) -> bool>(&mut self, mut f: P) -> Option<usize> { call!("position {K}"); let mut i = 0; while let Some(x) = self.f() { if f(x) { return Some(i); } i += 1; } None }
}
impl<const K: u32> DoubleEndedIterator for M<K> {
    fn next_back(&mut self) -> Option<u32> { call!("next_back {K}"); self.l() }
    fn nth_back(&mut self, n: usize) -> Option<u32> { call!("nth_back {K} {n}"); for _ in 0..n { self.l(); } self.l() }
    fn rfold<B, F: FnMut(B, u32) -> B>(mut self, init: B, mut f: F) -> B { call!("rfold {K}"); let mut b = init; while let Some(x) = self.l() { b = f(b, x); } b }
    fn rfind<P: FnMut(&u32) -> bool>(&mut self, mut f: P) -> Option<u32> { call!("rfind {K}"); while let Some(x) = self.l() { if f(&x) { return Some(x); } } None }
}
impl<const K: u32> ExactSizeIterator for M<K> { fn len(&self) -> usize { call!("len {K}"); self.b - self.a + 2000 * (K as usize % 2) } }
impl<const K: u32> std::iter::FusedIterator for M<K> {}

/// Only next (and next_back): everything else is the trait's default.
pub struct N<const K: u32> { v: Vec<u32>, i: usize, g: Guard }
pub fn nn<const K: u32>(r: &mut Rng) -> N<K> { let n = r.u(7); N { v: (0..n).map(|_| r.n(10) as u32).collect(), i: 0, g: Guard::new(K) } }
impl<const K: u32> Iterator for N<K> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        call!("next {K}");
        // not fused: answers None now and then
        if choose(6) == 0 { return None; }
        self.i += 1;
        self.v.get(self.i - 1).copied()
    }
}

/// A collection that shows how it is filled.
#[derive(Debug, Default)]
pub struct Coll(Vec<u32>);
impl FromIterator<u32> for Coll { fn from_iter<I: IntoIterator<Item = u32>>(i: I) -> Coll { let mut c = Coll::default(); c.extend(i); c } }
impl Extend<u32> for Coll { fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) { let mut i = i.into_iter(); ev!("hint {:?}", i.size_hint()); while let Some(x) = i.next() { self.0.push(x); } } }

fn pr(r: &Rng, x: u32) -> bool { (x as u64).wrapping_mul(r.0 | 1) >> 9 & 3 == 0 }

pub fn drive_plain<T: Iterator<Item = u32>>(mut t: T, r: &mut Rng) {
    ev!("size {}", std::mem::align_of_val(&t) > 0);
    for _ in 0..r.n(6) {
        let s = Rng(r.next());
        match r.n(13) {
            0 | 1 => ev!("=next {:?}", t.next()),
            2 => ev!("=hint {:?}", t.size_hint()),
            3 => { let n = r.u(4); ev!("=nth {:?}", t.nth(n)) }
            4 => ev!("=all {:?}", t.all(|x| { ev!("f {x}"); !pr(&s, x) })),
            5 => ev!("=any {:?}", t.any(|x| { ev!("f {x}"); pr(&s, x) })),
            6 => ev!("=find {:?}", t.find(|x| { ev!("f {x}"); pr(&s, *x) })),
            7 => ev!("=find_map {:?}", t.find_map(|x| { ev!("f {x}"); if pr(&s, x) { Some(x as u64 * 3) } else { None } })),
            8 => ev!("=position {:?}", t.position(|x| { ev!("f {x}"); pr(&s, x) })),
            9 => { let n = r.u(3); ev!("=take {:?}", t.by_ref().take(n).collect::<Vec<_>>()) }
            10 => ev!("=try_fold {:?}", t.try_fold(1u32, |a, x| if pr(&s, x) { Err(x) } else { Ok(a.wrapping_mul(3) + x) })),
            11 => ev!("=try_for_each {:?}", t.try_for_each(|x| if pr(&s, x) { None } else { ev!("f {x}"); Some(()) })),
            _ => { let mut p = t.by_ref().peekable(); ev!("=peek {:?} {:?}", p.peek().copied(), p.next()) }
        }
    }
    let s = Rng(r.next());
    match r.n(17) {
        0 => ev!("=count {}", t.count()),
        1 => ev!("=last {:?}", t.last()),
        2 => ev!("=collect {:?}", t.collect::<Vec<_>>()),
        3 => ev!("=collect {:?}", t.collect::<Coll>()),
        4 => ev!("=collect {:?}", t.map(|x| (x % 4, x)).collect::<std::collections::BTreeMap<_, _>>()),
        5 => ev!("=partition {:?}", t.partition::<Vec<_>, _>(|x| { ev!("f {x}"); pr(&s, *x) })),
        6 => ev!("=fold {}", t.fold(7u64, |a, x| { ev!("f {x}"); a.wrapping_mul(31) + x as u64 })),
        7 => t.for_each(|x| ev!("f {x}")),
        8 => ev!("=sum {} ", t.map(|x| x as u64).sum::<u64>()),
        9 => ev!("=max {:?}", t.max()),
        10 => for x in t { ev!("f {x}"); if pr(&s, x) { break; } },
        11 => ev!("=chain {:?}", t.filter(|x| pr(&s, *x)).chain([1, 2]).skip(1).step_by(2).collect::<Vec<_>>()),
        12 => { let mut v = vec![1u32]; v.extend(t); ev!("=extend {v:?}") }
        13 => ev!("=cmp {:?}", t.cmp(IntoIterator::into_iter([100u32, 205]))),
        14 => ev!("=unzip {:?}", t.map(|x| (x, x + 1)).unzip::<u32, u32, Vec<_>, Coll>()),
        15 => drop(t),
        _ => ev!("=partition {:?}", t.partition::<Coll, _>(|x| pr(&s, *x))),
    }
}
pub fn drive_full<T: DoubleEndedIterator<Item = u32> + ExactSizeIterator + std::iter::FusedIterator>(mut t: T, r: &mut Rng) {
    if r.b(1, 3) { return drive_plain(t, r); }
    for _ in 0..r.n(6) {
        let s = Rng(r.next());
        match r.n(9) {
            0 => ev!("=next {:?}", t.next()),
            1 | 2 => ev!("=next_back {:?}", t.next_back()),
            3 => { let n = r.u(4); ev!("=nth_back {:?}", t.nth_back(n)) }
            4 => ev!("=rfind {:?}", t.rfind(|x| { ev!("f {x}"); pr(&s, *x) })),
            5 => ev!("=len {}", t.len()),
            6 => ev!("=try_rfold {:?}", t.try_rfold(1u32, |a, x| if pr(&s, x) { Err(x) } else { Ok(a.wrapping_mul(3) + x) })),
            7 => { let n = r.u(3); ev!("=rtake {:?}", t.by_ref().rev().take(n).collect::<Vec<_>>()) }
            _ => ev!("=hint {:?}", t.size_hint()),
        }
    }
    let s = Rng(r.next());
    match r.n(6) {
        0 => ev!("=rfold {}", t.rfold(7u64, |a, x| { ev!("f {x}"); a.wrapping_mul(31) + x as u64 })),
        1 => ev!("=rev {:?}", t.rev().map(|x| x * 2).collect::<Vec<_>>()),
        2 => { let mut t = t.fuse(); ev!("=fuse {:?} {:?} {:?}", t.next(), t.next_back(), t.next()) }
        3 => ev!("=rev fold {:?}", t.rev().filter(|x| pr(&s, *x)).fold(0u32, |a, x| a ^ x)),
        4 => ev!("=enumerate {:?}", t.enumerate().next_back()),
        _ => drop(t),
    }
}
/// TrustedLen: Vec allocates by the hint and writes unchecked.
pub fn drive_tl<T: std::iter::TrustedLen<Item = u32>>(t: T, r: &mut Rng) {
    match r.n(3) {
        0 => { let mut v = vec![9u32]; v.extend(t); ev!("=tl {v:?}") }
        1 => ev!("=tl {:?}", t.map(|x| x + 1).collect::<Vec<_>>()),
        _ => ev!("=tl {:?} ", t.collect::<std::collections::VecDeque<_>>()),
    }
}

// Extend
pub struct X<const K: u32> { v: Vec<u32>, g: Guard }
pub fn x<const K: u32>(_: &mut Rng) -> X<K> { X { v: vec![], g: Guard::new(K) } }
impl<const K: u32> Extend<u32> for X<K> { fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) { call!("extend {K} {:?}", self.v); for x in i { self.v.push(x); if choose(9) == 0 { break; } } } }
impl<'a, const K: u32> Extend<&'a u32> for X<K> { fn extend<I: IntoIterator<Item = &'a u32>>(&mut self, i: I) { call!("extend& {K} {:?}", self.v); for x in i { self.v.push(*x + 1); } } }
pub struct Src(u32, Guard);
impl Iterator for Src { type Item = u32; fn next(&mut self) -> Option<u32> { call!("src {}", self.0); if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) } } fn size_hint(&self) -> (usize, Option<usize>) { call!("srchint"); (1, None) } }
pub fn drive_ext<T: Extend<u32> + for<'a> Extend<&'a u32>>(mut t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(4) {
        match r.n(4) {
            0 => t.extend(Src(r.n(5) as u32, Guard::new(99))),
            1 => t.extend([r.n(5) as u32, 3]),
            2 => t.extend(&[1u32, 2]),
            _ => t.extend(None::<u32>),
        }
    }
    t.extend(&[7u32; 0]);
}
pub fn drive_ext_vec<T: Extend<u32>>(mut t: T, r: &mut Rng) { for _ in 0..1 + r.n(3) { t.extend(Src(r.n(5) as u32, Guard::new(99))); } }
