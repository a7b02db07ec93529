// C09: rayon. Items are counted as they are made and dropped, and carry their position; every
// computation runs on a pool of 1 to 8 threads with delays injected to force stealing.
use rayon::iter::plumbing::*;
use rayon::prelude::*;
use std::sync::{Mutex, OnceLock, atomic::{AtomicI64, AtomicU64, Ordering::*}};
static LIVEI: AtomicI64 = AtomicI64::new(0);
static BOOM: AtomicI64 = AtomicI64::new(-1);
static SPLITS: AtomicU64 = AtomicU64::new(0);
static NOTES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static ORDER: Mutex<Vec<(usize, u32)>> = Mutex::new(Vec::new());
static SCHED: OnceLock<Mutex<std::collections::HashSet<u64>>> = OnceLock::new();
/// A monitored call of a mock, from whatever thread.
fn note(s: String) { NOTES.lock().unwrap().push(s); }
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tok(u32);
pub fn tok(n: u32) -> Tok { LIVEI.fetch_add(1, SeqCst); Tok(n) }
impl Drop for Tok { fn drop(&mut self) { LIVEI.fetch_sub(1, SeqCst); } }
impl Clone for Tok { fn clone(&self) -> Tok { tok(self.0) } }
pub fn toks(k: u32, r: &mut Rng) -> Vec<Tok> { let n = match r.n(8) { 0 => 0, 1 => 1, 2 => 300, _ => r.n(60) }; (0..n as u32).map(|i| tok(k * 1000 + (i * 37) % 997)).collect() }
/// What happens to an item: recorded, delayed, and a panic when the script says so.
fn see(t: &Tok) {
    let w = rayon::current_thread_index().unwrap_or(99);
    ORDER.lock().unwrap().push((w, t.0));
    match t.0 % 5 { 0 => std::thread::yield_now(), 1 => for _ in 0..200 { std::hint::spin_loop() }, _ => {} }
    if BOOM.load(SeqCst) == t.0 as i64 { panic!("item {}", t.0); }
}
/// Unindexed, with its own drive_unindexed and opt_len.
pub struct Pu<const K: u32>(Vec<Tok>);
pub fn pu<const K: u32>(r: &mut Rng) -> Pu<K> { Pu(toks(K, r)) }
impl<const K: u32> Drop for Pu<K> { fn drop(&mut self) { note(format!("dropped pu{K} {}", self.0.len())); } }
impl<const K: u32> ParallelIterator for Pu<K> {
    type Item = Tok;
    fn drive_unindexed<C: UnindexedConsumer<Tok>>(mut self, c: C) -> C::Result { note(format!("drive_unindexed pu{K}")); std::mem::take(&mut self.0).into_par_iter().drive_unindexed(c) }
    fn opt_len(&self) -> Option<usize> { note(format!("opt_len pu{K}")); if K % 2 == 0 { Some(self.0.len()) } else { None } }
}
/// opt_len left at its default.
pub struct Pd<const K: u32>(Vec<Tok>);
pub fn pd<const K: u32>(r: &mut Rng) -> Pd<K> { Pd(toks(K, r)) }
impl<const K: u32> ParallelIterator for Pd<K> { type Item = Tok; fn drive_unindexed<C: UnindexedConsumer<Tok>>(self, c: C) -> C::Result { note(format!("drive_unindexed pd{K}")); self.0.into_par_iter().drive_unindexed(c) } }
/// Indexed, everything its own.
pub struct Pi<const K: u32>(Vec<Tok>);
pub fn pi<const K: u32>(r: &mut Rng) -> Pi<K> { Pi(toks(K, r)) }
impl<const K: u32> Drop for Pi<K> { fn drop(&mut self) { note(format!("dropped pi{K} {}", self.0.len())); } }
impl<const K: u32> ParallelIterator for Pi<K> {
    type Item = Tok;
    fn drive_unindexed<C: UnindexedConsumer<Tok>>(self, c: C) -> C::Result { note(format!("drive_unindexed pi{K}")); bridge(self, c) }
    fn opt_len(&self) -> Option<usize> { note(format!("opt_len pi{K}")); Some(self.0.len()) }
}
impl<const K: u32> IndexedParallelIterator for Pi<K> {
    fn len(&self) -> usize { note(format!("len pi{K}")); self.0.len() }
    fn drive<C: Consumer<Tok>>(self, c: C) -> C::Result { note(format!("drive pi{K}")); bridge(self, c) }
    fn with_producer<CB: ProducerCallback<Tok>>(mut self, cb: CB) -> CB::Output { note(format!("with_producer pi{K}")); cb.callback(Pp::<K>(std::mem::take(&mut self.0))) }
}
/// Its producer: min_len depends on K, splits are counted.
pub struct Pp<const K: u32>(Vec<Tok>);
impl<const K: u32> Producer for Pp<K> {
    type Item = Tok; type IntoIter = std::vec::IntoIter<Tok>;
    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
    fn min_len(&self) -> usize { 1 + K as usize % 3 }
    fn split_at(mut self, n: usize) -> (Self, Self) { SPLITS.fetch_add(1, SeqCst); let b = self.0.split_off(n); (self, Pp(b)) }
}
/// An extendable collection of its own.
pub struct Px<const K: u32>(Vec<u32>);
pub fn px<const K: u32>(_r: &mut Rng) -> Px<K> { Px(vec![K]) }
impl<const K: u32> Drop for Px<K> { fn drop(&mut self) { note(format!("px{K} has {:?}", self.0)); } }
impl<const K: u32> ParallelExtend<Tok> for Px<K> { fn par_extend<I: IntoParallelIterator<Item = Tok>>(&mut self, i: I) { note(format!("par_extend px{K}")); let i = i.into_par_iter(); note(format!("given {:?}", i.opt_len())); let mut v: Vec<u32> = i.map(|t| { see(&t); t.0 }).collect(); self.0.append(&mut v); } }
impl<const K: u32> ParallelExtend<u8> for Px<K> { fn par_extend<I: IntoParallelIterator<Item = u8>>(&mut self, i: I) { note(format!("par_extend bytes px{K}")); let mut v: Vec<u32> = i.into_par_iter().map(|t| t as u32 * 3).collect(); self.0.append(&mut v); } }
fn pool(r: &mut Rng) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| [1, 2, 3, 8].map(|n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).into())[r.u(4)]
}
fn sorted(v: Vec<Tok>) -> Vec<u32> { let mut v: Vec<u32> = v.iter().map(|t| t.0).collect(); v.sort(); v }
fn ids(v: &[Tok]) -> Vec<u32> { v.iter().map(|t| t.0).collect() }
/// Runs one computation, then reports what the monitors saw: calls of the mock, the items processed
/// (once each), how it ended, and whether every item made was dropped.
fn watched<R: std::fmt::Debug + Send>(r: &mut Rng, may_panic: bool, f: impl FnOnce() -> R + Send) {
    NOTES.lock().unwrap().clear();
    ORDER.lock().unwrap().clear();
    SPLITS.store(0, SeqCst);
    let p = pool(r);
    BOOM.store(if may_panic && r.b(1, 8) { r.n(4) as i64 * 1000 + 37 * r.n(20) as i64 } else { -1 }, SeqCst);
    let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.install(f)));
    BOOM.store(-1, SeqCst);
    let order = std::mem::take(&mut *ORDER.lock().unwrap());
    let mut seen: Vec<u32> = order.iter().map(|x| x.1).collect();
    seen.sort();
    for n in NOTES.lock().unwrap().drain(..) { ev!("{n}"); }
    match end {
        Ok(v) => { ev!("=gives {v:?}"); ev!("=processed {seen:?}"); }
        // what else was processed before the panic depends on the schedule, but nothing is twice
        Err(e) => { let n = seen.len(); seen.dedup(); ev!("=panics {:?} twice {}", e.downcast_ref::<String>(), n - seen.len()); }
    }
    ev!("=undropped {}", LIVEI.swap(0, SeqCst));
    stat("computations", 1);
    stat("items_processed", order.len() as u64);
    stat("producer_splits", SPLITS.load(SeqCst));
    let ws: std::collections::HashSet<usize> = order.iter().map(|x| x.0).collect();
    if ws.len() > 1 { stat("computations_on_several_threads", 1); }
    if SCHED.get_or_init(Default::default).lock().unwrap().insert(dv::hash(&order)) { stat("distinct_schedules", 1); }
}
macro_rules! w { ($r:expr, $e:expr) => { watched($r, true, move || $e) }; (calm $r:expr, $e:expr) => { watched($r, false, move || $e) } }
/// The computations that need only ParallelIterator, in three parts.
pub fn drive_par_a<T: ParallelIterator<Item = Tok>>(t: T, r: &mut Rng) {
    let c = r.n(1000) as u32;
    match r.n(8) {
        0 => w!(r, t.map(|t| { see(&t); t }).collect::<Vec<_>>().len()),
        1 => w!(r, t.for_each(|t| see(&t))),
        2 => w!(r, t.inspect(see).map(|t| vec![t.0]).reduce(Vec::new, |mut a, mut b| { a.append(&mut b); a })),
        3 => w!(calm r, t.find_last(|t| t.0 % 7 == 3).map(|t| t.0)),
        4 => w!(r, t.opt_len()),
        5 => w!(r, t.inspect(see).map(|t| (t.0, t)).unzip::<_, _, Vec<_>, Vec<_>>().0),
        6 => w!(r, t.flat_map_iter(|t| { see(&t); [t.0, c] }).collect::<Vec<_>>()),
        _ => w!(calm r, t.try_for_each(|t| if t.0 % 1000 == 900 { None } else { Some(()) }).is_none()),
    }
}
pub fn drive_par_b<T: ParallelIterator<Item = Tok>>(t: T, r: &mut Rng) {
    let c = r.n(1000) as u32;
    match r.n(8) {
        0 => w!(r, sorted(t.inspect(see).collect::<Vec<_>>())),
        1 => w!(r, t.map(|t| { see(&t); t.0 as u64 }).sum::<u64>()),
        2 => w!(calm r, t.find_first(|t| t.0 % 7 == 3).map(|t| t.0)),
        3 => w!(calm r, (t.any(|t| t.0 % 1000 == 40))),
        4 => w!(r, { let mut v = vec![tok(9)]; v.par_extend(t.inspect(see)); ids(&v) }),
        5 => w!(calm r, t.map(|t| if t.0 % 1000 == 900 { Err(t.0) } else { Ok(t.0) }).collect::<Result<Vec<_>, _>>().is_ok()),
        6 => w!(r, t.inspect(see).chain(rayon::iter::once(tok(c))).map(|t| t.0).collect::<Vec<_>>()),
        _ => w!(r, { let x = t.opt_len(); let v = t.inspect(see).collect_vec_list(); (x, v.into_iter().flatten().map(|t| t.0).collect::<Vec<_>>()) }),
    }
}
pub fn drive_par_c<T: ParallelIterator<Item = Tok>>(t: T, r: &mut Rng) {
    let c = r.n(1000) as u32;
    match r.n(8) {
        0 => w!(r, ids(&t.inspect(see).collect::<Vec<_>>())),
        1 => w!(r, t.filter(|t| { see(t); t.0 % 3 == 0 }).count()),
        2 => w!(calm r, t.find_any(|t| t.0 % 7 == 3).is_some()),
        3 => w!(calm r, (t.all(|t| t.0 % 1000 != 40))),
        4 => w!(r, t.inspect(see).partition::<Vec<_>, Vec<_>, _>(|t| t.0 % 2 == 0).0.len()),
        5 => w!(r, t.inspect(see).fold(|| 0u64, |a, t| a + t.0 as u64).sum::<u64>()),
        6 => w!(r, t.inspect(see).map(|t| t.0).max()),
        _ => w!(r, drop(t)),
    }
}
/// And the ones of IndexedParallelIterator.
pub fn drive_ind_a<T: IndexedParallelIterator<Item = Tok>>(t: T, r: &mut Rng) {
    let c = 1 + r.u(9);
    match r.n(8) {
        0 => w!(r, t.len()),
        1 => w!(r, t.inspect(see).enumerate().map(|(i, t)| (i, t.0)).collect::<Vec<_>>()),
        2 => w!(r, t.inspect(see).zip((0..40u32).into_par_iter()).map(|(t, x)| (t.0, x)).collect::<Vec<_>>()),
        3 => w!(r, t.inspect(see).with_min_len(c).with_max_len(c + 2).map(|t| t.0).collect::<Vec<_>>()),
        4 => w!(calm r, t.step_by(c).map(|t| t.0).collect::<Vec<_>>()),
        5 => w!(r, t.inspect(see).map(|t| t.0).interleave(vec![1u32, 2, 3].into_par_iter()).collect::<Vec<_>>()),
        6 => w!(r, { let (mut a, mut b) = (vec![], vec![]); t.inspect(see).map(|t| (t.0, t)).unzip_into_vecs(&mut a, &mut b); (a, ids(&b)) }),
        _ => w!(calm r, t.position_last(|t| t.0 % 9 == 4)),
    }
}
pub fn drive_ind_b<T: IndexedParallelIterator<Item = Tok>>(t: T, r: &mut Rng) {
    let c = 1 + r.u(9);
    match r.n(7) {
        0 => w!(r, { let mut v = vec![tok(1)]; t.inspect(see).collect_into_vec(&mut v); ids(&v) }),
        1 => w!(r, t.inspect(see).rev().map(|t| t.0).collect::<Vec<_>>()),
        2 => w!(r, t.inspect(see).chunks(c).map(|v| ids(&v)).collect::<Vec<_>>()),
        3 => w!(calm r, t.skip(c).take(2 * c).map(|t| t.0).collect::<Vec<_>>()),
        4 => w!(calm r, t.position_first(|t| t.0 % 9 == 4)),
        5 => w!(calm r, t.map(|t| t.0).cmp((0..30u32).into_par_iter())),
        _ => w!(r, t.map(|t| { see(&t); t }).for_each_with(c, |c, t| { let _ = *c + t.0 as usize; })),
    }
}
pub fn drive_pext<T: ParallelExtend<Tok> + Send>(mut t: T, r: &mut Rng) {
    let n = 1 + r.n(3);
    for _ in 0..n { let v = toks(5, r); let t = &mut t; match r.n(3) { 0 => w!(calm r, t.par_extend(v)), 1 => w!(calm r, t.par_extend(v.into_par_iter().filter(|t| t.0 % 2 == 0))), _ => w!(r, t.par_extend(v.par_iter().cloned().inspect(see))) } }
    w!(calm r, drop(t));
}
pub fn drive_pext2<T: ParallelExtend<Tok> + ParallelExtend<u8> + Send>(mut t: T, r: &mut Rng) {
    { let t = &mut t; w!(calm r, t.par_extend(vec![1u8, 2, 3])) }
    drive_pext(t, r)
}
