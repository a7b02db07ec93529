// Every kind of syntax, for the mutation pools of the macro fuzzer; parsed, never compiled.
#![feature(x)]
extern crate core as c0;
use a::{b::*, c as d, self};
static S: u8 = 1;
static mut SM: &'static [u8] = &[1];
const C: [u8; { 1 + 2 }] = [0; 3];
const _: () = ();
type A<T: Copy = u8> where T: Clone = Vec<T>;
macro_rules! mm { ($($e:expr),* $(,)?) => { $($e)* }; () => {}; }
mm! { 1, 2 }
mm!(1);
extern "C" { fn ff(x: u8, ...) -> u8; static X: u8; type T; }
union U { a: u8, b: f32 }
struct Unit;
struct Tup<'a, T: ?Sized + 'a>(pub &'a T, pub(crate) u8) where T: Clone;
struct Named<const N: usize = 3> { #[doc = "x"] pub a: [u8; N], b: fn(u8) -> u8 }
trait Alias = Clone + Copy;
unsafe auto trait Au {}
trait Tr<'a, T = u8>: Clone where Self: Sized { const K: u8 = 1; type Out<'b>: Iterator<Item = &'b u8> where Self: 'b; fn f(&self, x: u8) -> impl Iterator<Item = u8>; fn g() -> u8 { 1 } mm!(1); }
impl<'a, T> Tr<'a, T> for Unit where T: Clone { const K: u8 = 2; type Out<'b> = std::iter::Empty<&'b u8>; fn f(&self, x: u8) -> impl Iterator<Item = u8> { std::iter::empty() } }
unsafe impl !Send for Unit {}
impl Unit { pub const fn a(self: &mut Self) {} pub async unsafe extern "C" fn b<'a, const N: usize>(&'a mut self, _: [u8; N]) -> Result<(), &'a u8> { Ok(()) } default fn d() {} }
mod inner { #![allow(x)] pub(in crate::a) fn f() {} }
mod external;
enum E0 {}
enum E1 { A }
enum E2<T, U: ?Sized = str> where U: Clone { #[nested] A(T), B { x: Box<U> }, C = 4, D(u8, u16), E() }
enum E3<'a, A: 'a, const N: usize> { A(&'a A), B([u8; N]), C(A) }
enum E4<A, B> { A(A), B(B) }
enum E5<A> { Only(A) }
#[cfg(all())] #[repr(u8)] enum E6<A, B, C> { A(#[cfg(all())] A), #[cfg(any())] B(pub B), C(r#C) }

fn empty() {}
fn semi() { ; }
fn only_items() { fn a() {} struct S; }
fn last_let() -> u8 { let x = 1; }
fn last_mac() -> u8 { mm!(1) }
fn last_mac2() -> u8 { mm! { 1 } }
const fn generic<'a: 'b, 'b, T: for<'x> Fn(&'x u8) -> &'x u8 + 'a, const N: usize>(self: Box<Self>, (a, b): (u8, T), [x, .., y]: [u8; N], _: impl Fn(u8) -> u8) -> impl Iterator<Item = impl Clone + 'a> + use<'a, T> where T: Copy, [u8; N]: Sized, 'a: 'b { loop {} }
fn types(a: &'static mut [u8], b: *const u8, c: *mut dyn Fn(), d: !, e: (), f: (u8,), g: for<'a> unsafe extern "C" fn(&'a u8, ...) -> !, h: <Vec<u8> as IntoIterator>::Item, i: impl for<'a> Fn(&'a u8), j: dyn Clone + Send + 'static, k: Vec<_>, l: m!(u8), m: [u8; C as usize + 1], n: Option<Box<dyn Iterator<Item = impl Clone>>>, o: Result<impl Iterator, impl std::error::Error>, p: impl fmt::Debug + io::Read) {}

fn exprs() {
    [1, 2, 3]; [0; 4]; (1, "a", 'c', b'x', b"b", c"c", 1.5f32, 0xffu8, r#"raw"#, true); ();
    x = y; x += 1; x <<= 2; -x; !x; *x; &x; &mut x; &raw const x; &raw mut y; x as u8; x as fn(u8) -> u8 as usize; a && b || c; a < b; a == b; a..b; ..; ..=b; a..; a..=b;
    async { x.await? }; async move { return 1; }; unsafe { f() }; const { 1 }; 'l: { break 'l; break 'l 1 }; try { x? };
    |x| x; |x: u8, (a, b): (u8, u8)| -> u8 { x }; move || {}; async |x| x.await; static || 1; for<'a> |x: &'a u8| -> &'a u8 { x }; || return 1; || x?;
    f(1, 2); a.b.c; a.0.1; a[0]; a[..][1..2]; a.f::<u8>(1)?.g()?; <T as Tr>::f::<{ 1 + 1 }>(x); Vec::<u8>::new(); ::core::x(); 
    if a { 1 } else { 2 }; if let Some(x) = y { x } else if let Ok(z) = w && z > 1 { z } else { panic!() }; if a {} ; if (S { a: 1 }).a == 1 { } else { }
    match x { 0 => 1, 1..=2 | 5.. => { 2 }, ref mut y @ (3 | 4) if y > 1 && let Some(_) = z => return, S { a, b: (c, ..), .. } => 3, &[a, .., b] => unreachable!(), Some(Some(None)) => 4, T(..) => loop {}, -1 => 5, "s" => 6, 'a'..='z' => 7, A::B => 8, m!(x) => 9, const { 1 } => 10, _ => {} }
    match x {} match (x, y) { (1, _) => #[nested] match y { 0 => 1, _ => 2 }, _ => #[never] panic!() }
    loop { break; } 'a: loop { break 'a 1; continue 'a; } while x { continue; } while let Some(x) = it.next() { break } for (i, x) in a.iter().enumerate() { f(x)?; }
    return; return x; return return 1; yield x; yield; let _ = break; x.await; (x)?; x??; { 1 }; { { { 1 } } }; ((1)); (((x?))); S { a: 1, b, ..Default::default() }; S {}; 
    m!(1); m! { 1 } m![1]; vec![1, 2]; println!("{}", x); todo!(); a::m!(1); marker!(1); marker!(a, b); marker!(); marker! { 1 } marker![1..2];
    let x; let x: u8; let x = 1; let mut x: Vec<u8> = vec![]; let (a, ref b) = c; let Some(x) = y else { return 1 }; let Ok(x) = y else { panic!() }; let x: impl Iterator<Item = u8> = y; let _: Option<impl Clone> = None;
    #[nested] let x = match y { 0 => 1, _ => 2 }; #[never] f(); #[nested] { 1 }; #[nested] if a { 1 } else { 2 }; #[nested] loop { break 1 }; #[nested] match x { 0 => 1, _ => 2 };
    #[auto_enum(Iterator)] let x = match y { 0 => a, _ => b };
    #[auto_enum(Iterator)] let x: impl Iterator<Item = u8> = if y { a } else { b };
    #[auto_enum(Iterator)] match y { 0 => {} _ => {} }
    #[auto_enum(Iterator, marker = m2)] { let x = m2!(1); m2!(2) };
    #[auto_enum(fmt::Debug)] if a { b } else { c };
    #[auto_enum] let x: Option<u8>;
    #[auto_enum(Debug)] x = if a { b } else { c };
    #[auto_enum(Debug)] f(|| { if a { return b; } c });
    #[auto_enum(Debug)] |x| match x { 0 => a, _ => b };
    #[auto_enum(Debug)] return if a { b } else { c };
    #[auto_enum(Debug)] break 'l if a { b } else { c };
    #[auto_enum(Debug)] unsafe { if a { b } else { c } };
    #[auto_enum(Debug)] (if a { b } else { c }).x().y;
    #[auto_enum(Debug)] async { if a { b } else { c } };
    #[auto_enum(Debug)] marker!(x);
    #[auto_enum(Debug)] vec![marker!(x), marker!(y)];
    #[auto_enum(Debug)] ();
    #[auto_enum(Debug)] { fn inner() -> u8 { marker!(x) } };
    #[auto_enum(Debug)] { let f = || marker!(x); marker!(f()) };
    #[auto_enum(Debug)] fn inner(x: u8) -> impl Debug { if x == 0 { return 1 } x }
    #[auto_enum(Debug)] fn q(x: u8) -> Result<impl Debug, ()> { if x == 0 { Err(())?; } f()?; Ok(x) }
    #[auto_enum(Debug)] mod m {}
    #[auto_enum(Debug)] struct S;
    #[auto_enum(Debug)] impl S { #[auto_enum(Debug)] fn f(&self) -> impl Debug { match 1 { 0 => 1, _ => "a" } } }
    #[auto_enum] trait T { #[auto_enum] fn f(&self) -> impl Debug { match 1 { 0 => 1, _ => "a" } } #[auto_enum] fn g(&self) -> impl Debug; }
    #[enum_derive(Debug)] enum L<A, B> { A(A), B(B) }
    #[enum_derive(Debug)] struct NotEnum;
    #[enum_derive] fn f() {}
    match x { #[nested] 0 => { match y { #[never] 0 => return, #[rec] 1 => 1, _ => 2 } } #[auto_enum(Iterator)] 1 => if a { b } else { c }, _ => #[auto_enum(Iterator)] match z { 0 => a, _ => b } }
}
