// C25: derive macros that only leave a mark, so that a trait left to the standard derive is observed.
// Compiled as a proc-macro crate; every test enum is `E<A, B>`.
extern crate proc_macro;
use proc_macro::TokenStream;
macro_rules! marks { ($($f:ident $n:ident),* $(,)?) => { $(#[proc_macro_derive($n)] pub fn $f(_: TokenStream) -> TokenStream { concat!("impl<A, B> Left", stringify!($n), " for E<A, B> {}").parse().unwrap() })* } }
marks! { a0 Deref, a1 DerefMut, a2 Index, a3 IndexMut, a4 RangeBounds, a5 AsRef, a6 AsMut, a7 Pointer, a8 Binary, a9 Octal, b0 UpperHex, b1 LowerHex, b2 UpperExp, b3 LowerExp,
  b4 FnOnce, b5 FnMut, b6 Fn, b7 Coroutine, b8 TrustedLen, b9 Read, c0 BufRead, c1 Write, c2 Seek, c3 Error, c4 Transpose, c5 Stream, c6 Sink, c7 AsyncRead, c8 AsyncWrite, c9 AsyncSeek,
  d0 AsyncBufRead, d1 Future, d2 ParallelIterator, d3 IndexedParallelIterator, d4 ParallelExtend, d5 Serialize, d6 Body, d7 Iterator, d8 Extend, d9 DoubleEndedIterator, e0 ExactSizeIterator, e1 FusedIterator, e2 Display, e3 Unheard }
