// C25: a crate without std that uses the auto_enum syntax. `pick` comes from the driver.
use auto_enums::{auto_enum, enum_derive};
use core::fmt::{Debug, Display};
#[auto_enum(Iterator)]
pub fn if_else(n: u32) -> impl Iterator<Item = u32> { if n % 3 == 0 { 0..n } else if n % 3 == 1 { core::iter::once(n) } else { core::iter::empty() } }
#[auto_enum(DoubleEndedIterator, ExactSizeIterator, Clone)]
pub fn matches(n: u32) -> impl DoubleEndedIterator<Item = u32> + ExactSizeIterator + Clone { match n % 4 { 0 => [n, n + 1].into_iter(), 1 => Some(n).into_iter(), 2 => core::iter::repeat(n).take(3).collect_into(), _ => core::iter::empty() } }
pub trait CollectInto: Iterator<Item = u32> + Sized { fn collect_into(self) -> core::array::IntoIter<u32, 3> { [7, 8, 9].into_iter() } }
impl<I: Iterator<Item = u32>> CollectInto for I {}
#[auto_enum(Debug)]
pub fn early(n: u32) -> impl Debug { if n == 5 { return "five"; } let mut i = 0; while i < n { if i == 7 { return Some(i); } i += 1; } match n % 2 { 0 => n, _ => 'o' } }
#[auto_enum(Display)]
pub fn looped(n: u32) -> impl Display { let mut k = n; loop { if k > 20 { break k; } if k == 11 { break "eleven"; } loop { if k % 2 == 0 { break; } k += 1; } k += 3; } }
#[auto_enum(Debug)]
pub fn question(n: u32) -> Result<u32, impl Debug> { let a = if n == 1 { Err("one") } else { Ok(n) }?; let b = if n == 2 { Err(2u8) } else { Ok(a + 1) }?; Ok(a + b) }
#[auto_enum(Debug)]
pub fn marked(n: u32) -> impl Debug { if n % 3 == 0 { marker!(1u8) } else { let t = (0..3).map(|x| x + n).sum::<u32>(); if t > 50 { return marker!([t; 2]); } #[nested] match n % 2 { 0 => marker!("m"), _ => None::<u32> } } }
#[auto_enum]
pub fn lets(n: u32) -> u32 { #[auto_enum(Iterator)] let it = match n % 2 { 0 => 0..n, _ => core::iter::once(5) }; let c = #[auto_enum(Debug)] { if n > 3 { Some(1u8) } else { "small" } }; let _ = &c; it.sum() }
#[auto_enum(Debug)]
pub fn nests(n: u32) -> impl Debug { match n % 3 { #[nested] 0 => if n == 0 { 1u8 } else { 2u16 }, #[never] 1 => panic!("one"), _ => "two" } }
#[auto_enum(Debug)]
pub fn panics(n: u32) -> impl Debug { match n { 0 => 1u8, 1 => 2u16, 2 => unreachable!("no"), 3 => panic!("three"), _ => None::<u8> } }
