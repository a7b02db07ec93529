// C02: formatting and fmt::Write.
use std::fmt::{self, Alignment, DebugAsHex, Formatter, FormattingOptions, Sign, Write as _};
pub struct Pm<const K: u32>(u32, Guard);
pub fn p<const K: u32>(r: &mut Rng) -> Pm<K> { Pm(r.n(1000) as u32, Guard::new(K)) }
fn spec(f: &Formatter<'_>) -> String {
    let o = f.options();
    format!("w{:?} p{:?} f{:?} a{} +{} -{} #{} 0{} s{:?} h{:?} al{:?}", f.width(), f.precision(), f.fill(), match f.align() { Some(Alignment::Left) => 1, Some(Alignment::Right) => 2, Some(Alignment::Center) => 3, None => 0 },
        f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad(), o.get_sign(), o.get_debug_as_hex(), o.get_align().is_some())
}
fn out<const K: u32>(t: &str, p: &Pm<K>, f: &mut Formatter<'_>) -> fmt::Result {
    call!("{t} {K} {} {}", p.0, spec(f));
    match choose(9) {
        0 => return Err(fmt::Error),
        1 => f.pad(&format!("{t}{}", p.0))?,
        2 => f.pad_integral(p.0 % 2 == 0, "0q", &p.0.to_string())?,
        3 => { f.write_str("a")?; f.write_char('é')?; write!(f, "{:>5}|", p.0)? }
        4 => return f.debug_struct("P").field("x", &p.0).finish_non_exhaustive(),
        5 => return f.debug_list().entries([p.0, 1]).finish(),
        6 => fmt::Display::fmt(&p.0, f)?,
        _ => fmt::LowerHex::fmt(&p.0, f)?,
    }
    if choose(8) == 0 { return Err(fmt::Error); }
    f.write_str(t)
}
macro_rules! imp { ($($t:ident),*) => { $(impl<const K: u32> fmt::$t for Pm<K> { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { out(stringify!($t), self, f) } })* } }
imp!(Debug, Display, Binary, LowerHex, UpperHex, Octal, LowerExp, UpperExp, Pointer);

/// A sink that logs what reaches it and fails after a while.
struct Sink(i64);
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result { ev!("sink {s:?}"); self.0 -= 1; if self.0 < 0 { Err(fmt::Error) } else { Ok(()) } }
    fn write_char(&mut self, c: char) -> fmt::Result { ev!("sinkc {c:?}"); self.0 -= 1; if self.0 < 0 { Err(fmt::Error) } else { Ok(()) } }
}
fn opts(r: &mut Rng) -> FormattingOptions {
    let mut o = FormattingOptions::new();
    o.sign([None, None, Some(Sign::Plus), Some(Sign::Minus)][r.u(4)]);
    o.sign_aware_zero_pad(r.b(1, 4)).alternate(r.b(1, 3)).fill([' ', '0', '*', 'é', '→'][r.u(5)]);
    o.align([None, Some(Alignment::Left), Some(Alignment::Right), Some(Alignment::Center)][r.u(4)]);
    o.width([None, None, Some(0), Some(3), Some(14)][r.u(5)]).precision([None, None, Some(0), Some(2), Some(9)][r.u(5)]);
    o.debug_as_hex([None, None, Some(DebugAsHex::Lower), Some(DebugAsHex::Upper)][r.u(4)]);
    o
}
fn with(r: &mut Rng, what: &str, f: impl Fn(&mut Formatter<'_>) -> fmt::Result) {
    let o = opts(r);
    let mut s = Sink(if r.b(1, 4) { r.n(5) as i64 } else { 1000 });
    let e = f(&mut o.create_formatter(&mut s));
    ev!("={what} {e:?}");
}
// what a failing format! does is a panic of its own; write! reports it
macro_rules! lit { ($r:ident, $t:ident, $($f:literal),*) => {{ let k = $r.u([$($f),*].len()); let mut i = 0; $( if i == k { let mut s = String::new(); let e = write!(s, $f, $t); ev!("=lit {e:?} {s:?}"); } i += 1; )* }} }
macro_rules! drv { ($n:ident: $($t:ident)+: $($f:literal),*) => {
    pub fn $n<T: $(fmt::$t +)+>(t: T, r: &mut Rng) {
        for _ in 0..1 + r.n(4) {
            let mut k = r.n(10);
            $( if k == 0 { with(r, stringify!($t), |f| fmt::$t::fmt(&t, f)); } k = k.wrapping_sub(1); )+
            if k < 1 << 60 { if r.b(1, 2) { with(r, "one", |f| one!(f, &t, $($t)+)); } else { lit!(r, t, $($f),*) } }
        }
    }
} }
macro_rules! one { ($f:ident, $t:expr, $a:ident $($b:ident)*) => { fmt::$a::fmt($t, $f) } }
drv!(drive_all: Debug Display Binary LowerHex UpperHex Octal LowerExp UpperExp Pointer: "{}", "{:?}", "{:#?}", "{:>+12.3}", "{:#x}", "{:08X}", "{:^#20b}", "{:#o}", "{:e}", "{:+.2E}", "{:p}", "{:#020p}", "{:x?}", "{:#X?}", "{:é<9}");
drv!(drive_num: Debug Display Binary LowerHex UpperHex Octal LowerExp UpperExp: "{}", "{:?}", "{:#?}", "{:>+12.3}", "{:#x}", "{:08X}", "{:^#20b}", "{:#o}", "{:e}", "{:+.2E}", "{:x?}", "{:#X?}", "{:é<9}");
drv!(drive_ptr: Pointer: "{:p}", "{:#p}", "{:20p}", "{:#025p}", "{:<20p}|");
drv!(drive_dbg: Debug: "{:?}", "{:#?}", "{:x?}", "{:#X?}", "{:5?}", "{:08.3?}", "{:>+9?}");
drv!(drive_dsp: Display: "{}", "{:9}", "{:<9}|", "{:+}", "{:^12.2}", "{:08}", "{:#}");
drv!(drive_dd: Debug Display: "{}", "{:?}", "{:#?}", "{:>+12.3}", "{:é<9}");
drv!(drive_bin: Binary: "{:b}", "{:#b}", "{:012b}");
drv!(drive_lhex: LowerHex: "{:x}", "{:#x}", "{:012x}");
drv!(drive_uhex: UpperHex: "{:X}", "{:#X}", "{:012X}");
drv!(drive_oct: Octal: "{:o}", "{:#o}", "{:012o}");
drv!(drive_lexp: LowerExp: "{:e}", "{:+e}", "{:012.3e}");
drv!(drive_uexp: UpperExp: "{:E}", "{:+E}", "{:012.3E}");

pub struct Wm<const K: u32>(String, Guard);
pub fn w<const K: u32>(_: &mut Rng) -> Wm<K> { Wm(String::new(), Guard::new(K)) }
fn fres() -> fmt::Result { if choose(6) == 0 { Err(fmt::Error) } else { Ok(()) } }
impl<const K: u32> fmt::Write for Wm<K> {
    fn write_str(&mut self, s: &str) -> fmt::Result { call!("write_str {K} {s:?}"); self.0 += s; fres() }
    fn write_char(&mut self, c: char) -> fmt::Result { call!("write_char {K} {c:?} {}", self.0); self.0.push(c); fres() }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> fmt::Result { call!("write_fmt {K} {:?} {}", a.as_str(), self.0); self.0 += &a.to_string(); fres() }
}
/// Only write_str; the other methods are the trait's defaults.
pub struct Vm<const K: u32>(u32, Guard);
pub fn v<const K: u32>(_: &mut Rng) -> Vm<K> { Vm(0, Guard::new(K)) }
impl<const K: u32> fmt::Write for Vm<K> { fn write_str(&mut self, s: &str) -> fmt::Result { call!("write_str {K} {s:?} {}", self.0); self.0 += 1; fres() } }
pub fn drive_write<T: fmt::Write>(mut t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(5) {
        let k = r.n(50);
        let e = match r.n(7) {
            0 => t.write_str(["", "ab", "é→"][r.u(3)]),
            1 => t.write_char(['x', 'é', '\0'][r.u(3)]),
            2 => write!(t, "lit"),
            3 => write!(t, "{k}-{:>5}", r.n(9)),
            4 => fmt::write(&mut t, format_args!("{k:?}{}", "z")),
            5 => writeln!(t, "{}", k),
            _ => { let d: &mut dyn fmt::Write = &mut t; d.write_fmt(format_args!("{k}")) }
        };
        ev!("=write {e:?}");
    }
}
