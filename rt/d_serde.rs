// C10: a serializer that records every call, fails now and then, and counts.
use serde::ser::{self, Serialize, Serializer};
#[derive(Debug)]
pub struct Er(String);
impl std::fmt::Display for Er { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Er {}
impl ser::Error for Er { fn custom<T: std::fmt::Display>(t: T) -> Er { ev!("custom {t}"); Er(format!("custom {t}")) } }
pub struct Rec { human: bool, depth: u32 }
fn step(s: String) -> Result<u32, Er> { ev!("{s}"); if choose(25) == 0 { ev!("sererr"); Err(Er(format!("at {s}"))) } else { Ok(s.len() as u32) } }
macro_rules! prim { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<u32, Er> { step(format!("{} {v:?}", stringify!($f))) })* } }
pub struct Sub { n: u32, human: bool, depth: u32 }
impl Rec { fn sub(self, s: String) -> Result<Sub, Er> { step(s)?; Ok(Sub { n: 0, human: self.human, depth: self.depth + 1 }) } fn down(&self) -> Rec { Rec { human: self.human, depth: self.depth + 1 } } }
impl Sub { fn item<T: ?Sized + Serialize>(&mut self, k: String, t: &T) -> Result<(), Er> { step(k)?; self.n += t.serialize(Rec { human: self.human, depth: self.depth })?; Ok(()) } fn fin(self) -> Result<u32, Er> { step(format!("end {}", self.n)).map(|x| x + self.n) } }
impl Serializer for Rec {
    type Ok = u32; type Error = Er;
    type SerializeSeq = Sub; type SerializeTuple = Sub; type SerializeTupleStruct = Sub; type SerializeTupleVariant = Sub; type SerializeMap = Sub; type SerializeStruct = Sub; type SerializeStructVariant = Sub;
    prim!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8]);
    fn serialize_none(self) -> Result<u32, Er> { step("none".into()) }
    fn serialize_some<T: ?Sized + Serialize>(self, t: &T) -> Result<u32, Er> { step("some".into())?; t.serialize(self.down()) }
    fn serialize_unit(self) -> Result<u32, Er> { step("unit".into()) }
    fn serialize_unit_struct(self, n: &'static str) -> Result<u32, Er> { step(format!("unit_struct {n}")) }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<u32, Er> { step(format!("unit_variant {n} {i} {v}")) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, t: &T) -> Result<u32, Er> { step(format!("newtype_struct {n}"))?; t.serialize(self.down()) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, v: &'static str, t: &T) -> Result<u32, Er> { step(format!("newtype_variant {n} {i} {v}"))?; t.serialize(self.down()) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Sub, Er> { self.sub(format!("seq {n:?}")) }
    fn serialize_tuple(self, n: usize) -> Result<Sub, Er> { self.sub(format!("tuple {n}")) }
    fn serialize_tuple_struct(self, s: &'static str, n: usize) -> Result<Sub, Er> { self.sub(format!("tuple_struct {s} {n}")) }
    fn serialize_tuple_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Sub, Er> { self.sub(format!("tuple_variant {s} {i} {v} {n}")) }
    fn serialize_map(self, n: Option<usize>) -> Result<Sub, Er> { self.sub(format!("map {n:?}")) }
    fn serialize_struct(self, s: &'static str, n: usize) -> Result<Sub, Er> { self.sub(format!("struct {s} {n}")) }
    fn serialize_struct_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Sub, Er> { self.sub(format!("struct_variant {s} {i} {v} {n}")) }
    fn collect_str<T: ?Sized + std::fmt::Display>(self, t: &T) -> Result<u32, Er> { step(format!("collect_str {t}")) }
    fn collect_seq<I: IntoIterator>(self, i: I) -> Result<u32, Er> where I::Item: Serialize { ev!("collect_seq"); let mut s = self.serialize_seq(None)?; for x in i { s.item("e".into(), &x)?; } s.fin() }
    fn is_human_readable(&self) -> bool { ev!("is_human_readable"); self.human }
}
macro_rules! sub { ($($t:ident $f:ident),*) => { $(impl ser::$t for Sub { type Ok = u32; type Error = Er; fn $f<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Er> { self.item(stringify!($f).into(), t) } fn end(self) -> Result<u32, Er> { self.fin() } })* } }
sub!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for Sub { type Ok = u32; type Error = Er; fn serialize_key<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Er> { self.item("key".into(), t) } fn serialize_value<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Er> { self.item("value".into(), t) } fn end(self) -> Result<u32, Er> { self.fin() } }
macro_rules! subs { ($($t:ident),*) => { $(impl ser::$t for Sub { type Ok = u32; type Error = Er; fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, t: &T) -> Result<(), Er> { self.item(format!("field {k}"), t) } fn skip_field(&mut self, k: &'static str) -> Result<(), Er> { step(format!("skip {k}")).map(|_| ()) } fn end(self) -> Result<u32, Er> { self.fin() } })* } }
subs!(SerializeStruct, SerializeStructVariant);

pub struct Se<const K: u32> { n: u32, k: u64, g: Guard }
pub fn se<const K: u32>(r: &mut Rng) -> Se<K> { Se { n: r.n(99) as u32, k: r.n(14), g: Guard::new(K) } }
impl<const K: u32> Serialize for Se<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        call!("serialize {K} {} {}", self.n, std::any::type_name::<S>());
        use ser::*;
        match self.k {
            0 => s.serialize_u32(self.n),
            1 => { let h = s.is_human_readable(); s.serialize_bool(h) }
            2 => s.collect_str(&format_args!("c{}", self.n)),
            3 => s.serialize_newtype_variant("N", 4, "V", &(self.n as u8, "x")),
            4 => { let mut t = s.serialize_struct("St", 2)?; t.serialize_field("a", &self.n)?; t.skip_field("b")?; t.end() }
            5 => { let mut t = s.serialize_map(None)?; t.serialize_entry("k", &self.n)?; t.serialize_entry(&1u8, &Some(2.5f32))?; t.end() }
            6 => { let mut t = s.serialize_struct_variant("Sv", 7, "Vv", 1)?; t.serialize_field("z", &[1u8, 2])?; t.end() }
            7 => { let mut t = s.serialize_tuple_variant("Tv", 2, "Q", 1)?; t.serialize_field(&self.n)?; t.end() }
            8 => s.serialize_unit_variant("U", 3, "W"),
            9 => s.serialize_newtype_struct("Nt", &None::<u8>),
            10 => s.collect_seq([self.n, 7]),
            11 => Err(S::Error::custom(format!("mock {}", self.n))),
            12 => s.serialize_bytes(&[1, 2, self.n as u8]),
            _ => s.serialize_i128(-(self.n as i128)),
        }
    }
}
pub fn drive_ser<T: Serialize>(t: T, r: &mut Rng) {
    for _ in 0..1 + r.n(3) {
        let h = r.b(1, 2);
        let rec = || Rec { human: h, depth: 0 };
        match r.n(4) {
            0 => ev!("=vec {:?}", [&t, &t].serialize(rec())),
            1 => ev!("=opt {:?}", Some((&t, 5u8)).serialize(rec())),
            2 => { let mut m = std::collections::BTreeMap::new(); m.insert("k", &t); ev!("=map {:?}", m.serialize(rec())) }
            _ => ev!("=plain {:?}", t.serialize(rec())),
        }
    }
}
