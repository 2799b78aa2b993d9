
// ---------------------------------------------------------------- serde
// A target (visitor, seed) is anything whose results are functions of what it is handed; errors are not told apart.
pub mod iter {
  #[verifier::external_body]
  #[verifier::accept_recursive_types(I)]
  pub struct Fuse<I> { i: I }
}
pub uninterp spec fn fused<I, X>(f: iter::Fuse<I>) -> Seq<X>;
pub trait Iterator: Sized {
  type Item: DV;
  spec fn items(&self) -> Seq<<Self::Item as DV>::S>;
  fn next(&mut self) -> (r: Option<Self::Item>)
    ensures (match r { Some(x) => old(self).items().len() > 0 && x.dv() == old(self).items()[0] && final(self).items() == old(self).items().skip(1),
                       None => old(self).items().len() == 0 && final(self).items() == old(self).items() });
  fn count(self) -> (r: usize) ensures r == self.items().len();
  fn fuse(self) -> (r: iter::Fuse<Self>) ensures fused::<Self, <Self::Item as DV>::S>(r) == self.items();
}
impl<I: Iterator> Iterator for iter::Fuse<I> {
  type Item = I::Item;
  open spec fn items(&self) -> Seq<<I::Item as DV>::S> { fused(*self) }
  #[verifier::external_body] fn next(&mut self) -> (r: Option<I::Item>) { unimplemented!() }
  #[verifier::external_body] fn count(self) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] fn fuse(self) -> (r: iter::Fuse<Self>) { unimplemented!() }
}
impl<T: DV> Iterator for It<T> {
  type Item = T;
  open spec fn items(&self) -> Seq<T::S> { self@ }
  #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
  #[verifier::external_body] fn count(self) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] fn fuse(self) -> (r: iter::Fuse<Self>) { unimplemented!() }
}
/// the order in which a HashMap is iterated over, which is not specified
pub uninterp spec fn hm_seq<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
/// a collection in memory
pub broadcast axiom fn ax_vec_len<T: DV>(v: Vec<T>) ensures (#[trigger] v@).len() <= isize::MAX;
impl<K: DV, V: DV> HashMap<K, V> {
  #[verifier::external_body]
  pub fn iter<'a>(&'a self) -> (r: It<(&'a K, &'a V)>) ensures r@ == hm_seq(self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
}
/// text before the first c
pub open spec fn before_(s: Seq<char>, c: char) -> Seq<char> { if s.contains(c) { s.take(s.index_of_first(c)->Some_0) } else { s } }
/// what a str can be searched for
pub trait Pat_ { spec fn pat(&self) -> Seq<char>; }
impl Pat_ for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl Pat_ for &str { open spec fn pat(&self) -> Seq<char> { self@ } }
pub open spec fn is_prefix_(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn is_suffix_(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub trait StrX {
  spec fn txt(&self) -> Seq<char>;
  fn split_once_(&self, c: char) -> (r: Option<(&str, &str)>)
    ensures (match r { Some((a, b)) => self.txt().contains(c) && a@ == before_(self.txt(), c) && b@ == self.txt().skip(a@.len() as int + 1), None => !self.txt().contains(c) });
  fn rsplit_once_(&self, c: char) -> (r: Option<(&str, &str)>)
    ensures (match r { Some((a, b)) => a@ + seq![c] + b@ == self.txt() && !b@.contains(c), None => !self.txt().contains(c) });
  fn split_first_(&self, c: char) -> (r: Option<&str>) ensures r is Some, r->Some_0@ == before_(self.txt(), c);
  fn starts_with_<P: Pat_>(&self, p: P) -> (r: bool) ensures r == is_prefix_(p.pat(), self.txt());
  fn ends_with_<P: Pat_>(&self, p: P) -> (r: bool) ensures r == is_suffix_(p.pat(), self.txt());
  fn strip_prefix_<P: Pat_>(&self, p: P) -> (r: Option<&str>)
    ensures (match r { Some(a) => is_prefix_(p.pat(), self.txt()) && a@ == self.txt().skip(p.pat().len() as int), None => !is_prefix_(p.pat(), self.txt()) });
  fn strip_suffix_<P: Pat_>(&self, p: P) -> (r: Option<&str>)
    ensures (match r { Some(a) => is_suffix_(p.pat(), self.txt()) && a@ == self.txt().take(self.txt().len() - p.pat().len()), None => !is_suffix_(p.pat(), self.txt()) });
}
impl StrX for str {
  open spec fn txt(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn split_once_(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
  #[verifier::external_body] fn rsplit_once_(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
  #[verifier::external_body] fn split_first_(&self, c: char) -> (r: Option<&str>) { unimplemented!() }
  #[verifier::external_body] fn starts_with_<P: Pat_>(&self, p: P) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn ends_with_<P: Pat_>(&self, p: P) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn strip_prefix_<P: Pat_>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
  #[verifier::external_body] fn strip_suffix_<P: Pat_>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
}
#[verifier::external_body]
pub struct String { s: u8 }
impl String { pub uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn dec_text(d: rust_decimal::Decimal) -> Seq<char>;
impl rust_decimal::Decimal {
  #[verifier::external_body]
  pub fn to_string_(&self) -> (r: String) ensures r@ == dec_text(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn formatted_() -> (r: String) { unimplemented!() }

/// what serde hands on: Some of the value or None for an error
pub open spec fn rv<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }

pub mod serde {
pub use super::serde::de::{Deserialize, Deserializer};
pub mod de {
  use vstd::prelude::*;
  use crate::prelude::{DV, rv, String, Vec};
  use crate::spec::{SV, SMsg, Text};
  pub enum Unexpected<'a> { Other(&'a str), Map, Seq, Unit, Option, Enum, StructVariant, TupleVariant, NewtypeStruct, NewtypeVariant, UnitVariant, Bool(bool), Unsigned(u64), Signed(i64), Float(f64), Char(char), Str(&'a str), Bytes(&'a [u8]) }
  pub trait Error: Sized {
    fn custom<T>(m: T) -> Self;
    fn invalid_length<T>(n: usize, e: &T) -> Self;
    fn invalid_type<'a, T>(u: Unexpected<'a>, e: &T) -> Self;
    fn invalid_value<'a, T>(u: Unexpected<'a>, e: &T) -> Self;
  }
  pub mod value {
    use super::*;
    #[verifier::external_body]
    pub struct Error { e: u8 }
    impl super::Error for Error {
      #[verifier::external_body] fn custom<T>(m: T) -> Self { unimplemented!() }
      #[verifier::external_body] fn invalid_length<T>(n: usize, e: &T) -> Self { unimplemented!() }
      #[verifier::external_body] fn invalid_type<'a, T>(u: Unexpected<'a>, e: &T) -> Self { unimplemented!() }
      #[verifier::external_body] fn invalid_value<'a, T>(u: Unexpected<'a>, e: &T) -> Self { unimplemented!() }
    }
    /// serde's deserializer of a borrowed string
    pub struct BorrowedStrDeserializer<'de, E> { pub s: &'de str, pub e: core::marker::PhantomData<E> }
    impl<'de, E> BorrowedStrDeserializer<'de, E> {
      #[verifier::external_body]
      pub fn new(s: &'de str) -> (r: Self) ensures r.s == s { unimplemented!() }
    }
    /// serde's deserializer of the entries of a map
    #[verifier::external_body]
    pub struct MapDeserializer { m: u8 }
    impl MapDeserializer {
      pub uninterp spec fn entries(&self) -> Seq<(Text, SV)>;
      #[verifier::external_body]
      pub fn new<K: DV<S = Text>, X: DV<S = SV>>(e: Vec<(K, X)>) -> (r: Self) ensures r.entries() == e@ { unimplemented!() }
      #[verifier::external_body]
      pub fn deserialize_map<'de, V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Error>) ensures rv(r) == v.on_map(self.entries()) { unimplemented!() }
      #[verifier::external_body]
      pub fn deserialize_any<'de, V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Error>) ensures rv(r) == v.on_map(self.entries()) { unimplemented!() }
    }
  }
  pub trait Deserializer {}
  pub trait IntoDeserializer {}
  pub trait Expected {}
  /// A target.
  pub trait Visitor<'de>: Sized {
    type Value;
    spec fn on_bool(self, v: bool) -> Option<Self::Value>;
    spec fn on_i8(self, v: i8) -> Option<Self::Value>;
    spec fn on_i16(self, v: i16) -> Option<Self::Value>;
    spec fn on_i32(self, v: i32) -> Option<Self::Value>;
    spec fn on_i64(self, v: i64) -> Option<Self::Value>;
    spec fn on_i128(self, v: i128) -> Option<Self::Value>;
    spec fn on_u8(self, v: u8) -> Option<Self::Value>;
    spec fn on_u16(self, v: u16) -> Option<Self::Value>;
    spec fn on_u32(self, v: u32) -> Option<Self::Value>;
    spec fn on_u64(self, v: u64) -> Option<Self::Value>;
    spec fn on_u128(self, v: u128) -> Option<Self::Value>;
    spec fn on_f32(self, v: f32) -> Option<Self::Value>;
    spec fn on_f64(self, v: f64) -> Option<Self::Value>;
    spec fn on_char(self, v: u32) -> Option<Self::Value>;
    spec fn on_str(self, v: Text) -> Option<Self::Value>;
    spec fn on_string(self, v: Text) -> Option<Self::Value>;
    spec fn on_borrowed(self, v: Text) -> Option<Self::Value>;
    spec fn on_bytes(self, v: Seq<u8>) -> Option<Self::Value>;
    spec fn on_unit(self) -> Option<Self::Value>;
    spec fn on_none(self) -> Option<Self::Value>;
    spec fn on_some(self, v: SV) -> Option<Self::Value>;
    spec fn on_newtype(self, v: SV) -> Option<Self::Value>;
    spec fn on_map(self, v: Seq<(Text, SV)>) -> Option<Self::Value>;
    /// the result for a sequence, and how many of its elements the target takes
    spec fn on_seq(self, v: Seq<SV>) -> Option<Self::Value>;
    spec fn takes(self, v: Seq<SV>) -> nat;
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_bool(v);
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_i8(v);
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_i16(v);
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_i32(v);
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_i64(v);
    fn visit_i128(self, v: i128) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_i128(v);
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_u8(v);
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_u16(v);
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_u32(v);
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_u64(v);
    fn visit_u128(self, v: u128) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_u128(v);
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_f32(v);
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_f64(v);
    fn visit_char(self, v: char) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_char(v as u32);
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_str(v@);
    fn visit_string(self, v: String) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_string(v@);
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_borrowed(v@);
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_bytes(v@);
    fn visit_unit(self) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_unit();
    fn visit_none(self) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_none();
    fn visit_some<'o>(self, d: crate::value::ValueDeserializer<'de, 'o>) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_some(d.dv());
    fn visit_newtype_struct<'o>(self, d: crate::value::ValueDeserializer<'de, 'o>) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on_newtype(d.dv());
    fn visit_seq<A: SeqAccess<'de>>(self, seq: &mut A) -> (r: Result<Self::Value, value::Error>)
      requires old(seq).inv(),
      ensures rv(r) == self.on_seq(old(seq).items()), self.takes(old(seq).items()) <= old(seq).items().len(),
        final(seq).inv(), final(seq).fixed() == old(seq).fixed(), final(seq).items() == old(seq).items().skip(self.takes(old(seq).items()) as int);
  }
  /// A target for one element.
  pub trait DeserializeSeed<'de>: Sized {
    type Value;
    spec fn on(self, v: SV) -> Option<Self::Value>;
    fn deserialize<'o>(self, d: crate::value::ValueDeserializer<'de, 'o>) -> (r: Result<Self::Value, value::Error>) ensures rv(r) == self.on(d.dv());
  }
  /// What a target takes elements from: always the next one, until there are none left.
  pub trait SeqAccess<'de>: Sized {
    spec fn items(&self) -> Seq<SV>;
    spec fn inv(&self) -> bool;
    /// what does not change while elements are taken
    spec fn fixed(&self) -> (int, int);
    fn next_element_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> (r: Result<Option<V::Value>, value::Error>)
      requires old(self).inv(),
      ensures final(self).inv(), final(self).fixed() == old(self).fixed(),
        old(self).items().len() == 0 ==> r is Ok && r->Ok_0 is None && final(self).items() == old(self).items(),
        old(self).items().len() > 0 ==> final(self).items() == old(self).items().skip(1)
          && (match r { Ok(x) => x is Some && seed.on(old(self).items()[0]) == x, Err(_) => seed.on(old(self).items()[0]) is None });
  }
  /// A type that a message is deserialized into.
  pub trait Deserialize<'de>: Sized {
    spec fn on_msg(m: SMsg) -> Option<Self>;
    fn deserialize(m: crate::RemotingMessage<'de>) -> (r: Result<Self, value::Error>) ensures rv(r) == Self::on_msg(m.dv());
  }
}
}
