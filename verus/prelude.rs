// Models of the library types and operations that the extracted functions use.  Everything in this module is
// trusted: it states what std, nom, bitflags and rust_decimal provide.  Collections are opaque and known only
// through their view, a sequence, set or map of the views of their elements.
global size_of usize == 8;
pub mod prelude {
pub use vstd::prelude::*;

/// The value that something stands for.
pub trait DV { type S; spec fn dv(&self) -> Self::S; }
/// Clone
pub trait CloneX: Sized { fn clone_x(&self) -> (r: Self) ensures r == *self; }

impl<T: ?Sized + DV> DV for &T { type S = T::S; open spec fn dv(&self) -> T::S { (**self).dv() } }
impl<A: DV, B: DV> DV for (A, B) { type S = (A::S, B::S); open spec fn dv(&self) -> (A::S, B::S) { (self.0.dv(), self.1.dv()) } }
impl<A: DV> DV for Option<A> { type S = Option<A::S>; open spec fn dv(&self) -> Option<A::S> { match self { Some(x) => Some(x.dv()), None => None } } }
impl DV for str { type S = Seq<char>; open spec fn dv(&self) -> Seq<char> { self@ } }
impl DV for () { type S = (); open spec fn dv(&self) -> () { () } }
impl DV for u8 { type S = u8; open spec fn dv(&self) -> u8 { *self } }
impl DV for u16 { type S = u16; open spec fn dv(&self) -> u16 { *self } }
impl DV for u32 { type S = u32; open spec fn dv(&self) -> u32 { *self } }
impl DV for u64 { type S = u64; open spec fn dv(&self) -> u64 { *self } }
impl DV for usize { type S = usize; open spec fn dv(&self) -> usize { *self } }
impl DV for i8 { type S = i8; open spec fn dv(&self) -> i8 { *self } }
impl DV for i16 { type S = i16; open spec fn dv(&self) -> i16 { *self } }
impl DV for i32 { type S = i32; open spec fn dv(&self) -> i32 { *self } }
impl DV for i64 { type S = i64; open spec fn dv(&self) -> i64 { *self } }
impl DV for bool { type S = bool; open spec fn dv(&self) -> bool { *self } }
impl DV for char { type S = char; open spec fn dv(&self) -> char { *self } }

/// For running the extracted text (selftest/exec.py) only: bytes that identify a value of the types that are compared or used
/// as keys, in the order of the values. No contract refers to it.
#[verifier::external]
pub fn key_<T: ?Sized>(x: &T) -> std::vec::Vec<u8> {
  let n = core::any::type_name::<T>();
  let t = n.trim_start_matches('&').rsplit("::").next().unwrap();
  let p = x as *const T as *const u8;
  unsafe {
    match (t, n.starts_with('&')) {
      ("str", false) => core::slice::from_raw_parts(p, core::mem::size_of_val(x)).into(),
      ("str", true) | ("LengthPrefixedString", false) | ("LengthPrefixedString<'_>", false) => (*(p as *const &str)).as_bytes().into(),
      ("LengthPrefixedString", true) | ("LengthPrefixedString<'_>", true) => (**(p as *const &&str)).as_bytes().into(),
      ("NonZeroU32>", false) if n.starts_with("core::option::Option<") => match *(p as *const Option<NonZeroU32>) { Some(x) => key_(&x), None => std::vec::Vec::new() },
      ("Option<&str>", false) => match *(p as *const Option<&str>) { Some(x) => [&[1], x.as_bytes()].concat(), None => std::vec::Vec::new() },
      ("NonZeroU32", false) => (*(p as *const u32)).to_be_bytes().to_vec(),
      ("NonZeroU32", true) => (**(p as *const &u32)).to_be_bytes().to_vec(),
      (t, false) if t.ends_with("Type") && core::mem::size_of_val(x) == 1 => std::vec![*p],
      _ => panic!("key of {n}"),
    }
  }
}
/// `==` of values whose equality is equality of what they stand for
#[verifier::external_body]
pub fn eq_<A: ?Sized + DV, B: ?Sized + DV<S = A::S>>(a: &A, b: &B) -> (r: bool) ensures r == (a.dv() == b.dv()) { key_(a) == key_(b) }

#[verifier::external_body]
pub fn unreachable_() -> ! requires false { core::unreachable!() }

// ---------------------------------------------------------------- conversions
pub trait From_<A>: Sized { spec fn from_spec(a: A) -> Self; fn from_(a: A) -> (r: Self) ensures r == Self::from_spec(a); }
pub fn conv_<A, B: From_<A>>(a: A) -> (r: B) ensures r == B::from_spec(a) { B::from_(a) }
pub struct TryFromIntError {}
pub trait TryFrom_<A>: Sized { spec fn try_spec(a: A) -> Option<Self>; fn try_from_(a: A) -> (r: Result<Self, TryFromIntError>) ensures r is Ok <==> Self::try_spec(a) is Some, r is Ok ==> Self::try_spec(a) == Some(r->Ok_0); }
pub fn try_conv_<A, B: TryFrom_<A>>(a: A) -> (r: Result<B, TryFromIntError>) ensures r is Ok <==> B::try_spec(a) is Some, r is Ok ==> B::try_spec(a) == Some(r->Ok_0) { B::try_from_(a) }
impl TryFrom_<i32> for u32 {
  open spec fn try_spec(a: i32) -> Option<u32> { if a >= 0 { Some(a as u32) } else { None } }
  fn try_from_(a: i32) -> (r: Result<u32, TryFromIntError>) { if a >= 0 { Ok(a as u32) } else { Err(TryFromIntError {}) } }
}
impl TryFrom_<i32> for usize {
  open spec fn try_spec(a: i32) -> Option<usize> { if a >= 0 { Some(a as usize) } else { None } }
  fn try_from_(a: i32) -> (r: Result<usize, TryFromIntError>) { if a >= 0 { Ok(a as usize) } else { Err(TryFromIntError {}) } }
}
impl TryFrom_<u32> for usize {
  open spec fn try_spec(a: u32) -> Option<usize> { Some(a as usize) }
  fn try_from_(a: u32) -> (r: Result<usize, TryFromIntError>) { Ok(a as usize) }
}
impl From_<bool> for usize {
  open spec fn from_spec(a: bool) -> usize { if a { 1 } else { 0 } }
  fn from_(a: bool) -> (r: usize) { if a { 1 } else { 0 } }
}
impl From_<bool> for u8 {
  open spec fn from_spec(a: bool) -> u8 { if a { 1 } else { 0 } }
  fn from_(a: bool) -> (r: u8) { if a { 1 } else { 0 } }
}
impl From_<bool> for i32 {
  open spec fn from_spec(a: bool) -> i32 { if a { 1 } else { 0 } }
  fn from_(a: bool) -> (r: i32) { if a { 1 } else { 0 } }
}
pub assume_specification<T, E>[Option::<Result<T, E>>::transpose](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
  ensures r == (match o { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub assume_specification[i32::unsigned_abs](a: i32) -> (r: u32) ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification[i32::abs](a: i32) -> (r: i32) requires a != i32::MIN ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification[i32::wrapping_abs](a: i32) -> (r: i32) ensures r == (if a == i32::MIN { a as int } else if a < 0 { -a } else { a as int });
pub assume_specification[i32::checked_abs](a: i32) -> (r: Option<i32>) ensures r is None <==> a == i32::MIN, r is Some ==> r->Some_0 == (if a < 0 { -a } else { a as int });
pub assume_specification[i32::checked_neg](a: i32) -> (r: Option<i32>) ensures r is None <==> a == i32::MIN, r is Some ==> r->Some_0 == -a;
pub assume_specification[i32::wrapping_neg](a: i32) -> (r: i32) ensures r == (if a == i32::MIN { a as int } else { -a });
pub assume_specification[i32::signum](a: i32) -> (r: i32) ensures r == (if a < 0 { -1int } else if a > 0 { 1 } else { 0 });
pub assume_specification[i32::is_negative](a: i32) -> (r: bool) ensures r == (a < 0);
pub assume_specification[i32::is_positive](a: i32) -> (r: bool) ensures r == (a > 0);
pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification[usize::overflowing_mul](a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a * b > usize::MAX), r.0 as int == (a * b) % (usize::MAX + 1);
pub assume_specification[usize::overflowing_add](a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a + b > usize::MAX), r.0 as int == (a + b) % (usize::MAX + 1);
pub assume_specification[usize::overflowing_sub](a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a < b), r.0 == (if a < b { a - b + usize::MAX + 1 } else { a - b });
impl From_<u8> for usize {
  open spec fn from_spec(a: u8) -> usize { a as usize }
  fn from_(a: u8) -> (r: usize) { a as usize }
}
impl From_<u16> for usize {
  open spec fn from_spec(a: u16) -> usize { a as usize }
  fn from_(a: u16) -> (r: usize) { a as usize }
}
impl From_<u8> for u32 {
  open spec fn from_spec(a: u8) -> u32 { a as u32 }
  fn from_(a: u8) -> (r: u32) { a as u32 }
}
impl From_<u32> for u64 {
  open spec fn from_spec(a: u32) -> u64 { a as u64 }
  fn from_(a: u32) -> (r: u64) { a as u64 }
}
impl From_<i32> for i64 {
  open spec fn from_spec(a: i32) -> i64 { a as i64 }
  fn from_(a: i32) -> (r: i64) { a as i64 }
}
impl TryFrom_<i64> for usize {
  open spec fn try_spec(a: i64) -> Option<usize> { if a >= 0 { Some(a as usize) } else { None } }
  fn try_from_(a: i64) -> (r: Result<usize, TryFromIntError>) { if a >= 0 { Ok(a as usize) } else { Err(TryFromIntError {}) } }
}
impl TryFrom_<u64> for usize {
  open spec fn try_spec(a: u64) -> Option<usize> { Some(a as usize) }
  fn try_from_(a: u64) -> (r: Result<usize, TryFromIntError>) { Ok(a as usize) }
}
impl TryFrom_<usize> for u32 {
  open spec fn try_spec(a: usize) -> Option<u32> { if a <= u32::MAX { Some(a as u32) } else { None } }
  fn try_from_(a: usize) -> (r: Result<u32, TryFromIntError>) { if a <= u32::MAX as usize { Ok(a as u32) } else { Err(TryFromIntError {}) } }
}
impl TryFrom_<i32> for u8 {
  open spec fn try_spec(a: i32) -> Option<u8> { if 0 <= a <= 255 { Some(a as u8) } else { None } }
  fn try_from_(a: i32) -> (r: Result<u8, TryFromIntError>) { if 0 <= a && a <= 255 { Ok(a as u8) } else { Err(TryFromIntError {}) } }
}
impl TryFrom_<i32> for u16 {
  open spec fn try_spec(a: i32) -> Option<u16> { if 0 <= a <= 65535 { Some(a as u16) } else { None } }
  fn try_from_(a: i32) -> (r: Result<u16, TryFromIntError>) { if 0 <= a && a <= 65535 { Ok(a as u16) } else { Err(TryFromIntError {}) } }
}
impl TryFrom_<u32> for i32 {
  open spec fn try_spec(a: u32) -> Option<i32> { if a <= 0x7fff_ffff { Some(a as i32) } else { None } }
  fn try_from_(a: u32) -> (r: Result<i32, TryFromIntError>) { if a <= 0x7fff_ffff { Ok(a as i32) } else { Err(TryFromIntError {}) } }
}
/// Ord::min, Ord::max
pub trait MinMax_: Sized { spec fn le_(a: Self, b: Self) -> bool; fn leq_(a: &Self, b: &Self) -> (r: bool) ensures r == Self::le_(*a, *b); }
impl MinMax_ for usize { open spec fn le_(a: usize, b: usize) -> bool { a <= b } fn leq_(a: &usize, b: &usize) -> (r: bool) { *a <= *b } }
impl MinMax_ for u32 { open spec fn le_(a: u32, b: u32) -> bool { a <= b } fn leq_(a: &u32, b: &u32) -> (r: bool) { *a <= *b } }
impl MinMax_ for i32 { open spec fn le_(a: i32, b: i32) -> bool { a <= b } fn leq_(a: &i32, b: &i32) -> (r: bool) { *a <= *b } }
impl MinMax_ for u64 { open spec fn le_(a: u64, b: u64) -> bool { a <= b } fn leq_(a: &u64, b: &u64) -> (r: bool) { *a <= *b } }
impl MinMax_ for i64 { open spec fn le_(a: i64, b: i64) -> bool { a <= b } fn leq_(a: &i64, b: &i64) -> (r: bool) { *a <= *b } }
impl MinMax_ for u8 { open spec fn le_(a: u8, b: u8) -> bool { a <= b } fn leq_(a: &u8, b: &u8) -> (r: bool) { *a <= *b } }
impl MinMax_ for u16 { open spec fn le_(a: u16, b: u16) -> bool { a <= b } fn leq_(a: &u16, b: &u16) -> (r: bool) { *a <= *b } }
pub fn min_<A: MinMax_>(a: A, b: A) -> (r: A) ensures r == (if A::le_(a, b) { a } else { b }) { if A::leq_(&a, &b) { a } else { b } }
pub fn max_<A: MinMax_>(a: A, b: A) -> (r: A) ensures r == (if A::le_(a, b) { b } else { a }) { if A::leq_(&a, &b) { b } else { a } }
#[verifier::external_body]
pub fn mem_replace_<A>(a: &mut A, b: A) -> (r: A) ensures r == *old(a), *final(a) == b { core::mem::replace(a, b) }
#[verifier::external_body]
pub fn mem_swap_<A>(a: &mut A, b: &mut A) ensures *final(b) == *old(a), *final(a) == *old(b) { core::mem::swap(a, b) }
#[verifier::external_body]
pub fn mem_take_<A: DV>(a: &mut Vec<A>) -> (r: Vec<A>) ensures r == *old(a), final(a)@ == Seq::<A::S>::empty() { core::mem::replace(a, Vec::new()) }
/// A number of elements that fits into memory because that many exist already.
pub uninterp spec fn alloc_ok(n: usize) -> bool;
/// nom::ToUsize
pub trait ToUsize: Sized { spec fn tus(&self) -> usize; fn to_usize(&self) -> (r: usize) ensures r == self.tus(); }
impl ToUsize for u32 { open spec fn tus(&self) -> usize { *self as usize } fn to_usize(&self) -> (r: usize) { *self as usize } }
impl ToUsize for u16 { open spec fn tus(&self) -> usize { *self as usize } fn to_usize(&self) -> (r: usize) { *self as usize } }
impl ToUsize for u64 { open spec fn tus(&self) -> usize { *self as usize } fn to_usize(&self) -> (r: usize) { *self as usize } }
impl ToUsize for u8 { open spec fn tus(&self) -> usize { *self as usize } fn to_usize(&self) -> (r: usize) { *self as usize } }
impl ToUsize for usize { open spec fn tus(&self) -> usize { *self } fn to_usize(&self) -> (r: usize) { *self } }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NonZeroU32 { v: u32 }
impl NonZeroU32 {
  pub uninterp spec fn view(&self) -> u32;
  #[verifier::external_body]
  pub fn new(x: u32) -> (r: Option<NonZeroU32>) ensures match r { Some(n) => n@ == x && x != 0, None => x == 0 } { if x == 0 { None } else { Some(NonZeroU32 { v: x }) } }
  #[verifier::external_body]
  pub fn get(self) -> (r: u32) ensures r == self@, r != 0 { self.v }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for NonZeroU32 {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &NonZeroU32) -> bool { self@ == o@ }
}
impl PartialEq for NonZeroU32 { #[verifier::external_body] fn eq(&self, o: &NonZeroU32) -> bool { self.v == o.v } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NonZeroU32 {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &NonZeroU32) -> Option<core::cmp::Ordering> {
    if self@ < o@ { Some(core::cmp::Ordering::Less) } else if self@ == o@ { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
  }
}
impl PartialOrd for NonZeroU32 { #[verifier::external_body] fn partial_cmp(&self, o: &NonZeroU32) -> Option<core::cmp::Ordering> { self.v.partial_cmp(&o.v) } }
impl DV for NonZeroU32 { type S = u32; open spec fn dv(&self) -> u32 { self@ } }
impl CloneX for NonZeroU32 { #[verifier::external_body] fn clone_x(&self) -> (r: Self) { *self } }

// ---------------------------------------------------------------- collections
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Vec<T> { t: std::vec::Vec<T> }
impl<T: DV> Vec<T> {
  pub uninterp spec fn view(&self) -> Seq<T::S>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Seq::<T::S>::empty() { Vec { t: std::vec::Vec::new() } }
  #[verifier::external_body]
  pub fn with_capacity(n: usize) -> (r: Self) requires n <= 65536 || alloc_ok(n) ensures r@ == Seq::<T::S>::empty() { Vec { t: std::vec::Vec::with_capacity(n) } }
  #[verifier::external_body]
  pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x.dv()) { self.t.push(x) }
  #[verifier::external_body]
  pub fn pop(&mut self) -> (r: Option<T>) ensures (match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(x) => old(self)@.len() > 0 && x.dv() == old(self)@.last() && final(self)@ == old(self)@.drop_last() }) { self.t.pop() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len(), alloc_ok(r) { self.t.len() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@ == Seq::<T::S>::empty() { self.t.clear() }
  #[verifier::external_body]
  pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { self.t.truncate(n) }
  #[verifier::external_body]
  pub fn insert(&mut self, i: usize, x: T) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, x.dv()) { self.t.insert(i, x) }
  #[verifier::external_body]
  pub fn split_off(&mut self, i: usize) -> (r: Vec<T>) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.take(i as int), r@ == old(self)@.skip(i as int) { Vec { t: self.t.split_off(i) } }
  #[verifier::external_body]
  pub fn append(&mut self, o: &mut Vec<T>) ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T::S>::empty() { self.t.append(&mut o.t) }
  #[verifier::external_body]
  pub fn reverse(&mut self) ensures final(self)@ == old(self)@.reverse() { self.t.reverse() }
  #[verifier::external_body]
  pub fn last(&self) -> (r: Option<&T>) ensures (match r { Some(x) => 0 < self@.len() && x.dv() == self@.last(), None => self@.len() == 0 }) { self.t.last() }
  #[verifier::external_body]
  pub fn swap(&mut self, i: usize, j: usize) requires i < old(self)@.len(), j < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, old(self)@[j as int]).update(j as int, old(self)@[i as int]) { self.t.swap(i, j) }
  #[verifier::external_body]
  pub fn drain_from_(&mut self, a: usize) -> (r: It<T>)
    requires a <= old(self)@.len()
    ensures r@ == old(self)@.skip(a as int), final(self)@ == old(self)@.take(a as int) { It { t: self.t.split_off(a).into_iter() } }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.t.is_empty() }
  #[verifier::external_body]
  pub fn remove(&mut self, i: usize) -> (r: T) requires i < old(self)@.len() ensures final(self)@ == old(self)@.remove(i as int), r.dv() == old(self)@[i as int] { self.t.remove(i) }
  #[verifier::external_body]
  pub fn swap_remove(&mut self, i: usize) -> (r: T) requires i < old(self)@.len() ensures r.dv() == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, old(self)@.last()).drop_last() { self.t.swap_remove(i) }
  #[verifier::external_body]
  pub fn get(&self, i: usize) -> (r: Option<&T>) ensures (match r { Some(x) => i < self@.len() && x.dv() == self@[i as int], None => i >= self@.len() }) { self.t.get(i) }
  #[verifier::external_body]
  pub fn first(&self) -> (r: Option<&T>) ensures (match r { Some(x) => 0 < self@.len() && x.dv() == self@[0], None => self@.len() == 0 }) { self.t.first() }
  #[verifier::external_body]
  pub fn index_(&self, i: usize) -> (r: &T) requires i < self@.len() ensures r.dv() == self@[i as int] { &self.t[i] }
  #[verifier::external_body]
  pub fn iter<'a>(&'a self) -> (r: It<&'a T>) ensures r@ == self@ { It { t: self.t.iter().collect::<std::vec::Vec<_>>().into_iter() } }
  #[verifier::external_body]
  pub fn into_iter(self) -> (r: It<T>) ensures r@ == self@ { It { t: self.t.into_iter() } }
  #[verifier::external_body]
  pub fn into_iter_(self) -> (r: It<T>) ensures r@ == self@ { It { t: self.t.into_iter() } }
  #[verifier::external_body]
  pub fn drain_(&mut self, a: usize, b: usize) -> (r: It<T>)
    requires a <= b, b <= old(self)@.len()
    ensures r@ == old(self)@.subrange(a as int, b as int), final(self)@ == old(self)@.take(a as int) + old(self)@.skip(b as int) { It { t: self.t.drain(a..b).collect::<std::vec::Vec<_>>().into_iter() } }
}
impl<T> CloneX for Vec<T> { #[verifier::external_body] fn clone_x(&self) -> (r: Self) { Vec { t: self.t.iter().map(|x| unsafe { core::ptr::read(x) }).collect() } } }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { t: std::vec::IntoIter<T> }
impl<T: DV> It<T> {
  pub uninterp spec fn view(&self) -> Seq<T::S>;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<T>) ensures (match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(x) => old(self)@.len() > 0 && x.dv() == old(self)@[0] && final(self)@ == old(self)@.drop_first() }) { self.t.next() }
  #[verifier::external_body]
  pub fn zip<U: DV>(self, o: It<U>) -> (r: It<(T, U)>) ensures r@ == crate::spec::zip2(self@, o@) { It { t: self.t.zip(o.t).collect::<std::vec::Vec<_>>().into_iter() } }
  #[verifier::external_body]
  pub fn chain(self, o: It<T>) -> (r: It<T>) ensures r@ == self@ + o@ { It { t: self.t.chain(o.t).collect::<std::vec::Vec<_>>().into_iter() } }
  #[verifier::external_body]
  pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { It { t: self.t.skip(n).collect::<std::vec::Vec<_>>().into_iter() } }
  #[verifier::external_body]
  pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }) { It { t: self.t.take(n).collect::<std::vec::Vec<_>>().into_iter() } }
  #[verifier::external_body]
  pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { It { t: self.t.rev().collect::<std::vec::Vec<_>>().into_iter() } }
  #[verifier::external_body]
  pub fn enumerate(self) -> (r: It<(usize, T)>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (i as usize, self@[i]) { It { t: self.t.enumerate().collect::<std::vec::Vec<_>>().into_iter() } }
  #[verifier::external_body]
  pub fn collect_(self) -> (r: Vec<T>) ensures r@ == self@ { Vec { t: self.t.collect() } }
  #[verifier::external_body]
  pub fn into_iter_(self) -> (r: It<T>) ensures r@ == self@ { self }
}
impl<'a, T: DV> It<&'a T> {
  #[verifier::external_body]
  pub fn copied(self) -> (r: It<T>) ensures r@ == self@ { It { t: self.t.map(|x| unsafe { core::ptr::read(x) }).collect::<std::vec::Vec<_>>().into_iter() } }
  #[verifier::external_body]
  pub fn cloned(self) -> (r: It<T>) ensures r@ == self@ { It { t: self.t.map(|x| unsafe { core::ptr::read(x) }).collect::<std::vec::Vec<_>>().into_iter() } }
}
#[verifier::external_body]
pub fn range_(a: usize, b: usize) -> (r: It<usize>) ensures r@.len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == a + i { It { t: (a..b).collect::<std::vec::Vec<_>>().into_iter() } }

#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { t: std::collections::BTreeMap<std::vec::Vec<u8>, (K, V)> }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { t: std::collections::BTreeMap<std::vec::Vec<u8>, (K, V)> }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct BTreeSet<K> { t: std::collections::BTreeMap<std::vec::Vec<u8>, K> }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct HashSet<K> { t: std::collections::BTreeMap<std::vec::Vec<u8>, K> }
impl<K: DV, V: DV> HashMap<K, V> {
  pub uninterp spec fn view(&self) -> Map<K::S, V::S>;
  #[verifier::external_body]
  pub fn with_capacity(n: usize) -> (r: Self) requires n <= 65536 || alloc_ok(n) ensures r@ == Map::<K::S, V::S>::empty() { HashMap { t: std::collections::BTreeMap::new() } }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::S, V::S>::empty()) { self.t.is_empty() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@ == Map::<K::S, V::S>::empty() { self.t.clear() }
  #[verifier::external_body]
  pub fn entry_or_insert_(&mut self, k: K, v: V) ensures final(self)@ == (if old(self)@.contains_key(k.dv()) { old(self)@ } else { old(self)@.insert(k.dv(), v.dv()) }) { self.t.entry(key_(&k)).or_insert((k, v)); }
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::S, V::S>::empty() { HashMap { t: std::collections::BTreeMap::new() } }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.dv(), v.dv()),
    (match r { Some(x) => old(self)@.contains_key(k.dv()) && x.dv() == old(self)@[k.dv()], None => !old(self)@.contains_key(k.dv()) }) { self.t.insert(key_(&k), (k, v)).map(|x| x.1) }
  #[verifier::external_body]
  pub fn get(&self, k: &K) -> (r: Option<&V>) ensures (match r { Some(x) => self@.contains_key(k.dv()) && x.dv() == self@[k.dv()], None => !self@.contains_key(k.dv()) }) { self.t.get(&key_(k)).map(|x| &x.1) }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.dv()),
    (match r { Some(x) => old(self)@.contains_key(k.dv()) && x.dv() == old(self)@[k.dv()], None => !old(self)@.contains_key(k.dv()) }) { self.t.remove(&key_(k)).map(|x| x.1) }
  #[verifier::external_body]
  pub fn remove_entry(&mut self, k: &K) -> (r: Option<(K, V)>) ensures final(self)@ == old(self)@.remove(k.dv()),
    (match r { Some((q, x)) => q.dv() == k.dv() && old(self)@.contains_key(k.dv()) && x.dv() == old(self)@[k.dv()], None => !old(self)@.contains_key(k.dv()) }) { self.t.remove(&key_(k)) }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.dv()) { self.t.contains_key(&key_(k)) }
}
impl<K: DV, V: DV> BTreeMap<K, V> {
  pub uninterp spec fn view(&self) -> Map<K::S, V::S>;
  // the order of the keys is not specified
  #[verifier::external_body]
  pub fn pop_last(&mut self) -> (r: Option<(K, V)>) ensures (match r {
    Some((k, x)) => old(self)@.contains_key(k.dv()) && x.dv() == old(self)@[k.dv()] && final(self)@ == old(self)@.remove(k.dv()),
    None => old(self)@ == Map::<K::S, V::S>::empty() && final(self)@ == old(self)@ }) { self.t.pop_last().map(|x| x.1) }
  #[verifier::external_body]
  pub fn pop_first(&mut self) -> (r: Option<(K, V)>) ensures (match r {
    Some((k, x)) => old(self)@.contains_key(k.dv()) && x.dv() == old(self)@[k.dv()] && final(self)@ == old(self)@.remove(k.dv()),
    None => old(self)@ == Map::<K::S, V::S>::empty() && final(self)@ == old(self)@ }) { self.t.pop_first().map(|x| x.1) }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::S, V::S>::empty()) { self.t.is_empty() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@ == Map::<K::S, V::S>::empty() { self.t.clear() }
  #[verifier::external_body]
  pub fn entry_or_insert_(&mut self, k: K, v: V) ensures final(self)@ == (if old(self)@.contains_key(k.dv()) { old(self)@ } else { old(self)@.insert(k.dv(), v.dv()) }) { self.t.entry(key_(&k)).or_insert((k, v)); }
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::S, V::S>::empty() { BTreeMap { t: std::collections::BTreeMap::new() } }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.dv(), v.dv()),
    (match r { Some(x) => old(self)@.contains_key(k.dv()) && x.dv() == old(self)@[k.dv()], None => !old(self)@.contains_key(k.dv()) }) { self.t.insert(key_(&k), (k, v)).map(|x| x.1) }
  #[verifier::external_body]
  pub fn get(&self, k: &K) -> (r: Option<&V>) ensures (match r { Some(x) => self@.contains_key(k.dv()) && x.dv() == self@[k.dv()], None => !self@.contains_key(k.dv()) }) { self.t.get(&key_(k)).map(|x| &x.1) }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.dv()),
    (match r { Some(x) => old(self)@.contains_key(k.dv()) && x.dv() == old(self)@[k.dv()], None => !old(self)@.contains_key(k.dv()) }) { self.t.remove(&key_(k)).map(|x| x.1) }
  #[verifier::external_body]
  pub fn remove_entry(&mut self, k: &K) -> (r: Option<(K, V)>) ensures final(self)@ == old(self)@.remove(k.dv()),
    (match r { Some((q, x)) => q.dv() == k.dv() && old(self)@.contains_key(k.dv()) && x.dv() == old(self)@[k.dv()], None => !old(self)@.contains_key(k.dv()) }) { self.t.remove(&key_(k)) }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.dv()) { self.t.contains_key(&key_(k)) }
}
impl<K: DV> BTreeSet<K> {
  pub uninterp spec fn view(&self) -> Set<K::S>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::S>::empty() { BTreeSet { t: std::collections::BTreeMap::new() } }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.dv()), r == !old(self)@.contains(k.dv()) { self.t.insert(key_(&k), k).is_none() }
  #[verifier::external_body]
  pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(k.dv()) { self.t.contains_key(&key_(k)) }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.dv()), r == old(self)@.contains(k.dv()) { self.t.remove(&key_(k)).is_some() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K::S>::empty()) { self.t.is_empty() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@ == Set::<K::S>::empty() { self.t.clear() }
}
impl<K: DV> HashSet<K> {
  pub uninterp spec fn view(&self) -> Set<K::S>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::S>::empty() { HashSet { t: std::collections::BTreeMap::new() } }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.dv()), r == !old(self)@.contains(k.dv()) { self.t.insert(key_(&k), k).is_none() }
  #[verifier::external_body]
  pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(k.dv()) { self.t.contains_key(&key_(k)) }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.dv()), r == old(self)@.contains(k.dv()) { self.t.remove(&key_(k)).is_some() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K::S>::empty()) { self.t.is_empty() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@ == Set::<K::S>::empty() { self.t.clear() }
}

// ---------------------------------------------------------------- nom, rust_decimal
pub mod nom {
  pub enum Needed { Unknown, Size(usize) }
  pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
  pub mod error {
    pub struct Error<I> { pub input: I, pub code: u8 }
  }
}
pub type IResult<I, O, E> = Result<(I, O), nom::Err<E>>;
pub mod rust_decimal {
  #[verifier::external_body]
  pub struct Decimal { d: u8 }
}
/// ParseError::from_error_kind of the crate's error type
#[verifier::external_body]
pub fn from_error_kind_<'a>(i: &'a [u8]) -> crate::error::Error<'a> { unimplemented!() }
}
