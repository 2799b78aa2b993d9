/// What deserializing a value means.
pub mod sd {
use crate::prelude::*;
use crate::prelude::serde::de::*;
use crate::spec::*;
use crate::dvs::*;
use crate::value::*;
use crate::value::object::*;

impl<'de, 'o> DV for ValueDeserializer<'de, 'o> { type S = SV; open spec fn dv(&self) -> SV { self.object.dv() } }
impl<'i> DV for StrDeserializer<'i> { type S = Text; open spec fn dv(&self) -> Text { self.0@ } }

pub open spec fn sd_seq<'de, V: Visitor<'de>>(xs: Seq<SV>, v: V) -> Option<V::Value> { if v.takes(xs) == xs.len() { v.on_seq(xs) } else { None } }
/// the first n elements of xs
pub open spec fn sd_list<'de, V: Visitor<'de>>(xs: Seq<SV>, n: int, v: V) -> Option<V::Value> {
  if 0 <= n <= xs.len() { sd_seq(xs.take(n), v) } else { None }
}
pub open spec fn sd_map<'de, V: Visitor<'de>>(m: Map<Text, SV>, v: V) -> Option<V::Value> { v.on_map(hm_seq(m)) }
pub open spec fn only(m: Map<Text, SV>, x: SV) -> bool { m == map!["m_value"@ => x] }
pub open spec fn boxed_name(c: Text) -> bool {
  c == "System.Boolean"@ || c == "System.Byte"@ || c == "System.SByte"@ || c == "System.Char"@ || c == "System.Double"@ || c == "System.Single"@
  || c == "System.Int16"@ || c == "System.UInt16"@ || c == "System.Int32"@ || c == "System.UInt32"@ || c == "System.Int64"@ || c == "System.UInt64"@
}
pub open spec fn list_shape(m: Map<Text, SV>, xs: Seq<SV>, n: i32) -> bool {
  m.dom() == set!["_items"@, "_size"@, "_version"@] && m["_items"@] == SV::Arr(xs) && m["_size"@] == SV::I32(n) && m["_version"@] is I32
}
/// the three keys are told apart
pub open spec fn list_keys() -> bool { "_items"@ != "_size"@ && "_items"@ != "_version"@ && "_size"@ != "_version"@ }
pub proof fn list_keys_() ensures list_keys() { reveal_strlit("_items"); reveal_strlit("_size"); reveal_strlit("_version"); assert("_items"@[1] != "_size"@[1]); }
pub proof fn list_dom(m: Map<Text, SV>) requires m.dom().finite(), m.dom().len() == 3, m.contains_key("_items"@), m.contains_key("_size"@), m.contains_key("_version"@)
  ensures m.dom() == set!["_items"@, "_size"@, "_version"@] {
  list_keys_();
  let s = set!["_items"@, "_size"@, "_version"@];
  assert(s.subset_of(m.dom()));
  assert(s =~= Set::<Text>::empty().insert("_items"@).insert("_size"@).insert("_version"@));
  assert(s.len() == 3);
  vstd::set_lib::lemma_subset_equality(s, m.dom());
}
pub broadcast axiom fn ax_hm_seq(m: Map<Text, SV>) ensures (#[trigger] hm_seq(m)).no_duplicates(),
  forall|e: (Text, SV)| #[trigger] hm_seq(m).contains(e) <==> m.contains_key(e.0) && m[e.0] == e.1;
pub open spec fn one_entry(e: Seq<(Text, SV)>, x: SV) -> bool { e == seq![("m_value"@, x)] }
pub broadcast proof fn only_seq(m: Map<Text, SV>, x: SV) requires #[trigger] only(m, x) ensures one_entry(hm_seq(m), x) {
  broadcast use ax_hm_seq;
  let s = hm_seq(m);
  let e = ("m_value"@, x);
  assert(m.contains_key("m_value"@) && m["m_value"@] == x);
  assert(s.contains(e));
  assert forall|i: int| 0 <= i < s.len() implies s[i] == e by { assert(s.contains(s[i])); }
  if s.len() > 1 { assert(s[0] == s[1]); }
  assert(s =~= seq![e]);
}
pub proof fn negative_() ensures forall|x: i32| x < 0 ==> (#[trigger] (x as usize)) > isize::MAX {
  assert(forall|x: i32| x < 0 ==> (#[trigger] (x as usize)) >= 0x8000_0000_0000_0000usize) by (bit_vector);
}
/// the special class names are told apart
pub proof fn names_() ensures
  "System.Boolean"@ != "System.Byte"@,
  "System.Boolean"@ != "System.SByte"@,
  "System.Boolean"@ != "System.Char"@,
  "System.Boolean"@ != "System.Double"@,
  "System.Boolean"@ != "System.Single"@,
  "System.Boolean"@ != "System.Int16"@,
  "System.Boolean"@ != "System.UInt16"@,
  "System.Boolean"@ != "System.Int32"@,
  "System.Boolean"@ != "System.UInt32"@,
  "System.Boolean"@ != "System.Int64"@,
  "System.Boolean"@ != "System.UInt64"@,
  "System.Boolean"@ != "System.Collections.Generic.List"@,
  "System.Byte"@ != "System.SByte"@,
  "System.Byte"@ != "System.Char"@,
  "System.Byte"@ != "System.Double"@,
  "System.Byte"@ != "System.Single"@,
  "System.Byte"@ != "System.Int16"@,
  "System.Byte"@ != "System.UInt16"@,
  "System.Byte"@ != "System.Int32"@,
  "System.Byte"@ != "System.UInt32"@,
  "System.Byte"@ != "System.Int64"@,
  "System.Byte"@ != "System.UInt64"@,
  "System.Byte"@ != "System.Collections.Generic.List"@,
  "System.SByte"@ != "System.Char"@,
  "System.SByte"@ != "System.Double"@,
  "System.SByte"@ != "System.Single"@,
  "System.SByte"@ != "System.Int16"@,
  "System.SByte"@ != "System.UInt16"@,
  "System.SByte"@ != "System.Int32"@,
  "System.SByte"@ != "System.UInt32"@,
  "System.SByte"@ != "System.Int64"@,
  "System.SByte"@ != "System.UInt64"@,
  "System.SByte"@ != "System.Collections.Generic.List"@,
  "System.Char"@ != "System.Double"@,
  "System.Char"@ != "System.Single"@,
  "System.Char"@ != "System.Int16"@,
  "System.Char"@ != "System.UInt16"@,
  "System.Char"@ != "System.Int32"@,
  "System.Char"@ != "System.UInt32"@,
  "System.Char"@ != "System.Int64"@,
  "System.Char"@ != "System.UInt64"@,
  "System.Char"@ != "System.Collections.Generic.List"@,
  "System.Double"@ != "System.Single"@,
  "System.Double"@ != "System.Int16"@,
  "System.Double"@ != "System.UInt16"@,
  "System.Double"@ != "System.Int32"@,
  "System.Double"@ != "System.UInt32"@,
  "System.Double"@ != "System.Int64"@,
  "System.Double"@ != "System.UInt64"@,
  "System.Double"@ != "System.Collections.Generic.List"@,
  "System.Single"@ != "System.Int16"@,
  "System.Single"@ != "System.UInt16"@,
  "System.Single"@ != "System.Int32"@,
  "System.Single"@ != "System.UInt32"@,
  "System.Single"@ != "System.Int64"@,
  "System.Single"@ != "System.UInt64"@,
  "System.Single"@ != "System.Collections.Generic.List"@,
  "System.Int16"@ != "System.UInt16"@,
  "System.Int16"@ != "System.Int32"@,
  "System.Int16"@ != "System.UInt32"@,
  "System.Int16"@ != "System.Int64"@,
  "System.Int16"@ != "System.UInt64"@,
  "System.Int16"@ != "System.Collections.Generic.List"@,
  "System.UInt16"@ != "System.Int32"@,
  "System.UInt16"@ != "System.UInt32"@,
  "System.UInt16"@ != "System.Int64"@,
  "System.UInt16"@ != "System.UInt64"@,
  "System.UInt16"@ != "System.Collections.Generic.List"@,
  "System.Int32"@ != "System.UInt32"@,
  "System.Int32"@ != "System.Int64"@,
  "System.Int32"@ != "System.UInt64"@,
  "System.Int32"@ != "System.Collections.Generic.List"@,
  "System.UInt32"@ != "System.Int64"@,
  "System.UInt32"@ != "System.UInt64"@,
  "System.UInt32"@ != "System.Collections.Generic.List"@,
  "System.Int64"@ != "System.UInt64"@,
  "System.Int64"@ != "System.Collections.Generic.List"@,
  "System.UInt64"@ != "System.Collections.Generic.List"@ {
  reveal_strlit("System.Boolean");
  reveal_strlit("System.Byte");
  reveal_strlit("System.SByte");
  reveal_strlit("System.Char");
  reveal_strlit("System.Double");
  reveal_strlit("System.Single");
  reveal_strlit("System.Int16");
  reveal_strlit("System.UInt16");
  reveal_strlit("System.Int32");
  reveal_strlit("System.UInt32");
  reveal_strlit("System.Int64");
  reveal_strlit("System.UInt64");
  reveal_strlit("System.Collections.Generic.List");
  assert("System.Boolean"@.len() != "System.Byte"@.len());
  assert("System.Boolean"@.len() != "System.SByte"@.len());
  assert("System.Boolean"@.len() != "System.Char"@.len());
  assert("System.Boolean"@.len() != "System.Double"@.len());
  assert("System.Boolean"@.len() != "System.Single"@.len());
  assert("System.Boolean"@.len() != "System.Int16"@.len());
  assert("System.Boolean"@.len() != "System.UInt16"@.len());
  assert("System.Boolean"@.len() != "System.Int32"@.len());
  assert("System.Boolean"@.len() != "System.UInt32"@.len());
  assert("System.Boolean"@.len() != "System.Int64"@.len());
  assert("System.Boolean"@.len() != "System.UInt64"@.len());
  assert("System.Boolean"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.Byte"@.len() != "System.SByte"@.len());
  assert("System.Byte"@[7] != "System.Char"@[7]);
  assert("System.Byte"@.len() != "System.Double"@.len());
  assert("System.Byte"@.len() != "System.Single"@.len());
  assert("System.Byte"@.len() != "System.Int16"@.len());
  assert("System.Byte"@.len() != "System.UInt16"@.len());
  assert("System.Byte"@.len() != "System.Int32"@.len());
  assert("System.Byte"@.len() != "System.UInt32"@.len());
  assert("System.Byte"@.len() != "System.Int64"@.len());
  assert("System.Byte"@.len() != "System.UInt64"@.len());
  assert("System.Byte"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.SByte"@.len() != "System.Char"@.len());
  assert("System.SByte"@.len() != "System.Double"@.len());
  assert("System.SByte"@.len() != "System.Single"@.len());
  assert("System.SByte"@[7] != "System.Int16"@[7]);
  assert("System.SByte"@.len() != "System.UInt16"@.len());
  assert("System.SByte"@[7] != "System.Int32"@[7]);
  assert("System.SByte"@.len() != "System.UInt32"@.len());
  assert("System.SByte"@[7] != "System.Int64"@[7]);
  assert("System.SByte"@.len() != "System.UInt64"@.len());
  assert("System.SByte"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.Char"@.len() != "System.Double"@.len());
  assert("System.Char"@.len() != "System.Single"@.len());
  assert("System.Char"@.len() != "System.Int16"@.len());
  assert("System.Char"@.len() != "System.UInt16"@.len());
  assert("System.Char"@.len() != "System.Int32"@.len());
  assert("System.Char"@.len() != "System.UInt32"@.len());
  assert("System.Char"@.len() != "System.Int64"@.len());
  assert("System.Char"@.len() != "System.UInt64"@.len());
  assert("System.Char"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.Double"@[7] != "System.Single"@[7]);
  assert("System.Double"@.len() != "System.Int16"@.len());
  assert("System.Double"@[7] != "System.UInt16"@[7]);
  assert("System.Double"@.len() != "System.Int32"@.len());
  assert("System.Double"@[7] != "System.UInt32"@[7]);
  assert("System.Double"@.len() != "System.Int64"@.len());
  assert("System.Double"@[7] != "System.UInt64"@[7]);
  assert("System.Double"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.Single"@.len() != "System.Int16"@.len());
  assert("System.Single"@[7] != "System.UInt16"@[7]);
  assert("System.Single"@.len() != "System.Int32"@.len());
  assert("System.Single"@[7] != "System.UInt32"@[7]);
  assert("System.Single"@.len() != "System.Int64"@.len());
  assert("System.Single"@[7] != "System.UInt64"@[7]);
  assert("System.Single"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.Int16"@.len() != "System.UInt16"@.len());
  assert("System.Int16"@[10] != "System.Int32"@[10]);
  assert("System.Int16"@.len() != "System.UInt32"@.len());
  assert("System.Int16"@[10] != "System.Int64"@[10]);
  assert("System.Int16"@.len() != "System.UInt64"@.len());
  assert("System.Int16"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.UInt16"@.len() != "System.Int32"@.len());
  assert("System.UInt16"@[11] != "System.UInt32"@[11]);
  assert("System.UInt16"@.len() != "System.Int64"@.len());
  assert("System.UInt16"@[11] != "System.UInt64"@[11]);
  assert("System.UInt16"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.Int32"@.len() != "System.UInt32"@.len());
  assert("System.Int32"@[10] != "System.Int64"@[10]);
  assert("System.Int32"@.len() != "System.UInt64"@.len());
  assert("System.Int32"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.UInt32"@.len() != "System.Int64"@.len());
  assert("System.UInt32"@[11] != "System.UInt64"@[11]);
  assert("System.UInt32"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.Int64"@.len() != "System.UInt64"@.len());
  assert("System.Int64"@.len() != "System.Collections.Generic.List"@.len());
  assert("System.UInt64"@.len() != "System.Collections.Generic.List"@.len());
}
/// r is what deserializing an object gives; objects of the special classes that do not have the members of these
/// classes may give anything
pub open spec fn sd_obj<'de, V: Visitor<'de>>(class: Text, lib: Option<Text>, m: Map<Text, SV>, v: V, r: Option<V::Value>) -> bool {
  sd_plain(class, lib, m, v, r) && sd_generic_list(class, lib, m, v, r)
}
pub open spec fn sd_generic_list<'de, V: Visitor<'de>>(class: Text, lib: Option<Text>, m: Map<Text, SV>, v: V, r: Option<V::Value>) -> bool {
  lib is None && before_(class, '`') == "System.Collections.Generic.List"@ ==> forall|xs: Seq<SV>, n: i32| #[trigger] list_shape(m, xs, n) ==> r == sd_list(xs, n as int, v)
}
/// an object that is not a list
pub open spec fn sd_plain<'de, V: Visitor<'de>>(class: Text, lib: Option<Text>, m: Map<Text, SV>, v: V, r: Option<V::Value>) -> bool {
  let c = before_(class, '`');
  if lib is Some || !(boxed_name(c) || c == "System.Collections.Generic.List"@) { r == sd_map(m, v) }
  else {
    &&& c == class && class == "System.Boolean"@ ==> forall|x: bool| only(m, SV::Bool(x)) ==> r == #[trigger] v.on_bool(x)
    &&& c == class && class == "System.Byte"@ ==> forall|x: u8| only(m, SV::Byte(x)) ==> r == #[trigger] v.on_u8(x)
    &&& c == class && class == "System.SByte"@ ==> forall|x: i8| only(m, SV::I8(x)) ==> r == #[trigger] v.on_i8(x)
    &&& c == class && class == "System.Char"@ ==> forall|x: u32| only(m, SV::Char(x)) ==> r == #[trigger] v.on_char(x)
    &&& c == class && class == "System.Double"@ ==> forall|x: f64| only(m, SV::F64(x)) ==> r == #[trigger] v.on_f64(x)
    &&& c == class && class == "System.Single"@ ==> forall|x: f32| only(m, SV::F32(x)) ==> r == #[trigger] v.on_f32(x)
    &&& c == class && class == "System.Int16"@ ==> forall|x: i16| only(m, SV::I16(x)) ==> r == #[trigger] v.on_i16(x)
    &&& c == class && class == "System.UInt16"@ ==> forall|x: u16| only(m, SV::U16(x)) ==> r == #[trigger] v.on_u16(x)
    &&& c == class && class == "System.Int32"@ ==> forall|x: i32| only(m, SV::I32(x)) ==> r == #[trigger] v.on_i32(x)
    &&& c == class && class == "System.UInt32"@ ==> forall|x: u32| only(m, SV::U32(x)) ==> r == #[trigger] v.on_u32(x)
    &&& c == class && class == "System.Int64"@ ==> forall|x: i64| only(m, SV::I64(x)) ==> r == #[trigger] v.on_i64(x)
    &&& c == class && class == "System.UInt64"@ ==> forall|x: u64| only(m, SV::U64(x)) ==> r == #[trigger] v.on_u64(x)
  }
}
/// what C11 speaks of, and what C13 and C15 do
pub open spec fn scalar_(x: SV) -> bool { !(x is Obj) && !(x is Arr) }
pub open spec fn compound_(x: SV) -> bool { x is Obj || x is Arr }
pub open spec fn scalar_msg(m: SMsg) -> bool { m is Value ==> scalar_(m->Value_0) }
pub open spec fn compound_msg(m: SMsg) -> bool { m is Value && compound_(m->Value_0) }
pub open spec fn sd_any<'de, V: Visitor<'de>>(x: SV, v: V, r: Option<V::Value>) -> bool {
  match x {
    SV::Obj(class, lib, m) => sd_obj(class, lib, m, v, r),
    SV::Arr(xs) => r == sd_seq(xs, v),
    SV::Bool(x) => r == v.on_bool(x),
    SV::Byte(x) => r == v.on_u8(x),
    SV::Char(x) => r == v.on_char(x),
    SV::Dec(x) => r == v.on_string(dec_text(x)),
    SV::F64(x) => r == v.on_f64(x),
    SV::I16(x) => r == v.on_i16(x),
    SV::I32(x) => r == v.on_i32(x),
    SV::I64(x) => r == v.on_i64(x),
    SV::I8(x) => r == v.on_i8(x),
    SV::F32(x) => r == v.on_f32(x),
    SV::Span(x) => r == v.on_i64(x),
    SV::Date(x) => r == v.on_i64(x),
    SV::U16(x) => r == v.on_u16(x),
    SV::U32(x) => r == v.on_u32(x),
    SV::U64(x) => r == v.on_u64(x),
    SV::Str(x) => r == v.on_borrowed(x),
    SV::Null => r == v.on_unit(),
  }
}
pub open spec fn sd_option<'de, V: Visitor<'de>>(x: SV, v: V) -> Option<V::Value> { if x is Null { v.on_none() } else { v.on_some(x) } }
pub open spec fn sd_struct<'de, V: Visitor<'de>>(x: SV, v: V, r: Option<V::Value>) -> bool { match x { SV::Obj(class, lib, m) => r == sd_map(m, v), _ => sd_any(x, v, r) } }
pub open spec fn sd_msg_any<'de, V: Visitor<'de>>(m: SMsg, v: V, r: Option<V::Value>) -> bool { match m { SMsg::Value(x) => sd_any(x, v, r), _ => r is None } }
// impl_primitive!: Deserialize of a boxed primitive from the entries of its object (Kani: boxed_*)
impl crate::data_type::Boolean { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::Boolean, value::Error>) ensures forall|x: bool| #[trigger] one_entry(d.entries(), SV::Bool(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::Byte { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::Byte, value::Error>) ensures forall|x: u8| #[trigger] one_entry(d.entries(), SV::Byte(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::Int8 { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::Int8, value::Error>) ensures forall|x: i8| #[trigger] one_entry(d.entries(), SV::I8(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::Double { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::Double, value::Error>) ensures forall|x: f64| #[trigger] one_entry(d.entries(), SV::F64(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::Single { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::Single, value::Error>) ensures forall|x: f32| #[trigger] one_entry(d.entries(), SV::F32(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::Int16 { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::Int16, value::Error>) ensures forall|x: i16| #[trigger] one_entry(d.entries(), SV::I16(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::UInt16 { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::UInt16, value::Error>) ensures forall|x: u16| #[trigger] one_entry(d.entries(), SV::U16(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::Int32 { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::Int32, value::Error>) ensures forall|x: i32| #[trigger] one_entry(d.entries(), SV::I32(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::UInt32 { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::UInt32, value::Error>) ensures forall|x: u32| #[trigger] one_entry(d.entries(), SV::U32(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::Int64 { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::Int64, value::Error>) ensures forall|x: i64| #[trigger] one_entry(d.entries(), SV::I64(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::UInt64 { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::UInt64, value::Error>) ensures forall|x: u64| #[trigger] one_entry(d.entries(), SV::U64(x)) ==> r is Ok && r->Ok_0.0 == x { unimplemented!() } }
impl crate::data_type::Char { #[verifier::external_body] pub fn deserialize(d: value::MapDeserializer) -> (r: Result<crate::data_type::Char, value::Error>) ensures forall|x: u32| #[trigger] one_entry(d.entries(), SV::Char(x)) ==> r is Ok && r->Ok_0.0 as u32 == x { unimplemented!() } }
}
