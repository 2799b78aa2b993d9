// The specification: what a sequence of bytes means as an NRBF message (MS-NRBF), as mathematical functions on
// sequences of bytes.  Nothing here runs; it is what the contracts of the extracted functions refer to.
pub mod spec {
use crate::prelude::*;
use crate::prelude::nom;
use crate::enumeration::{BinaryType, PrimitiveType, BinaryArrayType};

pub type B = Seq<u8>;
pub type Text = Seq<char>;

// ---------------------------------------------------------------- values
pub enum SV {
  Obj(Text, Option<Text>, Map<Text, SV>),
  Arr(Seq<SV>),
  Bool(bool),
  Byte(u8),
  Char(u32),
  Dec(crate::prelude::rust_decimal::Decimal),
  F64(f64),
  I16(i16),
  I32(i32),
  I64(i64),
  I8(i8),
  F32(f32),
  Span(i64),
  Date(i64),
  U16(u16),
  U32(u32),
  U64(u64),
  Str(Text),
  Null,
}
/// what stands in the place of a member or an element
pub enum SVR { V(SV), Null(usize), Ref(u32) }
pub enum SInfo { Prim(PrimitiveType), Sys(Text), Class(Text, u32) }
pub type TI = (BinaryType, Option<SInfo>);
pub struct SC { pub name: Text, pub members: Seq<Text>, pub lib: Option<u32>, pub types: Option<Seq<TI>> }
pub struct St { pub libs: Map<u32, Text>, pub classes: Map<u32, SC>, pub objs: Map<u32, SV>, pub ids: Set<u32> }
pub struct SCall { pub method: Text, pub type_name: Text, pub context: Option<Text>, pub args: Option<Seq<SV>> }
pub struct SRet { pub value: Option<SV>, pub context: Option<Text>, pub args: Option<Seq<SV>> }
pub enum SMsg { Call(SCall), Return(SRet), Value(SV) }
pub enum SCR { Call(SCall), Return(SRet) }

pub open spec fn st0() -> St { St { libs: Map::empty(), classes: Map::empty(), objs: Map::empty(), ids: Set::empty() } }

// ---------------------------------------------------------------- primitives (2.1.1)
pub open spec fn le(b: B, n: nat) -> nat decreases n { if n == 0 { 0 } else { b[0] as nat + 256 * le(b.skip(1), (n - 1) as nat) } }
#[verifier::opaque]
pub open spec fn s_byte(b: B) -> Option<(u8, B)> { if b.len() >= 1 { Some((b[0], b.skip(1))) } else { None } }
#[verifier::opaque]
pub open spec fn s_bool(b: B) -> Option<(bool, B)> { if b.len() >= 1 && b[0] <= 1 { Some((b[0] == 1, b.skip(1))) } else { None } }
#[verifier::opaque]
pub open spec fn s_i8(b: B) -> Option<(i8, B)> { if b.len() >= 1 { Some(((if b[0] < 0x80 { b[0] as int } else { b[0] as int - 0x100 }) as i8, b.skip(1))) } else { None } }
#[verifier::opaque]
pub open spec fn s_u16(b: B) -> Option<(u16, B)> { if b.len() >= 2 { Some((le(b, 2) as u16, b.skip(2))) } else { None } }
#[verifier::opaque]
pub open spec fn s_i16(b: B) -> Option<(i16, B)> { if b.len() >= 2 { Some(((if le(b, 2) < 0x8000 { le(b, 2) as int } else { le(b, 2) - 0x1_0000 }) as i16, b.skip(2))) } else { None } }
#[verifier::opaque]
pub open spec fn s_u32(b: B) -> Option<(u32, B)> { if b.len() >= 4 { Some((le(b, 4) as u32, b.skip(4))) } else { None } }
#[verifier::opaque]
pub open spec fn s_i32(b: B) -> Option<(i32, B)> { if b.len() >= 4 { Some(((if le(b, 4) < 0x8000_0000 { le(b, 4) as int } else { le(b, 4) - 0x1_0000_0000 }) as i32, b.skip(4))) } else { None } }
#[verifier::opaque]
pub open spec fn s_u64(b: B) -> Option<(u64, B)> { if b.len() >= 8 { Some((le(b, 8) as u64, b.skip(8))) } else { None } }
#[verifier::opaque]
pub open spec fn s_i64(b: B) -> Option<(i64, B)> { if b.len() >= 8 { Some(((if le(b, 8) < 0x8000_0000_0000_0000 { le(b, 8) as int } else { le(b, 8) - 0x1_0000_0000_0000_0000 }) as i64, b.skip(8))) } else { None } }
/// the number with this IEEE-754 encoding
pub uninterp spec fn f32_of(bits: u32) -> f32;
pub uninterp spec fn f64_of(bits: u64) -> f64;
#[verifier::opaque]
pub open spec fn s_f32(b: B) -> Option<(f32, B)> { if b.len() >= 4 { Some((f32_of(le(b, 4) as u32), b.skip(4))) } else { None } }
#[verifier::opaque]
pub open spec fn s_f64(b: B) -> Option<(f64, B)> { if b.len() >= 8 { Some((f64_of(le(b, 8) as u64), b.skip(8))) } else { None } }

/// the text that well-formed UTF-8 encodes
pub uninterp spec fn utf8(b: B) -> Option<Text>;
pub open spec fn cont(b: B, i: int) -> bool { b.len() > i && 0x80 <= b[i] < 0xc0 }
/// the UTF-8 sequence at the start (RFC 3629)
#[verifier::opaque]
pub open spec fn s_char(b: B) -> Option<(u32, B)> {
  if b.len() == 0 { None }
  else if b[0] < 0x80 { Some((b[0] as u32, b.skip(1))) }
  else if 0xc0 <= b[0] < 0xe0 {
    let c = (b[0] - 0xc0) * 64 + (b[1] - 0x80);
    if cont(b, 1) && c >= 0x80 { Some((c as u32, b.skip(2))) } else { None }
  } else if 0xe0 <= b[0] < 0xf0 {
    let c = (b[0] - 0xe0) * 4096 + (b[1] - 0x80) * 64 + (b[2] - 0x80);
    if cont(b, 1) && cont(b, 2) && c >= 0x800 && !(0xd800 <= c < 0xe000) { Some((c as u32, b.skip(3))) } else { None }
  } else if 0xf0 <= b[0] < 0xf8 {
    let c = (b[0] - 0xf0) * 262144 + (b[1] - 0x80) * 4096 + (b[2] - 0x80) * 64 + (b[3] - 0x80);
    if cont(b, 1) && cont(b, 2) && cont(b, 3) && 0x10000 <= c <= 0x10ffff { Some((c as u32, b.skip(4))) } else { None }
  } else { None }
}
/// 2.1.1.6: seven bits per byte, least significant group first; the fifth byte has three bits
#[verifier::opaque]
pub open spec fn s_len(b: B, k: nat) -> Option<(int, B)> decreases 4 - k {
  if b.len() == 0 || k > 4 { None }
  else if k == 4 { if b[0] < 8 { Some((b[0] as int, b.skip(1))) } else { None } }
  else if b[0] < 128 { Some((b[0] as int, b.skip(1))) }
  else { match s_len(b.skip(1), k + 1) { None => None, Some((n, r)) => Some((b[0] - 128 + 128 * n, r)) } }
}
#[verifier::opaque]
pub open spec fn s_str(b: B) -> Option<(Text, B)> {
  match s_len(b, 0) {
    None => None,
    Some((n, r)) => if 0 <= n <= r.len() { match utf8(r.take(n)) { Some(t) => Some((t, r.skip(n))), None => None } } else { None },
  }
}
/// the number that a decimal text spells
pub uninterp spec fn dec_of(t: Text) -> Option<crate::prelude::rust_decimal::Decimal>;
#[verifier::opaque]
pub open spec fn s_dec(b: B) -> Option<(crate::prelude::rust_decimal::Decimal, B)> {
  match s_str(b) { None => None, Some((t, r)) => match dec_of(t) { Some(d) => Some((d, r)), None => None } }
}

// ---------------------------------------------------------------- enumerations (2.1.2)
pub open spec fn ptype_of(c: u8) -> Option<PrimitiveType> {
  if c == 1 { Some(PrimitiveType::Boolean) } else if c == 2 { Some(PrimitiveType::Byte) } else if c == 3 { Some(PrimitiveType::Char) }
  else if c == 5 { Some(PrimitiveType::Decimal) } else if c == 6 { Some(PrimitiveType::Double) } else if c == 7 { Some(PrimitiveType::Int16) }
  else if c == 8 { Some(PrimitiveType::Int32) } else if c == 9 { Some(PrimitiveType::Int64) } else if c == 10 { Some(PrimitiveType::SByte) }
  else if c == 11 { Some(PrimitiveType::Single) } else if c == 12 { Some(PrimitiveType::TimeSpan) } else if c == 13 { Some(PrimitiveType::DateTime) }
  else if c == 14 { Some(PrimitiveType::UInt16) } else if c == 15 { Some(PrimitiveType::UInt32) } else if c == 16 { Some(PrimitiveType::UInt64) }
  else if c == 17 { Some(PrimitiveType::Null) } else if c == 18 { Some(PrimitiveType::String) } else { None }
}
pub open spec fn btype_of(c: u8) -> Option<BinaryType> {
  if c == 0 { Some(BinaryType::Primitive) } else if c == 1 { Some(BinaryType::String) } else if c == 2 { Some(BinaryType::Object) }
  else if c == 3 { Some(BinaryType::SystemClass) } else if c == 4 { Some(BinaryType::Class) } else if c == 5 { Some(BinaryType::ObjectArray) }
  else if c == 6 { Some(BinaryType::StringArray) } else if c == 7 { Some(BinaryType::PrimitiveArray) } else { None }
}
pub open spec fn atype_of(c: u8) -> Option<BinaryArrayType> {
  if c == 0 { Some(BinaryArrayType::Single) } else if c == 1 { Some(BinaryArrayType::Jagged) } else if c == 2 { Some(BinaryArrayType::Rectangular) }
  else if c == 3 { Some(BinaryArrayType::SingleOffset) } else if c == 4 { Some(BinaryArrayType::JaggedOffset) } else if c == 5 { Some(BinaryArrayType::RectangularOffset) } else { None }
}
#[verifier::opaque]
pub open spec fn s_ptype(b: B) -> Option<(PrimitiveType, B)> { if b.len() >= 1 { match ptype_of(b[0]) { Some(t) => Some((t, b.skip(1))), None => None } } else { None } }
#[verifier::opaque]
pub open spec fn s_btype(b: B) -> Option<(BinaryType, B)> { if b.len() >= 1 { match btype_of(b[0]) { Some(t) => Some((t, b.skip(1))), None => None } } else { None } }
#[verifier::opaque]
pub open spec fn s_atype(b: B) -> Option<(BinaryArrayType, B)> { if b.len() >= 1 { match atype_of(b[0]) { Some(t) => Some((t, b.skip(1))), None => None } } else { None } }
pub open spec fn code_of(t: crate::record::RecordType) -> u8 {
  use crate::record::RecordType::*;
  match t {
    SerializedStreamHeader => 0, ClassWithId => 1, SystemClassWithMembers => 2, ClassWithMembers => 3, SystemClassWithMembersAndTypes => 4,
    ClassWithMembersAndTypes => 5, BinaryObjectString => 6, BinaryArray => 7, MemberPrimitiveTyped => 8, MemberReference => 9, ObjectNull => 10,
    MessageEnd => 11, BinaryLibrary => 12, ObjectNullMultiple256 => 13, ObjectNullMultiple => 14, ArraySinglePrimitive => 15,
    ArraySingleObject => 16, ArraySingleString => 17, MethodCall => 21, MethodReturn => 22,
  }
}
pub open spec fn hd(b: B, c: u8) -> bool { b.len() > 0 && b[0] == c }

// ---------------------------------------------------------------- numbers with a range
/// IDs of objects and libraries are positive
#[verifier::opaque]
pub open spec fn s_id(b: B) -> Option<(u32, B)> { match s_i32(b) { Some((n, r)) => if n > 0 { Some((n as u32, r)) } else { None }, None => None } }
#[verifier::opaque]
pub open spec fn s_length(b: B) -> Option<(usize, B)> { match s_i32(b) { Some((n, r)) => if n >= 0 { Some((n as usize, r)) } else { None }, None => None } }
#[verifier::opaque]
pub open spec fn s_root(b: B) -> Option<(Option<u32>, B)> { match s_i32(b) { Some((n, r)) => if n > 0 { Some((Some(n as u32), r)) } else if n == 0 { Some((None, r)) } else { None }, None => None } }
#[verifier::opaque]
pub open spec fn s_lengths(b: B, n: nat, acc: Seq<usize>) -> Option<(Seq<usize>, B)> decreases n {
  if n == 0 { Some((acc, b)) } else { match s_length(b) { None => None, Some((x, r)) => s_lengths(r, (n - 1) as nat, acc.push(x)) } }
}
#[verifier::opaque]
pub open spec fn s_strs(b: B, n: nat, acc: Seq<Text>) -> Option<(Seq<Text>, B)> decreases n {
  if n == 0 { Some((acc, b)) } else { match s_str(b) { None => None, Some((x, r)) => s_strs(r, (n - 1) as nat, acc.push(x)) } }
}

// ---------------------------------------------------------------- common definitions (2.3.1, 2.4.2)
#[verifier::opaque]
pub open spec fn s_arrayinfo(b: B) -> Option<((u32, usize), B)> {
  match s_id(b) { None => None, Some((id, b)) => match s_length(b) { None => None, Some((n, b)) => Some(((id, n), b)) } }
}
#[verifier::opaque]
pub open spec fn s_classinfo(b: B) -> Option<((u32, Text, Seq<Text>), B)> {
  match s_id(b) { None => None, Some((id, b)) => match s_str(b) { None => None, Some((name, b)) => match s_length(b) { None => None, Some((n, b)) =>
    match s_strs(b, n as nat, Seq::empty()) { None => None, Some((m, b)) => Some(((id, name, m), b)) } } } }
}
#[verifier::opaque]
pub open spec fn s_info(b: B, t: BinaryType) -> Option<(Option<SInfo>, B)> {
  match t {
    BinaryType::Primitive | BinaryType::PrimitiveArray => match s_ptype(b) { None => None, Some((p, b)) => Some((Some(SInfo::Prim(p)), b)) },
    BinaryType::SystemClass => match s_str(b) { None => None, Some((n, b)) => Some((Some(SInfo::Sys(n)), b)) },
    BinaryType::Class => match s_str(b) { None => None, Some((n, b)) => match s_id(b) { None => None, Some((l, b)) => Some((Some(SInfo::Class(n, l)), b)) } },
    _ => Some((None, b)),
  }
}
#[verifier::opaque]
pub open spec fn s_btypes(b: B, n: nat, acc: Seq<BinaryType>) -> Option<(Seq<BinaryType>, B)> decreases n {
  if n == 0 { Some((acc, b)) } else { match s_btype(b) { None => None, Some((x, r)) => s_btypes(r, (n - 1) as nat, acc.push(x)) } }
}
#[verifier::opaque]
pub open spec fn s_infos(b: B, ts: Seq<BinaryType>, acc: Seq<Option<SInfo>>) -> Option<(Seq<Option<SInfo>>, B)> decreases ts.len() {
  if ts.len() == 0 { Some((acc, b)) } else { match s_info(b, ts[0]) { None => None, Some((x, r)) => s_infos(r, ts.drop_first(), acc.push(x)) } }
}
#[verifier::opaque]
pub open spec fn s_typeinfo(b: B, n: nat) -> Option<(Seq<TI>, B)> {
  match s_btypes(b, n, Seq::empty()) { None => None, Some((ts, b)) => match s_infos(b, ts, Seq::empty()) { None => None, Some((is, b)) => Some((zip2(ts, is), b)) } }
}
/// the additional type information that goes with a type
pub open spec fn ti_ok(t: TI) -> bool {
  match t.0 {
    BinaryType::Primitive | BinaryType::PrimitiveArray => t.1 is Some && t.1->Some_0 is Prim,
    BinaryType::SystemClass => t.1 is Some && t.1->Some_0 is Sys,
    BinaryType::Class => t.1 is Some && t.1->Some_0 is Class,
    _ => t.1 is None,
  }
}
pub open spec fn tis_ok(ts: Seq<TI>) -> bool { forall|i: int| 0 <= i < ts.len() ==> ti_ok(#[trigger] ts[i]) }

// ---------------------------------------------------------------- records (2.2, 2.3.2, 2.4.3, 2.5, 2.6)
#[verifier::opaque]
pub open spec fn s_library(b: B) -> Option<((u32, Text), B)> {
  if hd(b, 12) { match s_id(b.skip(1)) { None => None, Some((id, b)) => match s_str(b) { None => None, Some((n, b)) => Some(((id, n), b)) } } } else { None }
}
#[verifier::opaque]
pub open spec fn s_ostr(b: B) -> Option<((u32, Text), B)> {
  if hd(b, 6) { match s_id(b.skip(1)) { None => None, Some((id, b)) => match s_str(b) { None => None, Some((n, b)) => Some(((id, n), b)) } } } else { None }
}
#[verifier::opaque]
pub open spec fn s_classid(b: B) -> Option<((u32, u32), B)> {
  if hd(b, 1) { match s_id(b.skip(1)) { None => None, Some((id, b)) => match s_id(b) { None => None, Some((m, b)) => if m != id { Some(((id, m), b)) } else { None } } } } else { None }
}
/// class definitions: 2 to 5
#[verifier::opaque]
pub open spec fn s_class2(b: B) -> Option<((u32, SC), B)> {
  if hd(b, 2) { match s_classinfo(b.skip(1)) { None => None, Some(((id, name, members), b)) => Some(((id, SC { name, members, lib: None, types: None }), b)) } } else { None }
}
#[verifier::opaque]
pub open spec fn s_class3(b: B) -> Option<((u32, SC), B)> {
  if hd(b, 3) { match s_classinfo(b.skip(1)) { None => None, Some(((id, name, members), b)) =>
    match s_id(b) { None => None, Some((l, b)) => Some(((id, SC { name, members, lib: Some(l), types: None }), b)) } } } else { None }
}
#[verifier::opaque]
pub open spec fn s_class4(b: B) -> Option<((u32, SC), B)> {
  if hd(b, 4) { match s_classinfo(b.skip(1)) { None => None, Some(((id, name, members), b)) =>
    match s_typeinfo(b, members.len()) { None => None, Some((ts, b)) => Some(((id, SC { name, members, lib: None, types: Some(ts) }), b)) } } } else { None }
}
#[verifier::opaque]
pub open spec fn s_class5(b: B) -> Option<((u32, SC), B)> {
  if hd(b, 5) { match s_classinfo(b.skip(1)) { None => None, Some(((id, name, members), b)) =>
    match s_typeinfo(b, members.len()) { None => None, Some((ts, b)) =>
      match s_id(b) { None => None, Some((l, b)) => Some(((id, SC { name, members, lib: Some(l), types: Some(ts) }), b)) } } } } else { None }
}
#[verifier::opaque]
pub open spec fn s_classdef(b: B) -> Option<((u32, SC), B)> {
  if hd(b, 2) { s_class2(b) } else if hd(b, 3) { s_class3(b) } else if hd(b, 4) { s_class4(b) } else if hd(b, 5) { s_class5(b) } else { None }
}
#[verifier::opaque]
pub open spec fn s_mref(b: B) -> Option<(u32, B)> { if hd(b, 9) { s_id(b.skip(1)) } else { None } }
/// 10, 13, 14: how many nulls
#[verifier::opaque]
pub open spec fn s_null1(b: B) -> Option<(usize, B)> { if hd(b, 10) { Some((1usize, b.skip(1))) } else { None } }
#[verifier::opaque]
pub open spec fn s_null256(b: B) -> Option<(usize, B)> {
  if hd(b, 13) { match s_byte(b.skip(1)) { None => None, Some((n, b)) => if n > 0 { Some((n as usize, b)) } else { None } } } else { None }
}
#[verifier::opaque]
pub open spec fn s_nullm(b: B) -> Option<(usize, B)> {
  if hd(b, 14) { match s_i32(b.skip(1)) { None => None, Some((n, b)) => if n > 0 { Some((n as usize, b)) } else { None } } } else { None }
}
#[verifier::opaque]
pub open spec fn s_null(b: B) -> Option<(usize, B)> { if hd(b, 10) { s_null1(b) } else if hd(b, 13) { s_null256(b) } else if hd(b, 14) { s_nullm(b) } else { None } }
/// MemberReference or nullObject
#[verifier::opaque]
pub open spec fn s_refnull(b: B) -> Option<(SVR, B)> {
  if hd(b, 9) { match s_mref(b) { None => None, Some((id, b)) => Some((SVR::Ref(id), b)) } }
  else { match s_null(b) { None => None, Some((n, b)) => Some((SVR::Null(n), b)) } }
}
#[verifier::opaque]
pub open spec fn s_prim(b: B, t: PrimitiveType) -> Option<(SV, B)> {
  match t {
    PrimitiveType::Boolean => match s_bool(b) { Some((v, b)) => Some((SV::Bool(v), b)), None => None },
    PrimitiveType::Byte => match s_byte(b) { Some((v, b)) => Some((SV::Byte(v), b)), None => None },
    PrimitiveType::Char => match s_char(b) { Some((v, b)) => Some((SV::Char(v), b)), None => None },
    PrimitiveType::Decimal => match s_dec(b) { Some((v, b)) => Some((SV::Dec(v), b)), None => None },
    PrimitiveType::Double => match s_f64(b) { Some((v, b)) => Some((SV::F64(v), b)), None => None },
    PrimitiveType::Int16 => match s_i16(b) { Some((v, b)) => Some((SV::I16(v), b)), None => None },
    PrimitiveType::Int32 => match s_i32(b) { Some((v, b)) => Some((SV::I32(v), b)), None => None },
    PrimitiveType::Int64 => match s_i64(b) { Some((v, b)) => Some((SV::I64(v), b)), None => None },
    PrimitiveType::SByte => match s_i8(b) { Some((v, b)) => Some((SV::I8(v), b)), None => None },
    PrimitiveType::Single => match s_f32(b) { Some((v, b)) => Some((SV::F32(v), b)), None => None },
    PrimitiveType::TimeSpan => match s_i64(b) { Some((v, b)) => Some((SV::Span(v), b)), None => None },
    PrimitiveType::DateTime => match s_i64(b) { Some((v, b)) => Some((SV::Date(v), b)), None => None },
    PrimitiveType::UInt16 => match s_u16(b) { Some((v, b)) => Some((SV::U16(v), b)), None => None },
    PrimitiveType::UInt32 => match s_u32(b) { Some((v, b)) => Some((SV::U32(v), b)), None => None },
    PrimitiveType::UInt64 => match s_u64(b) { Some((v, b)) => Some((SV::U64(v), b)), None => None },
    PrimitiveType::Null | PrimitiveType::String => None,
  }
}
#[verifier::opaque]
pub open spec fn s_prims(b: B, t: PrimitiveType, n: nat, acc: Seq<SV>) -> Option<(Seq<SV>, B)> decreases n {
  if n == 0 { Some((acc, b)) } else { match s_prim(b, t) { None => None, Some((v, r)) => s_prims(r, t, (n - 1) as nat, acc.push(v)) } }
}
#[verifier::opaque]
pub open spec fn s_typed(b: B) -> Option<(SV, B)> {
  if hd(b, 8) { match s_ptype(b.skip(1)) { None => None, Some((t, b)) => s_prim(b, t) } } else { None }
}
#[verifier::opaque]
pub open spec fn s_vwc(b: B) -> Option<(SV, B)> {
  match s_ptype(b) {
    None => None,
    Some((t, b)) => match t {
      PrimitiveType::Null => Some((SV::Null, b)),
      PrimitiveType::String => match s_str(b) { Some((t, b)) => Some((SV::Str(t), b)), None => None },
      _ => s_prim(b, t),
    },
  }
}
#[verifier::opaque]
pub open spec fn s_vwcs(b: B, n: nat, acc: Seq<SV>) -> Option<(Seq<SV>, B)> decreases n {
  if n == 0 { Some((acc, b)) } else { match s_vwc(b) { None => None, Some((v, r)) => s_vwcs(r, (n - 1) as nat, acc.push(v)) } }
}
#[verifier::opaque]
pub open spec fn s_avwc(b: B) -> Option<(Seq<SV>, B)> { match s_length(b) { None => None, Some((n, b)) => s_vwcs(b, n as nat, Seq::empty()) } }
#[verifier::opaque]
pub open spec fn s_svwc(b: B) -> Option<(Text, B)> { if hd(b, 18) { s_str(b.skip(1)) } else { None } }
#[verifier::opaque]
pub open spec fn s_header(b: B) -> Option<(Option<u32>, B)> {
  if hd(b, 0) {
    match s_root(b.skip(1)) { None => None, Some((root, b)) => match s_i32(b) { None => None, Some((_, b)) => match s_i32(b) { None => None, Some((major, b)) =>
      match s_i32(b) { None => None, Some((minor, b)) => if major == 1 && minor == 0 { Some((root, b)) } else { None } } } } }
  } else { None }
}
#[verifier::opaque]
pub open spec fn s_end(b: B) -> Option<((), B)> { if hd(b, 11) { Some(((), b.skip(1))) } else { None } }
#[verifier::opaque]
pub open spec fn s_aso(b: B) -> Option<((u32, usize), B)> { if hd(b, 16) { s_arrayinfo(b.skip(1)) } else { None } }
#[verifier::opaque]
pub open spec fn s_ass(b: B) -> Option<((u32, usize), B)> { if hd(b, 17) { s_arrayinfo(b.skip(1)) } else { None } }
#[verifier::opaque]
pub open spec fn s_asp(b: B) -> Option<(((u32, usize), PrimitiveType), B)> {
  if hd(b, 15) { match s_arrayinfo(b.skip(1)) { None => None, Some((a, b)) => match s_ptype(b) { None => None, Some((t, b)) => Some(((a, t), b)) } } } else { None }
}
pub struct SBA { pub id: u32, pub lens: Seq<usize>, pub ti: TI }
pub open spec fn offset_type(t: BinaryArrayType) -> bool { t is SingleOffset || t is JaggedOffset || t is RectangularOffset }
#[verifier::opaque]
pub open spec fn s_ba(b: B) -> Option<(SBA, B)> {
  if hd(b, 7) {
    match s_id(b.skip(1)) { None => None, Some((id, b)) => match s_atype(b) { None => None, Some((at, b)) => match s_length(b) { None => None, Some((rank, b)) =>
      match s_lengths(b, rank as nat, Seq::empty()) { None => None, Some((lens, b)) =>
        match (if offset_type(at) { s_lengths(b, rank as nat, Seq::empty()) } else { Some((Seq::empty(), b)) }) { None => None, Some((_, b)) =>
          match s_btype(b) { None => None, Some((t, b)) => match s_info(b, t) { None => None, Some((i, b)) => Some((SBA { id, lens, ti: (t, i) }, b)) } } } } } } }
  } else { None }
}
// message flags (2.2.1.1)
pub open spec fn ones(x: i32, a: i32, b: i32, c: i32, d: i32) -> int {
  (if x & a != 0 { 1int } else { 0 }) + (if x & b != 0 { 1int } else { 0 }) + (if x & c != 0 { 1int } else { 0 }) + (if x & d != 0 { 1int } else { 0 })
}
pub open spec fn flags_ok(x: i32) -> bool {
  let args = ones(x, 1, 2, 4, 8); let ctx = ones(x, 0x10, 0x20, 0x40, 0); let ret = ones(x, 0x200, 0x400, 0x800, 0x1000);
  let sig = x & 0x80 != 0; let exc = x & 0x2000 != 0;
  args <= 1 && ctx <= 1 && ret <= 1 && !(args > 0 && exc) && !(ret > 0 && exc) && !(ret > 0 && sig) && !(exc && sig)
}
#[verifier::opaque]
pub open spec fn s_flags(b: B) -> Option<(i32, B)> { match s_i32(b) { None => None, Some((x, b)) => if flags_ok(x) { Some((x, b)) } else { None } } }
pub struct SMC { pub flags: i32, pub method: Text, pub type_name: Text, pub context: Option<Text>, pub args: Option<Seq<SV>> }
pub struct SMR { pub flags: i32, pub value: Option<SV>, pub context: Option<Text>, pub args: Option<Seq<SV>> }
#[verifier::opaque]
pub open spec fn s_ctx(b: B, f: i32) -> Option<(Option<Text>, B)> { if f & 0x20 != 0 { match s_svwc(b) { None => None, Some((t, b)) => Some((Some(t), b)) } } else { Some((None, b)) } }
#[verifier::opaque]
pub open spec fn s_args(b: B, f: i32) -> Option<(Option<Seq<SV>>, B)> { if f & 2 != 0 { match s_avwc(b) { None => None, Some((t, b)) => Some((Some(t), b)) } } else { Some((None, b)) } }
#[verifier::opaque]
pub open spec fn s_retval(b: B, f: i32) -> Option<(Option<SV>, B)> { if f & 0x800 != 0 { match s_vwc(b) { None => None, Some((t, b)) => Some((Some(t), b)) } } else { Some((None, b)) } }
#[verifier::opaque]
pub open spec fn s_mcall(b: B) -> Option<(SMC, B)> {
  if hd(b, 21) { match s_flags(b.skip(1)) { None => None, Some((flags, b)) => match s_svwc(b) { None => None, Some((method, b)) => match s_svwc(b) { None => None, Some((type_name, b)) =>
    match s_ctx(b, flags) { None => None, Some((context, b)) => match s_args(b, flags) { None => None, Some((args, b)) => Some((SMC { flags, method, type_name, context, args }, b)) } } } } } } else { None }
}
#[verifier::opaque]
pub open spec fn s_mret(b: B) -> Option<(SMR, B)> {
  if hd(b, 22) { match s_flags(b.skip(1)) { None => None, Some((flags, b)) => match s_retval(b, flags) { None => None, Some((value, b)) =>
    match s_ctx(b, flags) { None => None, Some((context, b)) => match s_args(b, flags) { None => None, Some((args, b)) => Some((SMR { flags, value, context, args }, b)) } } } } } else { None }
}

// ---------------------------------------------------------------- the grammar (2.7)
/// A library record in front of another record, if there is one.  A library ID is declared once.
#[verifier::opaque]
pub open spec fn sp_lib(st: St, b: B) -> Option<(Option<u32>, B, St)> {
  match s_library(b) {
    None => Some((None, b, st)),
    Some(((id, name), r)) => if st.libs.contains_key(id) || r.len() >= b.len() { None } else { Some((Some(id), r, St { libs: st.libs.insert(id, name), ..st })) },
  }
}
pub open spec fn decl(st: St, id: u32) -> Option<St> { if st.ids.contains(id) { None } else { Some(St { ids: st.ids.insert(id), ..st }) } }
#[verifier::opaque]
pub open spec fn sp_ostr(st: St, b: B) -> Option<((u32, Text), B, St)> {
  match s_ostr(b) { None => None, Some(((id, t), r)) => match decl(st, id) { None => None, Some(st) => Some(((id, t), r, st)) } }
}
/// a member or element; the type is `None` where none is declared
#[verifier::opaque]
pub open spec fn sp_member(st: St, b: B, ty: Option<TI>) -> Option<(SVR, B, St)> decreases b.len(), (if ty is None { 2int } else { 3 }), 0int {
  match ty {
    Some((BinaryType::Primitive, Some(SInfo::Prim(p)))) => match s_prim(b, p) { None => None, Some((v, r)) => Some((SVR::V(v), r, st)) },
    _ => match sp_lib(st, b) {
      None => None,
      Some((_, b1, st1)) => if b1.len() > b.len() { None } else {
        match ty {
          None => sp_untyped(st1, b1),
          Some((t, i)) => match t {
            BinaryType::Object | BinaryType::ObjectArray => sp_member(st1, b1, None),
            BinaryType::SystemClass | BinaryType::Class => match i {
              Some(i) => match sp_inline_lib(st1, i) {
                None => None,
                Some(lib) =>
                  if class_head(b1) { match sp_classes(st1, b1) {
                    None => None,
                    Some(((_, o), r, st2)) => if o is Obj && o->Obj_0 == sinfo_name(i) && o->Obj_1 == lib { Some((SVR::V(o), r, st2)) } else { None },
                  } } else { match s_refnull(b1) { None => None, Some((v, r)) => Some((v, r, st1)) } },
              },
              None => None,
            },
            BinaryType::String | BinaryType::StringArray =>
              if hd(b1, 6) { match sp_ostr(st1, b1) { None => None, Some(((_, t), r, st2)) => Some((SVR::V(SV::Str(t)), r, st2)) } }
              else { match s_refnull(b1) { None => None, Some((v, r)) => Some((v, r, st1)) } },
            BinaryType::PrimitiveArray => match s_refnull(b1) { None => None, Some((v, r)) => Some((v, r, st1)) },
            BinaryType::Primitive => None,
          },
        }
      },
    },
  }
}
pub open spec fn sinfo_name(i: SInfo) -> Text { match i { SInfo::Sys(n) => n, SInfo::Class(n, _) => n, SInfo::Prim(_) => Seq::empty() } }
/// the library of a declared class type: none for a system class; that of a class must be declared
pub open spec fn sp_inline_lib(st: St, i: SInfo) -> Option<Option<Text>> {
  match i {
    SInfo::Sys(_) => Some(None),
    SInfo::Class(_, l) => if st.libs.contains_key(l) { Some(Some(st.libs[l])) } else { None },
    SInfo::Prim(_) => None,
  }
}
pub open spec fn class_head(b: B) -> bool { b.len() > 0 && (1 <= b[0] <= 5 || b[0] == 12) }
#[verifier::opaque]
pub open spec fn sp_untyped(st1: St, b1: B) -> Option<(SVR, B, St)> decreases b1.len(), 1int, 1int {
  if hd(b1, 8) { match s_typed(b1) { None => None, Some((v, r)) => Some((SVR::V(v), r, st1)) } }
  else if hd(b1, 6) { match sp_ostr(st1, b1) { None => None, Some(((_, t), r, st2)) => Some((SVR::V(SV::Str(t)), r, st2)) } }
  else if class_head(b1) { match sp_classes(st1, b1) { None => None, Some(((_, o), r, st2)) => Some((SVR::V(o), r, st2)) } }
  else { match s_refnull(b1) { None => None, Some((v, r)) => Some((v, r, st1)) } }
}
/// the head of an instance: its ID and class; an instance that defines its class makes the definition known
#[verifier::opaque]
pub open spec fn sp_classhead(st: St, b: B) -> Option<((u32, SC), B, St)> {
  if hd(b, 1) {
    match s_classid(b) { None => None, Some(((id, m), r)) => if !st.classes.contains_key(m) { None } else { match decl(st, id) { None => None, Some(st2) => Some(((id, st.classes[m]), r, st2)) } } }
  } else {
    match s_classdef(b) { None => None, Some(((id, c), r)) => match decl(st, id) { None => None, Some(st2) => Some(((id, c), r, St { classes: st2.classes.insert(id, c), ..st2 })) } }
  }
}
/// the library name of a class: its library must be declared
pub open spec fn sp_classlib(st: St, c: SC) -> Option<Option<Text>> {
  match c.lib { None => Some(None), Some(l) => if st.libs.contains_key(l) { Some(Some(st.libs[l])) } else { None } }
}
#[verifier::opaque]
pub open spec fn sp_classes(st: St, b: B) -> Option<((u32, SV), B, St)> decreases b.len(), 1int, 0int {
  match sp_lib(st, b) { None => None, Some((_, b1, st1)) => match sp_classhead(st1, b1) { None => None, Some(((id, c), b2, st2)) =>
    match sp_classlib(st2, c) { None => None, Some(lib) =>
      if b2.len() >= b.len() { None } else {
        match (match c.types { None => sp_members(st2, b2, c.members.len(), Seq::empty()), Some(ts) => sp_typed(st2, b2, ts, Seq::empty()) }) { None => None, Some((ms, b3, st3)) =>
          if b3.len() >= b.len() { None } else {
            match sp_resolve(st3, b3, ms, Seq::empty()) { None => None, Some((vs, b4, st4)) => Some(((id, SV::Obj(c.name, lib, nm(zip2(c.members, vs)))), b4, st4)) } } } } } } }
}
/// the map that has each name's value; of several values of one name the last
pub open spec fn nm(p: Seq<(Text, SV)>) -> Map<Text, SV> decreases p.len() { if p.len() == 0 { Map::empty() } else { nm(p.drop_last()).insert(p.last().0, p.last().1) } }
#[verifier::opaque]
pub open spec fn sp_members(st: St, b: B, k: nat, acc: Seq<SVR>) -> Option<(Seq<SVR>, B, St)> decreases b.len(), 6int, k {
  if k == 0 { Some((acc, b, st)) } else { match sp_member(st, b, None) { None => None, Some((v, r, st)) => if r.len() >= b.len() { None } else { sp_members(st, r, (k - 1) as nat, acc.push(v)) } } }
}
#[verifier::opaque]
pub open spec fn sp_typed(st: St, b: B, ts: Seq<TI>, acc: Seq<SVR>) -> Option<(Seq<SVR>, B, St)> decreases b.len(), 6int, ts.len() {
  if ts.len() == 0 { Some((acc, b, st)) } else { match sp_member(st, b, Some(ts[0])) { None => None, Some((v, r, st)) => if r.len() >= b.len() { None } else { sp_typed(st, r, ts.drop_first(), acc.push(v)) } } }
}
/// Replaces references: by the object of that ID, which is known already or is the next referenceable.
#[verifier::opaque]
pub open spec fn sp_resolve(st: St, b: B, ms: Seq<SVR>, acc: Seq<SV>) -> Option<(Seq<SV>, B, St)> decreases b.len(), 5int, ms.len() {
  if ms.len() == 0 { Some((acc, b, st)) } else {
    match ms[0] {
      SVR::V(v) => sp_resolve(st, b, ms.drop_first(), acc.push(v)),
      SVR::Null(n) => if n == 1 { sp_resolve(st, b, ms.drop_first(), acc.push(SV::Null)) } else { None },
      SVR::Ref(id) => if st.objs.contains_key(id) { sp_resolve(St { objs: st.objs.remove(id), ..st }, b, ms.drop_first(), acc.push(st.objs[id])) } else {
        match sp_ref(st, b) { None => None, Some((id2, r, st2)) =>
          if id2 != id || !st2.objs.contains_key(id) || r.len() >= b.len() { None } else { sp_resolve(St { objs: st2.objs.remove(id), ..st2 }, r, ms.drop_first(), acc.push(st2.objs[id])) } }
      },
    }
  }
}
/// a referenceable: an instance, array or string, which becomes known under its ID
#[verifier::opaque]
pub open spec fn sp_ref(st: St, b: B) -> Option<(u32, B, St)> decreases b.len(), 4int, 0int {
  if hd(b, 6) { match sp_ostr(st, b) { None => None, Some(((id, t), r, st2)) => Some((id, r, know(st2, id, SV::Str(t)))) } }
  else if inst_head(st, b) { match sp_classes(st, b) { None => None, Some(((id, o), r, st2)) => Some((id, r, know(st2, id, o))) } }
  else { match sp_arrays(st, b) { None => None, Some(((id, a), r, st2)) => Some((id, r, know(st2, id, SV::Arr(a)))) } }
}
pub open spec fn know(st: St, id: u32, v: SV) -> St { St { objs: st.objs.insert(id, v), ..st } }
/// what follows the library record, if there is one
pub open spec fn after_lib(b: B) -> B { match s_library(b) { None => b, Some((_, r)) => r } }
pub open spec fn inst_head(st: St, b: B) -> bool { let c = after_lib(b); c.len() > 0 && 1 <= c[0] <= 5 }
pub open spec fn arr_head(b: B) -> bool { b.len() > 0 && (b[0] == 7 || 15 <= b[0] <= 17) }
#[verifier::opaque]
pub open spec fn sp_arrays(st: St, b: B) -> Option<((u32, Seq<SV>), B, St)> decreases b.len(), 1int, 0int {
  match sp_lib(st, b) { None => None, Some((_, b1, st1)) => if b1.len() > b.len() { None } else { sp_array(st1, b1) } }
}
#[verifier::opaque]
pub open spec fn sp_array(st1: St, b1: B) -> Option<((u32, Seq<SV>), B, St)> decreases b1.len(), 0int, 9int {
  if hd(b1, 16) { sp_aso(st1, b1) } else if hd(b1, 15) { sp_asp(st1, b1) } else if hd(b1, 17) { sp_ass(st1, b1) } else if hd(b1, 7) { sp_ba(st1, b1) } else { None }
}
#[verifier::opaque]
pub open spec fn sp_aso(st: St, b: B) -> Option<((u32, Seq<SV>), B, St)> decreases b.len(), 0int, 0int {
  match s_aso(b) { None => None, Some(((id, n), r)) => match decl(st, id) { None => None, Some(st2) => if r.len() >= b.len() { None } else {
    match sp_am(st2, r, n as nat, None) { None => None, Some((vs, r2, st3)) => Some(((id, vs), r2, st3)) } } } }
}
#[verifier::opaque]
pub open spec fn sp_ass(st: St, b: B) -> Option<((u32, Seq<SV>), B, St)> decreases b.len(), 0int, 0int {
  match s_ass(b) { None => None, Some(((id, n), r)) => match decl(st, id) { None => None, Some(st2) => if r.len() >= b.len() { None } else {
    match sp_am(st2, r, n as nat, Some((BinaryType::StringArray, None))) { None => None, Some((vs, r2, st3)) => Some(((id, vs), r2, st3)) } } } }
}
#[verifier::opaque]
pub open spec fn sp_asp(st: St, b: B) -> Option<((u32, Seq<SV>), B, St)> {
  match s_asp(b) { None => None, Some((((id, n), t), r)) => match decl(st, id) { None => None, Some(st2) =>
    match s_prims(r, t, n as nat, Seq::empty()) { None => None, Some((vs, r2)) => Some(((id, vs), r2, st2)) } } }
}
#[verifier::opaque]
pub open spec fn sp_ba(st: St, b: B) -> Option<((u32, Seq<SV>), B, St)> decreases b.len(), 0int, 0int {
  match s_ba(b) { None => None, Some((a, r)) => match decl(st, a.id) { None => None, Some(st2) => match cprod(a.lens, 1) { None => None, Some(n) => if r.len() >= b.len() { None } else {
    match sp_am(st2, r, n, Some(a.ti)) { None => None, Some((vs, r2, st3)) => Some(((a.id, shape(vs, a.lens.len() - 1, a.lens)), r2, st3)) } } } } }
}
/// the product, if every partial product is a `usize`
pub open spec fn cprod(ls: Seq<usize>, acc: nat) -> Option<nat> decreases ls.len() {
  if ls.len() == 0 { Some(acc) } else if acc * ls[0] <= usize::MAX { cprod(ls.drop_first(), acc * (ls[0] as nat)) } else { None }
}
pub open spec fn prod(ls: Seq<usize>, k: int) -> nat decreases k { if k <= 0 || k > ls.len() { 1 } else { prod(ls, k - 1) * (ls[k - 1] as nat) } }
/// consecutive rows of `l` values
pub open spec fn rows(vs: Seq<SV>, l: nat, acc: Seq<SV>) -> Seq<SV> decreases vs.len() {
  if vs.len() == 0 || l == 0 || l > vs.len() { acc } else { rows(vs.skip(l as int), l, acc.push(SV::Arr(vs.take(l as int)))) }
}
/// nested row by row: first by the last dimension, then by the one before it, ..., but not by the first
pub open spec fn shape(vs: Seq<SV>, k: int, ls: Seq<usize>) -> Seq<SV> decreases k {
  if k <= 0 || k >= ls.len() { vs } else { shape(rows(vs, ls[k] as nat, Seq::empty()), k - 1, ls) }
}
pub open spec fn nulls(n: nat) -> Seq<SVR> { Seq::new(n, |i: int| SVR::V(SV::Null)) }
#[verifier::opaque]
pub open spec fn sp_am_read(st: St, b: B, n: nat, ty: Option<TI>, acc: Seq<SVR>) -> Option<(Seq<SVR>, B, St)> decreases b.len(), 6int, 0int {
  if acc.len() >= n { Some((acc, b, st)) } else {
    match sp_member(st, b, ty) { None => None, Some((v, r, st2)) => if r.len() >= b.len() { None } else {
      match v {
        SVR::Null(c) => if c > n - acc.len() { None } else { sp_am_read(st2, r, n, ty, acc + nulls(c as nat)) },
        _ => sp_am_read(st2, r, n, ty, acc.push(v)),
      } } } }
}
#[verifier::opaque]
pub open spec fn sp_am(st: St, b: B, n: nat, ty: Option<TI>) -> Option<(Seq<SV>, B, St)> decreases b.len(), 7int, 0int {
  match sp_am_read(st, b, n, ty, Seq::empty()) { None => None, Some((ms, r, st2)) => if r.len() > b.len() { None } else { sp_resolve(st2, r, ms, Seq::empty()) } }
}
/// referenceables until something else comes
pub open spec fn rec_head(b: B) -> bool { b.len() > 0 && (1 <= b[0] <= 5 || b[0] == 7 || 15 <= b[0] <= 17) }
pub open spec fn is_ref_head(st: St, b: B) -> bool {
  if hd(b, 12) { match s_library(b) { None => true, Some(((id, _), r)) => st.libs.contains_key(id) || rec_head(r) } } else { rec_head(b) || hd(b, 6) }
}
#[verifier::opaque]
pub open spec fn sp_refs(st: St, b: B) -> Option<(B, St)> decreases b.len() {
  if !is_ref_head(st, b) { Some((b, st)) } else { match sp_ref(st, b) { None => None, Some((_, r, st2)) => if r.len() >= b.len() { None } else { sp_refs(st2, r) } } }
}
/// a call array follows
pub open spec fn ca_head(b: B) -> bool { hd(after_lib(b), 16) }
#[verifier::opaque]
pub open spec fn sp_callarr(st: St, b: B, root: Option<u32>) -> Option<(Option<Seq<SV>>, B, St)> {
  if hd(b, 12) && (match s_library(b) { None => true, Some(((id, _), _)) => st.libs.contains_key(id) }) { None }
  else if !ca_head(b) { Some((None, b, st)) }
  else { match sp_lib(st, b) { None => None, Some((_, b1, st1)) => match sp_aso(st1, b1) { None => None, Some(((id, vs), r, st2)) => if Some(id) == root { Some((Some(vs), r, st2)) } else { None } } } }
}
/// the arguments of a call or return: in the call array, or inline
pub open spec fn pick_args(flags: i32, ca: Option<Seq<SV>>, inline: Option<Seq<SV>>) -> Option<Option<Seq<SV>>> {
  if flags & 4 != 0 { match ca { Some(a) => Some(Some(a)), None => None } }
  else if flags & 8 != 0 { match ca { Some(a) => if a.len() > 0 && a[0] is Arr { Some(Some(a[0]->Arr_0)) } else { None }, None => None } }
  else { Some(inline) }
}
#[verifier::opaque]
pub open spec fn sp_call(st: St, b: B, root: Option<u32>) -> Option<(SCall, B, St)> {
  match sp_lib(st, b) { None => None, Some((_, b1, st1)) => match s_mcall(b1) { None => None, Some((m, b2)) => match sp_callarr(st1, b2, root) { None => None, Some((ca, b3, st3)) =>
    match pick_args(m.flags, ca, m.args) { None => None, Some(args) => Some((SCall { method: m.method, type_name: m.type_name, context: m.context, args }, b3, st3)) } } } }
}
#[verifier::opaque]
pub open spec fn sp_return(st: St, b: B, root: Option<u32>) -> Option<(SRet, B, St)> {
  match sp_lib(st, b) { None => None, Some((_, b1, st1)) => match s_mret(b1) { None => None, Some((m, b2)) => match sp_callarr(st1, b2, root) { None => None, Some((ca, b3, st3)) =>
    match pick_args(m.flags, ca, m.args) { None => None, Some(args) => Some((SRet { value: m.value, context: m.context, args }, b3, st3)) } } } }
}
pub open spec fn is_call(b: B) -> bool { let c = after_lib(b); hd(c, 21) || hd(c, 22) }
#[verifier::opaque]
pub open spec fn sp_cr(st: St, b: B, root: Option<u32>) -> Option<(SCR, B, St)> {
  if hd(after_lib(b), 21) { match sp_call(st, b, root) { None => None, Some((c, r, st2)) => Some((SCR::Call(c), r, st2)) } }
  else { match sp_return(st, b, root) { None => None, Some((c, r, st2)) => Some((SCR::Return(c), r, st2)) } }
}
#[verifier::opaque]
pub open spec fn sp_opt_cr(st: St, b: B, root: Option<u32>) -> Option<(Option<SCR>, B, St)> {
  if !is_call(b) { Some((None, b, st)) } else { match sp_cr(st, b, root) { None => None, Some((c, r, st2)) => Some((Some(c), r, st2)) } }
}
/// the value that a message yields
#[verifier::opaque]
pub open spec fn sp_root(st: St, root: Option<u32>, cr: Option<SCR>) -> Option<SMsg> {
  match cr {
    Some(SCR::Call(c)) => Some(SMsg::Call(c)),
    Some(SCR::Return(c)) => Some(SMsg::Return(c)),
    None => match root { None => Some(SMsg::Value(SV::Null)), Some(id) => if st.objs.contains_key(id) { Some(SMsg::Value(st.objs[id])) } else { None } },
  }
}
#[verifier::opaque]
pub open spec fn sp_message(b: B) -> Option<SMsg> {
  match s_header(b) { None => None, Some((root, b1)) => match sp_refs(st0(), b1) { None => None, Some((b2, st2)) =>
    match sp_opt_cr(st2, b2, root) { None => None, Some((cr, b3, st3)) => match sp_refs(st3, b3) { None => None, Some((b4, st4)) =>
      match s_end(b4) { None => None, Some((_, b5)) => if b5.len() > 0 { None } else { sp_root(st4, root, cr) } } } } } }
}

// ---------------------------------------------------------------- vocabulary of the contracts
pub open spec fn zip2<A, C>(a: Seq<A>, b: Seq<C>) -> Seq<(A, C)> { Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
/// returns what `s` says: its value and the rest of the input, or an error
pub open spec fn ok_<'a, T: DV, E>(r: IResult<&'a [u8], T, E>, s: Option<(T::S, B)>) -> bool {
  match r { Ok((i, o)) => s == Some((o.dv(), i@)), Err(_) => s is None }
}
/// as `ok_`, of a parser with a state, which becomes `t`
pub open spec fn ok3<'a, T: DV, E>(r: IResult<&'a [u8], T, E>, s: Option<(T::S, B, St)>, t: St) -> bool {
  match r { Ok((i, o)) => s == Some((o.dv(), i@, t)), Err(_) => s is None }
}
/// an error leaves the state as it was, or the object that starts here can not be read any more since its ID is taken
pub open spec fn unchanged<'a, T, E>(r: IResult<&'a [u8], T, E>, st: St, t: St, id: Option<u32>) -> bool { is_error(r) ==> t == st || dead(t, id) }
pub open spec fn dead(t: St, id: Option<u32>) -> bool { id is Some && t.ids.contains(id->Some_0) }
/// IDs are not forgotten
pub open spec fn mono(st: St, t: St) -> bool { st.ids.subset_of(t.ids) }
pub open spec fn cls_id(c: B) -> Option<u32> {
  if hd(c, 1) { match s_classid(c) { None => None, Some(((id, _), _)) => Some(id) } } else { match s_classdef(c) { None => None, Some(((id, _), _)) => Some(id) } }
}
pub open spec fn aso_id(c: B) -> Option<u32> { match s_aso(c) { None => None, Some(((id, _), _)) => Some(id) } }
pub open spec fn ass_id(c: B) -> Option<u32> { match s_ass(c) { None => None, Some(((id, _), _)) => Some(id) } }
pub open spec fn asp_id(c: B) -> Option<u32> { match s_asp(c) { None => None, Some((((id, _), _), _)) => Some(id) } }
pub open spec fn ba_id(c: B) -> Option<u32> { match s_ba(c) { None => None, Some((a, _)) => Some(a.id) } }
pub open spec fn arr_id(c: B) -> Option<u32> { if hd(c, 16) { aso_id(c) } else if hd(c, 15) { asp_id(c) } else if hd(c, 17) { ass_id(c) } else if hd(c, 7) { ba_id(c) } else { None } }
/// a library record that can not be read, or that declares a library again
pub open spec fn bad_lib(st: St, b: B) -> bool { hd(b, 12) && (match s_library(b) { None => true, Some(((id, _), _)) => st.libs.contains_key(id) }) }
/// a referenceable starts here that can not be read
pub open spec fn stuck(st: St, b: B) -> bool { is_ref_head(st, b) && sp_ref(st, b) is None }
pub open spec fn hard<'a, T, E>(r: IResult<&'a [u8], T, E>) -> bool { r is Err && !is_error(r) }
pub open spec fn shrinks<'a, T, E>(r: IResult<&'a [u8], T, E>, b: B) -> bool { r is Ok ==> r->Ok_0.0@.len() < b.len() }
pub open spec fn is_error<'a, T, E>(r: IResult<&'a [u8], T, E>) -> bool { r is Err && r->Err_0 is Error }
pub open spec fn is_failure<T, E>(r: Result<T, nom::Err<E>>) -> bool { r is Err && r->Err_0 is Failure }
}

/// What the crate's types stand for.
pub mod dvs {
use crate::prelude::*;
use crate::spec::*;
use crate::enumeration::{BinaryType, PrimitiveType, BinaryArrayType};
use crate::data_type::*;
use crate::data_type::{Boolean, Char};
use crate::common::*;
use crate::record::*;
use crate::value;
use crate::value::{Value, Object};
use crate::binary_parser::{BinaryParser, Class, RefId, ValueOrRef, MethodCallOrReturn};
use crate::{RemotingMessage, MethodCall, MethodReturn};

/// the views of a value's elements and members; `ax` says that they are those of the prelude
pub uninterp spec fn arr_sv(v: Vec<Value>) -> Seq<SV>;
pub uninterp spec fn map_sv(v: HashMap<&str, Value>) -> Map<Text, SV>;

impl DV for BinaryType { type S = BinaryType; open spec fn dv(&self) -> BinaryType { *self } }
impl DV for PrimitiveType { type S = PrimitiveType; open spec fn dv(&self) -> PrimitiveType { *self } }
impl DV for BinaryArrayType { type S = BinaryArrayType; open spec fn dv(&self) -> BinaryArrayType { *self } }
impl DV for RecordType { type S = RecordType; open spec fn dv(&self) -> RecordType { *self } }
impl DV for Boolean { type S = bool; open spec fn dv(&self) -> bool { self.0 } }
impl DV for Byte { type S = u8; open spec fn dv(&self) -> u8 { self.0 } }
impl DV for Char { type S = u32; open spec fn dv(&self) -> u32 { self.0 as u32 } }
impl DV for crate::data_type::Decimal { type S = crate::prelude::rust_decimal::Decimal; open spec fn dv(&self) -> crate::prelude::rust_decimal::Decimal { self.0 } }
impl DV for Double { type S = f64; open spec fn dv(&self) -> f64 { self.0 } }
impl DV for Single { type S = f32; open spec fn dv(&self) -> f32 { self.0 } }
impl DV for Int8 { type S = i8; open spec fn dv(&self) -> i8 { self.0 } }
impl DV for Int16 { type S = i16; open spec fn dv(&self) -> i16 { self.0 } }
impl DV for Int32 { type S = i32; open spec fn dv(&self) -> i32 { self.0 } }
impl DV for Int64 { type S = i64; open spec fn dv(&self) -> i64 { self.0 } }
impl DV for UInt16 { type S = u16; open spec fn dv(&self) -> u16 { self.0 } }
impl DV for UInt32 { type S = u32; open spec fn dv(&self) -> u32 { self.0 } }
impl DV for UInt64 { type S = u64; open spec fn dv(&self) -> u64 { self.0 } }
impl DV for crate::data_type::TimeSpan { type S = i64; open spec fn dv(&self) -> i64 { self.0 } }
impl DV for crate::data_type::DateTime { type S = i64; open spec fn dv(&self) -> i64 { self.0.0 } }
impl<'s> DV for LengthPrefixedString<'s> { type S = Text; open spec fn dv(&self) -> Text { self.0@ } }
impl<'i> DV for ClassTypeInfo<'i> { type S = (Text, u32); open spec fn dv(&self) -> (Text, u32) { (self.type_name.dv(), self.library_id@) } }

impl From_<Boolean> for bool { open spec fn from_spec(a: Boolean) -> bool { a.0 } #[verifier::external_body] fn from_(a: Boolean) -> (r: bool) { unimplemented!() } }
impl From_<Byte> for u8 { open spec fn from_spec(a: Byte) -> u8 { a.0 } #[verifier::external_body] fn from_(a: Byte) -> (r: u8) { unimplemented!() } }
impl From_<Char> for char { open spec fn from_spec(a: Char) -> char { a.0 } #[verifier::external_body] fn from_(a: Char) -> (r: char) { unimplemented!() } }
impl From_<Double> for f64 { open spec fn from_spec(a: Double) -> f64 { a.0 } #[verifier::external_body] fn from_(a: Double) -> (r: f64) { unimplemented!() } }
impl From_<Single> for f32 { open spec fn from_spec(a: Single) -> f32 { a.0 } #[verifier::external_body] fn from_(a: Single) -> (r: f32) { unimplemented!() } }
impl From_<Int8> for i8 { open spec fn from_spec(a: Int8) -> i8 { a.0 } #[verifier::external_body] fn from_(a: Int8) -> (r: i8) { unimplemented!() } }
impl From_<Int16> for i16 { open spec fn from_spec(a: Int16) -> i16 { a.0 } #[verifier::external_body] fn from_(a: Int16) -> (r: i16) { unimplemented!() } }
impl From_<Int32> for i32 { open spec fn from_spec(a: Int32) -> i32 { a.0 } #[verifier::external_body] fn from_(a: Int32) -> (r: i32) { unimplemented!() } }
impl From_<Int64> for i64 { open spec fn from_spec(a: Int64) -> i64 { a.0 } #[verifier::external_body] fn from_(a: Int64) -> (r: i64) { unimplemented!() } }
impl From_<UInt16> for u16 { open spec fn from_spec(a: UInt16) -> u16 { a.0 } #[verifier::external_body] fn from_(a: UInt16) -> (r: u16) { unimplemented!() } }
impl From_<UInt32> for u32 { open spec fn from_spec(a: UInt32) -> u32 { a.0 } #[verifier::external_body] fn from_(a: UInt32) -> (r: u32) { unimplemented!() } }
impl From_<UInt64> for u64 { open spec fn from_spec(a: UInt64) -> u64 { a.0 } #[verifier::external_body] fn from_(a: UInt64) -> (r: u64) { unimplemented!() } }
impl From_<crate::data_type::TimeSpan> for i64 { open spec fn from_spec(a: crate::data_type::TimeSpan) -> i64 { a.0 } #[verifier::external_body] fn from_(a: crate::data_type::TimeSpan) -> (r: i64) { unimplemented!() } }
impl From_<crate::data_type::DateTime> for i64 { open spec fn from_spec(a: crate::data_type::DateTime) -> i64 { a.0.0 } #[verifier::external_body] fn from_(a: crate::data_type::DateTime) -> (r: i64) { unimplemented!() } }
impl TryFrom_<Int32> for usize {
  open spec fn try_spec(a: Int32) -> Option<usize> { if a.0 >= 0 { Some(a.0 as usize) } else { None } }
  #[verifier::external_body] fn try_from_(a: Int32) -> (r: Result<usize, TryFromIntError>) { unimplemented!() }
}

impl DV for ArrayInfo { type S = (u32, usize); open spec fn dv(&self) -> (u32, usize) { (self.object_id@, self.length) } }
impl<'i> DV for ClassInfo<'i> { type S = (u32, Text, Seq<Text>); open spec fn dv(&self) -> (u32, Text, Seq<Text>) { (self.object_id@, self.name.dv(), self.member_names@) } }
impl<'i> DV for AdditionalTypeInfo<'i> { type S = SInfo; open spec fn dv(&self) -> SInfo { match self {
  AdditionalTypeInfo::Primitive(p) => SInfo::Prim(*p), AdditionalTypeInfo::SystemClass(n) => SInfo::Sys(n.dv()), AdditionalTypeInfo::Class(c) => SInfo::Class(c.type_name.dv(), c.library_id@) } } }
impl<'i> DV for MemberTypeInfo<'i> { type S = Seq<TI>; open spec fn dv(&self) -> Seq<TI> { zip2(self.binary_type_enums@, self.additional_infos@) } }

impl DV for MemberPrimitiveUnTyped { type S = SV; open spec fn dv(&self) -> SV { match self {
  MemberPrimitiveUnTyped::Boolean(v) => SV::Bool(v.dv()), MemberPrimitiveUnTyped::Byte(v) => SV::Byte(v.dv()), MemberPrimitiveUnTyped::Char(v) => SV::Char(v.dv()),
  MemberPrimitiveUnTyped::Decimal(v) => SV::Dec(v.dv()), MemberPrimitiveUnTyped::Double(v) => SV::F64(v.dv()), MemberPrimitiveUnTyped::Int16(v) => SV::I16(v.dv()),
  MemberPrimitiveUnTyped::Int32(v) => SV::I32(v.dv()), MemberPrimitiveUnTyped::Int64(v) => SV::I64(v.dv()), MemberPrimitiveUnTyped::SByte(v) => SV::I8(v.dv()),
  MemberPrimitiveUnTyped::Single(v) => SV::F32(v.dv()), MemberPrimitiveUnTyped::TimeSpan(v) => SV::Span(v.dv()), MemberPrimitiveUnTyped::DateTime(v) => SV::Date(v.dv()),
  MemberPrimitiveUnTyped::UInt16(v) => SV::U16(v.dv()), MemberPrimitiveUnTyped::UInt32(v) => SV::U32(v.dv()), MemberPrimitiveUnTyped::UInt64(v) => SV::U64(v.dv()) } } }
impl DV for MemberPrimitiveTyped { type S = SV; open spec fn dv(&self) -> SV { match self {
  MemberPrimitiveTyped::Boolean(v) => SV::Bool(v.dv()), MemberPrimitiveTyped::Byte(v) => SV::Byte(v.dv()), MemberPrimitiveTyped::Char(v) => SV::Char(v.dv()),
  MemberPrimitiveTyped::Decimal(v) => SV::Dec(v.dv()), MemberPrimitiveTyped::Double(v) => SV::F64(v.dv()), MemberPrimitiveTyped::Int16(v) => SV::I16(v.dv()),
  MemberPrimitiveTyped::Int32(v) => SV::I32(v.dv()), MemberPrimitiveTyped::Int64(v) => SV::I64(v.dv()), MemberPrimitiveTyped::SByte(v) => SV::I8(v.dv()),
  MemberPrimitiveTyped::Single(v) => SV::F32(v.dv()), MemberPrimitiveTyped::TimeSpan(v) => SV::Span(v.dv()), MemberPrimitiveTyped::DateTime(v) => SV::Date(v.dv()),
  MemberPrimitiveTyped::UInt16(v) => SV::U16(v.dv()), MemberPrimitiveTyped::UInt32(v) => SV::U32(v.dv()), MemberPrimitiveTyped::UInt64(v) => SV::U64(v.dv()) } } }
impl<'i> DV for ValueWithCode<'i> { type S = SV; open spec fn dv(&self) -> SV { match self {
  ValueWithCode::Boolean(v) => SV::Bool(v.dv()), ValueWithCode::Byte(v) => SV::Byte(v.dv()), ValueWithCode::Char(v) => SV::Char(v.dv()),
  ValueWithCode::Decimal(v) => SV::Dec(v.dv()), ValueWithCode::Double(v) => SV::F64(v.dv()), ValueWithCode::Int16(v) => SV::I16(v.dv()),
  ValueWithCode::Int32(v) => SV::I32(v.dv()), ValueWithCode::Int64(v) => SV::I64(v.dv()), ValueWithCode::SByte(v) => SV::I8(v.dv()),
  ValueWithCode::Single(v) => SV::F32(v.dv()), ValueWithCode::TimeSpan(v) => SV::Span(v.dv()), ValueWithCode::DateTime(v) => SV::Date(v.dv()),
  ValueWithCode::UInt16(v) => SV::U16(v.dv()), ValueWithCode::UInt32(v) => SV::U32(v.dv()), ValueWithCode::UInt64(v) => SV::U64(v.dv()),
  ValueWithCode::Null => SV::Null, ValueWithCode::String(v) => SV::Str(v.dv()) } } }
impl<'i> DV for ArrayOfValueWithCode<'i> { type S = Seq<SV>; open spec fn dv(&self) -> Seq<SV> { self.0@ } }
impl<'i> DV for StringValueWithCode<'i> { type S = Text; open spec fn dv(&self) -> Text { self.0.dv() } }
impl<'i> DV for BinaryLibrary<'i> { type S = (u32, Text); open spec fn dv(&self) -> (u32, Text) { (self.library_id@, self.library_name.dv()) } }
impl<'i> DV for BinaryObjectString<'i> { type S = (u32, Text); open spec fn dv(&self) -> (u32, Text) { (self.object_id@, self.value.dv()) } }
impl DV for ClassWithId { type S = (u32, u32); open spec fn dv(&self) -> (u32, u32) { (self.object_id@, self.metadata_id@) } }
impl<'i> DV for SystemClassWithMembers<'i> { type S = (u32, SC); open spec fn dv(&self) -> (u32, SC) { (self.class_info.dv().0, SC { name: self.class_info.dv().1, members: self.class_info.dv().2, lib: None, types: None }) } }
impl<'i> DV for ClassWithMembers<'i> { type S = (u32, SC); open spec fn dv(&self) -> (u32, SC) { (self.class_info.dv().0, SC { name: self.class_info.dv().1, members: self.class_info.dv().2, lib: Some(self.library_id@), types: None }) } }
impl<'i> DV for SystemClassWithMembersAndTypes<'i> { type S = (u32, SC); open spec fn dv(&self) -> (u32, SC) { (self.class_info.dv().0, SC { name: self.class_info.dv().1, members: self.class_info.dv().2, lib: None, types: Some(self.member_type_info.dv()) }) } }
impl<'i> DV for ClassWithMembersAndTypes<'i> { type S = (u32, SC); open spec fn dv(&self) -> (u32, SC) { (self.class_info.dv().0, SC { name: self.class_info.dv().1, members: self.class_info.dv().2, lib: Some(self.library_id@), types: Some(self.member_type_info.dv()) }) } }
impl<'i> DV for Class<'i> { type S = SC; open spec fn dv(&self) -> SC { match self { Class::ClassWithMembers(c) => c.dv().1, Class::ClassWithMembersAndTypes(c) => c.dv().1, Class::SystemClassWithMembers(c) => c.dv().1, Class::SystemClassWithMembersAndTypes(c) => c.dv().1 } } }
impl DV for MemberReference { type S = u32; open spec fn dv(&self) -> u32 { self.id_ref@ } }
impl DV for ObjectNull { type S = usize; open spec fn dv(&self) -> usize { 1 } }
impl DV for ObjectNullMultiple { type S = usize; open spec fn dv(&self) -> usize { self.null_count.0 as usize } }
impl DV for ObjectNullMultiple256 { type S = usize; open spec fn dv(&self) -> usize { self.null_count.0 as usize } }
impl DV for SerializationHeader { type S = Option<u32>; open spec fn dv(&self) -> Option<u32> { self.root_id.dv() } }
impl DV for MessageEnd { type S = (); open spec fn dv(&self) -> () { () } }
impl DV for ArraySingleObject { type S = (u32, usize); open spec fn dv(&self) -> (u32, usize) { self.array_info.dv() } }
impl DV for ArraySingleString { type S = (u32, usize); open spec fn dv(&self) -> (u32, usize) { self.array_info.dv() } }
impl DV for ArraySinglePrimitive { type S = ((u32, usize), PrimitiveType); open spec fn dv(&self) -> ((u32, usize), PrimitiveType) { (self.array_info.dv(), self.primitive_type) } }
impl<'i> DV for BinaryArray<'i> { type S = SBA; open spec fn dv(&self) -> SBA { SBA { id: self.object_id@, lens: self.lengths@, ti: (self.type_enum, self.additional_type_info.dv()) } } }
impl DV for MessageFlags { type S = i32; open spec fn dv(&self) -> i32 { self.b } }
impl<'i> DV for BinaryMethodCall<'i> { type S = SMC; open spec fn dv(&self) -> SMC { SMC { flags: self.message_enum.dv(), method: self.method_name.dv(), type_name: self.type_name.dv(), context: self.call_context.dv(), args: self.args.dv() } } }
impl<'i> DV for BinaryMethodReturn<'i> { type S = SMR; open spec fn dv(&self) -> SMR { SMR { flags: self.message_enum.dv(), value: self.return_value.dv(), context: self.call_context.dv(), args: self.args.dv() } } }
impl<'i> DV for Value<'i> { type S = SV; open spec fn dv(&self) -> SV { match self {
  Value::Object(o) => SV::Obj(o.class@, match o.library { Some(l) => Some(l@), None => None }, map_sv(o.members)), Value::Array(v) => SV::Arr(arr_sv(*v)),
  Value::Boolean(v) => SV::Bool(*v), Value::Byte(v) => SV::Byte(*v), Value::Char(v) => SV::Char(*v as u32), Value::Decimal(d) => SV::Dec(d.0.0),
  Value::Double(v) => SV::F64(*v), Value::Int16(v) => SV::I16(*v), Value::Int32(v) => SV::I32(*v), Value::Int64(v) => SV::I64(*v), Value::SByte(v) => SV::I8(*v),
  Value::Single(v) => SV::F32(*v), Value::TimeSpan(t) => SV::Span(t.0.0), Value::DateTime(t) => SV::Date(t.0.0.0), Value::UInt16(v) => SV::U16(*v),
  Value::UInt32(v) => SV::U32(*v), Value::UInt64(v) => SV::U64(*v), Value::String(s) => SV::Str(s@), Value::Null => SV::Null } } }
impl<'i> DV for Object<'i> { type S = SV; open spec fn dv(&self) -> SV { SV::Obj(self.class@, self.library.dv(), self.members@) } }
impl DV for RefId { type S = u32; open spec fn dv(&self) -> u32 { self.0@ } }
impl<'i> DV for ValueOrRef<'i> { type S = SVR; open spec fn dv(&self) -> SVR { match self { ValueOrRef::Value(v) => SVR::V(v.dv()), ValueOrRef::Null(n) => SVR::Null(*n), ValueOrRef::Ref(r) => SVR::Ref(r.dv()) } } }
impl<T: DV> DV for Vec<T> { type S = Seq<T::S>; open spec fn dv(&self) -> Seq<T::S> { self@ } }
impl<'i> DV for BinaryParser<'i> { type S = St; open spec fn dv(&self) -> St { St { libs: self.binary_libraries@, classes: self.classes@, objs: self.objects@, ids: self.object_ids@ } } }
impl<'i> DV for MethodCall<'i> { type S = SCall; open spec fn dv(&self) -> SCall { SCall { method: self.method_name@, type_name: self.type_name@, context: self.call_context.dv(), args: self.args.dv() } } }
impl<'i> DV for MethodReturn<'i> { type S = SRet; open spec fn dv(&self) -> SRet { SRet { value: self.return_value.dv(), context: self.call_context.dv(), args: self.args.dv() } } }
impl<'i> DV for MethodCallOrReturn<'i> { type S = SCR; open spec fn dv(&self) -> SCR { match self { MethodCallOrReturn::MethodCall(c) => SCR::Call(c.dv()), MethodCallOrReturn::MethodReturn(c) => SCR::Return(c.dv()) } } }
impl<'i> DV for RemotingMessage<'i> { type S = SMsg; open spec fn dv(&self) -> SMsg { match self { RemotingMessage::MethodCall(c) => SMsg::Call(c.dv()), RemotingMessage::MethodReturn(c) => SMsg::Return(c.dv()), RemotingMessage::Value(v) => SMsg::Value(v.dv()) } } }

/// bitflags
pub open spec fn one_bit(y: i32) -> bool { y == 0x1i32 || y == 0x2i32 || y == 0x4i32 || y == 0x8i32 || y == 0x10i32 || y == 0x20i32 || y == 0x40i32 || y == 0x80i32 || y == 0x100i32 || y == 0x200i32 || y == 0x400i32 || y == 0x800i32 || y == 0x1000i32 || y == 0x2000i32 || y == 0x4000i32 || y == 0x8000i32 || y == 0x10000i32 || y == 0x20000i32 || y == 0x40000i32 || y == 0x80000i32 || y == 0x100000i32 || y == 0x200000i32 || y == 0x400000i32 || y == 0x800000i32 || y == 0x1000000i32 || y == 0x2000000i32 || y == 0x4000000i32 || y == 0x8000000i32 || y == 0x10000000i32 || y == 0x20000000i32 || y == 0x40000000i32 }
impl MessageFlags {
  pub fn intersects(&self, o: MessageFlags) -> (r: bool) ensures r == ((self.b & o.b) != 0) { (self.b & o.b) != 0 }
  pub fn contains(&self, o: MessageFlags) -> (r: bool) ensures r == ((self.b & o.b) == o.b), one_bit(o.b) ==> r == ((self.b & o.b) != 0) {
    let (x, y) = (self.b, o.b);
    assert((y == 0x1i32 || y == 0x2i32 || y == 0x4i32 || y == 0x8i32 || y == 0x10i32 || y == 0x20i32 || y == 0x40i32 || y == 0x80i32 || y == 0x100i32 || y == 0x200i32 || y == 0x400i32 || y == 0x800i32 || y == 0x1000i32 || y == 0x2000i32 || y == 0x4000i32 || y == 0x8000i32 || y == 0x10000i32 || y == 0x20000i32 || y == 0x40000i32 || y == 0x80000i32 || y == 0x100000i32 || y == 0x200000i32 || y == 0x400000i32 || y == 0x800000i32 || y == 0x1000000i32 || y == 0x2000000i32 || y == 0x4000000i32 || y == 0x8000000i32 || y == 0x10000000i32 || y == 0x20000000i32 || y == 0x40000000i32) ==> (((x & y) == y) == ((x & y) != 0))) by (bit_vector);
    (self.b & o.b) == o.b
  }
  pub fn is_empty(&self) -> (r: bool) ensures r == (self.b == 0) { self.b == 0 }
  pub fn bits(&self) -> (r: i32) ensures r == self.b { self.b }
  pub fn union(self, o: MessageFlags) -> (r: MessageFlags) ensures r.b == (self.b | o.b) { MessageFlags { b: self.b | o.b } }
  pub fn intersection(self, o: MessageFlags) -> (r: MessageFlags) ensures r.b == (self.b & o.b) { MessageFlags { b: self.b & o.b } }
  pub fn from_bits_retain(b: i32) -> (r: MessageFlags) ensures r.b == b { MessageFlags { b } }
}
/// nom's Parser for the enumerations
impl PrimitiveType {
  #[verifier::external_body]
  pub fn parse_exact<'a>(self, input: &'a [u8]) -> (r: IResult<&'a [u8], PrimitiveType, crate::prelude::nom::error::Error<&'a [u8]>>)
    ensures ok_(r, match s_ptype(input@) { Some((t, b)) => if t == self { Some((t, b)) } else { None }, None => None }), shrinks(r, input@) { unimplemented!() }
}
/// 2.7: a class is known with one type for each of its members
pub open spec fn sc_ok(c: SC) -> bool { c.types is Some ==> tis_ok(c.types->Some_0) && c.types->Some_0.len() == c.members.len() }
pub open spec fn wf(st: St) -> bool { wfc(st.classes) }
#[verifier::opaque]
pub open spec fn wfc(m: Map<u32, SC>) -> bool { forall|id: u32| #[trigger] m.contains_key(id) ==> sc_ok(m[id]) }
pub open spec fn binary_parser_BinaryParser_default(p: BinaryParser) -> bool { p.dv() == st0() }
}
pub mod ax {
use crate::unf::*;
use crate::enumeration::*;
use crate::prelude::*;
use crate::spec::*;
use crate::dvs::*;
use crate::value::Value;
/// a collection in memory (Vec: at most `isize::MAX` bytes)
#[verifier::external_body]
pub broadcast proof fn ax_vec_values(v: Vec<Value>) ensures (#[trigger] v@).len() <= isize::MAX {}
#[verifier::external_body]
pub broadcast proof fn ax_vec_members(v: Vec<crate::binary_parser::ValueOrRef>) ensures (#[trigger] v@).len() <= isize::MAX {}
#[verifier::external_body]
pub broadcast proof fn ax_arr(v: Vec<Value>) ensures #[trigger] arr_sv(v) == v@ {}
#[verifier::external_body]
pub broadcast proof fn ax_map(v: HashMap<&str, Value>) ensures #[trigger] map_sv(v) == v@ {}
#[verifier::external_body]
pub broadcast proof fn ax_nz(n: NonZeroU32) ensures #[trigger] n@ != 0 {}
pub broadcast proof fn wfc_get(m: Map<u32, SC>, id: u32) requires #[trigger] wfc(m), #[trigger] m.contains_key(id) ensures sc_ok(m[id]) { reveal(wfc); }
pub broadcast proof fn wfc_insert(m: Map<u32, SC>, id: u32, c: SC) requires wfc(m), sc_ok(c) ensures #[trigger] wfc(m.insert(id, c)) { reveal(wfc); }
pub broadcast proof fn h_s_aso(b: B) requires !hd(b, 16) ensures (#[trigger] s_aso(b)) is None { reveal(s_aso); }
pub broadcast proof fn h_s_ass(b: B) requires !hd(b, 17) ensures (#[trigger] s_ass(b)) is None { reveal(s_ass); }
pub broadcast proof fn h_s_asp(b: B) requires !hd(b, 15) ensures (#[trigger] s_asp(b)) is None { reveal(s_asp); }
pub broadcast proof fn h_s_ba(b: B) requires !hd(b, 7) ensures (#[trigger] s_ba(b)) is None { reveal(s_ba); }
pub broadcast proof fn h_s_classid(b: B) requires !hd(b, 1) ensures (#[trigger] s_classid(b)) is None { reveal(s_classid); }
pub broadcast proof fn h_s_library(b: B) requires !hd(b, 12) ensures (#[trigger] s_library(b)) is None { reveal(s_library); }
pub broadcast proof fn h_s_ostr(b: B) requires !hd(b, 6) ensures (#[trigger] s_ostr(b)) is None { reveal(s_ostr); }
pub broadcast proof fn h_s_classdef(b: B) requires !(b.len() > 0 && 2 <= b[0] <= 5) ensures (#[trigger] s_classdef(b)) is None { reveal(s_classdef); }
pub broadcast proof fn wfc_empty() ensures #[trigger] wfc(Map::<u32, SC>::empty()) { reveal(wfc); }
pub broadcast proof fn remove_absent(m: Map<u32, SV>, k: u32) requires !m.contains_key(k) ensures #[trigger] m.remove(k) == m { assert(m.remove(k) =~= m); }
pub broadcast proof fn bad_lib_classes(st: St, b: B) requires #[trigger] bad_lib(st, b) ensures (#[trigger] sp_classes(st, b)) is None {
  d_sp_classes(st, b); reveal(sp_classhead); reveal(s_classdef); reveal(sp_lib);
}
pub broadcast proof fn bad_lib_member(st: St, b: B, ty: Option<TI>) requires #[trigger] bad_lib(st, b), ty is Some ==> ti_ok(ty->Some_0) && !(ty->Some_0.0 is Primitive) ensures (#[trigger] sp_member(st, b, ty)) is None {
  reveal(sp_lib); reveal(s_refnull); reveal(s_null); reveal(s_library); bad_lib_classes(st, b);
  d_sp_untyped(st, b); d_sp_member(st, b, None); d_sp_member(st, b, ty);
}
pub broadcast proof fn bad_lib_arrays(st: St, b: B) requires #[trigger] bad_lib(st, b) ensures (#[trigger] sp_arrays(st, b)) is None {
  d_sp_arrays(st, b); d_sp_array(st, b); reveal(sp_lib);
}
/// an object whose ID is taken can not be read
pub broadcast proof fn dead_classes(t: St, c: B, t2: St, b: B) requires #[trigger] dead(t, cls_id(c)), t.ids == t2.ids, c == after_lib(b), inst_head(t, b) ensures #[trigger] stuck(t2, b) {
  reveal(s_library); reveal(sp_lib); reveal(sp_classhead); d_sp_ref(t2, b); d_sp_classes(t2, b); reveal(s_classid);
}
pub broadcast proof fn dead_arrays(t: St, c: B, t2: St, b: B) requires #[trigger] dead(t, arr_id(c)), t.ids == t2.ids, c == after_lib(b), arr_head(c) ensures #[trigger] stuck(t2, b) {
  reveal(s_library); reveal(sp_lib); d_sp_ref(t2, b); d_sp_arrays(t2, b); d_sp_array(t2, c);
  if let Some((_, b1, t1)) = sp_lib(t2, b) { d_sp_array(t1, c); d_sp_aso(t1, c); d_sp_ass(t1, c); d_sp_ba(t1, c); reveal(sp_asp); }
}
pub broadcast proof fn dead_aso(t: St, c: B, t2: St, b: B) requires #[trigger] dead(t, aso_id(c)), t.ids == t2.ids, c == after_lib(b), hd(c, 16) ensures #[trigger] stuck(t2, b) {
  assert(dead(t, arr_id(c))); dead_arrays(t, c, t2, b);
}
pub broadcast proof fn stuck_refs(st: St, b: B) requires #[trigger] stuck(st, b) ensures (#[trigger] sp_refs(st, b)) is None { d_sp_refs(st, b); }
pub broadcast proof fn no_refs(st: St, b: B) requires !is_ref_head(st, b) ensures (#[trigger] sp_refs(st, b)) == Some((b, st)) { d_sp_refs(st, b); }
pub broadcast proof fn bad_lib_call(st: St, b: B, root: Option<u32>) requires #[trigger] bad_lib(st, b) ensures (#[trigger] sp_call(st, b, root)) is None {
  reveal(sp_call); reveal(s_mcall); reveal(sp_lib);
}
pub broadcast proof fn bad_lib_return(st: St, b: B, root: Option<u32>) requires #[trigger] bad_lib(st, b) ensures (#[trigger] sp_return(st, b, root)) is None {
  reveal(sp_return); reveal(s_mret); reveal(sp_lib);
}
pub broadcast group parser { h_s_aso, h_s_ass, h_s_asp, h_s_ba, h_s_classid, h_s_library, h_s_ostr, h_s_classdef, ax_arr, ax_map, ax_nz, ax_vec_values, ax_vec_members, insert_remove, remove_absent, wfc_empty, wfc_get, wfc_insert, bad_lib_member, bad_lib_classes, bad_lib_arrays, bad_lib_call, bad_lib_return, dead_classes, dead_arrays, dead_aso, stuck_refs, no_refs }
pub broadcast proof fn insert_remove(m: Map<u32, Text>, k: u32, v: Text) requires !m.contains_key(k) ensures #[trigger] m.insert(k, v).remove(k) == m { assert(m.insert(k, v).remove(k) =~= m); }
}
