// What the specification implies: the statements of the properties that are not literally the postcondition of one
// function, proved of the specification that the functions are proved against.
pub mod props {
use crate::prelude::*;
use crate::prelude::nom;
use crate::spec::*;
use crate::unf::*;
use crate::enumeration::{BinaryType, PrimitiveType, BinaryArrayType};

// ---------------------------------------------------------------- C10
// Every piece is read from the bytes it consists of: more bytes behind it change nothing.
pub open spec fn ext<T>(a: Option<(T, B)>, c: Option<(T, B)>, e: B) -> bool { a is Some ==> c == Some((a->Some_0.0, a->Some_0.1 + e)) }
pub open spec fn ext3<T>(a: Option<(T, B, St)>, c: Option<(T, B, St)>, e: B) -> bool { a is Some ==> c == Some((a->Some_0.0, a->Some_0.1 + e, a->Some_0.2)) }
pub broadcast proof fn cat_skip(b: B, e: B, k: int) requires 0 <= k <= b.len() ensures (#[trigger] (b + e).skip(k)) == b.skip(k) + e { assert((b + e).skip(k) =~= b.skip(k) + e); }
pub broadcast proof fn cat_take(b: B, e: B, k: int) requires 0 <= k <= b.len() ensures (#[trigger] (b + e).take(k)) == b.take(k) { assert((b + e).take(k) =~= b.take(k)); }
pub broadcast proof fn x_le(b: B, e: B, n: nat) requires n <= b.len() ensures #[trigger] le(b + e, n) == le(b, n) decreases n {
  if n > 0 { cat_skip(b, e, 1); x_le(b.skip(1), e, (n - 1) as nat); }
}
pub broadcast group cat { cat_skip, cat_take, x_le }
pub broadcast proof fn x_s_byte(b: B, e: B) ensures ext(s_byte(b), #[trigger] s_byte(b + e), e) { broadcast use cat; reveal(s_byte); }
pub broadcast proof fn x_s_bool(b: B, e: B) ensures ext(s_bool(b), #[trigger] s_bool(b + e), e) { broadcast use cat; reveal(s_bool); }
pub broadcast proof fn x_s_i8(b: B, e: B) ensures ext(s_i8(b), #[trigger] s_i8(b + e), e) { broadcast use cat; reveal(s_i8); }
pub broadcast proof fn x_s_u16(b: B, e: B) ensures ext(s_u16(b), #[trigger] s_u16(b + e), e) { broadcast use cat; reveal(s_u16); }
pub broadcast proof fn x_s_i16(b: B, e: B) ensures ext(s_i16(b), #[trigger] s_i16(b + e), e) { broadcast use cat; reveal(s_i16); }
pub broadcast proof fn x_s_u32(b: B, e: B) ensures ext(s_u32(b), #[trigger] s_u32(b + e), e) { broadcast use cat; reveal(s_u32); }
pub broadcast proof fn x_s_i32(b: B, e: B) ensures ext(s_i32(b), #[trigger] s_i32(b + e), e) { broadcast use cat; reveal(s_i32); }
pub broadcast proof fn x_s_u64(b: B, e: B) ensures ext(s_u64(b), #[trigger] s_u64(b + e), e) { broadcast use cat; reveal(s_u64); }
pub broadcast proof fn x_s_i64(b: B, e: B) ensures ext(s_i64(b), #[trigger] s_i64(b + e), e) { broadcast use cat; reveal(s_i64); }
pub broadcast proof fn x_s_f32(b: B, e: B) ensures ext(s_f32(b), #[trigger] s_f32(b + e), e) { broadcast use cat; reveal(s_f32); }
pub broadcast proof fn x_s_f64(b: B, e: B) ensures ext(s_f64(b), #[trigger] s_f64(b + e), e) { broadcast use cat; reveal(s_f64); }
pub broadcast proof fn x_s_char(b: B, e: B) ensures ext(s_char(b), #[trigger] s_char(b + e), e) { broadcast use cat; reveal(s_char); }
pub broadcast proof fn x_s_ptype(b: B, e: B) ensures ext(s_ptype(b), #[trigger] s_ptype(b + e), e) { broadcast use cat; reveal(s_ptype); }
pub broadcast proof fn x_s_btype(b: B, e: B) ensures ext(s_btype(b), #[trigger] s_btype(b + e), e) { broadcast use cat; reveal(s_btype); }
pub broadcast proof fn x_s_atype(b: B, e: B) ensures ext(s_atype(b), #[trigger] s_atype(b + e), e) { broadcast use cat; reveal(s_atype); }
pub broadcast proof fn x_s_len(b: B, e: B, k: nat) ensures ext(s_len(b, k), #[trigger] s_len(b + e, k), e) decreases 4 - k {
  broadcast use cat; reveal_with_fuel(s_len, 2); if b.len() > 0 && k < 4 { x_s_len(b.skip(1), e, k + 1); }
}
pub broadcast group g1 { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len }
pub broadcast proof fn x_s_str(b: B, e: B) ensures ext(s_str(b), #[trigger] s_str(b + e), e) { broadcast use g1; reveal(s_str); }
pub broadcast group g2 { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len, x_s_str }
pub broadcast proof fn x_s_dec(b: B, e: B) ensures ext(s_dec(b), #[trigger] s_dec(b + e), e) { broadcast use g2; reveal(s_dec); }
pub broadcast proof fn x_s_id(b: B, e: B) ensures ext(s_id(b), #[trigger] s_id(b + e), e) { broadcast use g2; reveal(s_id); }
pub broadcast proof fn x_s_length(b: B, e: B) ensures ext(s_length(b), #[trigger] s_length(b + e), e) { broadcast use g2; reveal(s_length); }
pub broadcast proof fn x_s_root(b: B, e: B) ensures ext(s_root(b), #[trigger] s_root(b + e), e) { broadcast use g2; reveal(s_root); }
pub broadcast proof fn x_s_flags(b: B, e: B) ensures ext(s_flags(b), #[trigger] s_flags(b + e), e) { broadcast use g2; reveal(s_flags); }
pub broadcast group g3 { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len, x_s_str, x_s_dec, x_s_id, x_s_length, x_s_root, x_s_flags }
pub broadcast proof fn x_s_lengths(b: B, e: B, n: nat, acc: Seq<usize>) ensures ext(s_lengths(b, n, acc), #[trigger] s_lengths(b + e, n, acc), e) decreases n {
  broadcast use g3; reveal_with_fuel(s_lengths, 2);
  if n > 0 { if let Some((x, r)) = s_length(b) { x_s_lengths(r, e, (n - 1) as nat, acc.push(x)); } }
}
pub broadcast proof fn x_s_strs(b: B, e: B, n: nat, acc: Seq<Text>) ensures ext(s_strs(b, n, acc), #[trigger] s_strs(b + e, n, acc), e) decreases n {
  broadcast use g3; reveal_with_fuel(s_strs, 2);
  if n > 0 { if let Some((x, r)) = s_str(b) { x_s_strs(r, e, (n - 1) as nat, acc.push(x)); } }
}
pub broadcast proof fn x_s_btypes(b: B, e: B, n: nat, acc: Seq<BinaryType>) ensures ext(s_btypes(b, n, acc), #[trigger] s_btypes(b + e, n, acc), e) decreases n {
  broadcast use g3; reveal_with_fuel(s_btypes, 2);
  if n > 0 { if let Some((x, r)) = s_btype(b) { x_s_btypes(r, e, (n - 1) as nat, acc.push(x)); } }
}
pub broadcast group g4 { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len, x_s_str, x_s_dec, x_s_id, x_s_length, x_s_root, x_s_flags, x_s_lengths, x_s_strs, x_s_btypes }
pub broadcast proof fn x_s_arrayinfo(b: B, e: B) ensures ext(s_arrayinfo(b), #[trigger] s_arrayinfo(b + e), e) { broadcast use g4; reveal(s_arrayinfo); }
pub broadcast proof fn x_s_classinfo(b: B, e: B) ensures ext(s_classinfo(b), #[trigger] s_classinfo(b + e), e) { broadcast use g4; reveal(s_classinfo); }
pub broadcast proof fn x_s_info(b: B, e: B, t: BinaryType) ensures ext(s_info(b, t), #[trigger] s_info(b + e, t), e) { broadcast use g4; reveal(s_info); }
pub broadcast proof fn x_s_prim(b: B, e: B, t: PrimitiveType) ensures ext(s_prim(b, t), #[trigger] s_prim(b + e, t), e) { broadcast use g4; reveal(s_prim); }
pub broadcast group g5 { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len, x_s_str, x_s_dec, x_s_id, x_s_length, x_s_root, x_s_flags, x_s_lengths, x_s_strs, x_s_btypes, x_s_arrayinfo, x_s_classinfo, x_s_info, x_s_prim }
pub broadcast proof fn x_s_ostr(b: B, e: B) ensures ext(s_ostr(b), #[trigger] s_ostr(b + e), e) { broadcast use g5; reveal(s_ostr); }
pub broadcast proof fn x_s_classid(b: B, e: B) ensures ext(s_classid(b), #[trigger] s_classid(b + e), e) { broadcast use g5; reveal(s_classid); }
pub broadcast proof fn x_s_library(b: B, e: B) ensures ext(s_library(b), #[trigger] s_library(b + e), e) { broadcast use g5; reveal(s_library); }
pub broadcast proof fn x_s_infos(b: B, e: B, ts: Seq<BinaryType>, acc: Seq<Option<SInfo>>) ensures ext(s_infos(b, ts, acc), #[trigger] s_infos(b + e, ts, acc), e) decreases ts.len() {
  broadcast use g5; reveal_with_fuel(s_infos, 2);
  if ts.len() > 0 { if let Some((x, r)) = s_info(b, ts[0]) { x_s_infos(r, e, ts.drop_first(), acc.push(x)); } }
}
pub broadcast proof fn x_s_prims(b: B, e: B, t: PrimitiveType, n: nat, acc: Seq<SV>) ensures ext(s_prims(b, t, n, acc), #[trigger] s_prims(b + e, t, n, acc), e) decreases n {
  broadcast use g5; reveal_with_fuel(s_prims, 2);
  if n > 0 { if let Some((x, r)) = s_prim(b, t) { x_s_prims(r, e, t, (n - 1) as nat, acc.push(x)); } }
}
pub broadcast group g6 { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len, x_s_str, x_s_dec, x_s_id, x_s_length, x_s_root, x_s_flags, x_s_lengths, x_s_strs, x_s_btypes, x_s_arrayinfo, x_s_classinfo, x_s_info, x_s_prim, x_s_ostr, x_s_classid, x_s_library, x_s_infos, x_s_prims }
pub broadcast proof fn x_s_typeinfo(b: B, e: B, n: nat) ensures ext(s_typeinfo(b, n), #[trigger] s_typeinfo(b + e, n), e) { broadcast use g6; reveal(s_typeinfo); }
pub broadcast proof fn x_s_vwc(b: B, e: B) ensures ext(s_vwc(b), #[trigger] s_vwc(b + e), e) { broadcast use g6; reveal(s_vwc); }
pub broadcast proof fn x_s_svwc(b: B, e: B) ensures ext(s_svwc(b), #[trigger] s_svwc(b + e), e) { broadcast use g6; reveal(s_svwc); }
pub broadcast proof fn x_s_mref(b: B, e: B) ensures ext(s_mref(b), #[trigger] s_mref(b + e), e) { broadcast use g6; reveal(s_mref); }
pub broadcast proof fn x_s_null1(b: B, e: B) ensures ext(s_null1(b), #[trigger] s_null1(b + e), e) { broadcast use g6; reveal(s_null1); }
pub broadcast proof fn x_s_null256(b: B, e: B) ensures ext(s_null256(b), #[trigger] s_null256(b + e), e) { broadcast use g6; reveal(s_null256); }
pub broadcast proof fn x_s_nullm(b: B, e: B) ensures ext(s_nullm(b), #[trigger] s_nullm(b + e), e) { broadcast use g6; reveal(s_nullm); }
pub broadcast proof fn x_s_typed(b: B, e: B) ensures ext(s_typed(b), #[trigger] s_typed(b + e), e) { broadcast use g6; reveal(s_typed); }
pub broadcast proof fn x_s_header(b: B, e: B) ensures ext(s_header(b), #[trigger] s_header(b + e), e) { broadcast use g6; reveal(s_header); }
pub broadcast proof fn x_s_end(b: B, e: B) ensures ext(s_end(b), #[trigger] s_end(b + e), e) { broadcast use g6; reveal(s_end); }
pub broadcast proof fn x_s_aso(b: B, e: B) ensures ext(s_aso(b), #[trigger] s_aso(b + e), e) { broadcast use g6; reveal(s_aso); }
pub broadcast proof fn x_s_ass(b: B, e: B) ensures ext(s_ass(b), #[trigger] s_ass(b + e), e) { broadcast use g6; reveal(s_ass); }
pub broadcast proof fn x_s_asp(b: B, e: B) ensures ext(s_asp(b), #[trigger] s_asp(b + e), e) { broadcast use g6; reveal(s_asp); }
pub broadcast proof fn x_s_ba(b: B, e: B) ensures ext(s_ba(b), #[trigger] s_ba(b + e), e) { broadcast use g6; reveal(s_ba); }
pub broadcast group g7 { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len, x_s_str, x_s_dec, x_s_id, x_s_length, x_s_root, x_s_flags, x_s_lengths, x_s_strs, x_s_btypes, x_s_arrayinfo, x_s_classinfo, x_s_info, x_s_prim, x_s_ostr, x_s_classid, x_s_library, x_s_infos, x_s_prims, x_s_typeinfo, x_s_vwc, x_s_svwc, x_s_mref, x_s_null1, x_s_null256, x_s_nullm, x_s_typed, x_s_header, x_s_end, x_s_aso, x_s_ass, x_s_asp, x_s_ba }
pub broadcast proof fn x_s_class2(b: B, e: B) ensures ext(s_class2(b), #[trigger] s_class2(b + e), e) { broadcast use g7; reveal(s_class2); }
pub broadcast proof fn x_s_class3(b: B, e: B) ensures ext(s_class3(b), #[trigger] s_class3(b + e), e) { broadcast use g7; reveal(s_class3); }
pub broadcast proof fn x_s_class4(b: B, e: B) ensures ext(s_class4(b), #[trigger] s_class4(b + e), e) { broadcast use g7; reveal(s_class4); }
pub broadcast proof fn x_s_class5(b: B, e: B) ensures ext(s_class5(b), #[trigger] s_class5(b + e), e) { broadcast use g7; reveal(s_class5); }
pub broadcast proof fn x_s_null(b: B, e: B) ensures ext(s_null(b), #[trigger] s_null(b + e), e) { broadcast use g7; reveal(s_null); }
pub broadcast proof fn x_s_vwcs(b: B, e: B, n: nat, acc: Seq<SV>) ensures ext(s_vwcs(b, n, acc), #[trigger] s_vwcs(b + e, n, acc), e) decreases n {
  broadcast use g7; reveal_with_fuel(s_vwcs, 2);
  if n > 0 { if let Some((x, r)) = s_vwc(b) { x_s_vwcs(r, e, (n - 1) as nat, acc.push(x)); } }
}
pub broadcast group g8 { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len, x_s_str, x_s_dec, x_s_id, x_s_length, x_s_root, x_s_flags, x_s_lengths, x_s_strs, x_s_btypes, x_s_arrayinfo, x_s_classinfo, x_s_info, x_s_prim, x_s_ostr, x_s_classid, x_s_library, x_s_infos, x_s_prims, x_s_typeinfo, x_s_vwc, x_s_svwc, x_s_mref, x_s_null1, x_s_null256, x_s_nullm, x_s_typed, x_s_header, x_s_end, x_s_aso, x_s_ass, x_s_asp, x_s_ba, x_s_class2, x_s_class3, x_s_class4, x_s_class5, x_s_null, x_s_vwcs }
pub broadcast proof fn x_s_classdef(b: B, e: B) ensures ext(s_classdef(b), #[trigger] s_classdef(b + e), e) { broadcast use g8; reveal(s_classdef); }
pub broadcast proof fn x_s_refnull(b: B, e: B) ensures ext(s_refnull(b), #[trigger] s_refnull(b + e), e) { broadcast use g8; reveal(s_refnull); reveal(s_null); }
pub broadcast proof fn x_s_avwc(b: B, e: B) ensures ext(s_avwc(b), #[trigger] s_avwc(b + e), e) { broadcast use g8; reveal(s_avwc); }
pub broadcast group g9 { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len, x_s_str, x_s_dec, x_s_id, x_s_length, x_s_root, x_s_flags, x_s_lengths, x_s_strs, x_s_btypes, x_s_arrayinfo, x_s_classinfo, x_s_info, x_s_prim, x_s_ostr, x_s_classid, x_s_library, x_s_infos, x_s_prims, x_s_typeinfo, x_s_vwc, x_s_svwc, x_s_mref, x_s_null1, x_s_null256, x_s_nullm, x_s_typed, x_s_header, x_s_end, x_s_aso, x_s_ass, x_s_asp, x_s_ba, x_s_class2, x_s_class3, x_s_class4, x_s_class5, x_s_null, x_s_vwcs, x_s_classdef, x_s_refnull, x_s_avwc }
pub broadcast proof fn x_s_ctx(b: B, e: B, f: i32) ensures ext(s_ctx(b, f), #[trigger] s_ctx(b + e, f), e) { broadcast use g9; reveal(s_ctx); }
pub broadcast proof fn x_s_args(b: B, e: B, f: i32) ensures ext(s_args(b, f), #[trigger] s_args(b + e, f), e) { broadcast use g9; reveal(s_args); }
pub broadcast proof fn x_s_retval(b: B, e: B, f: i32) ensures ext(s_retval(b, f), #[trigger] s_retval(b + e, f), e) { broadcast use g9; reveal(s_retval); }
pub broadcast group g10 { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len, x_s_str, x_s_dec, x_s_id, x_s_length, x_s_root, x_s_flags, x_s_lengths, x_s_strs, x_s_btypes, x_s_arrayinfo, x_s_classinfo, x_s_info, x_s_prim, x_s_ostr, x_s_classid, x_s_library, x_s_infos, x_s_prims, x_s_typeinfo, x_s_vwc, x_s_svwc, x_s_mref, x_s_null1, x_s_null256, x_s_nullm, x_s_typed, x_s_header, x_s_end, x_s_aso, x_s_ass, x_s_asp, x_s_ba, x_s_class2, x_s_class3, x_s_class4, x_s_class5, x_s_null, x_s_vwcs, x_s_classdef, x_s_refnull, x_s_avwc, x_s_ctx, x_s_args, x_s_retval }
pub broadcast proof fn x_s_mcall(b: B, e: B) ensures ext(s_mcall(b), #[trigger] s_mcall(b + e), e) { broadcast use g10; reveal(s_mcall); }
pub broadcast proof fn x_s_mret(b: B, e: B) ensures ext(s_mret(b), #[trigger] s_mret(b + e), e) { broadcast use g10; reveal(s_mret); }
pub broadcast group gs { cat, x_s_byte, x_s_bool, x_s_i8, x_s_u16, x_s_i16, x_s_u32, x_s_i32, x_s_u64, x_s_i64, x_s_f32, x_s_f64, x_s_char, x_s_ptype, x_s_btype, x_s_atype, x_s_len, x_s_str, x_s_dec, x_s_id, x_s_length, x_s_root, x_s_flags, x_s_lengths, x_s_strs, x_s_btypes, x_s_arrayinfo, x_s_classinfo, x_s_info, x_s_prim, x_s_ostr, x_s_classid, x_s_library, x_s_infos, x_s_prims, x_s_typeinfo, x_s_vwc, x_s_svwc, x_s_mref, x_s_null1, x_s_null256, x_s_nullm, x_s_typed, x_s_header, x_s_end, x_s_aso, x_s_ass, x_s_asp, x_s_ba, x_s_class2, x_s_class3, x_s_class4, x_s_class5, x_s_null, x_s_vwcs, x_s_classdef, x_s_refnull, x_s_avwc, x_s_ctx, x_s_args, x_s_retval, x_s_mcall, x_s_mret }
/// a library record starts here that can not be read
pub open spec fn torn(b: B) -> bool { hd(b, 12) && s_library(b) is None }
pub open spec fn alive(b: B) -> bool { b.len() > 0 && !torn(b) }
pub proof fn x_sp_lib(st: St, b: B, e: B) requires alive(b) ensures ext3(sp_lib(st, b), sp_lib(st, b + e), e) { broadcast use gs; reveal(sp_lib); reveal(s_library); }
pub proof fn x_after_lib(b: B, e: B) requires alive(b) ensures after_lib(b + e) == after_lib(b) + e { broadcast use gs; reveal(s_library); }
pub proof fn lib_rest(st: St, b: B) ensures sp_lib(st, b) is Some ==> sp_lib(st, b)->Some_0.1 == after_lib(b) { reveal(sp_lib); }
pub proof fn x_sp_ostr(st: St, b: B, e: B) ensures ext3(sp_ostr(st, b), sp_ostr(st, b + e), e) { broadcast use gs; reveal(sp_ostr); }
pub proof fn x_sp_classhead(st: St, b: B, e: B) ensures ext3(sp_classhead(st, b), sp_classhead(st, b + e), e) { broadcast use gs; reveal(sp_classhead); reveal(s_classdef); reveal(s_classid); }
pub proof fn x_sp_asp(st: St, b: B, e: B) ensures ext3(sp_asp(st, b), sp_asp(st, b + e), e) { broadcast use gs; reveal(sp_asp); }
pub proof fn none_classes(st: St, b: B) requires !alive(b) ensures sp_classes(st, b) is None { d_sp_classes(st, b); reveal(sp_lib); reveal(s_library); reveal(sp_classhead); reveal(s_classdef); reveal(s_classid); }
pub proof fn none_refnull(b: B) ensures b.len() == 0 || b[0] == 12 ==> s_refnull(b) is None && s_ostr(b) is None { reveal(s_refnull); reveal(s_null); reveal(s_ostr); }
pub proof fn none_untyped(st: St, b: B) requires !alive(b) ensures sp_untyped(st, b) is None { d_sp_untyped(st, b); none_refnull(b); none_classes(st, b); }
pub open spec fn is_prim(ty: Option<TI>) -> bool { ty is Some && ty->Some_0.0 is Primitive && ty->Some_0.1 is Some && ty->Some_0.1->Some_0 is Prim }
pub proof fn none_member(st: St, b: B, ty: Option<TI>) requires !alive(b), !is_prim(ty) ensures sp_member(st, b, ty) is None {
  d_sp_member(st, b, ty); d_sp_member(st, b, None); reveal(sp_lib); reveal(s_library); none_untyped(st, b); none_refnull(b); none_classes(st, b); reveal(sp_ostr);
}
pub proof fn none_array(st: St, b: B) ensures b.len() == 0 || hd(b, 12) ==> sp_array(st, b) is None { d_sp_array(st, b); }
pub proof fn none_ref(st: St, b: B) requires sp_ref(st, b) is Some ensures alive(b), hd(b, 6) || after_lib(b).len() > 0 {
  d_sp_ref(st, b); if !alive(b) { none_classes(st, b); } reveal(sp_lib); reveal(s_library); d_sp_arrays(st, b); none_array(st, b);
  if let Some((_, b1, st1)) = sp_lib(st, b) { none_array(st1, b1); }
}
pub proof fn x_sp_member(st: St, b: B, e: B, ty: Option<TI>) ensures ext3(sp_member(st, b, ty), sp_member(st, b + e, ty), e) decreases b.len(), (if ty is None { 2int } else { 3 }), 0int {
  broadcast use gs;
  d_sp_member(st, b, ty); d_sp_member(st, b + e, ty);
  if !is_prim(ty) {
    if !alive(b) { none_member(st, b, ty); } else {
      x_sp_lib(st, b, e);
      if let Some((_, b1, st1)) = sp_lib(st, b) { if b1.len() <= b.len() {
        none_refnull(b1); x_sp_untyped(st1, b1, e); x_sp_classes(st1, b1, e); x_sp_ostr(st1, b1, e);
        if ty is Some { x_sp_member(st1, b1, e, None); }
        if b1.len() == 0 { none_untyped(st1, b1); none_member(st1, b1, None); }
      } }
    }
  }
}
pub proof fn x_sp_untyped(st: St, b: B, e: B) ensures ext3(sp_untyped(st, b), sp_untyped(st, b + e), e) decreases b.len(), 1int, 1int {
  broadcast use gs;
  d_sp_untyped(st, b); d_sp_untyped(st, b + e); none_refnull(b); x_sp_ostr(st, b, e); x_sp_classes(st, b, e);
}
pub proof fn x_sp_classes(st: St, b: B, e: B) ensures ext3(sp_classes(st, b), sp_classes(st, b + e), e) decreases b.len(), 1int, 0int {
  broadcast use gs;
  if !alive(b) { none_classes(st, b); } else {
    d_sp_classes(st, b); d_sp_classes(st, b + e); x_sp_lib(st, b, e);
    if let Some((_, b1, st1)) = sp_lib(st, b) { x_sp_classhead(st1, b1, e);
      if let Some(((id, c), b2, st2)) = sp_classhead(st1, b1) { if b2.len() < b.len() {
        x_sp_members(st2, b2, e, c.members.len(), Seq::empty());
        if c.types is Some { x_sp_typed(st2, b2, e, c.types->Some_0, Seq::empty()); }
        if let Some((ms, b3, st3)) = (match c.types { None => sp_members(st2, b2, c.members.len(), Seq::empty()), Some(ts) => sp_typed(st2, b2, ts, Seq::empty()) }) {
          if b3.len() < b.len() { x_sp_resolve(st3, b3, e, ms, Seq::empty()); }
        }
      } }
    }
  }
}
pub proof fn x_sp_members(st: St, b: B, e: B, k: nat, acc: Seq<SVR>) ensures ext3(sp_members(st, b, k, acc), sp_members(st, b + e, k, acc), e) decreases b.len(), 6int, k {
  d_sp_members(st, b, k, acc); d_sp_members(st, b + e, k, acc);
  if k > 0 { x_sp_member(st, b, e, None); if let Some((v, r, st2)) = sp_member(st, b, None) { if r.len() < b.len() { x_sp_members(st2, r, e, (k - 1) as nat, acc.push(v)); } } }
}
pub proof fn x_sp_typed(st: St, b: B, e: B, ts: Seq<TI>, acc: Seq<SVR>) ensures ext3(sp_typed(st, b, ts, acc), sp_typed(st, b + e, ts, acc), e) decreases b.len(), 6int, ts.len() {
  d_sp_typed(st, b, ts, acc); d_sp_typed(st, b + e, ts, acc);
  if ts.len() > 0 { x_sp_member(st, b, e, Some(ts[0])); if let Some((v, r, st2)) = sp_member(st, b, Some(ts[0])) { if r.len() < b.len() { x_sp_typed(st2, r, e, ts.drop_first(), acc.push(v)); } } }
}
pub proof fn x_sp_resolve(st: St, b: B, e: B, ms: Seq<SVR>, acc: Seq<SV>) ensures ext3(sp_resolve(st, b, ms, acc), sp_resolve(st, b + e, ms, acc), e) decreases b.len(), 5int, ms.len() {
  d_sp_resolve(st, b, ms, acc); d_sp_resolve(st, b + e, ms, acc);
  if ms.len() > 0 { match ms[0] {
    SVR::V(v) => { x_sp_resolve(st, b, e, ms.drop_first(), acc.push(v)); },
    SVR::Null(n) => { x_sp_resolve(st, b, e, ms.drop_first(), acc.push(SV::Null)); },
    SVR::Ref(id) => if st.objs.contains_key(id) { x_sp_resolve(St { objs: st.objs.remove(id), ..st }, b, e, ms.drop_first(), acc.push(st.objs[id])); } else {
      x_sp_ref(st, b, e);
      if let Some((id2, r, st2)) = sp_ref(st, b) { if r.len() < b.len() { x_sp_resolve(St { objs: st2.objs.remove(id), ..st2 }, r, e, ms.drop_first(), acc.push(st2.objs[id])); } }
    },
  } }
}
pub proof fn x_sp_ref(st: St, b: B, e: B) ensures ext3(sp_ref(st, b), sp_ref(st, b + e), e) decreases b.len(), 4int, 0int {
  if sp_ref(st, b) is Some {
    none_ref(st, b); d_sp_ref(st, b); d_sp_ref(st, b + e); x_after_lib(b, e); x_sp_ostr(st, b, e); x_sp_classes(st, b, e); x_sp_arrays(st, b, e);
  }
}
pub proof fn x_sp_arrays(st: St, b: B, e: B) ensures ext3(sp_arrays(st, b), sp_arrays(st, b + e), e) decreases b.len(), 1int, 0int {
  d_sp_arrays(st, b); d_sp_arrays(st, b + e);
  if !alive(b) { reveal(sp_lib); reveal(s_library); none_array(st, b); } else { x_sp_lib(st, b, e); if let Some((_, b1, st1)) = sp_lib(st, b) { if b1.len() <= b.len() { x_sp_array(st1, b1, e); } } }
}
pub proof fn x_sp_array(st: St, b: B, e: B) ensures ext3(sp_array(st, b), sp_array(st, b + e), e) decreases b.len(), 0int, 9int {
  d_sp_array(st, b); d_sp_array(st, b + e); x_sp_aso(st, b, e); x_sp_asp(st, b, e); x_sp_ass(st, b, e); x_sp_ba(st, b, e);
}
pub proof fn x_sp_aso(st: St, b: B, e: B) ensures ext3(sp_aso(st, b), sp_aso(st, b + e), e) decreases b.len(), 0int, 0int {
  broadcast use gs;
  d_sp_aso(st, b); d_sp_aso(st, b + e);
  if let Some(((id, n), r)) = s_aso(b) { if r.len() < b.len() { if let Some(st2) = decl(st, id) { x_sp_am(st2, r, e, n as nat, None); } } }
}
pub proof fn x_sp_ass(st: St, b: B, e: B) ensures ext3(sp_ass(st, b), sp_ass(st, b + e), e) decreases b.len(), 0int, 0int {
  broadcast use gs;
  d_sp_ass(st, b); d_sp_ass(st, b + e);
  if let Some(((id, n), r)) = s_ass(b) { if r.len() < b.len() { if let Some(st2) = decl(st, id) { x_sp_am(st2, r, e, n as nat, Some((BinaryType::StringArray, None))); } } }
}
pub proof fn x_sp_ba(st: St, b: B, e: B) ensures ext3(sp_ba(st, b), sp_ba(st, b + e), e) decreases b.len(), 0int, 0int {
  broadcast use gs;
  d_sp_ba(st, b); d_sp_ba(st, b + e);
  if let Some((a, r)) = s_ba(b) { if r.len() < b.len() { if let Some(st2) = decl(st, a.id) { if let Some(n) = cprod(a.lens, 1) { x_sp_am(st2, r, e, n, Some(a.ti)); } } } }
}
pub proof fn x_sp_am_read(st: St, b: B, e: B, n: nat, ty: Option<TI>, acc: Seq<SVR>) ensures ext3(sp_am_read(st, b, n, ty, acc), sp_am_read(st, b + e, n, ty, acc), e) decreases b.len(), 6int, 0int {
  d_sp_am_read(st, b, n, ty, acc); d_sp_am_read(st, b + e, n, ty, acc);
  if acc.len() < n { x_sp_member(st, b, e, ty); if let Some((v, r, st2)) = sp_member(st, b, ty) { if r.len() < b.len() {
    if let SVR::Null(c) = v { x_sp_am_read(st2, r, e, n, ty, acc + nulls(c as nat)); }
    x_sp_am_read(st2, r, e, n, ty, acc.push(v));
  } } }
}
pub proof fn x_sp_am(st: St, b: B, e: B, n: nat, ty: Option<TI>) ensures ext3(sp_am(st, b, n, ty), sp_am(st, b + e, n, ty), e) decreases b.len(), 7int, 0int {
  d_sp_am(st, b, n, ty); d_sp_am(st, b + e, n, ty); x_sp_am_read(st, b, e, n, ty, Seq::empty());
  if let Some((ms, r, st2)) = sp_am_read(st, b, n, ty, Seq::empty()) { if r.len() <= b.len() { x_sp_resolve(st2, r, e, ms, Seq::empty()); } }
}
/// the referenceables end before something that is none
pub proof fn refs_end(st: St, b: B) ensures sp_refs(st, b) is Some ==> !is_ref_head(sp_refs(st, b)->Some_0.1, sp_refs(st, b)->Some_0.0) && sp_refs(sp_refs(st, b)->Some_0.1, sp_refs(st, b)->Some_0.0) == sp_refs(st, b) decreases b.len() {
  d_sp_refs(st, b); if is_ref_head(st, b) { if let Some((_, r, st2)) = sp_ref(st, b) { if r.len() < b.len() { refs_end(st2, r); } } }
}
pub proof fn x_sp_refs(st: St, b: B, e: B) ensures sp_refs(st, b) is Some && after_lib(sp_refs(st, b)->Some_0.0).len() > 0 ==> sp_refs(st, b + e) == Some((sp_refs(st, b)->Some_0.0 + e, sp_refs(st, b)->Some_0.1)) && alive(b) && after_lib(b).len() > 0 decreases b.len() {
  broadcast use gs;
  d_sp_refs(st, b); d_sp_refs(st, b + e);
  if is_ref_head(st, b) {
    x_sp_ref(st, b, e);
    if let Some((_, r, st2)) = sp_ref(st, b) { none_ref(st, b); x_after_lib(b, e); if r.len() < b.len() { x_sp_refs(st2, r, e); } }
    reveal(s_library);
  } else { if alive(b) { x_after_lib(b, e); } reveal(s_library); }
}
pub proof fn x_sp_callarr(st: St, b: B, e: B, root: Option<u32>) requires alive(b), after_lib(b).len() > 0 ensures ext3(sp_callarr(st, b, root), sp_callarr(st, b + e, root), e) {
  broadcast use gs;
  reveal(sp_callarr); x_after_lib(b, e); x_sp_lib(st, b, e); reveal(s_library);
  if let Some((_, b1, st1)) = sp_lib(st, b) { x_sp_aso(st1, b1, e); }
}
/// if what follows the call array is there, so is what the call array starts with
pub proof fn callarr_alive(st: St, b: B, root: Option<u32>) requires sp_callarr(st, b, root) is Some, alive(sp_callarr(st, b, root)->Some_0.1), after_lib(sp_callarr(st, b, root)->Some_0.1).len() > 0 ensures alive(b), after_lib(b).len() > 0 { reveal(sp_callarr); reveal(s_library); }
pub proof fn x_sp_cr(st: St, b: B, e: B, root: Option<u32>) requires is_call(b), alive(b), sp_cr(st, b, root) is Some, alive(sp_cr(st, b, root)->Some_0.1), after_lib(sp_cr(st, b, root)->Some_0.1).len() > 0 ensures ext3(sp_cr(st, b, root), sp_cr(st, b + e, root), e) {
  broadcast use gs;
  reveal(sp_cr); reveal(sp_call); reveal(sp_return); x_after_lib(b, e); x_sp_lib(st, b, e);
  if let Some((_, b1, st1)) = sp_lib(st, b) {
    if let Some((m, b2)) = s_mcall(b1) { if sp_callarr(st1, b2, root) is Some && hd(after_lib(b), 21) { callarr_alive(st1, b2, root); x_sp_callarr(st1, b2, e, root); } }
    if let Some((m, b2)) = s_mret(b1) { if sp_callarr(st1, b2, root) is Some && !hd(after_lib(b), 21) { callarr_alive(st1, b2, root); x_sp_callarr(st1, b2, e, root); } }
  }
}
/// bytes behind a message make it none
pub proof fn c10_no_extension(b: B, e: B) requires e.len() > 0, sp_message(b) is Some ensures sp_message(b + e) is None {
  broadcast use gs;
  reveal(sp_message); reveal(sp_opt_cr); reveal(s_library); reveal(s_end);
  let (root, b1) = s_header(b)->Some_0;
  let (b2, st2) = sp_refs(st0(), b1)->Some_0;
  let (cr, b3, st3) = sp_opt_cr(st2, b2, root)->Some_0;
  let (b4, st4) = sp_refs(st3, b3)->Some_0;
  assert(hd(b4, 11) && after_lib(b4).len() > 0);
  x_sp_refs(st3, b3, e);
  refs_end(st0(), b1);
  assert(alive(b3) && after_lib(b3).len() > 0);
  if is_call(b2) {
    assert(alive(b2)) by { if !alive(b2) { reveal(sp_cr); reveal(sp_call); reveal(sp_return); reveal(sp_lib); } }
    x_sp_cr(st2, b2, e, root);
  }
  x_sp_refs(st0(), b1, e);
  x_after_lib(b2, e);
  x_s_end(b4, e);
  assert(sp_refs(st0(), b1 + e) == Some((b2 + e, st2)));
  assert(sp_opt_cr(st2, b2 + e, root) == Some((cr, b3 + e, st3)));
  assert(sp_refs(st3, b3 + e) == Some((b4 + e, st4)));
}
/// no accepted message is a proper prefix of another
pub proof fn c10_prefix_free(a: B, b: B) requires sp_message(a) is Some, sp_message(b) is Some, a.len() <= b.len(), b.take(a.len() as int) == a ensures a == b {
  if a.len() < b.len() { let e = b.skip(a.len() as int); assert(a + e =~= b); c10_no_extension(a, e); } else { assert(b.take(a.len() as int) =~= b); }
}

// ---------------------------------------------------------------- what reading does to the state
/// the end of a sequence of bytes
pub open spec fn suf(b: B, r: B) -> bool { r.len() <= b.len() && r == b.skip(b.len() - r.len()) }
pub broadcast proof fn suf_skip(b: B, k: int) requires 0 <= k <= b.len() ensures suf(b, #[trigger] b.skip(k)) { }
pub broadcast proof fn suf_trans(a: B, b: B, c: B) requires #[trigger] suf(a, b), #[trigger] suf(b, c) ensures suf(a, c) { assert(c =~= a.skip(a.len() - c.len())); }
pub broadcast proof fn suf_refl(b: B) ensures #[trigger] suf(b, b) { assert(b =~= b.skip(0)); }
pub open spec fn rest<T>(a: Option<(T, B)>, b: B) -> bool { a is Some ==> suf(b, a->Some_0.1) }
pub broadcast group sufs { suf_skip, suf_trans, suf_refl }
pub broadcast proof fn y_s_byte(b: B) ensures rest(#[trigger] s_byte(b), b) { broadcast use sufs; reveal(s_byte); }
pub broadcast proof fn y_s_bool(b: B) ensures rest(#[trigger] s_bool(b), b) { broadcast use sufs; reveal(s_bool); }
pub broadcast proof fn y_s_i8(b: B) ensures rest(#[trigger] s_i8(b), b) { broadcast use sufs; reveal(s_i8); }
pub broadcast proof fn y_s_u16(b: B) ensures rest(#[trigger] s_u16(b), b) { broadcast use sufs; reveal(s_u16); }
pub broadcast proof fn y_s_i16(b: B) ensures rest(#[trigger] s_i16(b), b) { broadcast use sufs; reveal(s_i16); }
pub broadcast proof fn y_s_u32(b: B) ensures rest(#[trigger] s_u32(b), b) { broadcast use sufs; reveal(s_u32); }
pub broadcast proof fn y_s_i32(b: B) ensures rest(#[trigger] s_i32(b), b) { broadcast use sufs; reveal(s_i32); }
pub broadcast proof fn y_s_u64(b: B) ensures rest(#[trigger] s_u64(b), b) { broadcast use sufs; reveal(s_u64); }
pub broadcast proof fn y_s_i64(b: B) ensures rest(#[trigger] s_i64(b), b) { broadcast use sufs; reveal(s_i64); }
pub broadcast proof fn y_s_f32(b: B) ensures rest(#[trigger] s_f32(b), b) { broadcast use sufs; reveal(s_f32); }
pub broadcast proof fn y_s_f64(b: B) ensures rest(#[trigger] s_f64(b), b) { broadcast use sufs; reveal(s_f64); }
pub broadcast proof fn y_s_char(b: B) ensures rest(#[trigger] s_char(b), b) { broadcast use sufs; reveal(s_char); }
pub broadcast proof fn y_s_ptype(b: B) ensures rest(#[trigger] s_ptype(b), b) { broadcast use sufs; reveal(s_ptype); }
pub broadcast proof fn y_s_btype(b: B) ensures rest(#[trigger] s_btype(b), b) { broadcast use sufs; reveal(s_btype); }
pub broadcast proof fn y_s_atype(b: B) ensures rest(#[trigger] s_atype(b), b) { broadcast use sufs; reveal(s_atype); }
pub broadcast proof fn y_s_len(b: B, k: nat) ensures rest(#[trigger] s_len(b, k), b) decreases 4 - k {
  broadcast use sufs; reveal_with_fuel(s_len, 2); if b.len() > 0 && k < 4 { y_s_len(b.skip(1), k + 1); }
}
pub broadcast group h1 { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len }
pub broadcast proof fn y_s_str(b: B) ensures rest(#[trigger] s_str(b), b) { broadcast use h1; reveal(s_str); }
pub broadcast group h2 { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len, y_s_str }
pub broadcast proof fn y_s_dec(b: B) ensures rest(#[trigger] s_dec(b), b) { broadcast use h2; reveal(s_dec); }
pub broadcast proof fn y_s_id(b: B) ensures rest(#[trigger] s_id(b), b) { broadcast use h2; reveal(s_id); }
pub broadcast proof fn y_s_length(b: B) ensures rest(#[trigger] s_length(b), b) { broadcast use h2; reveal(s_length); }
pub broadcast proof fn y_s_root(b: B) ensures rest(#[trigger] s_root(b), b) { broadcast use h2; reveal(s_root); }
pub broadcast proof fn y_s_flags(b: B) ensures rest(#[trigger] s_flags(b), b) { broadcast use h2; reveal(s_flags); }
pub broadcast group h3 { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len, y_s_str, y_s_dec, y_s_id, y_s_length, y_s_root, y_s_flags }
pub broadcast proof fn y_s_lengths(b: B, n: nat, acc: Seq<usize>) ensures rest(#[trigger] s_lengths(b, n, acc), b) decreases n {
  broadcast use h3; reveal_with_fuel(s_lengths, 2);
  if n > 0 { if let Some((x, r)) = s_length(b) { y_s_lengths(r, (n - 1) as nat, acc.push(x)); } }
}
pub broadcast proof fn y_s_strs(b: B, n: nat, acc: Seq<Text>) ensures rest(#[trigger] s_strs(b, n, acc), b) decreases n {
  broadcast use h3; reveal_with_fuel(s_strs, 2);
  if n > 0 { if let Some((x, r)) = s_str(b) { y_s_strs(r, (n - 1) as nat, acc.push(x)); } }
}
pub broadcast proof fn y_s_btypes(b: B, n: nat, acc: Seq<BinaryType>) ensures rest(#[trigger] s_btypes(b, n, acc), b) decreases n {
  broadcast use h3; reveal_with_fuel(s_btypes, 2);
  if n > 0 { if let Some((x, r)) = s_btype(b) { y_s_btypes(r, (n - 1) as nat, acc.push(x)); } }
}
pub broadcast group h4 { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len, y_s_str, y_s_dec, y_s_id, y_s_length, y_s_root, y_s_flags, y_s_lengths, y_s_strs, y_s_btypes }
pub broadcast proof fn y_s_arrayinfo(b: B) ensures rest(#[trigger] s_arrayinfo(b), b) { broadcast use h4; reveal(s_arrayinfo); }
pub broadcast proof fn y_s_classinfo(b: B) ensures rest(#[trigger] s_classinfo(b), b) { broadcast use h4; reveal(s_classinfo); }
pub broadcast proof fn y_s_info(b: B, t: BinaryType) ensures rest(#[trigger] s_info(b, t), b) { broadcast use h4; reveal(s_info); }
pub broadcast proof fn y_s_prim(b: B, t: PrimitiveType) ensures rest(#[trigger] s_prim(b, t), b) { broadcast use h4; reveal(s_prim); }
pub broadcast group h5 { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len, y_s_str, y_s_dec, y_s_id, y_s_length, y_s_root, y_s_flags, y_s_lengths, y_s_strs, y_s_btypes, y_s_arrayinfo, y_s_classinfo, y_s_info, y_s_prim }
pub broadcast proof fn y_s_ostr(b: B) ensures rest(#[trigger] s_ostr(b), b) { broadcast use h5; reveal(s_ostr); }
pub broadcast proof fn y_s_classid(b: B) ensures rest(#[trigger] s_classid(b), b) { broadcast use h5; reveal(s_classid); }
pub broadcast proof fn y_s_library(b: B) ensures rest(#[trigger] s_library(b), b) { broadcast use h5; reveal(s_library); }
pub broadcast proof fn y_s_infos(b: B, ts: Seq<BinaryType>, acc: Seq<Option<SInfo>>) ensures rest(#[trigger] s_infos(b, ts, acc), b) decreases ts.len() {
  broadcast use h5; reveal_with_fuel(s_infos, 2);
  if ts.len() > 0 { if let Some((x, r)) = s_info(b, ts[0]) { y_s_infos(r, ts.drop_first(), acc.push(x)); } }
}
pub broadcast proof fn y_s_prims(b: B, t: PrimitiveType, n: nat, acc: Seq<SV>) ensures rest(#[trigger] s_prims(b, t, n, acc), b) decreases n {
  broadcast use h5; reveal_with_fuel(s_prims, 2);
  if n > 0 { if let Some((x, r)) = s_prim(b, t) { y_s_prims(r, t, (n - 1) as nat, acc.push(x)); } }
}
pub broadcast group h6 { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len, y_s_str, y_s_dec, y_s_id, y_s_length, y_s_root, y_s_flags, y_s_lengths, y_s_strs, y_s_btypes, y_s_arrayinfo, y_s_classinfo, y_s_info, y_s_prim, y_s_ostr, y_s_classid, y_s_library, y_s_infos, y_s_prims }
pub broadcast proof fn y_s_typeinfo(b: B, n: nat) ensures rest(#[trigger] s_typeinfo(b, n), b) { broadcast use h6; reveal(s_typeinfo); }
pub broadcast proof fn y_s_vwc(b: B) ensures rest(#[trigger] s_vwc(b), b) { broadcast use h6; reveal(s_vwc); }
pub broadcast proof fn y_s_svwc(b: B) ensures rest(#[trigger] s_svwc(b), b) { broadcast use h6; reveal(s_svwc); }
pub broadcast proof fn y_s_mref(b: B) ensures rest(#[trigger] s_mref(b), b) { broadcast use h6; reveal(s_mref); }
pub broadcast proof fn y_s_null1(b: B) ensures rest(#[trigger] s_null1(b), b) { broadcast use h6; reveal(s_null1); }
pub broadcast proof fn y_s_null256(b: B) ensures rest(#[trigger] s_null256(b), b) { broadcast use h6; reveal(s_null256); }
pub broadcast proof fn y_s_nullm(b: B) ensures rest(#[trigger] s_nullm(b), b) { broadcast use h6; reveal(s_nullm); }
pub broadcast proof fn y_s_typed(b: B) ensures rest(#[trigger] s_typed(b), b) { broadcast use h6; reveal(s_typed); }
pub broadcast proof fn y_s_header(b: B) ensures rest(#[trigger] s_header(b), b) { broadcast use h6; reveal(s_header); }
pub broadcast proof fn y_s_end(b: B) ensures rest(#[trigger] s_end(b), b) { broadcast use h6; reveal(s_end); }
pub broadcast proof fn y_s_aso(b: B) ensures rest(#[trigger] s_aso(b), b) { broadcast use h6; reveal(s_aso); }
pub broadcast proof fn y_s_ass(b: B) ensures rest(#[trigger] s_ass(b), b) { broadcast use h6; reveal(s_ass); }
pub broadcast proof fn y_s_asp(b: B) ensures rest(#[trigger] s_asp(b), b) { broadcast use h6; reveal(s_asp); }
pub broadcast proof fn y_s_ba(b: B) ensures rest(#[trigger] s_ba(b), b) { broadcast use h6; reveal(s_ba); }
pub broadcast group h7 { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len, y_s_str, y_s_dec, y_s_id, y_s_length, y_s_root, y_s_flags, y_s_lengths, y_s_strs, y_s_btypes, y_s_arrayinfo, y_s_classinfo, y_s_info, y_s_prim, y_s_ostr, y_s_classid, y_s_library, y_s_infos, y_s_prims, y_s_typeinfo, y_s_vwc, y_s_svwc, y_s_mref, y_s_null1, y_s_null256, y_s_nullm, y_s_typed, y_s_header, y_s_end, y_s_aso, y_s_ass, y_s_asp, y_s_ba }
pub broadcast proof fn y_s_class2(b: B) ensures rest(#[trigger] s_class2(b), b) { broadcast use h7; reveal(s_class2); }
pub broadcast proof fn y_s_class3(b: B) ensures rest(#[trigger] s_class3(b), b) { broadcast use h7; reveal(s_class3); }
pub broadcast proof fn y_s_class4(b: B) ensures rest(#[trigger] s_class4(b), b) { broadcast use h7; reveal(s_class4); }
pub broadcast proof fn y_s_class5(b: B) ensures rest(#[trigger] s_class5(b), b) { broadcast use h7; reveal(s_class5); }
pub broadcast proof fn y_s_null(b: B) ensures rest(#[trigger] s_null(b), b) { broadcast use h7; reveal(s_null); }
pub broadcast proof fn y_s_vwcs(b: B, n: nat, acc: Seq<SV>) ensures rest(#[trigger] s_vwcs(b, n, acc), b) decreases n {
  broadcast use h7; reveal_with_fuel(s_vwcs, 2);
  if n > 0 { if let Some((x, r)) = s_vwc(b) { y_s_vwcs(r, (n - 1) as nat, acc.push(x)); } }
}
pub broadcast group h8 { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len, y_s_str, y_s_dec, y_s_id, y_s_length, y_s_root, y_s_flags, y_s_lengths, y_s_strs, y_s_btypes, y_s_arrayinfo, y_s_classinfo, y_s_info, y_s_prim, y_s_ostr, y_s_classid, y_s_library, y_s_infos, y_s_prims, y_s_typeinfo, y_s_vwc, y_s_svwc, y_s_mref, y_s_null1, y_s_null256, y_s_nullm, y_s_typed, y_s_header, y_s_end, y_s_aso, y_s_ass, y_s_asp, y_s_ba, y_s_class2, y_s_class3, y_s_class4, y_s_class5, y_s_null, y_s_vwcs }
pub broadcast proof fn y_s_classdef(b: B) ensures rest(#[trigger] s_classdef(b), b) { broadcast use h8; reveal(s_classdef); }
pub broadcast proof fn y_s_refnull(b: B) ensures rest(#[trigger] s_refnull(b), b) { broadcast use h8; reveal(s_refnull); reveal(s_null); }
pub broadcast proof fn y_s_avwc(b: B) ensures rest(#[trigger] s_avwc(b), b) { broadcast use h8; reveal(s_avwc); }
pub broadcast group h9 { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len, y_s_str, y_s_dec, y_s_id, y_s_length, y_s_root, y_s_flags, y_s_lengths, y_s_strs, y_s_btypes, y_s_arrayinfo, y_s_classinfo, y_s_info, y_s_prim, y_s_ostr, y_s_classid, y_s_library, y_s_infos, y_s_prims, y_s_typeinfo, y_s_vwc, y_s_svwc, y_s_mref, y_s_null1, y_s_null256, y_s_nullm, y_s_typed, y_s_header, y_s_end, y_s_aso, y_s_ass, y_s_asp, y_s_ba, y_s_class2, y_s_class3, y_s_class4, y_s_class5, y_s_null, y_s_vwcs, y_s_classdef, y_s_refnull, y_s_avwc }
pub broadcast proof fn y_s_ctx(b: B, f: i32) ensures rest(#[trigger] s_ctx(b, f), b) { broadcast use h9; reveal(s_ctx); }
pub broadcast proof fn y_s_args(b: B, f: i32) ensures rest(#[trigger] s_args(b, f), b) { broadcast use h9; reveal(s_args); }
pub broadcast proof fn y_s_retval(b: B, f: i32) ensures rest(#[trigger] s_retval(b, f), b) { broadcast use h9; reveal(s_retval); }
pub broadcast group h10 { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len, y_s_str, y_s_dec, y_s_id, y_s_length, y_s_root, y_s_flags, y_s_lengths, y_s_strs, y_s_btypes, y_s_arrayinfo, y_s_classinfo, y_s_info, y_s_prim, y_s_ostr, y_s_classid, y_s_library, y_s_infos, y_s_prims, y_s_typeinfo, y_s_vwc, y_s_svwc, y_s_mref, y_s_null1, y_s_null256, y_s_nullm, y_s_typed, y_s_header, y_s_end, y_s_aso, y_s_ass, y_s_asp, y_s_ba, y_s_class2, y_s_class3, y_s_class4, y_s_class5, y_s_null, y_s_vwcs, y_s_classdef, y_s_refnull, y_s_avwc, y_s_ctx, y_s_args, y_s_retval }
pub broadcast proof fn y_s_mcall(b: B) ensures rest(#[trigger] s_mcall(b), b) { broadcast use h10; reveal(s_mcall); }
pub broadcast proof fn y_s_mret(b: B) ensures rest(#[trigger] s_mret(b), b) { broadcast use h10; reveal(s_mret); }
pub broadcast group hs { sufs, y_s_byte, y_s_bool, y_s_i8, y_s_u16, y_s_i16, y_s_u32, y_s_i32, y_s_u64, y_s_i64, y_s_f32, y_s_f64, y_s_char, y_s_ptype, y_s_btype, y_s_atype, y_s_len, y_s_str, y_s_dec, y_s_id, y_s_length, y_s_root, y_s_flags, y_s_lengths, y_s_strs, y_s_btypes, y_s_arrayinfo, y_s_classinfo, y_s_info, y_s_prim, y_s_ostr, y_s_classid, y_s_library, y_s_infos, y_s_prims, y_s_typeinfo, y_s_vwc, y_s_svwc, y_s_mref, y_s_null1, y_s_null256, y_s_nullm, y_s_typed, y_s_header, y_s_end, y_s_aso, y_s_ass, y_s_asp, y_s_ba, y_s_class2, y_s_class3, y_s_class4, y_s_class5, y_s_null, y_s_vwcs, y_s_classdef, y_s_refnull, y_s_avwc, y_s_ctx, y_s_args, y_s_retval, y_s_mcall, y_s_mret }
/// the object of this ID that stands somewhere in the message
pub open spec fn ref_at(m: B, k: int, st: St, id: u32, v: SV) -> bool { 0 <= k <= m.len() && sp_ref(st, m.skip(k)) is Some && sp_ref(st, m.skip(k))->Some_0.0 == id && sp_ref(st, m.skip(k))->Some_0.2.objs[id] == v && !st.ids.contains(id) }
pub open spec fn object_of(m: B, id: u32, v: SV) -> bool { exists|k: int, st: St| #[trigger] ref_at(m, k, st, id, v) }
pub open spec fn class_at(m: B, k: int, id: u32, c: SC) -> bool { 0 <= k <= m.len() && s_classdef(m.skip(k)) is Some && s_classdef(m.skip(k))->Some_0.0 == (id, c) }
pub open spec fn class_of(m: B, id: u32, c: SC) -> bool { exists|k: int| #[trigger] class_at(m, k, id, c) }
pub open spec fn lib_at(m: B, k: int, l: u32, n: Text) -> bool { 0 <= k <= m.len() && s_library(m.skip(k)) is Some && s_library(m.skip(k))->Some_0.0 == (l, n) }
pub open spec fn lib_of(m: B, l: u32, n: Text) -> bool { exists|k: int| #[trigger] lib_at(m, k, l, n) }
/// what is known was declared in the message
#[verifier::opaque]
pub open spec fn inv(m: B, st: St) -> bool {
  (forall|id: u32| #[trigger] st.objs.contains_key(id) ==> st.ids.contains(id) && object_of(m, id, st.objs[id]))
  && (forall|id: u32| #[trigger] st.classes.contains_key(id) ==> st.ids.contains(id) && class_of(m, id, st.classes[id]))
  && (forall|l: u32| #[trigger] st.libs.contains_key(l) ==> l > 0 && lib_of(m, l, st.libs[l]))
  && (forall|id: u32| #[trigger] st.ids.contains(id) ==> id > 0)
}
/// what is declared stays declared as it was
#[verifier::opaque]
pub open spec fn step(st: St, t: St) -> bool {
  (forall|id: u32| #[trigger] st.ids.contains(id) ==> t.ids.contains(id))
  && (forall|id: u32| #[trigger] st.classes.contains_key(id) ==> t.classes.contains_key(id) && t.classes[id] == st.classes[id])
  && (forall|l: u32| #[trigger] st.libs.contains_key(l) ==> t.libs.contains_key(l) && t.libs[l] == st.libs[l])
}
#[verifier::opaque]
pub open spec fn kept(st: St, t: St) -> bool { forall|id: u32| #[trigger] st.ids.contains(id) ==> t.ids.contains(id) }
pub open spec fn go(m: B, st: St, b: B, r: B, t: St) -> bool { suf(b, r) && kept(st, t) && (inv(m, st) && suf(m, b) ==> inv(m, t) && suf(m, r) && step(st, t)) }
pub open spec fn go3<T>(m: B, st: St, b: B, a: Option<(T, B, St)>) -> bool { a is Some ==> go(m, st, b, a->Some_0.1, a->Some_0.2) }
/// an ID is declared that was not declared before
pub open spec fn declares<T>(a: Option<((u32, T), B, St)>, st: St) -> bool { a is Some ==> !st.ids.contains(a->Some_0.0.0) && a->Some_0.2.ids.contains(a->Some_0.0.0) }
pub broadcast proof fn step_ids(st: St, t: St, id: u32) requires #[trigger] kept(st, t), #[trigger] st.ids.contains(id) ensures t.ids.contains(id) { reveal(kept); }
pub broadcast proof fn kept_refl(st: St) ensures #[trigger] kept(st, st) { reveal(kept); }
pub broadcast proof fn kept_trans(a: St, b: St, c: St) requires #[trigger] kept(a, b), #[trigger] kept(b, c) ensures kept(a, c) { reveal(kept); }
pub broadcast proof fn step_refl(st: St) ensures #[trigger] step(st, st) { reveal(step); }
pub broadcast proof fn step_trans(a: St, b: St, c: St) requires #[trigger] step(a, b), #[trigger] step(b, c) ensures step(a, c) { reveal(step); }
pub broadcast group steps { step_ids, kept_refl, kept_trans, step_refl, step_trans, hs }
pub proof fn g_s_id(b: B) ensures s_id(b) is Some ==> s_id(b)->Some_0.0 > 0 { reveal(s_id); }
pub proof fn g_lib(m: B, st: St, b: B) ensures go3(m, st, b, sp_lib(st, b)) {
  broadcast use steps; reveal(sp_lib); reveal(inv); reveal(step); reveal(kept); g_s_id(b.skip(1)); reveal(s_library);
  if let Some(((id, name), r)) = s_library(b) { if suf(m, b) { assert(m.skip(m.len() - b.len()) == b); assert(lib_at(m, m.len() - b.len(), id, name)); } }
}
pub proof fn g_decl(m: B, st: St, id: u32) requires id > 0 ensures decl(st, id) is Some ==> (inv(m, st) ==> inv(m, decl(st, id)->Some_0)) && step(st, decl(st, id)->Some_0) && kept(st, decl(st, id)->Some_0) && decl(st, id)->Some_0.ids.contains(id) { reveal(inv); reveal(step); reveal(kept); }
pub proof fn g_ostr(m: B, st: St, b: B) ensures go3(m, st, b, sp_ostr(st, b)), declares(sp_ostr(st, b), st) {
  broadcast use steps; reveal(sp_ostr); if let Some(((id, t), r)) = s_ostr(b) { assert(id > 0) by { reveal(s_ostr); g_s_id(b.skip(1)); } g_decl(m, st, id); }
}
pub proof fn g_classdef(b: B) ensures s_classdef(b) is Some ==> s_classdef(b)->Some_0.0.0 > 0 {
  reveal(s_classdef); reveal(s_class2); reveal(s_class3); reveal(s_class4); reveal(s_class5); reveal(s_classinfo); g_s_id(b.skip(1));
}
pub proof fn g_classhead(m: B, st: St, b: B) ensures go3(m, st, b, sp_classhead(st, b)), declares(sp_classhead(st, b), st) {
  broadcast use steps; reveal(sp_classhead);
  if hd(b, 1) {
    if let Some(((id, mid), r)) = s_classid(b) { assert(id > 0) by { reveal(s_classid); g_s_id(b.skip(1)); } g_decl(m, st, id); }
  } else if let Some(((id, c), r)) = s_classdef(b) {
    g_classdef(b); g_decl(m, st, id);
    if suf(m, b) { assert(m.skip(m.len() - b.len()) == b); assert(class_at(m, m.len() - b.len(), id, c)); }
    reveal(inv); reveal(step); reveal(kept);
  }
}
pub proof fn g_member(m: B, st: St, b: B, ty: Option<TI>) ensures go3(m, st, b, sp_member(st, b, ty)) decreases b.len(), (if ty is None { 2int } else { 3 }), 0int {
  broadcast use steps;
  d_sp_member(st, b, ty);
  if !is_prim(ty) {
    g_lib(m, st, b);
    if let Some((_, b1, st1)) = sp_lib(st, b) { if b1.len() <= b.len() {
      g_untyped(m, st1, b1); g_classes(m, st1, b1); g_ostr(m, st1, b1);
      if ty is Some { g_member(m, st1, b1, None); }
    } }
  }
}
pub proof fn g_untyped(m: B, st: St, b: B) ensures go3(m, st, b, sp_untyped(st, b)) decreases b.len(), 1int, 1int {
  broadcast use steps;
  d_sp_untyped(st, b); g_ostr(m, st, b); g_classes(m, st, b);
}
pub proof fn g_classes(m: B, st: St, b: B) ensures go3(m, st, b, sp_classes(st, b)), declares(sp_classes(st, b), st) decreases b.len(), 1int, 0int {
  broadcast use steps;
  d_sp_classes(st, b); g_lib(m, st, b);
  if let Some((_, b1, st1)) = sp_lib(st, b) { g_classhead(m, st1, b1);
    assert(st1.ids == st.ids) by { reveal(sp_lib); }
    if let Some(((id, c), b2, st2)) = sp_classhead(st1, b1) { if b2.len() < b.len() {
      g_members(m, st2, b2, c.members.len(), Seq::empty());
      if c.types is Some { g_typed(m, st2, b2, c.types->Some_0, Seq::empty()); }
      if let Some((ms, b3, st3)) = (match c.types { None => sp_members(st2, b2, c.members.len(), Seq::empty()), Some(ts) => sp_typed(st2, b2, ts, Seq::empty()) }) {
        if b3.len() < b.len() { g_resolve(m, st3, b3, ms, Seq::empty()); }
      }
    } }
  }
}
pub proof fn g_members(m: B, st: St, b: B, k: nat, acc: Seq<SVR>) ensures go3(m, st, b, sp_members(st, b, k, acc)) decreases b.len(), 6int, k {
  broadcast use steps;
  d_sp_members(st, b, k, acc);
  if k > 0 { g_member(m, st, b, None); if let Some((v, r, st2)) = sp_member(st, b, None) { if r.len() < b.len() { g_members(m, st2, r, (k - 1) as nat, acc.push(v)); } } }
}
pub proof fn g_typed(m: B, st: St, b: B, ts: Seq<TI>, acc: Seq<SVR>) ensures go3(m, st, b, sp_typed(st, b, ts, acc)) decreases b.len(), 6int, ts.len() {
  broadcast use steps;
  d_sp_typed(st, b, ts, acc);
  if ts.len() > 0 { g_member(m, st, b, Some(ts[0])); if let Some((v, r, st2)) = sp_member(st, b, Some(ts[0])) { if r.len() < b.len() { g_typed(m, st2, r, ts.drop_first(), acc.push(v)); } } }
}
pub open spec fn without(st: St, id: u32) -> St { St { objs: st.objs.remove(id), ..st } }
pub proof fn g_without(m: B, st: St, id: u32) ensures step(st, without(st, id)), kept(st, without(st, id)), inv(m, st) ==> inv(m, without(st, id)) { reveal(kept); reveal(inv); reveal(step); }
pub proof fn g_resolve(m: B, st: St, b: B, ms: Seq<SVR>, acc: Seq<SV>) ensures go3(m, st, b, sp_resolve(st, b, ms, acc)) decreases b.len(), 5int, ms.len() {
  broadcast use steps;
  d_sp_resolve(st, b, ms, acc);
  if ms.len() > 0 { match ms[0] {
    SVR::V(v) => { g_resolve(m, st, b, ms.drop_first(), acc.push(v)); },
    SVR::Null(n) => { g_resolve(m, st, b, ms.drop_first(), acc.push(SV::Null)); },
    SVR::Ref(id) => if st.objs.contains_key(id) { g_without(m, st, id); g_resolve(m, without(st, id), b, ms.drop_first(), acc.push(st.objs[id])); } else {
      g_ref(m, st, b);
      if let Some((id2, r, st2)) = sp_ref(st, b) { if r.len() < b.len() { g_without(m, st2, id); g_resolve(m, without(st2, id), r, ms.drop_first(), acc.push(st2.objs[id])); } }
    },
  } }
}
pub proof fn g_know(m: B, st: St, b: B, id: u32, v: SV, st2: St)
  requires sp_ref(st, b) is Some, sp_ref(st, b)->Some_0.0 == id, sp_ref(st, b)->Some_0.2 == know(st2, id, v), !st.ids.contains(id), st2.ids.contains(id)
  ensures step(st2, know(st2, id, v)), kept(st2, know(st2, id, v)), suf(m, b) && inv(m, st2) ==> inv(m, know(st2, id, v)) {
  reveal(kept);
  reveal(inv); reveal(step);
  if suf(m, b) { assert(m.skip(m.len() - b.len()) == b); assert(ref_at(m, m.len() - b.len(), st, id, v)); }
}
pub proof fn g_ref(m: B, st: St, b: B) ensures go3(m, st, b, sp_ref(st, b)), sp_ref(st, b) is Some ==> !st.ids.contains(sp_ref(st, b)->Some_0.0) decreases b.len(), 4int, 0int {
  broadcast use steps;
  d_sp_ref(st, b); g_ostr(m, st, b); g_classes(m, st, b); g_arrays(m, st, b);
  if hd(b, 6) { if let Some(((id, t), r, st2)) = sp_ostr(st, b) { g_know(m, st, b, id, SV::Str(t), st2); } }
  else if inst_head(st, b) { if let Some(((id, o), r, st2)) = sp_classes(st, b) { g_know(m, st, b, id, o, st2); } }
  else { if let Some(((id, a), r, st2)) = sp_arrays(st, b) { g_know(m, st, b, id, SV::Arr(a), st2); } }
}
pub proof fn g_arrays(m: B, st: St, b: B) ensures go3(m, st, b, sp_arrays(st, b)), declares(sp_arrays(st, b), st) decreases b.len(), 1int, 0int {
  broadcast use steps;
  d_sp_arrays(st, b); g_lib(m, st, b);
  if let Some((_, b1, st1)) = sp_lib(st, b) { assert(st1.ids == st.ids) by { reveal(sp_lib); } if b1.len() <= b.len() { g_array(m, st1, b1); } }
}
pub proof fn g_array(m: B, st: St, b: B) ensures go3(m, st, b, sp_array(st, b)), declares(sp_array(st, b), st) decreases b.len(), 0int, 9int {
  broadcast use steps;
  d_sp_array(st, b); d_sp_aso(st, b); d_sp_ass(st, b); d_sp_ba(st, b); reveal(sp_asp);
  reveal(s_aso); reveal(s_ass); reveal(s_asp); reveal(s_ba); reveal(s_arrayinfo); g_s_id(b.skip(1));
  if hd(b, 16) { if let Some(((id, n), r)) = s_aso(b) { g_decl(m, st, id); if let Some(st2) = decl(st, id) { if r.len() < b.len() { g_am(m, st2, r, n as nat, None); } } } }
  else if hd(b, 17) { if let Some(((id, n), r)) = s_ass(b) { g_decl(m, st, id); if let Some(st2) = decl(st, id) { if r.len() < b.len() { g_am(m, st2, r, n as nat, Some((BinaryType::StringArray, None))); } } } }
  else if hd(b, 15) { if let Some((((id, n), t), r)) = s_asp(b) { g_decl(m, st, id); } }
  else if hd(b, 7) { if let Some((a, r)) = s_ba(b) { g_decl(m, st, a.id); if let Some(st2) = decl(st, a.id) { if let Some(n) = cprod(a.lens, 1) { if r.len() < b.len() { g_am(m, st2, r, n, Some(a.ti)); } } } } }
}
pub proof fn g_am_read(m: B, st: St, b: B, n: nat, ty: Option<TI>, acc: Seq<SVR>) ensures go3(m, st, b, sp_am_read(st, b, n, ty, acc)) decreases b.len(), 6int, 0int {
  broadcast use steps;
  d_sp_am_read(st, b, n, ty, acc);
  if acc.len() < n { g_member(m, st, b, ty); if let Some((v, r, st2)) = sp_member(st, b, ty) { if r.len() < b.len() {
    if let SVR::Null(c) = v { g_am_read(m, st2, r, n, ty, acc + nulls(c as nat)); }
    g_am_read(m, st2, r, n, ty, acc.push(v));
  } } }
}
pub proof fn g_am(m: B, st: St, b: B, n: nat, ty: Option<TI>) ensures go3(m, st, b, sp_am(st, b, n, ty)) decreases b.len(), 7int, 0int {
  broadcast use steps;
  d_sp_am(st, b, n, ty); g_am_read(m, st, b, n, ty, Seq::empty());
  if let Some((ms, r, st2)) = sp_am_read(st, b, n, ty, Seq::empty()) { if r.len() <= b.len() { g_resolve(m, st2, r, ms, Seq::empty()); } }
}
pub proof fn g_refs(m: B, st: St, b: B) ensures sp_refs(st, b) is Some ==> go(m, st, b, sp_refs(st, b)->Some_0.0, sp_refs(st, b)->Some_0.1) decreases b.len() {
  broadcast use steps;
  d_sp_refs(st, b); if is_ref_head(st, b) { g_ref(m, st, b); if let Some((_, r, st2)) = sp_ref(st, b) { if r.len() < b.len() { g_refs(m, st2, r); } } }
}
pub proof fn g_callarr(m: B, st: St, b: B, root: Option<u32>) ensures go3(m, st, b, sp_callarr(st, b, root)) {
  broadcast use steps;
  reveal(sp_callarr); g_lib(m, st, b);
  if let Some((_, b1, st1)) = sp_lib(st, b) { d_sp_array(st1, b1); reveal(s_aso); if sp_aso(st1, b1) is Some { d_sp_aso(st1, b1); } g_array(m, st1, b1); }
}
pub proof fn g_opt_cr(m: B, st: St, b: B, root: Option<u32>) ensures go3(m, st, b, sp_opt_cr(st, b, root)) {
  broadcast use steps;
  reveal(sp_opt_cr); reveal(sp_cr); reveal(sp_call); reveal(sp_return); g_lib(m, st, b);
  if let Some((_, b1, st1)) = sp_lib(st, b) {
    if let Some((c, b2)) = s_mcall(b1) { g_callarr(m, st1, b2, root); }
    if let Some((c, b2)) = s_mret(b1) { g_callarr(m, st1, b2, root); }
  }
}
/// the state at the end of an accepted message and the call or return in it
pub open spec fn parsed(b: B, root: Option<u32>, cr: Option<SCR>, st: St) -> bool {
  s_header(b) is Some && s_header(b)->Some_0.0 == root && exists|b2: B, b3: B, st2: St, st3: St, b4: B|
    sp_refs(st0(), s_header(b)->Some_0.1) == Some((b2, st2)) && sp_opt_cr(st2, b2, root) == Some((cr, b3, st3)) && #[trigger] done(st2, b2, st3, b3, b4, st, b)
}
pub open spec fn done(st2: St, b2: B, st3: St, b3: B, b4: B, st: St, b: B) -> bool { sp_refs(st3, b3) == Some((b4, st)) && b4.len() == 1 && b4[0] == 11 && suf(b, b4) }

// ---------------------------------------------------------------- C07
/// a header of version 1.0, records, and the end marker as the last byte; the root object or null
pub proof fn c07_framed(b: B) -> (r: (Option<u32>, Option<SCR>, St)) requires sp_message(b) is Some
  ensures parsed(b, r.0, r.1, r.2), inv(b, r.2), b.len() >= 18, b[0] == 0, b[b.len() - 1] == 11,
    r.0 is Some ==> r.0->Some_0 > 0,
    r.1 is None && r.0 is None ==> sp_message(b) == Some(SMsg::Value(SV::Null)),
    r.1 is None && r.0 is Some ==> r.2.objs.contains_key(r.0->Some_0) && sp_message(b) == Some(SMsg::Value(r.2.objs[r.0->Some_0])) && object_of(b, r.0->Some_0, r.2.objs[r.0->Some_0]),
    r.1 is Some ==> sp_message(b) == Some(match r.1->Some_0 { SCR::Call(c) => SMsg::Call(c), SCR::Return(c) => SMsg::Return(c) }) {
  broadcast use steps;
  reveal(sp_message); reveal(sp_root); reveal(s_end); reveal(s_header); reveal(s_root); reveal(s_i32); reveal(s_id);
  let (root, b1) = s_header(b)->Some_0;
  let (b2, st2) = sp_refs(st0(), b1)->Some_0;
  let (cr, b3, st3) = sp_opt_cr(st2, b2, root)->Some_0;
  let (b4, st4) = sp_refs(st3, b3)->Some_0;
  assert(inv(b, st0())) by { reveal(inv); }
  g_refs(b, st0(), b1); g_opt_cr(b, st2, b2, root); g_refs(b, st3, b3);
  assert(b4.skip(1).len() == b4.len() - 1);
  assert(done(st2, b2, st3, b3, b4, st4, b));
  assert(b4 == b.skip(b.len() - 1));
  assert(b4[0] == b[b.len() - 1]);
  reveal(inv);
  (root, cr, st4)
}

// ---------------------------------------------------------------- C06
pub open spec fn stands_for(m: B, r: SVR, v: SV) -> bool { match r { SVR::V(w) => v == w, SVR::Null(n) => n == 1 && v == SV::Null, SVR::Ref(id) => object_of(m, id, v) } }
/// every value is kept, and every reference is replaced by the object of that ID of this message
pub proof fn c06_resolved(m: B, st: St, b: B, ms: Seq<SVR>, acc: Seq<SV>)
  requires inv(m, st), suf(m, b), sp_resolve(st, b, ms, acc) is Some
  ensures ({ let vs = sp_resolve(st, b, ms, acc)->Some_0.0; vs.len() == acc.len() + ms.len() && vs.take(acc.len() as int) == acc && forall|i: int| 0 <= i < ms.len() ==> stands_for(m, #[trigger] ms[i], vs[acc.len() + i]) })
  decreases b.len(), ms.len() {
  broadcast use steps;
  d_sp_resolve(st, b, ms, acc);
  let vs = sp_resolve(st, b, ms, acc)->Some_0.0;
  if ms.len() > 0 {
    let (st1, b1, v) = match ms[0] {
      SVR::V(v) => (st, b, v), SVR::Null(n) => (st, b, SV::Null),
      SVR::Ref(id) => if st.objs.contains_key(id) { (without(st, id), b, st.objs[id]) } else { (without(sp_ref(st, b)->Some_0.2, id), sp_ref(st, b)->Some_0.1, sp_ref(st, b)->Some_0.2.objs[id]) },
    };
    if let SVR::Ref(id) = ms[0] { g_without(m, st, id); if !st.objs.contains_key(id) { g_ref(m, st, b); g_without(m, sp_ref(st, b)->Some_0.2, id); } reveal(inv); }
    assert(stands_for(m, ms[0], v));
    c06_resolved(m, st1, b1, ms.drop_first(), acc.push(v));
    assert(vs.take(acc.len() as int + 1) == acc.push(v));
    assert(vs.take(acc.len() as int) =~= vs.take(acc.len() as int + 1).take(acc.len() as int));
    assert(acc.push(v).take(acc.len() as int) =~= acc);
    assert(vs[acc.len() as int] == vs.take(acc.len() as int + 1)[acc.len() as int]);
    assert forall|i: int| 0 <= i < ms.len() implies stands_for(m, #[trigger] ms[i], vs[acc.len() + i]) by {
      if i > 0 { assert(ms.drop_first()[i - 1] == ms[i]); }
    }
  } else { assert(acc.take(acc.len() as int) =~= acc); }
}
/// there is one object of an ID: it is declared once
pub proof fn c06_no_other(m: B, st: St, b: B) requires inv(m, st), suf(m, b), sp_ref(st, b) is Some
  ensures !st.ids.contains(sp_ref(st, b)->Some_0.0), !st.objs.contains_key(sp_ref(st, b)->Some_0.0) { g_ref(m, st, b); reveal(inv); }

// ---------------------------------------------------------------- C09
/// what is declared has a positive ID that nothing before it has, and keeps it
pub proof fn c09_declared_once(m: B, st: St, b: B) requires inv(m, st), suf(m, b)
  ensures declares(sp_ostr(st, b), st), declares(sp_classes(st, b), st), declares(sp_arrays(st, b), st),
    sp_ostr(st, b) is Some ==> sp_ostr(st, b)->Some_0.0.0 > 0, sp_classes(st, b) is Some ==> sp_classes(st, b)->Some_0.0.0 > 0, sp_arrays(st, b) is Some ==> sp_arrays(st, b)->Some_0.0.0 > 0 {
  g_ostr(m, st, b); g_classes(m, st, b); g_arrays(m, st, b); reveal(inv);
}
/// an instance without a definition of its own names a definition that precedes it in the message
pub proof fn c09_definition_precedes(m: B, st: St, b: B) requires inv(m, st), suf(m, b), hd(b, 1), sp_classhead(st, b) is Some
  ensures ({ let ((id, mid), _) = s_classid(b)->Some_0; s_classid(b) is Some && mid != id && mid > 0 && st.classes.contains_key(mid) && class_of(m, mid, st.classes[mid]) && sp_classhead(st, b)->Some_0.0 == (id, st.classes[mid]) }) {
  reveal(sp_classhead); reveal(s_classid); reveal(inv);
}

// ---------------------------------------------------------------- C16
/// the library name of an instance is that of the library record of its class's library ID
pub proof fn c16_library(m: B, st: St, b: B) requires inv(m, st), suf(m, b), sp_classes(st, b) is Some
  ensures ({ let (_, b1, st1) = sp_lib(st, b)->Some_0; let ((id, c), _, st2) = sp_classhead(st1, b1)->Some_0; let ((_, o), _, t) = sp_classes(st, b)->Some_0;
    sp_lib(st, b) is Some && sp_classhead(st1, b1) is Some && o is Obj && o->Obj_0 == c.name && match c.lib { None => o->Obj_1 is None, Some(l) => l > 0 && t.libs.contains_key(l) && o->Obj_1 == Some(t.libs[l]) && lib_of(m, l, t.libs[l]) } }) {
  broadcast use steps;
  d_sp_classes(st, b);
  g_lib(m, st, b); let (_, b1, st1) = sp_lib(st, b)->Some_0;
  g_classhead(m, st1, b1); let ((id, c), b2, st2) = sp_classhead(st1, b1)->Some_0;
  g_members(m, st2, b2, c.members.len(), Seq::empty()); if c.types is Some { g_typed(m, st2, b2, c.types->Some_0, Seq::empty()); }
  let (ms, b3, st3) = (match c.types { None => sp_members(st2, b2, c.members.len(), Seq::empty()), Some(ts) => sp_typed(st2, b2, ts, Seq::empty()) })->Some_0;
  g_resolve(m, st3, b3, ms, Seq::empty());
  reveal(step); reveal(inv);
}
/// a library ID is declared once
pub proof fn c16_declared_once(m: B, st: St, b: B) ensures sp_lib(st, b) is Some && sp_lib(st, b)->Some_0.0 is Some ==> !st.libs.contains_key(sp_lib(st, b)->Some_0.0->Some_0) && sp_lib(st, b)->Some_0.2.libs.contains_key(sp_lib(st, b)->Some_0.0->Some_0) { reveal(sp_lib); }

// ---------------------------------------------------------------- C04
pub proof fn c04_read_length(st: St, b: B, n: nat, ty: Option<TI>, acc: Seq<SVR>) requires acc.len() <= n, sp_am_read(st, b, n, ty, acc) is Some ensures sp_am_read(st, b, n, ty, acc)->Some_0.0.len() == n decreases b.len() {
  d_sp_am_read(st, b, n, ty, acc);
  if acc.len() < n { if let Some((v, r, st2)) = sp_member(st, b, ty) { if r.len() < b.len() { match v {
    SVR::Null(c) => { if c <= n - acc.len() { c04_read_length(st2, r, n, ty, acc + nulls(c as nat)); } },
    _ => { c04_read_length(st2, r, n, ty, acc.push(v)); },
  } } } }
}
pub proof fn c04_prims_length(b: B, t: PrimitiveType, n: nat, acc: Seq<SV>) requires s_prims(b, t, n, acc) is Some ensures s_prims(b, t, n, acc)->Some_0.0.len() == n + acc.len() decreases n {
  reveal_with_fuel(s_prims, 2); if n > 0 { if let Some((v, r)) = s_prim(b, t) { c04_prims_length(r, t, (n - 1) as nat, acc.push(v)); } }
}
/// an array has as many elements as its record declares
pub proof fn c04_length(m: B, st: St, b: B, n: nat, ty: Option<TI>) requires inv(m, st), suf(m, b), sp_am(st, b, n, ty) is Some ensures sp_am(st, b, n, ty)->Some_0.0.len() == n {
  broadcast use steps;
  d_sp_am(st, b, n, ty); c04_read_length(st, b, n, ty, Seq::empty()); g_am_read(m, st, b, n, ty, Seq::empty());
  let (ms, r, st2) = sp_am_read(st, b, n, ty, Seq::empty())->Some_0; c06_resolved(m, st2, r, ms, Seq::empty());
}
/// a run of nulls is that many null elements, and not more than are missing
pub proof fn c04_null_run(st: St, b: B, n: nat, ty: Option<TI>, acc: Seq<SVR>) requires acc.len() < n, sp_member(st, b, ty) is Some, sp_member(st, b, ty)->Some_0.0 is Null
  ensures ({ let (v, r, st2) = sp_member(st, b, ty)->Some_0; sp_am_read(st, b, n, ty, acc) == (if r.len() >= b.len() || v->Null_0 > n - acc.len() { None } else { sp_am_read(st2, r, n, ty, acc + nulls(v->Null_0 as nat)) }) }) { d_sp_am_read(st, b, n, ty, acc); }
/// a run of nulls fits into the 31 bits of its count
pub proof fn null_bound(st: St, b: B, ty: Option<TI>) ensures sp_member(st, b, ty) is Some && sp_member(st, b, ty)->Some_0.0 is Null ==> sp_member(st, b, ty)->Some_0.0->Null_0 <= 0x7fff_ffff decreases (if ty is None { 0int } else { 1int }) {
  d_sp_member(st, b, ty); reveal(s_null); reveal(s_null1); reveal(s_null256); reveal(s_nullm); reveal(s_refnull);
  match sp_lib(st, b) { None => {}, Some((_, b1, st1)) => { d_sp_untyped(st1, b1); if ty is Some { null_bound(st1, b1, None); } } }
}
pub proof fn c04_positive_run(b: B) ensures s_null(b) is Some ==> s_null(b)->Some_0.0 > 0 { reveal(s_null); reveal(s_null1); reveal(s_null256); reveal(s_nullm); }
/// the elements of a dimension of length `l` at a time
pub proof fn c04_rows(vs: Seq<SV>, l: nat, k: nat, acc: Seq<SV>) requires l > 0, vs.len() == k * l
  ensures rows(vs, l, acc).len() == acc.len() + k, rows(vs, l, acc).take(acc.len() as int) == acc,
    forall|i: int| 0 <= i < k ==> #[trigger] rows(vs, l, acc)[acc.len() + i] == SV::Arr(vs.subrange(i * l, i * l + l))
  decreases k {
  let o = rows(vs, l, acc);
  if k > 0 {
    assert(vs.len() == (k - 1) * l + l) by (nonlinear_arith) requires vs.len() == k * l;
    assert((k - 1) * l >= 0) by (nonlinear_arith) requires k >= 1, l >= 0;
    let a2 = acc.push(SV::Arr(vs.take(l as int)));
    c04_rows(vs.skip(l as int), l, (k - 1) as nat, a2);
    assert(o == rows(vs.skip(l as int), l, a2));
    assert(o.take(acc.len() as int) =~= o.take(a2.len() as int).take(acc.len() as int));
    assert(a2.take(acc.len() as int) =~= acc);
    assert(o[acc.len() as int] == o.take(a2.len() as int)[acc.len() as int]);
    assert forall|i: int| 0 <= i < k implies #[trigger] o[acc.len() + i] == SV::Arr(vs.subrange(i * l, i * l + l)) by {
      if i == 0 { assert(vs.take(l as int) =~= vs.subrange(0, l as int)); } else {
        assert(o[a2.len() + (i - 1)] == SV::Arr(vs.skip(l as int).subrange((i - 1) * l, (i - 1) * l + l)));
        assert((i - 1) * l + l == i * l && (i - 1) * l >= 0 && i * l + l <= k * l) by (nonlinear_arith) requires 1 <= i < k, l > 0;
        assert(vs.skip(l as int).subrange((i - 1) * l, (i - 1) * l + l) =~= vs.subrange(i * l, i * l + l));
      }
    }
  } else { assert(vs.len() == 0) by (nonlinear_arith) requires vs.len() == k * l, k == 0; assert(acc.take(acc.len() as int) =~= acc); }
}
/// the element with these indices
pub open spec fn at(a: Seq<SV>, ix: Seq<int>) -> SV decreases ix.len() { if ix.len() == 0 { SV::Arr(a) } else { at(a, ix.drop_last())->Arr_0[ix.last()] } }
/// its position in the stream: row by row
pub open spec fn pos(ix: Seq<int>, ls: Seq<usize>) -> int decreases ix.len() { if ix.len() == 0 { 0 } else { pos(ix.drop_last(), ls) * (ls[ix.len() - 1] as int) + ix.last() } }
pub open spec fn inside(ix: Seq<int>, ls: Seq<usize>) -> bool { forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < ls[i] }
pub proof fn pos_bound(ix: Seq<int>, ls: Seq<usize>) requires ix.len() <= ls.len(), inside(ix, ls) ensures 0 <= pos(ix, ls) < prod(ls, ix.len() as int) decreases ix.len() {
  if ix.len() > 0 {
    assert forall|i: int| 0 <= i < ix.drop_last().len() implies 0 <= #[trigger] ix.drop_last()[i] < ls[i] by { assert(ix.drop_last()[i] == ix[i]); }
    pos_bound(ix.drop_last(), ls);
    let (p, q, l, x) = (pos(ix.drop_last(), ls), prod(ls, ix.len() - 1), ls[ix.len() - 1] as int, ix[ix.len() - 1]);
    assert(0 <= p * l + x < q * l) by (nonlinear_arith) requires 0 <= p < q, 0 <= x < l;
  }
}
proof fn at_none(a: Seq<SV>, ix: Seq<int>) requires ix.len() == 0 ensures at(a, ix) == SV::Arr(a) {}
proof fn at_last(a: Seq<SV>, ix: Seq<int>) requires ix.len() > 0 ensures at(a, ix) == at(a, ix.drop_last())->Arr_0[ix.last()] {}
proof fn pos_none(ix: Seq<int>, ls: Seq<usize>) requires ix.len() == 0 ensures pos(ix, ls) == 0 {}
proof fn pos_last(ix: Seq<int>, ls: Seq<usize>) requires ix.len() > 0 ensures pos(ix, ls) == pos(ix.drop_last(), ls) * (ls[ix.len() - 1] as int) + ix.last() {}
proof fn prod_last(ls: Seq<usize>, k: int) requires 0 < k <= ls.len() ensures prod(ls, k) == prod(ls, k - 1) * (ls[k - 1] as nat) {}
proof fn prod_one(ls: Seq<usize>) requires ls.len() > 0 ensures prod(ls, 1) == ls[0] { prod_last(ls, 1); assert(prod(ls, 0) == 1); assert(1 * (ls[0] as nat) == ls[0]) by (nonlinear_arith); }
proof fn shape_none(vs: Seq<SV>, ls: Seq<usize>) ensures shape(vs, 0, ls) == vs {}
proof fn shape_last(vs: Seq<SV>, k: int, ls: Seq<usize>) requires 0 < k < ls.len() ensures shape(vs, k, ls) == shape(rows(vs, ls[k] as nat, Seq::empty()), k - 1, ls) {}
proof fn row_major_one(vs: Seq<SV>, ls: Seq<usize>, ix: Seq<int>)
  requires ls.len() > 0, ix.len() == 1, 0 <= ix[0]
  ensures at(vs, ix) == vs[pos(ix, ls)], pos(ix, ls) == ix[0] {
  hide(at); hide(pos);
  let jx = ix.drop_last();
  at_last(vs, ix); at_none(vs, jx); pos_last(ix, ls); pos_none(jx, ls);
  assert(0 * (ls[0] as int) == 0) by (nonlinear_arith);
  assert(ix.last() == ix[0]);
}
/// with several dimensions the element with given indices is the one at that position in the stream
pub proof fn c04_row_major(vs: Seq<SV>, k: int, ls: Seq<usize>, ix: Seq<int>)
  requires 0 <= k < ls.len(), forall|i: int| 0 <= i <= k ==> #[trigger] ls[i] > 0, vs.len() == prod(ls, k + 1), ix.len() == k + 1, inside(ix, ls)
  ensures at(shape(vs, k, ls), ix) == vs[pos(ix, ls)], shape(vs, k, ls).len() == ls[0], 0 <= pos(ix, ls) < vs.len() decreases k {
  hide(at); hide(pos); hide(prod); hide(shape); hide(rows);
  pos_bound(ix, ls);
  if k == 0 {
    assert(0 <= ix[0] < ls[0]);
    shape_none(vs, ls); row_major_one(vs, ls, ix); prod_one(ls);
  } else {
    let l = ls[k] as nat;
    let q = prod(ls, k);
    prod_last(ls, k + 1);
    assert(ls[k] > 0);
    assert(vs.len() == q * l);
    let rs = rows(vs, l, Seq::empty());
    c04_rows(vs, l, q, Seq::empty());
    assert(rs.len() == q);
    let jx = ix.drop_last();
    assert forall|i: int| 0 <= i < jx.len() implies 0 <= #[trigger] jx[i] < ls[i] by { assert(jx[i] == ix[i]); }
    assert(inside(jx, ls));
    c04_row_major(rs, k - 1, ls, jx);
    let j = pos(jx, ls);
    let x = ix[k];
    assert(ix.last() == x);
    assert(0 <= x < l);
    assert(rs[Seq::<SV>::empty().len() + j] == SV::Arr(vs.subrange(j * l, j * l + l)));
    assert(rs[j] == SV::Arr(vs.subrange(j * l, j * l + l)));
    assert(0 <= j * l && j * l + l <= q * l) by (nonlinear_arith) requires 0 <= j < q, l >= 0;
    assert(vs.subrange(j * l, j * l + l)[x] == vs[j * l + x]);
    shape_last(vs, k, ls);
    let a = shape(rs, k - 1, ls);
    at_last(a, ix);
    pos_last(ix, ls);
    assert(pos(ix, ls) == j * (ls[k] as int) + x);
    assert(at(a, jx) == rs[j]);
    assert(at(a, ix) == at(a, jx)->Arr_0[x]);
  }
}
/// the number of elements is the product of the lengths, if that is a `usize`
pub proof fn c04_product(ls: Seq<usize>, acc: nat, k: int) requires 0 <= k <= ls.len(), acc == prod(ls, k), cprod(ls.skip(k), acc) is Some ensures cprod(ls.skip(k), acc) == Some(prod(ls, ls.len() as int)) decreases ls.len() - k {
  if k < ls.len() { assert(ls.skip(k).drop_first() =~= ls.skip(k + 1)); assert(ls.skip(k)[0] == ls[k]); assert(prod(ls, k + 1) == prod(ls, k) * (ls[k] as nat)); c04_product(ls, acc * (ls[k] as nat), k + 1); }
}

/// the elements of an array of several dimensions are those of the stream, by their indices
pub proof fn c04_binary_array(m: B, st: St, b: B) -> (vs: Seq<SV>)
  requires inv(m, st), suf(m, b), sp_ba(st, b) is Some, s_ba(b)->Some_0.0.lens.len() > 0, forall|i: int| 0 <= i < s_ba(b)->Some_0.0.lens.len() ==> #[trigger] s_ba(b)->Some_0.0.lens[i] > 0
  ensures s_ba(b) is Some, ({ let (x, r) = s_ba(b)->Some_0; let ls = x.lens; let a = sp_ba(st, b)->Some_0.0.1; sp_ba(st, b)->Some_0.0.0 == x.id
    && decl(st, x.id) is Some && sp_am(decl(st, x.id)->Some_0, r, prod(ls, ls.len() as int), Some(x.ti)) is Some && vs == sp_am(decl(st, x.id)->Some_0, r, prod(ls, ls.len() as int), Some(x.ti))->Some_0.0
    && vs.len() == prod(ls, ls.len() as int) && a.len() == ls[0]
    && forall|ix: Seq<int>| ix.len() == ls.len() && #[trigger] inside(ix, ls) ==> 0 <= pos(ix, ls) < vs.len() && at(a, ix) == vs[pos(ix, ls)] }) {
  broadcast use steps;
  d_sp_ba(st, b);
  let (x, r) = s_ba(b)->Some_0; let ls = x.lens;
  assert(ls.skip(0) =~= ls); c04_product(ls, 1, 0);
  assert(x.id > 0) by { reveal(s_ba); g_s_id(b.skip(1)); }
  g_decl(m, st, x.id);
  let st2 = decl(st, x.id)->Some_0;
  c04_length(m, st2, r, prod(ls, ls.len() as int), Some(x.ti));
  let vs = sp_am(st2, r, prod(ls, ls.len() as int), Some(x.ti))->Some_0.0;
  assert forall|ix: Seq<int>| ix.len() == ls.len() && #[trigger] inside(ix, ls) implies 0 <= pos(ix, ls) < vs.len() && at(shape(vs, ls.len() - 1, ls), ix) == vs[pos(ix, ls)] by { c04_row_major(vs, ls.len() - 1, ls, ix); }
  let z = Seq::new(ls.len(), |i: int| 0int); assert(inside(z, ls)); c04_row_major(vs, ls.len() - 1, ls, z);
  vs
}

// ---------------------------------------------------------------- C05
pub proof fn c05_members_length(st: St, b: B, k: nat, acc: Seq<SVR>) requires sp_members(st, b, k, acc) is Some ensures sp_members(st, b, k, acc)->Some_0.0.len() == k + acc.len() decreases k {
  d_sp_members(st, b, k, acc); if k > 0 { if let Some((v, r, st2)) = sp_member(st, b, None) { if r.len() < b.len() { c05_members_length(st2, r, (k - 1) as nat, acc.push(v)); } } }
}
pub proof fn c05_typed_length(st: St, b: B, ts: Seq<TI>, acc: Seq<SVR>) requires sp_typed(st, b, ts, acc) is Some ensures sp_typed(st, b, ts, acc)->Some_0.0.len() == ts.len() + acc.len() decreases ts.len() {
  d_sp_typed(st, b, ts, acc); if ts.len() > 0 { if let Some((v, r, st2)) = sp_member(st, b, Some(ts[0])) { if r.len() < b.len() { c05_typed_length(st2, r, ts.drop_first(), acc.push(v)); } } }
}
/// each name has the value at its position
pub proof fn c05_names(p: Seq<(Text, SV)>, i: int) requires 0 <= i < p.len(), forall|j: int| i < j < p.len() ==> #[trigger] p[j].0 != p[i].0 ensures nm(p).contains_key(p[i].0), nm(p)[p[i].0] == p[i].1 decreases p.len() {
  if i < p.len() - 1 { let q = p.drop_last(); assert forall|j: int| i < j < q.len() implies #[trigger] q[j].0 != q[i].0 by { assert(q[j] == p[j] && q[i] == p[i]); } c05_names(q, i); assert(p[p.len() - 1].0 != p[i].0); assert(q[i] == p[i]); }
}
/// and there are no other names
pub proof fn c05_no_other_names(p: Seq<(Text, SV)>, n: Text) requires nm(p).contains_key(n) ensures exists|i: int| 0 <= i < p.len() && #[trigger] p[i].0 == n decreases p.len() {
  if p.len() > 0 { if p.last().0 == n { assert(p[p.len() - 1].0 == n); } else { c05_no_other_names(p.drop_last(), n); let i = choose|i: int| 0 <= i < p.drop_last().len() && #[trigger] p.drop_last()[i].0 == n; assert(p[i].0 == n); } }
}
/// a run of several nulls never stands for a member
pub proof fn c05_no_null_run(st: St, b: B, ms: Seq<SVR>, i: int, acc: Seq<SV>) requires 0 <= i < ms.len(), ms[i] is Null, ms[i]->Null_0 != 1 ensures sp_resolve(st, b, ms, acc) is None decreases b.len(), ms.len() {
  d_sp_resolve(st, b, ms, acc);
  if i > 0 { assert(ms.drop_first()[i - 1] == ms[i]); match ms[0] {
    SVR::V(v) => { c05_no_null_run(st, b, ms.drop_first(), i - 1, acc.push(v)); },
    SVR::Null(n) => { c05_no_null_run(st, b, ms.drop_first(), i - 1, acc.push(SV::Null)); },
    SVR::Ref(id) => if st.objs.contains_key(id) { c05_no_null_run(without(st, id), b, ms.drop_first(), i - 1, acc.push(st.objs[id])); } else {
      if let Some((id2, r, st2)) = sp_ref(st, b) { if r.len() < b.len() { c05_no_null_run(without(st2, id), r, ms.drop_first(), i - 1, acc.push(st2.objs[id])); } }
    },
  } }
}

// ---------------------------------------------------------------- C08
/// call context, return value and inline arguments are there exactly if the flags announce them; arguments in a call array are that array or its first item
pub proof fn c08_call(m: B, st: St, b: B, root: Option<u32>) requires sp_call(st, b, root) is Some
  ensures ({ let (_, b1, st1) = sp_lib(st, b)->Some_0; let (c, b2) = s_mcall(b1)->Some_0; let (o, _, _) = sp_call(st, b, root)->Some_0; let ca = sp_callarr(st1, b2, root)->Some_0.0;
    o.method == c.method && o.type_name == c.type_name && (o.context is Some <==> c.flags & 0x20 != 0) && flags_ok(c.flags) && c08_args(c.flags, o.args, ca, c.args) }) {
  reveal(sp_call); reveal(s_mcall); reveal(s_ctx); reveal(s_args); reveal(s_flags);
  let (_, b1, st1) = sp_lib(st, b)->Some_0; let (c, b2) = s_mcall(b1)->Some_0;
}
pub proof fn c08_return(m: B, st: St, b: B, root: Option<u32>) requires sp_return(st, b, root) is Some
  ensures ({ let (_, b1, st1) = sp_lib(st, b)->Some_0; let (c, b2) = s_mret(b1)->Some_0; let (o, _, _) = sp_return(st, b, root)->Some_0; let ca = sp_callarr(st1, b2, root)->Some_0.0;
    o.value == c.value && (o.value is Some <==> c.flags & 0x800 != 0) && (o.context is Some <==> c.flags & 0x20 != 0) && flags_ok(c.flags) && c08_args(c.flags, o.args, ca, c.args) }) {
  reveal(sp_return); reveal(s_mret); reveal(s_ctx); reveal(s_args); reveal(s_retval); reveal(s_flags);
  let (_, b1, st1) = sp_lib(st, b)->Some_0; let (c, b2) = s_mret(b1)->Some_0;
}
pub open spec fn c08_args(f: i32, args: Option<Seq<SV>>, ca: Option<Seq<SV>>, inline: Option<Seq<SV>>) -> bool {
  if f & 4 != 0 { ca is Some && args == ca } else if f & 8 != 0 { ca is Some && ca->Some_0.len() > 0 && ca->Some_0[0] is Arr && args == Some(ca->Some_0[0]->Arr_0) } else { args == inline && (args is Some <==> f & 2 != 0) }
}
/// the call array has the root ID
pub proof fn c08_call_array_id(st: St, b: B, root: Option<u32>) requires sp_callarr(st, b, root) is Some, sp_callarr(st, b, root)->Some_0.0 is Some
  ensures ({ let (_, b1, st1) = sp_lib(st, b)->Some_0; sp_lib(st, b) is Some && sp_aso(st1, b1) is Some && Some(sp_aso(st1, b1)->Some_0.0.0) == root && sp_callarr(st, b, root)->Some_0.0 == Some(sp_aso(st1, b1)->Some_0.0.1) }) { reveal(sp_callarr); }
}
