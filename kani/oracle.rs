// What the leaves must return, as plain functions on the input.  This text is read twice: Kani compiles it into the crate
// and proves that each leaf agrees with its oracle; Verus proves, on the same text, that each oracle agrees with the
// specification (verus/spec.rs).  So the contracts of the leaves that the proof of the parser assumes are proved.
// Lines that start with `//@` are for Verus only (tools/oracle.py); to Kani they are comments.
//@ pub open spec fn some<T>(i: Seq<u8>, r: Option<(T, usize)>, s: Option<(T, Seq<u8>)>) -> bool {
//@   match s { None => r is None, Some((v, rest)) => r is Some && r->Some_0.0 == v && r->Some_0.1 <= i.len() && rest == i.skip(r->Some_0.1 as int) }
//@ }
//@ pub open spec fn p256(n: int) -> int decreases n { if n <= 0 { 1 } else { 256 * p256(n - 1) } }
//@ pub open spec fn lim(k: int) -> int decreases 4 - k { if k >= 4 { 8 } else { 128 * lim(k + 1) } }
//@ pub proof fn limits() ensures p256(0) == 1, p256(1) == 0x100, p256(2) == 0x1_0000, p256(3) == 0x100_0000, p256(4) == 0x1_0000_0000,
//@   p256(5) == 0x100_0000_0000, p256(6) == 0x1_0000_0000_0000, p256(7) == 0x100_0000_0000_0000, p256(8) == 0x1_0000_0000_0000_0000,
//@   lim(4) == 8, lim(3) == 0x400, lim(2) == 0x2_0000, lim(1) == 0x100_0000, lim(0) == 0x8000_0000,
//@ { reveal_with_fuel(p256, 9); reveal_with_fuel(lim, 6); }

/// The little-endian number of the first `n` bytes.
pub fn le(i: &[u8], n: usize) -> u64 {
  //@: requires n <= 8, n <= i@.len(),
  //@: ensures r == crate::spec::le(i@, n as nat), r < p256(n as int),
  //@ proof { limits(); }
  let mut x = 0u64;
  let mut k = n;
  while k > 0 {
    //@: invariant k <= n <= 8, n <= i@.len(), x == crate::spec::le(i@.skip(k as int), (n - k) as nat), x < p256(n - k),
    //@: decreases k,
    k -= 1;
    //@ proof { limits(); assert(i@.skip(k as int).skip(1) =~= i@.skip(k + 1)); assert(i@.skip(k as int)[0] == i@[k as int]); assert(p256(n - k) == 256 * p256(n - k - 1)); }
    x = x * 256 + i[k] as u64;
  }
  //@ proof { assert(i@.skip(0) =~= i@); }
  x
}

pub fn byte(i: &[u8]) -> Option<(u8, usize)> {
  //@: ensures some(i@, r, s_byte(i@)),
  //@ proof { reveal(s_byte); }
  if i.len() < 1 { None } else { Some((i[0], 1)) }
}

pub fn boolean(i: &[u8]) -> Option<(bool, usize)> {
  //@: ensures some(i@, r, s_bool(i@)),
  //@ proof { reveal(s_bool); }
  if i.len() < 1 || i[0] > 1 { None } else { Some((i[0] == 1, 1)) }
}

pub fn int8(i: &[u8]) -> Option<(i8, usize)> {
  //@: ensures some(i@, r, s_i8(i@)),
  //@ proof { reveal(s_i8); }
  if i.len() < 1 {
    return None;
  }
  let x = i[0] as i16;
  Some(((if x < 0x80 { x } else { x - 0x100 }) as i8, 1))
}

pub fn uint16(i: &[u8]) -> Option<(u16, usize)> {
  //@: ensures some(i@, r, s_u16(i@)),
  //@ proof { reveal(s_u16); limits(); }
  if i.len() < 2 { None } else { Some((le(i, 2) as u16, 2)) }
}

pub fn int16(i: &[u8]) -> Option<(i16, usize)> {
  //@: ensures some(i@, r, s_i16(i@)),
  //@ proof { reveal(s_i16); limits(); }
  if i.len() < 2 {
    return None;
  }
  let x = le(i, 2) as i32;
  Some(((if x < 0x8000 { x } else { x - 0x1_0000 }) as i16, 2))
}

pub fn uint32(i: &[u8]) -> Option<(u32, usize)> {
  //@: ensures some(i@, r, s_u32(i@)),
  //@ proof { reveal(s_u32); limits(); }
  if i.len() < 4 { None } else { Some((le(i, 4) as u32, 4)) }
}

pub fn int32(i: &[u8]) -> Option<(i32, usize)> {
  //@: ensures some(i@, r, s_i32(i@)),
  //@ proof { reveal(s_i32); limits(); }
  if i.len() < 4 {
    return None;
  }
  let x = le(i, 4) as i64;
  Some(((if x < 0x8000_0000 { x } else { x - 0x1_0000_0000 }) as i32, 4))
}

pub fn uint64(i: &[u8]) -> Option<(u64, usize)> {
  //@: ensures some(i@, r, s_u64(i@)),
  //@ proof { reveal(s_u64); limits(); }
  if i.len() < 8 { None } else { Some((le(i, 8), 8)) }
}

pub fn int64(i: &[u8]) -> Option<(i64, usize)> {
  //@: ensures some(i@, r, s_i64(i@)),
  //@ proof { reveal(s_i64); limits(); }
  if i.len() < 8 {
    return None;
  }
  let x = le(i, 8) as i128;
  Some(((if x < 0x8000_0000_0000_0000 { x } else { x - 0x1_0000_0000_0000_0000 }) as i64, 8))
}

/// The bits of a Single.
pub fn single(i: &[u8]) -> Option<(u32, usize)> {
  //@: ensures match r { None => s_f32(i@) is None, Some((x, n)) => some(i@, Some((f32_of(x), n)), s_f32(i@)) },
  //@ proof { reveal(s_f32); limits(); }
  if i.len() < 4 { None } else { Some((le(i, 4) as u32, 4)) }
}

/// The bits of a Double.
pub fn double(i: &[u8]) -> Option<(u64, usize)> {
  //@: ensures match r { None => s_f64(i@) is None, Some((x, n)) => some(i@, Some((f64_of(x), n)), s_f64(i@)) },
  //@ proof { reveal(s_f64); limits(); }
  if i.len() < 8 { None } else { Some((le(i, 8), 8)) }
}

fn cont(i: &[u8], k: usize) -> bool {
  //@: ensures r == crate::spec::cont(i@, k as int),
  k < i.len() && 0x80 <= i[k] && i[k] < 0xc0
}

/// The one well-formed UTF-8 sequence at the start (RFC 3629).
pub fn character(i: &[u8]) -> Option<(u32, usize)> {
  //@: ensures some(i@, r, s_char(i@)),
  //@ proof { reveal(s_char); }
  if i.len() == 0 {
    return None;
  }
  let x = i[0] as u32;
  if x < 0x80 {
    return Some((x, 1));
  }
  if 0xc0 <= x && x < 0xe0 && cont(i, 1) {
    let c = (x - 0xc0) * 64 + (i[1] as u32 - 0x80);
    return if c >= 0x80 { Some((c, 2)) } else { None };
  }
  if 0xe0 <= x && x < 0xf0 && cont(i, 1) && cont(i, 2) {
    let c = (x - 0xe0) * 4096 + (i[1] as u32 - 0x80) * 64 + (i[2] as u32 - 0x80);
    return if c >= 0x800 && !(0xd800 <= c && c < 0xe000) { Some((c, 3)) } else { None };
  }
  if 0xf0 <= x && x < 0xf8 && cont(i, 1) && cont(i, 2) && cont(i, 3) {
    let c = (x - 0xf0) * 262144 + (i[1] as u32 - 0x80) * 4096 + (i[2] as u32 - 0x80) * 64 + (i[3] as u32 - 0x80);
    return if 0x10000 <= c && c <= 0x10ffff { Some((c, 4)) } else { None };
  }
  None
}

/// The length whose bytes from the `k`-th on start at `k`, and where they end.
fn length_at(i: &[u8], k: usize) -> Option<(u64, usize)> {
  //@: requires k <= 4, k <= i@.len(),
  //@: ensures match s_len(i@.skip(k as int), k as nat) {
  //@:   None => r is None,
  //@:   Some((n, rest)) => r is Some && r->Some_0.0 == n && 0 <= n < lim(k as int) && k < r->Some_0.1 <= i@.len() && rest =~= i@.skip(r->Some_0.1 as int) },
  //@: decreases 5 - k,
  //@ proof { reveal_with_fuel(s_len, 2); limits(); if k < i@.len() { assert(i@.skip(k as int)[0] == i@[k as int]); assert(i@.skip(k as int).skip(1) =~= i@.skip(k + 1)); } }
  if k >= i.len() {
    return None;
  }
  let x = i[k] as u64;
  if k == 4 {
    return if x < 8 { Some((x, 5)) } else { None };
  }
  if x < 128 {
    return Some((x, k + 1));
  }
  match length_at(i, k + 1) {
    Some((n, end)) => Some((x - 128 + 128 * n, end)),
    None => None,
  }
}

/// Length-prefixed text, if its bytes are well-formed: where it starts and ends.
pub fn string(i: &[u8]) -> Option<(usize, usize)> {
  //@: ensures match r {
  //@:   None => s_str(i@) is None,
  //@:   Some((s, e)) => s <= e <= i@.len() && e - s < 0x8000_0000
  //@:     && s_str(i@) == (match utf8(i@.subrange(s as int, e as int)) { Some(t) => Some((t, i@.skip(e as int))), None => None }) },
  //@ proof { reveal(s_str); limits(); assert(i@.skip(0) =~= i@); }
  match length_at(i, 0) {
    Some((n, s)) => {
      if (i.len() - s) as u64 >= n {
        //@ proof { assert(i@.skip(s as int).take(n as int) =~= i@.subrange(s as int, s + n)); assert(i@.skip(s as int).skip(n as int) =~= i@.skip(s + n)); }
        Some((s, s + n as usize))
      } else {
        None
      }
    },
    None => None,
  }
}

fn one(f: i32, a: i32, b: i32, c: i32, d: i32) -> u8 {
  //@: ensures r == ones(f, a, b, c, d), r <= 4,
  (if f & a != 0 { 1u8 } else { 0 }) + (if f & b != 0 { 1u8 } else { 0 }) + (if f & c != 0 { 1u8 } else { 0 }) + (if f & d != 0 { 1u8 } else { 0 })
}

/// Message flags that the categories' rules allow.
pub fn flags(i: &[u8]) -> Option<(i32, usize)> {
  //@: ensures some(i@, r, s_flags(i@)),
  //@ proof { reveal(s_flags); reveal(s_i32); }
  match int32(i) {
    Some((f, n)) => {
      let (args, context) = (one(f, 1, 2, 4, 8), one(f, 0x10, 0x20, 0x40, 0));
      let (ret, signature, exception) = (one(f, 0x200, 0x400, 0x800, 0x1000), f & 0x80 != 0, f & 0x2000 != 0);
      if args > 1 || context > 1 || ret > 1 || (exception && (args > 0 || ret > 0 || signature)) || (ret > 0 && signature) {
        None
      } else {
        Some((f, n))
      }
    },
    None => None,
  }
}

pub fn primitive_type(i: &[u8]) -> Option<(PrimitiveType, usize)> {
  //@: ensures some(i@, r, s_ptype(i@)),
  //@ proof { reveal(s_ptype); }
  if i.len() == 0 {
    return None;
  }
  let t = match i[0] {
    1 => PrimitiveType::Boolean,
    2 => PrimitiveType::Byte,
    3 => PrimitiveType::Char,
    5 => PrimitiveType::Decimal,
    6 => PrimitiveType::Double,
    7 => PrimitiveType::Int16,
    8 => PrimitiveType::Int32,
    9 => PrimitiveType::Int64,
    10 => PrimitiveType::SByte,
    11 => PrimitiveType::Single,
    12 => PrimitiveType::TimeSpan,
    13 => PrimitiveType::DateTime,
    14 => PrimitiveType::UInt16,
    15 => PrimitiveType::UInt32,
    16 => PrimitiveType::UInt64,
    17 => PrimitiveType::Null,
    18 => PrimitiveType::String,
    _ => return None,
  };
  Some((t, 1))
}

pub fn binary_type(i: &[u8]) -> Option<(BinaryType, usize)> {
  //@: ensures some(i@, r, s_btype(i@)),
  //@ proof { reveal(s_btype); }
  if i.len() == 0 {
    return None;
  }
  let t = match i[0] {
    0 => BinaryType::Primitive,
    1 => BinaryType::String,
    2 => BinaryType::Object,
    3 => BinaryType::SystemClass,
    4 => BinaryType::Class,
    5 => BinaryType::ObjectArray,
    6 => BinaryType::StringArray,
    7 => BinaryType::PrimitiveArray,
    _ => return None,
  };
  Some((t, 1))
}

pub fn binary_array_type(i: &[u8]) -> Option<(BinaryArrayType, usize)> {
  //@: ensures some(i@, r, s_atype(i@)),
  //@ proof { reveal(s_atype); }
  if i.len() == 0 {
    return None;
  }
  let t = match i[0] {
    0 => BinaryArrayType::Single,
    1 => BinaryArrayType::Jagged,
    2 => BinaryArrayType::Rectangular,
    3 => BinaryArrayType::SingleOffset,
    4 => BinaryArrayType::JaggedOffset,
    5 => BinaryArrayType::RectangularOffset,
    _ => return None,
  };
  Some((t, 1))
}

pub fn record_code(t: &crate::record::RecordType) -> u8 {
  //@: ensures r == code_of(*t),
  use crate::record::RecordType::*;
  match *t {
    SerializedStreamHeader => 0,
    ClassWithId => 1,
    SystemClassWithMembers => 2,
    ClassWithMembers => 3,
    SystemClassWithMembersAndTypes => 4,
    ClassWithMembersAndTypes => 5,
    BinaryObjectString => 6,
    BinaryArray => 7,
    MemberPrimitiveTyped => 8,
    MemberReference => 9,
    ObjectNull => 10,
    MessageEnd => 11,
    BinaryLibrary => 12,
    ObjectNullMultiple256 => 13,
    ObjectNullMultiple => 14,
    ArraySinglePrimitive => 15,
    ArraySingleObject => 16,
    ArraySingleString => 17,
    MethodCall => 21,
    MethodReturn => 22,
  }
}
