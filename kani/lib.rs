// Kani proof harnesses compiled into the real crate through the guarded hook in /repo/src/lib.rs.
// Every harness is a contract of one leaf function: inputs are unconstrained (any slice of any length), the assertion
// is the full postcondition: the leaf agrees with its oracle. The oracles (oracle.rs) are proved by Verus to agree with the
// specification, which is what the contracts of the leaves say (verus/contracts/00_leaves.txt).

pub(crate) use crate::{data_type::*, enumeration::*};
pub(crate) use std::alloc::{Layout, alloc};

#[allow(dead_code)]
pub(crate) mod oracle {
  use crate::enumeration::*;
  include!(concat!(env!("NRBF_VERIF_HOOK"), "/oracle.rs"));
}

/// Any input slice: any length, any content, at the start of its own allocation so that every access out of its
/// bounds is an access out of the allocation's bounds.
pub(crate) fn any_input<'a>() -> &'a [u8] {
  let len: usize = kani::any();
  kani::assume(len <= 1 << 40);
  if len == 0 {
    return &[];
  }
  unsafe { std::slice::from_raw_parts(alloc(Layout::from_size_align(len, 1).unwrap()), len) }
}

/// `rest` is `input` without its first `n` bytes: same memory, not a copy.
pub(crate) fn is_rest(input: &[u8], rest: &[u8], n: usize) -> bool {
  rest.len() == input.len() - n && (rest.is_empty() || rest.as_ptr() == input.as_ptr().wrapping_add(n))
}

/// The leaf returns exactly what its oracle does (oracle.rs): for any input the same value and the rest behind the same bytes,
/// or both nothing, and then a failure (an error that no alternative is tried after).
macro_rules! leaf {
  ($(#[$stub:meta])* $name:ident, $unwind:expr, $leaf:path, $oracle:ident, |$v:ident| $value:expr) => {
    #[kani::proof]
    #[kani::unwind($unwind)]
    $(#[$stub])*
    fn $name() {
      let i = any_input();
      match $leaf(i) {
        Ok((rest, $v)) => {
          let o = oracle::$oracle(i);
          assert!(o.is_some(), "accepted a truncated or invalid encoding");
          let (x, n) = o.unwrap();
          assert!(is_rest(i, rest, n), "consumed other bytes than those of the value");
          assert!($value == x, "wrong value");
          kani::cover!(true, "accepts");
        },
        Err(e) => {
          assert!(oracle::$oracle(i).is_none(), "rejected a valid encoding");
          assert!(matches!(e, nom::Err::Failure(_)), "invalid value is not a failure");
          kani::cover!(true, "rejects");
        },
      }
    }
  };
}

leaf!(leaf_byte, 10, Byte::parse, byte, |v| v.0);
leaf!(leaf_int8, 10, Int8::parse, int8, |v| v.0);
leaf!(leaf_int16, 10, Int16::parse, int16, |v| v.0);
leaf!(leaf_uint16, 10, UInt16::parse, uint16, |v| v.0);
leaf!(leaf_int32, 10, Int32::parse, int32, |v| v.0);
leaf!(leaf_uint32, 10, UInt32::parse, uint32, |v| v.0);
leaf!(leaf_int64, 10, Int64::parse, int64, |v| v.0);
leaf!(leaf_uint64, 10, UInt64::parse, uint64, |v| v.0);
leaf!(leaf_single, 10, Single::parse, single, |v| v.0.to_bits());
leaf!(leaf_double, 10, Double::parse, double, |v| v.0.to_bits());
leaf!(leaf_timespan, 10, TimeSpan::parse, int64, |v| i64::from(v));
leaf!(leaf_datetime, 10, DateTime::parse, int64, |v| i64::from(v));
leaf!(leaf_boolean, 10, Boolean::parse, boolean, |v| v.0);
leaf!(#[kani::stub(std::str::from_utf8, rfc3629)] leaf_char, 6, Char::parse, character, |v| v.0 as u32);
leaf!(leaf_binary_type, 4, BinaryType::parse, binary_type, |v| v);
leaf!(leaf_primitive_type, 4, PrimitiveType::parse, primitive_type, |v| v);
leaf!(leaf_binary_array_type, 4, BinaryArrayType::parse, binary_array_type, |v| v);
// message flags (C14)
leaf!(message_flags, 10, crate::record::MessageFlags::parse, flags, |v| v.bits());

/// The error of `core::str::from_utf8` that tells of `valid` well-formed bytes and of an ill-formed or cut off sequence behind them.
fn utf8_error(valid: usize, len: Option<u8>) -> std::str::Utf8Error {
  let mut b = [b'a'; 4];
  let n = match len {
    Some(1) => {
      b[valid] = 0xff;
      valid + 1
    },
    Some(2) => {
      b[valid] = 0xe1;
      b[valid + 1] = 0x80;
      valid + 3
    },
    Some(_) => {
      b[0] = 0xf1;
      b[1] = 0x80;
      b[2] = 0x80;
      4
    },
    None => {
      b[valid] = 0xc3;
      valid + 1
    },
  };
  match std::str::from_utf8_mut(&mut b[..n]) {
    Ok(_) => unreachable!(),
    Err(e) => e,
  }
}

/// Stands in for `core::str::from_utf8` on at most four bytes: RFC 3629.
fn rfc3629(v: &[u8]) -> Result<&'_ str, std::str::Utf8Error> {
  let len = v.len();
  assert!(len <= 4, "unsupported: from_utf8 on more than four bytes");
  // the bytes, with zeros (which continue nothing) behind them
  let at = |k: usize| if k < len { v[k] } else { 0 };
  let b = [at(0), at(1), at(2), at(3), 0, 0, 0];
  let mut k = 0;
  while k < len {
    let (x, y, z, w) = (b[k], b[k + 1], b[k + 2], b[k + 3]);
    let second = match x {
      0xe0 => y >= 0xa0 && y <= 0xbf,
      0xed => y >= 0x80 && y <= 0x9f,
      0xf0 => y >= 0x90 && y <= 0xbf,
      0xf4 => y >= 0x80 && y <= 0x8f,
      _ => y & 0xc0 == 0x80,
    };
    // bytes of a sequence that starts with x, and how many of them are there
    let size = match x {
      0..=0x7f => 1,
      0xc2..=0xdf => 2,
      0xe0..=0xef => 3,
      0xf0..=0xf4 => 4,
      _ => 0,
    };
    let n = if size < 2 || !second {
      1
    } else if size == 2 || z & 0xc0 != 0x80 {
      2
    } else if size == 3 || w & 0xc0 != 0x80 {
      3
    } else {
      4
    };
    if size == n {
      k += n;
      continue;
    }
    let cut = size > 0 && k + n == len;
    return Err(match (k, n, cut) {
      (0, _, true) => utf8_error(0, None),
      (1, _, true) => utf8_error(1, None),
      (2, _, true) => utf8_error(2, None),
      (_, _, true) => utf8_error(3, None),
      (0, 1, _) => utf8_error(0, Some(1)),
      (1, 1, _) => utf8_error(1, Some(1)),
      (2, 1, _) => utf8_error(2, Some(1)),
      (_, 1, _) => utf8_error(3, Some(1)),
      (0, 2, _) => utf8_error(0, Some(2)),
      (_, 2, _) => utf8_error(1, Some(2)),
      _ => utf8_error(0, Some(3)),
    });
  }
  Ok(unsafe { std::str::from_utf8_unchecked(v) })
}

/// `PrimitiveType` as a parser of exactly its own code.
#[kani::proof]
#[kani::unwind(4)]
#[kani::solver(kissat)]
fn leaf_primitive_type_exact() {
  use nom::Parser;
  let i = any_input();
  let code: u8 = kani::any();
  let Some((mut t, _)) = oracle::primitive_type(unsafe { std::slice::from_raw_parts(&code, 1) }) else { return };
  match t.parse(i) {
    Ok((rest, v)) => {
      assert!(!i.is_empty() && i[0] == code, "accepted another code");
      assert!(v == t && is_rest(i, rest, 1));
      kani::cover!(true, "accepts");
    },
    Err(e) => {
      assert!(i.is_empty() || i[0] != code, "rejected the code");
      assert!(matches!(e, nom::Err::Error(_)));
      kani::cover!(true, "rejects");
    },
  }
}

/// Conversions between the wire types and the Rust primitives keep the value.
#[kani::proof]
fn leaf_conversions() {
  let x: u64 = kani::any();
  assert!(bool::from(Boolean(x & 1 == 1)) == (x & 1 == 1));
  assert!(u8::from(Byte(x as u8)) == x as u8);
  assert!(i8::from(Int8(x as i8)) == x as i8);
  assert!(i16::from(Int16(x as i16)) == x as i16);
  assert!(u16::from(UInt16(x as u16)) == x as u16);
  assert!(i32::from(Int32(x as i32)) == x as i32);
  assert!(u32::from(UInt32(x as u32)) == x as u32);
  assert!(i64::from(Int64(x as i64)) == x as i64);
  assert!(u64::from(UInt64(x)) == x);
  assert!(i64::from(TimeSpan(x as i64)) == x as i64);
  assert!(i64::from(DateTime(Int64(x as i64))) == x as i64);
  assert!(f32::from(Single(f32::from_bits(x as u32))).to_bits() == x as u32);
  assert!(f64::from(Double(f64::from_bits(x))).to_bits() == x);
  let c: char = kani::any();
  assert!(char::from(Char(c)) == c);
}

// ---- length-prefixed strings (C03)

/// Stands in for `core::str::from_utf8`: any answer, but on success the very same bytes.
fn any_utf8(v: &[u8]) -> Result<&'_ str, std::str::Utf8Error> {
  unsafe {
    (SEEN_PTR, SEEN_LEN) = (v.as_ptr(), v.len());
    UTF8_OK = kani::any();
    if UTF8_OK { Ok(std::str::from_utf8_unchecked(v)) } else { Err(std::mem::zeroed()) }
  }
}
static mut SEEN_PTR: *const u8 = std::ptr::null();
static mut SEEN_LEN: usize = usize::MAX;
static mut UTF8_OK: bool = false;

#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(std::str::from_utf8, any_utf8)]
fn leaf_string() {
  let i = any_input();
  match LengthPrefixedString::parse(i) {
    Ok((rest, text)) => {
      let o = oracle::string(i);
      assert!(o.is_some(), "accepted an invalid length or a truncated string");
      let (s, e) = o.unwrap();
      let text = text.as_str();
      assert!(text.len() == e - s, "wrong number of bytes");
      assert!(text.is_empty() || text.as_ptr() == i.as_ptr().wrapping_add(s), "not the bytes behind the length");
      assert!(is_rest(i, rest, e), "consumed other bytes than those of the string");
      unsafe {
        assert!(UTF8_OK && SEEN_LEN == text.len() && (text.is_empty() || SEEN_PTR == text.as_ptr()), "not validated");
      }
      kani::cover!(s == 5, "accepts 5 length bytes");
    },
    Err(_) => {
      if let Some((s, e)) = oracle::string(i) {
        unsafe { assert!(SEEN_LEN == e - s && !UTF8_OK, "rejected a valid string") }
      }
      kani::cover!(true, "rejects");
    },
  }
}

// ---- date-times and time spans (C12)

#[kani::proof]
fn date_time_accessors() {
  let raw: i64 = kani::any();
  let d = crate::value::DateTime(DateTime(Int64(raw)));
  let u = raw as u64;
  assert!(d.ticks() as u64 == u & ((1 << 62) - 1), "wrong ticks");
  let kind = match d.kind() {
    Some(crate::value::DateTimeKind::Utc) => 1,
    Some(crate::value::DateTimeKind::Local) => 2,
    None => 0,
  };
  assert!(kind == if u >> 62 == 1 { 1 } else if u >> 62 == 2 { 2 } else { 0 }, "wrong kind");
}

#[kani::proof]
fn time_span_value() {
  let raw: i64 = kani::any();
  let s = crate::value::TimeSpan(TimeSpan(raw));
  assert!(s.value() == raw, "wrong value");
}

// ---- message flags (C14, C08)

/// The constants are the bits of the specification and `intersects` means a common bit.
#[kani::proof]
fn message_flags_intersects() {
  use crate::record::MessageFlags as F;
  let f = F::from_bits_retain(kani::any());
  let t = [
    (F::NO_ARGS, 0x1),
    (F::ARGS_INLINE, 0x2),
    (F::ARGS_IS_ARRAY, 0x4),
    (F::ARGS_IN_ARRAY, 0x8),
    (F::NO_CONTEXT, 0x10),
    (F::CONTEXT_INLINE, 0x20),
    (F::CONTEXT_IN_ARRAY, 0x40),
    (F::METHOD_SIGNATURE_IN_ARRAY, 0x80),
    (F::PROPERTIES_IN_ARRAY, 0x100),
    (F::NO_RETURN_VALUE, 0x200),
    (F::RETURN_VALUE_VOID, 0x400),
    (F::RETURN_VALUE_INLINE, 0x800),
    (F::RETURN_VALUE_IN_ARRAY, 0x1000),
    (F::EXCEPTION_IN_ARRAY, 0x2000),
    (F::GENERIC_METHOD, 0x8000),
  ];
  let k: usize = kani::any();
  kani::assume(k < t.len());
  assert!(t[k].0.bits() == t[k].1);
  assert!(f.intersects(t[k].0) == (f.bits() & t[k].1 != 0));
}

// ---- decimals: the number that the text of a length-prefixed string spells

static mut TEXT_OK: bool = false;
static mut TEXT_LEN: usize = 0;
static mut TEXT_REST: usize = 0;
static mut NUMBER_OK: bool = false;
static mut NUMBER: u64 = 0;
static mut ASKED_PTR: *const u8 = std::ptr::null();
static mut ASKED_LEN: usize = usize::MAX;

/// Any answer the contract of `LengthPrefixedString::parse` (leaf_string) allows.
struct AnyString<'i>(&'i ());
impl<'i> AnyString<'i> {
  fn parse(input: &'i [u8]) -> nom::IResult<&'i [u8], LengthPrefixedString<'i>, crate::error::Error<'i>> {
    let k: usize = kani::any();
    let n: usize = kani::any();
    let e = crate::error::error_position!(input, ExpectedPrimitive(PrimitiveType::String));
    unsafe {
      TEXT_OK = kani::any();
      if !TEXT_OK {
        return Err(if kani::any() { nom::Err::Error(e) } else { nom::Err::Failure(e) });
      }
      kani::assume(k >= 1 && k <= 5 && n <= 0x7fff_ffff && k + n <= input.len());
      TEXT_LEN = n;
      TEXT_REST = k + n;
      Ok((&input[k + n..], LengthPrefixedString(std::str::from_utf8_unchecked(&input[k..k + n]))))
    }
  }
}

/// Any answer; the number is a function of the text and the text is recorded.
fn any_decimal(s: &str) -> Result<rust_decimal::Decimal, rust_decimal::Error> {
  unsafe {
    (ASKED_PTR, ASKED_LEN) = (s.as_ptr(), s.len());
    (NUMBER_OK, NUMBER) = (kani::any(), kani::any());
    let x = NUMBER;
    if NUMBER_OK {
      Ok(rust_decimal::Decimal::from_parts(x as u32, (x >> 32) as u32, 0, false, 0))
    } else {
      Err(rust_decimal::Error::ExceedsMaximumPossibleValue)
    }
  }
}

#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(LengthPrefixedString::parse, AnyString::parse)]
#[kani::stub(<rust_decimal::Decimal as std::str::FromStr>::from_str, any_decimal)]
fn leaf_decimal() {
  let i = any_input();
  match Decimal::parse(i) {
    Ok((rest, d)) => unsafe {
      assert!(TEXT_OK && NUMBER_OK, "accepted something that is no number");
      assert!(ASKED_LEN == TEXT_LEN && is_rest(i, rest, TEXT_REST), "consumed other bytes than those of the text");
      assert!(TEXT_LEN == 0 || ASKED_PTR == i.as_ptr().wrapping_add(TEXT_REST - TEXT_LEN), "another text");
      let x = NUMBER;
      assert!(d.0 == rust_decimal::Decimal::from_parts(x as u32, (x >> 32) as u32, 0, false, 0), "another number");
      kani::cover!(true, "accepts");
    },
    Err(_) => unsafe {
      assert!(!TEXT_OK || !NUMBER_OK, "rejected a number");
      kani::cover!(true, "rejects");
    },
  }
}
