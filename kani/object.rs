// Harnesses that need items private to /repo/src/value: what a boxed system primitive deserializes to.
// The Verus proof of `ObjectDeserializer::deserialize_any` assumes exactly these contracts (verus/serde/spec.rs).
use super::*;
use serde::de::{Deserialize, value::MapDeserializer};

/// Stands in for the formatting of error messages, which no contract speaks of.
fn no_message(_: fmt::Arguments<'_>) -> String {
  String::new()
}
fn no_write(_: &mut dyn fmt::Write, _: fmt::Arguments<'_>) -> fmt::Result {
  Ok(())
}

macro_rules! boxed {
  ($($name:ident $ty:ident $variant:ident $prim:ty, $eq:expr;)*) => {
    $(
      /// From a map of the one entry `m_value`: exactly that value.
      #[kani::proof]
      #[kani::unwind(9)]
      #[kani::stub(std::fmt::format, no_message)]
      #[kani::stub(core::fmt::write, no_write)]
      fn $name() {
        let x: $prim = kani::any();
        let v = Value::$variant(x);
        let m: MapDeserializer<'_, _, Error> =
          MapDeserializer::new(std::iter::once((StrDeserializer("m_value"), ValueDeserializer::new(&v))));
        match $ty::deserialize(m) {
          Ok(g) => {
            let g: $prim = g.into();
            let eq: fn($prim, $prim) -> bool = $eq;
            assert!(eq(g, x), "wrong value");
            kani::cover!(true, "accepts");
          },
          Err(e) => {
            std::mem::forget(e);
            assert!(false, "rejected the single member m_value");
          },
        }
      }
    )*
  };
}

boxed! {
  boxed_boolean Boolean Boolean bool, |a, b| a == b;
  boxed_byte Byte Byte u8, |a, b| a == b;
  boxed_sbyte Int8 SByte i8, |a, b| a == b;
  boxed_char Char Char char, |a, b| a == b;
  boxed_double Double Double f64, |a, b| a.to_bits() == b.to_bits();
  boxed_single Single Single f32, |a, b| a.to_bits() == b.to_bits();
  boxed_int16 Int16 Int16 i16, |a, b| a == b;
  boxed_uint16 UInt16 UInt16 u16, |a, b| a == b;
  boxed_int32 Int32 Int32 i32, |a, b| a == b;
  boxed_uint32 UInt32 UInt32 u32, |a, b| a == b;
  boxed_int64 Int64 Int64 i64, |a, b| a == b;
  boxed_uint64 UInt64 UInt64 u64, |a, b| a == b;
}
