"""Edits of the primitive parsers, code tables, flags and accessors that keep their behaviour (for leafs.py: the third item names the harnesses)."""
E = []
def r(name, harnesses, *edits): E.append((name, list(edits), harnesses.split()))
LPS = "data_type/length_prefixed_string.rs"
LEN = """    let parse_len = |mut input| -> IResult<(&[u8], usize), u32> {
      use nom::bits::complete::{bool, tag, take};

      let mut len = 0;

      let (mut parse_next, mut len_part): (bool, u8);
      (input, (parse_next, len_part)) = pair(bool, take(7usize)).parse(input)?;
      len |= len_part as u32;

      if parse_next {
        (input, (parse_next, len_part)) = pair(bool, take(7usize)).parse(input)?;
        len |= (len_part as u32) << 7;

        if parse_next {
          (input, (parse_next, len_part)) = pair(bool, take(7usize)).parse(input)?;
          len |= (len_part as u32) << 14;

          if parse_next {
            (input, (parse_next, len_part)) = pair(bool, take(7usize)).parse(input)?;
            len |= (len_part as u32) << 21;

            if parse_next {
              (input, len_part) = preceded(tag(0b00000, 5usize), take(3usize)).parse(input)?;
              len |= (len_part as u32) << 28;
            }
          }
        }
      }

      Ok((input, len))
    };

    match parse_len((input, 0)) {
      Ok(((input, 0), len)) => Ok((input, len)),
      Ok(_) => Err(nom::Err::Failure(nom::error::Error::new(input, nom::error::ErrorKind::Verify))),
      Err(err) => Err(err.map_input(|(input, _)| input)),
    }
"""
USE = """  combinator::{map, map_res},
  sequence::{pair, preceded},
"""
r("len_loop", "verif::leaf_string", (LPS, LEN, """    let mut len = 0u32;
    let mut rest = input;
    for shift in [0u32, 7, 14, 21, 28] {
      let (next, byte) = nom::number::complete::u8(rest)?;
      if shift == 28 && byte > 0b111 {
        return Err(nom::Err::Error(nom::error::Error::new(rest, nom::error::ErrorKind::TagBits)));
      }
      len |= u32::from(byte & 0x7f) << shift;
      rest = next;
      if byte & 0x80 == 0 {
        break;
      }
    }
    Ok((rest, len))
"""), (LPS, USE, "  combinator::{map, map_res},\n"))
r("len_bit_loop", "verif::leaf_string", (LPS, """      if parse_next {
        (input, (parse_next, len_part)) = pair(bool, take(7usize)).parse(input)?;
        len |= (len_part as u32) << 7;

        if parse_next {
          (input, (parse_next, len_part)) = pair(bool, take(7usize)).parse(input)?;
          len |= (len_part as u32) << 14;

          if parse_next {
            (input, (parse_next, len_part)) = pair(bool, take(7usize)).parse(input)?;
            len |= (len_part as u32) << 21;

            if parse_next {
              (input, len_part) = preceded(tag(0b00000, 5usize), take(3usize)).parse(input)?;
              len |= (len_part as u32) << 28;
            }
          }
        }
      }
""", """      let mut shift = 7;
      while parse_next && shift < 28 {
        (input, (parse_next, len_part)) = pair(bool, take(7usize)).parse(input)?;
        len |= (len_part as u32) << shift;
        shift += 7;
      }
      if parse_next {
        (input, len_part) = preceded(tag(0b00000, 5usize), take(3usize)).parse(input)?;
        len |= (len_part as u32) << 28;
      }
"""))
r("string_match", "verif::leaf_string", (LPS, """    Self::parse_len(input)
      .and_then(|(input, len)| map(map_res(take(len), str::from_utf8), Self).parse(input))
      .map_err(|err| err.map(|err| error_position!(err.input, ExpectedPrimitive(PrimitiveType::String))))
""", """    let result = match Self::parse_len(input) {
      Ok((input, len)) => map_res(take(len), str::from_utf8).parse(input),
      Err(err) => Err(err),
    };
    match result {
      Ok((input, s)) => Ok((input, Self(s))),
      Err(err) => Err(err.map(|err| error_position!(err.input, ExpectedPrimitive(PrimitiveType::String)))),
    }
"""))
r("string_split", "verif::leaf_string", (LPS, """    Self::parse_len(input)
      .and_then(|(input, len)| map(map_res(take(len), str::from_utf8), Self).parse(input))
      .map_err(|err| err.map(|err| error_position!(err.input, ExpectedPrimitive(PrimitiveType::String))))
""", """    let expected = |err: nom::Err<nom::error::Error<&'i [u8]>>| {
      err.map(|err| error_position!(err.input, ExpectedPrimitive(PrimitiveType::String)))
    };
    let (input, len) = Self::parse_len(input).map_err(expected)?;
    let (rest, bytes) = take(len).parse(input).map_err(expected)?;
    match str::from_utf8(bytes) {
      Ok(s) => Ok((rest, Self(s))),
      Err(_) => Err(nom::Err::Error(error_position!(input, ExpectedPrimitive(PrimitiveType::String)))),
    }
"""), (LPS, "  combinator::{map, map_res},\n", ""))
CH = "data_type/char.rs"
CHB = """    map(
      alt((
        map_opt(take(1usize), Self::from_utf8),
        map_opt(take(2usize), Self::from_utf8),
        map_opt(take(3usize), Self::from_utf8),
        map_opt(take(4usize), Self::from_utf8),
      )),
      Self,
    )
    .parse(input)
    .map_err(|err| {
      into_failure(err)
        .map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Char)))
    })
"""
CHU = """use nom::{
  IResult, Parser,
  branch::alt,
  bytes::complete::take,
  combinator::{map, map_opt},
};
"""
r("char_loop", "verif::leaf_char", (CH, CHB, """    for len in 1..=4 {
      if let Some(bytes) = input.get(..len) {
        if let Some(c) = Self::from_utf8(bytes) {
          return Ok((&input[len..], Self(c)));
        }
      }
    }
    Err(nom::Err::Failure(error_position!(input, ExpectedPrimitive(PrimitiveType::Char))))
"""), (CH, CHU, "use nom::IResult;\n"), (CH, "  combinator::into_failure,\n", ""))
r("char_lead", "verif::leaf_char", (CH, CHB, """    let len = match input.first() {
      Some(0x00..=0x7f) => 1,
      Some(0xc0..=0xdf) => 2,
      Some(0xe0..=0xef) => 3,
      _ => 4,
    };
    map_opt(take(len as usize), Self::from_utf8).map(Self)
    .parse(input)
    .map_err(|err| {
      into_failure(err)
        .map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Char)))
    })
"""), (CH, CHU, "use nom::{IResult, Parser, bytes::complete::take, combinator::map_opt};\n"))
r("char_prefix", "verif::leaf_char", (CH, CHB, """    let head = &input[..input.len().min(4)];
    let s = match str::from_utf8(head) {
      Ok(s) => s,
      Err(err) => str::from_utf8(&head[..err.valid_up_to()]).unwrap_or(""),
    };
    match s.chars().next() {
      Some(c) => Ok((&input[c.len_utf8()..], Self(c))),
      None => Err(nom::Err::Failure(error_position!(input, ExpectedPrimitive(PrimitiveType::Char)))),
    }
"""), (CH, CHU, "use nom::IResult;\n"), (CH, "  combinator::into_failure,\n", ""), (CH, """  fn from_utf8(bytes: &[u8]) -> Option<char> {
    str::from_utf8(bytes).ok().and_then(|s| s.chars().next())
  }

""", ""))
B = "data_type/boolean.rs"
r("boolean_match", "verif::leaf_boolean", (B, """    map_res(u8, |byte| {
      Ok(Self(match byte {
        0 => false,
        1 => true,
        _ => return Err(()),
      }))
    })
    .parse(input)
    .map_err(|err| {
      into_failure(err)
        .map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Boolean)))
    })
""", """    match input.split_first() {
      Some((0, rest)) => Ok((rest, Self(false))),
      Some((1, rest)) => Ok((rest, Self(true))),
      _ => Err(nom::Err::Failure(error_position!(input, ExpectedPrimitive(PrimitiveType::Boolean)))),
    }
"""), (B, "use nom::{IResult, Parser, combinator::map_res, number::complete::u8};", "use nom::IResult;"), (B, "  combinator::into_failure,\n", ""))
r("boolean_verify", "verif::leaf_boolean", (B, """    map_res(u8, |byte| {
      Ok(Self(match byte {
        0 => false,
        1 => true,
        _ => return Err(()),
      }))
    })
""", """    nom::combinator::map(nom::combinator::verify(u8, |byte: &u8| *byte <= 1), |byte| Self(byte != 0))
"""), (B, "combinator::map_res, ", ""))
I = "data_type/int32.rs"
r("int32_bytes", "verif::leaf_int32", (I, """    map(le_i32, Self).parse(input).map_err(|err| {
      into_failure(err)
        .map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Int32)))
    })
""", """    match input {
      [a, b, c, d, rest @ ..] => Ok((rest, Self(i32::from_le_bytes([*a, *b, *c, *d])))),
      _ => Err(nom::Err::Failure(error_position!(input, ExpectedPrimitive(PrimitiveType::Int32)))),
    }
"""), (I, "use nom::{IResult, Parser, combinator::map, number::complete::le_i32};", "use nom::IResult;"), (I, "  combinator::into_failure,\n", ""))
r("int64_question", "verif::leaf_int64 verif::leaf_datetime", ("data_type/int64.rs", """    map(le_i64, Self).parse(input).map_err(|err| {
      into_failure(err)
        .map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Int64)))
    })
""", """    let (rest, n) = le_i64(input).map_err(|err: nom::Err<nom::error::Error<&[u8]>>| {
      into_failure(err).map(|err| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Int64)))
    })?;
    Ok((rest, n.into()))
"""), ("data_type/int64.rs", "use nom::{IResult, Parser, combinator::map, number::complete::le_i64};", "use nom::{IResult, number::complete::le_i64};"))
r("datetime_le", "verif::leaf_datetime verif::date_time_accessors", ("data_type/datetime.rs", """    map(Int64::parse, Self).parse(input).map_err(|err| {
      into_failure(err).map(|err| error_position!(err.input, ExpectedPrimitive(PrimitiveType::DateTime)))
    })
""", """    match nom::number::complete::le_i64::<_, nom::error::Error<&[u8]>>(input) {
      Ok((rest, ticks)) => Ok((rest, Self(Int64(ticks)))),
      Err(_) => Err(nom::Err::Failure(error_position!(input, ExpectedPrimitive(PrimitiveType::DateTime)))),
    }
"""), ("data_type/datetime.rs", "use nom::{IResult, Parser, combinator::map};", "use nom::IResult;"), ("data_type/datetime.rs", "  combinator::into_failure,\n", ""))
r("decimal_let_else", "verif::leaf_decimal", ("data_type/decimal.rs", """    if let Ok(decimal) = rust_decimal::Decimal::from_str(s.as_str()) {
      Ok((input, Self(decimal)))
    } else {
      Err(nom::Err::Failure(error_position!(err_input, ExpectedPrimitive(PrimitiveType::Decimal))))
    }
""", """    s.as_str()
      .parse::<rust_decimal::Decimal>()
      .map(|decimal| (input, Self(decimal)))
      .map_err(|_| nom::Err::Failure(error_position!(err_input, ExpectedPrimitive(PrimitiveType::Decimal))))
"""), ("data_type/decimal.rs", "use std::str::FromStr;\n\n", ""))
EN = "enumeration.rs"
r("binary_type_table", "verif::leaf_binary_type", (EN, """    alt((
      Self::Primitive,
      Self::String,
      Self::Object,
      Self::SystemClass,
      Self::Class,
      Self::ObjectArray,
      Self::StringArray,
      Self::PrimitiveArray,
    ))
    .parse(input)
    .map_err(|err| {
      into_failure(err).map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedBinaryType))
    })
""", """    let ty = match input.first() {
      Some(0) => Self::Primitive,
      Some(1) => Self::String,
      Some(2) => Self::Object,
      Some(3) => Self::SystemClass,
      Some(4) => Self::Class,
      Some(5) => Self::ObjectArray,
      Some(6) => Self::StringArray,
      Some(7) => Self::PrimitiveArray,
      _ => return Err(nom::Err::Failure(error_position!(input, ExpectedBinaryType))),
    };
    Ok((&input[1..], ty))
"""))
F = "record/message_flags.rs"
r("flags_any", "verif::message_flags", (F, """    if args_flags.bits().count_ones() > 1
      || context_flags.bits().count_ones() > 1
      || return_flags.bits().count_ones() > 1
    {
""", """    if [args_flags, context_flags, return_flags].iter().any(|group| group.bits().count_ones() > 1) {
"""))
r("flags_power", "verif::message_flags", (F, """    if args_flags.bits().count_ones() > 1
      || context_flags.bits().count_ones() > 1
      || return_flags.bits().count_ones() > 1
    {
""", """    let several = |group: Self| group.bits() & (group.bits() - 1).max(0) != 0;
    if several(args_flags) || several(context_flags) || several(return_flags) {
"""))
r("flags_pairs", "verif::message_flags", (F, """    if !args_flags.is_empty() && !exception_flags.is_empty() {
      return Err(nom::Err::Failure(error_position!(err_input, InvalidMessageFlags)))
    }

    if !return_flags.is_empty() && !exception_flags.is_empty() {
      return Err(nom::Err::Failure(error_position!(err_input, InvalidMessageFlags)))
    }

    if !return_flags.is_empty() && !signature_flags.is_empty() {
      return Err(nom::Err::Failure(error_position!(err_input, InvalidMessageFlags)))
    }

    if !exception_flags.is_empty() && !signature_flags.is_empty() {
      return Err(nom::Err::Failure(error_position!(err_input, InvalidMessageFlags)))
    }
""", """    let exclusive = [
      (args_flags, exception_flags),
      (return_flags, exception_flags),
      (return_flags, signature_flags),
      (exception_flags, signature_flags),
    ];
    for (a, b) in exclusive {
      if !(a.is_empty() || b.is_empty()) {
        return Err(nom::Err::Failure(error_position!(err_input, InvalidMessageFlags)))
      }
    }
"""))
r("flags_truncate", "verif::message_flags", (F, "    let signature_flags = flags.intersection(Self::METHOD_SIGNATURE_IN_ARRAY);", "    let signature_flags = flags & Self::METHOD_SIGNATURE_IN_ARRAY;"))
D = "value/date_time.rs"
r("ticks_shift", "verif::date_time_accessors", (D, "    i64::from(self.0) & 0x3FFF_FFFF_FFFF_FFFF", "    (((i64::from(self.0) as u64) << 2) >> 2) as i64"))
r("ticks_mask", "verif::date_time_accessors", (D, "    i64::from(self.0) & 0x3FFF_FFFF_FFFF_FFFF", "    const MASK: i64 = !(0b11 << 62);\n    i64::from(self.0) & MASK"))
r("kind_if", "verif::date_time_accessors", (D, """    match (i64::from(self.0) >> 62) & 0b11 {
      1 => Some(DateTimeKind::Utc),
      2 => Some(DateTimeKind::Local),
      _ => None,
    }
""", """    let bits = i64::from(self.0) as u64;
    match (bits >> 63 == 1, bits >> 62 & 1 == 1) {
      (false, true) => Some(DateTimeKind::Utc),
      (true, false) => Some(DateTimeKind::Local),
      (false, false) | (true, true) => None,
    }
"""))
r("prim_from_value", "verif::leaf_conversions verif::leaf_primitive_type verif::leaf_primitive_type_exact")
