BP = "binary_parser/mod.rs"
E = []
def r(name, *edits): E.append((name, list(edits)))

r("comment", (BP, "impl<'i> BinaryParser<'i> {", "// a comment\nimpl<'i> BinaryParser<'i> {"))
r("member_count_helper",
  (BP, """    let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
      Some(member_count) => member_count,
      None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
    };
""", """    let member_count = Self::member_count(err_input, &binary_array)?;
"""),
  (BP, "  /// 2.7 Binary Record Grammar - `Arrays`\n", """  fn member_count(err_input: &'i [u8], binary_array: &BinaryArray<'i>) -> Result<usize, nom::Err<Error<'i>>> {
    match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
      Some(member_count) => Ok(member_count),
      None => Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
    }
  }

  /// 2.7 Binary Record Grammar - `Arrays`
"""))
r("member_count_loop",
  (BP, """    let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
      Some(member_count) => member_count,
      None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
    };
""", """    let mut member_count = 1usize;
    for length in &binary_array.lengths {
      member_count = match member_count.checked_mul(*length) {
        Some(member_count) => member_count,
        None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
      };
    }
"""))
r("library_helper",
  (BP, """        let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
          library.as_str()
        } else {
          return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
        };
""", """        let library = self.library_name(err_input, class.library_id())?;
"""),
  (BP, "  /// 2.7 Binary Record Grammar - `Classes`\n", """  fn library_name(&self, err_input: &'i [u8], library_id: NonZeroU32) -> Result<&'i str, nom::Err<Error<'i>>> {
    match self.binary_libraries.get(&library_id) {
      Some(library) => Ok(library.as_str()),
      None => Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId))),
    }
  }

  /// 2.7 Binary Record Grammar - `Classes`
"""))
r("library_let_else",
  (BP, """        let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
          library.as_str()
        } else {
          return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
        };
""", """        let Some(library) = self.binary_libraries.get(&class.library_id()) else {
          return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
        };
        let library = library.as_str();
"""))
r("library_ok_or_else",
  (BP, """          let library = if let Some(library) = self.binary_libraries.get(&class_type_info.library_id()) {
            library.as_str()
          } else {
            return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
          };
""", """          let library = self
            .binary_libraries
            .get(&class_type_info.library_id())
            .map(|library| library.as_str())
            .ok_or_else(|| nom::Err::Failure(error_position!(err_input, MissingLibraryId)))?;
"""))
r("resolve_no_into_iter", (BP, "for member in members.into_iter() {", "for member in members {"))
r("resolve_value_first",
  (BP, """          if let Some(value) = self.objects.remove(&id.0) {
            members2.push(value);
          } else {
            let member2;
            (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;

            if let Some(value) = self.objects.remove(&member2.0) {
              members2.push(value);
            } else {
              return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
            }
          }
""", """          let value = match self.objects.remove(&id.0) {
            Some(value) => value,
            None => {
              let member2;
              (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;

              match self.objects.remove(&member2.0) {
                Some(value) => value,
                None => return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference))),
              }
            },
          };
          members2.push(value);
"""))
r("resolve_manual_verify",
  (BP, """            let member2;
            (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
""", """            let err_input = input;
            let (input2, member2) = self.parse_referenceable(input)?;
            if member2.0 != id.0 {
              return Err(nom::Err::Error(nom::error::ParseError::from_error_kind(err_input, nom::error::ErrorKind::Verify)))
            }
            input = input2;
"""))
r("resolve_helper",
  (BP, """          if let Some(value) = self.objects.remove(&id.0) {
            members2.push(value);
          } else {
            let member2;
            (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;

            if let Some(value) = self.objects.remove(&member2.0) {
              members2.push(value);
            } else {
              return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
            }
          }
""", """          let value;
          (input, value) = self.resolve_reference(input, id)?;
          members2.push(value);
"""),
  (BP, "  /// 2.7 Binary Record Grammar - `Classes`\n", """  fn resolve_reference(&mut self, input: &'i [u8], id: RefId) -> IResult<&'i [u8], Value<'i>, Error<'i>> {
    if let Some(value) = self.objects.remove(&id.0) {
      return Ok((input, value))
    }

    let (input, member) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;

    match self.objects.remove(&member.0) {
      Some(value) => Ok((input, value)),
      None => Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference))),
    }
  }

  /// 2.7 Binary Record Grammar - `Classes`
"""))
r("referenceables_arms",
  (BP, """        Err(nom::Err::Incomplete(n)) => return Err(nom::Err::Incomplete(n)),
        Err(nom::Err::Error(_)) => break,
        Err(nom::Err::Failure(err)) => {
          return Err(nom::Err::Failure(err));
        },
""", """        Err(nom::Err::Error(_)) => return Ok((input, ())),
        Err(err) => return Err(err),
"""), (BP, """      }
    }

    Ok((input, ()))
  }

  /// 2.7 Binary Record Grammar - `remotingMessage`
""", """      }
    }
  }

  /// 2.7 Binary Record Grammar - `remotingMessage`
"""))
r("referenceables_err",
  (BP, """        Err(nom::Err::Incomplete(n)) => return Err(nom::Err::Incomplete(n)),
        Err(nom::Err::Error(_)) => break,
        Err(nom::Err::Failure(err)) => {
          return Err(nom::Err::Failure(err));
        },
""", """        Err(nom::Err::Error(_)) => break,
        Err(err) => return Err(err),
"""))
r("args_helper",
  (BP, """    let parse_args = |message_enum: MessageFlags| {
      if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
        if let Some(call_array) = call_array {
          return Ok(Some(call_array))
        }
      } else if message_enum.intersects(MessageFlags::ARGS_IN_ARRAY) {
        if let Some(mut call_array) = call_array {
          if !call_array.is_empty() {
            if let Value::Array(args) = call_array.remove(0) {
              return Ok(Some(args))
            }
          }
        }
      } else {
        return Ok(binary_method_call.args.map(|v| v.into_values()))
      }

      Err(nom::Err::Failure(error_position!(input, InvalidArgs)))
    };

    let args = parse_args(binary_method_call.message_enum)?;
""", """    let args = Self::method_args(input, binary_method_call.message_enum, call_array, binary_method_call.args)?;
"""),
  (BP, """    let parse_args = |message_enum: MessageFlags| {
      if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
        if let Some(call_array) = call_array {
          return Ok(Some(call_array.clone()))
        }
      } else if message_enum.intersects(MessageFlags::ARGS_IN_ARRAY) {
        if let Some(mut call_array) = call_array {
          if !call_array.is_empty() {
            if let Value::Array(args) = call_array.remove(0) {
              return Ok(Some(args))
            }
          }
        }
      } else {
        return Ok(binary_method_return.args.map(|v| v.into_values()))
      }

      Err(nom::Err::Failure(error_position!(input, InvalidArgs)))
    };

    let args = parse_args(binary_method_return.message_enum)?;
""", """    let args = Self::method_args(input, binary_method_return.message_enum, call_array, binary_method_return.args)?;
"""),
  (BP, "  /// 2.7 Binary Record Grammar - `methodCall`\n", """  fn method_args(
    input: &'i [u8],
    flags: MessageFlags,
    call_array: Option<Vec<Value<'i>>>,
    inline: Option<ArrayOfValueWithCode<'i>>,
  ) -> Result<Option<Vec<Value<'i>>>, nom::Err<Error<'i>>> {
    if flags.intersects(MessageFlags::ARGS_IS_ARRAY) {
      if let Some(call_array) = call_array {
        return Ok(Some(call_array))
      }
    } else if flags.intersects(MessageFlags::ARGS_IN_ARRAY) {
      if let Some(mut call_array) = call_array {
        if !call_array.is_empty() {
          if let Value::Array(args) = call_array.remove(0) {
            return Ok(Some(args))
          }
        }
      }
    } else {
      return Ok(inline.map(|v| v.into_values()))
    }

    Err(nom::Err::Failure(error_position!(input, InvalidArgs)))
  }

  /// 2.7 Binary Record Grammar - `methodCall`
"""), (BP, "  record::{\n", "  record::{ArrayOfValueWithCode,\n"))
r("args_first_item",
  (BP, """          if !call_array.is_empty() {
            if let Value::Array(args) = call_array.remove(0) {
              return Ok(Some(args))
            }
          }
""", """          if let Some(Value::Array(args)) = call_array.into_iter().next() {
            return Ok(Some(args))
          }
"""), (BP, "if let Some(mut call_array) = call_array", "if let Some(call_array) = call_array"))
r("len_before_id",
  (BP, """    let object_id = array_single_string.object_id();
    self.declare_object_id(input, object_id)?;

    let len = array_single_string.array_info.len();
""", """    let len = array_single_string.array_info.len();
    let object_id = array_single_string.object_id();
    self.declare_object_id(input, object_id)?;
"""))
r("length_question_mark",
  ("combinator.rs", """  match Int32::parse(input) {
    Ok((input, length)) => {
      if let Ok(length) = u32::try_from(i32::from(length)) {
        Ok((input, length.to_usize()))
      } else {
        Err(nom::Err::Failure(error_position!(err_input, InvalidLength)))
      }
    },
    Err(err) => Err(err),
  }
""", """  let (input, length) = Int32::parse(input)?;
  let length = u32::try_from(i32::from(length)).map_err(|_| nom::Err::Failure(error_position!(err_input, InvalidLength)))?;
  Ok((input, length.to_usize()))
"""))
r("length_if_negative",
  ("combinator.rs", """      if let Ok(length) = u32::try_from(i32::from(length)) {
        Ok((input, length.to_usize()))
      } else {
        Err(nom::Err::Failure(error_position!(err_input, InvalidLength)))
      }
""", """      let length = i32::from(length);
      if length < 0 {
        return Err(nom::Err::Failure(error_position!(err_input, InvalidLength)))
      }
      Ok((input, length as usize))
"""))
r("id_helper",
  ("combinator.rs", """      if let Some(object_id) = u32::try_from(i32::from(object_id)).ok().and_then(NonZeroU32::new) {""",
   """      if let Some(object_id) = positive(object_id) {"""),
  ("combinator.rs", "pub fn library_id(", """fn positive(id: Int32) -> Option<NonZeroU32> {
  let id = u32::try_from(i32::from(id)).ok()?;
  NonZeroU32::new(id)
}

pub fn library_id("""))
r("id_question_mark",
  ("combinator.rs", """  match Int32::parse(input) {
    Ok((input, object_id)) => {
      if let Some(object_id) = u32::try_from(i32::from(object_id)).ok().and_then(NonZeroU32::new) {
        Ok((input, object_id))
      } else {
        Err(nom::Err::Failure(error_position!(err_input, InvalidObjectId)))
      }
    },
    Err(err) => Err(err),
  }
""", """  let (input, object_id) = Int32::parse(input)?;

  match u32::try_from(i32::from(object_id)).ok().and_then(NonZeroU32::new) {
    Some(object_id) => Ok((input, object_id)),
    None => Err(nom::Err::Failure(error_position!(err_input, InvalidObjectId))),
  }
"""))
r("nulls_extend",
  (BP, """          for _ in 0..count {
            members.push(ValueOrRef::Value(Value::Null));
          }
""", """          members.extend((0..count).map(|_| ValueOrRef::Value(Value::Null)));
"""))
r("nulls_repeat",
  (BP, """          for _ in 0..count {
            members.push(ValueOrRef::Value(Value::Null));
          }
""", """          members.extend(std::iter::repeat_n(ValueOrRef::Value(Value::Null), count));
"""))
r("nulls_while",
  (BP, """          for _ in 0..count {
            members.push(ValueOrRef::Value(Value::Null));
          }
""", """          let mut i = 0;
          while i < count {
            members.push(ValueOrRef::Value(Value::Null));
            i += 1;
          }
"""))
r("members_collect",
  (BP, """    let members = HashMap::from_iter(
      class_info
        .member_names
        .iter()
        .zip(member_references)
        .map(|(member_name, member)| (member_name.as_str(), { member })),
    );
""", """    let members = class_info.member_names.iter().map(|name| name.as_str()).zip(member_references).collect();
"""))
r("members_loop",
  (BP, """    let members = HashMap::from_iter(
      class_info
        .member_names
        .iter()
        .zip(member_references)
        .map(|(member_name, member)| (member_name.as_str(), { member })),
    );
""", """    let mut members = HashMap::new();
    for (member_name, member) in class_info.member_names.iter().zip(member_references) {
      members.insert(member_name.as_str(), member);
    }
"""))
r("count_loop",
  (BP, """        let member_count = class.class_info().member_names.len();
        let (input, member_references) =
          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;
""", """        let mut input = input;
        let mut member_references = vec![];
        for _ in 0..class.class_info().member_names.len() {
          let member;
          (input, member) = self.parse_member_reference(input, None)?;
          member_references.push(member);
        }
"""))
r("declare_if_not",
  (BP, """    if self.object_ids.insert(object_id) {
      Ok(())
    } else {
      Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
    }
""", """    if !self.object_ids.insert(object_id) {
      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
    }

    Ok(())
"""))
r("declare_contains",
  (BP, """    if self.object_ids.insert(object_id) {
      Ok(())
    } else {
      Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
    }
""", """    if self.object_ids.contains(&object_id) {
      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
    }

    self.object_ids.insert(object_id);
    Ok(())
"""))
r("library_match",
  (BP, """    if let Some(binary_library) = binary_library {
      let library_id = binary_library.library_id();

      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
        return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
      }

      return Ok((input, Some(library_id)))
    }

    Ok((input, None))
""", """    match binary_library {
      Some(BinaryLibrary { library_id, library_name }) => match self.binary_libraries.insert(library_id, library_name) {
        Some(_) => Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId))),
        None => Ok((input, Some(library_id))),
      },
      None => Ok((input, None)),
    }
"""))
r("library_entry",
  (BP, """      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
        return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
      }
""", """      if self.binary_libraries.contains_key(&library_id) {
        return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
      }

      self.binary_libraries.insert(library_id, binary_library.library_name);
"""))
r("deserialize_match",
  (BP, """    self.parse_remoting_message(input).map(|(_, remoting_message)| remoting_message).map_err(|err| match err {
      nom::Err::Incomplete(_) => Error { input, inner: ErrorInner::Eof },
      nom::Err::Error(err) | nom::Err::Failure(err) => err,
    })
""", """    match self.parse_remoting_message(input) {
      Ok((_, remoting_message)) => Ok(remoting_message),
      Err(nom::Err::Incomplete(_)) => Err(Error { input, inner: ErrorInner::Eof }),
      Err(nom::Err::Error(err) | nom::Err::Failure(err)) => Err(err),
    }
"""))
r("into_values_loop",
  ("record/array_of_value_with_code.rs", "self.0.into_iter().map(|v| v.into_value()).collect()", """let mut values = Vec::with_capacity(self.0.len());
    for value in self.0 {
      values.push(value.into_value());
    }
    values"""))
r("into_values_path",
  ("record/array_of_value_with_code.rs", "|v| v.into_value()", "ValueWithCode::into_value"))
r("null_count_try_from",
  ("record/object_null_multiple.rs", "(i32::from(self.null_count) as u32).to_usize()", "i32::from(self.null_count) as usize"))
r("null_count_u8",
  ("record/object_null_multiple_256.rs", "u8::from(self.null_count).to_usize()", "usize::from(u8::from(self.null_count))"))
r("null_count_as",
  ("record/object_null_multiple_256.rs", "u8::from(self.null_count).to_usize()", "self.null_count.0 as usize"))
r("null_multiple_qm",
  ("record/object_null_multiple.rs", """    match Int32::parse(input) {
      Ok((input, null_count)) if null_count.0 > 0 => Ok((input, Self { null_count })),
      Ok(_) => Err(nom::Err::Failure(error_position!(input, InvalidNullCount))),
      Err(err) => Err(err),
    }
""", """    let err_input = input;
    let (input, null_count) = Int32::parse(input)?;

    if null_count.0 <= 0 {
      return Err(nom::Err::Failure(error_position!(err_input, InvalidNullCount)))
    }

    Ok((input, Self { null_count }))
"""))
r("header_qm",
  ("record/serialization_header.rs", """    let (input, major_version) = match Int32::parse(input) {
      Ok((input, major_version)) => {
        if major_version.0 == 1 {
          Ok((input, major_version))
        } else {
          Err(nom::Err::Failure(error_position!(err_input, InvalidMajorVersion)))
        }
      },
      Err(err) => Err(err),
    }?;
""", """    let (input, major_version) = Int32::parse(input)?;

    if i32::from(major_version) != 1 {
      return Err(nom::Err::Failure(error_position!(err_input, InvalidMajorVersion)))
    }
"""))
r("header_const",
  ("record/serialization_header.rs", "if minor_version.0 == 0 {", "if minor_version.0 == MINOR_VERSION {"),
  ("record/serialization_header.rs", "/// 2.6.1 `Serial", "const MINOR_VERSION: i32 = 0;\n\n/// 2.6.1 `Serial"))
r("null_object_match",
  (BP, """    alt((
      map(|input| ObjectNull::parse(input), |n| ValueOrRef::Null(n.null_count())),
      map(|input| ObjectNullMultiple::parse(input), |n| ValueOrRef::Null(n.null_count())),
      map(|input| ObjectNullMultiple256::parse(input), |n| ValueOrRef::Null(n.null_count())),
    ))
    .parse(input)
""", """    alt((
      map(ObjectNull::parse, |n| n.null_count()),
      map(ObjectNullMultiple256::parse, |n| n.null_count()),
      map(ObjectNullMultiple::parse, |n| n.null_count()),
    ))
    .map(ValueOrRef::Null)
    .parse(input)
"""))
r("type_info_capacity",
  ("common/member_type_info.rs", "let mut additional_infos = vec![];", "let mut additional_infos = Vec::with_capacity(binary_type_enums.len());"))
r("type_info_for_ref",
  ("common/member_type_info.rs", "for &binary_type_enum in binary_type_enums.iter() {", "for binary_type_enum in binary_type_enums.iter().copied() {"))
r("array_info_rename",
  ("common/array_info.rs", """    let (input, object_id) = object_id(input)?;
    let (input, length) = length(input)?;

    Ok((input, Self { object_id, length }))
""", """    let (rest, id) = object_id(input)?;
    let (rest, len) = length(rest)?;
    let info = Self { object_id: id, length: len };

    Ok((rest, info))
"""))
r("additional_info_merge",
  ("common/additional_type_info.rs", "      BinaryType::ObjectArray => None,\n      BinaryType::StringArray => None,\n", ""),
  ("common/additional_type_info.rs", "      BinaryType::String => None,\n      BinaryType::Object => None,\n", "      BinaryType::String | BinaryType::Object | BinaryType::ObjectArray | BinaryType::StringArray => None,\n"))
r("additional_info_return",
  ("common/additional_type_info.rs", """        let class_type_info;
        (input, class_type_info) = ClassTypeInfo::parse(input)?;
        Some(Self::Class(class_type_info))
""", """        let (rest, class_type_info) = ClassTypeInfo::parse(input)?;
        input = rest;
        Some(Self::Class(class_type_info))
"""))
r("reshape_chunks",
  (BP, """      let mut members2 = vec![];

      while !members.is_empty() {
        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
      }

      members = members2;
""", """      let mut rows = vec![];

      while !members.is_empty() {
        let row: Vec<_> = members.drain(..l).collect();
        rows.push(Value::Array(row));
      }

      members = rows;
"""))
r("reshape_split_off",
  (BP, """        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
""", """        let rest = members.split_off(l);
        members2.push(Value::Array(std::mem::replace(&mut members, rest)));
"""))
r("noop_let", (BP, "    let err_input = input;\n\n    let (input, binary_array) = BinaryArray::parse(input)?;", "    let _ = input.len();\n    let err_input = input;\n\n    let (input, binary_array) = BinaryArray::parse(input)?;"))
r("noop_unit", (BP, "    let mut member_references = vec![];\n", "    let mut member_references = vec![];\n    ();\n"))
r("noop_black_box", (BP, "    let mut members2 = Vec::with_capacity(members.len());\n", "    let mut members2 = Vec::with_capacity(members.len());\n    let _ = std::hint::black_box(0u8);\n"))
r("noop_debug_assert", (BP, "    let mut members2 = Vec::with_capacity(members.len());\n", "    debug_assert!(members2_ok());\n    let mut members2 = Vec::with_capacity(members.len());\n"),
  (BP, "#[derive(Debug, Clone, Copy)]\npub struct RefId", "fn members2_ok() -> bool {\n  true\n}\n\n#[derive(Debug, Clone, Copy)]\npub struct RefId"))
r("noop_if_false", (BP, "    let (mut input, header) = SerializationHeader::parse(input)?;\n", "    let (mut input, header) = SerializationHeader::parse(input)?;\n    if false {\n      let _ = 1 + 1;\n    }\n"))
r("noop_drop", ("combinator.rs", "pub fn length(input: &[u8]) -> IResult<&[u8], usize, Error<'_>> {\n", "pub fn length(input: &[u8]) -> IResult<&[u8], usize, Error<'_>> {\n  std::mem::drop(());\n"))
r("noop_let_underscore", ("combinator.rs", "pub fn length(input: &[u8]) -> IResult<&[u8], usize, Error<'_>> {\n", "pub fn length(input: &[u8]) -> IResult<&[u8], usize, Error<'_>> {\n  let _unused = ();\n"))
r("noop_assign", ("combinator.rs", "pub fn length(input: &[u8]) -> IResult<&[u8], usize, Error<'_>> {\n", "pub fn length(input: &[u8]) -> IResult<&[u8], usize, Error<'_>> {\n  let _x = { 0 };\n"))
r("root_object_let_else",
  (BP, """        if let Some(root_id) = header.root_id {
          if let Some(root_object) = self.objects.remove(&root_id) {
            RemotingMessage::Value(root_object)
          } else {
            return Err(nom::Err::Error(error_position!(input, MissingRootObject)))
          }
        } else {
          RemotingMessage::Value(Value::Null)
        }
""", """        let value = match header.root_id {
          Some(root_id) => match self.objects.remove(&root_id) {
            Some(root_object) => root_object,
            None => return Err(nom::Err::Error(error_position!(input, MissingRootObject))),
          },
          None => Value::Null,
        };
        RemotingMessage::Value(value)
"""))
r("root_object_helper",
  (BP, """        if let Some(root_id) = header.root_id {
          if let Some(root_object) = self.objects.remove(&root_id) {
            RemotingMessage::Value(root_object)
          } else {
            return Err(nom::Err::Error(error_position!(input, MissingRootObject)))
          }
        } else {
          RemotingMessage::Value(Value::Null)
        }
""", """        self.root_value(input, header.root_id)?
"""),
  (BP, "  /// 2.7 Binary Record Grammar - `remotingMessage`\n", """  fn root_value(&mut self, input: &'i [u8], root_id: Option<NonZeroU32>) -> Result<RemotingMessage<'i>, nom::Err<Error<'i>>> {
    let Some(root_id) = root_id else { return Ok(RemotingMessage::Value(Value::Null)) };

    let root_object =
      self.objects.remove(&root_id).ok_or_else(|| nom::Err::Error(error_position!(input, MissingRootObject)))?;
    Ok(RemotingMessage::Value(root_object))
  }

  /// 2.7 Binary Record Grammar - `remotingMessage`
"""))
r("backtrack_match",
  (BP, """    if let (Some(library_id), Err(nom::Err::Error(_))) = (library_id, &res) {
      self.binary_libraries.remove(&library_id);
    }

    res
""", """    match (library_id, &res) {
      (Some(library_id), Err(nom::Err::Error(_))) => {
        self.binary_libraries.remove(&library_id);
      },
      _ => (),
    }

    res
"""))
r("backtrack_nested",
  (BP, """    if let (Some(library_id), Err(nom::Err::Error(_))) = (library_id, &res) {
      self.binary_libraries.remove(&library_id);
    }
""", """    if let Some(library_id) = library_id {
      if matches!(res, Err(nom::Err::Error(_))) {
        self.binary_libraries.remove(&library_id);
      }
    }
"""))
r("call_array_id",
  (BP, """    if Some(call_array_id.0) != root_id {
      return Err(nom::Err::Failure(Error { input, inner: ErrorInner::InvalidCallArrayId }))
    }

    Ok((input, call_array))
""", """    match root_id {
      Some(root_id) if root_id == call_array_id.0 => Ok((input, call_array)),
      _ => Err(nom::Err::Failure(Error { input, inner: ErrorInner::InvalidCallArrayId })),
    }
"""))
r("method_call_alt",
  (BP, """    alt_mut!(input =>
      map(|input| self.parse_method_call(input, root_id), MethodCallOrReturn::MethodCall),
      map(|input| self.parse_method_return(input, root_id), MethodCallOrReturn::MethodReturn),
    )
""", """    match self.parse_method_call(input, root_id) {
      Ok((input, method_call)) => Ok((input, MethodCallOrReturn::MethodCall(method_call))),
      Err(nom::Err::Error(_)) => {
        let (input, method_return) = self.parse_method_return(input, root_id)?;
        Ok((input, MethodCallOrReturn::MethodReturn(method_return)))
      },
      Err(err) => Err(err),
    }
"""))
r("untyped_early_return",
  (BP, """        (BinaryType::Primitive, Some(AdditionalTypeInfo::Primitive(primitive_type))) => map(
          |input| MemberPrimitiveUnTyped::parse(input, *primitive_type),
          |primitive| ValueOrRef::Value(primitive.into_value()),
        )
        .parse(input)?,
""", """        (BinaryType::Primitive, Some(AdditionalTypeInfo::Primitive(primitive_type))) => {
          let (input, primitive) = MemberPrimitiveUnTyped::parse(input, *primitive_type)?;
          (input, ValueOrRef::Value(primitive.into_value()))
        },
"""))
r("object_direct",
  (BP, """        (BinaryType::Object, None) => return self.parse_member_reference(input, None),
""", ""), (BP, "        (BinaryType::ObjectArray, None) => return", "        (BinaryType::Object | BinaryType::ObjectArray, None) => return"))
r("system_class_match",
  (BP, """          if let Ok((input, (_, object))) = self.parse_classes(input) {
            if object.class != class_name.as_str() || object.library.is_some() {
              return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
            }

            (input, ValueOrRef::Value(Value::Object(object)))
          } else {
            Self::parse_reference_or_null_object(input)?
          }
""", """          match self.parse_classes(input) {
            Ok((input, (_, object))) => {
              let matches = object.class == class_name.as_str() && object.library.is_none();
              if !matches {
                return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
              }

              (input, ValueOrRef::Value(Value::Object(object)))
            },
            Err(_) => Self::parse_reference_or_null_object(input)?,
          }
"""))
r("flags_const", ("record/binary_method_call.rs", "cond(message_enum.intersects(MessageFlags::ARGS_INLINE), ArrayOfValueWithCode::parse).parse(input)?;", """if message_enum.contains(MessageFlags::ARGS_INLINE) {
        let (input, args) = ArrayOfValueWithCode::parse(input)?;
        (input, Some(args))
      } else {
        (input, None)
      };"""))
r("binary_array_lower",
  ("record/binary_array.rs", """    let (input, lower_bounds) = cond(
      matches!(
        binary_array_type_enum,
        BinaryArrayType::SingleOffset | BinaryArrayType::JaggedOffset | BinaryArrayType::RectangularOffset
      ),
      count(length, rank),
    )
    .parse(input)?;
""", """    let has_lower_bounds = !matches!(
      binary_array_type_enum,
      BinaryArrayType::Single | BinaryArrayType::Jagged | BinaryArrayType::Rectangular
    );
    let (input, lower_bounds) = cond(has_lower_bounds, count(length, rank)).parse(input)?;
"""))
r("class_with_id_order",
  ("record/class_with_id.rs", """    if metadata_id == object_id {
      return Err(nom::Err::Failure(error_position!(err_input, InvalidMetadataId)))
    }

    Ok((input, Self { object_id, metadata_id }))
""", """    if object_id != metadata_id {
      Ok((input, Self { object_id, metadata_id }))
    } else {
      Err(nom::Err::Failure(error_position!(err_input, InvalidMetadataId)))
    }
"""))
r("record_helper",
  ("record/object_null.rs", "RecordType::ObjectNull.parse(input)?", "record_type(input, RecordType::ObjectNull)?"),
  ("record/object_null.rs", "/// 2.5.4", "fn record_type(input: &[u8], record_type: RecordType) -> IResult<&[u8], RecordType, Error<'_>> {\n  record_type.parse(input)\n}\n\n/// 2.5.4"))
r("class_match_helper",
  (BP, """    let (input, member_references) = self.resolve_members(input, member_references)?;

    let members = HashMap::from_iter(
      class_info
        .member_names
        .iter()
        .zip(member_references)
        .map(|(member_name, member)| (member_name.as_str(), { member })),
    );

    let class_name = class_info.name.as_str();

    Ok((input, (RefId(object_id), Object { class: class_name, library, members })))
""", """    let (input, values) = self.resolve_members(input, member_references)?;
    let object = Self::build_object(class_info, library, values);

    Ok((input, (RefId(object_id), object)))
"""),
  (BP, "  /// 2.7 Binary Record Grammar - `Classes`\n", """  fn build_object(class_info: &ClassInfo<'i>, library: Option<&'i str>, values: Vec<Value<'i>>) -> Object<'i> {
    let members = HashMap::from_iter(
      class_info
        .member_names
        .iter()
        .zip(values)
        .map(|(member_name, member)| (member_name.as_str(), member)),
    );

    Object { class: class_info.name.as_str(), library, members }
  }

  /// 2.7 Binary Record Grammar - `Classes`
"""), (BP, "common::{AdditionalTypeInfo, MemberTypeInfo}", "common::{AdditionalTypeInfo, ClassInfo, MemberTypeInfo}"))
r("parse_array_members_rename", (BP, "parse_array_members", "parse_elements"))
r("members_with_type_index",
  (BP, """    for (binary_type_enum, additional_info) in
      member_type_info.binary_type_enums.iter().zip(member_type_info.additional_infos.iter())
    {
      let member;
      (input, member) = self.parse_member_reference(input, Some((*binary_type_enum, additional_info.as_ref())))?;
      member_references.push(member);
    }
""", """    for i in 0..member_type_info.binary_type_enums.len() {
      let type_info = (member_type_info.binary_type_enums[i], member_type_info.additional_infos[i].as_ref());
      let (rest, member) = self.parse_member_reference(input, Some(type_info))?;
      input = rest;
      member_references.push(member);
    }
"""))
r("prealloc_min", (BP, "    let mut members = vec![];\n\n    while members.len() < len {", "    let mut members = Vec::with_capacity(len.min(1024));\n\n    while members.len() < len {"))
