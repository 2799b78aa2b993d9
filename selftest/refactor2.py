"""More edits of the parser that keep its behaviour, in the style of somebody who has not seen the checks."""
BP = "binary_parser/mod.rs"
E = []
def r(name, *edits): E.append((name, list(edits)))

r("library_flat", (BP, """    let (input, binary_library) = opt(BinaryLibrary::parse).parse(input)?;

    if let Some(binary_library) = binary_library {
      let library_id = binary_library.library_id();

      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
        return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
      }

      return Ok((input, Some(library_id)))
    }

    Ok((input, None))
""", """    let (input, binary_library) = opt(BinaryLibrary::parse).parse(input)?;
    let Some(binary_library) = binary_library else { return Ok((input, None)) };
    let library_id = binary_library.library_id();
    if self.binary_libraries.contains_key(&library_id) {
      return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)));
    }
    self.binary_libraries.insert(library_id, binary_library.library_name);
    Ok((input, Some(library_id)))
"""))
r("library_insert_match", (BP, """      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
        return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
      }

      return Ok((input, Some(library_id)))
""", """      return match self.binary_libraries.insert(library_id, binary_library.library_name) {
        Some(_) => Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId))),
        None => Ok((input, Some(library_id))),
      }
"""))
r("library_is_none", (BP, """      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
        return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
      }

      return Ok((input, Some(library_id)))
    }
""", """      let previous = self.binary_libraries.insert(library_id, binary_library.library_name);
      if previous.is_none() {
        return Ok((input, Some(library_id)));
      }
      return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)));
    }
"""))
r("object_string_pair", (BP, """    let object_id = binary_object_string.object_id();
    self.declare_object_id(input, object_id)?;

    Ok((input, (RefId(object_id), binary_object_string.as_str())))
""", """    let (id, text) = (binary_object_string.object_id(), binary_object_string.as_str());
    self.declare_object_id(input, id)?;
    let id = RefId(id);

    Ok((input, (id, text)))
"""))
r("object_string_match", (BP, """    self.declare_object_id(input, object_id)?;

    Ok((input, (RefId(object_id), binary_object_string.as_str())))
""", """    match self.declare_object_id(input, object_id) {
      Ok(()) => Ok((input, (RefId(object_id), binary_object_string.as_str()))),
      Err(err) => Err(err),
    }
"""))
r("object_string_map", (BP, """    self.declare_object_id(input, object_id)?;

    Ok((input, (RefId(object_id), binary_object_string.as_str())))
""", """    self
      .declare_object_id(input, object_id)
      .map(|()| (input, (RefId(object_id), binary_object_string.as_str())))
"""))
r("members_with_type_info_index", (BP, """    for (binary_type_enum, additional_info) in
      member_type_info.binary_type_enums.iter().zip(member_type_info.additional_infos.iter())
    {
      let member;
      (input, member) = self.parse_member_reference(input, Some((*binary_type_enum, additional_info.as_ref())))?;
      member_references.push(member);
    }
""", """    for (binary_type_enum, additional_info) in
      member_type_info.binary_type_enums.iter().copied().zip(member_type_info.additional_infos.iter().map(Option::as_ref))
    {
      let (rest, member) = self.parse_member_reference(input, Some((binary_type_enum, additional_info)))?;
      member_references.push(member);
      input = rest;
    }
"""))
r("members_with_type_info_ref_zip", (BP, """    for (binary_type_enum, additional_info) in
      member_type_info.binary_type_enums.iter().zip(member_type_info.additional_infos.iter())
    {
      let member;
      (input, member) = self.parse_member_reference(input, Some((*binary_type_enum, additional_info.as_ref())))?;
      member_references.push(member);
    }
""", """    for (&binary_type_enum, additional_info) in
      member_type_info.binary_type_enums.iter().zip(&member_type_info.additional_infos)
    {
      let type_info = (binary_type_enum, additional_info.as_ref());
      match self.parse_member_reference(input, Some(type_info)) {
        Ok((rest, member)) => {
          input = rest;
          member_references.push(member);
        },
        Err(err) => return Err(err),
      }
    }
"""))
r("resolve_value_expr", (BP, """    for member in members.into_iter() {
      match member {
        ValueOrRef::Value(value) => {
          members2.push(value);
        },
        ValueOrRef::Null(1) => {
          members2.push(Value::Null);
        },
        ValueOrRef::Null(_) => return Err(nom::Err::Failure(error_position!(input, InvalidNullCount))),
        ValueOrRef::Ref(id) => {
          if let Some(value) = self.objects.remove(&id.0) {
            members2.push(value);
          } else {
            let member2;
            (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;

            if let Some(value) = self.objects.remove(&member2.0) {
              members2.push(value);
            } else {
              return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
            }
          }
        },
      }
    }
""", """    for member in members {
      let value = match member {
        ValueOrRef::Value(value) => value,
        ValueOrRef::Null(n) if n == 1 => Value::Null,
        ValueOrRef::Null(_) => return Err(nom::Err::Failure(error_position!(input, InvalidNullCount))),
        ValueOrRef::Ref(RefId(id)) => match self.objects.remove(&id) {
          Some(value) => value,
          None => {
            let (rest, found) = verify(|input| self.parse_referenceable(input), |found| found.0 == id).parse(input)?;
            input = rest;
            self.objects.remove(&found.0).ok_or(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))?
          },
        },
      };
      members2.push(value);
    }
"""))
r("resolve_contains_first", (BP, """          if let Some(value) = self.objects.remove(&id.0) {
            members2.push(value);
          } else {
            let member2;
            (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;

            if let Some(value) = self.objects.remove(&member2.0) {
              members2.push(value);
            } else {
              return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
            }
          }
""", """          if !self.objects.contains_key(&id.0) {
            (input, _) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
          }

          match self.objects.remove(&id.0) {
            Some(value) => members2.push(value),
            None => return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference))),
          }
"""))
r("resolve_take_helper",
  (BP, """          if let Some(value) = self.objects.remove(&id.0) {
            members2.push(value);
          } else {
            let member2;
            (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;

            if let Some(value) = self.objects.remove(&member2.0) {
              members2.push(value);
            } else {
              return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
            }
          }
""", """          let value;
          (input, value) = self.take_object(input, id)?;
          members2.push(value);
"""),
  (BP, "  /// 2.7 Binary Record Grammar - `Classes`\n", """  fn take_object(&mut self, input: &'i [u8], id: RefId) -> IResult<&'i [u8], Value<'i>, Error<'i>> {
    if let Some(value) = self.objects.remove(&id.0) {
      return Ok((input, value));
    }

    let (input, id2) = verify(|input| self.parse_referenceable(input), |id2: &RefId| id2.0 == id.0).parse(input)?;

    match self.objects.remove(&id2.0) {
      Some(value) => Ok((input, value)),
      None => Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference))),
    }
  }

  /// 2.7 Binary Record Grammar - `Classes`
"""))
r("classes_untyped_helper",
  (BP, """        let member_count = class.class_info().member_names.len();
        let (input, member_references) =
          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;

        (input, (class.class_info(), Some(library), member_references))
""", """        let (input, member_references) = self.parse_untyped_members(input, class.class_info().member_names.len())?;

        (input, (class.class_info(), Some(library), member_references))
"""),
  (BP, """        let member_count = class.class_info().member_names.len();
        let (input, member_references) =
          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;

        (input, (class.class_info(), None, member_references))
""", """        let (input, member_references) = self.parse_untyped_members(input, class.class_info().member_names.len())?;

        (input, (class.class_info(), None, member_references))
"""),
  (BP, "  /// 2.7 Binary Record Grammar - `Classes`\n", """  fn parse_untyped_members(&mut self, input: &'i [u8], len: usize) -> IResult<&'i [u8], Vec<ValueOrRef<'i>>, Error<'i>> {
    count(|input| self.parse_member_reference(input, None), len).parse(input)
  }

  /// 2.7 Binary Record Grammar - `Classes`
"""))
r("classes_definition_flag", (BP, """    if is_definition {
      self.classes.insert(object_id, class.clone());
    }

""", """    if !is_definition {
      // Already known under the ID of its definition.
    } else {
      let _ = self.classes.insert(object_id, class.clone());
    }

"""))
r("classes_head_helper",
  (BP, """    let (input, (object_id, class, is_definition)) = match ClassWithId::parse(input) {
      Ok((input, class_with_id)) => {
        if let Some(class) = self.classes.get(&class_with_id.metadata_id()) {
          (input, (class_with_id.object_id(), class.clone(), false))
        } else {
          return Err(nom::Err::Failure(error_position!(err_input, MissingMetadataId)))
        }
      },
      Err(nom::Err::Error(_)) => {
        let res = alt((
          map(ClassWithMembers::parse, |class| (class.object_id(), Class::ClassWithMembers(class), true)),
          map(ClassWithMembersAndTypes::parse, |class| {
            (class.object_id(), Class::ClassWithMembersAndTypes(class), true)
          }),
          map(SystemClassWithMembers::parse, |class| (class.object_id(), Class::SystemClassWithMembers(class), true)),
          map(SystemClassWithMembersAndTypes::parse, |class| {
            (class.object_id(), Class::SystemClassWithMembersAndTypes(class), true)
          }),
        ))
        .parse(input);
        self.backtrack(library_id, res)?
      },
      Err(err) => return Err(err),
    };
""", """    let (input, (object_id, class, is_definition)) = match ClassWithId::parse(input) {
      Ok((input, class_with_id)) => match self.classes.get(&class_with_id.metadata_id()).cloned() {
        Some(class) => (input, (class_with_id.object_id(), class, false)),
        None => return Err(nom::Err::Failure(error_position!(err_input, MissingMetadataId))),
      },
      Err(nom::Err::Error(_)) => {
        let res = Self::parse_class_definition(input);
        let (input, (object_id, class)) = self.backtrack(library_id, res)?;
        (input, (object_id, class, true))
      },
      Err(err) => return Err(err),
    };
"""),
  (BP, "  /// 2.7 Binary Record Grammar - `Classes`\n", """  fn parse_class_definition(input: &'i [u8]) -> IResult<&'i [u8], (NonZeroU32, Class<'i>), Error<'i>> {
    alt((
      map(ClassWithMembers::parse, |class| (class.object_id(), Class::ClassWithMembers(class))),
      map(ClassWithMembersAndTypes::parse, |class| (class.object_id(), Class::ClassWithMembersAndTypes(class))),
      map(SystemClassWithMembers::parse, |class| (class.object_id(), Class::SystemClassWithMembers(class))),
      map(SystemClassWithMembersAndTypes::parse, |class| {
        (class.object_id(), Class::SystemClassWithMembersAndTypes(class))
      }),
    ))
    .parse(input)
  }

  /// 2.7 Binary Record Grammar - `Classes`
"""))
r("classes_members_for_insert", (BP, """    let members = HashMap::from_iter(
      class_info
        .member_names
        .iter()
        .zip(member_references)
        .map(|(member_name, member)| (member_name.as_str(), { member })),
    );
""", """    let mut members = HashMap::with_capacity(class_info.member_names.len());
    for (member_name, member) in class_info.member_names.iter().zip(member_references.into_iter()) {
      members.insert(member_name.as_str(), member);
    }
"""))
r("classes_members_map_names", (BP, """    let members = HashMap::from_iter(
      class_info
        .member_names
        .iter()
        .zip(member_references)
        .map(|(member_name, member)| (member_name.as_str(), { member })),
    );
""", """    let member_names = class_info.member_names.iter().map(|name| name.as_str());
    let members = member_names.zip(member_references).collect::<HashMap<_, _>>();
"""))
r("classes_object_var", (BP, """    let class_name = class_info.name.as_str();

    Ok((input, (RefId(object_id), Object { class: class_name, library, members })))
""", """    let object = Object { class: class_info.name.as_str(), library, members };
    let id = RefId(object_id);

    Ok((input, (id, object)))
"""))
r("array_members_remaining", (BP, """        ValueOrRef::Null(count) => {
          if count > len - members.len() {
            return Err(nom::Err::Failure(error_position!(err_input, InvalidNullCount)))
          }

          for _ in 0..count {
            members.push(ValueOrRef::Value(Value::Null));
          }
        },
        _ => {
          members.push(member);
        },
""", """        ValueOrRef::Null(count) => {
          let remaining = len - members.len();
          if remaining < count {
            return Err(nom::Err::Failure(error_position!(err_input, InvalidNullCount)))
          }

          members.extend((0..count).map(|_| ValueOrRef::Value(Value::Null)));
        },
        member @ (ValueOrRef::Value(_) | ValueOrRef::Ref(_)) => members.push(member),
"""))
r("array_members_if_let", (BP, """      match member {
        ValueOrRef::Null(count) => {
          if count > len - members.len() {
            return Err(nom::Err::Failure(error_position!(err_input, InvalidNullCount)))
          }

          for _ in 0..count {
            members.push(ValueOrRef::Value(Value::Null));
          }
        },
        _ => {
          members.push(member);
        },
      }
""", """      let ValueOrRef::Null(count) = member else {
        members.push(member);
        continue;
      };

      if members.len() + count > len {
        return Err(nom::Err::Failure(error_position!(err_input, InvalidNullCount)))
      }

      for _ in 0..count {
        members.push(ValueOrRef::Value(Value::Null));
      }
"""))
r("array_members_loop_break", (BP, """    while members.len() < len {
      let err_input = input;
""", """    loop {
      if members.len() >= len {
        break;
      }

      let err_input = input;
"""))
r("array_members_rest", (BP, """      let err_input = input;

      let member;
      (input, member) = self.parse_member_reference(input, type_enum_and_additional_type_info)?;

      match member {
""", """      let (rest, member) = self.parse_member_reference(input, type_enum_and_additional_type_info)?;
      let err_input = input;
      input = rest;

      match member {
"""))
r("single_object_inline", (BP, """    let len = array_single_object.array_info.len();
    let (input, members) = self.parse_array_members(input, len, None)?;

    Ok((input, (RefId(object_id), members)))
""", """    self
      .parse_array_members(input, array_single_object.array_info.len(), None)
      .map(|(input, members)| (input, (RefId(object_id), members)))
"""))
r("single_primitive_loop", (BP, """    let (input, members) = count(
      map(
        |input| MemberPrimitiveUnTyped::parse(input, array_single_primitive.primitive_type),
        |primitive| primitive.into_value(),
      ),
      array_single_primitive.array_info.len(),
    )
    .parse(input)?;

    Ok((input, (RefId(object_id), members)))
""", """    let mut input = input;
    let mut members = vec![];
    for _ in 0..array_single_primitive.array_info.len() {
      let (rest, primitive) = MemberPrimitiveUnTyped::parse(input, array_single_primitive.primitive_type)?;
      members.push(primitive.into_value());
      input = rest;
    }

    Ok((input, (RefId(object_id), members)))
"""))
r("single_primitive_type_var", (BP, """    let (input, members) = count(
      map(
        |input| MemberPrimitiveUnTyped::parse(input, array_single_primitive.primitive_type),
        |primitive| primitive.into_value(),
      ),
      array_single_primitive.array_info.len(),
    )
    .parse(input)?;
""", """    let primitive_type = array_single_primitive.primitive_type;
    let len = array_single_primitive.array_info.len();
    let element = |input| MemberPrimitiveUnTyped::parse(input, primitive_type);
    let (input, members) = count(map(element, MemberPrimitiveUnTyped::into_value), len).parse(input)?;
"""))
r("binary_array_index_dims", (BP, """    let mut members = members;
    for l in binary_array.lengths.into_iter().skip(1).rev() {
      let mut members2 = vec![];

      while !members.is_empty() {
        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
      }

      members = members2;
    }
""", """    let mut members = members;
    for l in binary_array.lengths.iter().skip(1).rev() {
      let mut rows = vec![];
      while !members.is_empty() {
        let row: Vec<_> = members.drain(..*l).collect();
        rows.push(Value::Array(row));
      }
      members = rows;
    }
"""))
r("binary_array_slice_dims", (BP, """    for l in binary_array.lengths.into_iter().skip(1).rev() {
      let mut members2 = vec![];
""", """    for &l in binary_array.lengths.iter().rev().take(binary_array.lengths.len().saturating_sub(1)) {
      let mut members2 = vec![];
"""))
r("binary_array_nest_helper",
  (BP, """    let mut members = members;
    for l in binary_array.lengths.into_iter().skip(1).rev() {
      let mut members2 = vec![];

      while !members.is_empty() {
        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
      }

      members = members2;
    }

""", """    let mut members = members;
    for l in binary_array.lengths.into_iter().skip(1).rev() {
      members = Self::nest(members, l);
    }

"""),
  (BP, "  /// 2.7 Binary Record Grammar - `Arrays`\n", """  fn nest(mut members: Vec<Value<'i>>, l: usize) -> Vec<Value<'i>> {
    let mut nested = vec![];

    while !members.is_empty() {
      nested.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
    }

    nested
  }

  /// 2.7 Binary Record Grammar - `Arrays`
"""))
r("binary_array_product_ok_or", (BP, """    let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
      Some(member_count) => member_count,
      None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
    };
""", """    let member_count = binary_array
      .lengths
      .iter()
      .try_fold(1usize, |acc, n| acc.checked_mul(*n))
      .ok_or_else(|| nom::Err::Failure(error_position!(err_input, InvalidLength)))?;
"""))
r("binary_array_product_method_path", (BP, """binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n))""", """binary_array.lengths.iter().copied().try_fold(1usize, usize::checked_mul)"""))
r("arrays_match_chain", (BP, """    let res = alt_mut!(input =>
      |input| self.parse_array_single_object(input),
      |input| self.parse_array_single_primitive(input),
      |input| self.parse_array_single_string(input),
      |input| self.parse_binary_array(input),
    );
    self.backtrack(library_id, res)
""", """    let mut res = self.parse_array_single_object(input);
    if let Err(nom::Err::Error(_)) = res {
      res = self.parse_array_single_primitive(input);
    }
    if let Err(nom::Err::Error(_)) = res {
      res = self.parse_array_single_string(input);
    }
    if let Err(nom::Err::Error(_)) = res {
      res = self.parse_binary_array(input);
    }
    self.backtrack(library_id, res)
"""))
r("arrays_order", (BP, """      |input| self.parse_array_single_object(input),
      |input| self.parse_array_single_primitive(input),
      |input| self.parse_array_single_string(input),
      |input| self.parse_binary_array(input),
""", """      |input| self.parse_binary_array(input),
      |input| self.parse_array_single_primitive(input),
      |input| self.parse_array_single_object(input),
      |input| self.parse_array_single_string(input),
"""))
r("referenceable_named", (BP, """    self.objects.insert(object_id.0, object);
    Ok((input, object_id))
""", """    let RefId(id) = object_id;
    self.objects.insert(id, object);

    Ok((input, RefId(id)))
"""))
r("referenceable_order", (BP, """      map(
        |input| self.parse_classes(input),
        |(object_id, object)| (object_id, Value::Object(object)),
      ),
      map(
        |input| self.parse_arrays(input),
        |(object_id, array)| (object_id, Value::Array(array)),
      ),
      map(
        |input| self.parse_object_string(input),
        |(object_id, s)| (object_id, Value::String(s)),
      ),
""", """      map(
        |input| self.parse_object_string(input),
        |(object_id, s)| (object_id, Value::String(s)),
      ),
      map(
        |input| self.parse_classes(input),
        |(object_id, object)| (object_id, Value::Object(object)),
      ),
      map(
        |input| self.parse_arrays(input),
        |(object_id, array)| (object_id, Value::Array(array)),
      ),
"""))
r("null_object_order", (BP, """      map(|input| ObjectNull::parse(input), |n| ValueOrRef::Null(n.null_count())),
      map(|input| ObjectNullMultiple::parse(input), |n| ValueOrRef::Null(n.null_count())),
      map(|input| ObjectNullMultiple256::parse(input), |n| ValueOrRef::Null(n.null_count())),
    ))
    .parse(input)
""", """      map(ObjectNullMultiple256::parse, |n| n.null_count()),
      map(ObjectNullMultiple::parse, |n| n.null_count()),
      map(ObjectNull::parse, |n| n.null_count()),
    ))
    .map(ValueOrRef::Null)
    .parse(input)
"""))
r("call_array_eq", (BP, """    if Some(call_array_id.0) != root_id {
      return Err(nom::Err::Failure(Error { input, inner: ErrorInner::InvalidCallArrayId }))
    }

    Ok((input, call_array))
""", """    match root_id {
      Some(root_id) if root_id == call_array_id.0 => Ok((input, call_array)),
      _ => Err(nom::Err::Failure(error_position!(input, InvalidCallArrayId))),
    }
"""))
r("call_args_match", (BP, """    let parse_args = |message_enum: MessageFlags| {
      if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
        if let Some(call_array) = call_array {
          return Ok(Some(call_array))
        }
      } else if message_enum.intersects(MessageFlags::ARGS_IN_ARRAY) {
        if let Some(mut call_array) = call_array {
          if !call_array.is_empty() {
            if let Value::Array(args) = call_array.remove(0) {
              return Ok(Some(args))
            }
          }
        }
      } else {
        return Ok(binary_method_call.args.map(|v| v.into_values()))
      }

      Err(nom::Err::Failure(error_position!(input, InvalidArgs)))
    };

    let args = parse_args(binary_method_call.message_enum)?;
""", """    let message_enum = binary_method_call.message_enum;
    let args = if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
      match call_array {
        Some(call_array) => Some(call_array),
        None => return Err(nom::Err::Failure(error_position!(input, InvalidArgs))),
      }
    } else if message_enum.intersects(MessageFlags::ARGS_IN_ARRAY) {
      match call_array.and_then(|call_array| call_array.into_iter().next()) {
        Some(Value::Array(args)) => Some(args),
        _ => return Err(nom::Err::Failure(error_position!(input, InvalidArgs))),
      }
    } else {
      binary_method_call.args.map(|v| v.into_values())
    };
"""))
r("return_args_swap_remove", (BP, """        if let Some(call_array) = call_array {
          return Ok(Some(call_array.clone()))
        }
      } else if message_enum.intersects(MessageFlags::ARGS_IN_ARRAY) {
        if let Some(mut call_array) = call_array {
          if !call_array.is_empty() {
            if let Value::Array(args) = call_array.remove(0) {
              return Ok(Some(args))
            }
          }
        }
      } else {
        return Ok(binary_method_return.args.map(|v| v.into_values()))
      }
""", """        if call_array.is_some() {
          return Ok(call_array)
        }
      } else if message_enum.intersects(MessageFlags::ARGS_IN_ARRAY) {
        if let Some(mut call_array) = call_array {
          if let Some(Value::Array(args)) = call_array.drain(..).next() {
            return Ok(Some(args))
          }
        }
      } else {
        return Ok(binary_method_return.args.map(|v| v.into_values()))
      }
"""))
r("method_call_fields", (BP, """    let method_call = MethodCall {
      method_name: binary_method_call.method_name.as_str(),
      type_name: binary_method_call.type_name.as_str(),
      call_context: binary_method_call.call_context.map(|c| c.as_str()),
      args,
    };

    Ok((input, method_call))
""", """    let BinaryMethodCall { method_name, type_name, call_context, .. } = binary_method_call;
    let call_context = call_context.map(|c| c.as_str());

    Ok((input, MethodCall { method_name: method_name.as_str(), type_name: type_name.as_str(), call_context, args }))
"""))
r("referenceables_two_arms", (BP, """        Err(nom::Err::Incomplete(n)) => return Err(nom::Err::Incomplete(n)),
        Err(nom::Err::Error(_)) => break,
        Err(nom::Err::Failure(err)) => {
          return Err(nom::Err::Failure(err));
        },
      }
    }

    Ok((input, ()))
""", """        Err(nom::Err::Error(_)) => return Ok((input, ())),
        Err(err) => return Err(err),
      }
    }
"""))
r("remoting_message_names", (BP, """    let (mut input, header) = SerializationHeader::parse(input)?;

    (input, ()) = self.parse_referenceables(input)?;

    let (mut input, method_call_or_return) =
      opt(|input| self.parse_method_call_or_return(input, header.root_id)).parse(input)?;

    (input, ()) = self.parse_referenceables(input)?;

    let (input, MessageEnd) = MessageEnd::parse(input)?;

    if !input.is_empty() {
""", """    let (input, SerializationHeader { root_id, .. }) = SerializationHeader::parse(input)?;
    let header_root_id = root_id;

    let (input, ()) = self.parse_referenceables(input)?;
    let (input, method_call_or_return) =
      opt(|input| self.parse_method_call_or_return(input, header_root_id)).parse(input)?;
    let (input, ()) = self.parse_referenceables(input)?;
    let (input, _) = MessageEnd::parse(input)?;

    if input.len() > 0 {
"""), (BP, """        if let Some(root_id) = header.root_id {
""", """        if let Some(root_id) = header_root_id {
"""))
r("root_match", (BP, """        if let Some(root_id) = header.root_id {
          if let Some(root_object) = self.objects.remove(&root_id) {
            RemotingMessage::Value(root_object)
          } else {
            return Err(nom::Err::Error(error_position!(input, MissingRootObject)))
          }
        } else {
          RemotingMessage::Value(Value::Null)
        }
""", """        let root_object = match header.root_id {
          None => Value::Null,
          Some(root_id) => self
            .objects
            .remove(&root_id)
            .ok_or_else(|| nom::Err::Error(error_position!(input, MissingRootObject)))?,
        };
        RemotingMessage::Value(root_object)
"""))
r("deserialize_question", (BP, """    self.parse_remoting_message(input).map(|(_, remoting_message)| remoting_message).map_err(|err| match err {
      nom::Err::Incomplete(_) => Error { input, inner: ErrorInner::Eof },
      nom::Err::Error(err) | nom::Err::Failure(err) => err,
    })
""", """    let (_, remoting_message) = self.parse_remoting_message(input).map_err(|err| match err {
      nom::Err::Incomplete(_) => Error { input, inner: ErrorInner::Eof },
      nom::Err::Error(err) => err,
      nom::Err::Failure(err) => err,
    })?;
    Ok(remoting_message)
"""))
r("member_reference_match_outer", (BP, """    let (input, object) = if let Some((type_enum, additional_type_info)) = type_enum_and_additional_type_info {
      match (type_enum, additional_type_info) {
        (BinaryType::Primitive, Some(""", """    let (input, object) = if let Some(type_info) = type_enum_and_additional_type_info {
      match type_info {
        (BinaryType::Primitive, Some("""))
r("member_class_check_helper",
  (BP, """            if object.class != class_name.as_str() || object.library.is_some() {
              return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
            }
""", """            Self::check_class(input, &object, class_name.as_str(), None)?;
"""),
  (BP, """            if object.class != class_type_info.type_name.as_str() || object.library != Some(library) {
              return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
            }
""", """            Self::check_class(input, &object, class_type_info.type_name.as_str(), Some(library))?;
"""),
  (BP, "  /// 2.7 Binary Record Grammar - `memberReference`\n", """  fn check_class(
    input: &'i [u8],
    object: &Object<'i>,
    class: &str,
    library: Option<&str>,
  ) -> Result<(), nom::Err<Error<'i>>> {
    if object.class == class && object.library == library {
      Ok(())
    } else {
      Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
    }
  }

  /// 2.7 Binary Record Grammar - `memberReference`
"""))
r("member_library_let_else", (BP, """          let library = if let Some(library) = self.binary_libraries.get(&class_type_info.library_id()) {
            library.as_str()
          } else {
            return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
          };
""", """          let Some(library) = self.binary_libraries.get(&class_type_info.library_id()) else {
            return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
          };
          let library = library.as_str();
"""))
r("member_inline_match", (BP, """          if let Ok((input, (_, object))) = self.parse_classes(input) {
            if object.class != class_name.as_str() || object.library.is_some() {
              return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
            }

            (input, ValueOrRef::Value(Value::Object(object)))
          } else {
            Self::parse_reference_or_null_object(input)?
          }
""", """          match self.parse_classes(input) {
            Ok((input, (_, object))) if object.class == class_name.as_str() && object.library.is_none() => {
              (input, ValueOrRef::Value(Value::Object(object)))
            },
            Ok((input, _)) => return Err(nom::Err::Failure(error_position!(input, UnexpectedClass))),
            Err(_) => Self::parse_reference_or_null_object(input)?,
          }
"""))
r("member_primitive_direct", (BP, """        (BinaryType::Primitive, Some(AdditionalTypeInfo::Primitive(primitive_type))) => map(
          |input| MemberPrimitiveUnTyped::parse(input, *primitive_type),
          |primitive| ValueOrRef::Value(primitive.into_value()),
        )
        .parse(input)?,
""", """        (BinaryType::Primitive, Some(AdditionalTypeInfo::Primitive(primitive_type))) => {
          let (input, primitive) = MemberPrimitiveUnTyped::parse(input, *primitive_type)?;
          (input, ValueOrRef::Value(primitive.into_value()))
        },
"""))
r("member_merge_arms", (BP, """        (BinaryType::Object, None) => return self.parse_member_reference(input, None),
""", """        (BinaryType::Object | BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
"""), (BP, """        (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
""", ""))
r("member_is_primitive_first", (BP, """    let (input, _) = match type_enum_and_additional_type_info {
      Some((BinaryType::Primitive, _)) => (input, None),
      _ => self.parse_binary_library(input)?,
    };
""", """    let untyped_primitive = matches!(type_enum_and_additional_type_info, Some((BinaryType::Primitive, _)));
    let input = if untyped_primitive { input } else { self.parse_binary_library(input)?.0 };
"""))
r("declare_ret", (BP, """    if self.object_ids.insert(object_id) {
      Ok(())
    } else {
      Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
    }
""", """    let is_new = self.object_ids.insert(object_id);
    match is_new {
      false => Err(nom::Err::Failure(error_position!(input, DuplicateObjectId))),
      true => Ok(()),
    }
"""))
r("declare_then_some", (BP, """    if self.object_ids.insert(object_id) {
      Ok(())
    } else {
      Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
    }
""", """    self.object_ids.insert(object_id).then_some(()).ok_or(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
"""))
r("declare_return_self",
  (BP, """  fn declare_object_id(&mut self, input: &'i [u8], object_id: NonZeroU32) -> Result<(), nom::Err<Error<'i>>> {
    if self.object_ids.insert(object_id) {
      Ok(())
    } else {
""", """  fn declare_object_id(&mut self, input: &'i [u8], object_id: NonZeroU32) -> Result<RefId, nom::Err<Error<'i>>> {
    if self.object_ids.insert(object_id) {
      Ok(RefId(object_id))
    } else {
"""),
  (BP, """    let object_id = binary_object_string.object_id();
    self.declare_object_id(input, object_id)?;

    Ok((input, (RefId(object_id), binary_object_string.as_str())))
""", """    let ref_id = self.declare_object_id(input, binary_object_string.object_id())?;

    Ok((input, (ref_id, binary_object_string.as_str())))
"""))
