"""More edits of the deserializers that keep their behaviour, in the style of somebody who has not seen the checks."""
O, V, M = "value/object.rs", "value/mod.rs", "remoting_message.rs"
E = []
def r(name, *edits): E.append((name, list(edits)))
SPLIT = "    let class_name = class.split_once('`').map(|(s, _)| s).unwrap_or(*class);\n"
r("split_match", (O, SPLIT, """    let class_name = match class.split_once('`') {
      Some((name, _arity)) => name,
      None => *class,
    };
"""))
r("split_next", (O, SPLIT, "    let class_name = class.split('`').next().unwrap_or(*class);\n"))
r("split_map_or", (O, SPLIT, "    let class_name = class.split_once('`').map_or(*class, |(name, _)| name);\n"))
r("split_helper", (O, SPLIT, "    let class_name = base_name(class);\n"), (O, """#[cfg(feature = "serde")]
impl<'de, 'o> ObjectDeserializer<'de, 'o> {
""", """/// The name of a class without the number of its generic parameters.
#[cfg(feature = "serde")]
fn base_name(class: &str) -> &str {
  match class.split_once('`') {
    Some((name, _)) => name,
    None => class,
  }
}

#[cfg(feature = "serde")]
impl<'de, 'o> ObjectDeserializer<'de, 'o> {
"""))
LIST = """        if members.len() == 3 {
          if let (Some(Value::Array(items)), Some(Value::Int32(size)), Some(Value::Int32(_version))) =
            (members.get("_items"), members.get("_size"), members.get("_version"))
          {
            return ListDeserializer::new(items.iter(), (*size) as usize).deserialize_any(visitor)
          }
        }
"""
r("list_vars", (O, LIST, """        let items = members.get("_items");
        let size = members.get("_size");
        let version = members.get("_version");
        if members.len() == 3 {
          if let (Some(Value::Array(items)), Some(Value::Int32(size)), Some(Value::Int32(_))) = (items, size, version) {
            let list = ListDeserializer::new(items.iter(), *size as usize);
            return list.deserialize_any(visitor)
          }
        }
"""))
r("list_match", (O, LIST, """        match (members.get("_items"), members.get("_size"), members.get("_version")) {
          (Some(Value::Array(items)), Some(Value::Int32(size)), Some(Value::Int32(_))) if members.len() == 3 => {
            return ListDeserializer::new(items.iter(), *size as usize).deserialize_any(visitor);
          },
          _ => {},
        }
"""))
r("list_nested", (O, LIST, """        if let Some(Value::Array(items)) = members.get("_items") {
          if let Some(&Value::Int32(size)) = members.get("_size") {
            if let (Some(Value::Int32(_)), 3) = (members.get("_version"), members.len()) {
              return ListDeserializer::new(items.iter(), size as usize).deserialize_any(visitor)
            }
          }
        }
"""))
r("list_guard", (O, LIST, """        let is_list = members.len() == 3 && matches!(members.get("_version"), Some(Value::Int32(_)));
        if let (true, Some(Value::Array(items)), Some(Value::Int32(size))) =
          (is_list, members.get("_items"), members.get("_size"))
        {
          return ListDeserializer::new(items.iter(), (*size) as usize).deserialize_any(visitor)
        }
"""))
r("arms_and_then", (O, """        let v = Byte::deserialize(map_deserializer)?;
        return visitor.visit_u8(v.into())
""", """        return Byte::deserialize(map_deserializer).and_then(|v| visitor.visit_u8(v.into()))
"""), (O, """        let v = Double::deserialize(map_deserializer)?;
        return visitor.visit_f64(v.into())
""", """        return match Double::deserialize(map_deserializer) {
          Ok(v) => visitor.visit_f64(v.0),
          Err(err) => Err(err),
        }
"""))
r("match_value", (O, "    match class_name {\n      \"System.Boolean\"", "    let is_system = library.is_none();\n    debug_assert!(is_system);\n    match class_name {\n      \"System.Boolean\""))
r("destructure_less", (O, "    let Object { class, library, members } = self.object;\n", "    let object = self.object;\n    let (class, library, members) = (&object.class, &object.library, &object.members);\n"))
r("struct_fields", (O, "    let Object { class: _, library: _, members } = self.object;\n\n    MapDeserializer::new(members.iter().map(|(key, value)| (*key, ValueDeserializer::new(value))))\n      .deserialize_map(visitor)\n",
  "    let entries = self.object.members.iter().map(|(key, value)| (*key, ValueDeserializer::new(value)));\n    let deserializer = MapDeserializer::new(entries);\n    deserializer.deserialize_map(visitor)\n"))
r("struct_str", (O, "    MapDeserializer::new(members.iter().map(|(key, value)| (*key, ValueDeserializer::new(value))))", "    MapDeserializer::new(members.iter().map(|(key, value)| (StrDeserializer(key), ValueDeserializer::new(value))))"))
r("list_end_less", (O, """    if self.count == self.size {
      Ok(())
    } else {
      // First argument is the number of elements in the data, second
      // argument is the number of elements expected by the Deserialize.
      Err(de::Error::invalid_length(self.size, &ExpectedInList(self.count)))
    }
""", """    if self.count < self.size {
      // First argument is the number of elements in the data, second
      // argument is the number of elements expected by the Deserialize.
      return Err(de::Error::invalid_length(self.size, &ExpectedInList(self.count)))
    }

    Ok(())
"""))
r("list_end_match", (O, """    if self.count == self.size {
      Ok(())
    } else {
      // First argument is the number of elements in the data, second
      // argument is the number of elements expected by the Deserialize.
      Err(de::Error::invalid_length(self.size, &ExpectedInList(self.count)))
    }
""", """    let Self { count, size, .. } = self;
    match count == size {
      true => Ok(()),
      false => Err(de::Error::invalid_length(size, &ExpectedInList(count))),
    }
"""))
NEXT = """    if self.count < self.size {
      // An element counts even if deserializing it fails.
      let res = self.array_deserializer.next_element_seed(seed);
      if !matches!(res, Ok(None)) {
        self.count += 1;
      }
      return res
    }

    Ok(None)
"""
r("list_next_early", (O, NEXT, """    if self.count >= self.size {
      return Ok(None)
    }

    let element = self.array_deserializer.next_element_seed(seed);
    match element {
      Ok(None) => {},
      Ok(Some(_)) | Err(_) => self.count += 1,
    }
    element
"""))
r("list_next_from_bool", (O, NEXT, """    if self.count == self.size {
      return Ok(None)
    }

    let res = self.array_deserializer.next_element_seed(seed);
    self.count += usize::from(!matches!(res, Ok(None)));
    res
"""))
r("list_next_remaining", (O, NEXT, """    match self.size.checked_sub(self.count) {
      None | Some(0) => Ok(None),
      Some(_) => match self.array_deserializer.next_element_seed(seed) {
        Ok(None) => Ok(None),
        res => {
          self.count += 1;
          res
        },
      },
    }
"""))
r("list_new_order", (O, "    Self { array_deserializer: ArrayDeserializer::new(iter), count: 0, size }", "    let array_deserializer = ArrayDeserializer::new(iter);\n    Self { size, count: 0, array_deserializer }"))
AN = """    match self.iter.next() {
      Some(object) => {
        self.count += 1;
        seed.deserialize(ValueDeserializer::new(object)).map(Some)
      },
      None => Ok(None),
    }
"""
r("array_next_transpose", (V, AN, """    self
      .iter
      .next()
      .map(|object| {
        self.count += 1;
        seed.deserialize(ValueDeserializer::new(object))
      })
      .transpose()
"""))
r("array_next_question", (V, AN, """    if let Some(object) = self.iter.next() {
      self.count += 1;
      let value = seed.deserialize(ValueDeserializer::new(object))?;
      return Ok(Some(value))
    }

    Ok(None)
"""))
r("array_next_deserializer", (V, AN, """    let deserializer = match self.iter.next() {
      Some(object) => ValueDeserializer::new(object),
      None => return Ok(None),
    };
    self.count += 1;
    match seed.deserialize(deserializer) {
      Ok(value) => Ok(Some(value)),
      Err(err) => Err(err),
    }
"""))
AE = """    let remaining = self.iter.count();
    if remaining == 0 {
      Ok(())
    } else {
      // First argument is the number of elements in the data, second
      // argument is the number of elements expected by the Deserialize.
      Err(de::Error::invalid_length(self.count + remaining, &ExpectedInArray(self.count)))
    }
"""
r("array_end_match", (V, AE, """    match self.iter.count() {
      0 => Ok(()),
      remaining => Err(de::Error::invalid_length(self.count + remaining, &ExpectedInArray(self.count))),
    }
"""))
r("array_end_early", (V, AE, """    let Self { iter, count } = self;
    let remaining = iter.count();
    if remaining > 0 {
      return Err(de::Error::invalid_length(count + remaining, &ExpectedInArray(count)))
    }

    Ok(())
"""))
r("array_any_match", (V, """    let v = visitor.visit_seq(&mut self)?;
    self.end()?;
    Ok(v)
""", """    match visitor.visit_seq(&mut self) {
      Ok(value) => match self.end() {
        Ok(()) => Ok(value),
        Err(err) => Err(err),
      },
      Err(err) => Err(err),
    }
"""))
r("array_any_end_generic", (V, """    let v = visitor.visit_seq(&mut self)?;
    self.end()?;
    Ok(v)
""", """    let value = visitor.visit_seq(&mut self)?;
    self.end::<Self::Error>().map(|_| value)
"""))
r("value_any_helper", (V, """      Value::Object(object) => ObjectDeserializer::new(object).deserialize_any(visitor),
      Value::Array(members) => ArrayDeserializer::new(members.iter()).deserialize_any(visitor),
""", """      Value::Object(object) => {
        let deserializer = ObjectDeserializer::new(object);
        deserializer.deserialize_any(visitor)
      },
      Value::Array(members) => {
        let elements = members.iter();
        ArrayDeserializer::new(elements).deserialize_any(visitor)
      },
"""))
r("value_any_copies", (V, "    match self.object {\n      Value::Object(object) => ObjectDeserializer::new(object).deserialize_any(visitor),", "    match *self.object {\n      Value::Object(ref object) => ObjectDeserializer::new(object).deserialize_any(visitor),"),
  (V, "      Value::Array(members) => Array", "      Value::Array(ref members) => Array"), (V, "      Value::Boolean(v) => visitor.visit_bool(*v),", "      Value::Boolean(v) => visitor.visit_bool(v),"),
  *[(V, f"visitor.visit_{t}(*v)", f"visitor.visit_{t}(v)") for t in "i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char".split()],
  (V, "      Value::Decimal(v) => visitor", "      Value::Decimal(ref v) => visitor"))
r("value_scalars_helper", (V, "      Value::TimeSpan(v) => visitor.visit_i64(v.0.into()),\n      Value::DateTime(v) => visitor.visit_i64(v.0.into()),\n", "      Value::TimeSpan(v) => visitor.visit_i64(v.value()),\n      Value::DateTime(v) => visitor.visit_i64(i64::from(v.0)),\n"))
r("decimal_format", (V, "visitor.visit_string((v.0).0.to_string())", "{\n        let decimal = &(v.0).0;\n        visitor.visit_string(decimal.to_string())\n      }"))
r("option_if_let", (V, "    if matches!(self.object, Value::Null) { visitor.visit_none() } else { visitor.visit_some(self) }", "    if let Value::Null = self.object {\n      return visitor.visit_none();\n    }\n    visitor.visit_some(self)"))
r("option_is_null", (V, "    if matches!(self.object, Value::Null) { visitor.visit_none() } else { visitor.visit_some(self) }", "    let is_null = matches!(self.object, Value::Null);\n    match is_null {\n      true => visitor.visit_none(),\n      false => visitor.visit_some(self),\n    }"))
r("option_eq", (V, "    if matches!(self.object, Value::Null) { visitor.visit_none() } else { visitor.visit_some(self) }", "    if *self.object == Value::Null { visitor.visit_none() } else { visitor.visit_some(self) }"))
r("struct_if_let", (V, """    match self.object {
      Value::Object(object) => ObjectDeserializer::new(object).deserialize_struct(name, fields, visitor),
      _ => self.deserialize_any(visitor),
    }
""", """    if let Value::Object(object) = self.object {
      return ObjectDeserializer::new(object).deserialize_struct(name, fields, visitor);
    }

    self.deserialize_any(visitor)
"""))
r("struct_let_else", (V, """    match self.object {
      Value::Object(object) => ObjectDeserializer::new(object).deserialize_struct(name, fields, visitor),
      _ => self.deserialize_any(visitor),
    }
""", """    let Value::Object(object) = self.object else { return self.deserialize_any(visitor) };
    ObjectDeserializer::new(object).deserialize_struct(name, fields, visitor)
"""))
r("to_deserializer_let", (M, """    match self {
      Self::MethodCall(..) => Err(de::value::Error::invalid_type(Unexpected::Other("method call"), visitor)),
      Self::MethodReturn(..) => Err(de::value::Error::invalid_type(Unexpected::Other("method return"), visitor)),
      Self::Value(root_object) => Ok(ValueDeserializer::new(root_object)),
    }
""", """    let unexpected = match self {
      Self::Value(value) => return Ok(ValueDeserializer::new(value)),
      Self::MethodCall(_) => "method call",
      Self::MethodReturn(_) => "method return",
    };
    Err(de::value::Error::invalid_type(Unexpected::Other(unexpected), visitor))
"""))
r("message_any_vars", (M, "    self.to_deserializer(&visitor)?.deserialize_any(visitor)", "    let deserializer = self.to_deserializer(&visitor)?;\n    deserializer.deserialize_any(visitor)"))
r("message_option_match", (M, "    self.to_deserializer(&visitor)?.deserialize_option(visitor)", "    match self.to_deserializer(&visitor) {\n      Ok(deserializer) => deserializer.deserialize_option(visitor),\n      Err(err) => Err(err),\n    }"))
r("message_struct_and_then", (M, "    self.to_deserializer(&visitor)?.deserialize_struct(name, fields, visitor)", "    match &self {\n      Self::Value(value) => ValueDeserializer::new(value).deserialize_struct(name, fields, visitor),\n      _ => Err(self.to_deserializer(&visitor).unwrap_err()),\n    }"))
r("message_inline_option", (M, "    self.to_deserializer(&visitor)?.deserialize_option(visitor)", "    match &self {\n      Self::Value(value) => ValueDeserializer::new(value).deserialize_option(visitor),\n      _ => self.to_deserializer(&visitor)?.deserialize_option(visitor),\n    }"))
