V, O, M, L = "value/mod.rs", "value/object.rs", "remoting_message.rs", "lib.rs"
E = []
def r(name, *edits): E.append((name, list(edits)))

r("comment", (O, "impl<I> ListDeserializer<I>\n", "// a comment\nimpl<I> ListDeserializer<I>\n"))
r("forward_order", (V, "bool i8 i16 i32 i64 i128 u8", "i8 bool i16 i32 i64 i128 u8"))
r("swap_arms",
  (V, """      Value::Boolean(v) => visitor.visit_bool(*v),
      Value::SByte(v) => visitor.visit_i8(*v),
""", """      Value::SByte(v) => visitor.visit_i8(*v),
      Value::Boolean(v) => visitor.visit_bool(*v),
"""))
r("option_match", (V, "if matches!(self.object, Value::Null) { visitor.visit_none() } else { visitor.visit_some(self) }",
  "match self.object {\n      Value::Null => visitor.visit_none(),\n      _ => visitor.visit_some(self),\n    }"))
r("option_early_return", (V, "    if matches!(self.object, Value::Null) { visitor.visit_none() } else { visitor.visit_some(self) }",
  "    if let Value::Null = self.object {\n      return visitor.visit_none();\n    }\n\n    visitor.visit_some(self)"))
r("list_next_inverted", (O, """    if self.count < self.size {
      // An element counts even if deserializing it fails.
      let res = self.array_deserializer.next_element_seed(seed);
      if !matches!(res, Ok(None)) {
        self.count += 1;
      }
      return res
    }

    Ok(None)
""", """    if self.count >= self.size {
      return Ok(None)
    }

    let res = self.array_deserializer.next_element_seed(seed);
    match &res {
      Ok(None) => (),
      _ => self.count += 1,
    }
    res
"""))
r("list_next_if_let", (O, """      if !matches!(res, Ok(None)) {
        self.count += 1;
      }
""", """      if let Ok(None) = res {
        return Ok(None)
      }
      self.count += 1;
"""))
r("list_end_inverted", (O, """    if self.count == self.size {
      Ok(())
    } else {
      // First argument is the number of elements in the data, second
      // argument is the number of elements expected by the Deserialize.
      Err(de::Error::invalid_length(self.size, &ExpectedInList(self.count)))
    }
""", """    if self.count != self.size {
      return Err(de::Error::invalid_length(self.size, &ExpectedInList(self.count)));
    }
    Ok(())
"""))
r("array_next_let_else", (V, """    match self.iter.next() {
      Some(object) => {
        self.count += 1;
        seed.deserialize(ValueDeserializer::new(object)).map(Some)
      },
      None => Ok(None),
    }
""", """    let Some(object) = self.iter.next() else {
      return Ok(None);
    };
    self.count += 1;
    let value = seed.deserialize(ValueDeserializer::new(object))?;
    Ok(Some(value))
"""))
r("array_end_next", (V, """    let remaining = self.iter.count();
    if remaining == 0 {
      Ok(())
    } else {
""", """    let remaining = self.iter.count();
    if remaining < 1 {
      Ok(())
    } else {
"""))
r("map_helper",
  (O, """    MapDeserializer::new(members.iter().map(|(key, value)| (*key, ValueDeserializer::new(value))))
      .deserialize_map(visitor)
""", """    let entries = members.iter().map(|(key, value)| (*key, ValueDeserializer::new(value)));
    MapDeserializer::new(entries).deserialize_map(visitor)
"""))
r("split_at_find", (O, "class.split_once('`').map(|(s, _)| s).unwrap_or(*class)", "match class.split_once('`') {\n      Some((name, _)) => name,\n      None => class,\n    }"))
r("match_arms_reordered", (O, """      "System.Boolean" => {
        let v = Boolean::deserialize(map_deserializer)?;
        return visitor.visit_bool(v.into())
      },
      "System.Byte" => {
        let v = Byte::deserialize(map_deserializer)?;
        return visitor.visit_u8(v.into())
      },
""", """      "System.Byte" => {
        let v = Byte::deserialize(map_deserializer)?;
        return visitor.visit_u8(v.into())
      },
      "System.Boolean" => {
        let v = Boolean::deserialize(map_deserializer)?;
        return visitor.visit_bool(v.into())
      },
"""))
r("arm_expression", (O, """        let v = Boolean::deserialize(map_deserializer)?;
        return visitor.visit_bool(v.into())
""", """        return visitor.visit_bool(Boolean::deserialize(map_deserializer)?.into())
"""))
r("arm_direct_bool", (O, """        let v = Boolean::deserialize(map_deserializer)?;
        return visitor.visit_bool(v.into())
""", """        let v: bool = Boolean::deserialize(map_deserializer)?.into();
        return visitor.visit_bool(v)
"""))
r("list_let_chain", (O, """        if members.len() == 3 {
          if let (Some(Value::Array(items)), Some(Value::Int32(size)), Some(Value::Int32(_version))) =
            (members.get("_items"), members.get("_size"), members.get("_version"))
          {
            return ListDeserializer::new(items.iter(), (*size) as usize).deserialize_any(visitor)
          }
        }
""", """        if members.len() == 3
          && let (Some(Value::Array(items)), Some(Value::Int32(size)), Some(Value::Int32(_version))) =
            (members.get("_items"), members.get("_size"), members.get("_version"))
        {
          return ListDeserializer::new(items.iter(), (*size) as usize).deserialize_any(visitor)
        }
"""))
r("list_helper", (O, """        if members.len() == 3 {
          if let (Some(Value::Array(items)), Some(Value::Int32(size)), Some(Value::Int32(_version))) =
            (members.get("_items"), members.get("_size"), members.get("_version"))
          {
            return ListDeserializer::new(items.iter(), (*size) as usize).deserialize_any(visitor)
          }
        }
""", """        if let Some((items, size)) = list_parts(members) {
          return ListDeserializer::new(items.iter(), size).deserialize_any(visitor)
        }
"""), (O, """#[cfg(feature = "serde")]
#[derive(Debug)]
struct ExpectedInList(usize);
""", """#[cfg(feature = "serde")]
fn list_parts<'m, 'i>(members: &'m HashMap<&'i str, Value<'i>>) -> Option<(&'m Vec<Value<'i>>, usize)> {
  if members.len() != 3 {
    return None
  }
  match (members.get("_items"), members.get("_size"), members.get("_version")) {
    (Some(Value::Array(items)), Some(Value::Int32(size)), Some(Value::Int32(_version))) => Some((items, *size as usize)),
    _ => None,
  }
}

#[cfg(feature = "serde")]
#[derive(Debug)]
struct ExpectedInList(usize);
"""))
r("list_try_from", (O, "(*size) as usize", "usize::try_from(*size).unwrap_or(usize::MAX)"))
r("lib_if_library", (O, """    if library.is_some() {
      return map_deserializer.deserialize_map(visitor)
    }
""", """    if let Some(_) = library {
      return map_deserializer.deserialize_map(visitor)
    }
"""))
r("to_deserializer_match", (M, "    self.to_deserializer(&visitor)?.deserialize_any(visitor)", "    let deserializer = self.to_deserializer(&visitor)?;\n    deserializer.deserialize_any(visitor)"))
r("visit_seq_by_match", (V, """    let v = visitor.visit_seq(&mut self)?;
    self.end()?;
    Ok(v)
""", """    let v = match visitor.visit_seq(&mut self) {
      Ok(v) => v,
      Err(err) => return Err(err),
    };
    self.end()?;
    Ok(v)
"""))
r("end_map", (V, """    self.end()?;
    Ok(v)
""", """    self.end().map(|()| v)
"""))
