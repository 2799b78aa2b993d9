V, O, M, L = "value/mod.rs", "value/object.rs", "remoting_message.rs", "lib.rs"
E = []
def r(name, *edits): E.append((name, list(edits)))
r("timespan_u64", (V, "Value::TimeSpan(v) => visitor.visit_i64(v.0.into())", "Value::TimeSpan(v) => visitor.visit_i64(v.value().max(0))"))
r("datetime_ticks", (V, "Value::DateTime(v) => visitor.visit_i64(v.0.into())", "Value::DateTime(v) => visitor.visit_i64(v.ticks())"))
r("char_as_str", (V, "Value::Char(v) => visitor.visit_char(*v)", "Value::Char(v) => visitor.visit_u32(*v as u32)"))
r("single_as_double", (V, "Value::Single(v) => visitor.visit_f32(*v)", "Value::Single(v) => visitor.visit_f64(*v as f64)"))
r("str_owned", (V, "visitor.visit_borrowed_str(s)", "visitor.visit_str(s)"))
r("null_none", (V, "Value::Null => visitor.visit_unit()", "Value::Null => visitor.visit_none()"))
r("option_some_null", (V, "if matches!(self.object, Value::Null) { visitor.visit_none() } else { visitor.visit_some(self) }", "visitor.visit_some(self)"))
r("option_empty_string", (V, "if matches!(self.object, Value::Null)", "if matches!(self.object, Value::Null) || matches!(self.object, Value::String(\"\"))"))
r("sbyte_u8", (V, "visitor.visit_i8(*v)", "visitor.visit_u8(*v as u8)"))
r("array_no_end", (V, "    self.end()?;\n", ""))
r("array_end_count", (V, "if remaining == 0 {", "if remaining <= 1 {"))
r("array_count_twice", (V, "        self.count += 1;\n", "        self.count += 2;\n"))
r("list_no_end", (O, "    self.end()?;\n", ""))
r("list_end_lt", (O, "if self.count == self.size {", "if self.count <= self.size {"))
r("list_next_le", (O, "if self.count < self.size {", "if self.count <= self.size {"))
r("list_size_abs", (O, "(*size) as usize", "size.unsigned_abs() as usize"))
r("list_size_version", (O, "Some(Value::Int32(size)), Some(Value::Int32(_version))", "Some(Value::Int32(_version)), Some(Value::Int32(size))"))
r("list_min", (O, "(*size) as usize", "((*size) as usize).min(items.len())"))
r("lib_ignored", (O, "if library.is_some() {", "if library.is_some() && !class.starts_with(\"System.\") {"))
r("split_last", (O, "class.split_once('`')", "class.rsplit_once('`')"))
r("split_bracket", (O, "class.split_once('`')", "class.split_once('[')"))
r("swap_names", (O, "\"System.Int16\" => {", "\"System.Int16\" | \"System.Short\" => {"))
r("byte_sbyte", (O, "let v = Byte::deserialize(map_deserializer)?;\n        return visitor.visit_u8(v.into())", "let v = Int8::deserialize(map_deserializer)?;\n        return visitor.visit_i8(v.into())"))
r("struct_skips_null", (O, "    MapDeserializer::new(members.iter().map(", "    MapDeserializer::new(members.iter().filter(|(_, v)| !matches!(v, Value::Null)).map("))
r("msg_struct_any", (M, "self.to_deserializer(&visitor)?.deserialize_struct(name, fields, visitor)", "self.to_deserializer(&visitor)?.deserialize_any(visitor)"))
r("msg_option_any", (M, "self.to_deserializer(&visitor)?.deserialize_option(visitor)", "self.to_deserializer(&visitor)?.deserialize_any(visitor)"))
r("value_struct_any", (V, "Value::Object(object) => ObjectDeserializer::new(object).deserialize_struct(name, fields, visitor),", "Value::Object(object) => ObjectDeserializer::new(object).deserialize_any(visitor),"))
r("list_members_ge", (O, "members.len() == 3", "members.len() >= 4"))
r("from_slice_trim", (L, "RemotingMessage::parse(bytes)", "RemotingMessage::parse(bytes.strip_suffix(b\"\\n\").unwrap_or(bytes))"))
r("method_return_value", (M, "Self::MethodReturn(..) => Err(de::value::Error::invalid_type(Unexpected::Other(\"method return\"), visitor)),", "Self::MethodReturn(MethodReturn { return_value: Some(v), .. }) => Ok(ValueDeserializer::new(v)),\n      Self::MethodReturn(..) => Err(de::value::Error::invalid_type(Unexpected::Other(\"method return\"), visitor)),"))
