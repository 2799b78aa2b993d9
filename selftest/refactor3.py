"""Edits that keep the behaviour and change how the parser keeps its state."""
BP = "binary_parser/mod.rs"
E = []
def r(name, *edits): E.append((name, list(edits)))

USE = (BP, "collections::{BTreeMap, BTreeSet, HashMap},", "collections::{BTreeMap, BTreeSet, HashMap, HashSet},")
OBJ = (BP, "  objects: BTreeMap<NonZeroU32, Value<'i>>,", "  objects: HashMap<NonZeroU32, Value<'i>>,")
CLS = (BP, "  classes: BTreeMap<NonZeroU32, Class<'i>>,", "  classes: HashMap<NonZeroU32, Class<'i>>,")
LIB = (BP, "  binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,", "  binary_libraries: HashMap<NonZeroU32, LengthPrefixedString<'i>>,")
IDS = (BP, "  object_ids: BTreeSet<NonZeroU32>,", "  object_ids: HashSet<NonZeroU32>,")
HASH = "impl Hash is derived by NonZeroU32"
r("hash_objects", OBJ)
r("hash_classes", CLS)
r("hash_libraries", LIB)
r("hash_ids", USE, IDS)
r("hash_all", (BP, "collections::{BTreeMap, BTreeSet, HashMap},", "collections::{HashMap, HashSet},"), OBJ, CLS, LIB, IDS)
r("alias", (BP, "#[derive(Debug, Default)]\npub struct BinaryParser<'i> {", "type ById<T> = BTreeMap<NonZeroU32, T>;\n\n#[derive(Debug, Default)]\npub struct BinaryParser<'i> {"),
  (BP, "  objects: BTreeMap<NonZeroU32, Value<'i>>,", "  objects: ById<Value<'i>>,"),
  (BP, "  classes: BTreeMap<NonZeroU32, Class<'i>>,", "  classes: ById<Class<'i>>,"))
r("ids_contains", (BP, """    if self.object_ids.insert(object_id) {
      Ok(())
    } else {
      Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
    }
""", """    if self.object_ids.contains(&object_id) {
      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
    }

    self.object_ids.insert(object_id);
    Ok(())
"""))
r("ids_then", (BP, """    if self.object_ids.insert(object_id) {
      Ok(())
    } else {
      Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
    }
""", """    self.object_ids.insert(object_id).then_some(()).ok_or(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
"""))
r("ids_map", (BP, "  object_ids: BTreeSet<NonZeroU32>,", "  object_ids: BTreeMap<NonZeroU32, ()>,"), (BP, "collections::{BTreeMap, BTreeSet, HashMap},", "collections::{BTreeMap, HashMap},"),
  (BP, "if self.object_ids.insert(object_id) {", "if self.object_ids.insert(object_id, ()).is_none() {"))
r("remove_entry", (BP, "if let Some(value) = self.objects.remove(&id.0) {", "if let Some((_, value)) = self.objects.remove_entry(&id.0) {"))
r("contains_then_remove", (BP, """          if let Some(value) = self.objects.remove(&id.0) {
            members2.push(value);
          } else {
            let member2;
            (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;

            if let Some(value) = self.objects.remove(&member2.0) {
              members2.push(value);
            } else {
              return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
            }
          }
""", """          if !self.objects.contains_key(&id.0) {
            (input, _) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
          }

          match self.objects.remove(&id.0) {
            Some(value) => members2.push(value),
            None => return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference))),
          }
"""))
r("root_remove_match", (BP, """        if let Some(root_id) = header.root_id {
          if let Some(root_object) = self.objects.remove(&root_id) {
            RemotingMessage::Value(root_object)
          } else {
            return Err(nom::Err::Error(error_position!(input, MissingRootObject)))
          }
        } else {
          RemotingMessage::Value(Value::Null)
        }
""", """        let root = match header.root_id {
          Some(root_id) => self.objects.remove(&root_id),
          None => Some(Value::Null),
        };
        let Some(root) = root else { return Err(nom::Err::Error(error_position!(input, MissingRootObject))) };
        RemotingMessage::Value(root)
"""))
r("root_and_then", (BP, """        if let Some(root_id) = header.root_id {
          if let Some(root_object) = self.objects.remove(&root_id) {
            RemotingMessage::Value(root_object)
          } else {
            return Err(nom::Err::Error(error_position!(input, MissingRootObject)))
          }
        } else {
          RemotingMessage::Value(Value::Null)
        }
""", """        let root = header.root_id.map_or(Some(Value::Null), |root_id| self.objects.remove(&root_id));
        RemotingMessage::Value(root.ok_or_else(|| nom::Err::Error(error_position!(input, MissingRootObject)))?)
"""))
r("backtrack_match", (BP, """    if let (Some(library_id), Err(nom::Err::Error(_))) = (library_id, &res) {
      self.binary_libraries.remove(&library_id);
    }

    res
""", """    match (&res, library_id) {
      (Err(nom::Err::Error(_)), Some(library_id)) => {
        self.binary_libraries.remove(&library_id);
      },
      _ => (),
    }

    res
"""))
r("backtrack_matches", (BP, """    if let (Some(library_id), Err(nom::Err::Error(_))) = (library_id, &res) {
      self.binary_libraries.remove(&library_id);
    }
""", """    if matches!(res, Err(nom::Err::Error(_))) {
      if let Some(library_id) = library_id {
        let _ = self.binary_libraries.remove(&library_id);
      }
    }
"""))
r("backtrack_nested", (BP, """    if let (Some(library_id), Err(nom::Err::Error(_))) = (library_id, &res) {
      self.binary_libraries.remove(&library_id);
    }

    res
""", """    let Some(library_id) = library_id else { return res };

    match res {
      Err(nom::Err::Error(err)) => {
        self.binary_libraries.remove(&library_id);
        Err(nom::Err::Error(err))
      },
      res => res,
    }
"""))
r("referenceables_while", (BP, """    loop {
      match self.parse_referenceable(input) {
        Ok((input2, _)) => {
          input = input2;
        },
        Err(nom::Err::Incomplete(n)) => return Err(nom::Err::Incomplete(n)),
        Err(nom::Err::Error(_)) => break,
        Err(nom::Err::Failure(err)) => {
          return Err(nom::Err::Failure(err));
        },
      }
    }

    Ok((input, ()))
""", """    while let Some((rest, _)) = match self.parse_referenceable(input) {
      Ok(ok) => Some(ok),
      Err(nom::Err::Error(_)) => None,
      Err(err) => return Err(err),
    } {
      input = rest;
    }

    Ok((input, ()))
"""))
r("referenceables_return", (BP, """        Err(nom::Err::Incomplete(n)) => return Err(nom::Err::Incomplete(n)),
        Err(nom::Err::Error(_)) => break,
        Err(nom::Err::Failure(err)) => {
          return Err(nom::Err::Failure(err));
        },
      }
    }

    Ok((input, ()))
""", """        Err(nom::Err::Error(_)) => return Ok((input, ())),
        Err(err) => return Err(err),
      }
    }
"""))
r("trailing_not_empty_len", (BP, "    if !input.is_empty() {\n      return Err(nom::Err::Error(error_position!(input, TrailingData)))", "    if input.len() > 0 {\n      return Err(nom::Err::Error(error_position!(input, TrailingData)))"))
r("trailing_first", (BP, "    if !input.is_empty() {\n      return Err(nom::Err::Error(error_position!(input, TrailingData)))", "    if input.first().is_some() {\n      return Err(nom::Err::Error(error_position!(input, TrailingData)))"))
r("trailing_ne_empty", (BP, "    if !input.is_empty() {\n      return Err(nom::Err::Error(error_position!(input, TrailingData)))", "    if let [_, ..] = input {\n      return Err(nom::Err::Error(error_position!(input, TrailingData)))"))
r("finish_helper", (BP, """    let (input, MessageEnd) = MessageEnd::parse(input)?;

    if !input.is_empty() {
      return Err(nom::Err::Error(error_position!(input, TrailingData)))
    }
""", """    let (input, ()) = Self::parse_end(input)?;
"""), (BP, "  /// Deserializes a [`RemotingMessage`] from bytes.", """  /// The end of the message, and nothing behind it.
  fn parse_end(input: &'i [u8]) -> IResult<&'i [u8], (), Error<'i>> {
    let (input, MessageEnd) = MessageEnd::parse(input)?;

    if input.is_empty() { Ok((input, ())) } else { Err(nom::Err::Error(error_position!(input, TrailingData))) }
  }

  /// Deserializes a [`RemotingMessage`] from bytes."""))
r("finish_all_consuming", (BP, """    let (input, MessageEnd) = MessageEnd::parse(input)?;

    if !input.is_empty() {
      return Err(nom::Err::Error(error_position!(input, TrailingData)))
    }
""", """    let (input, _) = MessageEnd::parse(input)?;

    match input {
      [] => (),
      _ => return Err(nom::Err::Error(error_position!(input, TrailingData))),
    }
"""))
r("deserialize_question", (BP, """    self.parse_remoting_message(input).map(|(_, remoting_message)| remoting_message).map_err(|err| match err {
      nom::Err::Incomplete(_) => Error { input, inner: ErrorInner::Eof },
      nom::Err::Error(err) | nom::Err::Failure(err) => err,
    })
""", """    let (_, remoting_message) = self.parse_remoting_message(input).map_err(|err| match err {
      nom::Err::Incomplete(_) => Error { input, inner: ErrorInner::Eof },
      nom::Err::Error(err) | nom::Err::Failure(err) => err,
    })?;
    Ok(remoting_message)
"""))
r("members_zip_into", (BP, "    for member in members.into_iter() {\n", "    for member in members {\n"))
r("members_while_next", (BP, "    for member in members.into_iter() {\n", "    let mut members = members.into_iter();\n    while let Some(member) = members.next() {\n"))
