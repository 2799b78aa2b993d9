From 71b9e4199761ae208db645a759bc596bb51d49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 01/13] fix: read DateTime ticks from the low 62 bits and the
 kind from the high 2 bits

---
 src/value/date_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/date_time.rs b/src/value/date_time.rs
index 7a2e5e5..aea3a9d 100644
--- a/src/value/date_time.rs
+++ b/src/value/date_time.rs
@@ -17,12 +17,12 @@ impl DateTime {
   /// The value can represent time instants in a granularity of 100 nanoseconds
   /// until 23:59:59.9999999, December 31, 9999.
   pub fn ticks(&self) -> i64 {
-    i64::from(self.0) >> 2
+    i64::from(self.0) & 0x3FFF_FFFF_FFFF_FFFF
   }
 
   /// Provides the time-zone information.
   pub fn kind(&self) -> Option<DateTimeKind> {
-    match i64::from(self.0) & 0b11 {
+    match (i64::from(self.0) >> 62) & 0b11 {
       1 => Some(DateTimeKind::Utc),
       2 => Some(DateTimeKind::Local),
       _ => None,
-- 
2.43.0


From c3bcc060b4074985d760308bb8a91672bcbbaecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 02/13] fix: count RETURN_VALUE_INLINE among the Return flags

---
 src/record/message_flags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record/message_flags.rs b/src/record/message_flags.rs
index d4ba481..3cb0b8c 100644
--- a/src/record/message_flags.rs
+++ b/src/record/message_flags.rs
@@ -81,7 +81,7 @@ impl MessageFlags {
     let return_flags = flags.intersection(
       Self::NO_RETURN_VALUE
         .union(Self::RETURN_VALUE_VOID)
-        .union(Self::RETURN_VALUE_IN_ARRAY)
+        .union(Self::RETURN_VALUE_INLINE)
         .union(Self::RETURN_VALUE_IN_ARRAY),
     );
     let signature_flags = flags.intersection(Self::METHOD_SIGNATURE_IN_ARRAY);
-- 
2.43.0


From 0778cb26bc87e8f672721900b52d1758be44917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 03/13] fix: reject a List whose _size exceeds its _items

---
 src/value/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value/object.rs b/src/value/object.rs
index 7364f11..e3c879d 100644
--- a/src/value/object.rs
+++ b/src/value/object.rs
@@ -262,7 +262,9 @@ where
   {
     if self.count < self.size {
       let res = self.array_deserializer.next_element_seed(seed)?;
-      self.count += 1;
+      if res.is_some() {
+        self.count += 1;
+      }
       return Ok(res)
     }
 
-- 
2.43.0


From 7267ad67f15bb738bc6b7b57b0f0f6f8549028b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 04/13] fix: register class definitions so that ClassWithId can
 refer to them

---
 src/binary_parser/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index d0cb273..7926ad0 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -230,20 +230,20 @@ impl<'i> BinaryParser<'i> {
 
     let err_input = input;
 
-    let (input, (object_id, class)) = match ClassWithId::parse(input) {
+    let (input, (object_id, class, is_definition)) = match ClassWithId::parse(input) {
       Ok((input, class_with_id)) => {
         if let Some(class) = self.classes.get(&class_with_id.metadata_id()) {
-          (input, (class_with_id.object_id(), class.clone()))
+          (input, (class_with_id.object_id(), class.clone(), false))
         } else {
           return Err(nom::Err::Failure(error_position!(err_input, MissingMetadataId)))
         }
       },
       Err(nom::Err::Error(_)) => alt((
-        map(ClassWithMembers::parse, |class| (class.object_id(), Class::ClassWithMembers(class))),
-        map(ClassWithMembersAndTypes::parse, |class| (class.object_id(), Class::ClassWithMembersAndTypes(class))),
-        map(SystemClassWithMembers::parse, |class| (class.object_id(), Class::SystemClassWithMembers(class))),
+        map(ClassWithMembers::parse, |class| (class.object_id(), Class::ClassWithMembers(class), true)),
+        map(ClassWithMembersAndTypes::parse, |class| (class.object_id(), Class::ClassWithMembersAndTypes(class), true)),
+        map(SystemClassWithMembers::parse, |class| (class.object_id(), Class::SystemClassWithMembers(class), true)),
         map(SystemClassWithMembersAndTypes::parse, |class| {
-          (class.object_id(), Class::SystemClassWithMembersAndTypes(class))
+          (class.object_id(), Class::SystemClassWithMembersAndTypes(class), true)
         }),
       ))
       .parse(input)?,
@@ -254,6 +254,10 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
     }
 
+    if is_definition {
+      self.classes.insert(object_id, class.clone());
+    }
+
     let (input, (class_info, library, member_references)) = match class {
       Class::ClassWithMembers(ref class) => {
         let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
-- 
2.43.0


From acd091098ca8f3cc6ffc789b5a46e7b43c62e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 05/13] fix: reject duplicate object IDs

---
 src/binary_parser/mod.rs | 53 ++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 7926ad0..5cebe1a 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-  collections::{BTreeMap, HashMap},
+  collections::{BTreeMap, BTreeSet, HashMap},
   num::NonZeroU32,
 };
 
@@ -56,6 +56,7 @@ pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
   classes: BTreeMap<NonZeroU32, Class<'i>>,
   objects: BTreeMap<NonZeroU32, Value<'i>>,
+  object_ids: BTreeSet<NonZeroU32>,
 }
 
 macro_rules! alt_mut {
@@ -89,6 +90,25 @@ impl<'i> BinaryParser<'i> {
     Ok((input, ()))
   }
 
+  /// Declares the ID of an object, which must be unique within the message.
+  fn declare_object_id(&mut self, input: &'i [u8], object_id: NonZeroU32) -> Result<(), nom::Err<Error<'i>>> {
+    if self.object_ids.insert(object_id) {
+      Ok(())
+    } else {
+      Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
+    }
+  }
+
+  /// 2.7 Binary Record Grammar - `BinaryObjectString`
+  fn parse_object_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, &'i str), Error<'i>> {
+    let (input, binary_object_string) = BinaryObjectString::parse(input)?;
+
+    let object_id = binary_object_string.object_id();
+    self.declare_object_id(input, object_id)?;
+
+    Ok((input, (RefId(object_id), binary_object_string.as_str())))
+  }
+
   /// 2.7 Binary Record Grammar - `memberReference`
   fn parse_member_reference(
     &mut self,
@@ -105,7 +125,7 @@ impl<'i> BinaryParser<'i> {
         )
         .parse(input)?,
         (BinaryType::String, None) => {
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))).parse(input)?
+          map(|input| self.parse_object_string(input), |(_, s)| ValueOrRef::Value(Value::String(s))).parse(input)?
         },
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
@@ -140,7 +160,7 @@ impl<'i> BinaryParser<'i> {
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
         (BinaryType::StringArray, None) => alt((
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+          map(|input| self.parse_object_string(input), |(_, s)| ValueOrRef::Value(Value::String(s))),
           map(
             |input| MemberReference::parse(input),
             |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
@@ -155,14 +175,13 @@ impl<'i> BinaryParser<'i> {
         _ => unreachable!(),
       }
     } else {
-      alt((
+      alt_mut!(input =>
         map(|input| MemberPrimitiveTyped::parse(input), |primitive| ValueOrRef::Value(primitive.into_value())),
         map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
-        map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+        map(|input| self.parse_object_string(input), |(_, s)| ValueOrRef::Value(Value::String(s))),
         Self::parse_null_object,
         map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
-      ))
-      .parse(input)?
+      )?
     };
 
     Ok((input, object))
@@ -250,9 +269,7 @@ impl<'i> BinaryParser<'i> {
       Err(err) => return Err(err),
     };
 
-    if self.classes.contains_key(&object_id) {
-      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
-    }
+    self.declare_object_id(input, object_id)?;
 
     if is_definition {
       self.classes.insert(object_id, class.clone());
@@ -315,6 +332,8 @@ impl<'i> BinaryParser<'i> {
   /// 2.7 Binary Record Grammar - `ArraySingleObject *(memberReference)`
   fn parse_array_single_object(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (mut input, array_single_object) = ArraySingleObject::parse(input)?;
+    let object_id = array_single_object.object_id();
+    self.declare_object_id(input, object_id)?;
 
     let mut members = vec![];
 
@@ -337,13 +356,14 @@ impl<'i> BinaryParser<'i> {
 
     let (input, members) = self.resolve_members(input, members)?;
 
-    let object_id = array_single_object.object_id();
     Ok((input, (RefId(object_id), members)))
   }
 
   /// 2.7 Binary Record Grammar - `ArraySinglePrimitive *(MemberPrimitiveUnTyped)`
   fn parse_array_single_primitive(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (input, array_single_primitive) = ArraySinglePrimitive::parse(input)?;
+    let object_id = array_single_primitive.object_id();
+    self.declare_object_id(input, object_id)?;
 
     let (input, members) = count(
       map(
@@ -354,13 +374,14 @@ impl<'i> BinaryParser<'i> {
     )
     .parse(input)?;
 
-    let object_id = array_single_primitive.object_id();
     Ok((input, (RefId(object_id), members)))
   }
 
   /// 2.7 Binary Record Grammar - `ArraySingleString *(BinaryObjectString/MemberReference/nullObject)`
   fn parse_array_single_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (mut input, array_single_string) = ArraySingleString::parse(input)?;
+    let object_id = array_single_string.object_id();
+    self.declare_object_id(input, object_id)?;
 
     let mut members = vec![];
 
@@ -383,7 +404,6 @@ impl<'i> BinaryParser<'i> {
 
     let (input, members) = self.resolve_members(input, members)?;
 
-    let object_id = array_single_string.object_id();
     Ok((input, (RefId(object_id), members)))
   }
 
@@ -392,6 +412,8 @@ impl<'i> BinaryParser<'i> {
     let err_input = input;
 
     let (input, binary_array) = BinaryArray::parse(input)?;
+    let object_id = binary_array.object_id();
+    self.declare_object_id(input, object_id)?;
 
     let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
       Some(member_count) => member_count,
@@ -406,7 +428,6 @@ impl<'i> BinaryParser<'i> {
     .parse(input)?;
 
     let (input, members) = self.resolve_members(input, members)?;
-    let object_id = binary_array.object_id();
 
     let mut members = members;
     for l in binary_array.lengths.into_iter().skip(1).rev() {
@@ -446,8 +467,8 @@ impl<'i> BinaryParser<'i> {
         |(object_id, array)| (object_id, Value::Array(array)),
       ),
       map(
-        BinaryObjectString::parse,
-        |s| (RefId(s.object_id()), Value::String(s.as_str())),
+        |input| self.parse_object_string(input),
+        |(object_id, s)| (object_id, Value::String(s)),
       ),
     )?;
 
-- 
2.43.0


From c177224f887377457a5b8b61f7c63f344da48f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 06/13] fix: forget a BinaryLibrary when backtracking over it

---
 src/binary_parser/mod.rs | 70 +++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 5cebe1a..bca29ae 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -76,7 +76,8 @@ macro_rules! alt_mut {
 }
 
 impl<'i> BinaryParser<'i> {
-  fn parse_binary_library(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (), Error<'i>> {
+  /// Parses an optional `BinaryLibrary` in front of a record, returning its ID if there is one.
+  fn parse_binary_library(&mut self, input: &'i [u8]) -> IResult<&'i [u8], Option<NonZeroU32>, Error<'i>> {
     let (input, binary_library) = opt(BinaryLibrary::parse).parse(input)?;
 
     if let Some(binary_library) = binary_library {
@@ -85,9 +86,25 @@ impl<'i> BinaryParser<'i> {
       if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
         return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
       }
+
+      return Ok((input, Some(library_id)))
     }
 
-    Ok((input, ()))
+    Ok((input, None))
+  }
+
+  /// Forgets the `BinaryLibrary` in front of a record if the record did not match, since other alternatives
+  /// start over with the `BinaryLibrary`.
+  fn backtrack<T>(
+    &mut self,
+    library_id: Option<NonZeroU32>,
+    res: IResult<&'i [u8], T, Error<'i>>,
+  ) -> IResult<&'i [u8], T, Error<'i>> {
+    if let (Some(library_id), Err(nom::Err::Error(_))) = (library_id, &res) {
+      self.binary_libraries.remove(&library_id);
+    }
+
+    res
   }
 
   /// Declares the ID of an object, which must be unique within the message.
@@ -115,7 +132,7 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
   ) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    let (input, _) = self.parse_binary_library(input)?;
 
     let (input, object) = if let Some((type_enum, additional_type_info)) = type_enum_and_additional_type_info {
       match (type_enum, additional_type_info) {
@@ -245,7 +262,7 @@ impl<'i> BinaryParser<'i> {
 
   /// 2.7 Binary Record Grammar - `Classes`
   fn parse_classes(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Object<'i>), Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    let (input, library_id) = self.parse_binary_library(input)?;
 
     let err_input = input;
 
@@ -257,15 +274,20 @@ impl<'i> BinaryParser<'i> {
           return Err(nom::Err::Failure(error_position!(err_input, MissingMetadataId)))
         }
       },
-      Err(nom::Err::Error(_)) => alt((
-        map(ClassWithMembers::parse, |class| (class.object_id(), Class::ClassWithMembers(class), true)),
-        map(ClassWithMembersAndTypes::parse, |class| (class.object_id(), Class::ClassWithMembersAndTypes(class), true)),
-        map(SystemClassWithMembers::parse, |class| (class.object_id(), Class::SystemClassWithMembers(class), true)),
-        map(SystemClassWithMembersAndTypes::parse, |class| {
-          (class.object_id(), Class::SystemClassWithMembersAndTypes(class), true)
-        }),
-      ))
-      .parse(input)?,
+      Err(nom::Err::Error(_)) => {
+        let res = alt((
+          map(ClassWithMembers::parse, |class| (class.object_id(), Class::ClassWithMembers(class), true)),
+          map(ClassWithMembersAndTypes::parse, |class| {
+            (class.object_id(), Class::ClassWithMembersAndTypes(class), true)
+          }),
+          map(SystemClassWithMembers::parse, |class| (class.object_id(), Class::SystemClassWithMembers(class), true)),
+          map(SystemClassWithMembersAndTypes::parse, |class| {
+            (class.object_id(), Class::SystemClassWithMembersAndTypes(class), true)
+          }),
+        ))
+        .parse(input);
+        self.backtrack(library_id, res)?
+      },
       Err(err) => return Err(err),
     };
 
@@ -445,14 +467,15 @@ impl<'i> BinaryParser<'i> {
 
   /// 2.7 Binary Record Grammar - `Arrays`
   fn parse_arrays(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    let (input, library_id) = self.parse_binary_library(input)?;
 
-    alt_mut!(input =>
+    let res = alt_mut!(input =>
       |input| self.parse_array_single_object(input),
       |input| self.parse_array_single_primitive(input),
       |input| self.parse_array_single_string(input),
       |input| self.parse_binary_array(input),
-    )
+    );
+    self.backtrack(library_id, res)
   }
 
   /// 2.7 Binary Record Grammar - `referenceable`
@@ -491,9 +514,10 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
   ) -> IResult<&'i [u8], Vec<Value<'i>>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    let (input, library_id) = self.parse_binary_library(input)?;
 
-    let (input, (call_array_id, call_array)) = self.parse_array_single_object(input)?;
+    let res = self.parse_array_single_object(input);
+    let (input, (call_array_id, call_array)) = self.backtrack(library_id, res)?;
 
     if Some(call_array_id.0) != root_id {
       return Err(nom::Err::Failure(Error { input, inner: ErrorInner::InvalidCallArrayId }))
@@ -508,9 +532,10 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
   ) -> IResult<&'i [u8], MethodCall<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    let (input, library_id) = self.parse_binary_library(input)?;
 
-    let (input, binary_method_call) = BinaryMethodCall::parse(input)?;
+    let res = BinaryMethodCall::parse(input);
+    let (input, binary_method_call) = self.backtrack(library_id, res)?;
 
     let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
 
@@ -552,9 +577,10 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
   ) -> IResult<&'i [u8], MethodReturn<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    let (input, library_id) = self.parse_binary_library(input)?;
 
-    let (input, binary_method_return) = BinaryMethodReturn::parse(input)?;
+    let res = BinaryMethodReturn::parse(input);
+    let (input, binary_method_return) = self.backtrack(library_id, res)?;
 
     let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
 
-- 
2.43.0


From 64be2e92008c651ae735400e5f3240b4c92b14e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 07/13] fix: keep runs of nulls within the members they stand
 for

---
 src/binary_parser/mod.rs | 74 +++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 42 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index bca29ae..4be18a8 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -235,11 +235,10 @@ impl<'i> BinaryParser<'i> {
         ValueOrRef::Value(value) => {
           members2.push(value);
         },
-        ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members2.push(Value::Null);
-          }
+        ValueOrRef::Null(1) => {
+          members2.push(Value::Null);
         },
+        ValueOrRef::Null(_) => return Err(nom::Err::Failure(error_position!(input, InvalidNullCount))),
         ValueOrRef::Ref(id) => {
           if let Some(value) = self.objects.remove(&id.0) {
             members2.push(value);
@@ -351,21 +350,27 @@ impl<'i> BinaryParser<'i> {
     Ok((input, (RefId(object_id), Object { class: class_name, library, members })))
   }
 
-  /// 2.7 Binary Record Grammar - `ArraySingleObject *(memberReference)`
-  fn parse_array_single_object(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
-    let (mut input, array_single_object) = ArraySingleObject::parse(input)?;
-    let object_id = array_single_object.object_id();
-    self.declare_object_id(input, object_id)?;
-
+  /// Parses the members of an array of length `len`, in which a `nullObject` can stand for more than one member.
+  fn parse_array_members(
+    &mut self,
+    mut input: &'i [u8],
+    len: usize,
+    type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
+  ) -> IResult<&'i [u8], Vec<Value<'i>>, Error<'i>> {
     let mut members = vec![];
 
-    let len = array_single_object.array_info.len();
     while members.len() < len {
+      let err_input = input;
+
       let member;
-      (input, member) = self.parse_member_reference(input, None)?;
+      (input, member) = self.parse_member_reference(input, type_enum_and_additional_type_info)?;
 
       match member {
         ValueOrRef::Null(count) => {
+          if count > len - members.len() {
+            return Err(nom::Err::Failure(error_position!(err_input, InvalidNullCount)))
+          }
+
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
           }
@@ -376,7 +381,17 @@ impl<'i> BinaryParser<'i> {
       }
     }
 
-    let (input, members) = self.resolve_members(input, members)?;
+    self.resolve_members(input, members)
+  }
+
+  /// 2.7 Binary Record Grammar - `ArraySingleObject *(memberReference)`
+  fn parse_array_single_object(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+    let (input, array_single_object) = ArraySingleObject::parse(input)?;
+    let object_id = array_single_object.object_id();
+    self.declare_object_id(input, object_id)?;
+
+    let len = array_single_object.array_info.len();
+    let (input, members) = self.parse_array_members(input, len, None)?;
 
     Ok((input, (RefId(object_id), members)))
   }
@@ -401,30 +416,12 @@ impl<'i> BinaryParser<'i> {
 
   /// 2.7 Binary Record Grammar - `ArraySingleString *(BinaryObjectString/MemberReference/nullObject)`
   fn parse_array_single_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
-    let (mut input, array_single_string) = ArraySingleString::parse(input)?;
+    let (input, array_single_string) = ArraySingleString::parse(input)?;
     let object_id = array_single_string.object_id();
     self.declare_object_id(input, object_id)?;
 
-    let mut members = vec![];
-
     let len = array_single_string.array_info.len();
-    while members.len() < len {
-      let member;
-      (input, member) = self.parse_member_reference(input, Some((BinaryType::StringArray, None)))?;
-
-      match member {
-        ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members.push(ValueOrRef::Value(Value::Null));
-          }
-        },
-        _ => {
-          members.push(member);
-        },
-      }
-    }
-
-    let (input, members) = self.resolve_members(input, members)?;
+    let (input, members) = self.parse_array_members(input, len, Some((BinaryType::StringArray, None)))?;
 
     Ok((input, (RefId(object_id), members)))
   }
@@ -441,15 +438,8 @@ impl<'i> BinaryParser<'i> {
       Some(member_count) => member_count,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
     };
-    let (input, members) = count(
-      |input| {
-        self.parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))
-      },
-      member_count,
-    )
-    .parse(input)?;
-
-    let (input, members) = self.resolve_members(input, members)?;
+    let type_info = Some((binary_array.type_enum, binary_array.additional_type_info.as_ref()));
+    let (input, members) = self.parse_array_members(input, member_count, type_info)?;
 
     let mut members = members;
     for l in binary_array.lengths.into_iter().skip(1).rev() {
-- 
2.43.0


From 34c1e936f90e05e5e2138d17bcf5a3bc22c1a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 08/13] fix: do not mistake an untyped primitive for a
 BinaryLibrary

---
 src/binary_parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 4be18a8..291f821 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -132,7 +132,11 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
   ) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
-    let (input, _) = self.parse_binary_library(input)?;
+    // An untyped primitive is not preceded by a record type, so its first byte could be mistaken for one.
+    let (input, _) = match type_enum_and_additional_type_info {
+      Some((BinaryType::Primitive, _)) => (input, None),
+      _ => self.parse_binary_library(input)?,
+    };
 
     let (input, object) = if let Some((type_enum, additional_type_info)) = type_enum_and_additional_type_info {
       match (type_enum, additional_type_info) {
-- 
2.43.0


From bd70227e06dfb0a576cd4d815b442a22d8f6521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 09/13] fix: accept references and nulls for all typed
 reference members

---
 src/binary_parser/mod.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 291f821..9055831 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -145,9 +145,6 @@ impl<'i> BinaryParser<'i> {
           |primitive| ValueOrRef::Value(primitive.into_value()),
         )
         .parse(input)?,
-        (BinaryType::String, None) => {
-          map(|input| self.parse_object_string(input), |(_, s)| ValueOrRef::Value(Value::String(s))).parse(input)?
-        },
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
           if let Ok((input, (_, object))) = self.parse_classes(input) {
@@ -157,7 +154,7 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            Self::parse_reference_or_null_object(input)?
           }
         },
         (BinaryType::Class, Some(AdditionalTypeInfo::Class(class_type_info))) => {
@@ -176,22 +173,17 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            Self::parse_reference_or_null_object(input)?
           }
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
-        (BinaryType::StringArray, None) => alt((
+        (BinaryType::String | BinaryType::StringArray, None) => alt((
           map(|input| self.parse_object_string(input), |(_, s)| ValueOrRef::Value(Value::String(s))),
-          map(
-            |input| MemberReference::parse(input),
-            |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
-          ),
-          Self::parse_null_object,
+          Self::parse_reference_or_null_object,
         ))
         .parse(input)?,
         (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_primitive_type))) => {
-          map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)))
-            .parse(input)?
+          Self::parse_reference_or_null_object(input)?
         },
         _ => unreachable!(),
       }
@@ -503,6 +495,15 @@ impl<'i> BinaryParser<'i> {
     .parse(input)
   }
 
+  /// 2.7 Binary Record Grammar - `MemberReference/nullObject`
+  fn parse_reference_or_null_object(input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    alt((
+      map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
+      Self::parse_null_object,
+    ))
+    .parse(input)
+  }
+
   fn parse_call_array(
     &mut self,
     input: &'i [u8],
-- 
2.43.0


From 49812fbc85ea225728d517e58f8801396a7059ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 10/13] fix: decode a Char as UTF-8

---
 src/data_type/char.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/data_type/char.rs b/src/data_type/char.rs
index 26f8f2e..e2a3063 100644
--- a/src/data_type/char.rs
+++ b/src/data_type/char.rs
@@ -1,8 +1,10 @@
+use std::str;
+
 use nom::{
   IResult, Parser,
   branch::alt,
+  bytes::complete::take,
   combinator::{map, map_opt},
-  number::complete::{le_u16, le_u24, le_u32, u8},
 };
 
 use super::impl_primitive;
@@ -17,13 +19,17 @@ use crate::{
 pub struct Char(pub char);
 
 impl Char {
+  fn from_utf8(bytes: &[u8]) -> Option<char> {
+    str::from_utf8(bytes).ok().and_then(|s| s.chars().next())
+  }
+
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
     map(
       alt((
-        map_opt(u8, |n| char::from_u32(n as u32)),
-        map_opt(le_u16, |n| char::from_u32(n as u32)),
-        map_opt(le_u24, char::from_u32),
-        map_opt(le_u32, char::from_u32),
+        map_opt(take(1usize), Self::from_utf8),
+        map_opt(take(2usize), Self::from_utf8),
+        map_opt(take(3usize), Self::from_utf8),
+        map_opt(take(4usize), Self::from_utf8),
       )),
       Self,
     )
-- 
2.43.0


From 357b770f66b260c785ec899dd940daf6dd44e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 11/13] fix: deserialize an Option from a message

---
 src/remoting_message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/remoting_message.rs b/src/remoting_message.rs
index 644fb80..b00f576 100644
--- a/src/remoting_message.rs
+++ b/src/remoting_message.rs
@@ -100,6 +100,13 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
     self.to_deserializer(&visitor)?.deserialize_any(visitor)
   }
 
+  fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+  where
+    V: Visitor<'de>,
+  {
+    self.to_deserializer(&visitor)?.deserialize_option(visitor)
+  }
+
   fn deserialize_struct<V>(
     self,
     name: &'static str,
@@ -114,7 +121,7 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
 
   forward_to_deserialize_any! {
       bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-      bytes byte_buf option unit unit_struct newtype_struct seq tuple
+      bytes byte_buf unit unit_struct newtype_struct seq tuple
       tuple_struct map enum identifier ignored_any
   }
 }
-- 
2.43.0


From 436da21f42cb019f5c24aa631e8716cc2d4c3c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 12/13] Add a hook for verification harnesses, compiled under
 cfg(kani) only

---
 src/lib.rs          | 6 ++++++
 src/record/mod.rs   | 6 ++++++
 src/value/object.rs | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8257ec1..6390414 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -53,3 +53,9 @@ where
     RemotingMessage::parse(bytes).map_err(|err| de::Error::custom(format!("parsing error: {}", err)))?;
   T::deserialize(remoting_message)
 }
+
+/// Harnesses of the verification framework, see `NRBF_VERIF_HOOK`.
+#[cfg(kani)]
+mod verif {
+  include!(concat!(env!("NRBF_VERIF_HOOK"), "/lib.rs"));
+}
diff --git a/src/record/mod.rs b/src/record/mod.rs
index ec2462d..f359b64 100644
--- a/src/record/mod.rs
+++ b/src/record/mod.rs
@@ -125,3 +125,9 @@ where
     value(*self, tag([*self as u8].as_slice())).process::<OM>(input)
   }
 }
+
+/// Harnesses of the verification framework, see `NRBF_VERIF_HOOK`.
+#[cfg(kani)]
+mod verif {
+  include!(concat!(env!("NRBF_VERIF_HOOK"), "/record.rs"));
+}
diff --git a/src/value/object.rs b/src/value/object.rs
index e3c879d..2193520 100644
--- a/src/value/object.rs
+++ b/src/value/object.rs
@@ -271,3 +271,9 @@ where
     Ok(None)
   }
 }
+
+/// Harnesses of the verification framework, see `NRBF_VERIF_HOOK`.
+#[cfg(kani)]
+mod verif {
+  include!(concat!(env!("NRBF_VERIF_HOOK"), "/object.rs"));
+}
-- 
2.43.0


From 7202998ee01d9029504b62f16181e2e984f6fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 13/13] fix: count a list element even if deserializing it
 fails

---
 src/value/object.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/value/object.rs b/src/value/object.rs
index 2193520..6ea9d3a 100644
--- a/src/value/object.rs
+++ b/src/value/object.rs
@@ -261,11 +261,12 @@ where
     V: de::DeserializeSeed<'de>,
   {
     if self.count < self.size {
-      let res = self.array_deserializer.next_element_seed(seed)?;
-      if res.is_some() {
+      // An element counts even if deserializing it fails.
+      let res = self.array_deserializer.next_element_seed(seed);
+      if !matches!(res, Ok(None)) {
         self.count += 1;
       }
-      return Ok(res)
+      return res
     }
 
     Ok(None)
-- 
2.43.0

