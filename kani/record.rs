// Harnesses that need items private to /repo/src/record/mod.rs.
use super::*;
use crate::verif::{any_input, is_rest, oracle};

fn any_record_type() -> RecordType {
  use RecordType::*;
  let t = [
    SerializedStreamHeader,
    ClassWithId,
    SystemClassWithMembers,
    ClassWithMembers,
    SystemClassWithMembersAndTypes,
    ClassWithMembersAndTypes,
    BinaryObjectString,
    BinaryArray,
    MemberPrimitiveTyped,
    MemberReference,
    ObjectNull,
    MessageEnd,
    BinaryLibrary,
    ObjectNullMultiple256,
    ObjectNullMultiple,
    ArraySinglePrimitive,
    ArraySingleObject,
    ArraySingleString,
    MethodCall,
    MethodReturn,
  ];
  let k: usize = kani::any();
  kani::assume(k < t.len());
  t[k]
}

#[kani::proof]
#[kani::unwind(4)]
fn leaf_record_type() {
  let i = any_input();
  let t = any_record_type();
  match t.parse(i) {
    Ok((rest, v)) => {
      assert!(v == t && !i.is_empty() && i[0] == oracle::record_code(&t), "accepted another record type");
      assert!(is_rest(i, rest, 1));
      kani::cover!(true, "accepts");
    },
    Err(e) => {
      assert!(i.is_empty() || i[0] != oracle::record_code(&t), "rejected the record type");
      assert!(matches!(e, nom::Err::Error(_)));
      kani::cover!(true, "rejects");
    },
  }
}
