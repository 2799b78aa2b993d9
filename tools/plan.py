"""Which contracts decide which property."""

LEAF_PRIMS = ["verif::leaf_" + x for x in (
    "byte int8 int16 uint16 int32 uint32 int64 uint64 single double timespan datetime boolean char decimal "
    "primitive_type primitive_type_exact conversions").split()]

LEAF_CODES = ["verif::leaf_binary_type", "verif::leaf_binary_array_type", "record::verif::leaf_record_type"]
LEAVES = LEAF_PRIMS + LEAF_CODES + ["verif::leaf_string", "verif::message_flags"]

TRUSTED = [
    "rustc, Kani 0.68 and CBMC 6.11 (leaf contracts)",
    "the reference decoder of harness/ (counterexample search only; it never discharges an obligation)",
]
KANI_NOTE = [
    "Kani: inputs are symbolic slices of symbolic length; loops bounded by operand width are unrolled completely "
    "(unwinding assertions on); termination is not checked by Kani",
    "core::str::from_utf8 is replaced by a contract (an arbitrary verdict, or RFC 3629 for up to four bytes)",
]
VERUS_NOTE = []

# functions whose contracts state a property; the contracts of all others are its premises
BP = r"^binary_parser::BinaryParser::"
OWN = {
    "C01": [r"."],
    "C02": [r"^record::(MemberPrimitiveUnTyped|MemberPrimitiveTyped|ValueWithCode)::"],
    "C03": [r"^data_type::LengthPrefixedString::"],
    "C04": [BP + r"(parse_array_\w+|parse_binary_array|parse_arrays|parse_null_object)$", r"^record::(ArraySingle\w+|BinaryArray|ObjectNull\w*)::",
            r"^common::ArrayInfo::", r"^combinator::length$"],
    "C05": [BP + r"(parse_classes|parse_members_with_type_info|parse_member_reference|resolve_members)$",
            r"^common::(ClassInfo|MemberTypeInfo|AdditionalTypeInfo)::", r"^data_type::ClassTypeInfo::", r"^record::(System)?Class\w+::"],
    "C06": [BP + r"(resolve_members|parse_referenceable|parse_reference_or_null_object|parse_member_reference)$", r"^record::MemberReference::"],
    "C07": [BP + r"(parse_remoting_message|parse_referenceables|deserialize)$", r"^record::(SerializationHeader|MessageEnd)::", r"^remoting_message::"],
    "C08": [BP + r"(parse_method_\w+|parse_call_array)$", r"^record::(BinaryMethod\w+|ArrayOfValueWithCode|StringValueWithCode|ValueWithCode)::"],
    "C09": [BP + r"(declare_object_id|parse_object_string|parse_classes|parse_array_single_\w+|parse_binary_array)$", r"^combinator::(object_id|library_id)$",
            r"^record::(ClassWithId|BinaryObjectString|MemberReference)::", r"::object_id$"],
    "C10": [BP + r"(parse_remoting_message|parse_referenceables|deserialize)$", r"^record::MessageEnd::", r"^remoting_message::"],
    "C11": [r"^value::ValueDeserializer::", r"^remoting_message::RemotingMessage::", r"^crate::from_slice$"],
    "C13": [r"^value::ListDeserializer::", r"^value::ArrayDeserializer::(new|next_element_seed)$", r"^value::ObjectDeserializer::"],
    "C15": [r"^value::(Array|Object|Value)Deserializer::", r"^value::StrDeserializer::", r"^remoting_message::RemotingMessage::"],
    "C16": [BP + r"(parse_binary_library|backtrack|parse_classes|parse_member_reference|parse_arrays|parse_call_array|parse_method_call|parse_method_return)$",
            r"^record::BinaryLibrary::", r"::library_id$"],
}
import re
# C01: calls within their preconditions, no overflow, termination, and the clauses that those rest on
SAFETY_ONLY = {"C01"}
SAFETY_CLAUSE = re.compile(r"ti_ok|tis_ok|sc_ok|wf\(|shrinks|\.len\(\) (<|==|<=) |decreases|__k\d|__go")
# the clauses of a shared contract that state the property
CLAUSES = {
    "C11": re.compile(r"^(?!.*compound_)", re.S),
    "C13": re.compile(r"^(?!.*sd_plain|.*compound_|.*scalar_)", re.S),
    "C15": re.compile(r"^(?!.*sd_generic_list|.*scalar_)", re.S),
}

T_KANI = "function contracts on the real code, discharged by Kani/CBMC for all inputs"
N_KANI = ("Every listed function is verified against its contract for every input (symbolic bytes and length). Trusted: Kani, CBMC, "
          "and the contract for core::str::from_utf8 (and for rust_decimal's from_str). A search of the real crate against a "
          "reference decoder supplies failing inputs; it discharges nothing.")

T_VERUS = "function contracts on the code extracted from /repo on every run, discharged by Verus for all inputs"
N_VERUS = ("Every function of the parser is verified against its contract, function by function, with no bound on inputs or iterations. Trusted: Verus and Z3, "
           "the extraction (mechanical, on every run), the models of std and nom in verus/prelude.rs; the contracts of the primitive parsers are "
           "assumed here and proved by Kani in C02, C03 and C14. A search of the real crate against a reference decoder supplies failing inputs; it discharges nothing.")
T_BOTH = "function contracts on the real code, discharged by Kani/CBMC (primitive parsers) and Verus (dispatch on type codes) for all inputs"

PLAN = {
    "C12": dict(level="proof", technique=T_KANI, level_note=N_KANI,
                kani=["verif::date_time_accessors", "verif::time_span_value", "verif::leaf_datetime",
                      "verif::leaf_timespan"], ms=10000),
    "C14": dict(level="proof", technique=T_KANI, level_note=N_KANI, kani=["verif::message_flags", "verif::message_flags_intersects", "verif::leaf_int32"], ms=15000),
    "C03": dict(level="proof", technique=T_KANI, level_note=N_KANI, kani=["verif::leaf_string"], ms=20000),
    "C02": dict(level="proof", technique=T_BOTH, level_note=N_KANI, kani=LEAF_PRIMS, verus=True, ms=20000),
}
for _p in "C01 C04 C05 C06 C07 C08 C09 C10 C16".split():
    PLAN[_p] = dict(level="proof", technique=T_VERUS, level_note=N_VERUS, verus=True, ms=25000)
PLAN["C01"].update(kani=LEAVES, technique=T_BOTH.replace("dispatch on type codes", "everything above them"))
PLAN["C04"]["kani"] = LEAF_CODES[:2]
PLAN["C05"]["kani"] = LEAF_CODES[:1]
PLAN["C07"]["kani"] = LEAF_CODES[2:]
PLAN["C08"]["kani"] = ["verif::message_flags", "verif::message_flags_intersects"]

BOXED = ["value::object::verif::boxed_" + x for x in
         "boolean byte sbyte char double single int16 uint16 int32 uint32 int64 uint64".split()]
N_SERDE = ("Every function of the deserializers is verified against its contract for all values and all targets. Trusted: Verus and Z3, the "
           "extraction (mechanical, on every run), the models of std and serde in verus/prelude.rs and verus/serde/prelude.rs; the contract of "
           "RemotingMessage::parse is assumed here and proved in C07 and C10, that of the boxed primitives by Kani in C15. A search of the real "
           "crate against a reference decoder supplies failing inputs; it discharges nothing.")
for _p in "C11 C13".split():
    PLAN[_p] = dict(level="proof", technique=T_VERUS, level_note=N_SERDE, verus="serde", ms=20000)
PLAN["C15"] = dict(level="proof", technique=T_VERUS + "; boxed primitives by Kani/CBMC", level_note=N_SERDE, verus="serde", kani=BOXED, ms=20000)
