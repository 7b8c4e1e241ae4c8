@file src/graphql/schema.rs
@mod graphql::schema
@use use crate::cli::PrintableMessage; => pub use crate::cli::PrintableMessage;
@use use std::collections::HashMap; =>
@use use std::fs::File; =>
@use use std::io::{BufReader, Read}; =>
@use use std::path::Path; =>
@header
use crate::vx::*;
use crate::vx::stdx::io::Read;
use crate::theory::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
pub use crate::vx::serde_json;
impl TryFromSpecImpl<json::Type> for Type { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(v: json::Type) -> core::result::Result<Self, Error>; }
@type Error nodebug
@footer
/// C17: the file can be read, is the JSON of an introspection, and complete
pub open spec fn schema_ok(path: Seq<char>) -> bool { open_error(path) is None && json::read_json(path) is Some && types_complete(json::read_json(path)->0.types@) }
pub open spec fn schema_of(path: Seq<char>, s: Schema) -> bool {
    types_loaded(json::read_json(path)->0.types@, s.types@) && forall|k: Seq<char>| #[trigger] s.types@.contains_key(k) ==> own_name(s.types@[k].definition, k)
}
@fn printable_message_error
@tag C17
@spec
    ensures r.level is CompileError, r.source_information is None
@fn parse_schema
@tag C14 C17
@spec
    ensures
        r is Ok <==> schema_ok(path@),
        r is Ok ==> schema_of(path@, r->Ok_0),
        r is Err ==> r->Err_0@.len() == 1 && crate::cli::reported(r->Err_0@[0]),
@closure 0
|$0: IoError| -> (r: Vec<PrintableMessage>) ensures r@.len() == 1, crate::cli::reported(r@[0])
@closure 1
|$0: Error| -> (r: Vec<PrintableMessage>) ensures r@.len() == 1, crate::cli::reported(r@[0])
@footer
/// every field of the type, under its name, and nothing else; of two with one name the last
pub open spec fn fields_loaded(js: Seq<json::Field>, add_typename: bool, m: Map<Seq<char>, field::Field>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> has_field(js, k) || add_typename && k == "__typename"@
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) && has_field(js, k) ==>
            field::field_loaded(last_field(js, k), m[k])
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) && !has_field(js, k) ==> field::is_type_name_field(m[k])
}
pub open spec fn has_field(js: Seq<json::Field>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < js.len() && (#[trigger] js[i]).name@ == k }
pub open spec fn last_field(js: Seq<json::Field>, k: Seq<char>) -> json::Field
    decreases js.len()
{
    if js.len() == 0 { arbitrary() } else if js.last().name@ == k { js.last() } else { last_field(js.drop_last(), k) }
}
pub open spec fn fields_complete(js: Seq<json::Field>) -> bool { forall|i: int| 0 <= i < js.len() ==> complete((#[trigger] js[i]).type_information) }
pub open spec fn names_of(ds: Seq<json::ComplexObjectDescription>, ns: Seq<String>) -> bool {
    ns.len() == ds.len() && forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i])@ == ds[i].name@
}
pub proof fn lemma_fields_step(js: Seq<json::Field>, n: int)
    requires 0 <= n < js.len()
    ensures
        js.take(n + 1).last() == js[n],
        js.take(n + 1).drop_last() == js.take(n),
        forall|k: Seq<char>| #[trigger] has_field(js.take(n + 1), k) <==> has_field(js.take(n), k) || k == js[n].name@,
        forall|k: Seq<char>| #[trigger] last_field(js.take(n + 1), k) == if k == js[n].name@ { js[n] } else { last_field(js.take(n), k) },
{
    assert(js.take(n + 1).drop_last() =~= js.take(n));
    assert forall|k: Seq<char>| #[trigger] has_field(js.take(n + 1), k) <==> has_field(js.take(n), k) || k == js[n].name@ by {
        if has_field(js.take(n), k) {
            let i = choose|i: int| 0 <= i < js.take(n).len() && (#[trigger] js.take(n)[i]).name@ == k;
            assert(js.take(n + 1)[i].name@ == k);
        }
        if k == js[n].name@ { assert(js.take(n + 1)[n].name@ == k); }
        if has_field(js.take(n + 1), k) {
            let i = choose|i: int| 0 <= i < js.take(n + 1).len() && (#[trigger] js.take(n + 1)[i]).name@ == k;
            if i < n { assert(js.take(n)[i].name@ == k); }
        }
    }
}
/// C17: the introspection type has what its kind calls for
pub open spec fn type_complete(j: json::Type) -> bool {
    if j.kind@ == "OBJECT"@ { j.fields is Some && fields_complete(j.fields->0@) }
    else if j.kind@ == "ENUM"@ { j.enum_values is Some }
    else if j.kind@ == "SCALAR"@ { true }
    else if j.kind@ == "INTERFACE"@ { j.fields is Some && j.possible_types is Some && fields_complete(j.fields->0@) }
    else if j.kind@ == "INPUT_OBJECT"@ { j.input_fields is Some && fields_complete(j.input_fields->0@) }
    else if j.kind@ == "UNION"@ { j.possible_types is Some }
    else { false }
}
/// what is loaded for a type of the schema
pub open spec fn definition_loaded(j: json::Type, d: TypeDefinition) -> bool {
    match d {
        TypeDefinition::Object(o) => j.kind@ == "OBJECT"@ && fields_loaded(j.fields->0@, true, o.fields@),
        TypeDefinition::Enum(e) => j.kind@ == "ENUM"@ && names_of(j.enum_values->0@, e.possible_values@),
        TypeDefinition::Scalar(s) => j.kind@ == "SCALAR"@ && s@ == j.name@,
        TypeDefinition::Interface(i) => j.kind@ == "INTERFACE"@ && i.name@ == j.name@ && fields_loaded(j.fields->0@, true, i.fields@) && names_of(j.possible_types->0@, i.possible_types@),
        TypeDefinition::InputObject(i) => j.kind@ == "INPUT_OBJECT"@ && i.name@ == j.name@ && fields_loaded(j.input_fields->0@, false, i.fields@),
        TypeDefinition::Union(u) => j.kind@ == "UNION"@ && u.name@ == j.name@ && fields_loaded(Seq::empty(), true, u.fields@) && names_of(j.possible_types->0@, u.possible_types@),
    }
}
pub open spec fn has_type(js: Seq<json::Type>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < js.len() && (#[trigger] js[i]).name@ == k }
pub open spec fn last_type(js: Seq<json::Type>, k: Seq<char>) -> json::Type
    decreases js.len()
{
    if js.len() == 0 { arbitrary() } else if js.last().name@ == k { js.last() } else { last_type(js.drop_last(), k) }
}
pub open spec fn type_loaded(j: json::Type, t: Type) -> bool { definition_loaded(j, t.definition) && t.documentation == j.description }
/// every type of the schema, under its name, and nothing else
pub open spec fn types_loaded(js: Seq<json::Type>, m: Map<Seq<char>, Type>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> has_type(js, k)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> type_loaded(last_type(js, k), m[k])
}
pub open spec fn types_complete(js: Seq<json::Type>) -> bool { forall|i: int| 0 <= i < js.len() ==> type_complete(#[trigger] js[i]) }
pub proof fn lemma_types_step(js: Seq<json::Type>, n: int)
    requires 0 <= n < js.len()
    ensures
        js.take(n + 1).last() == js[n],
        js.take(n + 1).drop_last() == js.take(n),
        forall|k: Seq<char>| #[trigger] has_type(js.take(n + 1), k) <==> has_type(js.take(n), k) || k == js[n].name@,
        forall|k: Seq<char>| #[trigger] last_type(js.take(n + 1), k) == if k == js[n].name@ { js[n] } else { last_type(js.take(n), k) },
{
    assert(js.take(n + 1).drop_last() =~= js.take(n));
    assert forall|k: Seq<char>| #[trigger] has_type(js.take(n + 1), k) <==> has_type(js.take(n), k) || k == js[n].name@ by {
        if has_type(js.take(n), k) {
            let i = choose|i: int| 0 <= i < js.take(n).len() && (#[trigger] js.take(n)[i]).name@ == k;
            assert(js.take(n + 1)[i].name@ == k);
        }
        if k == js[n].name@ { assert(js.take(n + 1)[n].name@ == k); }
        if has_type(js.take(n + 1), k) {
            let i = choose|i: int| 0 <= i < js.take(n + 1).len() && (#[trigger] js.take(n + 1)[i]).name@ == k;
            if i < n { assert(js.take(n)[i].name@ == k); }
        }
    }
}
/// a type of which there is more than one name is written under the one it is looked up by
pub proof fn lemma_last_type(js: Seq<json::Type>, k: Seq<char>)
    requires has_type(js, k)
    ensures last_type(js, k).name@ == k
    decreases js.len()
{
    let i = choose|i: int| 0 <= i < js.len() && (#[trigger] js[i]).name@ == k;
    if js.last().name@ != k { assert(js.drop_last()[i].name@ == k); lemma_last_type(js.drop_last(), k); }
}
pub open spec fn own_name(d: TypeDefinition, k: Seq<char>) -> bool {
    match d {
        TypeDefinition::InputObject(t) => t.name@ == k,
        TypeDefinition::Interface(t) => t.name@ == k,
        TypeDefinition::Union(t) => t.name@ == k,
        TypeDefinition::Scalar(s) => s@ == k,
        _ => true,
    }
}
@fn Schema::try_from_reader
@tag C17 C03 C09
@spec
    ensures
        r is Ok <==> json::read_json(reader.path()) is Some && types_complete(json::read_json(reader.path())->0.types@), // [C17]
        r is Ok ==> types_loaded(json::read_json(reader.path())->0.types@, r->Ok_0.types@), // [C17]
        r is Ok ==> forall|k: Seq<char>| #[trigger] r->Ok_0.types@.contains_key(k) ==> own_name(r->Ok_0.types@[k].definition, k), // [C03 C09]
@loop 0 it
    invariant
        types_complete(it.seq().take(it.index@)),
        json::read_json(reader.path()) is Some, it.seq() == json::read_json(reader.path())->0.types@,
        types_loaded(it.seq().take(it.index@), types@),
@loopstart 0
    proof { lemma_types_step(it.seq(), it.index@ - 1); assert(it.seq().take(it.index@)[it.index@ - 1] == type_json); }
@tail
    proof {
        let js = json::read_json(reader.path())->0.types@;
        assert(js.take(js.len() as int) =~= js);
        assert forall|k: Seq<char>| #[trigger] types@.contains_key(k) implies own_name(types@[k].definition, k) by { assert(has_type(js, k)); lemma_last_type(js, k); }
    }
@fn TypeDefinition::get_fields_lookup
@tag C07 C05
@spec
    ensures match *self {
        TypeDefinition::Object(o) => r == Some(&o.fields),
        TypeDefinition::InputObject(o) => r == Some(&o.fields),
        TypeDefinition::Interface(o) => r == Some(&o.fields),
        TypeDefinition::Union(o) => r == Some(&o.fields),
        _ => r is None,
    }
@fn get_fields_for_complex
@tag C17 C01 C05 C07
@spec
    ensures
        r is Ok <==> fields_complete(fields_json@),
        r is Ok ==> fields_loaded(fields_json@, add_typename, r->Ok_0@),
@loop 0 it
    invariant
        it.seq() == fields_json@,
        fields_complete(fields_json@.take(it.index@)),
        fields_loaded(fields_json@.take(it.index@), add_typename, fields@),
@loopstart 0
    proof { lemma_fields_step(fields_json@, it.index@ - 1); }
@tail
    proof { assert(fields_json@.take(fields_json@.len() as int) =~= fields_json@); }
@fn flattened_complex_description
@tag C06 C17
@spec
    ensures
        r is Some <==> descriptions is Some,
        r is Some ==> names_of(descriptions->0@, r->0@),
@closure 0
|$0: Vec<json::ComplexObjectDescription>| -> (r: Vec<String>) ensures names_of($0@, r@)
@closure 1
|$0: json::ComplexObjectDescription| -> (r: String) ensures r == $0.name
@fn TypeasTryFrom<json::Type>::try_from
@tag C17 C05 C06 C04
@spec
    ensures
        r is Ok <==> type_complete(json),
        r is Ok ==> definition_loaded(json, r->Ok_0.definition) && r->Ok_0.documentation == json.description,
@fn Schema::get_type_for_name
@tag C07
@spec
    ensures r == (if self.types@.contains_key(name@) { Some(&self.types@[name@]) } else { None }),
