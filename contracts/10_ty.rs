//@mod theory
// Ghost theory: what a GraphQL type is, what a TypeScript type expression means.
use vstd::prelude::*;
use crate::graphql::schema::json;
use crate::graphql::schema::field::{FieldTypeModifier, FieldType, FieldTypeDefinition, ScalarType};
verus! {

/// A type with its nullability written out: `[T!]` is Null(List(Name(T)))
pub enum Ty { Name(Seq<char>), Null(Box<Ty>), List(Box<Ty>) }

pub open spec fn nul(t: Ty) -> Ty { match t { Ty::Null(_) => t, _ => Ty::Null(Box::new(t)) } }
pub open spec fn lst(t: Ty) -> Ty { Ty::List(Box::new(t)) }

pub open spec fn K_NON_NULL() -> Seq<char> { "NON_NULL"@ }
pub open spec fn K_LIST() -> Seq<char> { "LIST"@ }

/// The introspection type reference is complete: every wrapper wraps something, the innermost is
/// a named type of a known kind. This is when it is accepted; anything else is malformed.
pub open spec fn complete(j: json::FieldType) -> bool
    decreases j
{
    if j.kind@ == "NON_NULL"@ || j.kind@ == "LIST"@ { match j.of_type { Some(b) => complete(*b), None => false } }
    else { j.name is Some && known_kind(j.kind@) }
}
pub open spec fn known_kind(k: Seq<char>) -> bool {
    k == "OBJECT"@ || k == "SCALAR"@ || k == "INTERFACE"@ || k == "ENUM"@ || k == "INPUT_OBJECT"@ || k == "UNION"@
}
/// GraphQL has no `T!!`
pub open spec fn no_double_non_null(j: json::FieldType) -> bool
    decreases j
{
    match j.of_type {
        None => true,
        Some(b) => no_double_non_null(*b) && !(j.kind@ == "NON_NULL"@ && b.kind@ == "NON_NULL"@),
    }
}
/// The type that an introspection type reference stands for, leaving its own nullability out
pub open spec fn sem_nn(j: json::FieldType) -> Ty
    decreases j
{
    match j.of_type {
        Some(b) if j.kind@ == "NON_NULL"@ => sem_nn(*b),
        Some(b) if j.kind@ == "LIST"@ => lst(if b.kind@ == "NON_NULL"@ { sem_nn(*b) } else { nul(sem_nn(*b)) }),
        _ => match j.name { Some(n) => Ty::Name(n@), None => Ty::Name(Seq::empty()) },
    }
}
pub open spec fn sem(j: json::FieldType) -> Ty { if j.kind@ == "NON_NULL"@ { sem_nn(j) } else { nul(sem_nn(j)) } }
/// The named type at the end
pub open spec fn named(j: json::FieldType) -> json::FieldType
    decreases j
{
    match j.of_type {
        Some(b) if j.kind@ == "NON_NULL"@ || j.kind@ == "LIST"@ => named(*b),
        _ => j,
    }
}

// ------------------------------------------------------------ what qlc's modifiers stand for
pub open spec fn single(m: FieldTypeModifier, t: Ty) -> Ty {
    match m {
        FieldTypeModifier::None => t,
        FieldTypeModifier::Nullable => nul(t),
        FieldTypeModifier::List => lst(t),
        FieldTypeModifier::NullableList => nul(lst(t)),
        FieldTypeModifier::ListOfNullable => lst(nul(t)),
        FieldTypeModifier::NullableListOfNullable => nul(lst(nul(t))),
    }
}
/// innermost first
pub open spec fn wrap(ms: Seq<FieldTypeModifier>, t: Ty) -> Ty
    decreases ms.len()
{
    if ms.len() == 0 { t } else { single(ms.last(), wrap(ms.drop_last(), t)) }
}
/// outermost first
pub open spec fn ctx(ms: Seq<FieldTypeModifier>, t: Ty) -> Ty
    decreases ms.len()
{
    if ms.len() == 0 { t } else { ctx(ms.drop_last(), single(ms.last(), t)) }
}
pub open spec fn inner_nullable(m: FieldTypeModifier) -> bool {
    m is Nullable || m is ListOfNullable || m is NullableListOfNullable
}
/// `m` around a type that is `ss` where it may be null and `nn` where it may not
pub open spec fn fill(m: FieldTypeModifier, ss: Ty, nn: Ty) -> Ty {
    match m {
        FieldTypeModifier::None => nn,
        FieldTypeModifier::Nullable => ss,
        FieldTypeModifier::List => lst(nn),
        FieldTypeModifier::NullableList => nul(lst(nn)),
        FieldTypeModifier::ListOfNullable => lst(ss),
        FieldTypeModifier::NullableListOfNullable => nul(lst(ss)),
    }
}
pub proof fn lemma_ctx_push(ms: Seq<FieldTypeModifier>, m: FieldTypeModifier, t: Ty)
    ensures ctx(ms.push(m), t) == ctx(ms, single(m, t))
{
    assert(ms.push(m).drop_last() =~= ms);
    assert(ms.push(m).last() == m);
}
pub proof fn lemma_wrap_cons(m: FieldTypeModifier, ms: Seq<FieldTypeModifier>, t: Ty)
    ensures wrap(seq![m] + ms, t) == wrap(ms, single(m, t))
    decreases ms.len()
{
    if ms.len() == 0 {
        assert((seq![m] + ms).drop_last() =~= Seq::<FieldTypeModifier>::empty());
        assert((seq![m] + ms).last() == m);
        assert(wrap(Seq::<FieldTypeModifier>::empty(), t) == t);
    } else {
        assert((seq![m] + ms).drop_last() =~= seq![m] + ms.drop_last());
        assert((seq![m] + ms).last() == ms.last());
        lemma_wrap_cons(m, ms.drop_last(), t);
    }
}
/// the reversed modifiers, innermost first, are the same type
pub proof fn lemma_reverse(ms: Seq<FieldTypeModifier>, t: Ty)
    ensures wrap(ms.reverse(), t) == ctx(ms, t)
    decreases ms.len()
{
    if ms.len() == 0 {
        assert(ms.reverse() =~= Seq::<FieldTypeModifier>::empty());
    } else {
        assert(ms.reverse() =~= seq![ms.last()] + ms.drop_last().reverse());
        lemma_wrap_cons(ms.last(), ms.drop_last().reverse(), t);
        lemma_reverse(ms.drop_last(), single(ms.last(), t));
    }
}
/// the type that a field type of qlc stands for, with `n` for the named type
pub open spec fn den(ft: FieldType, n: Seq<char>) -> Ty {
    wrap(ft.higher_order_modifiers@, single(ft.concrete.modifier, Ty::Name(n)))
}
pub open spec fn scalar_of(name: Seq<char>, s: ScalarType) -> bool {
    match s {
        ScalarType::Boolean => name == "Boolean"@,
        ScalarType::String => name == "String"@,
        ScalarType::Float => name == "Float"@,
        ScalarType::Int => name == "Int"@,
        ScalarType::Id => name == "ID"@,
        ScalarType::Custom(c) => c@ == name && name != "Boolean"@ && name != "String"@ && name != "Float"@ && name != "Int"@ && name != "ID"@,
    }
}
pub open spec fn def_of(j: json::FieldType, d: FieldTypeDefinition) -> bool {
    match d {
        FieldTypeDefinition::Object => j.kind@ == "OBJECT"@,
        FieldTypeDefinition::Interface => j.kind@ == "INTERFACE"@,
        FieldTypeDefinition::Union => j.kind@ == "UNION"@,
        FieldTypeDefinition::Enum => j.kind@ == "ENUM"@,
        FieldTypeDefinition::InputObject => j.kind@ == "INPUT_OBJECT"@,
        FieldTypeDefinition::Scalar(s) => j.kind@ == "SCALAR"@ && j.name is Some && scalar_of(j.name->0@, s),
        FieldTypeDefinition::TypeName => false,
    }
}
/// C01, schema side: a loaded field type is the type that introspection stated
pub open spec fn type_loaded(j: json::FieldType, ft: FieldType) -> bool {
    let n = named(j);
    &&& n.name is Some && ft.concrete.name@ == n.name->0@
    &&& def_of(n, ft.concrete.definition)
    &&& no_double_non_null(j) ==> den(ft, n.name->0@) == sem(j)
    &&& no_double_non_null(j) ==> crate::graphql::schema::field::no_none(ft.higher_order_modifiers@)
}

// ------------------------------------------------------------ TypeScript type expressions
pub enum Ex { Atom(Seq<char>), OrNull(Box<Ex>), Arr(Box<Ex>), Paren(Box<Ex>) }

pub open spec fn ex_text(e: Ex) -> Seq<char>
    decreases e
{
    match e {
        Ex::Atom(s) => s,
        Ex::OrNull(x) => ex_text(*x) + " | null"@,
        Ex::Arr(x) => ex_text(*x) + "[]"@,
        Ex::Paren(x) => "("@ + ex_text(*x) + ")"@,
    }
}
pub open spec fn ex_primary(e: Ex) -> bool { !(e is OrNull) }
/// `T | null[]` is `T | (null[])`: what `[]` follows has to bind tighter than a union
pub open spec fn ex_wf(e: Ex) -> bool
    decreases e
{
    match e {
        Ex::Atom(_) => true,
        Ex::OrNull(x) => ex_wf(*x),
        Ex::Arr(x) => ex_wf(*x) && ex_primary(*x),
        Ex::Paren(x) => ex_wf(*x),
    }
}
pub open spec fn ex_den(e: Ex) -> Ty
    decreases e
{
    match e {
        Ex::Atom(s) => Ty::Name(s),
        Ex::OrNull(x) => nul(ex_den(*x)),
        Ex::Arr(x) => lst(ex_den(*x)),
        Ex::Paren(x) => ex_den(*x),
    }
}
pub open spec fn means_by(text: Seq<char>, t: Ty, e: Ex) -> bool { ex_wf(e) && ex_text(e) == text && ex_den(e) == t }
/// The text is a TypeScript type expression that denotes the type
pub open spec fn means(text: Seq<char>, t: Ty) -> bool { exists|e: Ex| #[trigger] means_by(text, t, e) }
pub open spec fn means_primary(text: Seq<char>, t: Ty) -> bool { exists|e: Ex| #[trigger] means_by(text, t, e) && ex_primary(e) }

pub proof fn lemma_atom(s: Seq<char>)
    ensures means_primary(s, Ty::Name(s))
{
    assert(means_by(s, Ty::Name(s), Ex::Atom(s)));
}
pub proof fn lemma_paren(text: Seq<char>, t: Ty)
    requires means(text, t)
    ensures means_primary("("@ + text + ")"@, t)
{
    let e = choose|e: Ex| #[trigger] means_by(text, t, e);
    assert(means_by("("@ + text + ")"@, t, Ex::Paren(Box::new(e))));
}
pub proof fn lemma_or_null(text: Seq<char>, t: Ty)
    requires means(text, t)
    ensures means(text + " | null"@, nul(t))
{
    let e = choose|e: Ex| #[trigger] means_by(text, t, e);
    assert(means_by(text + " | null"@, nul(t), Ex::OrNull(Box::new(e))));
}
pub proof fn lemma_arr(text: Seq<char>, t: Ty)
    requires means_primary(text, t)
    ensures means_primary(text + "[]"@, lst(t)), means(text + "[]"@, lst(t))
{
    let e = choose|e: Ex| #[trigger] means_by(text, t, e) && ex_primary(e);
    assert(means_by(text + "[]"@, lst(t), Ex::Arr(Box::new(e))));
}
} // verus!
