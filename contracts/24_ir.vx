@file src/graphql/ir.rs
@mod graphql::ir
@use use crate::cli::{similar_help_suggestions, PrintableMessage}; => pub use crate::cli::{similar_help_suggestions, PrintableMessage};
@use use graphql_parser::query as parsed_query; => pub use crate::graphql_parser::query as parsed_query;
@use use graphql_parser::Pos; => pub use crate::graphql_parser::Pos;
@use use std::collections::hash_map::Entry; =>
@use use std::collections::{HashMap, HashSet}; =>
@use use std::path::Path; =>
@header
use crate::vx::*;
use crate::sorting::*;
use crate::theory::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
impl FromSpecImpl<Error> for Vec<Error> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Error) -> Self; }
impl<'a> FromSpecImpl<&'a str> for TerminalTraversal<'a> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &'a str) -> Self; }
impl<'a> FromSpecImpl<&'a str> for OperationKind { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &'a str) -> Self; }
impl<'a, 'b> TryFromSpecImpl<(&'a CompileContext<'a, 'b>, &'a str, Pos)> for ComplexTraversal<'a> { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(v: (&'a CompileContext<'a, 'b>, &'a str, Pos)) -> core::result::Result<Self, Error>; }
impl<'a, 'b> FromSpecImpl<(&'a str, &'b Path, Error)> for PrintableMessage { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: (&'a str, &'b Path, Error)) -> Self; }
impl<'a, 'b> FromSpecImpl<(&'a str, &'b Path, Warning)> for PrintableMessage { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: (&'a str, &'b Path, Warning)) -> Self; }
@footer
/// C19: where the error is; the others are about the schema
pub open spec fn place_of(e: Error) -> Option<Pos> {
    match e {
        Error::SelectionSetAsOperationUnsupported(p) => Some(p),
        Error::UnknownFragment(_, p, _) => Some(p),
        Error::CyclicFragment(_, p) => Some(p),
        Error::MissingTypeConditionOnInlineFragment(p) => Some(p),
        Error::SelectionSetOnWrongType(_, p) => Some(p),
        Error::MissingSelectionSetOnType(_, p) => Some(p),
        Error::UnknownField { position, .. } => Some(position),
        Error::Variable(e) => Some(variable::place_of(e)),
        _ => None,
    }
}
pub open spec fn warned_at(w: Warning) -> Pos { match w { Warning::OverFragmentNarrowing { position, .. } => position, Warning::DeprecatedFieldUse { position, .. } => position } }
/// the message for an error in the document, and for a warning
pub open spec fn tells_error(m: PrintableMessage, contents: Seq<char>, path: Seq<char>, e: Error) -> bool {
    crate::cli::reported(m) && match place_of(e) { Some(p) => crate::cli::told_at(m, path, contents, p), None => m.source_information is None }
}
pub open spec fn tells_warning(m: PrintableMessage, contents: Seq<char>, path: Seq<char>, w: Warning) -> bool {
    crate::cli::is_warning(m) && crate::cli::msg_ok(m) && crate::cli::told_at(m, path, contents, warned_at(w))
}
/// C06: the same properties of the same types, in the same order
pub open spec fn same_field(a: Field, b: Field) -> bool
    decreases a
{ a.prop_name@ == b.prop_name@ && a.type_modifiers == b.type_modifiers && same_type(a.type_ir, b.type_ir) }
pub open spec fn same_type(a: FieldType, b: FieldType) -> bool
    decreases a
{
    match a {
        FieldType::TypeName => b is TypeName,
        FieldType::Enum(n) => match b { FieldType::Enum(m) => n@ == m@, _ => false },
        FieldType::Scalar(n) => match b { FieldType::Scalar(m) => n == m, _ => false },
        FieldType::Complex(n) => match b { FieldType::Complex(m) => same_collection(n, m), _ => false },
    }
}
pub open spec fn same_fields(a: Complex, b: Complex) -> bool
    decreases a
{ a.fields.len() == b.fields.len() && forall|i: int| 0 <= i < a.fields.len() ==> same_field(#[trigger] a.fields[i], b.fields[i]) }
pub open spec fn same_collection(a: ComplexCollection, b: ComplexCollection) -> bool
    decreases a
{
    a.possibilities.len() == b.possibilities.len() && forall|i: int| 0 <= i < a.possibilities.len() ==> (#[trigger] a.possibilities[i]).name@ == b.possibilities[i].name@ && same_fields(a.possibilities[i], b.possibilities[i])
}
/// what is the same as one thing is the same as each other
pub proof fn lemma_same_field(a: Field, b: Field, c: Field)
    requires same_field(a, c), same_field(b, c)
    ensures same_field(a, b)
    decreases a
{ lemma_same_type(a.type_ir, b.type_ir, c.type_ir); }
pub proof fn lemma_same_type(a: FieldType, b: FieldType, c: FieldType)
    requires same_type(a, c), same_type(b, c)
    ensures same_type(a, b)
    decreases a
{
    if let FieldType::Complex(x) = a { lemma_same_collection(x, b->Complex_0, c->Complex_0); }
}
pub proof fn lemma_same_fields(a: Complex, b: Complex, c: Complex)
    requires same_fields(a, c), same_fields(b, c)
    ensures same_fields(a, b)
    decreases a
{
    assert forall|i: int| 0 <= i < a.fields.len() implies same_field(#[trigger] a.fields[i], b.fields[i]) by {
        assert(same_field(b.fields[i], c.fields[i]));
        lemma_same_field(a.fields[i], b.fields[i], c.fields[i]);
    }
}
pub proof fn lemma_same_collection(a: ComplexCollection, b: ComplexCollection, c: ComplexCollection)
    requires same_collection(a, c), same_collection(b, c)
    ensures same_collection(a, b)
    decreases a
{
    assert forall|i: int| 0 <= i < a.possibilities.len() implies (#[trigger] a.possibilities[i]).name@ == b.possibilities[i].name@ && same_fields(a.possibilities[i], b.possibilities[i]) by {
        assert(same_fields(b.possibilities[i], c.possibilities[i]));
        lemma_same_fields(a.possibilities[i], b.possibilities[i], c.possibilities[i]);
    }
}
// ---------------------------------------------------------------- what has been selected (C05 C06 C07)
/// a response name together with the name of the type of the field
pub type FK = (Seq<char>, Seq<char>);
/// a field of an object of this type
pub type Step = (Seq<char>, FK);
/// what is known of the field at the end of a path: which it is, and the types of the object it holds
pub ghost struct Info { pub field: schema_field::Field, pub objs: Option<Set<Seq<char>>> }
pub open spec fn u_at(u: UniqueFields<'_>, k: FK, rest: Seq<Step>) -> Option<Info>
    decreases rest.len(), 3int
{ if u.collection@.contains_key(k) { e_at(*u.collection@[k].0, u.collection@[k].1, rest) } else { None } }
pub open spec fn e_at(f: schema_field::Field, t: FieldTraversal<'_>, rest: Seq<Step>) -> Option<Info>
    decreases rest.len(), 2int
{ if rest.len() == 0 { Some(Info { field: f, objs: objs_of(t) }) } else { t_at(t, rest) } }
pub open spec fn t_at(t: FieldTraversal<'_>, p: Seq<Step>) -> Option<Info>
    decreases p.len(), 1int
{ match t { FieldTraversal::Complex(c) => c_at(c, p), _ => None } }
pub open spec fn c_at(c: ComplexTraversal<'_>, p: Seq<Step>) -> Option<Info>
    decreases p.len(), 0int
{ if p.len() == 0 || !c.concrete_objects@.contains_key(p[0].0) { None } else { u_at(c.concrete_objects@[p[0].0], p[0].1, p.drop_first()) } }
pub open spec fn objs_of(t: FieldTraversal<'_>) -> Option<Set<Seq<char>>> {
    match t { FieldTraversal::Complex(c) => Some(c.concrete_objects@.dom()), _ => None }
}
pub open spec fn first(a: Option<Info>, b: Option<Info>) -> Option<Info> { if a is Some { a } else { b } }
pub open spec fn fit(a: Option<Info>, b: Option<Info>) -> bool { a is Some && b is Some ==> a->0.objs == b->0.objs }
/// what both have selected has the same types in both
pub open spec fn fit_u(a: UniqueFields<'_>, b: UniqueFields<'_>) -> bool { forall|k: FK, rest: Seq<Step>| fit(#[trigger] u_at(a, k, rest), #[trigger] u_at(b, k, rest)) }
pub open spec fn fit_c(a: ComplexTraversal<'_>, b: ComplexTraversal<'_>) -> bool { forall|p: Seq<Step>| fit(#[trigger] c_at(a, p), #[trigger] c_at(b, p)) }
pub open spec fn fit_t(a: FieldTraversal<'_>, b: FieldTraversal<'_>) -> bool { objs_of(a) == objs_of(b) && forall|p: Seq<Step>| fit(#[trigger] t_at(a, p), #[trigger] t_at(b, p)) }
pub proof fn lemma_fit_u(a: UniqueFields<'_>, b: UniqueFields<'_>, k: FK)
    requires fit_u(a, b), a.collection@.contains_key(k), b.collection@.contains_key(k)
    ensures fit_t(a.collection@[k].1, b.collection@[k].1)
{
    assert(fit(u_at(a, k, Seq::empty()), u_at(b, k, Seq::empty())));
    assert forall|p: Seq<Step>| fit(#[trigger] t_at(a.collection@[k].1, p), #[trigger] t_at(b.collection@[k].1, p)) by {
        assert(fit(u_at(a, k, p), u_at(b, k, p)));
    }
}
pub proof fn lemma_fit_c(a: ComplexTraversal<'_>, b: ComplexTraversal<'_>, t: Seq<char>)
    requires fit_c(a, b), a.concrete_objects@.contains_key(t), b.concrete_objects@.contains_key(t)
    ensures fit_u(a.concrete_objects@[t], b.concrete_objects@[t])
{
    assert forall|k: FK, rest: Seq<Step>| fit(#[trigger] u_at(a.concrete_objects@[t], k, rest), #[trigger] u_at(b.concrete_objects@[t], k, rest)) by {
        let p = seq![(t, k)] + rest;
        assert(p.drop_first() =~= rest);
        assert(fit(c_at(a, p), c_at(b, p)));
    }
}
pub proof fn lemma_fit_t(a: FieldTraversal<'_>, b: FieldTraversal<'_>)
    ensures a is Complex && b is Complex && fit_t(a, b) ==> fit_c(a->Complex_0, b->Complex_0)
{
    if a is Complex && b is Complex && fit_t(a, b) {
        assert forall|p: Seq<Step>| fit(#[trigger] c_at(a->Complex_0, p), #[trigger] c_at(b->Complex_0, p)) by { assert(fit(t_at(a, p), t_at(b, p))); }
    }
}
/// the key is among the first n
pub open spec fn done<K: Key, V>(s: Seq<(K, V)>, n: int, k: K::KV) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).0.kv() == k }
pub open spec fn done_key<K: Key>(s: Seq<K>, n: int, k: K::KV) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).kv() == k }
pub proof fn lemma_new_key<K: Key, V>(s: Seq<(K, V)>, n: int)
    requires 0 < n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv()
    ensures !done(s, n - 1, s[n - 1].0.kv()), forall|k: K::KV| #[trigger] done(s, n, k) <==> done(s, n - 1, k) || k == s[n - 1].0.kv()
{
    assert forall|k: K::KV| #[trigger] done(s, n, k) <==> done(s, n - 1, k) || k == s[n - 1].0.kv() by {
        if done(s, n - 1, k) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] s[j]).0.kv() == k; assert(s[j].0.kv() == k); }
        if k == s[n - 1].0.kv() { assert(s[n - 1].0.kv() == k); }
    }
}
pub proof fn lemma_new_key_of<K: Key>(s: Seq<K>, n: int)
    requires 0 < n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).kv() != (#[trigger] s[j]).kv()
    ensures !done_key(s, n - 1, s[n - 1].kv()), forall|k: K::KV| #[trigger] done_key(s, n, k) <==> done_key(s, n - 1, k) || k == s[n - 1].kv()
{
    assert forall|k: K::KV| #[trigger] done_key(s, n, k) <==> done_key(s, n - 1, k) || k == s[n - 1].kv() by {
        if done_key(s, n - 1, k) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] s[j]).kv() == k; assert(s[j].kv() == k); }
        if k == s[n - 1].kv() { assert(s[n - 1].kv() == k); }
    }
}
/// all that was selected of the types in question, and one more field
pub open spec fn inserted(old: ComplexTraversal<'_>, now: ComplexTraversal<'_>, k: FK, f: schema_field::Field, t: FieldTraversal<'_>) -> bool {
    &&& now.concrete_objects@.dom() == old.concrete_objects@.dom() && now.type_name == old.type_name && now.fields_lookup == old.fields_lookup
    &&& forall|p: Seq<Step>| p.len() > 0 && old.concrete_objects@.contains_key(p[0].0) ==>
            #[trigger] c_at(now, p) == first(c_at(old, p), if p[0].1 == k { e_at(f, t, p.drop_first()) } else { None })
}
pub open spec fn fits_in(old: ComplexTraversal<'_>, k: FK, t: FieldTraversal<'_>) -> bool {
    forall|n: Seq<char>| #[trigger] old.concrete_objects@.contains_key(n) && old.concrete_objects@[n].collection@.contains_key(k) ==> fit_t(old.concrete_objects@[n].collection@[k].1, t)
}
// ---------------------------------------------------------------- what comes out (C05 C06 C11 C12)
pub type At = spec_fn(Seq<Step>) -> Option<Info>;
pub type AtU = spec_fn(FK, Seq<Step>) -> Option<Info>;
pub open spec fn at_u(u: UniqueFields<'_>) -> AtU { |k: FK, rest: Seq<Step>| u_at(u, k, rest) }
pub open spec fn at_c(c: ComplexTraversal<'_>) -> At { |p: Seq<Step>| c_at(c, p) }
pub open spec fn at_t(t: FieldTraversal<'_>) -> At { |p: Seq<Step>| t_at(t, p) }
pub open spec fn of_type(at: At, t: Seq<char>) -> AtU { |k: FK, rest: Seq<Step>| at(seq![(t, k)] + rest) }
pub open spec fn of_field(at: AtU, k: FK) -> At { |p: Seq<Step>| if p.len() > 0 { at(k, p) } else { None } }
pub open spec fn some_keys(ks: Seq<FK>) -> bool { true }
pub open spec fn fields_sorted(fs: Seq<Field>) -> bool { forall|i: int, j: int| #![trigger fs[i], fs[j]] 0 <= i < j < fs.len() ==> str_le(fs[i].prop_name@, fs[j].prop_name@) }
pub open spec fn objects_sorted(cs: Seq<Complex>) -> bool { forall|i: int, j: int| #![trigger cs[i], cs[j]] 0 <= i < j < cs.len() ==> str_le(cs[i].name@, cs[j].name@) }
pub open spec fn object_names(cs: Seq<Complex>) -> Seq<Seq<char>> { cs.map_values(|c: Complex| c.name@) }
pub open spec fn is_objects(d: schema_field::FieldTypeDefinition) -> bool { d is Object || d is Interface || d is Union }
/// the objects of these types, in order of their names, each with what is selected of it
pub open spec fn coll_is(c: ComplexCollection, objs: Set<Seq<char>>, at: At) -> bool
    decreases c
{
    &&& sorted_names(objs, object_names(c.possibilities@))
    &&& forall|i: int| 0 <= i < c.possibilities.len() ==> fields_are((#[trigger] c.possibilities[i]).fields, of_type(at, c.possibilities[i].name@))
}
pub open spec fn objects_are(cs: Seq<Complex>, objs: Set<Seq<char>>, at: At) -> bool {
    &&& sorted_names(objs, object_names(cs))
    &&& forall|i: int| 0 <= i < cs.len() ==> fields_are((#[trigger] cs[i]).fields, of_type(at, cs[i].name@))
}
pub open spec fn lists(ks: Seq<FK>, at: AtU) -> bool {
    ks.no_duplicates() && forall|k: FK| #[trigger] ks.contains(k) <==> at(k, Seq::empty()) is Some
}
/// one field for each that is selected, in order of the response names
pub open spec fn fields_are(fs: Vec<Field>, at: AtU) -> bool
    decreases fs
{
    fields_sorted(fs@) && exists|ks: Seq<FK>| #[trigger] some_keys(ks) && lists(ks, at) && ks.len() == fs.len() && forall|i: int| #![trigger ks[i]] #![trigger fs[i]] 0 <= i < fs.len() ==> field_is(fs[i], ks[i], at(ks[i], Seq::empty())->0, of_field(at, ks[i]))
}
pub open spec fn field_is(f: Field, k: FK, info: Info, at: At) -> bool
    decreases f
{
    &&& f.prop_name@ == k.0
    &&& f.documentation == info.field.documentation && f.deprecated == info.field.deprecated
    &&& f.type_modifiers.last == info.field.type_description.concrete.modifier && f.type_modifiers.rest@ == info.field.type_description.higher_order_modifiers@
    &&& type_is(f.type_ir, info.field.type_description.concrete, info.objs, at)
}
pub open spec fn type_is(t: FieldType, d: schema_field::ConcreteFieldType, objs: Option<Set<Seq<char>>>, at: At) -> bool
    decreases t
{
    match t {
        FieldType::TypeName => d.definition is TypeName,
        FieldType::Scalar(s) => d.definition == schema_field::FieldTypeDefinition::Scalar(s),
        FieldType::Enum(n) => d.definition is Enum && n@ == d.name@,
        FieldType::Complex(c) => is_objects(d.definition) && objs is Some && coll_is(c, objs->0, at),
    }
}
/// an object has been selected from exactly where there is one
pub open spec fn sound_kind(d: schema_field::ConcreteFieldType, objs: Option<Set<Seq<char>>>) -> bool { !(d.definition is InputObject) && (objs is Some <==> is_objects(d.definition)) }
pub open spec fn sound(i: Option<Info>) -> bool { i is Some ==> sound_kind(i->0.field.type_description.concrete, i->0.objs) }
pub open spec fn sound_u(u: UniqueFields<'_>) -> bool { forall|k: FK, rest: Seq<Step>| sound(#[trigger] u_at(u, k, rest)) }
pub open spec fn sound_c(c: ComplexTraversal<'_>) -> bool { forall|p: Seq<Step>| sound(#[trigger] c_at(c, p)) }
pub open spec fn sound_t(t: FieldTraversal<'_>) -> bool { forall|p: Seq<Step>| sound(#[trigger] t_at(t, p)) }
pub proof fn lemma_sound_u(u: UniqueFields<'_>, k: FK)
    requires sound_u(u), u.collection@.contains_key(k)
    ensures sound_t(u.collection@[k].1), sound_kind(u.collection@[k].0.type_description.concrete, objs_of(u.collection@[k].1))
{
    assert(sound(u_at(u, k, Seq::empty())));
    assert forall|p: Seq<Step>| sound(#[trigger] t_at(u.collection@[k].1, p)) by { assert(sound(u_at(u, k, p))); }
}
pub proof fn lemma_sound_c(c: ComplexTraversal<'_>, t: Seq<char>)
    requires sound_c(c), c.concrete_objects@.contains_key(t)
    ensures sound_u(c.concrete_objects@[t])
{
    assert forall|k: FK, rest: Seq<Step>| sound(#[trigger] u_at(c.concrete_objects@[t], k, rest)) by {
        let p = seq![(t, k)] + rest;
        assert(p.drop_first() =~= rest);
        assert(sound(c_at(c, p)));
    }
}
pub proof fn lemma_sound_t(t: FieldTraversal<'_>)
    ensures t is Complex && sound_t(t) ==> sound_c(t->Complex_0)
{
    if t is Complex && sound_t(t) {
        assert forall|p: Seq<Step>| sound(#[trigger] c_at(t->Complex_0, p)) by { assert(sound(t_at(t, p))); }
    }
}
pub proof fn lemma_fields(from: UniqueFields<'_>, s: Seq<(FieldId<'_>, (&schema_field::Field, FieldTraversal<'_>))>, a: Seq<Field>, v: Vec<Field>)
    requires
        map_items_owned(from.collection@, s), a.len() == s.len(), is_perm(a, v@), fields_sorted(v@),
        forall|i: int| 0 <= i < s.len() ==> field_is(#[trigger] a[i], s[i].0.kv(), Info { field: *s[i].1.0, objs: objs_of(s[i].1.1) }, at_t(s[i].1.1)),
    ensures fields_are(v, at_u(from))
{
    let q = choose|q: Seq<int>| #[trigger] perm_by(a, v@, q);
    let ks = Seq::new(v@.len(), |i: int| s[q[i]].0.kv());
    let at = at_u(from);
    assert forall|k: FK| #[trigger] ks.contains(k) <==> at(k, Seq::empty()) is Some by {
        assert(at(k, Seq::empty()) is Some <==> from.collection@.contains_key(k));
        if from.collection@.contains_key(k) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k;
            assert(q.contains(i));
            let j = choose|j: int| 0 <= j < q.len() && q[j] == i;
            assert(ks[j] == k);
        }
        if ks.contains(k) {
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
            assert(s[q[j]].0.kv() == k);
        }
    }
    assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by {
        let x = s[q[i]]; let y = s[q[j]];
        if i < j { assert(q[i] != q[j]); } else { assert(q[j] != q[i]); }
        if q[i] < q[j] { assert(s[q[i]].0.kv() != s[q[j]].0.kv()); } else { assert(s[q[j]].0.kv() != s[q[i]].0.kv()); }
    }
    assert forall|i: int| #![trigger ks[i]] #![trigger v@[i]] 0 <= i < v@.len() implies field_is(v@[i], ks[i], at(ks[i], Seq::empty())->0, of_field(at, ks[i])) by {
        let e = s[q[i]];
        assert(v@[i] == a[q[i]]);
        assert(from.collection@.contains_key(e.0.kv()) && from.collection@[e.0.kv()] == e.1);
        assert(of_field(at, ks[i]) =~= at_t(e.1.1)) by {
            assert forall|p: Seq<Step>| #[trigger] of_field(at, ks[i])(p) == at_t(e.1.1)(p) by {
                if p.len() > 0 { assert(u_at(from, ks[i], p) == e_at(*e.1.0, e.1.1, p)); assert(e_at(*e.1.0, e.1.1, p) == t_at(e.1.1, p)); }
                else if e.1.1 is Complex { assert(c_at(e.1.1->Complex_0, p) is None); }
            }
        }
        assert(e_at(*e.1.0, e.1.1, Seq::empty()) is Some);
        assert(u_at(from, ks[i], Seq::empty()) == e_at(*e.1.0, e.1.1, Seq::empty()));
    }
    assert(lists(ks, at));
    assert(some_keys(ks));
}
pub open spec fn objects_so_far<'a>(a: Seq<Complex>, s: Seq<(&'a str, UniqueFields<'a>)>, n: int) -> bool { a.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).name@ == s[i].0.kv() && fields_are(a[i].fields, at_u(s[i].1)) }
pub proof fn lemma_objects<'a>(from: ComplexTraversal<'a>, s: Seq<(&'a str, UniqueFields<'a>)>, a: Seq<Complex>, v: Vec<Complex>)
    requires
        map_items_owned(from.concrete_objects@, s), a.len() == s.len(), is_perm(a, v@), objects_sorted(v@),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] a[i]).name@ == s[i].0.kv() && fields_are(a[i].fields, at_u(s[i].1)),
    ensures objects_are(v@, from.concrete_objects@.dom(), at_c(from))
{
    let q = choose|q: Seq<int>| #[trigger] perm_by(a, v@, q);
    let ns = object_names(v@);
    let objs = from.concrete_objects@.dom();
    assert forall|i: int, j: int| #![trigger ns[i], ns[j]] 0 <= i < j < ns.len() implies str_lt(ns[i], ns[j]) by {
        assert(str_le(v@[i].name@, v@[j].name@));
        assert(v@[i] == a[q[i]] && v@[j] == a[q[j]]);
        assert(q[i] != q[j]);
        if q[i] < q[j] { assert(s[q[i]].0.kv() != s[q[j]].0.kv()); } else { assert(s[q[j]].0.kv() != s[q[i]].0.kv()); }
    }
    assert forall|k: Seq<char>| #[trigger] objs.contains(k) <==> ns.contains(k) by {
        if objs.contains(k) {
            assert(from.concrete_objects@.contains_key(k));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k;
            assert(q.contains(i));
            let j = choose|j: int| 0 <= j < q.len() && q[j] == i;
            assert(v@[j] == a[q[j]]);
            assert(ns[j] == k);
        }
        if ns.contains(k) {
            let j = choose|j: int| 0 <= j < ns.len() && ns[j] == k;
            assert(v@[j] == a[q[j]]);
            assert(s[q[j]].0.kv() == k);
            assert(from.concrete_objects@.contains_key(k));
        }
    }
    assert forall|i: int| 0 <= i < v@.len() implies fields_are((#[trigger] v@[i]).fields, of_type(at_c(from), v@[i].name@)) by {
        let e = s[q[i]];
        assert(v@[i] == a[q[i]]);
        assert(from.concrete_objects@.contains_key(e.0.kv()) && from.concrete_objects@[e.0.kv()] == e.1);
        assert(of_type(at_c(from), v@[i].name@) =~= at_u(e.1)) by {
            assert forall|k: FK, rest: Seq<Step>| #[trigger] of_type(at_c(from), v@[i].name@)(k, rest) == at_u(e.1)(k, rest) by {
                let p = seq![(v@[i].name@, k)] + rest;
                assert(p.drop_first() =~= rest);
                assert(c_at(from, p) == u_at(e.1, k, rest));
            }
        }
    }
}
// ---------------------------------------------------------------- the types in question (C05 C06 C07)
pub open spec fn selectable(s: schema::Schema, n: Seq<char>) -> bool {
    s.types@.contains_key(n) && (s.types@[n].definition is Object || s.types@[n].definition is Interface || s.types@[n].definition is Union)
}
pub open spec fn fields_of(s: schema::Schema, n: Seq<char>) -> schema::FieldsLookup {
    match s.types@[n].definition {
        schema::TypeDefinition::Object(o) => o.fields,
        schema::TypeDefinition::Interface(o) => o.fields,
        schema::TypeDefinition::Union(o) => o.fields,
        _ => arbitrary(),
    }
}
/// the object types that a value of the type can have
pub open spec fn possible(s: schema::Schema, n: Seq<char>) -> Set<Seq<char>> {
    match s.types@[n].definition {
        schema::TypeDefinition::Object(o) => Set::empty().insert(n),
        schema::TypeDefinition::Interface(o) => texts(o.possible_types@).to_set(),
        schema::TypeDefinition::Union(o) => texts(o.possible_types@).to_set(),
        _ => Set::empty(),
    }
}
pub proof fn lemma_texts_set(v: Vec<String>)
    ensures forall|k: Seq<char>| #[trigger] texts(v@).to_set().contains(k) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v@[i])@ == k
{
    assert forall|k: Seq<char>| #[trigger] texts(v@).to_set().contains(k) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v@[i])@ == k by {
        let t = texts(v@);
        if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(v@[i]@ == k); }
        if exists|i: int| 0 <= i < v.len() && (#[trigger] v@[i])@ == k { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v@[i])@ == k; assert(t[i] == k); }
    }
}
/// the traversal is of the type
pub open spec fn of(s: schema::Schema, n: Seq<char>, c: ComplexTraversal<'_>) -> bool { selectable(s, n) && c.type_name@ == n && *c.fields_lookup == fields_of(s, n) }
pub open spec fn nothing_in(c: ComplexTraversal<'_>) -> bool { forall|n: Seq<char>| #[trigger] c.concrete_objects@.contains_key(n) ==> c.concrete_objects@[n].collection@ == Map::<FK, (&schema_field::Field, FieldTraversal<'_>)>::empty() }
// ---------------------------------------------------------------- what a document selects (C05 C06 C07)
pub type AstItem<'b> = parsed_query::Selection<'b, ParsedTextType>;
pub type AstField<'b> = parsed_query::Field<'b, ParsedTextType>;
pub type Frags<'b> = Map<Seq<char>, parsed_query::FragmentDefinition<'b, ParsedTextType>>;
pub open spec fn frag_type(f: parsed_query::FragmentDefinition<'_, ParsedTextType>) -> Seq<char> { match f.type_condition { parsed_query::TypeCondition::On(n) => n@ } }
pub open spec fn alias_of(f: AstField<'_>) -> Seq<char> { match f.alias { Some(a) => a@, None => f.name@ } }
pub open spec fn type_of(f: schema_field::Field) -> Seq<char> { f.type_description.concrete.name@ }
/// a type that has to be selected from
pub open spec fn needs_selection(f: schema_field::Field) -> bool { is_objects(f.type_description.concrete.definition) || f.type_description.concrete.definition is InputObject }
/// C07: the selection is one of the type; what a fragment of another file selects is checked with that file
pub open spec fn accepted(s: schema::Schema, frags: Frags<'_>, set: parsed_query::SelectionSet<'_, ParsedTextType>, n: Seq<char>, local: bool) -> bool
    decreases set
{ forall|i: int| 0 <= i < set.items.len() ==> item_accepted(s, frags, #[trigger] set.items[i], n, local) }
pub open spec fn item_accepted(s: schema::Schema, frags: Frags<'_>, item: AstItem<'_>, n: Seq<char>, local: bool) -> bool
    decreases item
{
    match item {
        parsed_query::Selection::Field(f) => field_accepted(s, frags, f, n, local),
        parsed_query::Selection::InlineFragment(f) => match f.type_condition {
            Some(parsed_query::TypeCondition::On(u)) => local ==> selectable(s, u@) && accepted(s, frags, f.selection_set, u@, local),
            None => false,
        },
        parsed_query::Selection::FragmentSpread(f) => frags.contains_key(f.fragment_name@),
    }
}
pub open spec fn field_accepted(s: schema::Schema, frags: Frags<'_>, f: AstField<'_>, n: Seq<char>, local: bool) -> bool
    decreases f
{
    let d = fields_of(s, n)@[f.name@];
    &&& fields_of(s, n)@.contains_key(f.name@)
    &&& (needs_selection(d) <==> f.selection_set.items.len() > 0)
    &&& needs_selection(d) ==> selectable(s, type_of(d)) && accepted(s, frags, f.selection_set, type_of(d), local)
}
/// the selection is one of the type, in all its fragments, which are nested at most `depth` deep
pub open spec fn valid(s: schema::Schema, frags: Frags<'_>, items: Seq<AstItem<'_>>, n: Seq<char>, depth: nat) -> bool
    decreases depth, 2int
{ forall|i: int| 0 <= i < items.len() ==> item_valid(s, frags, #[trigger] items[i], n, depth) }
pub open spec fn item_valid(s: schema::Schema, frags: Frags<'_>, item: AstItem<'_>, n: Seq<char>, depth: nat) -> bool
    decreases depth, 1int
{
    match item {
        parsed_query::Selection::Field(f) => field_valid(s, frags, f, n, depth),
        parsed_query::Selection::InlineFragment(f) => match f.type_condition {
            Some(parsed_query::TypeCondition::On(u)) => selectable(s, u@) && depth > 0 && valid(s, frags, f.selection_set.items@, u@, (depth - 1) as nat),
            None => false,
        },
        parsed_query::Selection::FragmentSpread(f) => frags.contains_key(f.fragment_name@) && selectable(s, frag_type(frags[f.fragment_name@]))
            && depth > 0 && valid(s, frags, frags[f.fragment_name@].selection_set.items@, frag_type(frags[f.fragment_name@]), (depth - 1) as nat),
    }
}
pub open spec fn field_valid(s: schema::Schema, frags: Frags<'_>, f: AstField<'_>, n: Seq<char>, depth: nat) -> bool
    decreases depth, 0int
{
    let d = fields_of(s, n)@[f.name@];
    &&& fields_of(s, n)@.contains_key(f.name@)
    &&& (needs_selection(d) <==> f.selection_set.items.len() > 0)
    &&& needs_selection(d) ==> selectable(s, type_of(d)) && depth > 0 && valid(s, frags, f.selection_set.items@, type_of(d), (depth - 1) as nat)
}
/// C05: what the items select at the path; of fields with one response name the first counts
pub open spec fn selected(s: schema::Schema, frags: Frags<'_>, items: Seq<AstItem<'_>>, n: Seq<char>, p: Seq<Step>, depth: nat) -> Option<Info>
    decreases depth, items.len() + 1
{ if items.len() == 0 { None } else { first(selected(s, frags, items.drop_last(), n, p, depth), item_selected(s, frags, items.last(), n, p, depth)) } }
pub open spec fn item_selected(s: schema::Schema, frags: Frags<'_>, item: AstItem<'_>, n: Seq<char>, p: Seq<Step>, depth: nat) -> Option<Info>
    decreases depth, 1int
{
    match item {
        parsed_query::Selection::Field(f) => field_selected(s, frags, f, n, p, depth),
        parsed_query::Selection::InlineFragment(f) => match f.type_condition {
            Some(parsed_query::TypeCondition::On(u)) => if depth > 0 && possible(s, u@).contains(p[0].0) { selected(s, frags, f.selection_set.items@, u@, p, (depth - 1) as nat) } else { None },
            None => None,
        },
        parsed_query::Selection::FragmentSpread(f) => if frags.contains_key(f.fragment_name@) && depth > 0 && possible(s, frag_type(frags[f.fragment_name@])).contains(p[0].0) {
            selected(s, frags, frags[f.fragment_name@].selection_set.items@, frag_type(frags[f.fragment_name@]), p, (depth - 1) as nat)
        } else { None },
    }
}
pub open spec fn field_selected(s: schema::Schema, frags: Frags<'_>, f: AstField<'_>, n: Seq<char>, p: Seq<Step>, depth: nat) -> Option<Info>
    decreases depth, 0int
{
    let d = fields_of(s, n)@[f.name@];
    if p[0].1 != (alias_of(f), type_of(d)) { None }
    else if p.len() == 1 { Some(Info { field: d, objs: if needs_selection(d) { Some(possible(s, type_of(d))) } else { None } }) }
    else if needs_selection(d) && depth > 0 && possible(s, type_of(d)).contains(p[1].0) { selected(s, frags, f.selection_set.items@, type_of(d), p.drop_first(), (depth - 1) as nat) }
    else { None }
}
pub proof fn lemma_valid(s: schema::Schema, frags: Frags<'_>, set: parsed_query::SelectionSet<'_, ParsedTextType>, n: Seq<char>, depth: nat, local: bool)
    requires valid(s, frags, set.items@, n, depth)
    ensures accepted(s, frags, set, n, local)
    decreases set
{
    assert forall|i: int| 0 <= i < set.items.len() implies item_accepted(s, frags, #[trigger] set.items[i], n, local) by { assert(item_valid(s, frags, set.items@[i], n, depth)); lemma_item_valid(s, frags, set.items[i], n, depth, local); }
}
pub proof fn lemma_item_valid(s: schema::Schema, frags: Frags<'_>, item: AstItem<'_>, n: Seq<char>, depth: nat, local: bool)
    requires item_valid(s, frags, item, n, depth)
    ensures item_accepted(s, frags, item, n, local)
    decreases item
{
    match item {
        parsed_query::Selection::Field(f) => { lemma_field_valid(s, frags, f, n, depth, local); }
        parsed_query::Selection::InlineFragment(f) => { lemma_valid(s, frags, f.selection_set, (f.type_condition->0)->On_0@, (depth - 1) as nat, local); }
        parsed_query::Selection::FragmentSpread(f) => {}
    }
}
pub proof fn lemma_field_valid(s: schema::Schema, frags: Frags<'_>, f: AstField<'_>, n: Seq<char>, depth: nat, local: bool)
    requires field_valid(s, frags, f, n, depth)
    ensures field_accepted(s, frags, f, n, local)
    decreases f
{
    let d = fields_of(s, n)@[f.name@];
    if needs_selection(d) { lemma_valid(s, frags, f.selection_set, type_of(d), (depth - 1) as nat, local); }
}
/// the schema says of each field that it is an object where its type is one
pub open spec fn kinds_agree(s: schema::Schema) -> bool {
    forall|n: Seq<char>, f: Seq<char>| selectable(s, n) && #[trigger] fields_of(s, n)@.contains_key(f) ==> kind_agrees(s, fields_of(s, n)@[f])
}
pub open spec fn kind_agrees(s: schema::Schema, f: schema_field::Field) -> bool { is_objects(f.type_description.concrete.definition) || !selectable(s, type_of(f)) }
/// what is known of a field follows from the name of its type
pub open spec fn known_as(s: schema::Schema, i: Option<Info>, n: Seq<char>) -> bool {
    i is Some ==> type_of(i->0.field) == n && i->0.objs == (if selectable(s, n) { Some(possible(s, n)) } else { None }) && sound(i)
}
pub open spec fn wf_c(s: schema::Schema, c: ComplexTraversal<'_>) -> bool { forall|p: Seq<Step>| p.len() > 0 ==> known_as(s, #[trigger] c_at(c, p), p.last().1.1) }
pub open spec fn wf_t(s: schema::Schema, t: FieldTraversal<'_>, n: Seq<char>) -> bool {
    objs_of(t) == (if selectable(s, n) { Some(possible(s, n)) } else { None }) && forall|p: Seq<Step>| p.len() > 0 ==> known_as(s, #[trigger] t_at(t, p), p.last().1.1)
}
pub proof fn lemma_nothing(s: schema::Schema, c: ComplexTraversal<'_>)
    requires nothing_in(c)
    ensures wf_c(s, c), forall|p: Seq<Step>| #[trigger] c_at(c, p) is None
{
    assert forall|p: Seq<Step>| #[trigger] c_at(c, p) is None by {
        if p.len() > 0 && c.concrete_objects@.contains_key(p[0].0) { assert(u_at(c.concrete_objects@[p[0].0], p[0].1, p.drop_first()) is None); }
    }
}
pub proof fn lemma_wf_fit(s: schema::Schema, a: ComplexTraversal<'_>, b: ComplexTraversal<'_>)
    requires wf_c(s, a), wf_c(s, b)
    ensures fit_c(a, b)
{
    assert forall|p: Seq<Step>| fit(#[trigger] c_at(a, p), #[trigger] c_at(b, p)) by {
        if p.len() > 0 { assert(known_as(s, c_at(a, p), p.last().1.1)); assert(known_as(s, c_at(b, p), p.last().1.1)); }
    }
}
pub proof fn lemma_wf_fits_in(s: schema::Schema, c: ComplexTraversal<'_>, k: FK, t: FieldTraversal<'_>)
    requires wf_c(s, c), wf_t(s, t, k.1)
    ensures fits_in(c, k, t)
{
    assert forall|n: Seq<char>| #[trigger] c.concrete_objects@.contains_key(n) && c.concrete_objects@[n].collection@.contains_key(k) implies fit_t(c.concrete_objects@[n].collection@[k].1, t) by {
        let e = c.concrete_objects@[n].collection@[k];
        let q = seq![(n, k)];
        assert(q.drop_first() =~= Seq::<Step>::empty());
        assert(known_as(s, c_at(c, q), k.1));
        assert(c_at(c, q) == u_at(c.concrete_objects@[n], k, Seq::empty()));
        assert(u_at(c.concrete_objects@[n], k, Seq::empty()) == e_at(*e.0, e.1, Seq::empty()));
        assert(e_at(*e.0, e.1, Seq::empty())->0.objs == objs_of(e.1));
        assert forall|p: Seq<Step>| fit(#[trigger] t_at(e.1, p), #[trigger] t_at(t, p)) by {
            if p.len() > 0 {
                let q = seq![(n, k)] + p;
                assert(q.drop_first() =~= p);
                assert(q.last() == p.last());
                assert(known_as(s, c_at(c, q), p.last().1.1));
                assert(c_at(c, q) == u_at(c.concrete_objects@[n], k, p));
                assert(u_at(c.concrete_objects@[n], k, p) == e_at(*e.0, e.1, p));
                assert(e_at(*e.0, e.1, p) == t_at(e.1, p));
                assert(known_as(s, t_at(t, p), p.last().1.1));
            } else if e.1 is Complex { assert(c_at(e.1->Complex_0, p) is None); }
        }
    }
}
pub proof fn lemma_wf_inserted(s: schema::Schema, old: ComplexTraversal<'_>, now: ComplexTraversal<'_>, k: FK, f: schema_field::Field, t: FieldTraversal<'_>)
    requires wf_c(s, old), inserted(old, now, k, f, t), wf_t(s, t, k.1), type_of(f) == k.1, sound_kind(f.type_description.concrete, objs_of(t))
    ensures wf_c(s, now)
{
    assert forall|p: Seq<Step>| p.len() > 0 implies known_as(s, #[trigger] c_at(now, p), p.last().1.1) by {
        assert(old.concrete_objects@.contains_key(p[0].0) == old.concrete_objects@.dom().contains(p[0].0));
        assert(now.concrete_objects@.contains_key(p[0].0) == now.concrete_objects@.dom().contains(p[0].0));
        assert(known_as(s, c_at(old, p), p.last().1.1));
        let rest = p.drop_first();
        if rest.len() > 0 {
            assert(rest.last() == p.last());
            assert(e_at(f, t, rest) == t_at(t, rest));
            assert(known_as(s, t_at(t, rest), rest.last().1.1));
        } else {
            assert(e_at(f, t, rest) == Some(Info { field: f, objs: objs_of(t) }));
        }
    }
}
/// the same types of objects
pub open spec fn same_head(a: ComplexTraversal<'_>, b: ComplexTraversal<'_>) -> bool { a.type_name == b.type_name && a.fields_lookup == b.fields_lookup && a.concrete_objects@.dom() == b.concrete_objects@.dom() }
/// what was selected before, and what the items select
pub open spec fn grown(s: schema::Schema, frags: Frags<'_>, old: ComplexTraversal<'_>, now: ComplexTraversal<'_>, items: Seq<AstItem<'_>>, n: Seq<char>, depth: nat) -> bool {
    forall|p: Seq<Step>| p.len() > 0 && old.concrete_objects@.contains_key(p[0].0) ==> #[trigger] c_at(now, p) == first(c_at(old, p), selected(s, frags, items, n, p, depth))
}
pub open spec fn grown_by(s: schema::Schema, frags: Frags<'_>, old: ComplexTraversal<'_>, now: ComplexTraversal<'_>, f: AstField<'_>, n: Seq<char>, depth: nat) -> bool {
    forall|p: Seq<Step>| p.len() > 0 && old.concrete_objects@.contains_key(p[0].0) ==> #[trigger] c_at(now, p) == first(c_at(old, p), field_selected(s, frags, f, n, p, depth))
}
pub proof fn lemma_grown_step(s: schema::Schema, frags: Frags<'_>, old: ComplexTraversal<'_>, before: ComplexTraversal<'_>, now: ComplexTraversal<'_>, items: Seq<AstItem<'_>>, i: int, n: Seq<char>, depth: nat)
    requires
        0 <= i < items.len(), grown(s, frags, old, before, items.take(i), n, depth), same_head(old, before),
        forall|p: Seq<Step>| p.len() > 0 && old.concrete_objects@.contains_key(p[0].0) ==> #[trigger] c_at(now, p) == first(c_at(before, p), item_selected(s, frags, items[i], n, p, depth)),
    ensures grown(s, frags, old, now, items.take(i + 1), n, depth)
{
    assert(items.take(i + 1).drop_last() =~= items.take(i));
    assert forall|p: Seq<Step>| p.len() > 0 && old.concrete_objects@.contains_key(p[0].0) implies #[trigger] c_at(now, p) == first(c_at(old, p), selected(s, frags, items.take(i + 1), n, p, depth)) by {
        assert(c_at(before, p) == first(c_at(old, p), selected(s, frags, items.take(i), n, p, depth)));
    }
}
pub proof fn lemma_grown_terminal(s: schema::Schema, frags: Frags<'_>, old: ComplexTraversal<'_>, now: ComplexTraversal<'_>, f: AstField<'_>, n: Seq<char>, depth: nat, t: FieldTraversal<'_>)
    requires ({ let d = fields_of(s, n)@[f.name@]; inserted(old, now, (alias_of(f), type_of(d)), d, t) && !needs_selection(d) }), t is Terminal
    ensures grown_by(s, frags, old, now, f, n, depth)
{
    let d = fields_of(s, n)@[f.name@];
    assert forall|p: Seq<Step>| p.len() > 0 && old.concrete_objects@.contains_key(p[0].0) implies #[trigger] c_at(now, p) == first(c_at(old, p), field_selected(s, frags, f, n, p, depth)) by {
        assert(e_at(d, t, p.drop_first()) == if p.len() == 1 { Some(Info { field: d, objs: None }) } else { None });
    }
}
pub proof fn lemma_grown_complex(s: schema::Schema, frags: Frags<'_>, old: ComplexTraversal<'_>, now: ComplexTraversal<'_>, f: AstField<'_>, n: Seq<char>, depth: nat, before: ComplexTraversal<'_>, sub: ComplexTraversal<'_>)
    requires
        ({ let d = fields_of(s, n)@[f.name@];
           inserted(old, now, (alias_of(f), type_of(d)), d, FieldTraversal::Complex(sub)) && needs_selection(d)
           && before.concrete_objects@.dom() == possible(s, type_of(d))
           && depth > 0 && grown(s, frags, before, sub, f.selection_set.items@, type_of(d), (depth - 1) as nat) }),
        nothing_in(before), same_head(before, sub),
    ensures grown_by(s, frags, old, now, f, n, depth)
{
    let d = fields_of(s, n)@[f.name@];
    let t = FieldTraversal::Complex(sub);
    assert forall|p: Seq<Step>| p.len() > 0 && old.concrete_objects@.contains_key(p[0].0) implies #[trigger] c_at(now, p) == first(c_at(old, p), field_selected(s, frags, f, n, p, depth)) by {
        let rest = p.drop_first();
        if rest.len() > 0 {
            assert(e_at(d, t, rest) == t_at(t, rest));
            assert(t_at(t, rest) == c_at(sub, rest));
            assert(rest[0] == p[1]);
            assert(before.concrete_objects@.contains_key(rest[0].0) == before.concrete_objects@.dom().contains(rest[0].0));
            assert(sub.concrete_objects@.contains_key(rest[0].0) == sub.concrete_objects@.dom().contains(rest[0].0));
            lemma_nothing(s, before);
        } else {
            assert(e_at(d, t, rest) == Some(Info { field: d, objs: Some(sub.concrete_objects@.dom()) }));
        }
    }
}
/// what a fragment selects is selected of those objects its type may be
pub proof fn lemma_spread(s: schema::Schema, frags: Frags<'_>, before: ComplexTraversal<'_>, base: ComplexTraversal<'_>, sub: ComplexTraversal<'_>, now: ComplexTraversal<'_>, body: Seq<AstItem<'_>>, u: Seq<char>, depth: nat)
    requires
        base.concrete_objects@.dom() == possible(s, u).intersect(before.concrete_objects@.dom()), nothing_in(base), same_head(base, sub),
        grown(s, frags, base, sub, body, u, depth), extended(before, sub, now),
    ensures
        forall|p: Seq<Step>| p.len() > 0 && before.concrete_objects@.contains_key(p[0].0) ==> #[trigger] c_at(now, p) == first(c_at(before, p), if possible(s, u).contains(p[0].0) { selected(s, frags, body, u, p, depth) } else { None }),
{
    lemma_nothing(s, base);
    assert forall|p: Seq<Step>| p.len() > 0 && before.concrete_objects@.contains_key(p[0].0) implies #[trigger] c_at(now, p) == first(c_at(before, p), if possible(s, u).contains(p[0].0) { selected(s, frags, body, u, p, depth) } else { None }) by {
        assert(before.concrete_objects@.contains_key(p[0].0) == before.concrete_objects@.dom().contains(p[0].0));
        assert(base.concrete_objects@.contains_key(p[0].0) == base.concrete_objects@.dom().contains(p[0].0));
        assert(sub.concrete_objects@.contains_key(p[0].0) == sub.concrete_objects@.dom().contains(p[0].0));
        assert(c_at(base, p) is None);
    }
}
pub open spec fn extended(before: ComplexTraversal<'_>, sub: ComplexTraversal<'_>, now: ComplexTraversal<'_>) -> bool {
    now.concrete_objects@.dom() == before.concrete_objects@.dom()
    && forall|p: Seq<Step>| p.len() > 0 && before.concrete_objects@.contains_key(p[0].0) ==> #[trigger] c_at(now, p) == first(c_at(before, p), c_at(sub, p))
}
pub proof fn lemma_wf_extended(s: schema::Schema, before: ComplexTraversal<'_>, sub: ComplexTraversal<'_>, now: ComplexTraversal<'_>)
    requires wf_c(s, before), wf_c(s, sub), extended(before, sub, now)
    ensures wf_c(s, now)
{
    assert forall|p: Seq<Step>| p.len() > 0 implies known_as(s, #[trigger] c_at(now, p), p.last().1.1) by {
        assert(before.concrete_objects@.contains_key(p[0].0) == before.concrete_objects@.dom().contains(p[0].0));
        assert(now.concrete_objects@.contains_key(p[0].0) == now.concrete_objects@.dom().contains(p[0].0));
        assert(known_as(s, c_at(before, p), p.last().1.1));
        assert(known_as(s, c_at(sub, p), p.last().1.1));
    }
}
/// a fragment: its type and its selection
pub open spec fn spread_of<'b>(frags: Frags<'b>, item: AstItem<'b>) -> Option<(Seq<char>, parsed_query::SelectionSet<'b, ParsedTextType>)> {
    match item {
        parsed_query::Selection::Field(f) => None,
        parsed_query::Selection::InlineFragment(f) => match f.type_condition { Some(parsed_query::TypeCondition::On(u)) => Some((u@, f.selection_set)), None => None },
        parsed_query::Selection::FragmentSpread(f) => if frags.contains_key(f.fragment_name@) { Some((frag_type(frags[f.fragment_name@]), frags[f.fragment_name@].selection_set)) } else { None },
    }
}
pub proof fn lemma_spread_of(s: schema::Schema, frags: Frags<'_>, item: AstItem<'_>, n: Seq<char>)
    requires spread_of(frags, item) is Some
    ensures
        forall|depth: nat| #[trigger] item_valid(s, frags, item, n, depth) ==> selectable(s, (spread_of(frags, item)->0).0) && depth > 0 && valid(s, frags, (spread_of(frags, item)->0).1.items@, (spread_of(frags, item)->0).0, (depth - 1) as nat),
        forall|p: Seq<Step>, depth: nat| #[trigger] item_selected(s, frags, item, n, p, depth) == if depth > 0 && possible(s, (spread_of(frags, item)->0).0).contains(p[0].0) { selected(s, frags, (spread_of(frags, item)->0).1.items@, (spread_of(frags, item)->0).0, p, (depth - 1) as nat) } else { None },
        !(item is FragmentSpread) ==> item_accepted(s, frags, item, n, true) == (selectable(s, (spread_of(frags, item)->0).0) && accepted(s, frags, (spread_of(frags, item)->0).1, (spread_of(frags, item)->0).0, true)),
        !(item is FragmentSpread) ==> item_accepted(s, frags, item, n, false),
        item is FragmentSpread ==> item_accepted(s, frags, item, n, true) && item_accepted(s, frags, item, n, false),
{}
pub open spec fn well(s: schema::Schema, c: ComplexTraversal<'_>) -> bool { kinds_agree(s) && of(s, c.type_name@, c) && wf_c(s, c) }
// ---------------------------------------------------------------- fragments that spread themselves
/// the references are to the items, one by one
#[verifier::opaque]
pub open spec fn refer<'x, 'b>(r: Seq<&'x AstItem<'b>>, items: Seq<AstItem<'b>>) -> bool { r.len() == items.len() && forall|i: int| 0 <= i < items.len() ==> *(#[trigger] r[i]) == items[i] }
pub proof fn lemma_refer<'x, 'b>(r: Seq<&'x AstItem<'b>>, items: Seq<AstItem<'b>>, i: int)
    requires refer(r, items)
    ensures r.len() == items.len(), 0 <= i < items.len() ==> *r[i] == items[i]
{ reveal(refer); }
/// the selection and the fragments in it are nested at most `depth` deep
pub open spec fn unfolds(frags: Frags<'_>, items: Seq<AstItem<'_>>, depth: nat) -> bool
    decreases depth, 1int
{ forall|i: int| 0 <= i < items.len() ==> item_unfolds(frags, #[trigger] items[i], depth) }
pub open spec fn item_unfolds(frags: Frags<'_>, item: AstItem<'_>, depth: nat) -> bool
    decreases depth, 0int
{
    match item {
        parsed_query::Selection::Field(f) => depth > 0 && unfolds(frags, f.selection_set.items@, (depth - 1) as nat),
        parsed_query::Selection::InlineFragment(f) => depth > 0 && unfolds(frags, f.selection_set.items@, (depth - 1) as nat),
        parsed_query::Selection::FragmentSpread(f) => frags.contains_key(f.fragment_name@) ==> depth > 0 && unfolds(frags, frags[f.fragment_name@].selection_set.items@, (depth - 1) as nat),
    }
}
/// no fragment in the selection spreads itself, directly or through others
#[verifier::opaque]
pub open spec fn unfolded(frags: Frags<'_>, items: Seq<AstItem<'_>>) -> bool { exists|depth: nat| unfolds(frags, items, depth) }
pub open spec fn body_of<'b>(frags: Frags<'b>, n: Seq<char>) -> Seq<AstItem<'b>> { frags[n].selection_set.items@ }
/// where the one is that deep, the other is not deeper
#[verifier::opaque]
pub open spec fn leads_to(frags: Frags<'_>, a: Seq<AstItem<'_>>, b: Seq<AstItem<'_>>) -> bool {
    forall|d: nat| #[trigger] unfolds(frags, a, d) ==> exists|e: nat| e <= d && #[trigger] unfolds(frags, b, e)
}
#[verifier::opaque]
pub open spec fn parents_lead_to(frags: Frags<'_>, parents: Seq<&str>, items: Seq<AstItem<'_>>) -> bool {
    &&& forall|i: int| 0 <= i < parents.len() ==> frags.contains_key((#[trigger] parents[i])@) && leads_to(frags, body_of(frags, parents[i]@), items)
    &&& forall|i: int, j: int| #![trigger parents[i], parents[j]] 0 <= i < j < parents.len() ==> parents[i]@ != parents[j]@
}
#[verifier::opaque]
pub open spec fn all_unfolded(frags: Frags<'_>, names: Set<Seq<char>>) -> bool { forall|n: Seq<char>| #[trigger] names.contains(n) ==> unfolded(frags, body_of(frags, n)) }
pub proof fn lemma_unfolds_more(frags: Frags<'_>, items: Seq<AstItem<'_>>, d: nat, e: nat)
    requires unfolds(frags, items, d), d <= e
    ensures unfolds(frags, items, e)
    decreases d
{
    assert forall|i: int| 0 <= i < items.len() implies item_unfolds(frags, #[trigger] items[i], e) by {
        assert(item_unfolds(frags, items[i], d));
        match items[i] {
            parsed_query::Selection::Field(f) => lemma_unfolds_more(frags, f.selection_set.items@, (d - 1) as nat, (e - 1) as nat),
            parsed_query::Selection::InlineFragment(f) => lemma_unfolds_more(frags, f.selection_set.items@, (d - 1) as nat, (e - 1) as nat),
            parsed_query::Selection::FragmentSpread(f) => if frags.contains_key(f.fragment_name@) { lemma_unfolds_more(frags, body_of(frags, f.fragment_name@), (d - 1) as nat, (e - 1) as nat) },
        }
    }
}
/// what is nested in an item
pub open spec fn nested<'b>(frags: Frags<'b>, item: AstItem<'b>) -> Seq<AstItem<'b>> {
    match item {
        parsed_query::Selection::Field(f) => f.selection_set.items@,
        parsed_query::Selection::InlineFragment(f) => f.selection_set.items@,
        parsed_query::Selection::FragmentSpread(f) => if frags.contains_key(f.fragment_name@) { body_of(frags, f.fragment_name@) } else { Seq::empty() },
    }
}
pub proof fn lemma_nested(frags: Frags<'_>, items: Seq<AstItem<'_>>, i: int)
    requires 0 <= i < items.len()
    ensures
        forall|d: nat| #[trigger] unfolds(frags, items, d) ==> unfolds(frags, nested(frags, items[i]), if d > 0 { (d - 1) as nat } else { 0 }) && (d > 0 || items[i] is FragmentSpread && !frags.contains_key(items[i]->FragmentSpread_0.fragment_name@)),
        unfolded(frags, items.take(i)) && unfolded(frags, nested(frags, items[i])) ==> unfolded(frags, items.take(i + 1)),
        unfolded(frags, items) ==> unfolded(frags, nested(frags, items[i])),
        leads_to(frags, items, nested(frags, items[i])),
{
    reveal(unfolded); reveal(leads_to);
    assert forall|d: nat| #[trigger] unfolds(frags, items, d) implies unfolds(frags, nested(frags, items[i]), if d > 0 { (d - 1) as nat } else { 0 }) && (d > 0 || items[i] is FragmentSpread && !frags.contains_key(items[i]->FragmentSpread_0.fragment_name@)) by {
        assert(item_unfolds(frags, items[i], d));
    }
    if unfolded(frags, items.take(i)) && unfolded(frags, nested(frags, items[i])) {
        let a = choose|d: nat| unfolds(frags, items.take(i), d);
        let b = choose|d: nat| unfolds(frags, nested(frags, items[i]), d);
        let m: nat = if a <= b { (b + 1) as nat } else { (a + 1) as nat };
        lemma_unfolds_more(frags, items.take(i), a, m);
        lemma_unfolds_more(frags, nested(frags, items[i]), b, (m - 1) as nat);
        assert forall|j: int| 0 <= j < items.take(i + 1).len() implies item_unfolds(frags, #[trigger] items.take(i + 1)[j], m) by {
            if j < i { assert(item_unfolds(frags, items.take(i)[j], m)); } else { assert(item_unfolds(frags, items[i], m)); }
        }
        assert(unfolds(frags, items.take(i + 1), m));
    }
}
pub proof fn lemma_leads(frags: Frags<'_>, a: Seq<AstItem<'_>>, b: Seq<AstItem<'_>>, c: Seq<AstItem<'_>>)
    requires leads_to(frags, a, b), leads_to(frags, b, c)
    ensures leads_to(frags, a, c), unfolded(frags, a) ==> unfolded(frags, b)
{
    reveal(leads_to); reveal(unfolded);
    assert forall|d: nat| #[trigger] unfolds(frags, a, d) implies exists|e: nat| e <= d && #[trigger] unfolds(frags, c, e) by {
        let e = choose|e: nat| e <= d && #[trigger] unfolds(frags, b, e);
        let g = choose|g: nat| g <= e && #[trigger] unfolds(frags, c, g);
        assert(g <= d && unfolds(frags, c, g));
    }
    if unfolded(frags, a) {
        let d = choose|d: nat| unfolds(frags, a, d);
        let e = choose|e: nat| e <= d && #[trigger] unfolds(frags, b, e);
        assert(unfolds(frags, b, e));
    }
}
/// a fragment that leads to a spread of itself has no depth
pub proof fn lemma_cycle(frags: Frags<'_>, items: Seq<AstItem<'_>>, i: int, d: nat)
    requires
        0 <= i < items.len(), items[i] is FragmentSpread, frags.contains_key(items[i]->FragmentSpread_0.fragment_name@),
        leads_to(frags, body_of(frags, items[i]->FragmentSpread_0.fragment_name@), items),
    ensures !unfolds(frags, body_of(frags, items[i]->FragmentSpread_0.fragment_name@), d), !unfolds(frags, items, d)
    decreases d
{
    reveal(leads_to);
    lemma_nested(frags, items, i);
    let body = body_of(frags, items[i]->FragmentSpread_0.fragment_name@);
    if d > 0 { lemma_cycle(frags, items, i, (d - 1) as nat); }
    if unfolds(frags, body, d) {
        let e = choose|e: nat| e <= d && #[trigger] unfolds(frags, items, e);
        assert(unfolds(frags, body, (e - 1) as nat));
        lemma_cycle(frags, items, i, (e - 1) as nat);
    }
}
pub proof fn lemma_cyclic(frags: Frags<'_>, items: Seq<AstItem<'_>>, i: int)
    requires
        0 <= i < items.len(), items[i] is FragmentSpread, frags.contains_key(items[i]->FragmentSpread_0.fragment_name@),
        leads_to(frags, body_of(frags, items[i]->FragmentSpread_0.fragment_name@), items),
    ensures !unfolded(frags, body_of(frags, items[i]->FragmentSpread_0.fragment_name@)), !unfolded(frags, items)
{
    reveal(unfolded);
    let body = body_of(frags, items[i]->FragmentSpread_0.fragment_name@);
    if unfolded(frags, body) { let d = choose|d: nat| unfolds(frags, body, d); lemma_cycle(frags, items, i, d); }
    if unfolded(frags, items) { let d = choose|d: nat| unfolds(frags, items, d); lemma_cycle(frags, items, i, d); }
}
pub proof fn lemma_unfolds_basic(frags: Frags<'_>, items: Seq<AstItem<'_>>)
    ensures unfolded(frags, Seq::<AstItem<'_>>::empty()), leads_to(frags, items, items)
{
    reveal(unfolded); reveal(leads_to);
    assert(unfolds(frags, Seq::<AstItem<'_>>::empty(), 0));
}
/// the parents of a selection lead to what is nested in it
pub proof fn lemma_parents_of_nested(frags: Frags<'_>, parents: Seq<&str>, items: Seq<AstItem<'_>>, i: int)
    requires parents_lead_to(frags, parents, items), 0 <= i < items.len()
    ensures parents_lead_to(frags, parents, nested(frags, items[i]))
{
    reveal(parents_lead_to);
    lemma_nested(frags, items, i);
    assert forall|k: int| 0 <= k < parents.len() implies frags.contains_key((#[trigger] parents[k])@) && leads_to(frags, body_of(frags, parents[k]@), nested(frags, items[i])) by {
        lemma_leads(frags, body_of(frags, parents[k]@), items, nested(frags, items[i]));
    }
}
pub proof fn lemma_parents_push<'a>(frags: Frags<'_>, parents: Seq<&'a str>, name: &'a str, items: Seq<AstItem<'_>>, i: int)
    requires
        parents_lead_to(frags, parents, items), 0 <= i < items.len(), frags.dom().finite(),
        items[i] is FragmentSpread, items[i]->FragmentSpread_0.fragment_name@ == name@, frags.contains_key(name@),
        forall|k: int| 0 <= k < parents.len() ==> (#[trigger] parents[k])@ != name@,
    ensures parents_lead_to(frags, parents.push(name), nested(frags, items[i])), parents.len() < frags.dom().len(), nested(frags, items[i]) == body_of(frags, name@)
{
    reveal(parents_lead_to);
    lemma_parents_of_nested(frags, parents, items, i);
    lemma_parents(frags, parents, items);
    let more = parents.push(name);
    assert forall|k: int| 0 <= k < more.len() implies frags.contains_key((#[trigger] more[k])@) && leads_to(frags, body_of(frags, more[k]@), nested(frags, items[i])) by {
        if k < parents.len() { assert(more[k] == parents[k]); } else { lemma_unfolds_basic(frags, nested(frags, items[i])); }
    }
}
pub proof fn lemma_all_unfolded(frags: Frags<'_>, names: Set<Seq<char>>, n: Seq<char>)
    requires all_unfolded(frags, names)
    ensures names.contains(n) ==> unfolded(frags, body_of(frags, n)), unfolded(frags, body_of(frags, n)) ==> all_unfolded(frags, names.insert(n))
{ reveal(all_unfolded); reveal(unfolded); }
/// how deep the selection is nested
pub open spec fn is_height(frags: Frags<'_>, items: Seq<AstItem<'_>>, h: nat) -> bool { unfolds(frags, items, h) && forall|d: nat| #[trigger] unfolds(frags, items, d) ==> h <= d }
pub open spec fn height(frags: Frags<'_>, items: Seq<AstItem<'_>>) -> nat { choose|h: nat| is_height(frags, items, h) }
pub proof fn lemma_least(frags: Frags<'_>, items: Seq<AstItem<'_>>, d: nat)
    requires unfolds(frags, items, d)
    ensures exists|h: nat| is_height(frags, items, h)
    decreases d
{
    if forall|e: nat| #[trigger] unfolds(frags, items, e) ==> d <= e { assert(is_height(frags, items, d)); }
    else { let e = choose|e: nat| #[trigger] unfolds(frags, items, e) && !(d <= e); lemma_least(frags, items, e); }
}
pub proof fn lemma_height(frags: Frags<'_>, items: Seq<AstItem<'_>>)
    requires unfolded(frags, items)
    ensures is_height(frags, items, height(frags, items))
{
    reveal(unfolded);
    let d = choose|d: nat| unfolds(frags, items, d);
    lemma_least(frags, items, d);
}
/// what is nested in an item is nested less deep
pub proof fn lemma_lower(frags: Frags<'_>, items: Seq<AstItem<'_>>, i: int)
    requires 0 <= i < items.len(), unfolded(frags, items)
    ensures
        unfolded(frags, nested(frags, items[i])),
        !(items[i] is FragmentSpread && !frags.contains_key(items[i]->FragmentSpread_0.fragment_name@)) ==> height(frags, nested(frags, items[i])) < height(frags, items),
{
    lemma_nested(frags, items, i);
    lemma_height(frags, items);
    lemma_height(frags, nested(frags, items[i]));
}
pub proof fn lemma_parents(frags: Frags<'_>, parents: Seq<&str>, items: Seq<AstItem<'_>>)
    requires parents_lead_to(frags, parents, items), frags.dom().finite()
    ensures
        parents.len() <= frags.dom().len(),
        forall|n: Seq<char>| #[trigger] frags.contains_key(n) && (forall|i: int| 0 <= i < parents.len() ==> (#[trigger] parents[i])@ != n) ==> parents.len() < frags.dom().len(),
{
    reveal(parents_lead_to);
    let names = Seq::new(parents.len(), |i: int| parents[i]@);
    names.unique_seq_to_set();
    assert(names.to_set().subset_of(frags.dom())) by {
        assert forall|n: Seq<char>| names.to_set().contains(n) implies frags.dom().contains(n) by {
            let i = choose|i: int| 0 <= i < names.len() && names[i] == n;
            assert(frags.contains_key(parents[i]@));
        }
    }
    vstd::set_lib::lemma_len_subset(names.to_set(), frags.dom());
    assert forall|n: Seq<char>| #[trigger] frags.contains_key(n) && (forall|i: int| 0 <= i < parents.len() ==> (#[trigger] parents[i])@ != n) implies parents.len() < frags.dom().len() by {
        assert(!names.to_set().contains(n)) by {
            if names.to_set().contains(n) { let i = choose|i: int| 0 <= i < names.len() && names[i] == n; assert(parents[i]@ == n); }
        }
        assert(names.to_set().subset_of(frags.dom().remove(n)));
        vstd::set_lib::lemma_len_subset(names.to_set(), frags.dom().remove(n));
    }
}
pub open spec fn set_of<'a>(d: parsed_query::Definition<'a, ParsedTextType>) -> parsed_query::SelectionSet<'a, ParsedTextType> {
    match d {
        parsed_query::Definition::Operation(o) => match o {
            parsed_query::OperationDefinition::Query(q) => q.selection_set,
            parsed_query::OperationDefinition::Mutation(q) => q.selection_set,
            parsed_query::OperationDefinition::Subscription(q) => q.selection_set,
            parsed_query::OperationDefinition::SelectionSet(x) => x,
        },
        parsed_query::Definition::Fragment(f) => f.selection_set,
    }
}
// ---------------------------------------------------------------- what comes of an operation or a fragment
/// the type whose fields a definition selects: subscriptions select from the type Query
pub open spec fn root_of(d: parsed_query::Definition<'_, ParsedTextType>) -> Option<Seq<char>> {
    match d {
        parsed_query::Definition::Operation(o) => op_root(o),
        parsed_query::Definition::Fragment(f) => Some(frag_type(f)),
    }
}
pub open spec fn op_root(o: parsed_query::OperationDefinition<'_, ParsedTextType>) -> Option<Seq<char>> {
    match o {
        parsed_query::OperationDefinition::Query(q) => Some("Query"@),
        parsed_query::OperationDefinition::Mutation(q) => Some("Mutation"@),
        parsed_query::OperationDefinition::Subscription(q) => Some("Query"@),
        parsed_query::OperationDefinition::SelectionSet(x) => None,
    }
}
pub open spec fn op_set<'a>(o: parsed_query::OperationDefinition<'a, ParsedTextType>) -> parsed_query::SelectionSet<'a, ParsedTextType> { set_of(parsed_query::Definition::Operation(o)) }
pub open spec fn op_vars<'a>(o: parsed_query::OperationDefinition<'a, ParsedTextType>) -> Seq<parsed_query::VariableDefinition<'a, ParsedTextType>> {
    match o {
        parsed_query::OperationDefinition::Query(q) => q.variable_definitions@,
        parsed_query::OperationDefinition::Mutation(q) => q.variable_definitions@,
        parsed_query::OperationDefinition::Subscription(q) => q.variable_definitions@,
        parsed_query::OperationDefinition::SelectionSet(x) => Seq::empty(),
    }
}
pub open spec fn op_name(o: parsed_query::OperationDefinition<'_, ParsedTextType>) -> Seq<char> {
    match o {
        parsed_query::OperationDefinition::Query(q) => match q.name { Some(n) => n@, None => "Query"@ },
        parsed_query::OperationDefinition::Mutation(q) => match q.name { Some(n) => n@, None => "Mutation"@ },
        parsed_query::OperationDefinition::Subscription(q) => match q.name { Some(n) => n@, None => "Subscription"@ },
        parsed_query::OperationDefinition::SelectionSet(x) => Seq::empty(),
    }
}
/// what the items select of the objects that the type may be
pub open spec fn selection(s: schema::Schema, frags: Frags<'_>, items: Seq<AstItem<'_>>, n: Seq<char>, depth: nat) -> At {
    |p: Seq<Step>| if p.len() > 0 && possible(s, n).contains(p[0].0) { selected(s, frags, items, n, p, depth) } else { None }
}
pub open spec fn collected(s: schema::Schema, frags: Frags<'_>, items: Seq<AstItem<'_>>, n: Seq<char>, c: ComplexCollection) -> bool {
    forall|depth: nat| #[trigger] valid(s, frags, items, n, depth) ==> coll_is(c, possible(s, n), selection(s, frags, items, n, depth))
}
pub open spec fn op_ok(context: CompileContext<'_, '_>, o: parsed_query::OperationDefinition<'_, ParsedTextType>, local: bool) -> bool {
    &&& op_root(o) is Some && selectable(*context.schema, op_root(o)->0)
    &&& accepted(*context.schema, context.imported_fragments@, op_set(o), op_root(o)->0, local)
    &&& vars_ok(*context.schema, op_vars(o))
}
/// the schema and the fragments with which a definition is compiled matter, and nothing else
pub open spec fn vars_ok(s: schema::Schema, ds: Seq<parsed_query::VariableDefinition<'_, ParsedTextType>>) -> bool {
    forall|i: int| 0 <= i < ds.len() ==> variable::acceptable(s, #[trigger] ds[i])
}
pub open spec fn definition_ok(s: schema::Schema, frags: Frags<'_>, d: parsed_query::Definition<'_, ParsedTextType>) -> bool {
    &&& unfolded(frags, set_of(d).items@)
    &&& root_of(d) is Some && selectable(s, root_of(d)->0)
    &&& accepted(s, frags, set_of(d), root_of(d)->0, true)
    &&& d is Operation ==> vars_ok(s, op_vars(d->Operation_0))
}
/// every fragment can be compiled on its own
pub open spec fn fragments_fine(s: schema::Schema, frags: Frags<'_>) -> bool {
    forall|k: Seq<char>| #[trigger] frags.contains_key(k) ==> selectable(s, frag_type(frags[k])) && accepted(s, frags, frags[k].selection_set, frag_type(frags[k]), true)
}
/// C05 C06 C07: a selection compiled without an error, along with the fragments it needs, is a valid one: what `collected` says of it is not vacuous
pub proof fn theorem_valid(s: schema::Schema, frags: Frags<'_>, set: parsed_query::SelectionSet<'_, ParsedTextType>, n: Seq<char>, d: nat)
    requires unfolds(frags, set.items@, d), accepted(s, frags, set, n, true), fragments_fine(s, frags)
    ensures valid(s, frags, set.items@, n, d)
    decreases d
{
    assert forall|i: int| 0 <= i < set.items@.len() implies item_valid(s, frags, #[trigger] set.items@[i], n, d) by {
        assert(item_unfolds(frags, set.items@[i], d));
        assert(item_accepted(s, frags, set.items[i], n, true));
        match set.items@[i] {
            parsed_query::Selection::Field(f) => {
                assert(field_accepted(s, frags, f, n, true));
                if needs_selection(fields_of(s, n)@[f.name@]) { theorem_valid(s, frags, f.selection_set, type_of(fields_of(s, n)@[f.name@]), (d - 1) as nat); }
                assert(field_valid(s, frags, f, n, d));
            }
            parsed_query::Selection::InlineFragment(f) => { if let Some(parsed_query::TypeCondition::On(u)) = f.type_condition { theorem_valid(s, frags, f.selection_set, u@, (d - 1) as nat); } }
            parsed_query::Selection::FragmentSpread(f) => { let k = f.fragment_name@; theorem_valid(s, frags, frags[k].selection_set, frag_type(frags[k]), (d - 1) as nat); }
        }
    }
}
/// and so is a definition
pub proof fn theorem_definition(s: schema::Schema, frags: Frags<'_>, d: parsed_query::Definition<'_, ParsedTextType>)
    requires definition_ok(s, frags, d), fragments_fine(s, frags)
    ensures exists|depth: nat| #[trigger] valid(s, frags, set_of(d).items@, root_of(d)->0, depth)
{
    reveal(unfolded);
    let depth = choose|depth: nat| unfolds(frags, set_of(d).items@, depth);
    theorem_valid(s, frags, set_of(d), root_of(d)->0, depth);
}
/// C02 C06 C10: name, variables and kind are those of the definition
pub open spec fn head_of(d: parsed_query::Definition<'_, ParsedTextType>, r: Operation<'_>) -> bool {
    match d {
        parsed_query::Definition::Operation(o) => {
            &&& r.name@ == op_name(o) && vars_of(op_vars(o), r) && !(r.kind is Fragment)
            // (a subscription gets the kind of a query: known finding K1)
            &&& !(o is Subscription) ==> (r.kind is Query <==> o is Query) && (r.kind is Mutation <==> o is Mutation)
        },
        parsed_query::Definition::Fragment(f) => r.name@ == f.name@ && r.variables is None && r.kind is Fragment,
    }
}
pub open spec fn vars_of(ds: Seq<parsed_query::VariableDefinition<'_, ParsedTextType>>, r: Operation<'_>) -> bool {
    &&& r.variables is None <==> ds.len() == 0
    &&& ds.len() > 0 ==> r.variables->0@.len() == ds.len() && forall|i: int| 0 <= i < ds.len() ==> variable::declared(#[trigger] ds[i], r.variables->0@[i])
}
pub open spec fn some_in(objs: Set<Seq<char>>) -> bool { exists|o: Seq<char>| #[trigger] objs.contains(o) }
/// every type that can be selected has an object
pub open spec fn inhabited(s: schema::Schema) -> bool { forall|n: Seq<char>| #[trigger] selectable(s, n) ==> some_in(possible(s, n)) }
pub open spec fn filled(at: At) -> bool { forall|p: Seq<Step>| p.len() > 0 && (#[trigger] at(p)) is Some && at(p)->0.objs is Some ==> some_in(at(p)->0.objs->0) }
pub open spec fn filled_u(at: AtU) -> bool { forall|k: FK, rest: Seq<Step>| (#[trigger] at(k, rest)) is Some && at(k, rest)->0.objs is Some ==> some_in(at(k, rest)->0.objs->0) }
pub proof fn lemma_wf_coll(c: ComplexCollection, objs: Set<Seq<char>>, at: At)
    requires coll_is(c, objs, at), filled(at), some_in(objs)
    ensures crate::typescript::wf_coll(c)
    decreases c
{
    let ns = object_names(c.possibilities@);
    let o = choose|o: Seq<char>| objs.contains(o);
    assert(ns.contains(o));
    broadcast use axiom_str_lt_irreflexive;
    assert forall|i: int, j: int| 0 <= i < j < c.possibilities.len() implies (#[trigger] c.possibilities[i]).name@ != (#[trigger] c.possibilities[j]).name@ by {
        assert(ns[i] == c.possibilities[i].name@ && ns[j] == c.possibilities[j].name@);
        assert(str_lt(ns[i], ns[j]));
    }
    assert forall|i: int| 0 <= i < c.possibilities.len() implies crate::typescript::wf_fields((#[trigger] c.possibilities[i]).fields) by {
        let t = c.possibilities[i].name@;
        assert forall|k: FK, rest: Seq<Step>| (#[trigger] of_type(at, t)(k, rest)) is Some && of_type(at, t)(k, rest)->0.objs is Some implies some_in(of_type(at, t)(k, rest)->0.objs->0) by {
            assert(at(seq![(t, k)] + rest) == of_type(at, t)(k, rest));
        }
        lemma_wf_fields(c.possibilities[i].fields, of_type(at, t));
    }
}
pub proof fn lemma_wf_fields(fs: Vec<Field>, at: AtU)
    requires fields_are(fs, at), filled_u(at)
    ensures crate::typescript::wf_fields(fs)
    decreases fs
{
    let ks = choose|ks: Seq<FK>| #[trigger] some_keys(ks) && lists(ks, at) && ks.len() == fs.len() && forall|i: int| #![trigger ks[i]] #![trigger fs[i]] 0 <= i < fs.len() ==> field_is(fs[i], ks[i], at(ks[i], Seq::empty())->0, of_field(at, ks[i]));
    assert forall|i: int| 0 <= i < fs.len() implies crate::typescript::wf_field(#[trigger] fs[i]) by {
        assert(ks.contains(ks[i]));
        assert(field_is(fs[i], ks[i], at(ks[i], Seq::empty())->0, of_field(at, ks[i])));
        assert(type_is(fs[i].type_ir, at(ks[i], Seq::empty())->0.field.type_description.concrete, at(ks[i], Seq::empty())->0.objs, of_field(at, ks[i])));
        if let FieldType::Complex(c) = fs[i].type_ir {
            assert forall|p: Seq<Step>| p.len() > 0 && (#[trigger] of_field(at, ks[i])(p)) is Some && of_field(at, ks[i])(p)->0.objs is Some implies some_in(of_field(at, ks[i])(p)->0.objs->0) by {
                assert(at(ks[i], p) == of_field(at, ks[i])(p));
            }
            lemma_wf_coll(c, at(ks[i], Seq::empty())->0.objs->0, of_field(at, ks[i]));
        }
    }
}
/// what was collected from the whole of a type
pub proof fn lemma_collected(s: schema::Schema, frags: Frags<'_>, items: Seq<AstItem<'_>>, n: Seq<char>, base: ComplexTraversal<'_>, t: ComplexTraversal<'_>)
    requires
        well(s, base), well(s, t), same_head(base, t), base.concrete_objects@.dom() == possible(s, n), nothing_in(base), base.type_name@ == n,
        forall|depth: nat| #[trigger] valid(s, frags, items, n, depth) ==> grown(s, frags, base, t, items, n, depth),
    ensures
        sound_c(t),
        forall|c: ComplexCollection| #[trigger] coll_is(c, t.concrete_objects@.dom(), at_c(t)) ==> collected(s, frags, items, n, c) && (inhabited(s) ==> crate::typescript::wf_coll(c)),
{
    lemma_nothing(s, base);
    assert forall|p: Seq<Step>| sound(#[trigger] c_at(t, p)) by {
        if p.len() > 0 { assert(known_as(s, c_at(t, p), p.last().1.1)); }
    }
    assert forall|c: ComplexCollection| #[trigger] coll_is(c, t.concrete_objects@.dom(), at_c(t)) implies collected(s, frags, items, n, c) && (inhabited(s) ==> crate::typescript::wf_coll(c)) by {
        assert forall|depth: nat| #[trigger] valid(s, frags, items, n, depth) implies coll_is(c, possible(s, n), selection(s, frags, items, n, depth)) by {
            assert(grown(s, frags, base, t, items, n, depth));
            assert(at_c(t) =~= selection(s, frags, items, n, depth)) by {
                assert forall|p: Seq<Step>| #[trigger] at_c(t)(p) == selection(s, frags, items, n, depth)(p) by {
                    if p.len() > 0 {
                        assert(base.concrete_objects@.contains_key(p[0].0) == base.concrete_objects@.dom().contains(p[0].0));
                        assert(t.concrete_objects@.contains_key(p[0].0) == t.concrete_objects@.dom().contains(p[0].0));
                        if possible(s, n).contains(p[0].0) { assert(c_at(t, p) == first(c_at(base, p), selected(s, frags, items, n, p, depth))); assert(c_at(base, p) is None); }
                    }
                }
            }
        }
        if inhabited(s) {
            assert forall|p: Seq<Step>| p.len() > 0 && (#[trigger] at_c(t)(p)) is Some && at_c(t)(p)->0.objs is Some implies some_in(at_c(t)(p)->0.objs->0) by {
                assert(known_as(s, c_at(t, p), p.last().1.1));
                assert(selectable(s, p.last().1.1));
            }
            assert(selectable(s, n));
            lemma_wf_coll(c, t.concrete_objects@.dom(), at_c(t));
        }
    }
}
// ---------------------------------------------------------------- warnings (C18)
/// what a warning says is so
pub open spec fn due(s: schema::Schema, show: bool, w: Warning) -> bool {
    match w {
        Warning::DeprecatedFieldUse { position, field_name, parent_type_name } => show && deprecated_in(s, parent_type_name@, field_name@),
        Warning::OverFragmentNarrowing { position, possible_types, spread_type_name } => selectable(s, spread_type_name@) && forall|i: int| 0 <= i < possible_types@.len() ==> !possible(s, spread_type_name@).contains((#[trigger] possible_types@[i])@),
    }
}
/// the warnings of a compilation are collected with its schema and settings
pub open spec fn ctx_ok(c: CompileContext<'_, '_>) -> bool { forall|w: Warning| #[trigger] admits(c.warnings, w) == due(*c.schema, c.show_deprecation_warnings, w) }
pub open spec fn all_due(s: schema::Schema, show: bool, ws: Vec<Warning>) -> bool { forall|i: int| 0 <= i < ws@.len() ==> due(s, show, #[trigger] ws@[i]) }
pub open spec fn deprecated_in(s: schema::Schema, n: Seq<char>, name: Seq<char>) -> bool {
    exists|k: Seq<char>| #[trigger] fields_of(s, n)@.contains_key(k) && fields_of(s, n)@[k].deprecated && fields_of(s, n)@[k].name@ == name
}
pub open spec fn use_noted(ws: Set<Warning>, p: Pos, n: Seq<char>, name: Seq<char>) -> bool {
    exists|w: Warning| #[trigger] ws.contains(w) && w is DeprecatedFieldUse && w->DeprecatedFieldUse_position == p && w->parent_type_name@ == n && w->field_name@ == name
}
pub open spec fn narrowing_noted(ws: Set<Warning>, p: Pos, u: Seq<char>) -> bool {
    exists|w: Warning| #[trigger] ws.contains(w) && w is OverFragmentNarrowing && w->OverFragmentNarrowing_position == p && w->spread_type_name@ == u
}
/// every warning that is due in the selection, but for those due in the fragments it spreads
pub open spec fn warned(ws: Set<Warning>, s: schema::Schema, frags: Frags<'_>, show: bool, set: parsed_query::SelectionSet<'_, ParsedTextType>, n: Seq<char>, objs: Set<Seq<char>>) -> bool
    decreases set
{ forall|i: int| 0 <= i < set.items.len() ==> item_warned(ws, s, frags, show, #[trigger] set.items[i], n, objs) }
pub open spec fn item_warned(ws: Set<Warning>, s: schema::Schema, frags: Frags<'_>, show: bool, item: AstItem<'_>, n: Seq<char>, objs: Set<Seq<char>>) -> bool
    decreases item
{
    match item {
        parsed_query::Selection::Field(f) => field_warned(ws, s, frags, show, f, n),
        parsed_query::Selection::InlineFragment(f) => match f.type_condition {
            Some(parsed_query::TypeCondition::On(u)) => {
                &&& !some_in(possible(s, u@).intersect(objs)) ==> narrowing_noted(ws, f.position, u@)
                &&& warned(ws, s, frags, show, f.selection_set, u@, possible(s, u@).intersect(objs))
            },
            None => true,
        },
        parsed_query::Selection::FragmentSpread(f) => {
            let u = frag_type(frags[f.fragment_name@]);
            frags.contains_key(f.fragment_name@) && selectable(s, u) && !some_in(possible(s, u).intersect(objs)) ==> narrowing_noted(ws, f.position, u)
        },
    }
}
pub open spec fn field_warned(ws: Set<Warning>, s: schema::Schema, frags: Frags<'_>, show: bool, f: AstField<'_>, n: Seq<char>) -> bool
    decreases f
{
    let d = fields_of(s, n)@[f.name@];
    &&& show && d.deprecated ==> use_noted(ws, f.position, n, d.name@)
    &&& needs_selection(d) ==> warned(ws, s, frags, show, f.selection_set, type_of(d), possible(s, type_of(d)))
}
@fn PrintableMessageasFrom<(&str,&Path,Warning)>::from
@tag C14 C18 C19
@spec
    ensures tells_warning(r, __arg0.0@, __arg0.1@, __arg0.2)
@fn PrintableMessageasFrom<(&str,&Path,Error)>::from
@tag C07 C14 C19
@spec
    ensures tells_error(r, __arg0.0@, __arg0.1@, __arg0.2)
@closure 0
|| -> (r: String) ensures true
@fn Vec<Field>asTryFrom<UniqueFields<'a>>::try_from
@tag C01 C04 C05 C06 C11 C12
@free fields_from_uniques
@inline from.collection.into_iter()
@spec
    ensures
        r is Ok ==> fields_are(r->Ok_0, at_u(from)),
        sound_u(from) ==> r is Ok,
    decreases from, 0int
@loop 0 it
    invariant
        map_items_owned(from.collection@, it.seq()),
        __err is None ==> __acc@.len() == it.index@,
        __err is None ==> forall|i: int| 0 <= i < it.index@ ==> field_is(#[trigger] __acc@[i], it.seq()[i].0.kv(), Info { field: *it.seq()[i].1.0, objs: objs_of(it.seq()[i].1.1) }, at_t(it.seq()[i].1.1)),
        sound_u(from) ==> __err is None,
    ensures
        __err is None ==> it.index@ == it.seq().len(),
@loopstart 0
    proof {
        let key = it.seq()[it.index@ - 1].0.kv();
        assert(from.collection@.contains_key(key));
        assert(from.collection@[key] == it.seq()[it.index@ - 1].1);
        if sound_u(from) { lemma_sound_u(from, key); }
    }
@loopafter 0
    proof {
        if __err is None {
            assert forall|v: Vec<Field>| #[trigger] is_perm(__acc@, v@) && fields_sorted(v@) implies fields_are(v, at_u(from)) by {
                lemma_fields(from, it.seq(), __acc@, v);
            }
        }
    }
@closure 1
|$0: Vec<Field>| -> (r: Vec<Field>) ensures is_perm($0@, r@), fields_sorted(r@)
@closure 2
|$0: &Field, $1: &Field| -> (r: core::cmp::Ordering) ensures ord_is($0.prop_name@, $1.prop_name@, r)
@fn ComplexCollectionasTryFrom<ComplexTraversal<'a>>::try_from
@tag C01 C04 C05 C06 C11 C12
@free collection_from_traversal
@rewrite uniques.try_into() => fields_from_uniques(uniques)
@inline from.concrete_objects.into_iter()
@spec
    ensures
        r is Ok ==> coll_is(r->Ok_0, from.concrete_objects@.dom(), at_c(from)),
        sound_c(from) ==> r is Ok,
    decreases from, 0int
@loop 0 it
    invariant
        map_items_owned(from.concrete_objects@, it.seq()),
        __err is None ==> objects_so_far(__acc@, it.seq(), it.index@),
        sound_c(from) ==> __err is None,
    ensures
        __err is None ==> it.index@ == it.seq().len(),
@loopstart 0
    proof {
        let key = it.seq()[it.index@ - 1].0.kv();
        assert(from.concrete_objects@.contains_key(key));
        assert(from.concrete_objects@[key] == it.seq()[it.index@ - 1].1);
        if sound_c(from) { lemma_sound_c(from, key); }
    }
@loopafter 0
    proof {
        if __err is None {
            assert forall|v: Vec<Complex>| #[trigger] is_perm(__acc@, v@) && objects_sorted(v@) implies objects_are(v@, from.concrete_objects@.dom(), at_c(from)) by {
                lemma_objects(from, it.seq(), __acc@, v);
            }
        }
    }
@closure 1
|$0: Vec<Complex>| -> (r: ComplexCollection) ensures is_perm($0@, r.possibilities@), objects_sorted(r.possibilities@)
@closure 2
|$0: &Complex, $1: &Complex| -> (r: core::cmp::Ordering) ensures ord_is($0.name@, $1.name@, r)
@fn get_type_ir_for_field
@tag C01 C04 C05 C06 C12
@rewrite complex.try_into() => collection_from_traversal(complex)
@spec
    ensures
        r is Ok ==> type_is(r->Ok_0, *field_type, objs_of(sub_traversal), at_t(sub_traversal)),
        sound_kind(*field_type, objs_of(sub_traversal)) && sound_t(sub_traversal) ==> r is Ok,
    decreases sub_traversal, 1int
@start
    proof {
        lemma_sound_t(sub_traversal);
        if sub_traversal is Complex { assert(at_t(sub_traversal) =~= at_c(sub_traversal->Complex_0)); }
    }
@fn CompileContext::push_warning
@tag C18
@spec
    requires ctx_ok(*self), due(*self.schema, self.show_deprecation_warnings, warning)
    ensures record(self.warnings).contains(warning)
@fn OperationKindasFrom<&str>::from
@tag C10
@spec
    ensures
        name@ == "Mutation"@ ==> r is Mutation,
        name@ == "Subscription"@ ==> r is Subscription,
        name@ == "Query"@ ==> r is Query,
@start
    proof { reveal_strlit("Mutation"); reveal_strlit("Subscription"); reveal_strlit("Query"); assert("Mutation"@.len() != "Query"@.len() && "Subscription"@.len() != "Query"@.len() && "Subscription"@.len() != "Mutation"@.len()); }
@fn Operation::compile
@tag C02 C05 C06 C07 C10
@rewrite parent.try_into() => collection_from_traversal(parent)
@rewrite std::cell::RefCell::new(Vec::new()) => crate::vx::RefCell::vx_new(Vec::new(), Ghost(|w: Warning| due(*schema, show_deprecation_warnings, w)))
@spec
    ensures
        all_due(*schema, show_deprecation_warnings, match r { Ok(x) => x.1, Err(x) => x.1 }), // [C18]
        kinds_agree(*schema) && r is Ok ==> warned(r->Ok_0.1@.to_set(), *schema, imported_fragments@, show_deprecation_warnings, set_of(*definition), root_of(*definition)->0, possible(*schema, root_of(*definition)->0)), // [C18]
        r is Err ==> r->Err_0.0@.len() > 0, // [C07 C08]
        kinds_agree(*schema) ==> (r is Ok <==> definition_ok(*schema, imported_fragments@, *definition)), // [C07]
        r is Ok ==> head_of(*definition, r->Ok_0.0), // [C02 C06 C10]
        kinds_agree(*schema) && r is Ok ==> collected(*schema, imported_fragments@, set_of(*definition).items@, root_of(*definition)->0, r->Ok_0.0.collection), // [C05 C06]
        kinds_agree(*schema) && inhabited(*schema) && r is Ok ==> crate::typescript::wf_coll(r->Ok_0.0.collection), // [C06]
@start
    let ghost s = *schema;
    let ghost frags = imported_fragments@;
@before if let Err(errors) = collect_fields_from_selection_set(
    let ghost base = parent;
    proof { lemma_nothing(s, base); }
@after if let Err(errors) = collect_fields_from_selection_set(
    proof {
        if kinds_agree(s) {
            lemma_collected(s, frags, frag_def.selection_set.items@, type_name@, base, parent);
        }
    }
@fn build_from_operation
@tag C02 C05 C06 C07 C10
@rewrite parent.try_into() => collection_from_traversal(parent)
@spec
    requires unfolded(context.imported_fragments@, op_set(*operation).items@), ctx_ok(*context)
    ensures
        kinds_agree(*context.schema) && jump_state is RootLocal && r is Ok ==> warned(record(context.warnings), *context.schema, context.imported_fragments@, context.show_deprecation_warnings, op_set(*operation), op_root(*operation)->0, possible(*context.schema, op_root(*operation)->0)), // [C18]
        r is Err ==> r->Err_0@.len() > 0, // [C07 C08]
        kinds_agree(*context.schema) ==> (r is Ok <==> op_ok(*context, *operation, jump_state is RootLocal)), // [C07]
        r is Ok ==> r->Ok_0.name@ == op_name(*operation) && vars_of(op_vars(*operation), r->Ok_0), // [C02 C06]
        r is Ok && !(operation is Subscription) ==> (r->Ok_0.kind is Query <==> operation is Query) && (r->Ok_0.kind is Mutation <==> operation is Mutation), // [C10]
        r is Ok ==> !(r->Ok_0.kind is Fragment), // [C10]
        kinds_agree(*context.schema) && r is Ok ==> collected(*context.schema, context.imported_fragments@, op_set(*operation).items@, op_root(*operation)->0, r->Ok_0.collection), // [C05 C06]
        kinds_agree(*context.schema) && inhabited(*context.schema) && r is Ok ==> crate::typescript::wf_coll(r->Ok_0.collection), // [C06]
@before let mut parent
    let ghost s = *context.schema;
    let ghost frags = context.imported_fragments@;
    proof {
        assert(*selection_set == op_set(*operation));
        assert(op_type_name@ == op_root(*operation)->0);
        assert(var_defs@ == op_vars(*operation));
    }
@before collect_fields_from_selection_set(
    let ghost base = parent;
    proof { lemma_nothing(s, base); }
@after collect_fields_from_selection_set(
    let ghost whole = parent;
    proof {
        if kinds_agree(s) {
            lemma_collected(s, frags, selection_set.items@, op_type_name@, base, parent);
        }
    }
@closure 0
|| -> (r: String) ensures r@ == fallback_name@
@fn UniqueFields::new
@tag C05
@spec
    ensures r.collection@ == Map::<FK, (&'a schema_field::Field, FieldTraversal<'a>)>::empty()
@fn UniqueFields::insert
@tag C05 C06 C07
@spec
    ensures
        (old(self).collection@.contains_key((alias@, name@)) ==> fit_t(old(self).collection@[(alias@, name@)].1, traversal)) ==> {
            &&& r is Ok
            &&& final(self).collection@.dom() == old(self).collection@.dom().insert((alias@, name@))
            &&& forall|k: FK| k != (alias@, name@) ==> #[trigger] final(self).collection@[k] == old(self).collection@[k]
            &&& forall|rest: Seq<Step>| #[trigger] u_at(*final(self), (alias@, name@), rest) == first(u_at(*old(self), (alias@, name@), rest), e_at(*field, traversal, rest))
        },
    decreases traversal, 1int
@tail
    proof {
        let k = (alias@, name@);
        let fits = old(self).collection@.contains_key(k) ==> fit_t(old(self).collection@[k].1, traversal);
        if fits {
            assert forall|rest: Seq<Step>| #[trigger] u_at(*self, k, rest) == first(u_at(*old(self), k, rest), e_at(*field, traversal, rest)) by {
                if old(self).collection@.contains_key(k) {
                    assert(self.collection@[k].0 == old(self).collection@[k].0);
                    assert(objs_of(self.collection@[k].1) == objs_of(old(self).collection@[k].1));
                    assert(t_at(self.collection@[k].1, rest) == first(t_at(old(self).collection@[k].1, rest), t_at(traversal, rest)));
                    assert(e_at(*self.collection@[k].0, self.collection@[k].1, rest) == first(e_at(*old(self).collection@[k].0, old(self).collection@[k].1, rest), e_at(*field, traversal, rest)));
                }
            }
            assert(self.collection@.dom() =~= old(self).collection@.dom().insert(k));
        }
    }
@fn UniqueFields::extend_from
@tag C05 C06 C07
@spec
    ensures
        fit_u(*old(self), other) ==> r is Ok,
        fit_u(*old(self), other) ==> forall|k: FK, rest: Seq<Step>| #[trigger] u_at(*final(self), k, rest) == first(u_at(*old(self), k, rest), u_at(other, k, rest)),
    decreases other, 0int
@loop 0 it
    invariant
        map_items_owned(other.collection@, it.seq()),
        fit_u(*old(self), other) ==> forall|k: FK, rest: Seq<Step>| done(it.seq(), it.index@, k) ==> #[trigger] u_at(*self, k, rest) == first(u_at(*old(self), k, rest), u_at(other, k, rest)),
        fit_u(*old(self), other) ==> forall|k: FK| !done(it.seq(), it.index@, k) ==> (#[trigger] self.collection@.contains_key(k) <==> old(self).collection@.contains_key(k)),
        fit_u(*old(self), other) ==> forall|k: FK| !done(it.seq(), it.index@, k) ==> #[trigger] self.collection@[k] == old(self).collection@[k],
@loopstart 0
    let ghost key = it.seq()[it.index@ - 1].0.kv();
    let ghost before = *self;
    proof {
        assert(other.collection@.contains_key(key));
        assert(other.collection@[key] == it.seq()[it.index@ - 1].1);
        lemma_new_key(it.seq(), it.index@);
        if fit_u(*old(self), other) && self.collection@.contains_key(key) { lemma_fit_u(*old(self), other, key); }
    }
@loopend 0
    proof {
        if fit_u(*old(self), other) {
            assert forall|k: FK, rest: Seq<Step>| done(it.seq(), it.index@, k) implies #[trigger] u_at(*self, k, rest) == first(u_at(*old(self), k, rest), u_at(other, k, rest)) by {
                assert(self.collection@.contains_key(k) == self.collection@.dom().contains(k));
                assert(before.collection@.contains_key(k) == before.collection@.dom().contains(k));
                if k == key {
                    assert(u_at(before, k, rest) == u_at(*old(self), k, rest));
                } else {
                    assert(u_at(before, k, rest) == u_at(*self, k, rest));
                }
            }
        }
    }
@tail
    proof {
        if fit_u(*old(self), other) {
            assert forall|k: FK, rest: Seq<Step>| #[trigger] u_at(*self, k, rest) == first(u_at(*old(self), k, rest), u_at(other, k, rest)) by {
                assert(other.collection@.contains_key(k) || self.collection@.contains_key(k) == old(self).collection@.contains_key(k));
            }
        }
    }
@fn ComplexTraversal<'a>asTryFrom<(&'aCompileContext<'a,'b>,&'astr,Pos)>::try_from
@tag C05 C06 C07
@spec
    ensures
        r is Ok <==> selectable(*__arg0.0.schema, __arg0.1@),
        r is Ok ==> of(*__arg0.0.schema, __arg0.1@, r->Ok_0) && r->Ok_0.concrete_objects@.dom() == possible(*__arg0.0.schema, __arg0.1@) && nothing_in(r->Ok_0),
@closure 2
|$0: &'a String| -> (r: (&'a str, UniqueFields<'a>)) ensures r.0@ == $0@, r.1.collection@ == Map::<FK, (&'a schema_field::Field, FieldTraversal<'a>)>::empty()
@tail
    proof {
        let s = *context.schema;
        let n = type_name@;
        match s.types@[n].definition {
            schema::TypeDefinition::Interface(o) => { lemma_texts_set(o.possible_types); }
            schema::TypeDefinition::Union(o) => { lemma_texts_set(o.possible_types); }
            _ => {}
        }
        assert forall|k: Seq<char>| concrete_objects@.contains_key(k) == #[trigger] possible(s, n).contains(k) by {}
        assert(concrete_objects@.dom() =~= possible(s, n));
    }
@fn ComplexTraversal::clone_for_type_spread
@tag C05 C06 C07
@spec
    requires ctx_ok(*context)
    ensures
        r is Ok <==> selectable(*context.schema, spread_type_name@),
        r is Ok ==> of(*context.schema, spread_type_name@, r->Ok_0) && r->Ok_0.concrete_objects@.dom() == possible(*context.schema, spread_type_name@).intersect(self.concrete_objects@.dom()) && nothing_in(r->Ok_0),
        r is Ok && !(jump_state is FullyJumped) && !some_in(r->Ok_0.concrete_objects@.dom()) ==> narrowing_noted(record(context.warnings), position, spread_type_name@), // [C18]
@closure 0
|$0: ComplexTraversal<'a>| -> (r: ComplexTraversal<'a>) requires ctx_ok(*context), selectable(*context.schema, spread_type_name@), $0.concrete_objects@.dom() == possible(*context.schema, spread_type_name@) ensures r.type_name == $0.type_name, r.fields_lookup == $0.fields_lookup, r.concrete_objects@.dom() == $0.concrete_objects@.dom().intersect(self.concrete_objects@.dom()), nothing_in($0) ==> nothing_in(r), !(jump_state is FullyJumped) && !some_in(r.concrete_objects@.dom()) ==> narrowing_noted(record(context.warnings), position, spread_type_name@)
@closure 1
|$0: &&'a str, $1: &UniqueFields<'a>| -> (r: bool) ensures r == self.concrete_objects@.contains_key($0.kv())
@closure 2
|$0: &&'a str| -> (r: String) ensures r@ == $0.kv()
@before context.push_warning
    proof {
        assert forall|n: Seq<char>| self.concrete_objects@.contains_key(n) implies !#[trigger] possible(*context.schema, spread_type_name@).contains(n) by {
            assert(self.concrete_objects@.dom().contains(n));
            assert(base.concrete_objects@.contains_key(n) == base.concrete_objects@.dom().contains(n));
        }
    }
@before base.concrete_objects.retain
    let ghost all = base.concrete_objects@;
@after base.concrete_objects.retain
    proof { assert(base.concrete_objects@.dom() =~= all.dom().intersect(self.concrete_objects@.dom())); }
@fn ComplexTraversal::extend_from
@tag C05 C06 C07
@spec
    ensures
        fit_c(*old(self), other) ==> r is Ok,
        final(self).type_name == old(self).type_name, final(self).fields_lookup == old(self).fields_lookup,
        final(self).concrete_objects@.dom() == old(self).concrete_objects@.dom(),
        fit_c(*old(self), other) ==> forall|p: Seq<Step>| p.len() > 0 && old(self).concrete_objects@.contains_key(p[0].0) ==> #[trigger] c_at(*final(self), p) == first(c_at(*old(self), p), c_at(other, p)),
    decreases other, 0int
@loop 0 it
    invariant
        map_items_owned(other.concrete_objects@, it.seq()),
        self.type_name == old(self).type_name, self.fields_lookup == old(self).fields_lookup,
        self.concrete_objects@.dom() == old(self).concrete_objects@.dom(),
        fit_c(*old(self), other) ==> forall|n: Seq<char>, k: FK, rest: Seq<Step>| done(it.seq(), it.index@, n) && old(self).concrete_objects@.contains_key(n) ==>
            #[trigger] u_at(self.concrete_objects@[n], k, rest) == first(u_at(old(self).concrete_objects@[n], k, rest), u_at(other.concrete_objects@[n], k, rest)),
        fit_c(*old(self), other) ==> forall|n: Seq<char>| !done(it.seq(), it.index@, n) ==> #[trigger] self.concrete_objects@[n] == old(self).concrete_objects@[n],
@loopstart 0
    let ghost key = it.seq()[it.index@ - 1].0.kv();
    let ghost before = *self;
    proof {
        assert(other.concrete_objects@.contains_key(key));
        assert(other.concrete_objects@[key] == it.seq()[it.index@ - 1].1);
        lemma_new_key(it.seq(), it.index@);
        assert(self.concrete_objects@.contains_key(key) == self.concrete_objects@.dom().contains(key));
        assert(old(self).concrete_objects@.contains_key(key) == old(self).concrete_objects@.dom().contains(key));
        if fit_c(*old(self), other) && old(self).concrete_objects@.contains_key(key) { lemma_fit_c(*old(self), other, key); }
    }
@loopend 0
    proof {
        assert(self.concrete_objects@.dom() =~= old(self).concrete_objects@.dom());
        if fit_c(*old(self), other) {
            assert forall|n: Seq<char>, k: FK, rest: Seq<Step>| done(it.seq(), it.index@, n) && old(self).concrete_objects@.contains_key(n) implies
                #[trigger] u_at(self.concrete_objects@[n], k, rest) == first(u_at(old(self).concrete_objects@[n], k, rest), u_at(other.concrete_objects@[n], k, rest)) by {
                if n == key {
                    assert(before.concrete_objects@[n] == old(self).concrete_objects@[n]);
                } else {
                    assert(before.concrete_objects@[n] == self.concrete_objects@[n]);
                }
            }
        }
    }
@loopafter 0
    proof {
        if fit_c(*old(self), other) {
            assert forall|p: Seq<Step>| p.len() > 0 && old(self).concrete_objects@.contains_key(p[0].0) implies #[trigger] c_at(*self, p) == first(c_at(*old(self), p), c_at(other, p)) by {
                let n = p[0].0;
                assert(self.concrete_objects@.contains_key(n) == self.concrete_objects@.dom().contains(n));
                assert(old(self).concrete_objects@.contains_key(n) == old(self).concrete_objects@.dom().contains(n));
                if other.concrete_objects@.contains_key(n) {
                    assert(done(it.seq(), it.seq().len() as int, n));
                    assert(u_at(self.concrete_objects@[n], p[0].1, p.drop_first()) == first(u_at(old(self).concrete_objects@[n], p[0].1, p.drop_first()), u_at(other.concrete_objects@[n], p[0].1, p.drop_first())));
                } else {
                    assert(!done(it.seq(), it.seq().len() as int, n));
                }
            }
        }
    }
@fn FieldTraversal::extend_from
@tag C05 C06 C07
@spec
    ensures
        fit_t(*old(self), other) ==> r is Ok,
        fit_t(*old(self), other) ==> objs_of(*final(self)) == objs_of(*old(self)),
        fit_t(*old(self), other) ==> forall|p: Seq<Step>| #[trigger] t_at(*final(self), p) == first(t_at(*old(self), p), t_at(other, p)),
    decreases other, 0int
@start
    proof {
        lemma_fit_t(*old(self), other);
    }
@tail
    proof {
        if fit_t(*old(self), other) && *old(self) is Complex {
            assert forall|p: Seq<Step>| #[trigger] t_at(*self, p) == first(t_at(*old(self), p), t_at(other, p)) by {
                let a = old(self)->Complex_0;
                let b = other->Complex_0;
                let c = self->Complex_0;
                assert(t_at(*old(self), p) == c_at(a, p));
                assert(t_at(other, p) == c_at(b, p));
                assert(t_at(*self, p) == c_at(c, p));
                assert(a.concrete_objects@.dom() == b.concrete_objects@.dom());
                if p.len() > 0 {
                    assert(a.concrete_objects@.contains_key(p[0].0) == a.concrete_objects@.dom().contains(p[0].0));
                    assert(b.concrete_objects@.contains_key(p[0].0) == b.concrete_objects@.dom().contains(p[0].0));
                    assert(c.concrete_objects@.contains_key(p[0].0) == c.concrete_objects@.dom().contains(p[0].0));
                }
            }
        }
    }
@fn Field::has_same_type
@tag C06
@spec
    ensures r == same_field(*self, *other)
    decreases self
@fn FieldType::has_same_type
@tag C06
@rewrite name == other_name => *name == *other_name
@spec
    ensures r == same_type(*self, *other)
    decreases self
@fn Complex::has_same_fields
@tag C06
@spec
    ensures r == same_fields(*self, *other)
    decreases self
@loop 0 it
    invariant
        self.fields.len() == other.fields.len(),
        it.seq().len() == self.fields.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == self.fields[i],
        forall|i: int| 0 <= i < it.index@ ==> same_field(#[trigger] self.fields[i], other.fields[i]),
@fn ComplexCollection::has_same_type
@tag C06
@spec
    ensures r == same_collection(*self, *other)
    decreases self
@loop 0 it
    invariant
        self.possibilities.len() == other.possibilities.len(),
        it.seq().len() == self.possibilities.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == self.possibilities[i],
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.possibilities[i]).name@ == other.possibilities[i].name@ && same_fields(self.possibilities[i], other.possibilities[i]),
@fn ComplexTraversal::insert_terminal
@tag C05 C06 C07
@spec
    ensures
        final(self).type_name == old(self).type_name, final(self).fields_lookup == old(self).fields_lookup,
        fits_in(*old(self), (alias@, name@), FieldTraversal::Terminal(terminal)) ==> r is Ok && inserted(*old(self), *final(self), (alias@, name@), *field, FieldTraversal::Terminal(terminal)),
@loop 0 it
    invariant
        key_items_owned(old(self).concrete_objects@, it.seq()),
        self.type_name == old(self).type_name, self.fields_lookup == old(self).fields_lookup,
        self.concrete_objects@.dom() == old(self).concrete_objects@.dom(),
        fits_in(*old(self), (alias@, name@), FieldTraversal::Terminal(terminal)) ==> forall|n: Seq<char>, k: FK, rest: Seq<Step>| done_key(it.seq(), it.index@, n) ==>
            #[trigger] u_at(self.concrete_objects@[n], k, rest) == first(u_at(old(self).concrete_objects@[n], k, rest), if k == (alias@, name@) { e_at(*field, FieldTraversal::Terminal(terminal), rest) } else { None }),
        forall|n: Seq<char>| !done_key(it.seq(), it.index@, n) ==> #[trigger] self.concrete_objects@[n] == old(self).concrete_objects@[n],
@loopstart 0
    let ghost at = it.seq()[it.index@ - 1].kv();
    let ghost before = *self;
    let ghost k0 = (alias@, name@);
    let ghost t0 = FieldTraversal::Terminal(terminal);
    proof {
        lemma_new_key_of(it.seq(), it.index@);
        assert(old(self).concrete_objects@.contains_key(at));
        assert(self.concrete_objects@.contains_key(at) == self.concrete_objects@.dom().contains(at));
    }
@loopend 0
    proof {
        assert(self.concrete_objects@.dom() =~= old(self).concrete_objects@.dom());
        if fits_in(*old(self), k0, t0) {
            assert forall|n: Seq<char>, k: FK, rest: Seq<Step>| done_key(it.seq(), it.index@, n) implies
                #[trigger] u_at(self.concrete_objects@[n], k, rest) == first(u_at(old(self).concrete_objects@[n], k, rest), if k == k0 { e_at(*field, t0, rest) } else { None }) by {
                if n == at {
                    let a = old(self).concrete_objects@[n];
                    let b = self.concrete_objects@[n];
                    assert(before.concrete_objects@[n] == a);
                    assert(a.collection@.contains_key(k) == a.collection@.dom().contains(k));
                    assert(b.collection@.contains_key(k) == b.collection@.dom().contains(k));
                    if k != k0 { assert(b.collection@[k] == a.collection@[k]); assert(u_at(b, k, rest) == u_at(a, k, rest)); }
                } else {
                    assert(before.concrete_objects@[n] == self.concrete_objects@[n]);
                }
            }
        }
    }
@loopafter 0
    proof {
        let k0 = (alias@, name@);
        let t0 = FieldTraversal::Terminal(terminal);
        if fits_in(*old(self), k0, t0) {
            assert forall|p: Seq<Step>| p.len() > 0 && old(self).concrete_objects@.contains_key(p[0].0) implies
                #[trigger] c_at(*self, p) == first(c_at(*old(self), p), if p[0].1 == k0 { e_at(*field, t0, p.drop_first()) } else { None }) by {
                let n = p[0].0;
                assert(self.concrete_objects@.contains_key(n) == self.concrete_objects@.dom().contains(n));
                assert(old(self).concrete_objects@.contains_key(n) == old(self).concrete_objects@.dom().contains(n));
                assert(done_key(it.seq(), it.seq().len() as int, n));
                assert(u_at(self.concrete_objects@[n], p[0].1, p.drop_first()) == first(u_at(old(self).concrete_objects@[n], p[0].1, p.drop_first()), if p[0].1 == k0 { e_at(*field, t0, p.drop_first()) } else { None }));
            }
        }
    }
@fn ComplexTraversal::insert_complex
@tag C05 C06 C07
@spec
    ensures
        final(self).type_name == old(self).type_name, final(self).fields_lookup == old(self).fields_lookup,
        fits_in(*old(self), (alias@, name@), FieldTraversal::Complex(complex)) ==> r is Ok && inserted(*old(self), *final(self), (alias@, name@), *field, FieldTraversal::Complex(complex)),
@loop 0 it
    invariant
        key_items_owned(old(self).concrete_objects@, it.seq()),
        self.type_name == old(self).type_name, self.fields_lookup == old(self).fields_lookup,
        self.concrete_objects@.dom() == old(self).concrete_objects@.dom(),
        fits_in(*old(self), (alias@, name@), FieldTraversal::Complex(complex)) ==> forall|n: Seq<char>, k: FK, rest: Seq<Step>| done_key(it.seq(), it.index@, n) ==>
            #[trigger] u_at(self.concrete_objects@[n], k, rest) == first(u_at(old(self).concrete_objects@[n], k, rest), if k == (alias@, name@) { e_at(*field, FieldTraversal::Complex(complex), rest) } else { None }),
        forall|n: Seq<char>| !done_key(it.seq(), it.index@, n) ==> #[trigger] self.concrete_objects@[n] == old(self).concrete_objects@[n],
@loopstart 0
    let ghost at = it.seq()[it.index@ - 1].kv();
    let ghost before = *self;
    let ghost k0 = (alias@, name@);
    let ghost t0 = FieldTraversal::Complex(complex);
    proof {
        lemma_new_key_of(it.seq(), it.index@);
        assert(old(self).concrete_objects@.contains_key(at));
        assert(self.concrete_objects@.contains_key(at) == self.concrete_objects@.dom().contains(at));
    }
@loopend 0
    proof {
        assert(self.concrete_objects@.dom() =~= old(self).concrete_objects@.dom());
        if fits_in(*old(self), k0, t0) {
            assert forall|n: Seq<char>, k: FK, rest: Seq<Step>| done_key(it.seq(), it.index@, n) implies
                #[trigger] u_at(self.concrete_objects@[n], k, rest) == first(u_at(old(self).concrete_objects@[n], k, rest), if k == k0 { e_at(*field, t0, rest) } else { None }) by {
                if n == at {
                    let a = old(self).concrete_objects@[n];
                    let b = self.concrete_objects@[n];
                    assert(before.concrete_objects@[n] == a);
                    assert(a.collection@.contains_key(k) == a.collection@.dom().contains(k));
                    assert(b.collection@.contains_key(k) == b.collection@.dom().contains(k));
                    if k != k0 { assert(b.collection@[k] == a.collection@[k]); assert(u_at(b, k, rest) == u_at(a, k, rest)); }
                } else {
                    assert(before.concrete_objects@[n] == self.concrete_objects@[n]);
                }
            }
        }
    }
@loopafter 0
    proof {
        let k0 = (alias@, name@);
        let t0 = FieldTraversal::Complex(complex);
        if fits_in(*old(self), k0, t0) {
            assert forall|p: Seq<Step>| p.len() > 0 && old(self).concrete_objects@.contains_key(p[0].0) implies
                #[trigger] c_at(*self, p) == first(c_at(*old(self), p), if p[0].1 == k0 { e_at(*field, t0, p.drop_first()) } else { None }) by {
                let n = p[0].0;
                assert(self.concrete_objects@.contains_key(n) == self.concrete_objects@.dom().contains(n));
                assert(old(self).concrete_objects@.contains_key(n) == old(self).concrete_objects@.dom().contains(n));
                assert(done_key(it.seq(), it.seq().len() as int, n));
                assert(u_at(self.concrete_objects@[n], p[0].1, p.drop_first()) == first(u_at(old(self).concrete_objects@[n], p[0].1, p.drop_first()), if p[0].1 == k0 { e_at(*field, t0, p.drop_first()) } else { None }));
            }
        }
    }
@fn ForeignFragmentJumpState::is_local
@tag C07 C18
@spec
    ensures r == (self is RootLocal)
@fn ForeignFragmentJumpState::is_fully_jumped
@tag C18
@spec
    ensures r == (self is FullyJumped)
@fn ForeignFragmentJumpState::jump_inline_one_level
@tag C07 C18
@spec
    ensures r is RootLocal <==> self is RootLocal, !(r is JustChanged)
@fn ForeignFragmentJumpState::jump_foreigin_one_level
@tag C07 C18
@spec
    ensures !(r is RootLocal), r is JustChanged <==> self is RootLocal
@fn TerminalTraversal<'a>asFrom<&'astr>::from
@tag C05
@spec
    ensures r.type_name == type_name
@fn Vec<Error>asFrom<Error>::from
@tag C07
@spec
    ensures r@ == seq![error]
@fn insert_field
@tag C05 C06 C07
@spec
    requires
        ctx_ok(*context),
        unfolded(context.imported_fragments@, selection_field.selection_set.items@),
        of(*context.schema, old(traversal).type_name@, *old(traversal)),
    ensures
        final(traversal).type_name == old(traversal).type_name, final(traversal).fields_lookup == old(traversal).fields_lookup,
        jump_state is RootLocal && r is Ok && well(*context.schema, *old(traversal)) ==> field_warned(record(context.warnings), *context.schema, context.imported_fragments@, context.show_deprecation_warnings, *selection_field, old(traversal).type_name@), // [C18]
        r is Err ==> r->Err_0@.len() > 0, // [C07 C08]
        well(*context.schema, *old(traversal)) ==> (r is Ok <==> field_accepted(*context.schema, context.imported_fragments@, *selection_field, old(traversal).type_name@, jump_state is RootLocal)), // [C07]
        well(*context.schema, *old(traversal)) && r is Ok ==> well(*context.schema, *final(traversal)) && same_head(*old(traversal), *final(traversal)), // [C05 C06 C07]
        well(*context.schema, *old(traversal)) && r is Ok ==> forall|depth: nat| #[trigger] field_valid(*context.schema, context.imported_fragments@, *selection_field, old(traversal).type_name@, depth) ==>
            grown_by(*context.schema, context.imported_fragments@, *old(traversal), *final(traversal), *selection_field, old(traversal).type_name@, depth), // [C05 C06]
    decreases height(context.imported_fragments@, selection_field.selection_set.items@) + 1, 0int
@closure 0
|| -> (r: Vec<Error>) ensures r@.len() == 1
@before traversal.insert_terminal
    let ghost s = *context.schema;
    let ghost n = traversal.type_name@;
    let ghost k = (alias@, field_type_name@);
    let ghost t = FieldTraversal::Terminal(terminal);
    proof {
        if well(s, *traversal) {
            assert(fields_of(s, n)@.contains_key(selection_field.name@));
            assert(kind_agrees(s, *field));
            assert(wf_t(s, t, k.1));
            lemma_wf_fits_in(s, *traversal, k, t);
        }
    }
@after traversal.insert_terminal
    proof {
        if well(s, *old(traversal)) {
            lemma_wf_inserted(s, *old(traversal), *traversal, k, *field, t);
            assert forall|depth: nat| #[trigger] field_valid(s, context.imported_fragments@, *selection_field, n, depth) implies
                grown_by(s, context.imported_fragments@, *old(traversal), *traversal, *selection_field, n, depth) by {
                lemma_grown_terminal(s, context.imported_fragments@, *old(traversal), *traversal, *selection_field, n, depth, t);
            }
        }
    }
@before collect_fields_from_selection_set(
    let ghost before = sub_parent;
    proof { lemma_nothing(*context.schema, before); }
@before traversal.insert_complex
    let ghost s = *context.schema;
    let ghost n = traversal.type_name@;
    let ghost k = (alias@, field_type_name@);
    let ghost sub = sub_parent;
    let ghost t = FieldTraversal::Complex(sub_parent);
    proof {
        if well(s, *traversal) {
            assert(fields_of(s, n)@.contains_key(selection_field.name@));
            assert(kind_agrees(s, *field));
            assert(well(s, before));
            assert(wf_t(s, t, k.1)) by {
                assert forall|p: Seq<Step>| p.len() > 0 implies known_as(s, #[trigger] t_at(t, p), p.last().1.1) by { assert(known_as(s, c_at(sub, p), p.last().1.1)); }
            }
            lemma_wf_fits_in(s, *traversal, k, t);
        }
    }
@after traversal.insert_complex
    proof {
        if well(s, *old(traversal)) {
            lemma_wf_inserted(s, *old(traversal), *traversal, k, *field, t);
            assert forall|depth: nat| #[trigger] field_valid(s, context.imported_fragments@, *selection_field, n, depth) implies
                grown_by(s, context.imported_fragments@, *old(traversal), *traversal, *selection_field, n, depth) by {
                assert(valid(s, context.imported_fragments@, selection_field.selection_set.items@, field_type_name@, (depth - 1) as nat));
                assert(grown(s, context.imported_fragments@, before, sub, selection_field.selection_set.items@, field_type_name@, (depth - 1) as nat));
                lemma_grown_complex(s, context.imported_fragments@, *old(traversal), *traversal, *selection_field, n, depth, before, sub);
            }
        }
    }
@before context.push_warning
    proof {
        let n = old(traversal).type_name@;
        assert(fields_of(*context.schema, n)@.contains_key(selection_field.name@));
        assert(fields_of(*context.schema, n)@[selection_field.name@] == *field);
        assert(deprecated_in(*context.schema, n, field.name@));
    }
@fn collect_fields_from_selection_set
@tag C05 C06 C07
@spec
    requires
        ctx_ok(*context),
        unfolded(context.imported_fragments@, selection_set.items@),
        of(*context.schema, old(complex_parent).type_name@, *old(complex_parent)),
    ensures
        final(complex_parent).type_name == old(complex_parent).type_name, final(complex_parent).fields_lookup == old(complex_parent).fields_lookup,
        jump_state is RootLocal && r is Ok && well(*context.schema, *old(complex_parent)) ==> warned(record(context.warnings), *context.schema, context.imported_fragments@, context.show_deprecation_warnings, *selection_set, old(complex_parent).type_name@, old(complex_parent).concrete_objects@.dom()), // [C18]
        r is Err ==> r->Err_0@.len() > 0, // [C07 C08]
        well(*context.schema, *old(complex_parent)) ==> (r is Ok <==> accepted(*context.schema, context.imported_fragments@, *selection_set, old(complex_parent).type_name@, jump_state is RootLocal)), // [C07]
        well(*context.schema, *old(complex_parent)) && r is Ok ==> well(*context.schema, *final(complex_parent)) && same_head(*old(complex_parent), *final(complex_parent)), // [C05 C06 C07]
        well(*context.schema, *old(complex_parent)) && r is Ok ==> forall|depth: nat| #[trigger] valid(*context.schema, context.imported_fragments@, selection_set.items@, old(complex_parent).type_name@, depth) ==>
            grown(*context.schema, context.imported_fragments@, *old(complex_parent), *final(complex_parent), selection_set.items@, old(complex_parent).type_name@, depth), // [C05 C06]
    decreases height(context.imported_fragments@, selection_set.items@), 1int
@start
    let ghost s = *context.schema;
    let ghost frags = context.imported_fragments@;
    let ghost items = selection_set.items@;
    let ghost n = complex_parent.type_name@;
    let ghost local = jump_state is RootLocal;
    let ghost w = well(s, *complex_parent);
    proof { assert(items.take(0) =~= Seq::<AstItem<'_>>::empty()); }
@loopbefore 0
    proof { reveal(refer); }
@loop 0 it
    invariant
        s == *context.schema, frags == context.imported_fragments@, items == selection_set.items@, n == old(complex_parent).type_name@, local == (jump_state is RootLocal), w == well(s, *old(complex_parent)),
        ctx_ok(*context), unfolded(frags, items), of(s, n, *old(complex_parent)),
        complex_parent.type_name == old(complex_parent).type_name, complex_parent.fields_lookup == old(complex_parent).fields_lookup,
        local && w && errors@.len() == 0 ==> forall|i: int| 0 <= i < it.index@ ==> item_warned(record(context.warnings), s, frags, context.show_deprecation_warnings, #[trigger] items[i], n, old(complex_parent).concrete_objects@.dom()),
        refer(it.seq(), items),
        w ==> (errors@.len() == 0 <==> forall|i: int| 0 <= i < it.index@ ==> item_accepted(s, frags, #[trigger] items[i], n, local)),
        w && errors@.len() == 0 ==> well(s, *complex_parent) && same_head(*old(complex_parent), *complex_parent),
        w && errors@.len() == 0 ==> forall|depth: nat| #[trigger] valid(s, frags, items.take(it.index@), n, depth) ==> grown(s, frags, *old(complex_parent), *complex_parent, items.take(it.index@), n, depth),
@loopstart 0
    let ghost i = it.index@ - 1;
    let ghost before = *complex_parent;
    proof {
        lemma_refer(it.seq(), items, i);
        assert(*selection == items[i]);
        lemma_lower(frags, items, i);
        assert(items.take(i + 1).drop_last() =~= items.take(i));
        assert(items.take(i + 1).last() == items[i]);
        assert forall|depth: nat| #[trigger] valid(s, frags, items.take(i + 1), n, depth) implies valid(s, frags, items.take(i), n, depth) && item_valid(s, frags, items[i], n, depth) by {
            assert(item_valid(s, frags, items.take(i + 1)[i], n, depth));
            assert forall|j: int| 0 <= j < items.take(i).len() implies item_valid(s, frags, #[trigger] items.take(i)[j], n, depth) by { assert(item_valid(s, frags, items.take(i + 1)[j], n, depth)); }
        }
    }
@before continue
    proof {
        assert(item_accepted(s, frags, items[i], n, local) == field_accepted(s, frags, *selection_field, n, local));
        if w && errors@.len() == 0 {
            assert forall|depth: nat| #[trigger] valid(s, frags, items.take(i + 1), n, depth) implies grown(s, frags, *old(complex_parent), *complex_parent, items.take(i + 1), n, depth) by {
                assert(field_valid(s, frags, *selection_field, n, depth));
                assert(grown_by(s, frags, before, *complex_parent, *selection_field, n, depth));
                lemma_grown_step(s, frags, *old(complex_parent), before, *complex_parent, items, i, n, depth);
            }
        }
    }
@before continue
    proof { assert(!item_accepted(s, frags, items[i], n, local)); }
@before continue
    proof { assert(!item_accepted(s, frags, items[i], n, local)); }
@before continue
    proof {
        lemma_spread_of(s, frags, items[i], n);
        assert(item_accepted(s, frags, items[i], n, local) == !(new_jump_state is RootLocal));
        assert forall|depth: nat| !#[trigger] valid(s, frags, items.take(i + 1), n, depth) by {
            if valid(s, frags, items.take(i + 1), n, depth) { assert(item_valid(s, frags, items[i], n, depth)); }
        }
    }
@before match collect_fields_from_selection_set
    let ghost base = sub_parent;
    let ghost u = spread_type_name@;
    let ghost body = *sub_selection_set;
    proof {
        lemma_nothing(s, sub_parent);
        lemma_spread_of(s, frags, items[i], n);
        assert(spread_of(frags, items[i]) == Some((u, body)));
    }
@before complex_parent.extend_from(sub_parent)
    let ghost sub = sub_parent;
    proof { if w && errors@.len() == 0 { lemma_wf_fit(s, *complex_parent, sub_parent); } }
@after complex_parent.extend_from(sub_parent)
    proof {
        if w && errors@.len() == 0 {
            lemma_wf_extended(s, before, sub, *complex_parent);
            assert forall|depth: nat| #[trigger] valid(s, frags, items.take(i + 1), n, depth) implies grown(s, frags, *old(complex_parent), *complex_parent, items.take(i + 1), n, depth) by {
                assert(item_valid(s, frags, items[i], n, depth));
                assert(valid(s, frags, body.items@, u, (depth - 1) as nat));
                lemma_spread(s, frags, before, base, sub, *complex_parent, body.items@, u, (depth - 1) as nat);
                assert forall|p: Seq<Step>| p.len() > 0 && old(complex_parent).concrete_objects@.contains_key(p[0].0) implies #[trigger] c_at(*complex_parent, p) == first(c_at(before, p), item_selected(s, frags, items[i], n, p, depth)) by {
                    assert(old(complex_parent).concrete_objects@.contains_key(p[0].0) == old(complex_parent).concrete_objects@.dom().contains(p[0].0));
                    assert(before.concrete_objects@.contains_key(p[0].0) == before.concrete_objects@.dom().contains(p[0].0));
                }
                lemma_grown_step(s, frags, *old(complex_parent), before, *complex_parent, items, i, n, depth);
            }
        }
    }
@before if new_jump_state.is_local()
@before if new_jump_state.is_local()
    proof {
        if w {
            assert(!accepted(s, frags, body, u, new_jump_state is RootLocal));
            assert forall|depth: nat| !#[trigger] valid(s, frags, items.take(i + 1), n, depth) by {
                if valid(s, frags, items.take(i + 1), n, depth) {
                    assert(item_valid(s, frags, items[i], n, depth));
                    lemma_valid(s, frags, body, u, (depth - 1) as nat, new_jump_state is RootLocal);
                }
            }
        }
    }
@loopafter 0
    proof { lemma_refer(it.seq(), items, 0); assert(items.take(items.len() as int) =~= items); }
@fn find_cyclic_fragment
@tag C07
@start
    proof { reveal(parents_lead_to); reveal(all_unfolded); }
@spec
    ensures
        r is None <==> unfolded(context.imported_fragments@, set_of(*definition).items@),
        r is Some ==> context.imported_fragments@.contains_key(r->0@) && !unfolded(context.imported_fragments@, body_of(context.imported_fragments@, r->0@)),
@fn find_cyclic_spread
@tag C07
@spec
    requires
        parents_lead_to(context.imported_fragments@, old(parent_spreads)@, selection_set.items@),
        all_unfolded(context.imported_fragments@, old(acyclic_spreads)@),
    ensures
        r is None <==> unfolded(context.imported_fragments@, selection_set.items@),
        r is Some ==> context.imported_fragments@.contains_key(r->0@) && !unfolded(context.imported_fragments@, body_of(context.imported_fragments@, r->0@)),
        r is None ==> final(parent_spreads)@ == old(parent_spreads)@ && all_unfolded(context.imported_fragments@, final(acyclic_spreads)@),
    decreases context.imported_fragments@.dom().len() - old(parent_spreads)@.len(), selection_set
@start
    let ghost frags = context.imported_fragments@;
    let ghost items = selection_set.items@;
    proof {
        lemma_unfolds_basic(frags, items);
        assert(items.take(0) =~= Seq::<AstItem<'_>>::empty());
    }
@loopbefore 0
    proof { reveal(refer); }
@loop 0 it
    invariant
        frags == context.imported_fragments@, items == selection_set.items@,
        refer(it.seq(), items),
        parents_lead_to(frags, old(parent_spreads)@, items),
        parent_spreads@ == old(parent_spreads)@, all_unfolded(frags, acyclic_spreads@),
        unfolded(frags, items.take(it.index@)),
@loopstart 0
    let ghost i = it.index@ - 1;
    proof {
        lemma_refer(it.seq(), items, i);
        assert(*selection == items[i]);
        lemma_nested(frags, items, i);
        lemma_unfolds_basic(frags, nested(frags, items[i]));
        lemma_parents_of_nested(frags, parent_spreads@, items, i);
    }
@after let name
    proof { lemma_all_unfolded(frags, acyclic_spreads@, name@); }
@loopafter 0
    proof { lemma_refer(it.seq(), items, 0); assert(items.take(items.len() as int) =~= items); }
@before return Some(name
    proof {
        reveal(parents_lead_to);
        let k = choose|k: int| 0 <= k < parent_spreads.texts().len() && (#[trigger] parent_spreads.texts()[k])@ == name@;
        assert(parent_spreads@[k]@ == name@);
        lemma_cyclic(frags, items, i);
    }
@before parent_spreads.push(name)
    let ghost above = parent_spreads@;
    proof {
        assert forall|k: int| 0 <= k < above.len() implies (#[trigger] above[k])@ != name@ by { assert(parent_spreads.texts()[k]@ != name@); }
        lemma_parents_push(frags, above, name, items, i);
    }
@after parent_spreads.push(name)
    proof { assert(parent_spreads@ == above.push(name)); }
@before acyclic_spreads.insert
    proof { if cyclic_name is None { lemma_all_unfolded(frags, acyclic_spreads@, name@); } }
