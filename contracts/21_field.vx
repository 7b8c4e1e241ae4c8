@file src/graphql/schema/field.rs
@mod graphql::schema::field
@header
use crate::vx::*;
use crate::theory::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
impl<'a> FromSpecImpl<&'a str> for ScalarType { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &'a str) -> Self; }
impl TryFromSpecImpl<json::FieldType> for FieldType { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(v: json::FieldType) -> core::result::Result<Self, Error>; }
impl TryFromSpecImpl<json::Field> for Field { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(v: json::Field) -> core::result::Result<Self, Error>; }
@footer
impl FieldTypeModifiers {
    pub fn vx_last(&self) -> (r: &FieldTypeModifier) ensures *r == self.last { self.last() }
}
/// C01 C04: what is loaded for a field of a type
pub open spec fn field_loaded(j: json::Field, f: Field) -> bool {
    &&& f.name@ == j.name@
    &&& f.deprecated == (j.deprecated == Some(true))
    &&& (f.documentation is Some <==> j.description is Some)
    &&& type_loaded(j.type_information, f.type_description)
}
pub open spec fn no_none(ms: Seq<FieldTypeModifier>) -> bool { forall|i: int| 0 <= i < ms.len() ==> !(#[trigger] ms[i] is None) }
pub open spec fn is_type_name_field(f: Field) -> bool {
    &&& f.name@ == "__typename"@
    &&& f.documentation is None && !f.deprecated
    &&& f.type_description.concrete.name@ == "__typename"@
    &&& f.type_description.concrete.definition is TypeName
    &&& f.type_description.concrete.modifier is None
    &&& f.type_description.higher_order_modifiers@ == Seq::<FieldTypeModifier>::empty()
}
@fn ScalarTypeasFrom<&str>::from
@tag C04
@spec
    ensures scalar_of(name@, r)
@fn FieldTypeDefinition::is_complex
@tag C07
@spec
    ensures r == (self is Union || self is Object || self is Interface || self is InputObject)
@fn FieldTypeModifier::new
@tag C01
@spec
    ensures r is Nullable
@fn ModifierBuilder::new
@tag C01
@spec
    ensures r.concrete is Nullable, r.higher_order_modifiers@ == Seq::<FieldTypeModifier>::empty()
@fn ModifierBuilder::actualize
@tag C01
@spec
    ensures
        inner_nullable(old(self).concrete) && no_none(old(self).higher_order_modifiers@) ==> no_none(final(self).higher_order_modifiers@), // [C03]
        inner_nullable(old(self).concrete) ==> forall|ss: Ty, nn: Ty, any: Ty|
            #![trigger fill(old(self).concrete, nn, any), fill(final(self).concrete, ss, nn)]
            ctx(final(self).higher_order_modifiers@, fill(final(self).concrete, ss, nn)) == ctx(old(self).higher_order_modifiers@, fill(old(self).concrete, nn, any)),
@tail
    proof {
        if !(self.higher_order_modifiers@ =~= old(self).higher_order_modifiers@) {
            let m = self.higher_order_modifiers@.last();
            assert(self.higher_order_modifiers@ =~= old(self).higher_order_modifiers@.push(m));
            assert forall|t: Ty| ctx(self.higher_order_modifiers@, t) == ctx(old(self).higher_order_modifiers@, #[trigger] single(m, t)) by {
                lemma_ctx_push(old(self).higher_order_modifiers@, m, t);
            }
        }
    }
@fn ModifierBuilder::listize
@tag C01
@spec
    ensures
        inner_nullable(final(self).concrete),
        no_none(old(self).higher_order_modifiers@) ==> no_none(final(self).higher_order_modifiers@), // [C03]
        forall|ss: Ty, nn: Ty|
            #![trigger fill(final(self).concrete, ss, nn)]
            ctx(final(self).higher_order_modifiers@, fill(final(self).concrete, ss, nn)) == ctx(old(self).higher_order_modifiers@, fill(old(self).concrete, nul(lst(ss)), lst(ss))),
@tail
    proof {
        if !(self.higher_order_modifiers@ =~= old(self).higher_order_modifiers@) {
            let m = self.higher_order_modifiers@.last();
            assert(self.higher_order_modifiers@ =~= old(self).higher_order_modifiers@.push(m));
            assert forall|ss: Ty, nn: Ty| ctx(self.higher_order_modifiers@, #[trigger] fill(self.concrete, ss, nn)) == ctx(old(self).higher_order_modifiers@, single(m, fill(self.concrete, ss, nn))) by {
                lemma_ctx_push(old(self).higher_order_modifiers@, m, fill(self.concrete, ss, nn));
            }
        }
    }
@fn FieldTypeModifiers::from_field_type
@tag C01 C02 C03
@spec
    ensures r.last == field_type.concrete.modifier, r.rest@ == field_type.higher_order_modifiers@
@fn FieldTypeModifiers::last
@tag C01
@spec
    ensures *r == self.last
@fn FieldTypeModifiers::rest_modifiers_iter
@tag C01
@spec
    ensures derefs(r@) =~= self.rest@
@fn FieldTypeModifiers::outermost
@tag C03
@spec
    ensures *r == (if self.rest@.len() > 0 { self.rest@.last() } else { self.last })
@fn FieldType::new_type_name
@tag C01
@spec
    ensures
        r.concrete.name@ == "__typename"@, r.concrete.definition is TypeName, r.concrete.modifier is None,
        r.higher_order_modifiers@ == Seq::<FieldTypeModifier>::empty()
@fn FieldType::reveal_concrete
@tag C04
@spec
    ensures *r == self.concrete
@fn FieldType::is_complex
@tag C07
@spec
    ensures r == (self.concrete.definition is Union || self.concrete.definition is Object || self.concrete.definition is Interface || self.concrete.definition is InputObject)
@fn FieldType::type_modifiers
@tag C01
@spec
    ensures r.last == self.concrete.modifier, r.rest@ == self.higher_order_modifiers@
@fn FieldTypeasTryFrom<json::FieldType>::try_from
@tag C01 C04 C17
@spec
    ensures
        r is Ok <==> complete(json),
        r is Ok ==> type_loaded(json, r->Ok_0),
@loop 0
    invariant
        complete(iter) == complete(json),
        named(iter) == named(json),
        no_double_non_null(json) ==> no_double_non_null(iter)
            && no_none(modifier_builder.higher_order_modifiers@)
            && (iter.kind@ == "NON_NULL"@ ==> inner_nullable(modifier_builder.concrete))
            && sem(json) == ctx(modifier_builder.higher_order_modifiers@, fill(modifier_builder.concrete, sem(iter), sem_nn(iter))),
    decreases iter
@before return Ok(FieldType
    proof {
        assert(higher_order_modifiers@ == modifier_builder.higher_order_modifiers@.reverse());
        lemma_reverse(modifier_builder.higher_order_modifiers@, single(modifier_builder.concrete, Ty::Name(named(json).name->0@)));
    }
@fn Field::new_type_name
@tag C05
@spec
    ensures is_type_name_field(r)
@fn FieldasTryFrom<json::Field>::try_from
@tag C01 C04 C12 C17
@spec
    ensures
        r is Ok <==> complete(json.type_information),
        r is Ok ==> field_loaded(json, r->Ok_0),
