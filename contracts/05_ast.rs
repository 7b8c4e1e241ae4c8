//@mod graphql_parser
// The syntax tree of graphql-parser 0.4.0, copied from its source (src/query/ast.rs, src/common.rs,
// src/position.rs); directives and argument values, which qlc never looks at, are opaque.
use vstd::prelude::*;
verus! {
/// a place in a text, counted from 1; only the parser makes one
#[verifier::external_body]
pub struct Pos { line: usize, column: usize }
impl Pos {
    pub uninterp spec fn line(&self) -> usize;
    pub uninterp spec fn column(&self) -> usize;
    #[verifier::external_body]
    pub fn vx_line(&self) -> (r: usize) ensures r == self.line(), r >= 1 { self.line }
    #[verifier::external_body]
    pub fn vx_column(&self) -> (r: usize) ensures r == self.column(), r >= 1 { self.column }
}
impl Copy for Pos {}
impl Clone for Pos { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub trait Text<'a>: 'a { type Value: 'a; }
impl<'a> Text<'a> for String { type Value = String; }
}
pub mod query { use vstd::prelude::*; use super::{Pos, Text};
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types_in_ground_variants(T)]
pub struct Directive<'a, T: Text<'a>> { p: core::marker::PhantomData<&'a T> }
#[verifier::external_body]
#[verifier::reject_recursive_types_in_ground_variants(T)]
pub struct Value<'a, T: Text<'a>> { p: core::marker::PhantomData<&'a T> }
pub enum Type<'a, T: Text<'a>> { NamedType(T::Value), ListType(Box<Type<'a, T>>), NonNullType(Box<Type<'a, T>>) }
pub struct Document<'a, T: Text<'a>> { pub definitions: Vec<Definition<'a, T>> }
pub enum Definition<'a, T: Text<'a>> { Operation(OperationDefinition<'a, T>), Fragment(FragmentDefinition<'a, T>) }
pub struct FragmentDefinition<'a, T: Text<'a>> { pub position: Pos, pub name: T::Value, pub type_condition: TypeCondition<'a, T>, pub directives: Vec<Directive<'a, T>>, pub selection_set: SelectionSet<'a, T> }
pub enum OperationDefinition<'a, T: Text<'a>> { SelectionSet(SelectionSet<'a, T>), Query(Query<'a, T>), Mutation(Mutation<'a, T>), Subscription(Subscription<'a, T>) }
pub struct Query<'a, T: Text<'a>> { pub position: Pos, pub name: Option<T::Value>, pub variable_definitions: Vec<VariableDefinition<'a, T>>, pub directives: Vec<Directive<'a, T>>, pub selection_set: SelectionSet<'a, T> }
pub struct Mutation<'a, T: Text<'a>> { pub position: Pos, pub name: Option<T::Value>, pub variable_definitions: Vec<VariableDefinition<'a, T>>, pub directives: Vec<Directive<'a, T>>, pub selection_set: SelectionSet<'a, T> }
pub struct Subscription<'a, T: Text<'a>> { pub position: Pos, pub name: Option<T::Value>, pub variable_definitions: Vec<VariableDefinition<'a, T>>, pub directives: Vec<Directive<'a, T>>, pub selection_set: SelectionSet<'a, T> }
pub struct SelectionSet<'a, T: Text<'a>> { pub span: (Pos, Pos), pub items: Vec<Selection<'a, T>> }
pub struct VariableDefinition<'a, T: Text<'a>> { pub position: Pos, pub name: T::Value, pub var_type: Type<'a, T>, pub default_value: Option<Value<'a, T>> }
pub enum Selection<'a, T: Text<'a>> { Field(Field<'a, T>), FragmentSpread(FragmentSpread<'a, T>), InlineFragment(InlineFragment<'a, T>) }
pub struct Field<'a, T: Text<'a>> { pub position: Pos, pub alias: Option<T::Value>, pub name: T::Value, pub arguments: Vec<(T::Value, Value<'a, T>)>, pub directives: Vec<Directive<'a, T>>, pub selection_set: SelectionSet<'a, T> }
pub struct FragmentSpread<'a, T: Text<'a>> { pub position: Pos, pub fragment_name: T::Value, pub directives: Vec<Directive<'a, T>> }
pub enum TypeCondition<'a, T: Text<'a>> { On(T::Value) }
pub struct InlineFragment<'a, T: Text<'a>> { pub position: Pos, pub type_condition: Option<TypeCondition<'a, T>>, pub directives: Vec<Directive<'a, T>>, pub selection_set: SelectionSet<'a, T> }
}
}
verus! {
/// why a text is not a document; it does not say where
#[verifier::external_body]
pub struct ParseError { e: u8 }
impl crate::vx::Txt for ParseError { uninterp spec fn txt(&self) -> Seq<char>; }
#[verifier::external] impl core::fmt::Debug for ParseError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
/// the document that a text is
pub uninterp spec fn doc_of<'a>(text: Seq<char>) -> core::result::Result<query::Document<'a, String>, ParseError>;
#[verifier::external_body]
pub fn parse_query<'a>(text: &'a str) -> (r: core::result::Result<query::Document<'a, String>, ParseError>) ensures r == doc_of::<'a>(text@) { unimplemented!() }
}
