@file src/graphql/variable.rs
@mod graphql::variable
@use use crate::cli::PrintableMessage; => pub use crate::cli::PrintableMessage;
@use use crate::graphql::ir::CompileContext; => pub use crate::graphql::ir::CompileContext;
@use use graphql_parser::query as parsed_query; => pub use crate::graphql_parser::query as parsed_query;
@use use graphql_parser::Pos; => pub use crate::graphql_parser::Pos;
@use use std::path::Path; =>
@header
use crate::vx::*;
use crate::theory::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
impl<'a, 'b, 'c> TryFromSpecImpl<(&'a CompileContext<'a, 'b>, &'c str, Pos)> for VariableType<'c> { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(v: (&'a CompileContext<'a, 'b>, &'c str, Pos)) -> core::result::Result<Self, Error>; }
impl<'a, 'b> FromSpecImpl<(&'a str, &'b Path, Error)> for PrintableMessage { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: (&'a str, &'b Path, Error)) -> Self; }
@footer
pub open spec fn place_of(e: Error) -> Pos {
    match e { Error::UnknownCustomeVariableType(_, p) => p, Error::UnprocessableVariableType(_, p) => p, Error::ListOfListNotSupported(_, p) => p }
}
@fn PrintableMessageasFrom<(&str,&Path,Error)>::from
@tag C14 C19
@spec
    ensures !crate::cli::is_warning(r), crate::cli::told_at(r, __arg0.1@, __arg0.0@, place_of(__arg0.2))
@footer
pub type AstType<'a> = parsed_query::Type<'a, ParsedTextType>;
/// The type that a declaration states, leaving its own nullability out
pub open spec fn ast_nn<'a>(t: AstType<'a>) -> Ty
    decreases t
{
    match t {
        parsed_query::Type::NamedType(n) => Ty::Name(n@),
        parsed_query::Type::ListType(b) => lst(if *b is NonNullType { ast_nn(*b) } else { nul(ast_nn(*b)) }),
        parsed_query::Type::NonNullType(b) => ast_nn(*b),
    }
}
pub open spec fn ast_ty<'a>(t: AstType<'a>) -> Ty { if t is NonNullType { ast_nn(t) } else { nul(ast_nn(t)) } }
/// a named type, or one that is non-null
pub open spec fn flat<'a>(t: AstType<'a>) -> bool { t is NamedType || t is NonNullType && *t->NonNullType_0 is NamedType }
/// what qlc can represent: a named type or a list of named types, each non-null or not
pub open spec fn representable<'a>(t: AstType<'a>) -> bool {
    ||| flat(t)
    ||| t is ListType && flat(*t->ListType_0)
    ||| t is NonNullType && *t->NonNullType_0 is ListType && flat(*(*t->NonNullType_0)->ListType_0)
}
pub open spec fn error_at(e: Error, p: Pos) -> bool {
    match e {
        Error::UnknownCustomeVariableType(_, q) => p == q,
        Error::UnprocessableVariableType(_, q) => p == q,
        Error::ListOfListNotSupported(_, q) => p == q,
    }
}
/// the name at the end of a declared type
pub open spec fn ast_name<'a>(t: AstType<'a>) -> Seq<char>
    decreases t
{
    match t {
        parsed_query::Type::NamedType(n) => n@,
        parsed_query::Type::ListType(b) => ast_name(*b),
        parsed_query::Type::NonNullType(b) => ast_name(*b),
    }
}
/// a built-in scalar is recognised; any other name has to be that of a type of the schema
pub open spec fn var_type_of(name: Seq<char>, v: VariableType<'_>) -> bool {
    match v {
        VariableType::Id => name == "ID"@,
        VariableType::String => name == "String"@,
        VariableType::Float => name == "Float"@,
        VariableType::Int => name == "Int"@,
        VariableType::Boolean => name == "Boolean"@,
        VariableType::Custom(c) => c@ == name && !builtin(name),
    }
}
pub open spec fn builtin(name: Seq<char>) -> bool { name == "ID"@ || name == "String"@ || name == "Float"@ || name == "Int"@ || name == "Boolean"@ }
pub open spec fn var_known(s: crate::graphql::schema::Schema, name: Seq<char>) -> bool { builtin(name) || s.types@.contains_key(name) }
/// C02: the variable is the one that is declared
pub open spec fn declared<'a>(d: parsed_query::VariableDefinition<'a, ParsedTextType>, v: Variable<'_>) -> bool {
    &&& v.prop_name@ == d.name@
    &&& single(v.type_modifier, Ty::Name(ast_name(d.var_type))) == ast_ty(d.var_type)
    &&& var_type_of(ast_name(d.var_type), v.type_ir)
}
pub open spec fn acceptable<'a>(s: crate::graphql::schema::Schema, d: parsed_query::VariableDefinition<'a, ParsedTextType>) -> bool {
    representable(d.var_type) && var_known(s, ast_name(d.var_type))
}
@fn unwrap_var_def
@tag C02 C07 C19
@spec
    ensures
        r is Ok <==> representable(var_def.var_type), // [C02 C07]
        r is Ok ==> single(r->Ok_0.0, Ty::Name(r->Ok_0.1@)) == ast_ty(var_def.var_type) && r->Ok_0.1@ == ast_name(var_def.var_type), // [C02]
        r is Err ==> error_at(r->Err_0, var_def.position), // [C19]
@start
    proof { reveal_with_fuel(ast_nn, 6); reveal_with_fuel(ast_name, 6); }
@fn VariableType<'c>asTryFrom<(&'aCompileContext<'a,'b>,&'cstr,Pos)>::try_from
@tag C02 C04 C07 C19
@spec
    ensures
        r is Ok <==> var_known(*from.0.schema, from.1@), // [C02 C07]
        r is Ok ==> var_type_of(from.1@, r->Ok_0), // [C02 C04]
        r is Err ==> error_at(r->Err_0, from.2), // [C19]
@fn try_build_variable_ir
@tag C02 C07 C19
@spec
    ensures
        r is Ok ==> (r->Ok_0 is None <==> defs@.len() == 0), // [C02]
        r is Ok && defs@.len() > 0 ==> r->Ok_0->0@.len() == defs@.len() && forall|i: int| 0 <= i < defs@.len() ==> declared(#[trigger] defs@[i], r->Ok_0->0@[i]), // [C02]
        r is Ok <==> forall|i: int| 0 <= i < defs@.len() ==> acceptable(*context.schema, #[trigger] defs@[i]), // [C02 C07]
        r is Err ==> exists|i: int| 0 <= i < defs@.len() && !acceptable(*context.schema, #[trigger] defs@[i]) && error_at(r->Err_0, defs@[i].position), // [C19]
@closure 0
|$0: &'a parsed_query::VariableDefinition<'_, ParsedTextType>| -> (r: Result<Variable<'a>>) ensures (r is Ok <==> acceptable(*context.schema, *$0)), r is Ok ==> declared(*$0, r->Ok_0), r is Err ==> error_at(r->Err_0, $0.position)
