@file src/typescript.rs
@mod typescript
@use use crate::cli::PrintableMessage; => pub use crate::cli::PrintableMessage;
@use use std::collections::{HashMap, HashSet}; =>
@header
use crate::vx::*;
use crate::theory::*;
use crate::sorting::*;
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
impl FromSpecImpl<Error> for PrintableMessage { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Error) -> Self; }
@footer
pub open spec fn single_text(m: schema_field::FieldTypeModifier, s: Seq<char>) -> Seq<char> {
    match m {
        schema_field::FieldTypeModifier::None => s,
        schema_field::FieldTypeModifier::Nullable => s + " | null"@,
        schema_field::FieldTypeModifier::List => s + "[]"@,
        schema_field::FieldTypeModifier::NullableList => s + "[] | null"@,
        schema_field::FieldTypeModifier::ListOfNullable => "("@ + s + " | null)[]"@,
        schema_field::FieldTypeModifier::NullableListOfNullable => "("@ + s + " | null)[] | null"@,
    }
}
/// innermost modifier first
pub open spec fn prop_text(rest: Seq<schema_field::FieldTypeModifier>, last: schema_field::FieldTypeModifier, s: Seq<char>) -> Seq<char>
    decreases rest.len()
{
    if rest.len() == 0 { single_text(last, s) } else { single_text(rest.last(), "("@ + prop_text(rest.drop_last(), last, s) + ")"@) }
}
/// the text means the modified type
pub proof fn lemma_single_means(m: schema_field::FieldTypeModifier, s: Seq<char>, t: Ty)
    requires means_primary(s, t)
    ensures means(single_text(m, s), single(m, t))
{
    reveal_strlit(" | null"); reveal_strlit("[]"); reveal_strlit("[] | null"); reveal_strlit("("); reveal_strlit(")"); reveal_strlit(" | null)[]"); reveal_strlit(" | null)[] | null");
    lemma_or_null(s, t);
    lemma_arr(s, t);
    lemma_or_null(s + "[]"@, lst(t));
    lemma_paren(s + " | null"@, nul(t));
    lemma_arr("("@ + (s + " | null"@) + ")"@, nul(t));
    lemma_or_null(("("@ + (s + " | null"@) + ")"@) + "[]"@, lst(nul(t)));
    assert(s + "[] | null"@ =~= (s + "[]"@) + " | null"@);
    assert("("@ + s + " | null)[]"@ =~= ("("@ + (s + " | null"@) + ")"@) + "[]"@);
    assert("("@ + s + " | null)[] | null"@ =~= (("("@ + (s + " | null"@) + ")"@) + "[]"@) + " | null"@);
}
pub proof fn lemma_prop_means(rest: Seq<schema_field::FieldTypeModifier>, last: schema_field::FieldTypeModifier, s: Seq<char>, t: Ty)
    requires means_primary(s, t)
    ensures means(prop_text(rest, last, s), wrap(rest, single(last, t)))
    decreases rest.len()
{
    if rest.len() == 0 { lemma_single_means(last, s, t); }
    else {
        lemma_prop_means(rest.drop_last(), last, s, t);
        lemma_paren(prop_text(rest.drop_last(), last, s), wrap(rest.drop_last(), single(last, t)));
        lemma_single_means(rest.last(), "("@ + prop_text(rest.drop_last(), last, s) + ")"@, wrap(rest.drop_last(), single(last, t)));
    }
}
/// C04: the one text that a scalar has in every position
pub open spec fn custom_text(config: CompileConfig, name: Seq<char>) -> Seq<char> {
    match config.bottom_type_config {
        BottomTypeConfig::DefaultBottomType => "any"@,
        BottomTypeConfig::RealName => name,
        BottomTypeConfig::RealNameWithPrefix(p) => p@ + name,
    }
}
pub open spec fn scalar_text(config: CompileConfig, s: schema_field::ScalarType) -> Seq<char> {
    match s {
        schema_field::ScalarType::Boolean => "boolean"@,
        schema_field::ScalarType::String => "string"@,
        schema_field::ScalarType::Id => "string"@,
        schema_field::ScalarType::Float => "number"@,
        schema_field::ScalarType::Int => "number"@,
        schema_field::ScalarType::Custom(name) => custom_text(config, name@),
    }
}
pub open spec fn tab_of(n: usize) -> Seq<char> { repeat_seq(" "@, n as nat) }
/// C12: no comment ends where the description says so
pub open spec fn stripped(s: Seq<char>) -> Seq<char>
    decreases s.len()
    via stripped_dec
{
    if contains_seq(s, "*/"@) { stripped(replaced(s, "*/"@, Seq::empty())) } else { s }
}
#[via_fn]
proof fn stripped_dec(s: Seq<char>) { reveal_strlit("*/"); lemma_replaced(s, "*/"@, Seq::empty()); }
/// the description, line by line
pub open spec fn indented(d: Seq<char>, n: usize) -> Seq<char> { replaced(d, seq!['\n'], "\n "@ + tab_of(n) + "* "@) }
pub open spec fn comment(content: Seq<char>, n: usize) -> Seq<char> { "/**\n "@ + tab_of(n) + "* "@ + content + "\n "@ + tab_of(n) + "*/\n"@ + tab_of(n) }
/// no comment ends inside
pub open spec fn no_end(s: Seq<char>) -> bool { forall|i: int| 0 <= i && i + 1 < s.len() ==> !(#[trigger] s[i] == '*' && s[i + 1] == '/') }
/// a comment, followed by white space, that ends at its end and not before
pub open spec fn closed_comment(s: Seq<char>, n: usize) -> bool {
    &&& s.len() >= 8 + n
    &&& s[0] == '/' && s[1] == '*' && s[2] == '*'
    &&& no_end(s.take(s.len() - 2 - n))
    &&& s[s.len() - 3 - n] == '*' && s[s.len() - 2 - n] == '/' && s[s.len() - 1 - n] == '\n'
    &&& forall|i: int| s.len() - n <= i < s.len() ==> #[trigger] s[i] == ' '
}
pub proof fn lemma_no_end(s: Seq<char>)
    ensures no_end(s) <==> !contains_seq(s, "*/"@)
{
    reveal_strlit("*/");
    if contains_seq(s, "*/"@) {
        let i = choose|i: int| #[trigger] occurs_at("*/"@, s, i);
        assert(s.subrange(i, i + 2)[0] == s[i] && s.subrange(i, i + 2)[1] == s[i + 1]);
    }
    if !no_end(s) {
        let i = choose|i: int| 0 <= i && i + 1 < s.len() && #[trigger] s[i] == '*' && s[i + 1] == '/';
        assert(s.subrange(i, i + 2) =~= "*/"@);
        assert(occurs_at("*/"@, s, i));
    }
}
pub proof fn lemma_tab(n: nat)
    ensures repeat_seq(" "@, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] repeat_seq(" "@, n)[i] == ' '
    decreases n
{ reveal_strlit(" "); if n > 0 { lemma_tab((n - 1) as nat); } }
pub proof fn lemma_stripped(s: Seq<char>)
    ensures no_end(stripped(s)), no_end(s) ==> stripped(s) == s
    decreases s.len()
{
    lemma_no_end(s);
    if contains_seq(s, "*/"@) { reveal_strlit("*/"); lemma_replaced(s, "*/"@, Seq::empty()); lemma_stripped(replaced(s, "*/"@, Seq::empty())); }
}
pub proof fn lemma_comment(content: Seq<char>, n: usize)
    requires no_end(content)
    ensures closed_comment(comment(content, n), n)
{
    lemma_tab(n as nat);
    reveal_strlit("/**\n "); reveal_strlit("* "); reveal_strlit("\n "); reveal_strlit("*/\n");
    let tab = tab_of(n);
    let c = comment(content, n);
    let h = "/**\n "@ + tab + "* "@;
    let m = h + content;
    assert forall|i: int| 0 <= i && i + 1 < h.len() implies !(#[trigger] h[i] == '*' && h[i + 1] == '/') by { if i >= 5 && i < 5 + n { assert(h[i] == tab[i - 5]); } }
    assert forall|i: int| 0 <= i && i + 1 < m.len() implies !(#[trigger] m[i] == '*' && m[i + 1] == '/') by {
        if i + 1 < h.len() { assert(h[i] == m[i] && h[i + 1] == m[i + 1]); }
        if i >= h.len() { assert(content[i - h.len()] == m[i]); assert(content[i - h.len() + 1] == m[i + 1]); }
        if i + 1 == h.len() { assert(m[i] == h[i]); assert(h[i] == ' '); }
    }
    let t = c.take(c.len() - 2 - n);
    assert(t =~= m + ("\n "@ + tab + "*"@)) by { reveal_strlit("*"); }
    reveal_strlit("*");
    let e = "\n "@ + tab + "*"@;
    assert forall|i: int| 0 <= i && i + 1 < t.len() implies !(#[trigger] t[i] == '*' && t[i + 1] == '/') by {
        if i + 1 < m.len() { assert(m[i] == t[i] && m[i + 1] == t[i + 1]); }
        else { assert(t[i + 1] == e[i + 1 - m.len()]); let k = i + 1 - m.len(); if 2 <= k && k < 2 + n { assert(e[k] == tab[k - 2]); } }
    }
    assert forall|i: int| c.len() - n <= i < c.len() implies #[trigger] c[i] == ' ' by { assert(c[i] == tab[i - (c.len() - n)]); }
}
pub proof fn lemma_doc(documentation: Option<String>, deprecated: bool, n: usize)
    ensures
        documentation is None && !deprecated ==> doc_text(documentation, deprecated, n).len() == 0,
        documentation is Some || deprecated ==> closed_comment(doc_text(documentation, deprecated, n), n),
{
    reveal_strlit("@deprecated"); reveal_strlit("* @deprecated"); reveal_strlit("\n ");
    lemma_tab(n as nat);
    match documentation {
        None => { lemma_comment("@deprecated"@, n); }
        Some(d) => {
            let x = replaced(replaced(indented(d@, n), "/*"@, Seq::empty()), "*/"@, Seq::empty());
            lemma_stripped(x);
            let docs = stripped(x);
            let tab = tab_of(n);
            let m = docs + "\n "@ + tab + "* @deprecated"@;
            assert forall|i: int| 0 <= i && i + 1 < m.len() implies !(#[trigger] m[i] == '*' && m[i + 1] == '/') by {
                if i < docs.len() { assert(m[i] == docs[i]); }
                if i + 1 < docs.len() { assert(m[i + 1] == docs[i + 1]); }
                let k = i + 1 - docs.len();
                if 2 <= k && k < 2 + n { assert(m[i + 1] == tab[k - 2]); }
            }
            lemma_comment(m, n);
            lemma_comment(docs, n);
        }
    }
}
pub open spec fn doc_text(documentation: Option<String>, deprecated: bool, n: usize) -> Seq<char> {
    match documentation {
        None => if deprecated { comment("@deprecated"@, n) } else { Seq::empty() },
        Some(d) => {
            let docs = stripped(replaced(replaced(indented(d@, n), "/*"@, Seq::empty()), "*/"@, Seq::empty()));
            comment(if deprecated { docs + "\n "@ + tab_of(n) + "* @deprecated"@ } else { docs }, n)
        }
    }
}
pub open spec fn optional(m: schema_field::FieldTypeModifier) -> bool { m is Nullable || m is NullableList || m is NullableListOfNullable }
pub open spec fn outermost_of(ft: schema_field::FieldType) -> schema_field::FieldTypeModifier {
    if ft.higher_order_modifiers@.len() > 0 { ft.higher_order_modifiers@.last() } else { ft.concrete.modifier }
}
pub open spec fn type_text(ft: schema_field::FieldType, flat: Seq<char>) -> Seq<char> { prop_text(ft.higher_order_modifiers@, ft.concrete.modifier, flat) }
/// C01 C03: the text of a field's type means the type of the field, which is null or not as its outermost modifier says
pub proof fn lemma_type_text(ft: schema_field::FieldType, flat: Seq<char>)
    ensures
        means(type_text(ft, flat), den(ft, flat)),
        schema_field::no_none(ft.higher_order_modifiers@) ==> (optional(outermost_of(ft)) <==> den(ft, flat) is Null),
{
    lemma_atom(flat);
    lemma_prop_means(ft.higher_order_modifiers@, ft.concrete.modifier, flat, Ty::Name(flat));
    let ms = ft.higher_order_modifiers@;
    if ms.len() > 0 { assert(ms.last() == ms[ms.len() - 1]); }
}
pub open spec fn input_allowed(ft: schema_field::FieldType) -> bool { ft.concrete.definition is Scalar || ft.concrete.definition is Enum || ft.concrete.definition is InputObject }
pub open spec fn input_flat(config: CompileConfig, ft: schema_field::FieldType) -> Seq<char> {
    match ft.concrete.definition {
        schema_field::FieldTypeDefinition::Scalar(s) => scalar_text(config, s),
        _ => ft.concrete.name@,
    }
}
/// C03: the line of an input field
pub open spec fn input_line(config: CompileConfig, name: Seq<char>, f: schema_field::Field) -> Seq<char> {
    "  "@ + doc_text(f.documentation, f.deprecated, 2) + name + (if optional(outermost_of(f.type_description)) { "?: "@ } else { ": "@ }) + type_text(f.type_description, input_flat(config, f.type_description)) + ";"@
}
pub open spec fn input_lines(config: CompileConfig, m: Map<Seq<char>, schema_field::Field>, names: Seq<Seq<char>>) -> Seq<Seq<char>> { names.map_values(|k: Seq<char>| input_line(config, k, m[k])) }
pub open spec fn input_text(config: CompileConfig, t: schema::InputObjectType, names: Seq<Seq<char>>) -> Seq<char> {
    "export type "@ + t.name@ + " = {\n"@ + join_seq(input_lines(config, t.fields@, names), "\n"@) + "\n};"@
}
pub open spec fn input_def(config: CompileConfig, t: schema::InputObjectType, r: Seq<char>) -> bool {
    exists|names: Seq<Seq<char>>| #[trigger] sorted_names(t.fields@.dom(), names) && r =~= input_text(config, t, names)
}
/// the values of an enum, in order
pub open spec fn enum_line(v: Seq<char>) -> Seq<char> { "  "@ + v + " = \""@ + v + "\","@ }
pub open spec fn enum_values(vs: Seq<Seq<char>>, ls: Seq<Seq<char>>) -> bool { sorted_le(ls) && is_perm(vs.map_values(|v: Seq<char>| enum_line(v)), ls) }
pub open spec fn enum_def(name: Seq<char>, documentation: Option<String>, e: schema::EnumType, r: Seq<char>) -> bool {
    exists|ls: Seq<Seq<char>>| #[trigger] enum_values(sv(e.possible_values), ls)
        && r =~= doc_text(documentation, false, 0) + "export enum "@ + name + " {\n"@ + join_seq(ls, "\n"@) + "\n}"@
}
/// C10: the imports are the document type and the used global types, in order
pub open spec fn import_line(names: Seq<char>, module: Seq<char>) -> Seq<char> { "import type { "@ + names + " } from \""@ + module + "\";\n"@ }
pub open spec fn imports_text(config: CompileConfig, node: Seq<char>, used: Set<Seq<char>>, r: Seq<char>) -> bool {
    if used == Set::<Seq<char>>::empty() { r =~= import_line(node, config.typed_graphql_documentnode_module_name@) + "\n"@ }
    else {
        exists|names: Seq<Seq<char>>| #[trigger] sorted_names(used, names)
            && r =~= import_line(node, config.typed_graphql_documentnode_module_name@) + import_line(join_seq(names, ", "@), config.global_types_module_name@) + "\n"@
    }
}
/// C02 C04: the type of a variable
pub open spec fn var_flat(config: CompileConfig, schema: schema::Schema, v: variable::VariableType<'_>) -> Seq<char> {
    match v {
        variable::VariableType::Id => "string"@,
        variable::VariableType::String => "string"@,
        variable::VariableType::Float => "number"@,
        variable::VariableType::Int => "number"@,
        variable::VariableType::Boolean => "boolean"@,
        variable::VariableType::Custom(n) => if schema.types@[n@].definition is Scalar { custom_text(config, n@) } else { n@ },
    }
}
pub open spec fn var_exists(schema: schema::Schema, v: variable::VariableType<'_>) -> bool {
    match v { variable::VariableType::Custom(n) => schema.types@.contains_key(n@), _ => true }
}
/// C09 C10: the global type that a variable uses
pub open spec fn var_uses(schema: schema::Schema, v: variable::VariableType<'_>, k: Seq<char>) -> bool {
    match v { variable::VariableType::Custom(n) => n@ == k && !(schema.types@[n@].definition is Scalar), _ => false }
}
pub open spec fn opt_mark(m: schema_field::FieldTypeModifier) -> Seq<char> { if optional(m) { "?: "@ } else { ": "@ } }
pub open spec fn var_type_text(config: CompileConfig, schema: schema::Schema, v: variable::Variable<'_>) -> Seq<char> { single_text(v.type_modifier, var_flat(config, schema, v.type_ir)) }
/// C02: the line of a variable
pub open spec fn var_line(config: CompileConfig, schema: schema::Schema, v: variable::Variable<'_>) -> Seq<char> {
    "  "@ + v.prop_name@ + opt_mark(v.type_modifier) + var_type_text(config, schema, v) + ";"@
}
pub open spec fn pair_line(x: (&variable::Variable<'_>, String)) -> Seq<char> { "  "@ + x.0.prop_name@ + opt_mark(x.0.type_modifier) + x.1@ + ";"@ }
pub open spec fn var_lines(config: CompileConfig, schema: schema::Schema, t: Seq<variable::Variable<'_>>) -> Seq<Seq<char>> { t.map_values(|v: variable::Variable<'_>| var_line(config, schema, v)) }
pub open spec fn vars_in_order(vs: Seq<variable::Variable<'_>>, t: Seq<variable::Variable<'_>>) -> bool {
    is_perm(vs, t) && forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() ==> str_le(t[i].prop_name@, t[j].prop_name@)
}
pub open spec fn vars_text(config: CompileConfig, schema: schema::Schema, name: Seq<char>, vs: Seq<variable::Variable<'_>>, r: Seq<char>) -> bool {
    exists|t: Seq<variable::Variable<'_>>| #[trigger] vars_in_order(vs, t)
        && r =~= "\n\nexport type "@ + name + " = {\n"@ + join_seq(var_lines(config, schema, t), "\n"@) + "\n};"@
}
pub open spec fn vars_use(schema: schema::Schema, vs: Option<Vec<variable::Variable<'_>>>, k: Seq<char>) -> bool {
    vs is Some && exists|i: int| 0 <= i < vs->0@.len() && var_uses(schema, (#[trigger] vs->0@[i]).type_ir, k)
}
pub open spec fn def_is(op_name: Seq<char>, lines: Seq<char>, d: TypescriptVariableDefinition) -> bool {
    d.name@ =~= op_name + "Variables"@ && d.contents@ =~= "\n\nexport type "@ + d.name@ + " = {\n"@ + lines + "\n};"@
}
/// what `values` becomes: its lines in the order of the names
pub open spec fn pair_lines(t: Seq<(&variable::Variable<'_>, String)>) -> Seq<Seq<char>> { t.map_values(|x: (&variable::Variable<'_>, String)| pair_line(x)) }
pub open spec fn pairs_in_order(vs: Seq<(&variable::Variable<'_>, String)>, t: Seq<(&variable::Variable<'_>, String)>) -> bool {
    is_perm(vs, t) && forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() ==> str_le(t[i].0.prop_name@, t[j].0.prop_name@)
}
pub open spec fn pairs_text(vs: Seq<(&variable::Variable<'_>, String)>, r: Seq<char>) -> bool {
    exists|t: Seq<(&variable::Variable<'_>, String)>, ls: Seq<Seq<char>>| #[trigger] pairs_in_order(vs, t) && r == #[trigger] join_seq(ls, "\n"@)
        && ls.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] ls[i] =~= pair_line(t[i])
}
pub proof fn lemma_pairs(config: CompileConfig, schema: schema::Schema, vars: Seq<variable::Variable<'_>>, vs: Seq<(&variable::Variable<'_>, String)>, r: Seq<char>)
    requires
        pairs_text(vs, r), vs.len() == vars.len(),
        forall|i: int| 0 <= i < vs.len() ==> *(#[trigger] vs[i]).0 == vars[i] && vs[i].1@ == var_type_text(config, schema, vars[i]),
    ensures
        exists|t: Seq<variable::Variable<'_>>| #[trigger] vars_in_order(vars, t) && r == join_seq(var_lines(config, schema, t), "\n"@),
{
    let (t, ls) = choose|t: Seq<(&variable::Variable<'_>, String)>, ls: Seq<Seq<char>>| #[trigger] pairs_in_order(vs, t) && r == #[trigger] join_seq(ls, "\n"@)
        && ls.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] ls[i] =~= pair_line(t[i]);
    assert(ls =~= pair_lines(t));
    let p = choose|p: Seq<int>| #[trigger] perm_by(vs, t, p);
    let u = t.map_values(|x: (&variable::Variable<'_>, String)| *x.0);
    assert(perm_by(vars, u, p)) by {
        assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < vars.len() && u[i] == vars[p[i]] by { assert(t[i] == vs[p[i]]); }
    }
    assert(vars_in_order(vars, u)) by {
        assert forall|i: int, j: int| #![trigger u[i], u[j]] 0 <= i < j < u.len() implies str_le(u[i].prop_name@, u[j].prop_name@) by { assert(str_le(t[i].0.prop_name@, t[j].0.prop_name@)); }
    }
    assert(pair_lines(t) =~= var_lines(config, schema, u)) by {
        assert forall|i: int| 0 <= i < t.len() implies pair_lines(t)[i] == var_lines(config, schema, u)[i] by { assert(t[i] == vs[p[i]]); assert(u[i] == vars[p[i]]); }
    }
}
/// C09: a type whose definition is needed wherever this one's is
pub open spec fn refers(ft: schema_field::FieldType, u: Seq<char>) -> bool {
    (ft.concrete.definition is InputObject || ft.concrete.definition is Enum) && ft.concrete.name@ == u
}
pub open spec fn some_refers(m: Map<Seq<char>, schema_field::Field>, u: Seq<char>) -> bool { exists|f: Seq<char>| m.contains_key(f) && refers((#[trigger] m[f]).type_description, u) }
pub open spec fn succ(ty: schema::Type, u: Seq<char>) -> bool {
    match ty.definition { schema::TypeDefinition::InputObject(t) => some_refers(t.fields@, u), _ => false }
}
pub open spec fn reach_n(s: schema::Schema, a: Seq<char>, b: Seq<char>, n: nat) -> bool
    decreases n
{
    if n == 0 { a == b } else { s.types@.contains_key(a) && exists|c: Seq<char>| #[trigger] succ(s.types@[a], c) && reach_n(s, c, b, (n - 1) as nat) }
}
pub open spec fn reach(s: schema::Schema, a: Seq<char>, b: Seq<char>) -> bool { exists|n: nat| #[trigger] reach_n(s, a, b, n) }
pub open spec fn from_ty(s: schema::Schema, ty: schema::Type, b: Seq<char>) -> bool { exists|c: Seq<char>| #[trigger] succ(ty, c) && reach(s, c, b) }
/// the global types to write: those used and what they are made of
pub open spec fn needed(s: schema::Schema, used: Set<Seq<char>>, b: Seq<char>) -> bool { exists|a: Seq<char>| #[trigger] used.contains(a) && reach(s, a, b) }
pub open spec fn bad_ft(s: schema::Schema, ft: schema_field::FieldType) -> bool {
    !input_allowed(ft) || !(ft.concrete.definition is Scalar) && !s.types@.contains_key(ft.concrete.name@)
}
pub open spec fn some_bad(s: schema::Schema, m: Map<Seq<char>, schema_field::Field>) -> bool { exists|f: Seq<char>| m.contains_key(f) && bad_ft(s, (#[trigger] m[f]).type_description) }
/// an input object that can not be written
pub open spec fn bad_input(s: schema::Schema, ty: schema::Type) -> bool {
    match ty.definition { schema::TypeDefinition::InputObject(t) => some_bad(s, t.fields@), _ => false }
}
pub open spec fn bad_below(s: schema::Schema, a: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] reach(s, a, k) && s.types@.contains_key(k) && bad_input(s, s.types@[k]) }
pub open spec fn bad_from(s: schema::Schema, ty: schema::Type) -> bool { bad_input(s, ty) || exists|c: Seq<char>| #[trigger] succ(ty, c) && bad_below(s, c) }
/// the schema takes for an enum what is one
pub open spec fn enums_agree(s: schema::Schema) -> bool {
    forall|k: Seq<char>| #[trigger] s.types@.contains_key(k) && s.types@[k].definition is InputObject ==> enums_of(s, s.types@[k].definition->InputObject_0.fields@)
}
pub open spec fn enums_of(s: schema::Schema, m: Map<Seq<char>, schema_field::Field>) -> bool {
    forall|f: Seq<char>| #[trigger] m.contains_key(f) ==> enum_ok(s, m[f].type_description)
}
pub open spec fn enum_ok(s: schema::Schema, ft: schema_field::FieldType) -> bool {
    ft.concrete.definition is Enum && s.types@.contains_key(ft.concrete.name@) ==> !(s.types@[ft.concrete.name@].definition is InputObject)
}
pub open spec fn enums_ty(s: schema::Schema, ty: schema::Type) -> bool { ty.definition is InputObject ==> enums_of(s, ty.definition->InputObject_0.fields@) }
pub open spec fn known(s: schema::Schema, m: Map<Seq<char>, &schema::Type>) -> bool {
    forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> s.types@.contains_key(k) && *m[k] == s.types@[k]
}
pub open spec fn grows(a: Map<Seq<char>, &schema::Type>, b: Map<Seq<char>, &schema::Type>) -> bool { forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> b.contains_key(k) }
pub open spec fn has_all(m: Map<Seq<char>, &schema::Type>, ty: schema::Type) -> bool { forall|u: Seq<char>| #[trigger] succ(ty, u) ==> m.contains_key(u) }
/// what came in between `a` and `b` has all of what it needs
pub open spec fn closed_new(s: schema::Schema, a: Map<Seq<char>, &schema::Type>, b: Map<Seq<char>, &schema::Type>) -> bool {
    forall|k: Seq<char>| #[trigger] b.contains_key(k) && !a.contains_key(k) ==> has_all(b, s.types@[k])
}
pub open spec fn room(s: schema::Schema, m: Map<Seq<char>, &schema::Type>) -> nat { s.types@.dom().difference(m.dom()).len() }
pub proof fn lemma_room(s: schema::Schema, a: Map<Seq<char>, &schema::Type>, b: Map<Seq<char>, &schema::Type>)
    requires s.types@.dom().finite(), grows(a, b)
    ensures room(s, b) <= room(s, a), forall|k: Seq<char>| s.types@.contains_key(k) && !a.contains_key(k) && #[trigger] b.contains_key(k) ==> room(s, b) < room(s, a)
{
    let x = s.types@.dom().difference(a.dom());
    let y = s.types@.dom().difference(b.dom());
    assert forall|k: Seq<char>| y.contains(k) implies x.contains(k) by { assert(b.dom().contains(k) <==> b.contains_key(k)); if a.contains_key(k) {} }
    vstd::set_lib::lemma_len_subset(y, x);
    assert forall|k: Seq<char>| s.types@.contains_key(k) && !a.contains_key(k) && #[trigger] b.contains_key(k) implies room(s, b) < room(s, a) by {
        assert(x.contains(k) && !y.contains(k));
        assert(y.subset_of(x.remove(k)));
        vstd::set_lib::lemma_len_subset(y, x.remove(k));
    }
}
pub proof fn lemma_reach_step(s: schema::Schema, a: Seq<char>, c: Seq<char>, b: Seq<char>)
    requires s.types@.contains_key(a), succ(s.types@[a], c), reach(s, c, b)
    ensures reach(s, a, b)
{
    let n = choose|n: nat| #[trigger] reach_n(s, c, b, n);
    assert(reach_n(s, a, b, n + 1));
}
pub proof fn lemma_from_step(s: schema::Schema, a: Seq<char>, b: Seq<char>)
    requires s.types@.contains_key(a), from_ty(s, s.types@[a], b)
    ensures reach(s, a, b)
{
    let c = choose|c: Seq<char>| #[trigger] succ(s.types@[a], c) && reach(s, c, b);
    lemma_reach_step(s, a, c, b);
}
pub proof fn lemma_bad_step(s: schema::Schema, a: Seq<char>)
    requires s.types@.contains_key(a)
    ensures bad_from(s, s.types@[a]) ==> bad_below(s, a)
{
    lemma_reach_self(s, a);
    if bad_from(s, s.types@[a]) && !bad_input(s, s.types@[a]) {
        let c = choose|c: Seq<char>| #[trigger] succ(s.types@[a], c) && bad_below(s, c);
        let k = choose|k: Seq<char>| #[trigger] reach(s, c, k) && s.types@.contains_key(k) && bad_input(s, s.types@[k]);
        lemma_reach_step(s, a, c, k);
    }
}
pub proof fn lemma_reach_self(s: schema::Schema, a: Seq<char>) ensures reach(s, a, a) { assert(reach_n(s, a, a, 0)); }
pub proof fn lemma_reach_closed(s: schema::Schema, m: Map<Seq<char>, &schema::Type>, a: Seq<char>, b: Seq<char>, n: nat)
    requires known(s, m), closed_new(s, Map::empty(), m), m.contains_key(a), reach_n(s, a, b, n)
    ensures m.contains_key(b)
    decreases n
{
    if n > 0 {
        let c = choose|c: Seq<char>| #[trigger] succ(s.types@[a], c) && reach_n(s, c, b, (n - 1) as nat);
        assert(has_all(m, s.types@[a]));
        lemma_reach_closed(s, m, c, b, (n - 1) as nat);
    }
}
/// the definition of a global type
pub open spec fn global_def(config: CompileConfig, name: Seq<char>, ty: schema::Type, r: Seq<char>) -> bool {
    match ty.definition {
        schema::TypeDefinition::Enum(e) => enum_def(name, ty.documentation, e, r),
        schema::TypeDefinition::InputObject(t) => input_def(config, t, r),
        _ => false,
    }
}
pub open spec fn is_global(ty: schema::Type) -> bool { ty.definition is Enum || ty.definition is InputObject }
pub open spec fn global_defs(config: CompileConfig, s: schema::Schema, names: Seq<Seq<char>>, r: Seq<Seq<char>>) -> bool {
    r.len() == names.len() && forall|i: int| 0 <= i < names.len() ==> s.types@.contains_key(names[i]) && global_def(config, names[i], s.types@[names[i]], #[trigger] r[i])
}
/// C09 C11: each needed type, once, in order
pub open spec fn needed_names(s: schema::Schema, used: Set<Seq<char>>, names: Seq<Seq<char>>) -> bool {
    strictly_sorted(names) && forall|k: Seq<char>| #[trigger] names.contains(k) <==> needed(s, used, k)
}
pub open spec fn globals_text(config: CompileConfig, s: schema::Schema, used: Set<Seq<char>>, r: Seq<Seq<char>>) -> bool {
    exists|names: Seq<Seq<char>>| #[trigger] needed_names(s, used, names) && global_defs(config, s, names, r)
}
pub open spec fn globals_file(config: CompileConfig, s: schema::Schema, used: Set<Seq<char>>, r: Seq<char>) -> bool {
    exists|ls: Seq<Seq<char>>| #[trigger] globals_text(config, s, used, ls) && r =~= HEADER_spec() + join_seq(ls, "\n\n"@)
}
/// why there are no global types to write
pub open spec fn globals_refused(s: schema::Schema, used: Set<Seq<char>>) -> bool {
    exists|k: Seq<char>| #[trigger] needed(s, used, k) && (!s.types@.contains_key(k) || !is_global(s.types@[k]) || bad_input(s, s.types@[k]))
}
// ---------------------------------------------------------------- result types (C01 C04 C05 C06 C09 C10 C11 C12)
pub open spec fn names_distinct(c: ir::ComplexCollection) -> bool {
    forall|i: int, j: int| 0 <= i < j < c.possibilities.len() ==> (#[trigger] c.possibilities[i]).name@ != (#[trigger] c.possibilities[j]).name@
}
/// every selection has a possible type, and each once
pub open spec fn wf_coll(c: ir::ComplexCollection) -> bool
    decreases c
{ c.possibilities.len() > 0 && names_distinct(c) && forall|i: int| 0 <= i < c.possibilities.len() ==> wf_fields((#[trigger] c.possibilities[i]).fields) }
pub open spec fn wf_fields(fs: Vec<ir::Field>) -> bool
    decreases fs
{ forall|i: int| 0 <= i < fs.len() ==> wf_field(#[trigger] fs[i]) }
pub open spec fn wf_field(f: ir::Field) -> bool
    decreases f
{ match f.type_ir { ir::FieldType::Complex(c) => wf_coll(c), _ => true } }
/// C09 C10: the enums of a selection
pub open spec fn coll_uses(c: ir::ComplexCollection, k: Seq<char>) -> bool
    decreases c
{ exists|i: int| 0 <= i < c.possibilities.len() && fields_use((#[trigger] c.possibilities[i]).fields, k) }
pub open spec fn fields_use(fs: Vec<ir::Field>, k: Seq<char>) -> bool
    decreases fs
{ exists|i: int| 0 <= i < fs.len() && field_uses(#[trigger] fs[i], k) }
pub open spec fn field_uses(f: ir::Field, k: Seq<char>) -> bool
    decreases f
{ match f.type_ir { ir::FieldType::Enum(n) => n@ == k, ir::FieldType::Complex(c) => coll_uses(c, k), _ => false } }
pub open spec fn cat(parts: Seq<Seq<Seq<char>>>) -> Seq<Seq<char>>
    decreases parts.len()
{ if parts.len() == 0 { Seq::empty() } else { cat(parts.drop_last()) + parts.last() } }
pub open spec fn sub_path(path: Seq<char>, name: Seq<char>) -> Seq<char> { path + "_"@ + name }
/// the type that a property has, but for lists and null
pub open spec fn flat_text(config: CompileConfig, cname: Seq<char>, f: ir::Field, path: Seq<char>) -> Seq<char> {
    match f.type_ir {
        ir::FieldType::Complex(c) => sub_path(path, f.prop_name@),
        ir::FieldType::Enum(n) => n@,
        ir::FieldType::Scalar(s) => scalar_text(config, s),
        ir::FieldType::TypeName => "\""@ + cname + "\""@,
    }
}
/// C01 C04 C12: the line of a property
pub open spec fn prop_line(config: CompileConfig, cname: Seq<char>, f: ir::Field, path: Seq<char>) -> Seq<char> {
    "  "@ + doc_text(f.documentation, f.deprecated, 2) + (if config.use_readonly_types { "readonly "@ } else { ""@ }) + f.prop_name@ + ": "@
        + prop_text(f.type_modifiers.rest@, f.type_modifiers.last, flat_text(config, cname, f, path)) + ";"@
}
pub open spec fn prop_lines(config: CompileConfig, cname: Seq<char>, fs: Vec<ir::Field>, path: Seq<char>) -> Seq<Seq<char>> {
    fs@.map_values(|f: ir::Field| prop_line(config, cname, f, path))
}
pub open spec fn object_text(config: CompileConfig, cname: Seq<char>, fs: Vec<ir::Field>, path: Seq<char>) -> Seq<char> {
    "export type "@ + path + " = {\n"@ + join_seq(prop_lines(config, cname, fs, path), "\n"@) + "\n};"@
}
/// the definitions that a type needs: those of its properties, and its own
pub open spec fn complex_defs(config: CompileConfig, cname: Seq<char>, fs: Vec<ir::Field>, path: Seq<char>, ds: Seq<Seq<char>>) -> bool
    decreases fs, 0nat
{
    exists|parts: Seq<Seq<Seq<char>>>| parts.len() == fs.len()
        && (forall|i: int| 0 <= i < fs.len() ==> field_defs(config, #[trigger] fs[i], path, parts[i]))
        && ds == (#[trigger] cat(parts)).push(object_text(config, cname, fs, path))
}
pub open spec fn field_defs(config: CompileConfig, f: ir::Field, path: Seq<char>, ds: Seq<Seq<char>>) -> bool
    decreases f, 0nat
{ match f.type_ir { ir::FieldType::Complex(c) => coll_defs(config, c, sub_path(path, f.prop_name@), ds), _ => ds.len() == 0 } }
/// the name of a type that is shared: one of these
pub open spec fn one_of(names: Set<Seq<char>>, n: Seq<char>) -> bool { exists|ns: Seq<Seq<char>>| #[trigger] sorted_names(names, ns) && n == join_seq(ns, "\" | \""@) }
/// C06: the types of these names have the properties of this one
pub open spec fn all_same(c: ir::ComplexCollection, names: Set<Seq<char>>, j: int) -> bool {
    &&& 0 <= j < c.possibilities.len() && names.contains(c.possibilities[j].name@)
    &&& forall|i: int| 0 <= i < c.possibilities.len() && names.contains((#[trigger] c.possibilities[i]).name@) ==> ir::same_fields(c.possibilities[i], c.possibilities[j])
    &&& forall|k: Seq<char>| #[trigger] names.contains(k) ==> exists|i: int| 0 <= i < c.possibilities.len() && (#[trigger] c.possibilities[i]).name@ == k
}
pub open spec fn shared_defs(config: CompileConfig, c: ir::ComplexCollection, names: Set<Seq<char>>, path: Seq<char>, ds: Seq<Seq<char>>) -> bool
    decreases c, 0nat
{ exists|j: int, n: Seq<char>| #[trigger] all_same(c, names, j) && #[trigger] one_of(names, n) && 0 <= j < c.possibilities.len() && complex_defs(config, n, c.possibilities[j].fields, path, ds) }
pub open spec fn some_names(names: Set<Seq<char>>) -> bool { true }
pub open spec fn covers(c: ir::ComplexCollection, names: Set<Seq<char>>) -> bool { forall|i: int| 0 <= i < c.possibilities.len() ==> names.contains((#[trigger] c.possibilities[i]).name@) }
/// the alternatives that types of other names than these have
pub open spec fn alts(c: ir::ComplexCollection, names: Set<Seq<char>>, path: Seq<char>, n: int) -> Seq<Seq<char>>
    decreases n
{
    if n <= 0 { Seq::empty() } else if names.contains(c.possibilities[n - 1].name@) { alts(c, names, path, n - 1) } else { alts(c, names, path, n - 1).push(sub_path(path, c.possibilities[n - 1].name@)) }
}
pub open spec fn union_text(path: Seq<char>, alternatives: Seq<Seq<char>>) -> Seq<char> { "export type "@ + path + " = "@ + join_seq(alternatives, " | "@) + ";"@ }
pub open spec fn alt_defs(config: CompileConfig, c: ir::ComplexCollection, names: Set<Seq<char>>, path: Seq<char>, parts: Seq<Seq<Seq<char>>>) -> bool
    decreases c, 0nat
{
    forall|i: int| 0 <= i < c.possibilities.len() && i < parts.len() ==>
        if names.contains((#[trigger] c.possibilities[i]).name@) { parts[i].len() == 0 } else { complex_defs(config, c.possibilities[i].name@, c.possibilities[i].fields, sub_path(path, c.possibilities[i].name@), parts[i]) }
}
pub open spec fn other_path(path: Seq<char>) -> Seq<char> { path + "_$$other"@ }
pub open spec fn union_defs(config: CompileConfig, c: ir::ComplexCollection, names: Set<Seq<char>>, path: Seq<char>, ds: Seq<Seq<char>>) -> bool
    decreases c, 1nat
{
    exists|parts: Seq<Seq<Seq<char>>>, other: Seq<Seq<char>>| parts.len() == c.possibilities.len() && alt_defs(config, c, names, path, parts)
        && (if names == Set::<Seq<char>>::empty() { other.len() == 0 } else { shared_defs(config, c, names, other_path(path), other) })
        && ds == #[trigger] (cat(parts) + other).push(union_text(path, union_alts(c, names, path)))
}
pub open spec fn union_alts(c: ir::ComplexCollection, names: Set<Seq<char>>, path: Seq<char>) -> Seq<Seq<char>> {
    let a = alts(c, names, path, c.possibilities.len() as int);
    if names == Set::<Seq<char>>::empty() { a } else { a.push(other_path(path)) }
}
/// C06: the definitions of what a selection can yield. Each possible type has an alternative, its own or one that types
/// with the same properties share.
pub open spec fn coll_defs(config: CompileConfig, c: ir::ComplexCollection, path: Seq<char>, ds: Seq<Seq<char>>) -> bool
    decreases c, 2nat
{
    ||| c.possibilities.len() == 1 && complex_defs(config, c.possibilities[0].name@, c.possibilities[0].fields, path, ds)
    ||| c.possibilities.len() > 1 && exists|names: Set<Seq<char>>| #[trigger] covers(c, names) && shared_defs(config, c, names, path, ds)
    ||| c.possibilities.len() > 1 && exists|names: Set<Seq<char>>| #[trigger] some_names(names) && union_defs(config, c, names, path, ds)
}
/// C10: what a module exports: a document node of its kind, of its data type, and of its variables' type
pub open spec fn node_name(k: ir::OperationKind) -> Seq<char> {
    match k {
        ir::OperationKind::Mutation => "MutationDocumentNode"@,
        ir::OperationKind::Subscription => "SubscriptionDocumentNode"@,
        ir::OperationKind::Fragment => "FragmentDocumentNode"@,
        ir::OperationKind::Query => "QueryDocumentNode"@,
    }
}
pub open spec fn annotation(op: ir::Operation<'_>) -> Seq<char> {
    if op.kind is Fragment { node_name(op.kind) + "<"@ + op.name@ + ">"@ }
    else { node_name(op.kind) + "<"@ + op.name@ + ", "@ + (if op.variables is Some { op.name@ + "Variables"@ } else { "never"@ }) + ">"@ }
}
pub open spec fn op_vars_text(config: CompileConfig, s: schema::Schema, op: ir::Operation<'_>, r: Seq<char>) -> bool {
    if op.variables is Some { vars_text(config, s, op.name@ + "Variables"@, op.variables->0@, r) } else { r == EMPTY_spec() }
}
/// C09 C10: the global types that a module needs, and so imports
pub open spec fn op_uses(s: schema::Schema, op: ir::Operation<'_>, used: Set<Seq<char>>) -> bool {
    forall|k: Seq<char>| #[trigger] used.contains(k) <==> coll_uses(op.collection, k) || vars_use(s, op.variables, k)
}
pub open spec fn module_text(config: CompileConfig, s: schema::Schema, op: ir::Operation<'_>, used: Set<Seq<char>>, r: Seq<char>) -> bool {
    exists|imports: Seq<char>, ds: Seq<Seq<char>>, vars: Seq<char>|
        #[trigger] imports_text(config, node_name(op.kind), used, imports) && #[trigger] coll_defs(config, op.collection, op.name@, ds) && #[trigger] op_vars_text(config, s, op, vars)
        && r == HEADER_spec() + imports + join_seq(ds, "\n\n"@) + vars + "\n\ndeclare const graphqlDocument: "@ + annotation(op) + ";\nexport default graphqlDocument;"@
}
pub open spec fn vars_exist(s: schema::Schema, op: ir::Operation<'_>) -> bool {
    op.variables is Some ==> forall|i: int| 0 <= i < op.variables->0@.len() ==> var_exists(s, (#[trigger] op.variables->0@[i]).type_ir)
}
/// types that share an alternative use the same enums
pub proof fn lemma_same_uses(a: ir::Complex, b: ir::Complex, k: Seq<char>)
    requires ir::same_fields(a, b)
    ensures fields_use(a.fields, k) <==> fields_use(b.fields, k)
    decreases a
{
    assert forall|i: int| 0 <= i < a.fields.len() implies (field_uses(#[trigger] a.fields[i], k) <==> field_uses(b.fields[i], k)) by { lemma_same_field_uses(a.fields[i], b.fields[i], k); }
    if fields_use(b.fields, k) {
        let i = choose|i: int| 0 <= i < b.fields.len() && field_uses(#[trigger] b.fields[i], k);
        assert(field_uses(a.fields[i], k));
    }
}
pub proof fn lemma_same_field_uses(a: ir::Field, b: ir::Field, k: Seq<char>)
    requires ir::same_field(a, b)
    ensures field_uses(a, k) <==> field_uses(b, k)
    decreases a
{
    if let ir::FieldType::Complex(x) = a.type_ir {
        let y = b.type_ir->Complex_0;
        assert forall|i: int| 0 <= i < x.possibilities.len() implies (fields_use((#[trigger] x.possibilities[i]).fields, k) <==> fields_use(y.possibilities[i].fields, k)) by {
            lemma_same_uses(x.possibilities[i], y.possibilities[i], k);
        }
        if coll_uses(y, k) {
            let i = choose|i: int| 0 <= i < y.possibilities.len() && fields_use((#[trigger] y.possibilities[i]).fields, k);
            assert(fields_use(x.possibilities[i].fields, k));
        }
    }
}
pub proof fn lemma_wf(c: ir::ComplexCollection)
    requires wf_coll(c)
    ensures c.possibilities.len() > 0, names_distinct(c), forall|i: int| 0 <= i < c.possibilities.len() ==> wf_fields((#[trigger] c.possibilities[i]).fields)
{}
pub proof fn lemma_coll_one(config: CompileConfig, c: ir::ComplexCollection, path: Seq<char>)
    requires c.possibilities.len() == 1
    ensures
        forall|ds: Seq<Seq<char>>| complex_defs(config, c.possibilities[0].name@, c.possibilities[0].fields, path, ds) ==> #[trigger] coll_defs(config, c, path, ds),
        forall|k: Seq<char>| #[trigger] coll_uses(c, k) <==> fields_use(c.possibilities[0].fields, k),
{
    assert forall|k: Seq<char>| #[trigger] coll_uses(c, k) <==> fields_use(c.possibilities[0].fields, k) by { if fields_use(c.possibilities[0].fields, k) { assert(fields_use(c.possibilities[0].fields, k)); } }
}
pub proof fn lemma_coll_shared(config: CompileConfig, c: ir::ComplexCollection, names: Set<Seq<char>>, path: Seq<char>)
    requires c.possibilities.len() > 1
    ensures
        forall|ds: Seq<Seq<char>>| covers(c, names) && shared_defs(config, c, names, path, ds) ==> #[trigger] coll_defs(config, c, path, ds),
{}
pub proof fn lemma_shared_defs(config: CompileConfig, c: ir::ComplexCollection, names: Set<Seq<char>>, path: Seq<char>, j: int)
    ensures forall|n: Seq<char>, ds: Seq<Seq<char>>| all_same(c, names, j) && one_of(names, n) && #[trigger] complex_defs(config, n, c.possibilities[j].fields, path, ds) ==> shared_defs(config, c, names, path, ds)
{
    assert forall|n: Seq<char>, ds: Seq<Seq<char>>| all_same(c, names, j) && one_of(names, n) && #[trigger] complex_defs(config, n, c.possibilities[j].fields, path, ds) implies shared_defs(config, c, names, path, ds) by {}
}
pub proof fn lemma_coll_union(config: CompileConfig, c: ir::ComplexCollection, names: Set<Seq<char>>, path: Seq<char>, parts: Seq<Seq<Seq<char>>>, other: Seq<Seq<char>>)
    requires
        c.possibilities.len() > 1, parts.len() == c.possibilities.len(), alt_defs(config, c, names, path, parts),
        if names == Set::<Seq<char>>::empty() { other.len() == 0 } else { shared_defs(config, c, names, other_path(path), other) },
    ensures coll_defs(config, c, path, (cat(parts) + other).push(union_text(path, union_alts(c, names, path))))
{
    let ds = (cat(parts) + other).push(union_text(path, union_alts(c, names, path)));
    assert(union_defs(config, c, names, path, ds));
    assert(some_names(names));
}
pub proof fn lemma_alt_none(config: CompileConfig, c: ir::ComplexCollection, names: Set<Seq<char>>, path: Seq<char>)
    ensures
        alt_defs(config, c, names, path, Seq::empty()), cat(Seq::empty()) =~= Seq::<Seq<char>>::empty(), alts(c, names, path, 0) =~= Seq::<Seq<char>>::empty(),
        forall|k: Seq<char>| !rest_uses(c, names, 0, k),
{}
pub proof fn lemma_alt_step(config: CompileConfig, c: ir::ComplexCollection, names: Set<Seq<char>>, path: Seq<char>, parts: Seq<Seq<Seq<char>>>)
    requires parts.len() < c.possibilities.len()
    ensures
        alts(c, names, path, parts.len() as int + 1) == (if names.contains(c.possibilities[parts.len() as int].name@) { alts(c, names, path, parts.len() as int) } else { alts(c, names, path, parts.len() as int).push(sub_path(path, c.possibilities[parts.len() as int].name@)) }),
        forall|part: Seq<Seq<char>>| #[trigger] cat(parts.push(part)) == cat(parts) + part,
        forall|part: Seq<Seq<char>>| alt_defs(config, c, names, path, parts)
            && (if names.contains(c.possibilities[parts.len() as int].name@) { part.len() == 0 } else { complex_defs(config, c.possibilities[parts.len() as int].name@, c.possibilities[parts.len() as int].fields, sub_path(path, c.possibilities[parts.len() as int].name@), part) })
            ==> alt_defs(config, c, names, path, #[trigger] parts.push(part)),
        forall|k: Seq<char>| #[trigger] rest_uses(c, names, parts.len() as int + 1, k) <==> rest_uses(c, names, parts.len() as int, k) || !names.contains(c.possibilities[parts.len() as int].name@) && fields_use(c.possibilities[parts.len() as int].fields, k),
{
    let n = parts.len() as int;
    assert forall|part: Seq<Seq<char>>| #[trigger] cat(parts.push(part)) == cat(parts) + part by { assert(parts.push(part).drop_last() =~= parts); }
    assert forall|k: Seq<char>| #[trigger] rest_uses(c, names, n + 1, k) <==> rest_uses(c, names, n, k) || !names.contains(c.possibilities[n].name@) && fields_use(c.possibilities[n].fields, k) by {
        if rest_uses(c, names, n, k) { let i = choose|i: int| 0 <= i < n && !names.contains((#[trigger] c.possibilities[i]).name@) && fields_use(c.possibilities[i].fields, k); assert(rest_uses(c, names, n + 1, k)); }
    }
}
pub proof fn lemma_only_same(c: ir::ComplexCollection, names: Set<Seq<char>>, common: ir::Complex)
    requires forall|k: Seq<char>| #[trigger] names.contains(k) ==> exists|i: int| 0 <= i < c.possibilities.len() && (#[trigger] c.possibilities[i]).name@ == k && ir::same_fields(c.possibilities[i], common)
    ensures only_same(c, names, common)
{}
pub proof fn lemma_all_shared(c: ir::ComplexCollection, names: Set<Seq<char>>)
    requires c.possibilities.len() > 0, covers(c, names), forall|j: int, k: Seq<char>| 0 <= j < c.possibilities.len() && names.contains((#[trigger] c.possibilities[j]).name@) ==> (#[trigger] fields_use(c.possibilities[j].fields, k) <==> shared_uses(c, names, k))
    ensures names.contains(c.possibilities[0].name@), forall|k: Seq<char>| #[trigger] coll_uses(c, k) <==> fields_use(c.possibilities[0].fields, k)
{
    lemma_coll_uses(c, names);
    assert forall|k: Seq<char>| #[trigger] coll_uses(c, k) <==> fields_use(c.possibilities[0].fields, k) by { assert(fields_use(c.possibilities[0].fields, k) <==> shared_uses(c, names, k)); }
}
pub proof fn lemma_no_shared(c: ir::ComplexCollection, names: Set<Seq<char>>)
    requires
        forall|i: int| 0 <= i < c.possibilities.len() ==> !names.contains((#[trigger] c.possibilities[i]).name@),
        forall|k: Seq<char>| #[trigger] names.contains(k) ==> exists|i: int| 0 <= i < c.possibilities.len() && (#[trigger] c.possibilities[i]).name@ == k,
    ensures names == Set::<Seq<char>>::empty(), forall|k: Seq<char>| !shared_uses(c, names, k)
{ assert(names =~= Set::empty()); }
pub open spec fn rest_uses(c: ir::ComplexCollection, names: Set<Seq<char>>, n: int, k: Seq<char>) -> bool {
    exists|i: int| 0 <= i < n && !names.contains((#[trigger] c.possibilities[i]).name@) && fields_use(c.possibilities[i].fields, k)
}
pub open spec fn shared_uses(c: ir::ComplexCollection, names: Set<Seq<char>>, k: Seq<char>) -> bool {
    exists|i: int| 0 <= i < c.possibilities.len() && names.contains((#[trigger] c.possibilities[i]).name@) && fields_use(c.possibilities[i].fields, k)
}
pub open spec fn only_same(c: ir::ComplexCollection, names: Set<Seq<char>>, common: ir::Complex) -> bool {
    forall|k: Seq<char>| #[trigger] names.contains(k) ==> exists|i: int| 0 <= i < c.possibilities.len() && (#[trigger] c.possibilities[i]).name@ == k && ir::same_fields(c.possibilities[i], common)
}
pub proof fn lemma_shared(c: ir::ComplexCollection, names: Set<Seq<char>>, common: ir::Complex)
    requires names_distinct(c), only_same(c, names, common)
    ensures
        forall|k: Seq<char>| #[trigger] names.contains(k) ==> exists|i: int| 0 <= i < c.possibilities.len() && (#[trigger] c.possibilities[i]).name@ == k,
        forall|j: int| 0 <= j < c.possibilities.len() && names.contains((#[trigger] c.possibilities[j]).name@) ==> all_same(c, names, j),
        forall|j: int, k: Seq<char>| 0 <= j < c.possibilities.len() && names.contains((#[trigger] c.possibilities[j]).name@) ==> (#[trigger] fields_use(c.possibilities[j].fields, k) <==> shared_uses(c, names, k)),
        names.finite() && names.len() == c.possibilities.len() ==> covers(c, names),
{
    assert forall|i: int| 0 <= i < c.possibilities.len() && names.contains((#[trigger] c.possibilities[i]).name@) implies ir::same_fields(c.possibilities[i], common) by {
        let h = choose|h: int| 0 <= h < c.possibilities.len() && (#[trigger] c.possibilities[h]).name@ == c.possibilities[i].name@ && ir::same_fields(c.possibilities[h], common);
        assert(h == i);
    }
    assert forall|j: int| 0 <= j < c.possibilities.len() && names.contains((#[trigger] c.possibilities[j]).name@) implies all_same(c, names, j) by {
        assert forall|i: int| 0 <= i < c.possibilities.len() && names.contains((#[trigger] c.possibilities[i]).name@) implies ir::same_fields(c.possibilities[i], c.possibilities[j]) by {
            ir::lemma_same_fields(c.possibilities[i], c.possibilities[j], common);
        }
    }
    assert forall|j: int, k: Seq<char>| 0 <= j < c.possibilities.len() && names.contains((#[trigger] c.possibilities[j]).name@) implies (#[trigger] fields_use(c.possibilities[j].fields, k) <==> shared_uses(c, names, k)) by {
        if shared_uses(c, names, k) {
            let i = choose|i: int| 0 <= i < c.possibilities.len() && names.contains((#[trigger] c.possibilities[i]).name@) && fields_use(c.possibilities[i].fields, k);
            assert(all_same(c, names, j));
            lemma_same_uses(c.possibilities[i], c.possibilities[j], k);
        }
    }
    if names.finite() && names.len() == c.possibilities.len() { lemma_covers(c, names); }
}
pub proof fn lemma_unshared(c: ir::ComplexCollection, names: Set<Seq<char>>)
    requires c.possibilities.len() > 0, names =~= Set::<Seq<char>>::empty()
    ensures names.len() != c.possibilities.len(), forall|k: Seq<char>| !shared_uses(c, names, k)
{}
pub proof fn lemma_coll_uses(c: ir::ComplexCollection, names: Set<Seq<char>>)
    ensures forall|k: Seq<char>| #[trigger] coll_uses(c, k) <==> rest_uses(c, names, c.possibilities.len() as int, k) || shared_uses(c, names, k)
{
    assert forall|k: Seq<char>| #[trigger] coll_uses(c, k) <==> rest_uses(c, names, c.possibilities.len() as int, k) || shared_uses(c, names, k) by {
        if coll_uses(c, k) {
            let i = choose|i: int| 0 <= i < c.possibilities.len() && fields_use((#[trigger] c.possibilities[i]).fields, k);
            assert(names.contains(c.possibilities[i].name@) || !names.contains(c.possibilities[i].name@));
        }
    }
}
/// as many names as types: all of them
pub proof fn lemma_covers(c: ir::ComplexCollection, names: Set<Seq<char>>)
    requires
        names.finite(), names.len() == c.possibilities.len(),
        forall|k: Seq<char>| #[trigger] names.contains(k) ==> exists|i: int| 0 <= i < c.possibilities.len() && (#[trigger] c.possibilities[i]).name@ == k,
    ensures covers(c, names)
{
    let all = c.possibilities@.map_values(|p: ir::Complex| p.name@);
    all.lemma_cardinality_of_set();
    assert forall|k: Seq<char>| #[trigger] names.contains(k) implies all.to_set().contains(k) by {
        let i = choose|i: int| 0 <= i < c.possibilities.len() && (#[trigger] c.possibilities[i]).name@ == k;
        assert(all[i] == k);
    }
    vstd::set_lib::lemma_len_subset(names, all.to_set());
    vstd::set_lib::lemma_subset_equality(names, all.to_set());
    assert forall|i: int| 0 <= i < c.possibilities.len() implies names.contains((#[trigger] c.possibilities[i]).name@) by { assert(all[i] == c.possibilities[i].name@); assert(all.to_set().contains(all[i])); }
}
@fn PrintableMessageasFrom<Error>::from
@tag C14
@spec
    ensures crate::cli::reported(r), r.source_information is None
@fn compile_custom_scalar_name
@tag C04
@spec
    ensures r@ =~= custom_text(*config, string_thing@)
@fn type_name_from_scalar
@tag C04
@spec
    ensures r@ == scalar_text(*config, *scalar)
@fn single_prop_type_def
@tag C01 C02 C03
@spec
    ensures r@ =~= single_text(*type_modifier, inner_type_name@)
@fn prop_type_def
@tag C01 C02 C03
@spec
    ensures
        r@ == prop_text(derefs(first_type_modifiers@), *last_type_modifier, flat_type_name@),
        forall|t: Ty| #[trigger] means_primary(flat_type_name@, t) ==> means(r@, wrap(derefs(first_type_modifiers@), single(*last_type_modifier, t))),
@loop 0 it
    invariant
        it.seq() == first_type_modifiers@,
        result@ == prop_text(derefs(first_type_modifiers@).take(it.index@), *last_type_modifier, flat_type_name@),
@loopstart 0
    proof { assert(derefs(first_type_modifiers@).take(it.index@).drop_last() =~= derefs(first_type_modifiers@).take(it.index@ - 1)); }
@loopend 0
    proof { assert(derefs(first_type_modifiers@).take(it.index@).drop_last() =~= derefs(first_type_modifiers@).take(it.index@ - 1)); assert(derefs(first_type_modifiers@).take(it.index@).last() == *type_modifier); }
@tail
    proof {
        assert(derefs(first_type_modifiers@).take(derefs(first_type_modifiers@).len() as int) =~= derefs(first_type_modifiers@));
        assert forall|t: Ty| #[trigger] means_primary(flat_type_name@, t) implies means(result@, wrap(derefs(first_type_modifiers@), single(*last_type_modifier, t))) by {
            lemma_prop_means(derefs(first_type_modifiers@), *last_type_modifier, flat_type_name@, t);
        }
    }
@fn add_sub_input_objects
@tag C09 C03 C16
@spec
    requires
        known(*schema, old(name_to_type)@),
    ensures
        known(*schema, final(name_to_type)@),
        grows(old(name_to_type)@, final(name_to_type)@),
        r is Ok ==> has_all(final(name_to_type)@, *current_type), // [C09]
        r is Ok && enums_agree(*schema) && enums_ty(*schema, *current_type) ==> closed_new(*schema, old(name_to_type)@, final(name_to_type)@), // [C09]
        forall|k: Seq<char>| #[trigger] final(name_to_type)@.contains_key(k) && !old(name_to_type)@.contains_key(k) ==> from_ty(*schema, *current_type, k), // [C09]
        r is Err ==> bad_from(*schema, *current_type), // [C09]
    decreases room(*schema, old(name_to_type)@), 1int
@loop 0 it
    invariant
        *input_object_type == current_type.definition->InputObject_0, current_type.definition is InputObject,
        exists|ks: Seq<Seq<char>>| value_items(input_object_type.fields@, ks, it.seq()),
        known(*schema, name_to_type@),
        grows(old(name_to_type)@, name_to_type@),
        forall|i: int, u: Seq<char>| 0 <= i < it.index@ && #[trigger] refers(it.seq()[i].type_description, u) ==> name_to_type@.contains_key(u),
        enums_agree(*schema) && enums_ty(*schema, *current_type) ==> closed_new(*schema, old(name_to_type)@, name_to_type@),
        forall|k: Seq<char>| #[trigger] name_to_type@.contains_key(k) && !old(name_to_type)@.contains_key(k) ==> from_ty(*schema, *current_type, k),
@loopstart 0
    let ghost ks = choose|ks: Seq<Seq<char>>| value_items(input_object_type.fields@, ks, it.seq());
    proof {
        lemma_room(*schema, old(name_to_type)@, name_to_type@);
        assert(input_object_type.fields@.contains_key(ks[it.index@ - 1]) && input_object_type.fields@[ks[it.index@ - 1]] == *field);
        let u = field.type_description.concrete.name@;
        if refers(field.type_description, u) { assert(some_refers(input_object_type.fields@, u)); assert(succ(*current_type, u)); }
        if bad_ft(*schema, field.type_description) { assert(some_bad(*schema, input_object_type.fields@)); assert(bad_input(*schema, *current_type)); }
    }
@fn add_sub_input_object_field
@tag C09 C03 C16
@spec
    requires
        known(*schema, old(name_to_type)@),
    ensures
        known(*schema, final(name_to_type)@),
        grows(old(name_to_type)@, final(name_to_type)@),
        r is Ok ==> forall|u: Seq<char>| #[trigger] refers(*field_type, u) ==> final(name_to_type)@.contains_key(u), // [C09]
        r is Ok && enums_agree(*schema) && enum_ok(*schema, *field_type) ==> closed_new(*schema, old(name_to_type)@, final(name_to_type)@), // [C09]
        forall|k: Seq<char>| #[trigger] final(name_to_type)@.contains_key(k) && !old(name_to_type)@.contains_key(k) ==> refers(*field_type, field_type.concrete.name@) && reach(*schema, field_type.concrete.name@, k), // [C09]
        r is Err ==> bad_ft(*schema, *field_type) || refers(*field_type, field_type.concrete.name@) && bad_below(*schema, field_type.concrete.name@), // [C09]
    decreases room(*schema, old(name_to_type)@), 0int
@before add_sub_input_objects(name_to_type
    proof {
        assert(grows(old(name_to_type)@, name_to_type@));
        assert(!old(name_to_type)@.contains_key(type_name@) && name_to_type@.contains_key(type_name@));
        lemma_room(*schema, old(name_to_type)@, name_to_type@);
        lemma_reach_self(*schema, type_name@);
        assert(bad_from(*schema, *global_type) ==> bad_below(*schema, type_name@)) by { lemma_bad_step(*schema, type_name@); }
        assert forall|k: Seq<char>| #[trigger] from_ty(*schema, *global_type, k) implies reach(*schema, type_name@, k) by { lemma_from_step(*schema, type_name@, k); }
    }
@tail
    proof { lemma_reach_self(*schema, type_name@); }
@fn global_types_from_names
@tag C09 C11 C16
@inline sorted_names.into_iter()
@spec
    ensures
        r is Ok && enums_agree(*schema) ==> globals_text(*config, *schema, global_names@, texts(r->Ok_0@)), // [C09 C11]
        r is Err ==> globals_refused(*schema, global_names@), // [C09]
@loop 0 it
    invariant
        set_items(global_names@, it.seq()),
        known(*schema, name_to_type@),
        enums_agree(*schema) ==> closed_new(*schema, Map::empty(), name_to_type@),
        forall|i: int| 0 <= i < it.index@ ==> name_to_type@.contains_key((#[trigger] it.seq()[i])@),
        forall|k: Seq<char>| #[trigger] name_to_type@.contains_key(k) ==> needed(*schema, global_names@, k),
@loopstart 0
    proof {
        lemma_reach_self(*schema, name@);
        assert(needed(*schema, global_names@, name@));
        if schema.types@.contains_key(name@) {
            assert(bad_from(*schema, schema.types@[name@]) ==> globals_refused(*schema, global_names@)) by {
                if bad_from(*schema, schema.types@[name@]) {
                    lemma_bad_step(*schema, name@);
                    let k = choose|k: Seq<char>| #[trigger] reach(*schema, name@, k) && schema.types@.contains_key(k) && bad_input(*schema, schema.types@[k]);
                    assert(needed(*schema, global_names@, k));
                }
            }
            assert forall|k: Seq<char>| #[trigger] from_ty(*schema, schema.types@[name@], k) implies needed(*schema, global_names@, k) by { lemma_from_step(*schema, name@, k); }
        }
    }
@closure 1
|$0: &(&&str, &&schema::Type)| -> (r: &&str) ensures r@ == $0.0@
@before sorted_names.sort_unstable_by_key
    let ghost unsorted = sorted_names@;
@after sorted_names.sort_unstable_by_key
    let ghost items = sorted_names@;
    proof { lemma_perm_map(name_to_type@, unsorted, items); }
@loop 1 it
    invariant
        it.seq() == items,
        map_items(name_to_type@, items), known(*schema, name_to_type@),
        forall|k: Seq<char>| #[trigger] name_to_type@.contains_key(k) ==> needed(*schema, global_names@, k),
        __err is None ==> sv(__acc).len() == it.index@,
        __err is None ==> forall|i: int| 0 <= i < it.index@ ==> global_def(*config, items[i].0@, **items[i].1, #[trigger] sv(__acc)[i]),
        __err is Some ==> globals_refused(*schema, global_names@),
    ensures
        __err is None ==> it.index@ == it.seq().len(),
@loopstart 1
    let ghost before = __acc;
@loopend 1
    proof { assert(sv(__acc) =~= sv(before).push(sv(__acc).last())); }
@loopafter 1
    proof {
        if __err is None && enums_agree(*schema) {
            let names = key_seq(items);
            assert forall|k: Seq<char>| #[trigger] names.contains(k) <==> needed(*schema, global_names@, k) by {
                assert(name_to_type@.dom().contains(k) <==> names.contains(k));
                if needed(*schema, global_names@, k) {
                    let a = choose|a: Seq<char>| #[trigger] global_names@.contains(a) && reach(*schema, a, k);
                    let n = choose|n: nat| #[trigger] reach_n(*schema, a, k, n);
                    lemma_reach_closed(*schema, name_to_type@, a, k, n);
                }
            }
            assert(needed_names(*schema, global_names@, names));
            assert(global_defs(*config, *schema, names, texts(__acc@)));
        }
    }
@fn compile_globals
@tag C09 C11
@spec
    ensures
        r is Ok && enums_agree(*schema) ==> globals_file(*config, *schema, global_names@, r->Ok_0.contents@), // [C09 C11]
        r is Err ==> globals_refused(*schema, global_names@), // [C09]
@fn type_definitions_from_complex_ir
@tag C01 C04 C05 C06 C09 C10 C12 C16
@spec
    ensures
        wf_fields(complex_ir.fields) ==> r is Ok,
        wf_fields(complex_ir.fields) ==> complex_defs(*config, complex_ir.name@, complex_ir.fields, prop_path@, texts(r->Ok_0@)),
        wf_fields(complex_ir.fields) ==> forall|k: Seq<char>| #[trigger] final(global_types)@.contains(k) <==> old(global_types)@.contains(k) || fields_use(complex_ir.fields, k), // [C09 C10]
    decreases complex_ir.fields, 0nat
@start
    let ghost mut parts: Seq<Seq<Seq<char>>> = Seq::empty();
@loop 0 it
    invariant
        it.seq().len() == complex_ir.fields.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == complex_ir.fields[i],
        parts.len() == it.index@, sv(prop_defs).len() == it.index@,
        wf_fields(complex_ir.fields) ==> forall|i: int| 0 <= i < it.index@ ==> field_defs(*config, #[trigger] complex_ir.fields[i], prop_path@, parts[i]),
        wf_fields(complex_ir.fields) ==> sv(definitions) =~= cat(parts),
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] sv(prop_defs)[i] == prop_line(*config, complex_ir.name@, complex_ir.fields[i], prop_path@),
        wf_fields(complex_ir.fields) ==> forall|k: Seq<char>| #[trigger] global_types@.contains(k) <==> old(global_types)@.contains(k) || exists|i: int| 0 <= i < it.index@ && field_uses(#[trigger] complex_ir.fields[i], k),
@loopstart 0
    let ghost defs_before = definitions;
    let ghost lines_before = prop_defs;
    let ghost parts_before = parts;
    proof { assert(*field_ir == complex_ir.fields[it.index@ - 1]); }
@loopend 0
    proof {
        let part = sv(definitions).skip(sv(defs_before).len() as int);
        assert forall|x: Seq<String>| definitions@ == #[trigger] (defs_before@ + x) implies texts(x) == part by { assert(texts(x) =~= part); }
        parts = parts.push(part);
        assert(parts.drop_last() =~= parts_before);
        assert(sv(prop_defs) =~= sv(lines_before).push(sv(prop_defs).last()));
    }
@tail
    proof {
        assert(sv(prop_defs) =~= prop_lines(*config, complex_ir.name@, complex_ir.fields, prop_path@));
        if wf_fields(complex_ir.fields) { assert(sv(definitions) =~= cat(parts).push(sv(definitions).last())); }
    }
@fn type_definitions_from_smoosh_complex_ir
@tag C05 C06 C09 C10 C11 C16
@spec
    ensures
        wf_fields(complex.fields) ==> r is Ok, // [C06]
        wf_fields(complex.fields) ==> forall|names: Set<Seq<char>>| #[trigger] set_items_owned(names, possibilities@) ==> exists|n: Seq<char>| #[trigger] one_of(names, n) && complex_defs(*config, n, complex.fields, smooth_type_name@, texts(r->Ok_0@)), // [C06 C11]
        wf_fields(complex.fields) ==> forall|k: Seq<char>| #[trigger] final(global_types)@.contains(k) <==> old(global_types)@.contains(k) || fields_use(complex.fields, k), // [C09 C10]
    decreases complex.fields, 1nat
@before sorted.sort_unstable()
    let ghost unsorted = sorted@;
@after sorted.sort_unstable()
    proof {
        assert forall|names: Set<Seq<char>>| #[trigger] set_items_owned(names, unsorted) implies sorted_names(names, texts(sorted@)) by {
            lemma_perm_set(names, unsorted, sorted@);
            assert(names_seq(sorted@) =~= texts(sorted@));
        }
    }
@before type_definitions_from_complex_ir(config, global_types, &modified_complex
    proof { assert forall|names: Set<Seq<char>>| #[trigger] set_items_owned(names, unsorted) implies one_of(names, modified_complex.name@) by {} }
@fn type_definitions_from_complex_field_collection
@tag C05 C06 C09 C10 C11 C16
@attr #[verifier::spinoff_prover]
@spec
    ensures
        wf_coll(*collection) ==> r is Ok, // [C06]
        wf_coll(*collection) ==> coll_defs(*config, *collection, main_type@, texts(r->Ok_0@)), // [C06]
        wf_coll(*collection) ==> forall|k: Seq<char>| #[trigger] final(global_types)@.contains(k) <==> old(global_types)@.contains(k) || coll_uses(*collection, k), // [C09 C10]
    decreases collection, 0nat
@hide
    hide(complex_defs); hide(coll_defs); hide(shared_defs); hide(union_defs); hide(ir::same_fields); hide(fields_use); hide(coll_uses); hide(wf_coll); hide(wf_fields);
    hide(alt_defs); hide(rest_uses); hide(shared_uses); hide(all_same); hide(alts); hide(cat); hide(covers); hide(one_of); hide(names_distinct); hide(only_same);
@start
    proof { if wf_coll(*collection) { lemma_wf(*collection); } if collection.possibilities.len() == 1 { lemma_coll_one(*config, *collection, main_type@); } }
@closure 2
|$0: &&ir::Complex| -> (r: bool) ensures r == (common_fields is Some && ir::same_fields(**$0, *common_fields->0))
@closure 3
|$0: &ir::Complex| -> (r: bool) ensures r == ir::same_fields(**possibility, *$0)
@closure 4
|$0: &'_ ir::Complex| -> (r: &'_ str) ensures r@ == $0.name@
@before let num_repeats
    let ghost c = *collection;
    let ghost shared = repeated_possiblities@;
    proof {
        lemma_coll_shared(*config, c, shared, main_type@);
        assert(common_fields is None ==> shared =~= Set::<Seq<char>>::empty());
        if common_fields is Some {
            lemma_only_same(c, shared, *common_fields->0);
            if wf_coll(c) { lemma_shared(c, shared, *common_fields->0); }
        } else { lemma_unshared(c, shared); }
    }
@before return type_definitions_from_smoosh
    proof {
        if wf_coll(c) { lemma_all_shared(c, shared); }
        lemma_shared_defs(*config, c, shared, main_type@, 0);
    }
@before let mut definitions
    let ghost mut parts: Seq<Seq<Seq<char>>> = Seq::empty();
    let ghost mut other: Seq<Seq<char>> = Seq::empty();
    let ghost mut rep: int = -1;
    let ghost start = global_types@;
    proof { lemma_alt_none(*config, c, shared, main_type@); }
@loop 1 it
    invariant
        it.seq().len() == c.possibilities.len(), c == *collection, start == old(global_types)@, shared == repeated_possiblities@,
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == c.possibilities[i],
        wf_coll(c) ==> forall|i: int| 0 <= i < c.possibilities.len() ==> wf_fields((#[trigger] c.possibilities[i]).fields),
        parts.len() == it.index@,
        sv(definitions) == cat(parts),
        sv(names) == alts(c, shared, main_type@, it.index@),
        wf_coll(c) ==> alt_defs(*config, c, shared, main_type@, parts),
        maybe_common_representative is None ==> forall|i: int| 0 <= i < it.index@ ==> !shared.contains((#[trigger] c.possibilities[i]).name@),
        maybe_common_representative is Some ==> 0 <= rep < it.index@ && shared.contains(c.possibilities[rep].name@) && *maybe_common_representative->0 == c.possibilities[rep],
        wf_coll(c) ==> forall|k: Seq<char>| #[trigger] global_types@.contains(k) <==> start.contains(k) || rest_uses(c, shared, it.index@, k),
@loopstart 1
    let ghost defs_before = definitions;
    let ghost names_before = names;
    proof {
        assert(*possibility == c.possibilities[it.index@ - 1]);
        lemma_alt_step(*config, c, shared, main_type@, parts);
    }
@before continue
    proof { rep = it.index@ - 1; parts = parts.push(Seq::empty()); assert(cat(parts) =~= sv(definitions)); }
@loopend 1
    proof {
        let part = sv(definitions).skip(sv(defs_before).len() as int);
        assert forall|x: Seq<String>| definitions@ == #[trigger] (defs_before@ + x) implies texts(x) == part by { assert(texts(x) =~= part); }
        parts = parts.push(part);
        assert(sv(definitions) =~= cat(parts));
        assert(sv(names) =~= sv(names_before).push(sub_path(main_type@, possibility.name@)));
    }
@before if let Some(common_representative)
    let ghost defs_before = definitions;
    let ghost names_before = names;
    proof {
        if wf_coll(c) { lemma_coll_uses(c, shared); }
        if maybe_common_representative is Some { lemma_shared_defs(*config, c, shared, other_path(main_type@), rep); }
    }
@after definitions.append(&mut type_definitions_from_smoosh_complex_ir
    proof {
        other = sv(definitions).skip(sv(defs_before).len() as int);
        assert forall|x: Seq<String>| definitions@ == #[trigger] (defs_before@ + x) implies texts(x) == other by { assert(texts(x) =~= other); }
    }
@before definitions.push(format!("export type {main_type}
    let ghost defs_done = definitions;
    proof {
        if maybe_common_representative is None { lemma_no_shared(c, shared); }
        assert(maybe_common_representative is Some ==> sv(names) =~= sv(names_before).push(other_path(main_type@)));
        assert(sv(names) =~= union_alts(c, shared, main_type@));
        assert(sv(definitions) =~= cat(parts) + other);
    }
@tail
    proof {
        if wf_coll(c) { lemma_coll_union(*config, c, shared, main_type@, parts, other); }
        assert(sv(definitions) =~= sv(defs_done).push(sv(definitions).last()));
        assert(sv(definitions) == (cat(parts) + other).push(union_text(main_type@, union_alts(c, shared, main_type@))));
    }
@fn compile_ir
@tag C02 C06 C09 C10 C16
@attr #[verifier::spinoff_prover]
@hide
    hide(coll_defs); hide(coll_uses); hide(wf_coll); hide(imports_text); hide(vars_text); hide(vars_use);
@spec
    ensures
        wf_coll(op_ir.collection) ==> (r is Ok <==> vars_exist(*schema, *op_ir)), // [C02 C06 C07]
        wf_coll(op_ir.collection) && r is Ok ==> op_uses(*schema, *op_ir, r->Ok_0.global_types_used@), // [C09 C10]
        wf_coll(op_ir.collection) && r is Ok ==> module_text(*config, *schema, *op_ir, r->Ok_0.global_types_used@, r->Ok_0.contents@), // [C01 C02 C06 C10]
@closure 0
|$0: &TypescriptVariableDefinition| -> (r: &str) ensures r@ == $0.contents@
@closure 1
|$0: &TypescriptVariableDefinition| -> (r: &str) ensures r@ == $0.name@
@before let data_name
    let ghost vars = variables@;
    let ghost used = global_types_used@;
    let ghost ds = sv(type_definitions);
    let ghost imps = imports@;
    proof { assert(op_vars_text(*config, *schema, *op_ir, vars)); }
@tail
    proof {
        assert(typed_documentnode_annotation@ =~= annotation(*op_ir));
        assert(__tail->Ok_0.contents@ =~= HEADER_spec() + imps + join_seq(ds, "\n\n"@) + vars + "\n\ndeclare const graphqlDocument: "@ + annotation(*op_ir) + ";\nexport default graphqlDocument;"@);
        if wf_coll(op_ir.collection) {
            assert(coll_defs(*config, op_ir.collection, op_ir.name@, ds));
            assert(imports_text(*config, node_name(op_ir.kind), used, imps));
        }
    }
@fn compile_documentation
@tag C12 C16
@start
    proof { lemma_doc(*documentation, deprecated, tab_width); reveal_strlit(""); reveal_strlit("*/"); reveal_strlit("/*"); assert(""@ =~= Seq::<char>::empty()); }
@loopstart 0
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); reveal_strlit("*/"); lemma_replaced(processed@, "*/"@, Seq::empty()); }
@spec
    ensures
        r@ =~= doc_text(*documentation, deprecated, tab_width),
        documentation is Some || deprecated ==> closed_comment(r@, tab_width),
        documentation is None && !deprecated ==> r@.len() == 0,
@closure 0
|$0: &str| -> (r: String) ensures r@ == stripped(replaced(replaced(indented($0@, tab_width), "/*"@, Seq::empty()), "*/"@, Seq::empty()))
@closure 1
|$0: &str| -> (r: String) ensures r@ =~= comment($0@, tab_width)
@loop 0
    invariant stripped(processed@) == stripped(replaced(replaced(indented(docs@, tab_width), "/*"@, Seq::empty()), "*/"@, Seq::empty()))
    decreases processed@.len()
@fn from_input_def_field_def
@tag C03 C04
@spec
    ensures
        r is Ok <==> input_allowed(field.type_description),
        r is Ok ==> r->Ok_0@ == input_flat(*config, field.type_description),
@fn input_def_from_type
@tag C03 C11
@spec
    ensures
        r is Ok <==> forall|k: Seq<char>| #[trigger] input_type.fields@.contains_key(k) ==> input_allowed(input_type.fields@[k].type_description),
        r is Ok ==> input_def(*config, *input_type, r->Ok_0@),
@closure 0
|$0: &(&String, &schema_field::Field)| -> (r: &String) ensures r == $0.0
@before fields.push(ts_field);
        let ghost before = fields;
@loopend 0
    proof {
        assert(ts_field@ =~= input_line(*config, name@, *field));
        assert(sv(fields) =~= sv(before).push(ts_field@));
    }
@before for (name, field) in sorted
    let ghost items = sorted@;
    proof {
        let s = choose|s: Seq<(&String, &schema_field::Field)>| #[trigger] map_items(input_type.fields@, s) && is_perm(s, sorted@);
        lemma_perm_map(input_type.fields@, s, sorted@);
    }
@loop 0 it
    invariant
        it.seq() == items,
        map_items(input_type.fields@, items),
        sv(fields).len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> input_allowed((#[trigger] items[i]).1.type_description) && sv(fields)[i] == input_line(*config, items[i].0@, *items[i].1),
@tail
    proof {
        let names = key_seq(items);
        assert(sv(fields) =~= input_lines(*config, input_type.fields@, names));
        assert(sorted_names(input_type.fields@.dom(), names));
    }
@fn enum_def_from_type
@tag C04 C09 C11 C12
@spec
    ensures enum_def(name@, *documentation, *enum_type, r@)
@closure 0
|$0: &String| -> (r: String) ensures r@ =~= enum_line($0@)
@before sorted_values.sort_unstable()
    let ghost unsorted = sorted_values@;
@tail
    proof {
        let vs = sv(enum_type.possible_values);
        lemma_perm_texts(unsorted, sorted_values@);
        assert(texts(unsorted) =~= vs.map_values(|v: Seq<char>| enum_line(v)));
        let ls = texts(sorted_values@);
        assert(enum_values(vs, ls));
    }
@fn compile_imports
@tag C10 C11
@start
    proof {
        reveal_strlit("import type { "); reveal_strlit(" } from \""); reveal_strlit("\";\n\n"); reveal_strlit("\";\n"); reveal_strlit("\";\nimport type { "); reveal_strlit("\n");
        if used_globals@ =~= Set::<Seq<char>>::empty() {}
    }
@spec
    ensures imports_text(*config, typed_documentnode_name@, used_globals@, r@)
@closure 0
|$0: &'_ String| -> (r: &'_ str) ensures r@ == $0@
@before sorted_names.sort_unstable()
    let ghost unsorted = sorted_names@;
@after sorted_names.sort_unstable()
    proof {
        lemma_perm_set(used_globals@, unsorted, sorted_names@);
        assert(names_seq(sorted_names@) =~= texts(sorted_names@));
        assert(crate::sorting::sorted_names(used_globals@, names_seq(sorted_names@)));
    }
@fn compile_variable_type_name
@tag C02 C04 C09 C10
@spec
    ensures
        r is Ok <==> var_exists(*schema, var_ir.type_ir), // [C02]
        r is Ok ==> r->Ok_0@ == var_flat(*config, *schema, var_ir.type_ir), // [C02 C04]
        r is Ok ==> forall|k: Seq<char>| #[trigger] final(global_types)@.contains(k) <==> old(global_types)@.contains(k) || var_uses(*schema, var_ir.type_ir, k), // [C09 C10]
@fn compile_variables_type_definition
@tag C02 C09 C10 C11
@inline var_irs.iter()
@inline op_ir.variables.as_ref()
@spec
    ensures
        r is Ok ==> (r->Ok_0 is Some <==> op_ir.variables is Some), // [C02 C10]
        r is Ok && r->Ok_0 is Some ==> r->Ok_0->0.name@ =~= op_ir.name@ + "Variables"@, // [C10]
        r is Ok && r->Ok_0 is Some ==> vars_text(*config, *schema, r->Ok_0->0.name@, op_ir.variables->0@, r->Ok_0->0.contents@), // [C02 C11]
        r is Ok ==> forall|k: Seq<char>| #[trigger] final(global_types)@.contains(k) <==> old(global_types)@.contains(k) || vars_use(*schema, op_ir.variables, k), // [C09 C10]
        r is Ok <==> (op_ir.variables is Some ==> forall|i: int| 0 <= i < op_ir.variables->0@.len() ==> var_exists(*schema, (#[trigger] op_ir.variables->0@[i]).type_ir)), // [C02 C07]
@loop 0 it
    invariant
        it.seq().len() == var_irs@.len(),
        op_ir.variables is Some, *var_irs == op_ir.variables->0,
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == var_irs@[i],
        __err is None ==> __acc@.len() == it.index@,
        __err is None ==> forall|i: int| 0 <= i < it.index@ ==> var_exists(*schema, (#[trigger] var_irs@[i]).type_ir),
        __err is Some ==> exists|i: int| 0 <= i < var_irs@.len() && !var_exists(*schema, (#[trigger] var_irs@[i]).type_ir),
        __err is None ==> forall|i: int| 0 <= i < it.index@ ==> *(#[trigger] __acc@[i]).0 == var_irs@[i] && __acc@[i].1@ == var_type_text(*config, *schema, var_irs@[i]),
        __err is None ==> forall|k: Seq<char>| #[trigger] global_types@.contains(k) <==> old(global_types)@.contains(k) || exists|i: int| 0 <= i < it.index@ && var_uses(*schema, (#[trigger] var_irs@[i]).type_ir, k),
    ensures
        __err is None ==> it.index@ == it.seq().len(),
@loopafter 0
    proof {
        if __err is None {
            assert forall|k: Seq<char>| #[trigger] global_types@.contains(k) <==> old(global_types)@.contains(k) || vars_use(*schema, op_ir.variables, k) by {}
            assert forall|r: Seq<char>| #[trigger] pairs_text(__acc@, r) implies exists|t: Seq<variable::Variable<'_>>| #[trigger] vars_in_order(var_irs@, t) && r == join_seq(var_lines(*config, *schema, t), "\n"@)
                by { lemma_pairs(*config, *schema, var_irs@, __acc@, r); }
        }
    }
@before values.sort_unstable_by_key
    let ghost unsorted = values@;
@after values.sort_unstable_by_key
    proof { assert(pairs_in_order(unsorted, values@)); }
@closure 2
|$0: Vec<(&variable::Variable<'_>, String)>| -> (r: String) ensures pairs_text($0@, r@)
@closure 3
|$0: &(&variable::Variable<'_>, String)| -> (r: &String) ensures r == &($0).0.prop_name
@closure 4
|$0: (&variable::Variable<'_>, String)| -> (r: String) ensures r@ =~= pair_line($0)
@closure 5
|$0: Option<String>| -> (r: Option<TypescriptVariableDefinition>) ensures r is Some <==> $0 is Some, r is Some ==> def_is(op_ir.name@, $0->0@, r->0)
@closure 6
|$0: String| -> (r: TypescriptVariableDefinition) ensures def_is(op_ir.name@, $0@, r)
