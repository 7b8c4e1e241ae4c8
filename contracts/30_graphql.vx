@file src/graphql.rs
@mod graphql
@use use super::cli::{LocationInformation, PrintableMessage, RuntimeConfig}; => pub use super::cli::{LocationInformation, PrintableMessage, RuntimeConfig};
@use use graphql_parser::query::{Definition, Document, FragmentDefinition, OperationDefinition}; => pub use crate::graphql_parser::query::{Definition, Document, FragmentDefinition, OperationDefinition};
@use use std::collections::{BTreeMap, HashMap, HashSet}; =>
@use use std::fs::File; =>
@use use std::io::{BufReader, Read}; => use crate::vx::Read;
@use use std::path::{Path, PathBuf}; =>
@header
use crate::vx::*;
use crate::graphql_parser;
use crate::graphql_parser::Pos;
use crate::graphql_parser::doc_of;
use crate::cli::{is_warning, loc_ok, msg_ok, points_at, reported, told_at};
use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl};
impl<'a> FromSpecImpl<&'a RuntimeConfig> for CompileConfig { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &'a RuntimeConfig) -> Self; }
@footer
// ---------------------------------------------------------------- documents
/// the text of a document, with its lines ended by \n
pub open spec fn doc_text(path: Seq<char>) -> core::result::Result<Seq<char>, IoError> {
    match open_error(path) {
        Some(e) => Err(e),
        None => match text_of(path) { Ok(t) => Ok(replaced(t, "\r\n"@, "\n"@)), Err(e) => Err(e) },
    }
}
pub open spec fn readable(path: Seq<char>) -> bool { doc_text(path) is Ok }
pub open spec fn doc(path: Seq<char>) -> Seq<char> { doc_text(path)->Ok_0 }
/// C07: the text is a document of one definition
pub open spec fn single_doc(text: Seq<char>) -> bool { doc_of(text) is Ok && doc_of(text)->Ok_0.definitions@.len() == 1 }
pub open spec fn definition_of<'a>(text: Seq<char>) -> Definition<'a, ParsedTextType> { doc_of(text)->Ok_0.definitions@[0] }
pub open spec fn place_of(d: Definition<'_, ParsedTextType>) -> Pos {
    match d {
        Definition::Operation(OperationDefinition::SelectionSet(s)) => s.span.0,
        Definition::Operation(OperationDefinition::Query(q)) => q.position,
        Definition::Operation(OperationDefinition::Mutation(m)) => m.position,
        Definition::Operation(OperationDefinition::Subscription(s)) => s.position,
        Definition::Fragment(f) => f.position,
    }
}
// ---------------------------------------------------------------- C08: imports
pub open spec fn skippable(line: Seq<char>) -> bool { line.len() == 0 || trimmed(line).len() == 0 || line[0] == '#' }
pub open spec fn is_import(line: Seq<char>) -> bool { is_prefix(IMPORT_START_spec(), line) }
/// a line before the first one that is neither blank nor a comment
pub open spec fn import_at(text: Seq<char>, k: int) -> bool {
    0 <= k < lines_of(text).len() && is_import(lines_of(text)[k]) && trimmed(lines_of(text)[k]).len() > 0 && forall|j: int| 0 <= j < k ==> skippable(#[trigger] lines_of(text)[j])
}
/// up to the last quote
pub open spec fn import_path(line: Seq<char>) -> Seq<char> {
    let q = line.skip(IMPORT_START_spec().len() as int);
    match last_at(q, '"') { Some(i) => q.take(i), None => q }
}
pub open spec fn resolved(config: CompileConfig, p: Seq<char>, dir: Seq<char>) -> Seq<char> {
    if config.root_dir_import_prefix is Some && is_prefix(config.root_dir_import_prefix->0@, p) { joined(config.root_dir@, p.skip(config.root_dir_import_prefix->0@.len() as int)) }
    else if p.len() > 0 && p[0] == '.' { joined(dir, p) }
    else { joined(config.root_dir@, p) }
}
pub open spec fn dir_of(path: Seq<char>) -> Seq<char> { match parent_path(path) { Some(d) => d, None => path } }
/// the line of the file imports the path
pub open spec fn imports(config: CompileConfig, file: Seq<char>, k: int, p: Seq<char>) -> bool {
    import_at(doc(file), k) && p == resolved(config, import_path(lines_of(doc(file))[k]), dir_of(file))
}
@fn CompileConfigasFrom<&RuntimeConfig>::from
@tag C04 C08 C10 C13 C18
@spec
    ensures
        r.root_dir == from.root_dir, r.use_readonly_types == !from.disable_readonly_types, r.show_deprecation_warnings == from.show_deprecation_warnings,
        r.root_dir_import_prefix == from.root_dir_import_prefix, r.global_types_module_name == from.global_types_module_name,
        r.typed_graphql_documentnode_module_name == from.typed_graphql_documentnode_module_name,
        r.bottom_type_config is DefaultBottomType <==> !from.use_custom_scalars,
        r.bottom_type_config is RealName <==> from.use_custom_scalars && from.custom_scalar_prefix is None,
        r.bottom_type_config is RealNameWithPrefix ==> from.custom_scalar_prefix is Some && r.bottom_type_config->RealNameWithPrefix_0@ == from.custom_scalar_prefix->0@,
@fn read_graphql_file
@tag C07 C08 C14
@spec
    ensures match r { Ok(c) => doc_text(path@) == Ok::<Seq<char>, IoError>(c@), Err(m) => !readable(path@) && reported(m) }
@start
    broadcast use crate::cli::lemma_empty_add;
    proof { reveal_strlit("\r\n"); }
@closure 0
|$0: File| -> (r: Result<String, IoError>) requires $0.path() == path@, open_error(path@) is None ensures match r { Ok(c) => text_of(path@) is Ok && c@ == replaced(text_of(path@)->Ok_0, "\r\n"@, "\n"@), Err(e) => text_of(path@) is Err }
@closure 1
|$0: IoError| -> (r: PrintableMessage) ensures reported(r)
@fn parse_graphql_file
@tag C07 C14 C19
@spec
    ensures
        r is Ok <==> single_doc(contents@),
        r is Ok ==> r->Ok_0 == doc_of::<'a>(contents@)->Ok_0,
        r is Err ==> reported(r->Err_0),
        r is Err && doc_of::<'a>(contents@) is Ok && doc_of::<'a>(contents@)->Ok_0.definitions@.len() > 1 ==> told_at(r->Err_0, file_path@, contents@, place_of(doc_of::<'a>(contents@)->Ok_0.definitions@[1])),
@closure 0
|$0: graphql_parser::ParseError| -> (r: PrintableMessage) ensures reported(r)
@fn get_file_path_of_fragment
@tag C08 C16
@rewrite IMPORT_START.len() => crate::vx::byte_len(IMPORT_START)
@spec
    requires is_import(import_comment@)
    ensures r@ == resolved(*config, import_path(import_comment@), current_dir@)
@start
    broadcast use crate::vx::lemma_prefix_char;
    proof { lemma_prefix_bytes(IMPORT_START_spec(), import_comment@); }
@after let quoted_path
    proof {
        assert(quoted_path@ =~= import_comment@.skip(IMPORT_START_spec().len() as int));
        lemma_last_at(quoted_path@, '"');
        lemma_at_zero(quoted_path@);
    }
@closure 0
|$0: usize| -> (r: &str) requires exists|i: int| #[trigger] occurs_at(seq!['"'], quoted_path@, i) && at_byte(quoted_path@, i, $0 as int) && forall|j: int| j > i ==> !#[trigger] occurs_at(seq!['"'], quoted_path@, j) ensures last_at(quoted_path@, '"') is Some, r@ == quoted_path@.take(last_at(quoted_path@, '"')->0)
@closure 1
|$0: &str| -> (r: Option<&str>) ensures r is Some <==> is_prefix($0@, import_path@), r is Some ==> r->0@ == import_path@.skip($0@.len() as int)
@closure 2
|$0: &str| -> (r: PathBuf) ensures r@ == joined(config.root_dir@, $0@)
@closure 3
|| -> (r: PathBuf) ensures r@ == (if import_path@.len() > 0 && import_path@[0] == '.' { joined(current_dir@, import_path@) } else { joined(config.root_dir@, import_path@) })
@footer
pub type Imported = (String, PathBuf, LocationInformation);
/// the message says that this line of the file names one that cannot be read
pub open spec fn tells_import(m: PrintableMessage, file: Seq<char>, k: int) -> bool {
    reported(m) && m.source_information is Some && m.source_information->0.file_path@ == file && m.source_information->0.location is Some
        && at_import(m.source_information->0.location->0, file, k)
}
/// C19: the location is that of the import
pub open spec fn at_import(l: LocationInformation, file: Seq<char>, k: int) -> bool {
    l.line_number@ == int_txt(k + 1) && l.line@ == lines_of(doc(file))[k] && l.column_number == Some(9usize)
}
/// a file that can be read imports one that can be read
pub open spec fn leads_to(config: CompileConfig, file: Seq<char>, p: Seq<char>) -> bool { readable(file) && readable(p) && exists|k: int| #[trigger] imports(config, file, k, p) }
pub open spec fn chain(config: CompileConfig, ps: Seq<Seq<char>>) -> bool { ps.len() > 0 && forall|i: int| 0 <= i < ps.len() - 1 ==> #[trigger] leads_to(config, ps[i], ps[i + 1]) }
/// imported, transitively
pub open spec fn reached(config: CompileConfig, root: Seq<char>, p: Seq<char>) -> bool { exists|ps: Seq<Seq<char>>| #[trigger] chain(config, ps) && ps[0] == root && ps.last() == p }
pub proof fn lemma_reached_self(config: CompileConfig, a: Seq<char>) ensures reached(config, a, a) { let ps = seq![a]; assert(chain(config, ps)); assert(ps[0] == a && ps.last() == a); }
pub proof fn lemma_reached(config: CompileConfig, a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires reached(config, a, b), leads_to(config, b, c)
    ensures reached(config, a, c)
{
    let ps = choose|ps: Seq<Seq<char>>| #[trigger] chain(config, ps) && ps[0] == a && ps.last() == b;
    let qs = ps.push(c);
    assert forall|i: int| 0 <= i < qs.len() - 1 implies #[trigger] leads_to(config, qs[i], qs[i + 1]) by { if i < ps.len() - 1 { assert(leads_to(config, ps[i], ps[i + 1])); } }
    assert(chain(config, qs) && qs[0] == a && qs.last() == c);
}
/// reached by way of another
pub proof fn lemma_reached_by(config: CompileConfig, a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires reached(config, b, c), leads_to(config, a, b)
    ensures reached(config, a, c)
{
    let ps = choose|ps: Seq<Seq<char>>| #[trigger] chain(config, ps) && ps[0] == b && ps.last() == c;
    let qs = seq![a] + ps;
    assert forall|i: int| 0 <= i < qs.len() - 1 implies #[trigger] leads_to(config, qs[i], qs[i + 1]) by { if i > 0 { assert(leads_to(config, ps[i - 1], ps[(i - 1) + 1])); assert(qs[i] == ps[i - 1] && qs[i + 1] == ps[i]); } else { assert(qs[1] == ps[0]); } }
    assert(chain(config, qs) && qs[0] == a && qs.last() == c);
}
/// the file that the path stands for
pub open spec fn ident(p: Seq<char>) -> Seq<char> { match canonical(p) { Some(c) => c, None => p } }
/// there are finitely many files
pub uninterp spec fn all_files() -> Set<Seq<char>>;
pub axiom fn axiom_files() ensures all_files().finite(), forall|p: Seq<char>| #[trigger] readable(p) ==> all_files().contains(ident(p));
/// what is known of an imported file: its text, and a line that imports it in a file that is itself imported
pub open spec fn entry_ok(config: CompileConfig, root: Seq<char>, p: Seq<char>, e: Imported) -> bool {
    &&& readable(p) && e.0@ == doc(p) && reached(config, root, p)
    &&& reached(config, root, e.1@) && readable(e.1@)
    &&& exists|k: int| #[trigger] imports(config, e.1@, k, p) && at_import(e.2, e.1@, k)
}
/// the import in this line was followed, or it is reported
pub open spec fn line_followed(config: CompileConfig, file: Seq<char>, k: int, m: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>) -> bool {
    forall|p: Seq<char>| #[trigger] imports(config, file, k, p) ==> if readable(p) { m.contains_key(p) } else { exists|j: int| 0 <= j < ms.len() && tells_import(#[trigger] ms[j], file, k) }
}
pub open spec fn followed(config: CompileConfig, file: Seq<char>, m: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>) -> bool {
    forall|k: int| #[trigger] line_followed(config, file, k, m, ms)
}
/// a message about an import that leads nowhere
pub open spec fn import_message(config: CompileConfig, root: Seq<char>, m: PrintableMessage) -> bool {
    exists|f: Seq<char>, k: int, p: Seq<char>| reached(config, root, f) && readable(f) && #[trigger] imports(config, f, k, p) && !readable(p) && tells_import(m, f, k)
}
/// what following the imports of a file adds
pub open spec fn grown(config: CompileConfig, file: Seq<char>, m0: Map<Seq<char>, Imported>, m: Map<Seq<char>, Imported>, f0: Set<Seq<char>>, f: Set<Seq<char>>, ms0: Seq<PrintableMessage>, ms: Seq<PrintableMessage>) -> bool {
    &&& forall|p: Seq<char>| #[trigger] m0.contains_key(p) ==> m.contains_key(p)
    &&& forall|p: Seq<char>| #[trigger] m.contains_key(p) ==> m0.contains_key(p) && m[p] == m0[p] || entry_ok(config, file, p, m[p]) && f.contains(ident(p))
    &&& forall|c: Seq<char>| #[trigger] f0.contains(c) ==> f.contains(c)
    &&& is_prefix_of(ms0, ms)
    &&& forall|j: int| ms0.len() <= j < ms.len() ==> import_message(config, file, #[trigger] ms[j])
}
pub open spec fn is_prefix_of(a: Seq<PrintableMessage>, b: Seq<PrintableMessage>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// the imports of every file that was newly entered are followed
pub open spec fn closed(config: CompileConfig, m: Map<Seq<char>, Imported>, f0: Set<Seq<char>>, f: Set<Seq<char>>, ms: Seq<PrintableMessage>) -> bool {
    forall|c: Seq<char>| #[trigger] f.contains(c) && !f0.contains(c) ==> entered(config, m, c, ms)
}
pub open spec fn entered(config: CompileConfig, m: Map<Seq<char>, Imported>, c: Seq<char>, ms: Seq<PrintableMessage>) -> bool {
    exists|g: Seq<char>| ident(g) == c && #[trigger] followed(config, g, m, ms)
}
pub open spec fn more(m: Map<Seq<char>, Imported>, m2: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>, ms2: Seq<PrintableMessage>) -> bool {
    (forall|p: Seq<char>| #[trigger] m.contains_key(p) ==> m2.contains_key(p)) && is_prefix_of(ms, ms2)
}
pub proof fn lemma_line_more(config: CompileConfig, file: Seq<char>, k: int, m: Map<Seq<char>, Imported>, m2: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>, ms2: Seq<PrintableMessage>)
    requires more(m, m2, ms, ms2), line_followed(config, file, k, m, ms)
    ensures line_followed(config, file, k, m2, ms2)
{
    assert forall|p: Seq<char>| #[trigger] imports(config, file, k, p) implies if readable(p) { m2.contains_key(p) } else { exists|j: int| 0 <= j < ms2.len() && tells_import(#[trigger] ms2[j], file, k) } by {
        if readable(p) { assert(m.contains_key(p)); }
        else { let j = choose|j: int| 0 <= j < ms.len() && tells_import(#[trigger] ms[j], file, k); assert(ms2[j] == ms[j]); }
    }
}
pub proof fn lemma_followed_more(config: CompileConfig, file: Seq<char>, m: Map<Seq<char>, Imported>, m2: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>, ms2: Seq<PrintableMessage>)
    requires more(m, m2, ms, ms2), followed(config, file, m, ms)
    ensures followed(config, file, m2, ms2)
{
    assert forall|k: int| #[trigger] line_followed(config, file, k, m2, ms2) by { assert(line_followed(config, file, k, m, ms)); lemma_line_more(config, file, k, m, m2, ms, ms2); }
}
pub proof fn lemma_entered_more(config: CompileConfig, c: Seq<char>, m: Map<Seq<char>, Imported>, m2: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>, ms2: Seq<PrintableMessage>)
    requires more(m, m2, ms, ms2), entered(config, m, c, ms)
    ensures entered(config, m2, c, ms2)
{
    let g = choose|g: Seq<char>| ident(g) == c && #[trigger] followed(config, g, m, ms);
    lemma_followed_more(config, g, m, m2, ms, ms2);
}
/// every entry makes fewer files left to enter
pub proof fn lemma_left(f0: Set<Seq<char>>, f1: Set<Seq<char>>, c: Seq<char>)
    requires all_files().finite(), all_files().contains(c), forall|x: Seq<char>| #[trigger] f0.contains(x) ==> f1.contains(x)
    ensures !f1.contains(c) ==> all_files().difference(f1.insert(c)).len() < all_files().difference(f0).len()
{
    if !f1.contains(c) {
        let a = all_files().difference(f1.insert(c));
        let b = all_files().difference(f0);
        assert(a.subset_of(b.remove(c)));
        assert(b.contains(c));
        vstd::set_lib::lemma_len_subset(a, b.remove(c));
    }
}
/// the files below the imported one were followed, or had been, or the import is reported
pub open spec fn below(config: CompileConfig, p: Seq<char>, m1: Map<Seq<char>, Imported>, m2: Map<Seq<char>, Imported>, f1: Set<Seq<char>>, f2: Set<Seq<char>>, ms1: Seq<PrintableMessage>, ms2: Seq<PrintableMessage>) -> bool {
    f1.contains(ident(p)) && m2 == m1 && f2 == f1 && ms2 == ms1
        || grown(config, p, m1, m2, f1.insert(ident(p)), f2, ms1, ms2) && followed(config, p, m2, ms2) && closed(config, m2, f1.insert(ident(p)), f2, ms2)
}
pub proof fn lemma_step(config: CompileConfig, file: Seq<char>, k: int, p: Seq<char>, e: Imported, m0: Map<Seq<char>, Imported>, m1: Map<Seq<char>, Imported>, m2: Map<Seq<char>, Imported>,
    f0: Set<Seq<char>>, f1: Set<Seq<char>>, f2: Set<Seq<char>>, ms0: Seq<PrintableMessage>, ms1: Seq<PrintableMessage>, ms2: Seq<PrintableMessage>)
    requires
        grown(config, file, m0, m1, f0, f1, ms0, ms1), closed(config, m1, f0, f1, ms1), imports(config, file, k, p), readable(file), readable(p),
        below(config, p, m1, m2, f1, f2, ms1, ms2), e.0@ == doc(p), e.1@ == file, at_import(e.2, file, k),
    ensures grown(config, file, m0, m2.insert(p, e), f0, f2, ms0, ms2), closed(config, m2.insert(p, e), f0, f2, ms2), more(m1, m2.insert(p, e), ms1, ms2)
{
    let m3 = m2.insert(p, e);
    assert(leads_to(config, file, p));
    lemma_reached_self(config, file);
    lemma_reached(config, file, file, p);
    assert(entry_ok(config, file, p, e));
    assert(f2.contains(ident(p))) by { if !f1.contains(ident(p)) { assert(f1.insert(ident(p)).contains(ident(p))); } }
    assert forall|c: Seq<char>| #[trigger] f1.contains(c) implies f2.contains(c) by { assert(f1.insert(ident(p)).contains(c)); }
    assert forall|q: Seq<char>| #[trigger] m3.contains_key(q) implies m0.contains_key(q) && m3[q] == m0[q] || entry_ok(config, file, q, m3[q]) && f2.contains(ident(q)) by {
        if q != p {
            assert(m2.contains_key(q));
            if m1.contains_key(q) && m2[q] == m1[q] {
            } else {
                assert(entry_ok(config, p, q, m2[q]));
                lemma_reached_by(config, file, p, q);
                lemma_reached_by(config, file, p, m2[q].1@);
            }
        }
    }
    assert forall|j: int| ms0.len() <= j < ms2.len() implies import_message(config, file, #[trigger] ms2[j]) by {
        if j < ms1.len() { assert(ms2[j] == ms1[j]); }
        else {
            assert(import_message(config, p, ms2[j]));
            let (f, l, q) = choose|f: Seq<char>, k: int, q: Seq<char>| reached(config, p, f) && readable(f) && #[trigger] imports(config, f, k, q) && !readable(q) && tells_import(ms2[j], f, k);
            lemma_reached_by(config, file, p, f);
        }
    }
    assert(more(m2, m3, ms2, ms2));
    assert(more(m1, m3, ms1, ms2));
    assert forall|c: Seq<char>| #[trigger] f2.contains(c) && !f0.contains(c) implies entered(config, m3, c, ms2) by {
        if f1.contains(c) { assert(entered(config, m1, c, ms1)); lemma_entered_more(config, c, m1, m3, ms1, ms2); }
        else {
            if c == ident(p) { assert(followed(config, p, m2, ms2)); assert(entered(config, m2, c, ms2)); }
            lemma_entered_more(config, c, m2, m3, ms2, ms2);
        }
    }
}
pub proof fn lemma_import_bytes() ensures bytes_in(IMPORT_START_spec()) == 9, IMPORT_START_spec().len() == 9, IMPORT_START_spec()[0] == '#'
{
    reveal_strlit("#import \"");
    let s = IMPORT_START_spec();
    assert(s =~= seq!['#', 'i', 'm', 'p', 'o', 'r', 't', ' ', '"']);
    assert(bytes_in(s) == 9) by {
        reveal_with_fuel(bytes_in, 11);
        let s1 = s.drop_last(); let s2 = s1.drop_last(); let s3 = s2.drop_last(); let s4 = s3.drop_last(); let s5 = s4.drop_last(); let s6 = s5.drop_last(); let s7 = s6.drop_last(); let s8 = s7.drop_last();
        assert(s8.len() == 1 && s8.drop_last().len() == 0);
    }
}
/// C08: exactly the files that are imported, directly or not
pub open spec fn imports_found(config: CompileConfig, root: Seq<char>, m: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>) -> bool {
    &&& forall|p: Seq<char>| #[trigger] m.contains_key(p) ==> entry_ok(config, root, p, m[p]) && entered(config, m, ident(p), ms)
    &&& followed(config, root, m, ms)
    &&& forall|j: int| 0 <= j < ms.len() ==> import_message(config, root, #[trigger] ms[j])
}
@fn add_imported_fragments
@tag C08 C14 C16 C19
@rewrite IMPORT_START.len() => crate::vx::byte_len(IMPORT_START)
@spec
    requires readable(current_file@), current_file_contents@ == doc(current_file@)
    ensures
        grown(*config, current_file@, old(import_contents)@, final(import_contents)@, old(followed_files)@, final(followed_files)@, old(messages)@, final(messages)@), // [C08 C14 C19]
        followed(*config, current_file@, final(import_contents)@, final(messages)@), // [C08]
        closed(*config, final(import_contents)@, old(followed_files)@, final(followed_files)@, final(messages)@), // [C08]
    decreases all_files().difference(old(followed_files)@).len()
@start
    broadcast use crate::vx::lemma_prefix_char;
    let ghost m0 = import_contents@;
    let ghost f0 = followed_files@;
    let ghost ms0 = messages@;
    let ghost ls = lines_of(current_file_contents@);
    proof { axiom_files(); lemma_import_bytes(); }
@closure 0
|$0: IoError| -> (r: PathBuf) ensures r == file_path
@loop 0 it
    invariant_except_break forall|j: int| 0 <= j < it.index@ ==> skippable(#[trigger] ls[j]),
    invariant
        ls == lines_of(doc(current_file@)), current_dir@ == dir_of(current_file@), readable(current_file@),
        it.seq().len() == ls.len(), ls.len() <= usize::MAX,
        forall|i: int| 0 <= i < ls.len() ==> (#[trigger] it.seq()[i]).0 == i && it.seq()[i].1@ == ls[i],
        m0 == old(import_contents)@, f0 == old(followed_files)@, ms0 == old(messages)@,
        grown(*config, current_file@, m0, import_contents@, f0, followed_files@, ms0, messages@),
        closed(*config, import_contents@, f0, followed_files@, messages@),
        forall|k: int| k < it.index@ ==> #[trigger] line_followed(*config, current_file@, k, import_contents@, messages@),
        all_files().finite(), forall|p: Seq<char>| #[trigger] readable(p) ==> all_files().contains(ident(p)),
        bytes_in(IMPORT_START_spec()) == 9, IMPORT_START_spec().len() == 9, IMPORT_START_spec()[0] == '#',
    ensures
        forall|k: int| #[trigger] line_followed(*config, current_file@, k, import_contents@, messages@),
@loopstart 0
    let ghost k = it.index@ - 1;
    let ghost m1 = import_contents@;
    let ghost f1 = followed_files@;
    let ghost ms1 = messages@;
    proof {
        if is_import(line@) { assert(line@[0] == '#'); }
        assert(ls[k] == line@);
        lemma_prefix_char('#', line@);
        if !is_import(line@) || trimmed(line@).len() == 0 { assert(line_followed(*config, current_file@, k, m1, ms1)); }
        if !skippable(line@) && !is_import(line@) {
            assert forall|j: int| #[trigger] line_followed(*config, current_file@, j, m1, ms1) by { assert(j >= k ==> !import_at(doc(current_file@), j)); }
        }
    }
@after let file_path = get_file_path_of_fragment
    let ghost p = file_path@;
    proof {
        assert(imports(*config, current_file@, k, p));
        if readable(p) { lemma_left(f0, f1, ident(p)); }
    }
@after messages.push
    proof {
        lemma_reached_self(*config, current_file@);
        assert(at_import(location, current_file@, k));
        assert(tells_import(messages@[ms1.len() as int], current_file@, k));
        assert(import_message(*config, current_file@, messages@[ms1.len() as int]));
        assert(more(m1, m1, ms1, messages@));
        assert forall|j: int| j < it.index@ implies #[trigger] line_followed(*config, current_file@, j, m1, messages@) by { if j < k { lemma_line_more(*config, current_file@, j, m1, m1, ms1, messages@); } }
        assert forall|c: Seq<char>| #[trigger] f1.contains(c) && !f0.contains(c) implies entered(*config, m1, c, messages@) by { lemma_entered_more(*config, c, m1, m1, ms1, messages@); }
    }
@before import_contents.insert
    let ghost m2 = import_contents@;
    let ghost f2 = followed_files@;
    let ghost ms2 = messages@;
    let ghost text = other_file_contents;
    proof {
        assert(f1.contains(ident(p)) ==> f1.insert(ident(p)) =~= f1);
        assert(at_import(location, current_file@, k));
        assert(below(*config, p, m1, m2, f1, f2, ms1, ms2));
    }
@loopend 0
    proof {
        lemma_step(*config, current_file@, k, p, import_contents@[p], m0, m1, m2, f0, f1, f2, ms0, ms1, ms2);
        assert(import_contents@ == m2.insert(p, import_contents@[p]));
        assert forall|j: int| j < it.index@ implies #[trigger] line_followed(*config, current_file@, j, import_contents@, messages@) by { if j < k { lemma_line_more(*config, current_file@, j, m1, import_contents@, ms1, ms2); } }
    }
@footer
// ---------------------------------------------------------------- C08, C11: the fragments of a compilation
pub type Fragment<'a> = FragmentDefinition<'a, ParsedTextType>;
pub open spec fn is_fragment(text: Seq<char>) -> bool { single_doc(text) && definition_of(text) is Fragment }
pub open spec fn fragment_of<'a>(text: Seq<char>) -> Fragment<'a> { definition_of(text)->Fragment_0 }
/// the file at the path defines the fragment
pub open spec fn defines(m: Map<Seq<char>, Imported>, p: Seq<char>, name: Seq<char>) -> bool { m.contains_key(p) && is_fragment(m[p].0@) && fragment_of(m[p].0@).name@ == name }
/// the one that counts: the last, in path order
pub open spec fn counts(m: Map<Seq<char>, Imported>, p: Seq<char>, name: Seq<char>) -> bool {
    defines(m, p, name) && forall|q: Seq<char>| #[trigger] defines(m, q, name) ==> q == p || key_lt(q, p)
}
pub open spec fn fragments_of<'a>(m: Map<Seq<char>, Imported>, frags: Map<Seq<char>, Fragment<'a>>) -> bool {
    &&& forall|p: Seq<char>, n: Seq<char>| #[trigger] defines(m, p, n) ==> frags.contains_key(n)
    &&& forall|n: Seq<char>| #[trigger] frags.contains_key(n) ==> exists|p: Seq<char>| #[trigger] counts(m, p, n) && frags[n] == fragment_of(m[p].0@)
}
/// an import of what is a document, but no fragment
pub open spec fn misplaced(m: Map<Seq<char>, Imported>, p: Seq<char>) -> bool { m.contains_key(p) && single_doc(m[p].0@) && !is_fragment(m[p].0@) }
pub open spec fn tells_misplaced(x: PrintableMessage, e: Imported) -> bool {
    reported(x) && x.source_information is Some && x.source_information->0.file_path@ == e.1@ && x.source_information->0.location is Some && {
        let l = x.source_information->0.location->0;
        l.line_number == e.2.line_number && l.line == e.2.line && l.column_number == e.2.column_number && l.help_text is Some
    }
}
pub open spec fn about_misplaced(m: Map<Seq<char>, Imported>, x: PrintableMessage) -> bool { exists|p: Seq<char>| #[trigger] misplaced(m, p) && tells_misplaced(x, m[p]) }
pub open spec fn told_misplaced(m: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>, from: int) -> bool {
    &&& forall|p: Seq<char>| #[trigger] misplaced(m, p) ==> exists|j: int| from <= j < ms.len() && tells_misplaced(#[trigger] ms[j], m[p])
    &&& forall|j: int| from <= j < ms.len() ==> about_misplaced(m, #[trigger] ms[j])
}
/// so far
pub open spec fn fragments_to<'a>(m: Map<Seq<char>, Imported>, ps: Seq<Seq<char>>, frags: Map<Seq<char>, Fragment<'a>>) -> bool {
    &&& forall|i: int, n: Seq<char>| 0 <= i < ps.len() && #[trigger] defines(m, ps[i], n) ==> frags.contains_key(n)
    &&& forall|n: Seq<char>| #[trigger] frags.contains_key(n) ==> exists|i: int| last_defines(m, ps, i, n) && frags[n] == fragment_of(m[#[trigger] ps[i]].0@)
}
pub open spec fn last_defines(m: Map<Seq<char>, Imported>, ps: Seq<Seq<char>>, i: int, n: Seq<char>) -> bool { 0 <= i < ps.len() && defines(m, ps[i], n) && forall|j: int| i < j < ps.len() ==> !#[trigger] defines(m, ps[j], n) }
pub open spec fn misplaced_to(m: Map<Seq<char>, Imported>, ps: Seq<Seq<char>>, ms: Seq<PrintableMessage>, from: int) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() && misplaced(m, #[trigger] ps[i]) ==> exists|j: int| from <= j < ms.len() && tells_misplaced(#[trigger] ms[j], m[ps[i]])
    &&& forall|j: int| from <= j < ms.len() ==> about_misplaced(m, #[trigger] ms[j])
}
/// what one import adds
pub open spec fn taken<'a>(e: Imported, fr0: Map<Seq<char>, Fragment<'a>>, fr: Map<Seq<char>, Fragment<'a>>, ms0: Seq<PrintableMessage>, ms: Seq<PrintableMessage>) -> bool {
    if !single_doc(e.0@) { fr == fr0 && ms == ms0 }
    else if is_fragment(e.0@) { fr == fr0.insert(fragment_of(e.0@).name@, fragment_of(e.0@)) && ms == ms0 }
    else { fr == fr0 && ms == ms0.push(ms.last()) && tells_misplaced(ms.last(), e) }
}
pub proof fn lemma_taken<'a>(m: Map<Seq<char>, Imported>, ps: Seq<Seq<char>>, p: Seq<char>, fr0: Map<Seq<char>, Fragment<'a>>, fr: Map<Seq<char>, Fragment<'a>>, ms0: Seq<PrintableMessage>, ms: Seq<PrintableMessage>, from: int)
    requires m.contains_key(p), fragments_to(m, ps, fr0), misplaced_to(m, ps, ms0, from), 0 <= from <= ms0.len(), taken(m[p], fr0, fr, ms0, ms)
    ensures fragments_to(m, ps.push(p), fr), misplaced_to(m, ps.push(p), ms, from), is_prefix_of(ms0, ms)
{
    let qs = ps.push(p);
    let e = m[p];
    assert forall|i: int, n: Seq<char>| 0 <= i < qs.len() && #[trigger] defines(m, qs[i], n) implies fr.contains_key(n) by { if i < ps.len() { assert(defines(m, ps[i], n)); } }
    assert forall|n: Seq<char>| #[trigger] fr.contains_key(n) implies exists|i: int| last_defines(m, qs, i, n) && fr[n] == fragment_of(m[#[trigger] qs[i]].0@) by {
        if is_fragment(e.0@) && fragment_of(e.0@).name@ == n {
            assert(last_defines(m, qs, ps.len() as int, n));
            assert(qs[ps.len() as int] == p);
        } else {
            assert(fr0.contains_key(n));
            let i = choose|i: int| last_defines(m, ps, i, n) && fr0[n] == fragment_of(m[#[trigger] ps[i]].0@);
            assert forall|j: int| i < j < qs.len() implies !#[trigger] defines(m, qs[j], n) by { if j < ps.len() { assert(!defines(m, ps[j], n)); } }
            assert(last_defines(m, qs, i, n));
            assert(qs[i] == ps[i]);
        }
    }
    assert forall|i: int| 0 <= i < qs.len() && misplaced(m, #[trigger] qs[i]) implies exists|j: int| from <= j < ms.len() && tells_misplaced(#[trigger] ms[j], m[qs[i]]) by {
        if i < ps.len() {
            assert(misplaced(m, ps[i]));
            let j = choose|j: int| from <= j < ms0.len() && tells_misplaced(#[trigger] ms0[j], m[ps[i]]);
            assert(ms[j] == ms0[j]);
        } else { assert(tells_misplaced(ms[ms0.len() as int], e)); }
    }
    assert forall|j: int| from <= j < ms.len() implies about_misplaced(m, #[trigger] ms[j]) by {
        if j < ms0.len() { assert(ms[j] == ms0[j]); } else { assert(misplaced(m, p)); }
    }
}
@fn parse_foreign_fragments
@tag C08 C11 C14 C19
@spec
    requires forall|p: Seq<char>| #[trigger] imported_contents@.contains_key(p) ==> loc_ok(imported_contents@[p].2),
    ensures
        fragments_of(imported_contents@, r@), // [C08 C11]
        is_prefix_of(old(messages)@, final(messages)@), // [C14]
        told_misplaced(imported_contents@, final(messages)@, old(messages)@.len() as int), // [C08 C14 C19]
@start
    let ghost m = imported_contents@;
    let ghost ms0 = messages@;
    let ghost mut ps: Seq<Seq<char>> = Seq::empty();
@loop 0 it
    invariant
        m == imported_contents@, map_items(m, it.seq()), ms0 == old(messages)@,
        forall|i: int, j: int| 0 <= i < j < it.seq().len() ==> key_lt((#[trigger] it.seq()[i]).0.kv(), (#[trigger] it.seq()[j]).0.kv()),
        ps.len() == it.index@, forall|i: int| #![trigger ps[i]] #![trigger it.seq()[i]] 0 <= i < it.index@ ==> ps[i] == it.seq()[i].0@ && ps[i] == it.seq()[i].0.kv(),
        fragments_to(m, ps, parsed_imported_fragments@),
        is_prefix_of(ms0, messages@), misplaced_to(m, ps, messages@, ms0.len() as int),
        forall|p: Seq<char>| #[trigger] m.contains_key(p) ==> loc_ok(m[p].2),
    ensures
        forall|p: Seq<char>| #[trigger] m.contains_key(p) ==> exists|i: int| 0 <= i < ps.len() && #[trigger] ps[i] == p,
        forall|i: int, j: int| 0 <= i < j < ps.len() ==> key_lt(#[trigger] ps[i], #[trigger] ps[j]),
@loopstart 0
    let ghost fr1 = parsed_imported_fragments@;
    let ghost ms1 = messages@;
    let ghost at = it.index@ - 1;
    let ghost e = *it.seq()[at].1;
    proof { assert(it.seq()[at].0@ == it.seq()[at].0.kv()); assert(e == m[it.seq()[at].0@]); }
@loop 1 one
    invariant
        single_doc(e.0@), loc_ok(e.2), one.seq() == seq![definition_of(e.0@)], e == (*contents, *importing_path, *location),
        one.index@ == 0 ==> parsed_imported_fragments@ == fr1 && messages@ == ms1,
        one.index@ == 1 ==> taken(e, fr1, parsed_imported_fragments@, ms1, messages@),
@loopend 1
    proof { assert(def == definition_of(e.0@)); if !(def is Fragment) { assert(messages@ =~= ms1.push(messages@.last())); assert(tells_misplaced(messages@.last(), e)); } }
@loopend 0
    proof {
        lemma_taken(m, ps, it.seq()[at].0@, fr1, parsed_imported_fragments@, ms1, messages@, ms0.len() as int);
        ps = ps.push(it.seq()[at].0@);
    }
@tail
    proof {
        assert forall|p: Seq<char>, n: Seq<char>| #[trigger] defines(m, p, n) implies __tail@.contains_key(n) by { let i = choose|i: int| 0 <= i < ps.len() && ps[i] == p; assert(defines(m, ps[i], n)); }
        assert forall|n: Seq<char>| #[trigger] __tail@.contains_key(n) implies exists|p: Seq<char>| #[trigger] counts(m, p, n) && __tail@[n] == fragment_of(m[p].0@) by {
            let i = choose|i: int| last_defines(m, ps, i, n) && __tail@[n] == fragment_of(m[#[trigger] ps[i]].0@);
            assert forall|q: Seq<char>| #[trigger] defines(m, q, n) implies q == ps[i] || key_lt(q, ps[i]) by {
                let j = choose|j: int| 0 <= j < ps.len() && ps[j] == q;
                assert(defines(m, ps[j], n));
            }
            assert(counts(m, ps[i], n));
        }
        assert forall|p: Seq<char>| #[trigger] misplaced(m, p) implies exists|j: int| ms0.len() <= j < messages@.len() && tells_misplaced(#[trigger] messages@[j], m[p]) by { let i = choose|i: int| 0 <= i < ps.len() && ps[i] == p; assert(misplaced(m, ps[i])); }
    }
@footer
// ---------------------------------------------------------------- a compilation
/// the fragments that the imports of the file bring
pub open spec fn frags_for(config: CompileConfig, path: Seq<char>, frags: ir::Frags<'_>) -> bool {
    exists|m: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>| #[trigger] imports_found(config, path, m, ms) && fragments_of(m, frags)
}
pub open spec fn is_document(path: Seq<char>) -> bool { readable(path) && single_doc(doc(path)) }
/// C07: what qlc accepts
pub open spec fn valid_file(config: CompileConfig, schema: Schema, path: Seq<char>, frags: ir::Frags<'_>) -> bool {
    is_document(path) && frags_for(config, path, frags) && ir::definition_ok(schema, frags, definition_of(doc(path)))
}
/// the operation is what the definition comes to
pub open spec fn op_is(schema: Schema, frags: ir::Frags<'_>, d: Definition<'_, ParsedTextType>, op: ir::Operation<'_>) -> bool {
    ir::head_of(d, op) && ir::collected(schema, frags, ir::set_of(d).items@, ir::root_of(d)->0, op.collection) && typescript::wf_coll(op.collection)
}
/// C01–C06, C09, C10: the text is the module of the file, and uses these global types
pub open spec fn module_of(config: CompileConfig, schema: Schema, path: Seq<char>, frags: ir::Frags<'_>, op: ir::Operation<'_>, used: Set<Seq<char>>, text: Seq<char>) -> bool {
    valid_file(config, schema, path, frags) && op_is(schema, frags, definition_of(doc(path)), op) && typescript::op_uses(schema, op, used) && typescript::module_text(config, schema, op, used, text)
}
pub open spec fn is_module(config: CompileConfig, schema: Schema, path: Seq<char>, used: Set<Seq<char>>, text: Seq<char>) -> bool {
    exists|frags: ir::Frags<'_>, op: ir::Operation<'_>| #[trigger] module_of(config, schema, path, frags, op, used, text)
}
pub open spec fn sound(schema: Schema) -> bool { ir::kinds_agree(schema) && ir::inhabited(schema) }
/// C20: where the module goes
pub open spec fn output_of(path: Seq<char>) -> Seq<char> { with_ext(path, "graphql.d.ts"@) }
/// C20: what compiling the file may write
pub open spec fn may_compile(config: CompileConfig, schema: Schema, path: Seq<char>) -> bool {
    forall|text: Seq<char>| (sound(schema) ==> exists|used: Set<Seq<char>>| #[trigger] is_module(config, schema, path, used, text)) ==> #[trigger] may_write(output_of(path), text)
}
/// what the messages are about
pub open spec fn about_import(config: CompileConfig, path: Seq<char>, x: PrintableMessage) -> bool {
    import_message(config, path, x) || exists|m: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>| #[trigger] imports_found(config, path, m, ms) && about_misplaced(m, x)
}
pub open spec fn about_warning(config: CompileConfig, schema: Schema, path: Seq<char>, x: PrintableMessage) -> bool {
    exists|w: ir::Warning| #[trigger] ir::due(schema, config.show_deprecation_warnings, w) && ir::tells_warning(x, doc(path), path, w)
}
pub open spec fn all_told(config: CompileConfig, schema: Schema, path: Seq<char>, xs: Seq<PrintableMessage>) -> bool {
    forall|i: int| 0 <= i < xs.len() ==> about_import(config, path, #[trigger] xs[i]) || about_warning(config, schema, path, xs[i])
}
/// C18: every warning that the file deserves is told, and no other
pub open spec fn warnings_told(config: CompileConfig, schema: Schema, path: Seq<char>, frags: ir::Frags<'_>, xs: Seq<PrintableMessage>) -> bool {
    exists|ws: Set<ir::Warning>| #[trigger] told_all(ws, path, xs) && deserved(config, schema, path, frags, ws)
}
pub open spec fn told_all(ws: Set<ir::Warning>, path: Seq<char>, xs: Seq<PrintableMessage>) -> bool { forall|w: ir::Warning| #[trigger] ws.contains(w) ==> exists|i: int| 0 <= i < xs.len() && ir::tells_warning(#[trigger] xs[i], doc(path), path, w) }
pub open spec fn deserved(config: CompileConfig, schema: Schema, path: Seq<char>, frags: ir::Frags<'_>, ws: Set<ir::Warning>) -> bool {
    let d = definition_of(doc(path));
    ir::warned(ws, schema, frags, config.show_deprecation_warnings, ir::set_of(d), ir::root_of(d)->0, ir::possible(schema, ir::root_of(d)->0))
}
/// C08: every import that leads nowhere is told
pub open spec fn imports_told(config: CompileConfig, path: Seq<char>, frags: ir::Frags<'_>, xs: Seq<PrintableMessage>) -> bool {
    exists|m: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>, k: int| #[trigger] imports_found(config, path, m, ms) && fragments_of(m, frags) && #[trigger] told_from(m, xs, ms, k)
}
pub open spec fn told_from(m: Map<Seq<char>, Imported>, xs: Seq<PrintableMessage>, ms: Seq<PrintableMessage>, k: int) -> bool {
    ms.len() <= k <= xs.len() && is_prefix_of(ms, xs) && told_misplaced(m, xs.take(k), ms.len() as int)
}
pub open spec fn some_error(xs: Seq<PrintableMessage>) -> bool { exists|i: int| 0 <= i < xs.len() && reported(#[trigger] xs[i]) }
/// a file that is accepted makes an operation that can be printed
pub proof fn lemma_vars_exist(s: Schema, frags: ir::Frags<'_>, d: Definition<'_, ParsedTextType>, op: ir::Operation<'_>)
    requires ir::definition_ok(s, frags, d), ir::head_of(d, op)
    ensures typescript::vars_exist(s, op)
{
    if op.variables is Some {
        assert forall|i: int| 0 <= i < op.variables->0@.len() implies typescript::var_exists(s, (#[trigger] op.variables->0@[i]).type_ir) by {
            let ds = ir::op_vars(d->Operation_0);
            assert(variable::acceptable(s, ds[i]));
            assert(variable::declared(ds[i], op.variables->0@[i]));
        }
    }
}
@fn compile_file
@tag C07 C08 C14 C18 C19 C20
@spec
    requires may_compile(*config, *schema, path@), // [C20]
    ensures
        match r {
            Ok(x) => sound(*schema) ==> exists|frags: ir::Frags<'_>, op: ir::Operation<'_>, text: Seq<char>| #[trigger] module_of(*config, *schema, path@, frags, op, x.global_types_used@, text)
                && wrote(output_of(path@), text) && warnings_told(*config, *schema, path@, frags, x.messages@) && imports_told(*config, path@, frags, x.messages@),
            Err(_) => true,
        }, // [C07 C08 C18 C20]
        r is Ok ==> all_told(*config, *schema, path@, r->Ok_0.messages@), // [C14 C18 C19]
        r is Err ==> some_error(r->Err_0@), // [C14]
        r is Err && sound(*schema) ==> !is_document(path@) || write_fails(output_of(path@)) || exists|frags: ir::Frags<'_>| #[trigger] frags_for(*config, path@, frags) && !ir::definition_ok(*schema, frags, definition_of(doc(path@))), // [C07]
@closure 0
|$0: PrintableMessage| -> (r: Vec<PrintableMessage>) ensures r@.len() == 1, r@[0] == $0
@closure 1
|$0: PrintableMessage| -> (r: Vec<PrintableMessage>) ensures r@.len() == 1, r@[0] == $0
@closure 2
|$0: ir::Error| -> (r: PrintableMessage) ensures ir::tells_error(r, contents@, path@, $0)
@closure 3
|$0: ir::Warning| -> (r: PrintableMessage) ensures ir::tells_warning(r, contents@, path@, $0)
@closure 4
|$0: ir::Warning| -> (r: PrintableMessage) ensures ir::tells_warning(r, contents@, path@, $0)
@closure 5
|$0: IoError| -> (r: Vec<PrintableMessage>) ensures r@.len() == 1 && reported(r@[0])
@after add_imported_fragments(
    let ghost m = imported_contents@;
    let ghost msa = messages@;
    proof {
        assert forall|p: Seq<char>| #[trigger] m.contains_key(p) implies entry_ok(*config, path@, p, m[p]) && entered(*config, m, ident(p), msa) by {}
        assert(imports_found(*config, path@, m, msa));
    }
@after let parsed_imported_fragments
    let ghost frags = parsed_imported_fragments@;
    let ghost msb = messages@;
    proof {
        assert(frags_for(*config, path@, frags));
        assert forall|j: int| 0 <= j < msb.len() implies about_import(*config, path@, #[trigger] msb[j]) by {
            if j < msa.len() { assert(msb[j] == msa[j]); assert(import_message(*config, path@, msa[j])); } else { assert(about_misplaced(m, msb[j])); }
        }
    }
@before return Err(messages)
    proof {
        let es = ir_errors@;
        assert(reported(messages@[msb.len() as int]));
    }
@before let the_compile
    let ghost ws = warnings@;
    let ghost msc = messages@;
    proof {
        assert forall|j: int| 0 <= j < msc.len() implies about_import(*config, path@, #[trigger] msc[j]) || about_warning(*config, *schema, path@, msc[j]) by {
            if j < msb.len() { assert(msc[j] == msb[j]); } else { assert(ir::due(*schema, config.show_deprecation_warnings, ws[j - msb.len()])); }
        }
        assert(told_from(m, msc, msa, msb.len() as int)) by { assert(msc.take(msb.len() as int) =~= msb); }
        assert(imports_told(*config, path@, frags, msc));
        if sound(*schema) {
            lemma_vars_exist(*schema, frags, parsed.definitions@[0], op_ir);
            assert(told_all(ws.to_set(), path@, msc)) by {
                assert forall|w: ir::Warning| #[trigger] ws.to_set().contains(w) implies exists|i: int| 0 <= i < msc.len() && ir::tells_warning(#[trigger] msc[i], doc(path@), path@, w) by {
                    let i = choose|i: int| 0 <= i < ws.len() && ws[i] == w;
                    assert(ir::tells_warning(msc[msb.len() + i], doc(path@), path@, w));
                }
            }
            assert(deserved(*config, *schema, path@, frags, ws.to_set()));
            assert(warnings_told(*config, *schema, path@, frags, msc));
        }
    }
@after messages.push(inner_message
    proof { assert(reported(messages@[msc.len() as int])); }
@after let output_path
    proof {
        assert(output_path@ == output_of(path@));
        assert(may_compile(*config, *schema, path@));
        if sound(*schema) { assert(module_of(*config, *schema, path@, frags, op_ir, the_compile.global_types_used@, the_compile.contents@)); assert(is_module(*config, *schema, path@, the_compile.global_types_used@, the_compile.contents@)); }
        assert(may_write(output_of(path@), the_compile.contents@));
    }
    let ghost text = the_compile.contents@;
@tail
    proof {
        assert(wrote(output_of(path@), text));
        if sound(*schema) { assert(module_of(*config, *schema, path@, frags, op_ir, __tail->Ok_0.global_types_used@, text)); }
        assert(__tail->Ok_0.messages@ == msc);
    }
@footer
/// C20: where the global types go
pub open spec fn globals_path(config: CompileConfig, root: Seq<char>) -> Seq<char> {
    let name = config.global_types_module_name@;
    if config.root_dir_import_prefix is Some && is_prefix(config.root_dir_import_prefix->0@, name) { joined(root, name.skip(config.root_dir_import_prefix->0@.len() as int)) } else { joined(root, name) }
}
pub open spec fn globals_output(config: CompileConfig, root: Seq<char>) -> Seq<char> {
    if extension_of(globals_path(config, root)) is Some { globals_path(config, root) } else { with_ext(globals_path(config, root), "ts"@) }
}
pub open spec fn globals_text(config: CompileConfig, schema: Schema, names: Set<Seq<char>>, text: Seq<char>) -> bool { typescript::enums_agree(schema) ==> typescript::globals_file(config, schema, names, text) }
/// what compiling the global types may write; nothing, when none is used
pub open spec fn may_compile_globals(config: CompileConfig, schema: Schema, root: Seq<char>, names: Set<Seq<char>>) -> bool {
    forall|text: Seq<char>| (exists|k: Seq<char>| names.contains(k)) && #[trigger] globals_text(config, schema, names, text) ==> may_write(globals_output(config, root), text)
}
@fn compile_global_types_file
@tag C09 C14 C20
@spec
    requires may_compile_globals(*config, *schema, root_path@, global_names@), // [C09 C20]
    ensures
        (exists|k: Seq<char>| global_names@.contains(k)) && r is Ok ==> exists|text: Seq<char>| #[trigger] globals_text(*config, *schema, global_names@, text) && wrote(globals_output(*config, root_path@), text), // [C09 C20]
        r is Err ==> reported(r->Err_0) && (typescript::globals_refused(*schema, global_names@) || write_fails(globals_output(*config, root_path@))), // [C09 C14]

@closure 0
|$0: &str| -> (r: Option<&str>) ensures r is Some <==> is_prefix($0@, config.global_types_module_name@), r is Some ==> r->0@ == config.global_types_module_name@.skip($0@.len() as int)
@closure 1
|$0: &str| -> (r: PathBuf) ensures r@ == joined(root_path@, $0@)
@closure 2
|| -> (r: PathBuf) ensures r@ == joined(root_path@, config.global_types_module_name@)
@closure 3
|$0: IoError| -> (r: PrintableMessage) ensures reported(r)
@before let output_path_with_ext
    let ghost text = the_compile.contents@;
    proof {
        assert(output_path@ == globals_path(*config, root_path@));
        assert(globals_text(*config, *schema, global_names@, text));
    }
@footer
/// no file has two paths
pub open spec fn no_aliases() -> bool { forall|p: Seq<char>, q: Seq<char>| #![trigger ident(p), ident(q)] readable(p) && ident(p) == ident(q) ==> p == q }
/// C08: where no file has two paths, the files found are those that are imported, in any number of steps
pub proof fn theorem_imports(config: CompileConfig, root: Seq<char>, m: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>, ps: Seq<Seq<char>>, i: int)
    requires imports_found(config, root, m, ms), no_aliases(), chain(config, ps), ps[0] == root, 1 <= i < ps.len()
    ensures m.contains_key(ps[i]), m[ps[i]].0@ == doc(ps[i])
    decreases i
{
    let f = ps[i - 1];
    assert(leads_to(config, ps[i - 1], ps[(i - 1) + 1]));
    if i > 1 {
        theorem_imports(config, root, m, ms, ps, i - 1);
        assert(entered(config, m, ident(f), ms));
        let g = choose|g: Seq<char>| ident(g) == ident(f) && #[trigger] followed(config, g, m, ms);
        assert(ident(f) == ident(g));
        assert(g == f);
    }
    let k = choose|k: int| #[trigger] imports(config, f, k, ps[i]);
    assert(line_followed(config, f, k, m, ms));
}
/// and what is imported but cannot be read is told
pub proof fn theorem_dead_imports(config: CompileConfig, root: Seq<char>, m: Map<Seq<char>, Imported>, ms: Seq<PrintableMessage>, ps: Seq<Seq<char>>, k: int, p: Seq<char>)
    requires imports_found(config, root, m, ms), no_aliases(), chain(config, ps), ps[0] == root, imports(config, ps.last(), k, p), !readable(p)
    ensures exists|j: int| 0 <= j < ms.len() && tells_import(#[trigger] ms[j], ps.last(), k)
{
    let f = ps.last();
    if ps.len() > 1 {
        theorem_imports(config, root, m, ms, ps, ps.len() - 1);
        assert(entered(config, m, ident(f), ms));
        let g = choose|g: Seq<char>| ident(g) == ident(f) && #[trigger] followed(config, g, m, ms);
        assert(leads_to(config, ps[ps.len() - 2], ps[(ps.len() - 2) + 1]));
        assert(ident(f) == ident(g));
    }
    assert(line_followed(config, f, k, m, ms));
}
