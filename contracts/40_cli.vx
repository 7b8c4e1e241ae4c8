@file src/cli.rs
@mod cli
@use use crate::graphql::BottomTypeConfig; => pub use crate::graphql::BottomTypeConfig;
@use use clap::Parser; =>
@use use colored::{control, Colorize}; =>
@use use graphql_parser::Pos; => pub use crate::graphql_parser::Pos;
@use use serde::Deserialize; =>
@use use std::fmt; => use crate::vx::stdx::fmt;
@use use std::fs::File; =>
@use use std::io::{BufReader, Error as IOError}; => use crate::vx::IoError as IOError;
@use use std::path::{Path, PathBuf}; =>
@use use strsim::generic_damerau_levenshtein; => use crate::vx::strsim::generic_damerau_levenshtein;
@impl impl fmt::Display for PrintableMessage => impl PrintableMessage
@header
use crate::vx::*;
@footer
// ---------------------------------------------------------------- where a message points to
/// C19: the line and column are those of the position, and the quoted line is that line of the text
pub open spec fn points_at(l: LocationInformation, contents: Seq<char>, p: Pos) -> bool {
    &&& l.line_number@ == int_txt(p.line() as int)
    &&& l.column_number == Some(p.column()) && p.column() >= 1
    &&& p.line() >= 1 && p.line() <= lines_of(contents).len() ==> l.line@ == lines_of(contents)[p.line() - 1]
}
pub open spec fn loc_ok(l: LocationInformation) -> bool { l.column_number is Some ==> l.column_number->0 >= 1 }
pub open spec fn msg_ok(m: PrintableMessage) -> bool { m.source_information is Some && m.source_information->0.location is Some ==> loc_ok(m.source_information->0.location->0) }
/// an error, fit to be printed
pub open spec fn reported(m: PrintableMessage) -> bool { !is_warning(m) && msg_ok(m) }
pub open spec fn told_at(m: PrintableMessage, path: Seq<char>, contents: Seq<char>, p: Pos) -> bool {
    m.source_information is Some && m.source_information->0.file_path@ == path && m.source_information->0.location is Some && points_at(m.source_information->0.location->0, contents, p)
}
// ---------------------------------------------------------------- what a message looks like
pub open spec fn spaces(n: int) -> Seq<char> { repeat_seq(" "@, n as nat) }
pub open spec fn colon_text(l: LocationInformation) -> Seq<char> {
    match l.column_number { None => ":"@ + l.line_number@, Some(c) => ":"@ + l.line_number@ + ":"@ + int_txt(c as int) }
}
pub open spec fn quote_text(l: LocationInformation) -> Seq<char> {
    let indent = spaces((bytes_in(l.line_number@) + 1) as int);
    "\n"@ + indent + "|"@ + "\n"@ + l.line_number@ + " "@ + "|"@ + " "@ + l.line@ + "\n"@
        + (match l.column_number { None => indent + " "@ + "|"@, Some(c) => indent + "|"@ + " "@ + spaces(c - 1) + "^"@ })
        + (match l.help_text { None => Seq::empty(), Some(h) => "\n"@ + indent + "="@ + " "@ + "help:"@ + " "@ + h@ })
}
pub open spec fn source_text(i: SourceInformation) -> Seq<char> {
    match i.location {
        None => "\n"@ + spaces(2) + "-->"@ + " "@ + i.file_path@,
        Some(l) => "\n"@ + spaces(bytes_in(l.line_number@) as int) + "-->"@ + " "@ + i.file_path@ + colon_text(l) + quote_text(l),
    }
}
pub open spec fn level_text(l: MessageLevel) -> Seq<char> {
    match l { MessageLevel::CompileWarning => "warning"@, MessageLevel::CompileError => "error"@, MessageLevel::ProgramError => "program error"@ }
}
pub open spec fn message_text(l: MessageLevel, text: Seq<char>) -> Seq<char> { level_text(l) + ":"@ + " "@ + text }
pub open spec fn shown(m: PrintableMessage) -> Seq<char> {
    match m.source_information { None => message_text(m.level, m.message@), Some(i) => message_text(m.level, m.message@) + source_text(i) }
}
/// `{}` prints what `Display::fmt` puts
impl Txt for PrintableMessage { open spec fn txt(&self) -> Seq<char> { shown(*self) } }
// ---------------------------------------------------------------- C14: the summary and the exit status
pub open spec fn is_warning(m: PrintableMessage) -> bool { m.level is CompileWarning }
pub open spec fn tally(ms: Seq<PrintableMessage>, warnings: bool) -> int
    decreases ms.len()
{ if ms.len() == 0 { 0 } else { tally(ms.drop_last(), warnings) + if is_warning(ms.last()) == warnings { 1int } else { 0 } } }
pub open spec fn plural(n: int) -> Seq<char> { if n > 1 { "s"@ } else { ""@ } }
pub open spec fn printed(ms: Seq<PrintableMessage>) -> Seq<Seq<char>> { ms.map_values(|m: PrintableMessage| shown(m) + "\n"@) }
pub open spec fn summary(errors: int, warnings: int) -> Seq<Seq<char>> {
    (if errors > 0 { seq![message_text(MessageLevel::CompileError, "failure due to "@ + int_txt(errors) + " error"@ + plural(errors))] } else { Seq::empty() })
        + (if warnings > 0 { seq![message_text(MessageLevel::CompileWarning, int_txt(warnings) + " warning"@ + plural(warnings) + " emitted"@)] } else { Seq::empty() })
}
/// every message once, in order, then the number of errors and of warnings; the status is 1 if there are errors and 0 otherwise
pub open spec fn told(ms: Seq<PrintableMessage>, lines: Seq<Seq<char>>, status: int) -> bool {
    &&& lines =~= printed(ms) + summary(tally(ms, false), tally(ms, true))
    &&& status == (if tally(ms, false) > 0 { 1int } else { 0 })
}
pub broadcast proof fn lemma_empty_add(s: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + s) == s { assert(Seq::<char>::empty() + s =~= s); }
pub proof fn lemma_tally(ms: Seq<PrintableMessage>, i: int)
    requires 0 <= i < ms.len()
    ensures
        tally(ms.take(i + 1), true) == tally(ms.take(i), true) + if is_warning(ms[i]) { 1int } else { 0 },
        tally(ms.take(i + 1), false) == tally(ms.take(i), false) + if is_warning(ms[i]) { 0int } else { 1 },
        printed(ms.take(i + 1)) =~= printed(ms.take(i)).push(shown(ms[i]) + "\n"@),
{
    assert(ms.take(i + 1).drop_last() =~= ms.take(i));
    assert(ms.take(i + 1).last() == ms[i]);
}
// ---------------------------------------------------------------- C13: the settings
/// the command line, as clap reads it
pub uninterp spec fn command_line() -> CliArgs;
impl CliArgs {
    #[verifier::external_body]
    pub fn parse() -> (r: Self) ensures r == command_line() { unimplemented!() }
}
impl ConfigFileMatches {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures blank(r) { unimplemented!() }
}
pub open spec fn blank(c: ConfigFileMatches) -> bool {
    &&& c.schema_path is None && c.use_custom_scalars is None && c.disable_readonly_types is None && c.custom_scalar_prefix is None && c.num_threads is None
    &&& c.show_deprecation_warnings is None && c.root_dir_import_prefix is None && c.global_types_module_name is None && c.typed_graphql_documentnode_module_name is None
}
pub open spec fn config_path(arg: Option<&Path>) -> Seq<char> { match arg { Some(p) => p@, None => ".qlcrc.json"@ } }
/// the settings are those in the file, with a relative schema path taken relative to the file
pub open spec fn from_config_file(path: Seq<char>, j: ConfigFileMatches, c: ConfigFileMatches) -> bool {
    &&& c.use_custom_scalars == j.use_custom_scalars && c.disable_readonly_types == j.disable_readonly_types && c.custom_scalar_prefix == j.custom_scalar_prefix
    &&& c.num_threads == j.num_threads && c.show_deprecation_warnings == j.show_deprecation_warnings && c.root_dir_import_prefix == j.root_dir_import_prefix
    &&& c.global_types_module_name == j.global_types_module_name && c.typed_graphql_documentnode_module_name == j.typed_graphql_documentnode_module_name
    &&& match j.schema_path {
        None => c.schema_path is None,
        Some(p) => if is_absolute_path(p@) { c.schema_path == Some(p) } else if parent_path(path) is Some { c.schema_path is Some && c.schema_path->0@ == joined(parent_path(path)->0, p@) } else { c.schema_path is None },
    }
}
/// there is no configuration file where one is looked for unasked
pub open spec fn no_config_file(arg: Option<&Path>) -> bool { arg is None && open_error(config_path(arg)) is Some && open_error(config_path(arg))->0.not_found() }
pub open spec fn configured(arg: Option<&Path>, c: ConfigFileMatches) -> bool {
    if no_config_file(arg) { blank(c) } else {
        open_error(config_path(arg)) is None && serde_json::parsed::<ConfigFileMatches>(config_path(arg)) is Ok && from_config_file(config_path(arg), serde_json::parsed::<ConfigFileMatches>(config_path(arg))->Ok_0, c)
    }
}
/// the configuration file named on the command line
pub open spec fn asked_file() -> Option<&'static Path> { match command_line().config_file { Some(p) => Some(&p), None => None } }
pub open spec fn either<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
pub open spec fn text_or(a: Option<String>, b: Option<String>, default: Seq<char>, r: String) -> bool { if either(a, b) is Some { r == either(a, b)->0 } else { r@ == default } }
/// the command line wins over the configuration file, which wins over the default
pub open spec fn settled(a: CliArgs, c: ConfigFileMatches, r: RuntimeConfig) -> bool {
    &&& if a.root_dir is Some { r.root_dir == a.root_dir->0 } else { r.root_dir@ == "."@ }
    &&& if either(a.schema_path, c.schema_path) is Some { r.schema_path == either(a.schema_path, c.schema_path)->0 } else { r.schema_path@ == joined(r.root_dir@, "schema.json"@) }
    &&& r.show_deprecation_warnings == (a.show_deprecation_warnings || c.show_deprecation_warnings == Some(true))
    &&& r.use_custom_scalars == (a.use_custom_scalars || c.use_custom_scalars == Some(true))
    &&& r.disable_readonly_types == (a.disable_readonly_types || c.disable_readonly_types == Some(true))
    &&& r.custom_scalar_prefix == either(a.custom_scalar_prefix, c.custom_scalar_prefix)
    &&& r.root_dir_import_prefix == either(a.root_dir_import_prefix, c.root_dir_import_prefix)
    &&& r.number_threads as int == at_least_one(if either(a.num_threads, c.num_threads) is Some { either(a.num_threads, c.num_threads)->0 as int } else if cores() < 8 { cores() as int } else { 8 })
    &&& text_or(a.global_types_module_name, c.global_types_module_name, "graphql-globals"@, r.global_types_module_name)
    &&& text_or(a.typed_graphql_documentnode_module_name, c.typed_graphql_documentnode_module_name, "@notarize/qlc-cli/typed-documentnode"@, r.typed_graphql_documentnode_module_name)
}
pub open spec fn at_least_one(n: int) -> int { if n < 1 { 1 } else { n } }
@fn LocationInformation::new_from_line_and_column
@tag C19
@spec
    requires column_number >= 1
    ensures r.line_number@ == int_txt(line_number as int), r.line@ == line@, r.column_number == Some(column_number), r.help_text is None
@fn LocationInformation::new_from_contents_and_position
@tag C16 C19
@rewrite position.line => position.vx_line()
@rewrite position.column => position.vx_column()
@spec
    ensures points_at(r, contents@, *position), r.help_text is None
@fn LocationInformation::with_help_text
@tag C19
@spec
    ensures
        r.line_number == old(self).line_number, r.line == old(self).line, r.column_number == old(self).column_number,
        r.help_text is Some && r.help_text->0@ == help_text@,
        *final(self) == *final(r),
@fn LocationInformation::line_number_digits
@tag C16 C19
@rewrite self.line_number.len() => crate::vx::byte_len(self.line_number.as_str())
@spec
    ensures r == bytes_in(self.line_number@), r < 0x8000_0000_0000_0000
@fn LocationInformation::fmt_colon_encoding
@tag C19
@spec
    ensures r is Ok ==> final(f)@ == old(f)@ + colon_text(*self)
@tail
    proof { assert(__tail is Ok ==> f@ =~= old(f)@ + colon_text(*self)); }
@fn LocationInformation::fmt_line_encoding
@tag C16 C19
@spec
    requires loc_ok(*self), forall|s: &str| #[trigger] colorize.requires((s,)), forall|s: &str, c: colored::ColoredString| #[trigger] colorize.ensures((s,), c) ==> c.text() == s@
    ensures r is Ok ==> final(f)@ == old(f)@ + quote_text(*self)
@tail
    proof { assert(__tail is Ok ==> f@ =~= old(f)@ + quote_text(*self)); }
@fn SourceInformation::fmt_file
@tag C16 C19
@spec
    requires self.location is Some ==> loc_ok(self.location->0), forall|s: &str| #[trigger] colorize.requires((s,)), forall|s: &str, c: colored::ColoredString| #[trigger] colorize.ensures((s,), c) ==> c.text() == s@
    ensures r is Ok ==> final(f)@ == old(f)@ + source_text(*self)
@closure 0
|$0: &LocationInformation| -> (r: usize) ensures r == bytes_in($0.line_number@)
@tail
    proof { assert(__tail is Ok ==> f@ =~= old(f)@ + source_text(*self)); }
@fn PrintableMessage::new_compile_error_from_read_io_error
@tag C14
@spec
    ensures !is_warning(r), msg_ok(r), r.source_information is None
@fn PrintableMessage::new_compile_error_from_write_io_error
@tag C14 C20
@spec
    ensures !is_warning(r), msg_ok(r), r.source_information is None
@fn PrintableMessage::new_simple_compile_error
@tag C14
@spec
    ensures r.level is CompileError, r.message@ == message@, r.source_information is None
@fn PrintableMessage::new_simple_compile_warning
@tag C14
@spec
    ensures r.level is CompileWarning, r.message@ == message@, r.source_information is None
@fn PrintableMessage::new_compile_error
@tag C14 C19
@spec
    ensures r.level is CompileError, r.message@ == message@, told_at(r, source_file_path@, contents@, *position)
@fn PrintableMessage::new_program_error
@tag C14 C19
@spec
    ensures r.level is ProgramError, r.message@ == message@, told_at(r, source_file_path@, contents@, *position)
@fn PrintableMessage::new_simple_program_error
@tag C14
@spec
    ensures r.level is ProgramError, r.message@ == message@, r.source_information is None
@fn PrintableMessage::new_compile_warning
@tag C14 C18 C19
@spec
    ensures r.level is CompileWarning, r.message@ == message@, told_at(r, source_file_path@, contents@, *position)
@fn PrintableMessage::with_source_information
@tag C14 C19
@spec
    ensures
        r.level == old(self).level, r.message == old(self).message,
        r.source_information is Some && r.source_information->0.file_path@ == source_file_path@ && r.source_information->0.location == location,
        *final(self) == *final(r),
@fn PrintableMessage::new_compile_error_from_io_error
@tag C14
@spec
    ensures r.level is CompileError, r.source_information is None
@fn ExitInformation::messages
@attr spec fn told_messages(&self) -> Seq<PrintableMessage>;
@spec
    ensures r@ == self.told_messages()
@fn Vec<PrintableMessage>asExitInformation::messages
@tag C14
@attr open spec fn told_messages(&self) -> Seq<PrintableMessage> { self@ }
@fn ConfigFileMatches::from_file_parse
@tag C13
@spec
    ensures
        r is Ok ==> configured(cli_file_arg, r->Ok_0),
        r is Err ==> msg_ok(r->Err_0),
        no_config_file(cli_file_arg) || open_error(config_path(cli_file_arg)) is None && serde_json::parsed::<ConfigFileMatches>(config_path(cli_file_arg)) is Ok ==> r is Ok,
@closure 0
|| -> (r: &Path) ensures r@ == ".qlcrc.json"@
@closure 1
|$0: ConfigFileMatches| -> (r: ConfigFileMatches) ensures from_config_file(config_file_path@, $0, r)
@closure 2
|$0: Path| -> (r: Option<Path>) ensures if is_absolute_path($0@) { r == Some($0) } else if parent_path(config_file_path@) is Some { r is Some && r->0@ == joined(parent_path(config_file_path@)->0, $0@) } else { r is None }
@closure 3
|$0: &Path| -> (r: Path) ensures r@ == joined($0@, schema_path@)
@closure 4
|$0: serde_json::Error| -> (r: PrintableMessage) ensures msg_ok(r)
@fn RuntimeConfig::from_cli
@tag C13
@spec
    ensures exists|c: ConfigFileMatches| configured(asked_file(), c) && #[trigger] settled(command_line(), c, r)
@after let config_file_args
    let ghost c = config_file_args;
@tail
    proof { assert(settled(command_line(), c, __tail)); }
@closure 0
|$0: PrintableMessage| -> (r: ConfigFileMatches) requires msg_ok($0) ensures false
@closure 1
|| -> (r: Path) ensures r@ == "."@
@closure 2
|| -> (r: Path) ensures r@ == joined(root_dir@, "schema.json"@)
@closure 3
|| -> (r: usize) ensures r == (if cores() < 8 { cores() } else { 8 })
@closure 4
|| -> (r: String) ensures r@ == "graphql-globals"@
@closure 5
|| -> (r: String) ensures r@ == "@notarize/qlc-cli/typed-documentnode"@
@fn RuntimeConfig::root_dir_path
@tag C13
@spec
    ensures r == self.root_dir
@fn RuntimeConfig::schema_file_path
@tag C13
@spec
    ensures r == self.schema_path
@fn RuntimeConfig::bottom_type_config
@tag C04 C13
@spec
    ensures
        r is DefaultBottomType <==> !self.use_custom_scalars,
        r is RealName <==> self.use_custom_scalars && self.custom_scalar_prefix is None,
        r is RealNameWithPrefix ==> self.custom_scalar_prefix is Some && r->RealNameWithPrefix_0@ == self.custom_scalar_prefix->0@,
@fn RuntimeConfig::show_deprecation_warnings
@tag C13 C18
@spec
    ensures r == self.show_deprecation_warnings
@fn RuntimeConfig::thread_count
@tag C13
@spec
    ensures r == self.number_threads
@fn RuntimeConfig::root_dir_import_prefix
@tag C08 C13
@spec
    ensures r == self.root_dir_import_prefix
@fn RuntimeConfig::global_types_module_name
@tag C10 C13
@spec
    ensures r == self.global_types_module_name
@fn RuntimeConfig::typed_graphql_documentnode_module_name
@tag C10 C13
@spec
    ensures r == self.typed_graphql_documentnode_module_name
@fn RuntimeConfig::disable_readonly_types
@tag C13
@spec
    ensures r == self.disable_readonly_types
@fn PrintableMessageasfmt::Display::fmt
@tag C16 C19
@rewrite match self.level { MessageLevel::CompileWarning => |str: &str| str.yellow(), _ => |str: &str| str.red(), } =>> |s: &str| -> (c: ColoredString) ensures c.text() == s@ { s.red() }
@spec
    requires msg_ok(*self)
    ensures r is Ok ==> final(f)@ == old(f)@ + shown(*self)
@tail
    proof { assert(__tail is Ok ==> f@ =~= old(f)@ + shown(*self)); }
@fn similar_help_suggestions
@tag C16
@mode trusted
@fn print_exit_info
@tag C14
@spec
    requires exit_info.told_messages().len() < 0x7fff_ffff, forall|i: int| 0 <= i < exit_info.told_messages().len() ==> msg_ok(#[trigger] exit_info.told_messages()[i])
@start
    broadcast use lemma_empty_add;
    let ghost ms = exit_info.told_messages();
    let mut __out = crate::vx::Out::new(Ghost(|lines: Seq<Seq<char>>, status: int| told(ms, lines, status)));
    proof { assert(ms.take(0) =~= Seq::<PrintableMessage>::empty()); }
@loop 0 it
    invariant
        it.seq().len() == ms.len(), forall|i: int| 0 <= i < ms.len() ==> *(#[trigger] it.seq()[i]) == ms[i], ms.len() < 0x7fff_ffff,
        warning_count == tally(ms.take(it.index@), true), error_count == tally(ms.take(it.index@), false),
        0 <= warning_count <= it.index@, 0 <= error_count <= it.index@,
        __out.lines@ =~= printed(ms.take(it.index@)),
        __out.goal@ == (|lines: Seq<Seq<char>>, status: int| told(ms, lines, status)),
@loopstart 0
    proof { lemma_tally(ms, it.index@ - 1); }
@loopafter 0
    proof { assert(ms.take(ms.len() as int) =~= ms); }
