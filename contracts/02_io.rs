//@mod vx
verus! {
// ---------------------------------------------------------------- paths
/// `Path` and `PathBuf`
#[verifier::external_body]
pub struct Path { p: ::std::path::PathBuf }
pub type PathBuf = Path;
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external] impl core::fmt::Debug for Path { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl Key for Path { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
#[verifier::external] impl ::std::hash::Hash for Path { fn hash<H: ::std::hash::Hasher>(&self, h: &mut H) {} }
#[verifier::external] impl PartialEq for Path { fn eq(&self, o: &Self) -> bool { true } }
#[verifier::external] impl Eq for Path { }
impl Txt for Path { open spec fn txt(&self) -> Seq<char> { self@ } }
/// what stands for a path
pub trait PathLike { spec fn path(&self) -> Seq<char>; }
impl PathLike for Path { open spec fn path(&self) -> Seq<char> { self@ } }
impl PathLike for str { open spec fn path(&self) -> Seq<char> { self@ } }
impl PathLike for String { open spec fn path(&self) -> Seq<char> { self@ } }
impl<'a, T: PathLike + ?Sized> PathLike for &'a T { open spec fn path(&self) -> Seq<char> { (**self).path() } }
/// `Path::join` on Unix
pub open spec fn joined(a: Seq<char>, b: Seq<char>) -> Seq<char> {
    if b.len() > 0 && b[0] == '/' || a.len() == 0 { b } else if a.last() == '/' { a + b } else { a + seq!['/'] + b }
}
pub open spec fn is_absolute_path(a: Seq<char>) -> bool { a.len() > 0 && a[0] == '/' }
pub uninterp spec fn parent_path(a: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn extension_of(a: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn with_ext(a: Seq<char>, e: Seq<char>) -> Seq<char>;
/// the path without links and dots, if there is such a file
pub uninterp spec fn canonical(a: Seq<char>) -> Option<Seq<char>>;
impl Path {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: &Path) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: Path) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_join<P: PathLike>(&self, p: P) -> (r: Path) ensures r@ == joined(self@, p.path()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_owned(&self) -> (r: Path) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_parent(&self) -> (r: Option<&Path>) ensures r is Some <==> parent_path(self@) is Some, r is Some ==> r->0@ == parent_path(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_pop(&mut self) -> (r: bool) ensures r == (parent_path(old(self)@) is Some), final(self)@ == (if parent_path(old(self)@) is Some { parent_path(old(self)@)->0 } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_absolute(&self) -> (r: bool) ensures r == is_absolute_path(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_display(&self) -> (r: &Path) ensures r == self { self }
    #[verifier::external_body]
    pub fn vx_extension(&self) -> (r: Option<&OsStr>) ensures r is Some <==> extension_of(self@) is Some, r is Some ==> r->0@ == extension_of(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_with_extension(&self, e: &str) -> (r: Path) ensures r@ == with_ext(self@, e@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_canonicalize(&self) -> (r: Result<Path, IoError>) ensures r is Ok <==> canonical(self@) is Some, r is Ok ==> r->Ok_0@ == canonical(self@)->0 { unimplemented!() }
}
#[verifier::external_body]
pub struct OsStr { p: ::std::ffi::OsString }
impl View for OsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl PartialEq<str> for OsStr { #[verifier::external_body] fn eq(&self, o: &str) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for OsStr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ } }
pub trait OptPath { spec fn opt_path(&self) -> Option<Path>; fn vx_as_deref(&self) -> (r: Option<&Path>) ensures r is Some <==> self.opt_path() is Some, r is Some ==> *r->0 == self.opt_path()->0; }
impl OptPath for Option<Path> {
    open spec fn opt_path(&self) -> Option<Path> { *self }
    fn vx_as_deref(&self) -> (r: Option<&Path>) { match self { Some(p) => Some(p), None => None } }
}

// ---------------------------------------------------------------- files; none changes while qlc runs, but by qlc
#[verifier::external_body]
pub struct IoError { e: ::std::io::Error }
#[verifier::external] impl core::fmt::Debug for IoError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl Txt for IoError { uninterp spec fn txt(&self) -> Seq<char>; }
pub enum IoErrorKind { NotFound, Other }
impl IoError {
    pub uninterp spec fn not_found(&self) -> bool;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: IoErrorKind) ensures r is NotFound <==> self.not_found() { unimplemented!() }
}
impl PartialEq for IoErrorKind { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for IoErrorKind { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
/// the error with which the file at the path cannot be opened, if it cannot
pub uninterp spec fn open_error(path: Seq<char>) -> Option<IoError>;
/// the text of the file at the path, or why it cannot be read
pub uninterp spec fn text_of(path: Seq<char>) -> Result<Seq<char>, IoError>;
pub trait Reads { spec fn path(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct File { f: ::std::fs::File }
impl Reads for File { uninterp spec fn path(&self) -> Seq<char>; }
impl File {
    #[verifier::external_body]
    pub fn open(p: &Path) -> (r: Result<File, IoError>)
        ensures match r { Ok(f) => open_error(p@) is None && f.path() == p@, Err(e) => open_error(p@) == Some(e) }
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { r: R }
impl<R: Reads> Reads for BufReader<R> { uninterp spec fn path(&self) -> Seq<char>; }
impl<R: Reads> BufReader<R> {
    #[verifier::external_body]
    pub fn new(r: R) -> (x: Self) ensures x.path() == r.path() { unimplemented!() }
}
pub trait Read: Reads {
    fn vx_read_to_string(&mut self, s: &mut String) -> (r: Result<usize, IoError>)
        ensures match r { Ok(_) => text_of(old(self).path()) is Ok && final(s)@ == old(s)@ + text_of(old(self).path())->Ok_0, Err(e) => text_of(old(self).path()) == Err::<Seq<char>, IoError>(e) };
}
impl<R: Reads> Read for BufReader<R> { #[verifier::external_body] fn vx_read_to_string(&mut self, s: &mut String) -> (r: Result<usize, IoError>) { unimplemented!() } }
/// what may be written where: a permission that callers have to have
pub uninterp spec fn may_write(path: Seq<char>, text: Seq<char>) -> bool;
/// writing there fails
pub uninterp spec fn write_fails(path: Seq<char>) -> bool;
/// it was written there, and nothing failed
pub uninterp spec fn wrote(path: Seq<char>, text: Seq<char>) -> bool;
#[verifier::external_body]
pub fn fs_write<P: PathLike>(p: P, text: String) -> (r: Result<(), IoError>)
    requires may_write(p.path(), text@)
    ensures r is Ok ==> wrote(p.path(), text@), r is Err ==> write_fails(p.path())
{ unimplemented!() }

// ---------------------------------------------------------------- what is printed
/// a formatter, with what was put into it
#[verifier::external_body]
pub struct Formatter<'a> { p: core::marker::PhantomData<&'a u8> }
impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;
pub trait Display { fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult); }
impl<'a> Formatter<'a> {
    #[verifier::external_body]
    pub fn vx_put(&mut self, s: String) -> (r: FmtResult) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
/// the lines printed to standard output so far, and what has to hold of them and the status when the process exits
pub struct Out { pub lines: Ghost<Seq<Seq<char>>>, pub goal: Ghost<spec_fn(Seq<Seq<char>>, int) -> bool> }
impl Out {
    pub fn new(Ghost(g): Ghost<spec_fn(Seq<Seq<char>>, int) -> bool>) -> (r: Self) ensures r.lines@ == Seq::<Seq<char>>::empty(), r.goal@ == g { Out { lines: Ghost(Seq::empty()), goal: Ghost(g) } }
    #[verifier::external_body]
    pub fn line(&mut self, s: String) ensures final(self).lines@ == old(self).lines@.push(s@), final(self).goal == old(self).goal { unimplemented!() }
    #[verifier::external_body]
    pub fn exit(self, code: i32) -> ! requires (self.goal@)(self.lines@, code as int) { unimplemented!() }
}
/// coloured text; what is printed is taken without its terminal codes
pub struct ColoredString { pub s: String }
impl ColoredString { pub open spec fn text(&self) -> Seq<char> { self.s@ } }
impl Txt for ColoredString { open spec fn txt(&self) -> Seq<char> { self.text() } }
pub trait Colorize {
    spec fn ctext(&self) -> Seq<char>;
    fn red(&self) -> (r: ColoredString) ensures r.text() == self.ctext();
    fn yellow(&self) -> (r: ColoredString) ensures r.text() == self.ctext();
    fn green(&self) -> (r: ColoredString) ensures r.text() == self.ctext();
    fn blue(&self) -> (r: ColoredString) ensures r.text() == self.ctext();
    fn bold(&self) -> (r: ColoredString) ensures r.text() == self.ctext();
}
impl Colorize for str {
    open spec fn ctext(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn red(&self) -> (r: ColoredString) { unimplemented!() }
    #[verifier::external_body] fn yellow(&self) -> (r: ColoredString) { unimplemented!() }
    #[verifier::external_body] fn green(&self) -> (r: ColoredString) { unimplemented!() }
    #[verifier::external_body] fn blue(&self) -> (r: ColoredString) { unimplemented!() }
    #[verifier::external_body] fn bold(&self) -> (r: ColoredString) { unimplemented!() }
}
impl Colorize for ColoredString {
    open spec fn ctext(&self) -> Seq<char> { self.text() }
    #[verifier::external_body] fn red(&self) -> (r: ColoredString) { unimplemented!() }
    #[verifier::external_body] fn yellow(&self) -> (r: ColoredString) { unimplemented!() }
    #[verifier::external_body] fn green(&self) -> (r: ColoredString) { unimplemented!() }
    #[verifier::external_body] fn blue(&self) -> (r: ColoredString) { unimplemented!() }
    #[verifier::external_body] fn bold(&self) -> (r: ColoredString) { unimplemented!() }
}
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if b < a { b } else { a }) { if b < a { b } else { a } }
pub trait MaxExt { fn vx_max(self, o: Self) -> (r: Self); }
impl MaxExt for usize { fn vx_max(self, o: usize) -> (r: usize) ensures r == (if self > o { self } else { o }) { if self > o { self } else { o } } }
}
verus! {
pub uninterp spec fn cores() -> nat;
impl<T> It<T> {
    #[verifier::external_body]
    pub fn vx_nth(self, n: usize) -> (r: Option<T>) ensures r == (if n < self@.len() { Some(self@[n as int]) } else { None }) { unimplemented!() }
}
}
pub mod num_cpus { use vstd::prelude::*; verus!{
    #[verifier::external_body]
    pub fn get() -> (r: usize) ensures r == super::cores() { unimplemented!() }
} }
pub mod control { use vstd::prelude::*; verus!{
    #[verifier::external_body]
    pub fn set_override(b: bool) { unimplemented!() }
} }
pub mod colored { pub use super::ColoredString; }
pub mod strsim { use vstd::prelude::*; verus!{
    #[verifier::external_body]
    pub fn generic_damerau_levenshtein(a: &str, b: &str) -> usize { unimplemented!() }
} }
verus! {
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](x: Result<T, E>, f: F) -> (r: T)
    requires x is Err ==> f.requires((x->Err_0,)),
    ensures match x { Ok(v) => r == v, Err(e) => f.ensures((e,), r) };
}
verus! {
pub assume_specification [<i32 as core::convert::From<bool>>::from] (b: bool) -> (r: i32)
    ensures r == (if b { 1i32 } else { 0i32 });
}

verus! {
// ---------------------------------------------------------------- texts as bytes
/// the bytes of a character in UTF-8
pub open spec fn char_bytes(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn bytes_in(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { bytes_in(s.drop_last()) + char_bytes(s.last()) } }
/// `str::len`
#[verifier::external_body]
pub fn byte_len(s: &str) -> (r: usize) ensures r <= 0x7fff_ffff_ffff_ffff, r == bytes_in(s@) { s.len() }
/// the first i characters take b bytes
pub open spec fn at_byte(s: Seq<char>, i: int, b: int) -> bool { 0 <= i <= s.len() && bytes_in(s.take(i)) == b }
pub proof fn lemma_bytes_grow(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures bytes_in(s.take(j)) >= bytes_in(s.take(i)) + (j - i)
    decreases j - i
{
    if i < j {
        lemma_bytes_grow(s, i, j - 1);
        assert(s.take(j).drop_last() =~= s.take(j - 1));
    }
}
pub proof fn lemma_at_byte(s: Seq<char>, i: int, j: int, b: int)
    requires at_byte(s, i, b), at_byte(s, j, b)
    ensures i == j
{
    if i < j { lemma_bytes_grow(s, i, j); } else { lemma_bytes_grow(s, j, i); }
}
/// the first characters of a text that begins with p
pub proof fn lemma_prefix_bytes(p: Seq<char>, s: Seq<char>)
    requires is_prefix(p, s)
    ensures at_byte(s, p.len() as int, bytes_in(p) as int), s.take(p.len() as int) == p, at_byte(s, s.len() as int, bytes_in(s) as int)
{
    assert(s.take(p.len() as int) =~= s.subrange(0, p.len() as int));
    assert(s.take(s.len() as int) =~= s);
}
impl Ranged for str {
    type Out = str;
    open spec fn range_ok(&self, a: int, b: int) -> bool { exists|i: int, j: int| i <= j && #[trigger] at_byte(self@, i, a) && #[trigger] at_byte(self@, j, b) }
    open spec fn range_end(&self) -> int { bytes_in(self@) as int }
    open spec fn range_is(&self, a: int, b: int, r: &str) -> bool { forall|i: int, j: int| i <= j && #[trigger] at_byte(self@, i, a) && #[trigger] at_byte(self@, j, b) ==> r@ == self@.subrange(i, j) }
    #[verifier::external_body]
    fn range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    fn range_len(&self) -> (r: usize) { byte_len(self) }
}
impl Ranged for String {
    type Out = str;
    open spec fn range_ok(&self, a: int, b: int) -> bool { exists|i: int, j: int| i <= j && #[trigger] at_byte(self@, i, a) && #[trigger] at_byte(self@, j, b) }
    open spec fn range_end(&self) -> int { bytes_in(self@) as int }
    open spec fn range_is(&self, a: int, b: int, r: &str) -> bool { forall|i: int, j: int| i <= j && #[trigger] at_byte(self@, i, a) && #[trigger] at_byte(self@, j, b) ==> r@ == self@.subrange(i, j) }
    #[verifier::external_body]
    fn range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    fn range_len(&self) -> (r: usize) { byte_len(self.as_str()) }
}
impl<'a> Ranged for &'a str {
    type Out = str;
    open spec fn range_ok(&self, a: int, b: int) -> bool { (*self).range_ok(a, b) }
    open spec fn range_end(&self) -> int { bytes_in(self@) as int }
    open spec fn range_is(&self, a: int, b: int, r: &str) -> bool { (*self).range_is(a, b, r) }
    #[verifier::external_body]
    fn range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    fn range_len(&self) -> (r: usize) { byte_len(*self) }
}
pub broadcast proof fn lemma_prefix_char(c: char, s: Seq<char>)
    ensures #[trigger] is_prefix(seq![c], s) <==> s.len() > 0 && s[0] == c
{
    if s.len() > 0 { assert(s.subrange(0, 1)[0] == s[0]); assert(seq![c][0] == c); if s[0] == c { assert(s.subrange(0, 1) =~= seq![c]); } }
}
pub proof fn lemma_at_zero(s: Seq<char>) ensures at_byte(s, 0, 0), at_byte(s, s.len() as int, bytes_in(s) as int) { assert(s.take(s.len() as int) =~= s); }
/// where the character is last
pub open spec fn last_at(s: Seq<char>, c: char) -> Option<int>
    decreases s.len()
{ if s.len() == 0 { None } else if s.last() == c { Some(s.len() - 1) } else { last_at(s.drop_last(), c) } }
pub proof fn lemma_last_at(s: Seq<char>, c: char)
    ensures
        last_at(s, c) is None ==> !contains_seq(s, seq![c]),
        last_at(s, c) is Some ==> 0 <= last_at(s, c)->0 < s.len() && occurs_at(seq![c], s, last_at(s, c)->0) && forall|j: int| j > last_at(s, c)->0 ==> !#[trigger] occurs_at(seq![c], s, j),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_last_at(s.drop_last(), c);
        assert forall|j: int| #[trigger] occurs_at(seq![c], s, j) implies s[j] == c by { assert(s.subrange(j, j + 1)[0] == s[j]); assert(seq![c][0] == c); }
        assert forall|j: int| 0 <= j < s.len() && s[j] == c implies #[trigger] occurs_at(seq![c], s, j) by { assert(s.subrange(j, j + 1) =~= seq![c]); }
        assert forall|j: int| #[trigger] occurs_at(seq![c], s, j) && j < s.len() - 1 implies occurs_at(seq![c], s.drop_last(), j) by { assert(s[j] == c); assert(s.drop_last().subrange(j, j + 1) =~= seq![c]); }
        if last_at(s.drop_last(), c) is Some && s.last() != c {
            let i = last_at(s.drop_last(), c)->0;
            assert(s.drop_last().subrange(i, i + 1)[0] == seq![c][0]);
            assert(s[i] == c);
        }
    }
}
pub open spec fn is_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub trait StrExt3 {
    spec fn sv3(&self) -> Seq<char>;
    fn vx_starts_with<P: Pattern>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.pat(), self.sv3());
    fn vx_ends_with<P: Pattern>(&self, p: P) -> (r: bool) ensures r == is_suffix(p.pat(), self.sv3());
    fn vx_strip_prefix<P: Pattern>(&self, p: P) -> (r: Option<&str>) ensures r is Some <==> is_prefix(p.pat(), self.sv3()), r is Some ==> r->0@ == self.sv3().skip(p.pat().len() as int);
    fn vx_strip_suffix<P: Pattern>(&self, p: P) -> (r: Option<&str>) ensures r is Some <==> is_suffix(p.pat(), self.sv3()), r is Some ==> r->0@ == self.sv3().take(self.sv3().len() - p.pat().len());
    /// the first byte of the last occurrence
    fn vx_rfind<P: Pattern>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(b) => exists|i: int| #[trigger] occurs_at(p.pat(), self.sv3(), i) && at_byte(self.sv3(), i, b as int) && forall|j: int| j > i ==> !#[trigger] occurs_at(p.pat(), self.sv3(), j),
            None => !contains_seq(self.sv3(), p.pat()),
        };
    /// and of the first
    fn vx_find<P: Pattern>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(b) => exists|i: int| #[trigger] occurs_at(p.pat(), self.sv3(), i) && at_byte(self.sv3(), i, b as int) && forall|j: int| j < i ==> !#[trigger] occurs_at(p.pat(), self.sv3(), j),
            None => !contains_seq(self.sv3(), p.pat()),
        };
}
impl StrExt3 for str {
    open spec fn sv3(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with<P: Pattern>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: Pattern>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: Pattern>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: Pattern>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<P: Pattern>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: Pattern>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
}
impl StrExt3 for String {
    open spec fn sv3(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with<P: Pattern>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: Pattern>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: Pattern>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: Pattern>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<P: Pattern>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: Pattern>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
}
// ---------------------------------------------------------------- ordered maps
pub struct BTreeMap<K, V> { pub inner: ::std::collections::BTreeMap<K, V> }
impl<K: Key, V> View for BTreeMap<K, V> {
    type V = Map<K::KV, V>;
    uninterp spec fn view(&self) -> Map<K::KV, V>;
}
/// the order of the keys
pub uninterp spec fn key_lt<KV>(a: KV, b: KV) -> bool;
impl<K: Key, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k.kv(), v),
            r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: Key<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(k.kv()) { Some(&self@[k.kv()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: Key<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: It<(&K, &V)>) ensures map_items(self@, r@), self@.dom().finite(), r@.len() == self@.dom().len(), forall|i: int, j: int| 0 <= i < j < r@.len() ==> key_lt((#[trigger] r@[i]).0.kv(), (#[trigger] r@[j]).0.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<(K, V)>) ensures map_items_owned(self@, r@), self@.dom().finite(), r@.len() == self@.dom().len(), forall|i: int, j: int| 0 <= i < j < r@.len() ==> key_lt((#[trigger] r@[i]).0.kv(), (#[trigger] r@[j]).0.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::KV, V>::empty()), r == (forall|k: K::KV| !self@.contains_key(k)) { unimplemented!() }
}
pub trait DrainExt<T> {
    spec fn dseq(&self) -> Seq<T>;
    fn vx_drain(&mut self, r: ::core::ops::Range<usize>) -> (x: It<T>)
        requires r.start <= r.end <= old(self).dseq().len()
        ensures
            x@ == old(self).dseq().subrange(r.start as int, r.end as int),
            final(self).dseq() == old(self).dseq().take(r.start as int) + old(self).dseq().skip(r.end as int);
}
impl<T> DrainExt<T> for Vec<T> {
    open spec fn dseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_drain(&mut self, r: ::core::ops::Range<usize>) -> (x: It<T>) { unimplemented!() }
}
}

verus! {
pub trait ResExt<T, E>: Sized {
    spec fn rv(&self) -> Result<T, E>;
    fn vx_and_then<U, F: FnOnce(T) -> Result<U, E>>(self, f: F) -> (r: Result<U, E>)
        requires self.rv() is Ok ==> f.requires((self.rv()->Ok_0,)),
        ensures match self.rv() { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
}
impl<T, E> ResExt<T, E> for Result<T, E> {
    open spec fn rv(&self) -> Result<T, E> { *self }
    fn vx_and_then<U, F: FnOnce(T) -> Result<U, E>>(self, f: F) -> (r: Result<U, E>) { match self { Ok(x) => f(x), Err(e) => Err(e) } }
}
}
