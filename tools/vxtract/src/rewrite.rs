//! The rewriting rules. Everything not named here is copied verbatim.
//!
//! D1  attributes, doc comments and derives are dropped; a derived Clone / PartialEq becomes
//!     a trusted contract ("the clone equals the original", "eq is equality of content").
//! D2  items and fields are made `pub` (contracts must be able to name them).
//! D3  `format!("..{a}..")` becomes `vx::fmt().lit("..").arg(&(a))...done()`, in order.
//! D4  `use` of std collections and of crates outside the program is redirected to stand-ins
//!     with contracts (`vx`, mirrored AST types), as the overlay lists.
//! D5  calls of std methods with an assumed contract get a `vx_` prefix (`.iter()` becomes
//!     `.vx_iter()`); iterators are run eagerly. `for P in E B` becomes
//!     `{ let mut it = vx::run(E); loop { match it.next() { None => break, Some(P) => B } } }`.
//! D6  `impl Iterator<Item = T>` becomes `vx::It<T>`; `impl ToString` becomes `&str`.
//! D7  a pattern in a parameter becomes a `let` at the start of the body.
//! D8  `_` in closure parameters gets a name.
//! D9  `match M.entry(K) { Occupied(o) => A, Vacant(v) => B }` becomes
//!     `{ let __key = K; if M.contains_key(&__key) { A } else { B } }` with `o.into_mut()`
//!     read as `M.get_mut(&__key).unwrap()` and `v.insert(X)` as `M.insert(__key, X)`.
//! D10 `for P in M.values_mut() B` becomes a loop over the keys with
//!     `let P = M.get_mut(&key).unwrap();`.
//! D11 string and slice ranges `&E[A..]`, `&E[..B]`, `&E[A..B]`, `&E[..]` become calls of
//!     functions whose precondition is that the range is in bounds (and on a char boundary).
//! D14 where the overlay says so, a function of a trait impl (`TryFrom::try_from`) becomes a free
//!     function, and the conversions that call it (listed rewrites) call it by that name: Verus
//!     takes no recursion through trait impls.
//! D15 where the overlay says so, `X.map(|p| B).collect::<Result<Vec<_>>>()` becomes the loop that
//!     it is (as D5): `for p in X { match B { Ok(v) => acc.push(v), Err(e) => stop with Err(e) } }`, with
//!     `E?` in B as the same stop; Verus takes no closures that capture a mutable reference.
//! D16 where the overlay says so, `O.map(|p| B)` of an Option becomes
//!     `match O { Some(p) => Some(B), None => None }`.
//! D13 a constructor passed as a function becomes a closure that calls it.
//! D17 `write!(F, ..)` becomes `F.vx_put(X)` and, where the overlay keeps a ghost record of what is
//!     printed, `println!(..)` becomes `__out.line(X)` and `std::process::exit(E)` becomes
//!     `__out.exit(E)`, with X as in D3.
//! D18 where the overlay says so, an impl of a trait is read as an inherent impl: Verus takes no
//!     preconditions on functions of trait impls.
//! D12 paths into std (`std::process::exit`, `std::iter::empty`, ...) are redirected to
//!     contracted stand-ins of the same name.
use crate::overlay::{norm, FnOverlay, Overlay};
use crate::{FnReport, Report};
use proc_macro2::{LineColumn, Span};
use quote::ToTokens;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

const VX_METHODS: &[&str] = &[
    "iter", "into_iter", "keys", "values", "lines", "drain", "extend", "join", "sort_unstable",
    "sort_unstable_by", "sort_unstable_by_key", "sort", "sort_by", "sort_by_key", "transpose", "as_deref", "strip_prefix", "rfind",
    "find", "replace", "starts_with", "ends_with", "trim", "repeat", "contains", "with_extension", "extension",
    "to_owned", "canonicalize", "into_inner", "borrow_mut", "get_fields_map", "is_absolute", "parent", "display",
    "strip_suffix", "chars", "split", "trim_start", "trim_end", "map_or", "is_char_boundary", "to_str", "ends",
    "append", "any", "all", "or", "pop", "dedup", "first", "last", "push_str", "or_else", "and", "file_name", "values_mut_list",
    "unwrap_or_default", "to_string", "and_then", "cmp", "nth", "skip", "chain", "max", "min", "is_some_and", "rev", "enumerate", "copied", "read_to_string",
];

#[derive(Clone)]
enum Piece {
    Lit(String),
    Src(usize, usize),
}
struct Edit {
    start: usize,
    end: usize,
    seq: usize,
    pieces: Vec<Piece>,
}

struct Source<'a> {
    text: &'a str,
    lines: Vec<usize>,
}

impl<'a> Source<'a> {
    fn new(text: &'a str) -> Self {
        let mut lines = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push(i + 1);
            }
        }
        Source { text, lines }
    }
    fn off(&self, lc: LineColumn) -> usize {
        let start = self.lines[lc.line - 1];
        let rest = &self.text[start..];
        rest.char_indices().nth(lc.column).map(|(i, _)| start + i).unwrap_or(self.text.len())
    }
    fn range(&self, sp: Span) -> (usize, usize) {
        (self.off(sp.start()), self.off(sp.end()))
    }
    fn str(&self, sp: Span) -> &'a str {
        let (a, b) = self.range(sp);
        &self.text[a..b]
    }
}

fn render(src: &str, edits: &[Edit], start: usize, end: usize, own: Option<usize>) -> String {
    // edits strictly inside [start,end], outermost first
    let mut inside: Vec<(usize, &Edit)> = edits
        .iter()
        .enumerate()
        .filter(|(i, e)| Some(*i) != own && e.start >= start && e.end <= end)
        .filter(|(i, e)| match own {
            // an edit that covers its own range again is not nested in itself
            Some(o) => !(e.start <= edits[o].start && e.end >= edits[o].end && *i != o && e.start != e.end),
            None => true,
        })
        .collect();
    inside.sort_by(|(_, a), (_, b)| {
        (a.start, if a.start == a.end { 0 } else { 1 }, std::cmp::Reverse(a.end), a.seq).cmp(&(
            b.start,
            if b.start == b.end { 0 } else { 1 },
            std::cmp::Reverse(b.end),
            b.seq,
        ))
    });
    let mut out = String::new();
    let mut pos = start;
    for (i, e) in inside {
        if e.start < pos {
            continue; // nested in an edit already rendered
        }
        out.push_str(&src[pos..e.start]);
        for p in &e.pieces {
            match p {
                Piece::Lit(s) => out.push_str(s),
                Piece::Src(a, b) => out.push_str(&render(src, edits, *a, *b, Some(i))),
            }
        }
        pos = e.end;
    }
    if pos < end {
        out.push_str(&src[pos..end]);
    }
    out
}

struct Ctx<'a, 's> {
    src: &'s Source<'a>,
    edits: Vec<Edit>,
    report: &'s mut Report,
    ov: FnOverlay,
    loops: usize,
    closures: usize,
    lost: Vec<String>,
    calls: BTreeSet<String>,
    used_before: BTreeSet<usize>,
    used_after: BTreeSet<usize>,
    used_rewrites: BTreeSet<usize>,
    used_loops: BTreeSet<usize>,
    used_closures: BTreeSet<usize>,
    names: usize,
    /// what `Self` stands for in a function that left its impl (D14)
    self_ty: Option<String>,
    used_inline: BTreeSet<String>,
    /// inside the body of an inlined closure (D15): what `?` and `return` become
    in_inline: bool,
    prints: bool,
}

impl<'a, 's> Ctx<'a, 's> {
    fn edit(&mut self, start: usize, end: usize, pieces: Vec<Piece>) {
        let seq = self.edits.len();
        self.edits.push(Edit { start, end, seq, pieces });
    }
    fn insert(&mut self, at: usize, s: impl Into<String>) {
        self.edit(at, at, vec![Piece::Lit(s.into())]);
    }
    fn replace(&mut self, sp: Span, s: impl Into<String>) {
        let (a, b) = self.src.range(sp);
        self.edit(a, b, vec![Piece::Lit(s.into())]);
    }

    /// what a macro that formats becomes; false: it is none
    fn printing(&mut self, mac: &Macro, whole: Span) -> bool {
        if mac.path.is_ident("format") {
            self.format_macro(mac, whole, None)
        } else if mac.path.is_ident("write") {
            self.format_macro(mac, whole, Some("write"))
        } else if mac.path.is_ident("println") && self.prints {
            self.format_macro(mac, whole, Some("println"))
        } else {
            false
        }
    }

    fn format_macro(&mut self, mac: &Macro, whole: Span, kind: Option<&str>) -> bool {
        let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let Ok(args) = mac.parse_body_with(parser) else { return false };
        let mut it = args.iter();
        let target = if kind == Some("write") { it.next() } else { None };
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(fmt), .. })) = it.next() else { return false };
        let rest: Vec<&Expr> = it.collect();
        let f = fmt.value();
        let mut pieces = match (kind, target) {
            (Some("write"), Some(x)) => {
                let (a, b) = self.src.range(x.span());
                vec![Piece::Src(a, b), Piece::Lit(".vx_put(".to_string())]
            }
            (Some("println"), _) => vec![Piece::Lit("__out.line(".to_string())],
            _ => vec![],
        };
        pieces.push(Piece::Lit("crate::vx::fmt()".to_string()));
        let mut lit = String::new();
        let mut next = 0;
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        fn flush(lit: &mut String, pieces: &mut Vec<Piece>) {
            if !lit.is_empty() {
                pieces.push(Piece::Lit(format!(".lit({})", rust_str(lit))));
                lit.clear();
            }
        }
        while i < cs.len() {
            match cs[i] {
                '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                    lit.push('{');
                    i += 2;
                }
                '}' if i + 1 < cs.len() && cs[i + 1] == '}' => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let Some(len) = cs[i..].iter().position(|c| *c == '}') else { return false };
                    let inner: String = cs[i + 1..i + len].iter().collect();
                    flush(&mut lit, &mut pieces);
                    if inner.is_empty() {
                        if next >= rest.len() {
                            return false;
                        }
                        let (a, b) = self.src.range(rest[next].span());
                        pieces.push(Piece::Lit(".arg(&(".into()));
                        pieces.push(Piece::Src(a, b));
                        pieces.push(Piece::Lit("))".into()));
                        next += 1;
                    } else if inner.chars().all(|c| c.is_alphanumeric() || c == '_')
                        && !inner.chars().next().unwrap().is_numeric()
                    {
                        pieces.push(Piece::Lit(format!(".arg(&({inner}))")));
                    } else {
                        return false; // width, debug, named or indexed arguments
                    }
                    i += len + 1;
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        flush(&mut lit, &mut pieces);
        if next != rest.len() {
            return false;
        }
        pieces.push(Piece::Lit(if kind.is_some() { ".done())".into() } else { ".done()".into() }));
        let (a, b) = self.src.range(whole);
        self.edit(a, b, pieces);
        for e in rest {
            self.visit_expr(e);
        }
        self.report.rule(if kind.is_some() { "D17 write! and println!" } else { "D3 format!" });
        true
    }

    fn stmt_anchor(&mut self, stmt_span: Span) {
        let (a, b) = self.src.range(stmt_span);
        let text = norm(&self.src.text[a..b]);
        // of several directives with one snippet, the next statement takes the next one
        let mut taken: Vec<String> = Vec::new();
        for k in 0..self.ov.before.len() {
            let (snip, ins) = self.ov.before[k].clone();
            if !self.used_before.contains(&k) && text.starts_with(&snip) && !taken.contains(&snip) {
                taken.push(snip);
                self.used_before.insert(k);
                self.insert(a, format!("\n{ins}\n"));
            }
        }
        let mut taken: Vec<String> = Vec::new();
        for k in 0..self.ov.after.len() {
            let (snip, ins) = self.ov.after[k].clone();
            if !self.used_after.contains(&k) && text.starts_with(&snip) && !taken.contains(&snip) {
                taken.push(snip);
                self.used_after.insert(k);
                self.insert(b, format!("\n{ins}\n"));
            }
        }
    }

    fn loop_annot(&mut self, idx: usize, body: &Block, head: Option<(usize, usize)>) -> Option<String> {
        let (ba, bb) = self.src.range(body.span());
        let mut iter_name = None;
        if let Some((it, inv)) = self.ov.loops.get(&idx).cloned() {
            self.used_loops.insert(idx);
            self.insert(ba, format!("\n{inv}\n"));
            iter_name = it;
        }
        if let Some(t) = self.ov.loop_start.get(&idx).cloned() {
            self.insert(ba + 1, format!("\n{t}\n"));
        }
        if let Some(t) = self.ov.loop_end.get(&idx).cloned() {
            // before the closing brace; a trailing expression of a loop body is ()
            let needs = matches!(body.stmts.last(), Some(Stmt::Expr(_, None)));
            self.insert(bb - 1, format!("{}\n{t}\n", if needs { ";" } else { "" }));
        }
        let _ = head;
        iter_name
    }
}

fn rust_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl<'a, 's, 'ast> Visit<'ast> for Ctx<'a, 's> {
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        self.replace(a.span(), "");
        self.report.rule("D1 attribute");
    }

    fn visit_stmt(&mut self, s: &'ast Stmt) {
        self.stmt_anchor(s.span());
        if let Stmt::Macro(m) = s {
            let _ = self.printing(&m.mac, m.mac.span());
        }
        visit::visit_stmt(self, s);
    }

    fn visit_expr(&mut self, e: &'ast Expr) {
        if !self.ov.rewrites.is_empty() {
            let (a, b) = self.src.range(e.span());
            let text = norm(&self.src.text[a..b]);
            for k in 0..self.ov.rewrites.len() {
                let (pat, rep) = self.ov.rewrites[k].clone();
                if text == pat && !rep.is_empty() {
                    self.used_rewrites.insert(k);
                    self.edit(a, b, vec![Piece::Lit(rep)]);
                    self.report.rule("R overlay rewrite");
                    return;
                }
            }
        }
        match e {
            Expr::Macro(m) if m.mac.path.is_ident("format") || m.mac.path.is_ident("write") || m.mac.path.is_ident("println") => {
                if self.printing(&m.mac, m.span()) {
                    return;
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") || m.mac.path.is_ident("matches") => {
                if m.mac.path.is_ident("vec") {
                    let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                    if let Ok(args) = m.mac.parse_body_with(parser) {
                        // the spans of the parsed arguments point into the source
                        for a in args.iter() {
                            self.visit_expr(a);
                        }
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(range) = &*ix.index {
                        if matches!(range.limits, RangeLimits::HalfOpen(_)) {
                            let (a, b) = self.src.range(r.span());
                            let (xa, xb) = self.src.range(ix.expr.span());
                            let name = match (&range.start, &range.end) {
                                (None, None) => "full",
                                (Some(_), None) => "range_from",
                                (None, Some(_)) => "range_to",
                                (Some(_), Some(_)) => "range",
                            };
                            let mut p = vec![Piece::Lit(format!("crate::vx::{name}(&")), Piece::Src(xa, xb)];
                            for x in [&range.start, &range.end].into_iter().flatten() {
                                let (sa, sb) = self.src.range(x.span());
                                p.push(Piece::Lit(", ".into()));
                                p.push(Piece::Src(sa, sb));
                            }
                            p.push(Piece::Lit(")".into()));
                            self.edit(a, b, p);
                            self.report.rule("D11 range");
                            self.visit_expr(&ix.expr);
                            for x in [&range.start, &range.end].into_iter().flatten() {
                                self.visit_expr(x);
                            }
                            return;
                        }
                    }
                }
            }
            Expr::Match(m) => {
                if self.entry_match(m) {
                    return;
                }
            }
            Expr::Try(t) if self.in_inline => {
                let (a, b) = self.src.range(t.span());
                let (xa, xb) = self.src.range(t.expr.span());
                self.edit(a, b, vec![Piece::Lit("match ".into()), Piece::Src(xa, xb), Piece::Lit(" { Ok(__v) => __v, Err(__e) => { __err = Some(__e); break; } }".into())]);
                self.visit_expr(&t.expr);
                return;
            }
            Expr::Return(t) if self.in_inline && t.expr.is_some() => {
                let x = t.expr.as_ref().unwrap();
                let (a, b) = self.src.range(t.span());
                let (xa, xb) = self.src.range(x.span());
                self.edit(a, b, vec![Piece::Lit("match ".into()), Piece::Src(xa, xb), Piece::Lit(" { Ok(__v) => { __acc.push(__v); continue; } Err(__e) => { __err = Some(__e); break; } }".into())]);
                self.visit_expr(x);
                return;
            }
            Expr::MethodCall(mc) if self.inline_map(mc) => return,
            Expr::MethodCall(mc) => {
                let name = mc.method.to_string();
                self.calls.insert(name.clone());
                for arg in &mc.args {
                    if let Expr::Path(p) = arg {
                        let last = p.path.segments.last().unwrap().ident.to_string();
                        let is_const = last.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric());
                        if last.chars().next().unwrap().is_uppercase() && !is_const && name.starts_with("map") {
                            let t = self.src.str(p.span()).to_string();
                            self.replace(p.span(), format!("|__x| -> (__r: _) ensures crate::vx::same(__r, {t}(__x)) {{ {t}(__x) }}"));
                            self.report.rule("D13 constructor as function");
                        }
                    }
                }
                if VX_METHODS.contains(&name.as_str()) {
                    let (a, _) = self.src.range(mc.method.span());
                    self.insert(a, "vx_");
                    self.report.rule("D5 method");
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(seg) = p.path.segments.last() {
                        self.calls.insert(seg.ident.to_string());
                    }
                }
            }
            Expr::ForLoop(f) => {
                self.for_loop(f);
                return;
            }
            Expr::While(w) => {
                let idx = self.loops;
                self.loops += 1;
                self.loop_annot(idx, &w.body, None);
            }
            Expr::Loop(l) => {
                let idx = self.loops;
                self.loops += 1;
                self.loop_annot(idx, &l.body, None);
            }
            Expr::Closure(c) => {
                self.closure(c);
                return;
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }

    fn visit_path(&mut self, p: &'ast Path) {
        if let Some(t) = self.self_ty.clone() {
            if p.segments[0].ident == "Self" {
                let (a, b) = self.src.range(p.segments[0].ident.span());
                let single = p.segments.len() == 1;
                self.edit(a, b, vec![Piece::Lit(if single { t } else { format!("<{t}>") })]);
            }
        }
        if self.prints && self.src.str(p.span()).replace(' ', "") == "std::process::exit" {
            self.replace(p.span(), "__out.exit".to_string());
            return;
        }
        if p.segments.len() > 1 && p.segments[0].ident == "std" {
            let (a, b) = self.src.range(p.segments[0].ident.span());
            self.edit(a, b, vec![Piece::Lit("crate::vx::stdx".into())]);
            self.report.rule("D12 std path");
        }
        if p.segments.len() == 2 && p.segments[0].ident == "String" && p.segments[1].ident == "from" {
            self.replace(p.span(), "crate::vx::string_from".to_string());
            self.report.rule("D12 std path");
            return;
        }
        visit::visit_path(self, p);
    }

    fn visit_type(&mut self, t: &'ast Type) {
        if let Type::ImplTrait(it) = t {
            if let Some(rep) = self.impl_trait(it) {
                let (a, b) = self.src.range(it.span());
                self.edit(a, b, rep);
                return;
            }
        }
        visit::visit_type(self, t);
    }
}

impl<'a, 's> Ctx<'a, 's> {
    fn impl_trait(&mut self, it: &TypeImplTrait) -> Option<Vec<Piece>> {
        for b in &it.bounds {
            if let TypeParamBound::Trait(tb) = b {
                let seg = tb.path.segments.last()?;
                if seg.ident == "Iterator" {
                    if let PathArguments::AngleBracketed(ab) = &seg.arguments {
                        for g in &ab.args {
                            if let GenericArgument::AssocType(at) = g {
                                self.report.rule("D6 impl Iterator");
                                let (a, b) = self.src.range(at.ty.span());
                                return Some(vec![
                                    Piece::Lit("crate::vx::It<".into()),
                                    Piece::Src(a, b),
                                    Piece::Lit(">".into()),
                                ]);
                            }
                        }
                    }
                }
                if seg.ident == "ToString" {
                    self.report.rule("D6 impl ToString");
                    return Some(vec![Piece::Lit("&str".into())]);
                }
            }
        }
        None
    }

    /// D5: the loop that a `for` is; the invariants that hold of every such loop are added
    fn loop_head(&mut self, idx: usize, breaks: bool) -> (String, String) {
        let (it, inv) = match self.ov.loops.get(&idx).cloned() {
            Some(x) => {
                self.used_loops.insert(idx);
                x
            }
            None => (None, String::new()),
        };
        let it = it.unwrap_or(format!("__it{idx}"));
        let mut head = inv.trim_end().trim_end_matches(',').to_string();
        let find = |h: &str, w: &str| -> Option<usize> {
            let mut from = 0;
            while let Some(k) = h[from..].find(w) {
                let at = from + k;
                let next = h[at + w.len()..].chars().next();
                let prev = h[..at].chars().last();
                let sp = |c: Option<char>| c.map(|c| c.is_whitespace()).unwrap_or(true);
                if sp(next) && sp(prev) {
                    return Some(at + w.len());
                }
                from = at + w.len();
            }
            None
        };
        let wf = format!(" {it}.wf(), ");
        let ends = format!(" {it}.index@ == {it}.seq().len(), ");
        if let Some(at) = find(&head, "invariant") {
            head.insert_str(at, &wf);
        } else if let Some(at) = find(&head, "ensures") {
            head.insert_str(at - "ensures".len(), &format!("invariant {wf}\n"));
        } else {
            if !head.trim().is_empty() {
                head.push(',');
            }
            head.push_str(&format!("invariant {wf}\n"));
        }
        if !breaks {
            if let Some(at) = find(&head, "ensures") {
                head.insert_str(at, &ends);
            } else {
                if !head.trim_end().ends_with(',') {
                    head.push(',');
                }
                head.push_str(&format!(" ensures {ends}"));
            }
        }
        if !head.trim_end().ends_with(',') {
            head.push(',');
        }
        head.push_str(&format!(" decreases {it}.seq().len() - {it}.index@,\n"));
        (it, head)
    }

    fn for_loop(&mut self, f: &ExprForLoop) {
        let idx = self.loops;
        self.loops += 1;
        struct Br(bool);
        impl<'ast> Visit<'ast> for Br {
            fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
            fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
            fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
            fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
            fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
                self.0 = true;
            }
        }
        let mut br = Br(false);
        br.visit_block(&f.body);
        let breaks = br.0 || f.label.is_some();
        let (it, head) = self.loop_head(idx, breaks);
        let label = f.label.as_ref().map(|l| self.src.str(l.span()).to_string()).unwrap_or_default();
        let before = self.ov.loop_before.get(&idx).cloned().unwrap_or_default();
        let after = self.ov.loop_after.get(&idx).cloned().unwrap_or_default();
        let start = self.ov.loop_start.get(&idx).cloned().unwrap_or_default();
        if let Some(t) = self.ov.loop_end.get(&idx).cloned() {
            let (_, bb) = self.src.range(f.body.span());
            let needs = matches!(f.body.stmts.last(), Some(Stmt::Expr(_, None)));
            self.insert(bb - 1, format!("{}\n{t}\n", if needs { ";" } else { "" }));
        }
        let (a, b) = self.src.range(f.span());
        let (pa, pb) = self.src.range(f.pat.span());
        let (ba, bb) = self.src.range(f.body.span());
        let mut pieces = vec![Piece::Lit(format!("{{ {before} let mut {it} = crate::vx::run("))];
        let mut pat = vec![Piece::Src(pa, pb)];
        let mut bind = vec![];
        match &*f.expr {
            Expr::MethodCall(mc) if mc.method == "values_mut" => {
                let (ra, rb) = self.src.range(mc.receiver.span());
                pieces.push(Piece::Src(ra, rb));
                pieces.push(Piece::Lit(".vx_key_list()".into()));
                pat = vec![Piece::Lit("__key".into())];
                bind = vec![
                    Piece::Lit("let ".into()),
                    Piece::Src(pa, pb),
                    Piece::Lit(" = ".into()),
                    Piece::Src(ra, rb),
                    Piece::Lit(".get_mut(&__key).unwrap();".into()),
                ];
                self.report.rule("D10 values_mut");
                self.visit_expr(&mc.receiver);
            }
            _ => {
                let (ea, eb) = self.src.range(f.expr.span());
                pieces.push(Piece::Src(ea, eb));
                self.visit_expr(&f.expr);
            }
        }
        pieces.push(Piece::Lit(format!("); {label} loop\n{head}\n{{ match {it}.next() {{ None => break, Some(")));
        pieces.extend(pat);
        pieces.push(Piece::Lit(format!(") => {{ {start} ")));
        pieces.extend(bind);
        pieces.push(Piece::Src(ba, bb));
        pieces.push(Piece::Lit(format!(" }} }} }} {after} }}")));
        self.report.rule("D5 for");
        self.edit(a, b, pieces);
        if self.in_inline {
            self.lost.push("a loop inside an inlined closure".into());
        }
        self.visit_block(&f.body);
    }

    fn wants_inline(&self, e: &Expr) -> Option<String> {
        let n = norm(self.src.str(e.span()));
        self.ov.inline.contains(&n).then_some(n)
    }

    /// D15, D16
    fn inline_map(&mut self, mc: &ExprMethodCall) -> bool {
        if mc.method == "collect" {
            let Expr::MethodCall(map) = &*mc.receiver else { return false };
            if map.method != "map" || map.args.len() != 1 {
                return false;
            }
            let Expr::Closure(c) = &map.args[0] else { return false };
            let Some(n) = self.wants_inline(&map.receiver) else { return false };
            if c.inputs.len() != 1 {
                return false;
            }
            self.used_inline.insert(n);
            self.visit_expr(&map.receiver);
            let idx = self.loops;
            self.loops += 1;
            self.closures += 1;
            let mut ty = Vec::new();
            if let Some(t) = &mc.turbofish {
                let (ta, tb) = self.src.range(t.args.span());
                ty = vec![Piece::Lit(": ".into()), Piece::Src(ta, tb)];
                self.visit_angle_bracketed_generic_arguments(t);
            }
            let mut acc_ty = Vec::new();
            if let Some(GenericArgument::Type(Type::Path(p))) = mc.turbofish.as_ref().and_then(|t| t.args.first()) {
                if let Some(PathSegment { ident, arguments: PathArguments::AngleBracketed(inner) }) = p.path.segments.last() {
                    if ident == "Result" {
                        if let Some(GenericArgument::Type(x)) = inner.args.first() {
                            let (ta, tb) = self.src.range(x.span());
                            acc_ty = vec![Piece::Lit(": ".into()), Piece::Src(ta, tb)];
                        }
                    }
                }
            }
            let (a, b) = self.src.range(mc.span());
            let (ra, rb) = self.src.range(map.receiver.span());
            let (ba, bb) = self.src.range(c.body.span());
            let pat = if let Pat::Type(t) = &c.inputs[0] { &*t.pat } else { &c.inputs[0] };
            let pat = self.src.str(pat.span()).to_string();
            let (it, head) = self.loop_head(idx, true);
            let start = self.ov.loop_start.get(&idx).cloned().unwrap_or_default();
            let end = self.ov.loop_end.get(&idx).cloned().unwrap_or_default();
            let before = self.ov.loop_before.get(&idx).cloned().unwrap_or_default();
            let after = self.ov.loop_after.get(&idx).cloned().unwrap_or_default();
            let mut pieces = vec![Piece::Lit("{ let mut __acc".into())];
            pieces.extend(acc_ty);
            pieces.push(Piece::Lit(format!(" = Vec::new(); let mut __err = None; {before} let mut {it} = crate::vx::run(")));
            pieces.push(Piece::Src(ra, rb));
            pieces.push(Piece::Lit(format!("); loop\n{head}\n{{ match {it}.next() {{ None => break, Some({pat}) => {{ {start} match ")));
            pieces.push(Piece::Src(ba, bb));
            pieces.push(Piece::Lit(format!(" {{ Ok(__v) => {{ __acc.push(__v); }} Err(__e) => {{ __err = Some(__e); break; }} }} {end} }} }} }} {after} let __r")));
            pieces.extend(ty);
            pieces.push(Piece::Lit(" = match __err { Some(__e) => Err(__e), None => Ok(__acc) }; __r }".into()));
            self.edit(a, b, pieces);
            let was = std::mem::replace(&mut self.in_inline, true);
            self.visit_expr(&c.body);
            self.in_inline = was;
            self.report.rule("D15 map-collect as loop");
            return true;
        }
        if mc.method == "map" && mc.args.len() == 1 {
            let Expr::Closure(c) = &mc.args[0] else { return false };
            let Some(n) = self.wants_inline(&mc.receiver) else { return false };
            struct Esc(bool);
            impl<'ast> Visit<'ast> for Esc {
                fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
                fn visit_expr_try(&mut self, _: &'ast ExprTry) {
                    self.0 = true;
                }
                fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
                    self.0 = true;
                }
            }
            let mut esc = Esc(false);
            esc.visit_expr(&c.body);
            if esc.0 || c.inputs.len() != 1 {
                return false;
            }
            self.used_inline.insert(n);
            self.visit_expr(&mc.receiver);
            self.closures += 1;
            let (a, b) = self.src.range(mc.span());
            let (ra, rb) = self.src.range(mc.receiver.span());
            let (ba, bb) = self.src.range(c.body.span());
            let pat = if let Pat::Type(t) = &c.inputs[0] { &*t.pat } else { &c.inputs[0] };
            let pat = self.src.str(pat.span()).to_string();
            self.edit(
                a,
                b,
                vec![
                    Piece::Lit("(match ".into()),
                    Piece::Src(ra, rb),
                    Piece::Lit(format!(" {{ Some({pat}) => Some(")),
                    Piece::Src(ba, bb),
                    Piece::Lit("), None => None })".into()),
                ],
            );
            self.visit_expr(&c.body);
            self.report.rule("D16 Option::map as match");
            return true;
        }
        false
    }

    fn closure(&mut self, c: &ExprClosure) {
        let was = std::mem::replace(&mut self.in_inline, false);
        self.closure_text(c);
        self.in_inline = was;
    }

    fn closure_text(&mut self, c: &ExprClosure) {
        let idx = self.closures;
        self.closures += 1;
        let (ca, _) = self.src.range(c.span());
        let (ba, bb) = self.src.range(c.body.span());
        if let Some(h) = self.ov.closures.get(&idx).cloned() {
            self.used_closures.insert(idx);
            // keep the program's own parameter patterns: $0, $1 name them
            let mut h = h.trim_end().to_string();
            for (k, p) in c.inputs.iter().enumerate() {
                let p = if let Pat::Type(t) = p { &*t.pat } else { p };
                let text = match p {
                    Pat::Wild(_) => format!("_p{k}"),
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => format!("__c{k}"),
                };
                h = h.replace(&format!("${k}"), &text);
            }
            self.edit(ca, ba, vec![Piece::Lit(format!("{h} "))]);
            let mut lets = self.closure_lets(c);
            for p in &c.inputs {
                let p = if let Pat::Type(t) = p { &*t.pat } else { p };
                if let Pat::Ident(i) = p {
                    if i.mutability.is_some() {
                        let _ = write!(lets, "let mut {0} = {0}; ", i.ident);
                        self.report.rule("D7 closure pattern");
                    }
                }
            }
            if !matches!(&*c.body, Expr::Block(_)) || !lets.is_empty() {
                self.insert(ba, format!("{{ {lets}"));
                self.insert(bb, " }");
            }
        } else {
            for p in &c.inputs {
                let p = if let Pat::Type(t) = p { &*t.pat } else { p };
                if let Pat::Wild(w) = p {
                    let n = self.names;
                    self.names += 1;
                    let (a, b) = self.src.range(w.span());
                    self.edit(a, b, vec![Piece::Lit(format!("_p{n}"))]);
                    self.report.rule("D8 closure _");
                }
            }
            let lets = self.closure_lets(c);
            if !lets.is_empty() {
                for (k, p) in c.inputs.iter().enumerate() {
                    let p = if let Pat::Type(t) = p { &*t.pat } else { p };
                    if !matches!(p, Pat::Wild(_) | Pat::Ident(_)) {
                        let (a, b) = self.src.range(p.span());
                        self.edit(a, b, vec![Piece::Lit(format!("__c{k}"))]);
                    }
                }
                self.insert(ba, format!("{{ {lets}"));
                self.insert(bb, " }");
            }
        }
        self.visit_expr(&c.body);
    }

    fn closure_lets(&mut self, c: &ExprClosure) -> String {
        let mut lets = String::new();
        for (k, p) in c.inputs.iter().enumerate() {
            let p = if let Pat::Type(t) = p { &*t.pat } else { p };
            if !matches!(p, Pat::Wild(_) | Pat::Ident(_)) {
                let _ = write!(lets, "let {} = __c{k}; ", self.src.str(p.span()));
                self.report.rule("D7 closure pattern");
            }
        }
        lets
    }

    fn entry_match(&mut self, m: &ExprMatch) -> bool {
        let Expr::MethodCall(mc) = &*m.expr else { return false };
        if mc.method != "entry" || mc.args.len() != 1 || m.arms.len() != 2 {
            return false;
        }
        let mut occ: Option<(&Arm, String)> = None;
        let mut vac: Option<(&Arm, String)> = None;
        for arm in &m.arms {
            let Pat::TupleStruct(ts) = &arm.pat else { return false };
            let Some(kind) = ts.path.segments.last() else { return false };
            let Some(Pat::Ident(id)) = ts.elems.first() else { return false };
            match kind.ident.to_string().as_str() {
                "Occupied" => occ = Some((arm, id.ident.to_string())),
                "Vacant" => vac = Some((arm, id.ident.to_string())),
                _ => return false,
            }
        }
        let (Some((oa, on)), Some((va, vn))) = (occ, vac) else { return false };
        // every use of the entry must be one of the two known forms
        struct Uses<'n> {
            name: &'n str,
            method: &'n str,
            args: usize,
            found: Vec<ExprMethodCall>,
            total: usize,
        }
        impl<'n, 'ast> Visit<'ast> for Uses<'n> {
            fn visit_expr(&mut self, e: &'ast Expr) {
                if let Expr::Path(p) = e {
                    if p.path.is_ident(self.name) {
                        self.total += 1;
                    }
                }
                if let Expr::MethodCall(mc) = e {
                    if let Expr::Path(p) = &*mc.receiver {
                        if p.path.is_ident(self.name) && mc.method == self.method && mc.args.len() == self.args {
                            self.found.push(mc.clone());
                        }
                    }
                }
                visit::visit_expr(self, e);
            }
        }
        let mut uo = Uses { name: &on, method: "into_mut", args: 0, found: vec![], total: 0 };
        uo.visit_expr(&oa.body);
        let mut uv = Uses { name: &vn, method: "insert", args: 1, found: vec![], total: 0 };
        uv.visit_expr(&va.body);
        if uo.found.len() != uo.total || uv.found.len() != uv.total {
            return false;
        }
        let (a, b) = self.src.range(m.span());
        let (ma, mb) = self.src.range(mc.receiver.span());
        let (ka, kb) = self.src.range(mc.args[0].span());
        let (o1, o2) = self.src.range(oa.body.span());
        let (v1, v2) = self.src.range(va.body.span());
        self.edit(
            a,
            b,
            vec![
                Piece::Lit("{ let __key = ".into()),
                Piece::Src(ka, kb),
                Piece::Lit("; if ".into()),
                Piece::Src(ma, mb),
                Piece::Lit(".contains_key(&__key) {".into()),
                Piece::Src(o1, o2),
                Piece::Lit("} else {".into()),
                Piece::Src(v1, v2),
                Piece::Lit("} }".into()),
            ],
        );
        for mc2 in &uo.found {
            let (x, y) = self.src.range(mc2.span());
            self.edit(
                x,
                y,
                vec![Piece::Src(ma, mb), Piece::Lit(".get_mut(&__key).unwrap()".into())],
            );
        }
        for mc2 in &uv.found {
            let (x, y) = self.src.range(mc2.span());
            let (xa, xb) = self.src.range(mc2.args[0].span());
            self.edit(
                x,
                y,
                vec![Piece::Src(ma, mb), Piece::Lit(".insert(__key, ".into()), Piece::Src(xa, xb), Piece::Lit(")".into())],
            );
            self.visit_expr(&mc2.args[0]);
        }
        self.report.rule("D9 entry");
        self.visit_expr(&mc.args[0]);
        // other expressions of the arms
        struct Skip;
        let _ = Skip;
        for (arm, found) in [(oa, &uo.found), (va, &uv.found)] {
            if found.is_empty() {
                self.visit_expr(&arm.body);
            } else if let Expr::Block(blk) = &*arm.body {
                for s in &blk.block.stmts {
                    self.stmt_anchor(s.span());
                }
            }
        }
        true
    }
}

fn strip_item_text(src: &Source<'_>, item_span: Span, attrs: &[Attribute]) -> (usize, usize) {
    let (mut a, b) = src.range(item_span);
    for at in attrs {
        let (_, e) = src.range(at.span());
        if e > a {
            a = e;
        }
    }
    (a, b)
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut out = Vec::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(i) = m.path.segments.last() {
                    out.push(i.ident.to_string());
                }
                Ok(())
            });
        }
    }
    out
}

fn type_text(src: &Source<'_>, report: &mut Report, attrs: &[Attribute], span: Span, fields: Vec<&Fields>, vis: &Visibility, is_enum: bool) -> String {
    let (a, b) = strip_item_text(src, span, attrs);
    let mut edits: Vec<Edit> = Vec::new();
    let mut push = |s: usize, e: usize, t: &str| {
        let seq = edits.len();
        edits.push(Edit { start: s, end: e, seq, pieces: vec![Piece::Lit(t.to_string())] });
    };
    match vis {
        Visibility::Inherited => push(a + src.text[a..].len() - src.text[a..].trim_start().len(), a + src.text[a..].len() - src.text[a..].trim_start().len(), "pub "),
        v => {
            let (x, y) = src.range(v.span());
            push(x, y, "pub");
        }
    }
    for fs in fields {
        for f in fs.iter() {
            for at in &f.attrs {
                let (x, y) = src.range(at.span());
                push(x, y, "");
            }
            if is_enum {
                continue;
            }
            match &f.vis {
                Visibility::Inherited => {
                    let at = f.ident.as_ref().map(|i| i.span()).unwrap_or(f.ty.span());
                    let (x, _) = src.range(at);
                    push(x, x, "pub ");
                }
                v => {
                    let (x, y) = src.range(v.span());
                    push(x, y, "pub");
                }
            }
        }
    }
    report.rule("D1/D2 type");
    let mut t = render(src.text, &edits, a, b, None);
    // std paths inside types
    t = t.replace("std::cell::", "crate::vx::stdx::cell::");
    t
}

pub fn extract(text: &str, ov: &Overlay, degraded: &BTreeSet<String>, report: &mut Report) -> std::result::Result<String, String> {
    let file = parse_file(text).map_err(|e| format!("parse error: {e}"))?;
    let src = Source::new(text);
    let mut out = String::new();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut body = String::new();
    for item in &file.items {
        match item {
            Item::Use(u) => {
                let (a, b) = strip_item_text(&src, u.span(), &u.attrs);
                let t = &text[a..b];
                let n = norm(t);
                let mut done = false;
                for (pat, rep) in &ov.uses {
                    if n == *pat {
                        body.push_str(rep);
                        body.push('\n');
                        done = true;
                        report.rule("D4 use");
                    }
                }
                if !done {
                    let _ = writeln!(body, "{t}");
                }
            }
            Item::Mod(m) if m.content.is_none() => {}
            Item::Mod(m) => report.dropped.push(format!("{}: mod {}", ov.file, m.ident)),
            Item::Const(c) => {
                if ov.skip.contains(&norm(&format!("const {}", c.ident))) {
                    report.dropped.push(format!("{}: const {}", ov.file, c.ident));
                    continue;
                }
                let (a, b) = strip_item_text(&src, c.span(), &c.attrs);
                let t = text[a..b].trim_start();
                let t = t.strip_prefix("pub ").unwrap_or(t);
                let ty = norm(src.str(c.ty.span()));
                if ty == "&str" || ty == "&'staticstr" {
                    let (ea, eb) = src.range(c.expr.span());
                    let _ = writeln!(body, "#[verifier::inline] pub open spec fn {}_spec() -> Seq<char> {{ {}@ }}", c.ident, &text[ea..eb]);
                    let _ = writeln!(body, "pub exec const {}: &'static str ensures {}@ == {}@ {{ {} }}", c.ident, c.ident, &text[ea..eb], &text[ea..eb]);
                } else {
                    let _ = writeln!(body, "pub {t}");
                }
            }
            Item::Type(t) => {
                if ov.skip.contains(&norm(&format!("type {}", t.ident))) {
                    report.dropped.push(format!("{}: type {}", ov.file, t.ident));
                    continue;
                }
                let (a, b) = strip_item_text(&src, t.span(), &t.attrs);
                let s = text[a..b].trim_start();
                let s = s.strip_prefix("pub ").unwrap_or(s);
                let _ = writeln!(body, "pub {}", s.replace("std::result::Result", "core::result::Result"));
            }
            Item::Struct(s) => {
                if ov.skip.contains(&norm(&format!("struct {}", s.ident))) {
                    report.dropped.push(format!("{}: struct {}", ov.file, s.ident));
                    continue;
                }
                let t = type_text(&src, report, &s.attrs, s.span(), vec![&s.fields], &s.vis, false);
                body.push_str(&t);
                body.push('\n');
                derive_impls(&mut body, &s.ident, &s.generics, &derives(&s.attrs), ov, report);
            }
            Item::Enum(e) => {
                if ov.skip.contains(&norm(&format!("enum {}", e.ident))) {
                    report.dropped.push(format!("{}: enum {}", ov.file, e.ident));
                    continue;
                }
                let t = type_text(&src, report, &e.attrs, e.span(), e.variants.iter().map(|v| &v.fields).collect(), &e.vis, true);
                body.push_str(&t);
                body.push('\n');
                derive_impls(&mut body, &e.ident, &e.generics, &derives(&e.attrs), ov, report);
            }
            Item::Trait(t) => {
                if ov.skip.contains(&norm(&format!("trait {}", t.ident))) {
                    report.dropped.push(format!("{}: trait {}", ov.file, t.ident));
                    continue;
                }
                let (a, _) = strip_item_text(&src, t.span(), &t.attrs);
                let brace = src.range(t.brace_token.span.open()).1;
                let s = text[a..brace].trim_start();
                let s = s.strip_prefix("pub ").unwrap_or(s);
                let _ = writeln!(body, "pub {s}");
                for ti in &t.items {
                    let TraitItem::Fn(f) = ti else {
                        let _ = writeln!(body, "{}", src.str(ti.span()));
                        continue;
                    };
                    let key = norm(&format!("{}::{}", t.ident, f.sig.ident));
                    match (ov.fns.get(&key), &f.default) {
                        (Some(fov), None) => {
                            // a contract for all implementations
                            seen.insert(key.clone());
                            for at in &fov.attrs {
                                let _ = writeln!(body, "{at}");
                            }
                            let (sa, mut sb) = src.range(f.sig.span());
                            let mut sig = text[sa..sb].to_string();
                            if let ReturnType::Type(_, ty) = &f.sig.output {
                                let (x, y) = src.range(ty.span());
                                sb = x;
                                sig = format!("{}(r: {})", &text[sa..sb], &text[x..y]);
                            }
                            let _ = sb;
                            let _ = writeln!(body, "{sig}\n{};", fov.spec.clone().unwrap_or_default());
                        }
                        _ => {
                            let _ = writeln!(body, "{}", src.str(ti.span()));
                        }
                    }
                }
                body.push_str("}\n");
            }
            Item::Fn(f) => {
                let key = f.sig.ident.to_string();
                function(&src, ov, &key, &f.attrs, &f.vis, &f.sig, &f.block, false, None, degraded, report, &mut seen, &mut body);
            }
            Item::Impl(im) => {
                let (a, b) = strip_item_text(&src, im.span(), &im.attrs);
                let brace = src.range(im.brace_token.span.open()).0;
                let header = text[a..brace].trim();
                if ov.skip.contains(&norm(header)) {
                    report.dropped.push(format!("{}: {}", ov.file, header));
                    continue;
                }
                let self_ty = norm(src.str(im.self_ty.span()));
                let prefix = match &im.trait_ {
                    None => strip_generics(&self_ty),
                    Some((_, path, _)) => format!("{}as{}", self_ty, norm(src.str(path.span()))),
                };
                let _ = b;
                let free = |f: &ImplItemFn| -> Option<(String, String, String)> {
                    let key = norm(&format!("{prefix}::{}", f.sig.ident));
                    let name = ov.fns.get(&key)?.free.clone()?;
                    let generics = if im.generics.params.is_empty() { String::new() } else { src.str(im.generics.span()).to_string() };
                    Some((name, src.str(im.self_ty.span()).to_string(), generics))
                };
                let mut all_free = !im.items.is_empty();
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        match free(f) {
                            Some(fr) => {
                                let key = format!("{prefix}::{}", f.sig.ident);
                                report.rule("D14 impl function as free function");
                                function(&src, ov, &key, &f.attrs, &f.vis, &f.sig, &f.block, false, Some(fr), degraded, report, &mut seen, &mut body);
                            }
                            None => all_free = false,
                        }
                    }
                }
                if all_free {
                    report.dropped.push(format!("{}: {} (its functions are free functions)", ov.file, header));
                    continue;
                }
                let own = ov.impls.iter().find(|(a, _)| *a == norm(header)).map(|x| x.1.clone());
                if own.is_some() {
                    report.rule("D18 impl of a trait as inherent impl");
                }
                let _ = writeln!(body, "{} {{", own.as_deref().unwrap_or(header));
                for ii in &im.items {
                    match ii {
                        ImplItem::Fn(f) if free(f).is_some() => {}
                        ImplItem::Fn(f) => {
                            let key = format!("{prefix}::{}", f.sig.ident);
                            function(&src, ov, &key, &f.attrs, &f.vis, &f.sig, &f.block, im.trait_.is_some() && own.is_none(), None, degraded, report, &mut seen, &mut body);
                        }
                        other => {
                            let _ = writeln!(body, "{}", src.str(other.span()));
                        }
                    }
                }
                body.push_str("}\n");
            }
            other => report.dropped.push(format!("{}: {}", ov.file, other.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }
    for (k, f) in &ov.fns {
        if !seen.contains(k) {
            report.missing.push((format!("{}::{}", ov.module, k), f.tags.clone()));
        }
    }
    out.push_str("use vstd::prelude::*;\nverus! {\nbroadcast use crate::vx::group_vx;\n");
    out.push_str(&ov.header);
    out.push_str(&body);
    out.push_str(&ov.footer);
    out.push_str("\n} // verus!\n");
    Ok(out)
}

fn strip_generics(s: &str) -> String {
    s.split('<').next().unwrap().to_string()
}

fn derive_impls(body: &mut String, ident: &Ident, generics: &Generics, ds: &[String], ov: &Overlay, report: &mut Report) {
    let opts = ov.type_opts.get(&ident.to_string()).cloned().unwrap_or_default();
    let (ig, tg, wc) = generics.split_for_impl();
    let (ig, tg, wc) = (ig.to_token_stream(), tg.to_token_stream(), wc.to_token_stream());
    if ds.iter().any(|d| d == "Copy") && !opts.contains(&"nocopy".into()) {
        let _ = writeln!(body, "impl {ig} Copy for {ident} {tg} {wc} {{}}");
    }
    if ds.iter().any(|d| d == "Clone") && !opts.contains(&"noclone".into()) {
        let _ = writeln!(
            body,
            "impl {ig} Clone for {ident} {tg} {wc} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}"
        );
        report.rule("D1 derived Clone trusted");
    }
    if ds.iter().any(|d| d == "PartialEq") && !opts.contains(&"noeq".into()) {
        let _ = writeln!(
            body,
            "impl {ig} core::cmp::PartialEq for {ident} {tg} {wc} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) ensures r == (*self == *other) {{ unimplemented!() }} }}
impl {ig} vstd::std_specs::cmp::PartialEqSpecImpl for {ident} {tg} {wc} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }} }}"
        );
        report.rule("D1 derived PartialEq trusted");
    }
    if ds.iter().any(|d| d == "Debug") && !opts.contains(&"nodebug".into()) {
        // `unwrap` and friends want Debug
        let _ = writeln!(
            body,
            "#[verifier::external] impl {ig} core::fmt::Debug for {ident} {tg} {wc} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ Ok(()) }} }}"
        );
    }
}

#[allow(clippy::too_many_arguments)]
fn function(
    src: &Source<'_>,
    ov: &Overlay,
    key: &str,
    attrs: &[Attribute],
    vis: &Visibility,
    sig: &Signature,
    block: &Block,
    in_trait: bool,
    free: Option<(String, String, String)>,
    degraded: &BTreeSet<String>,
    report: &mut Report,
    seen: &mut BTreeSet<String>,
    out: &mut String,
) {
    let key = norm(key);
    let fov = ov.fns.get(&key).cloned();
    seen.insert(key.clone());
    let full = format!("{}::{}", ov.module, key);
    if ov.skip.contains(&key) {
        report.dropped.push(format!("{}: fn {}", ov.file, key));
        return;
    }
    let contracted = fov.as_ref().map_or(false, |f| f.spec.is_some());
    let fov = fov.unwrap_or_default();
    let mut mode = fov.mode.clone().unwrap_or_else(|| "verified".into());
    if degraded.contains(&full) && mode != "trusted" {
        mode = "degraded".into();
    }
    let (mut a, b) = src.range(block.span());
    let start = {
        let mut s = src.range(sig.span()).0;
        if let Visibility::Inherited = vis {
        } else {
            s = s.min(src.range(vis.span()).0);
        }
        s
    };
    let mut ctx = Ctx {
        src,
        edits: Vec::new(),
        report,
        ov: fov.clone(),
        loops: 0,
        closures: 0,
        lost: Vec::new(),
        calls: BTreeSet::new(),
        used_before: BTreeSet::new(),
        used_after: BTreeSet::new(),
        used_rewrites: BTreeSet::new(),
        used_loops: BTreeSet::new(),
        used_closures: BTreeSet::new(),
        names: 0,
        self_ty: free.as_ref().map(|f| f.1.clone()),
        used_inline: BTreeSet::new(),
        in_inline: false,
        prints: fov.start.as_ref().map_or(false, |s| s.contains("__out")),
    };
    if let Some((name, _, generics)) = &free {
        ctx.replace(sig.ident.span(), format!("{name}{generics}"));
    }
    // signature
    match vis {
        Visibility::Inherited if !in_trait => {
            let x = src.range(sig.span()).0;
            ctx.insert(x, "pub ");
        }
        Visibility::Inherited => {}
        v => {
            if !in_trait {
                ctx.replace(v.span(), "pub");
            }
        }
    }
    let ret = fov.ret.clone().unwrap_or_else(|| "r".into());
    if let ReturnType::Type(_, ty) = &sig.output {
        let (x, y) = src.range(ty.span());
        if !matches!(&**ty, Type::Never(_)) {
            ctx.insert(x, format!("({ret}: "));
            ctx.insert(y, ")");
        }
        ctx.visit_type(ty);
    }
    let mut lets = String::new();
    for (k, input) in sig.inputs.iter().enumerate() {
        if let FnArg::Typed(pt) = input {
            match &*pt.pat {
                Pat::Ident(_) => {}
                p => {
                    let (x, y) = src.range(p.span());
                    let _ = write!(lets, " let {} = __arg{k};", &src.text[x..y]);
                    ctx.edit(x, y, vec![Piece::Lit(format!("__arg{k}"))]);
                    ctx.report.rule("D7 parameter pattern");
                }
            }
            ctx.visit_type(&pt.ty);
        }
    }
    let mut spec = String::new();
    if let Some(s) = &fov.spec {
        spec = format!("\n{s}\n");
    }
    ctx.insert(a, spec);
    a += 1;
    let mut start_text = match &fov.hide {
        Some(h) => format!("\n{h}\n{lets}"),
        None => lets,
    };
    if std::env::var_os("VX_PROBE").is_some() {
        // has to fail: a function whose precondition (or an axiom) is contradictory would pass
        start_text.push_str("\nassert(false);\n");
    }
    if let Some(s) = &fov.start {
        let _ = write!(start_text, "\n{s}\n");
    }
    if !start_text.is_empty() {
        ctx.insert(a, start_text);
    }
    for s in &block.stmts {
        ctx.visit_stmt(s);
    }
    if let Some(t) = &fov.tail {
        match block.stmts.last() {
            Some(Stmt::Expr(e, None)) => {
                let (x, y) = src.range(e.span());
                ctx.insert(x, " let __tail = ".to_string());
                ctx.insert(y, format!(";\n{t}\n__tail"));
            }
            _ => {
                ctx.insert(b - 1, format!("\n{t}\n"));
            }
        }
    }
    // anchors that found nothing
    for k in 0..fov.before.len() {
        if !ctx.used_before.contains(&k) {
            ctx.lost.push(format!("before {}", fov.before[k].0));
        }
    }
    for k in 0..fov.after.len() {
        if !ctx.used_after.contains(&k) {
            ctx.lost.push(format!("after {}", fov.after[k].0));
        }
    }
    for k in 0..fov.rewrites.len() {
        if !ctx.used_rewrites.contains(&k) && !fov.rewrites[k].1.is_empty() {
            ctx.lost.push(format!("rewrite {}", fov.rewrites[k].0));
        }
    }
    for k in &fov.inline {
        if !ctx.used_inline.contains(k) {
            ctx.lost.push(format!("inline {k}"));
        }
    }
    for k in fov.loops.keys() {
        if !ctx.used_loops.contains(k) {
            ctx.lost.push(format!("loop {k}"));
        }
    }
    for k in fov.closures.keys() {
        if !ctx.used_closures.contains(k) {
            ctx.lost.push(format!("closure {k}"));
        }
    }
    let lost = ctx.lost.clone();
    if !lost.is_empty() && mode == "verified" {
        mode = "degraded".into();
    }
    let calls = std::mem::take(&mut ctx.calls);
    let edits = std::mem::take(&mut ctx.edits);
    let text = if mode == "verified" {
        render(src.text, &edits, start, b, None)
    } else {
        let (ba, _) = src.range(block.span());
        format!("{} {{ unimplemented!() }}", render(src.text, &edits, start, ba, None))
    };
    let _ = writeln!(out, "//@@begin {full}");
    for at in &fov.attrs {
        let _ = writeln!(out, "{at}");
    }
    if mode != "verified" {
        out.push_str("#[verifier::external_body]\n");
    }
    out.push_str(&text);
    let _ = writeln!(out, "\n//@@end {full}");
    let (l1, l2) = (sig.span().start().line, block.span().end().line);
    let _ = attrs;
    report.fns.insert(
        full,
        FnReport {
            file: ov.file.clone(),
            src_start: l1,
            src_end: l2,
            out_start: 0,
            out_end: 0,
            mode,
            contracted,
            no_termination: fov.attrs.iter().any(|x| x.contains("no_decreases")),
            lost,
            calls,
            tags: fov.tags.clone(),
        },
    );
}
