//! vxtract: puts the functions of the program under contract.
//!
//! usage: vxtract REPO OVERLAY_DIR OUT.rs OUT.json [DEGRADED_FN ...]
//!
//! Reads every overlay (`*.vx`) of OVERLAY_DIR, parses the source file it names from
//! REPO, and writes one Verus file that mirrors the module tree of the program. The text
//! of the program is copied; the only changes are the numbered rules below (D1..D12),
//! which apply to every function alike, plus the annotations (contracts, invariants,
//! ghost code) that the overlay adds. `fn`s named as DEGRADED are emitted as
//! `external_body` with their contract assumed, and are reported as such.
mod overlay;
mod rewrite;

use overlay::Overlay;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vxtract REPO OVERLAY_DIR OUT.rs OUT.json [DEGRADED ...]");
        std::process::exit(2);
    }
    let degraded: BTreeSet<String> = args[5..].iter().cloned().collect();
    match run(&args[1], &args[2], &degraded) {
        Ok((text, json)) => {
            std::fs::write(&args[3], text).unwrap();
            std::fs::write(&args[4], json).unwrap();
        }
        Err(e) => {
            eprintln!("vxtract: {e}");
            std::process::exit(3);
        }
    }
}

#[derive(Default)]
struct Node {
    text: Vec<String>, // prelude modules or extracted file
    children: BTreeMap<String, Node>,
}

fn run(repo: &str, dir: &str, degraded: &BTreeSet<String>) -> Result<(String, String), String> {
    let mut paths: Vec<_> = std::fs::read_dir(dir)
        .map_err(|e| e.to_string())?
        .map(|e| e.unwrap().path())
        .collect();
    paths.sort();
    let mut root = Node::default();
    let mut top = String::new();
    let mut report = Report::default();
    for path in paths {
        let text = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
        match path.extension().and_then(|x| x.to_str()) {
            // plain Verus text: the std contracts, ghost theory and mirrored dependency types
            Some("rs") => {
                let (first, rest) = text.split_once('\n').unwrap();
                let module = first
                    .strip_prefix("//@mod ")
                    .ok_or_else(|| format!("{}: no //@mod line", path.display()))?;
                if module == "crate" {
                    top.push_str(rest);
                } else {
                    insert(&mut root, module, rest.to_string());
                }
            }
            Some("vx") => {
                let overlay = Overlay::parse(&text).map_err(|e| format!("{}: {e}", path.display()))?;
                let src_path = format!("{repo}/{}", overlay.file);
                let src = std::fs::read_to_string(&src_path).map_err(|e| format!("{src_path}: {e}"))?;
                let module = overlay.module.clone();
                let out = rewrite::extract(&src, &overlay, degraded, &mut report)
                    .map_err(|e| format!("{src_path}: {e}"))?;
                insert(&mut root, &module, out);
            }
            _ => {}
        }
    }
    let mut out = String::new();
    out.push_str("#![verifier::allow(undeclared_external_trait)]\n#![allow(unused, dead_code, non_snake_case, non_camel_case_types, deprecated, mismatched_lifetime_syntaxes, elided_lifetimes_in_paths)]\n");
    out.push_str(&top);
    emit(&root, &mut out);
    // Resolve the markers that delimit functions into line numbers
    let mut final_text = String::new();
    let mut line = 1;
    for l in out.lines() {
        if let Some(key) = l.strip_prefix("//@@begin ") {
            report.fns.get_mut(key).unwrap().out_start = line;
        } else if let Some(key) = l.strip_prefix("//@@end ") {
            report.fns.get_mut(key).unwrap().out_end = line;
        }
        final_text.push_str(l);
        final_text.push('\n');
        line += 1;
    }
    Ok((final_text, report.json()))
}

fn insert(root: &mut Node, module: &str, text: String) {
    let mut node = root;
    for part in module.split("::").filter(|p| *p != "crate") {
        node = node.children.entry(part.to_string()).or_default();
    }
    node.text.push(text);
}

fn emit(node: &Node, out: &mut String) {
    for t in &node.text {
        out.push_str(t);
        if !t.ends_with('\n') {
            out.push('\n');
        }
    }
    for (name, child) in &node.children {
        let _ = writeln!(out, "pub mod {name} {{");
        emit(child, out);
        let _ = writeln!(out, "}} // mod {name}");
    }
}

#[derive(Default)]
pub struct FnReport {
    pub file: String,
    pub src_start: usize,
    pub src_end: usize,
    pub out_start: usize,
    pub out_end: usize,
    /// verified | trusted | degraded
    pub mode: String,
    pub contracted: bool,
    pub no_termination: bool,
    pub lost: Vec<String>,
    pub calls: BTreeSet<String>,
    pub tags: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub fns: BTreeMap<String, FnReport>,
    /// overlay entries whose function no longer exists
    pub missing: Vec<(String, Vec<String>)>,
    pub rules: BTreeMap<String, usize>,
    pub dropped: Vec<String>,
}

impl Report {
    pub fn rule(&mut self, name: &str) {
        *self.rules.entry(name.to_string()).or_default() += 1;
    }
    fn json(&self) -> String {
        fn s(x: &str) -> String {
            let mut o = String::from("\"");
            for c in x.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 => {
                        let _ = write!(o, "\\u{:04x}", c as u32);
                    }
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        fn list<'a>(xs: impl Iterator<Item = &'a String>) -> String {
            format!("[{}]", xs.map(|x| s(x)).collect::<Vec<_>>().join(","))
        }
        let mut fns = Vec::new();
        for (k, f) in &self.fns {
            fns.push(format!(
                "{}:{{\"file\":{},\"src\":[{},{}],\"out\":[{},{}],\"mode\":{},\"contracted\":{},\"no_termination\":{},\"lost\":{},\"calls\":{},\"tags\":{}}}",
                s(k), s(&f.file), f.src_start, f.src_end, f.out_start, f.out_end, s(&f.mode), f.contracted, f.no_termination,
                list(f.lost.iter()), list(f.calls.iter()), list(f.tags.iter())
            ));
        }
        let missing: Vec<String> = self
            .missing
            .iter()
            .map(|(k, t)| format!("[{},{}]", s(k), list(t.iter())))
            .collect();
        let rules: Vec<String> = self.rules.iter().map(|(k, v)| format!("{}:{v}", s(k))).collect();
        format!(
            "{{\"fns\":{{{}}},\"missing\":[{}],\"rules\":{{{}}},\"dropped\":{}}}\n",
            fns.join(",\n"),
            missing.join(","),
            rules.join(","),
            list(self.dropped.iter())
        )
    }
}
