//! The overlay language: which contract and which ghost code goes where.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnOverlay {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub spec: Option<String>,
    pub loops: BTreeMap<usize, (Option<String>, String)>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub start: Option<String>,
    pub hide: Option<String>,
    pub before: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
    pub tail: Option<String>,
    pub rewrites: Vec<(String, String)>,
    pub mode: Option<String>,
    /// emit a trait-impl function as a free function of this name (D14)
    pub free: Option<String>,
    pub tags: Vec<String>,
    /// receivers of `.map` whose closure is written out (D15, D16)
    pub inline: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Overlay {
    pub file: String,
    pub module: String,
    pub header: String,
    pub footer: String,
    pub fns: BTreeMap<String, FnOverlay>,
    pub skip: Vec<String>,
    /// type name -> `noclone`, `noeq`: do not emit a trusted contract for a derive
    pub type_opts: BTreeMap<String, Vec<String>>,
    /// impls to leave out of the verified text (trait plumbing), by header
    pub uses: Vec<(String, String)>,
    /// headers of impls of traits to be read as inherent impls
    pub impls: Vec<(String, String)>,
}

impl Overlay {
    pub fn parse(text: &str) -> Result<Self, String> {
        let mut o = Overlay::default();
        let mut cur_fn: Option<String> = None;
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let line = lines[i];
            i += 1;
            if line.trim().is_empty() || line.starts_with("#") {
                continue;
            }
            let Some(directive) = line.trim_start().strip_prefix('@') else {
                return Err(format!("line {i}: expected a directive, got `{line}`"));
            };
            let (word, arg) = directive.split_once(' ').unwrap_or((directive, ""));
            let arg = arg.trim();
            let mut block = String::new();
            while i < lines.len() && !lines[i].trim_start().starts_with('@') {
                block.push_str(lines[i]);
                block.push('\n');
                i += 1;
            }
            let block_opt = block.clone();
            match word {
                "file" => o.file = arg.to_string(),
                "mod" => o.module = arg.to_string(),
                "header" => o.header.push_str(&block),
                "footer" => o.footer.push_str(&block),
                "skip" => o.skip.push(norm(arg)),
                "type" => {
                    let mut it = arg.split_whitespace();
                    let name = it.next().unwrap().to_string();
                    o.type_opts.entry(name).or_default().extend(it.map(|x| x.to_string()));
                }
                "use" => {
                    let (a, b) = arg.split_once("=>").ok_or(format!("line {i}: use needs =>"))?;
                    o.uses.push((norm(a), b.trim().to_string()));
                }
                "impl" => {
                    let (a, b) = arg.split_once("=>").ok_or(format!("line {i}: impl needs =>"))?;
                    o.impls.push((norm(a), b.trim().to_string()));
                }
                "fn" => {
                    let key = norm(arg);
                    o.fns.entry(key.clone()).or_default();
                    cur_fn = Some(key);
                }
                "end" => {}
                _ => {
                    let key = cur_fn.clone().ok_or(format!("line {i}: @{word} outside @fn"))?;
                    let f = o.fns.get_mut(&key).unwrap();
                    let idx = || -> Result<usize, String> {
                        arg.split_whitespace()
                            .next()
                            .and_then(|x| x.parse().ok())
                            .ok_or(format!("line {i}: @{word} needs an index"))
                    };
                    match word {
                        "ret" => f.ret = Some(arg.to_string()),
                        "attr" => f.attrs.push(arg.to_string()),
                        "spec" => f.spec = Some(block_opt),
                        "loop" => {
                            let it = arg.split_whitespace().nth(1).map(|x| x.to_string());
                            f.loops.insert(idx()?, (it, block_opt));
                        }
                        "loopstart" => {
                            f.loop_start.insert(idx()?, block_opt);
                        }
                        "loopend" => {
                            f.loop_end.insert(idx()?, block_opt);
                        }
                        "loopbefore" => {
                            f.loop_before.insert(idx()?, block_opt);
                        }
                        "loopafter" => {
                            f.loop_after.insert(idx()?, block_opt);
                        }
                        "closure" => {
                            f.closures.insert(idx()?, block_opt);
                        }
                        "hide" => f.hide = Some(block_opt),
                        "start" => f.start = Some(block_opt),
                        "tail" => f.tail = Some(block_opt),
                        "before" => f.before.push((norm(arg), block_opt)),
                        "after" => f.after.push((norm(arg), block_opt)),
                        "rewrite" => {
                            let (a, b) = arg.split_once("=>>").or_else(|| arg.split_once("=>")).ok_or(format!("line {i}: rewrite needs =>"))?;
                            f.rewrites.push((norm(a), b.trim().to_string()));
                        }
                        "free" => f.free = Some(arg.to_string()),
                        "inline" => f.inline.push(norm(arg)),
                        "mode" => f.mode = Some(arg.to_string()),
                        "tag" => f.tags.extend(arg.split_whitespace().map(|x| x.to_string())),
                        _ => return Err(format!("line {i}: unknown directive @{word}")),
                    }
                }
            }
        }
        Ok(o)
    }
}

/// Token text without any whitespace, so that formatting does not matter
pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
