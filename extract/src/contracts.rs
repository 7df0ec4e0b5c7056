//! Reader for the contract files (`*.vc`).
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub path: String,
    pub src: String,
    /// Names (parameters and locals) the contract text was written against.
    pub names: Vec<String>,
    /// (section kind, section argument, text, contract file line)
    pub sections: Vec<(String, String, String, usize)>,
}
#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub drop: BTreeSet<String>,
    pub derive_eq: BTreeSet<String>,
    /// Modules whose formatting code is kept, on the stand-ins of `vt::fmt`.
    pub fmt: BTreeSet<String>,
    /// Modules in which derived `Eq`, `PartialOrd`, `Ord` and `Hash` are expanded, and written ones kept.
    pub derives: BTreeSet<String>,
    pub supertraits: BTreeMap<String, String>,
    pub trait_items: BTreeMap<String, String>,
    pub impl_items: BTreeMap<String, String>,
    pub module_prelude: BTreeMap<String, String>,
    /// Source text added at the end of a module's file, before macros are expanded.
    pub derive_eq_proof: BTreeMap<String, String>,
    pub append: BTreeMap<String, String>,
}

pub fn read(files: &[String]) -> Result<Contracts, String> {
    let mut c = Contracts::default();
    for f in files {
        let text = std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?;
        let mut cur: Option<FnContract> = None;
        let mut block: Option<(String, String, String, usize)> = None; // kind, arg, text, line
        let flush = |cur: &mut Option<FnContract>, block: &mut Option<(String, String, String, usize)>, c: &mut Contracts| {
            if let Some((k, a, t, l)) = block.take() {
                match k.as_str() {
                    "trait_items" => {
                        c.trait_items.insert(a, t);
                    }
                    "impl_items" => {
                        c.impl_items.insert(a, t);
                    }
                    "derive_eq_proof" => {
                        c.derive_eq_proof.insert(a, t);
                    }
                    "append" => {
                        c.append.insert(a, t);
                    }
                    "module_prelude" => {
                        c.module_prelude.insert(a, t);
                    }
                    _ => {
                        if let Some(cur) = cur {
                            cur.sections.push((k, a, t, l));
                        }
                    }
                }
            }
        };
        for (ln, line) in text.lines().enumerate() {
            if let Some(rest) = line.strip_prefix('@') {
                flush(&mut cur, &mut block, &mut c);
                let (k, a) = match rest.split_once(char::is_whitespace) {
                    Some((k, a)) => (k.to_string(), a.trim().to_string()),
                    None => (rest.trim().to_string(), String::new()),
                };
                match k.as_str() {
                    "fn" => {
                        if let Some(x) = cur.take() {
                            if c.fns.insert(x.path.clone(), x.clone()).is_some() {
                                return Err(format!("{f}: two contracts for {}", x.path));
                            }
                        }
                        cur = Some(FnContract { path: a, src: format!("{f}:{}", ln + 1), ..Default::default() });
                    }
                    "names" => {
                        if let Some(x) = cur.as_mut() {
                            x.names.extend(a.split_whitespace().map(String::from));
                        }
                    }
                    "drop" => {
                        c.drop.insert(a);
                    }
                    "derive_eq" => {
                        c.derive_eq.insert(a);
                    }
                    "fmt" => {
                        c.fmt.insert(a);
                    }
                    "derives" => {
                        c.derives.insert(a);
                    }
                    "supertraits" => {
                        let (p, t) = a.split_once(char::is_whitespace).ok_or("bad @supertraits")?;
                        c.supertraits.insert(p.to_string(), t.trim().to_string());
                    }
                    "#" => {}
                    _ => block = Some((k, a, String::new(), ln + 2)),
                }
            } else if let Some(b) = block.as_mut() {
                b.2.push_str(line);
                b.2.push('\n');
            } else if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
                return Err(format!("{f}:{}: text outside a section", ln + 1));
            }
        }
        flush(&mut cur, &mut block, &mut c);
        if let Some(x) = cur.take() {
            if c.fns.insert(x.path.clone(), x.clone()).is_some() {
                return Err(format!("{f}: two contracts for {}", x.path));
            }
        }
    }
    Ok(c)
}

/// Replaces whole-word identifiers.
pub fn rename(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let mut w = String::new();
    let mut prev_dot = false;
    let cs: Vec<char> = text.chars().collect();
    // The name of a field of a struct literal of the specifications.
    let field = |w: &str, i: usize| ["parent", "prev", "next", "first", "alive", "kids"].contains(&w) && cs.get(i) == Some(&':') && cs.get(i + 1) != Some(&':');
    let push = |w: &mut String, out: &mut String, prev_dot: bool, i: usize| {
        if !w.is_empty() {
            match map.get(w.as_str()) {
                Some(n) if !prev_dot && !field(w, i) => out.push_str(n),
                _ => out.push_str(w),
            }
            w.clear();
        }
    };
    for (i, ch) in text.chars().enumerate() {
        if ch.is_alphanumeric() || ch == '_' {
            w.push(ch);
        } else {
            let had = !w.is_empty();
            push(&mut w, &mut out, prev_dot, i);
            let _ = had;
            prev_dot = ch == '.' && !out.ends_with('.');
            out.push(ch);
        }
    }
    push(&mut w, &mut out, prev_dot, usize::MAX - 1);
    out
}
