//! Textual expansion of the simple item macros of the crate.
//!
//! A `macro_rules!` with one arm whose matcher is a comma-separated list of `$x:frag`
//! and whose body has no repetition is expanded at each of its item-position
//! invocations, by putting the source text of the arguments in place of `$x` in the
//! source text of the body.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::*;

struct Mac {
    params: Vec<String>,
    /// Byte range of the body.
    lo: usize,
    hi: usize,
    /// Places of `$x` in the body.
    holes: Vec<(usize, usize, String)>,
}

fn matcher(t: TokenStream) -> Option<Vec<String>> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < v.len() {
        match (v.get(i)?, v.get(i + 1)?, v.get(i + 2)?, v.get(i + 3)?) {
            (TokenTree::Punct(d), TokenTree::Ident(n), TokenTree::Punct(c), TokenTree::Ident(_)) if d.as_char() == '$' && c.as_char() == ':' => out.push(n.to_string()),
            _ => return None,
        }
        i += 4;
        if let Some(TokenTree::Punct(c)) = v.get(i) {
            if c.as_char() != ',' {
                return None;
            }
            i += 1;
        } else if i < v.len() {
            return None;
        }
    }
    Some(out)
}

/// Places of `$x`; a repetition of other names than the parameters (in a nested macro call) is left alone.
fn holes(t: TokenStream, params: &[String], out: &mut Vec<(usize, usize, String)>) -> Option<()> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(d) if d.as_char() == '$' => match v.get(i + 1) {
                Some(TokenTree::Ident(n)) if params.contains(&n.to_string()) || n == "crate" => {
                    out.push((d.span().byte_range().start, n.span().byte_range().end, n.to_string()));
                    i += 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => holes(g.stream(), params, out)?,
            _ => {}
        }
        i += 1;
    }
    Some(())
}

fn definition(m: &ItemMacro) -> Option<(String, Mac)> {
    let name = m.ident.as_ref()?.to_string();
    let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    if v.len() < 4 || v.len() > 5 {
        return None;
    }
    let (TokenTree::Group(a), TokenTree::Group(b)) = (&v[0], &v[3]) else { return None };
    let params = matcher(a.stream())?;
    let mut hs = vec![];
    holes(b.stream(), &params, &mut hs)?;
    Some((name, Mac { params, lo: b.span_open().byte_range().end, hi: b.span_close().byte_range().start, holes: hs }))
}

/// The expanded source, and the original line of each of its lines.
pub fn expand(src: &str, extra: &str) -> std::result::Result<(String, Vec<usize>), String> {
    let nl = src.matches('\n').count() + 1;
    let src = &if extra.is_empty() { src.to_string() } else { format!("{src}\n{extra}") };
    let file = syn::parse_file(src).map_err(|e| e.to_string())?;
    let mut macs: BTreeMap<String, Mac> = BTreeMap::new();
    for it in &file.items {
        if let Item::Macro(m) = it {
            if let Some((n, d)) = definition(m) {
                macs.insert(n, d);
            }
        }
    }
    let mut text = String::new();
    let mut orig: Vec<usize> = vec![]; // original offset per byte
    let put = |s: usize, e: usize, text: &mut String, orig: &mut Vec<usize>| {
        text.push_str(&src[s..e]);
        orig.extend(s..e);
    };
    let mut p = 0;
    for it in &file.items {
        let Item::Macro(m) = it else { continue };
        if m.ident.is_some() {
            continue;
        }
        let Some(d) = m.mac.path.get_ident().and_then(|n| macs.get(&n.to_string())) else { continue };
        // Arguments, as source ranges.
        let mut args: Vec<(usize, usize)> = vec![];
        let mut cur: Option<(usize, usize)> = None;
        for t in m.mac.tokens.clone() {
            let r = t.span().byte_range();
            match &t {
                TokenTree::Punct(c) if c.as_char() == ',' => args.extend(cur.take()),
                TokenTree::Group(g) if g.delimiter() == Delimiter::None => return Err("macro argument".into()),
                _ => cur = Some((cur.map_or(r.start, |c| c.0), r.end)),
            }
        }
        args.extend(cur);
        if args.len() != d.params.len() {
            continue;
        }
        let r = syn::spanned::Spanned::span(it).byte_range();
        put(p, r.start, &mut text, &mut orig);
        let mut q = d.lo;
        for (lo, hi, n) in &d.holes {
            put(q, *lo, &mut text, &mut orig);
            if n == "crate" {
                text.push_str("crate");
                orig.extend(std::iter::repeat(*lo).take(5));
            } else {
                let k = d.params.iter().position(|x| x == n).unwrap();
                let (s, e) = args[k];
                text.push_str(&src[s..e]);
                orig.extend(std::iter::repeat(*lo).take(e - s));
            }
            q = *hi;
        }
        put(q, d.hi, &mut text, &mut orig);
        p = r.end;
    }
    put(p, src.len(), &mut text, &mut orig);
    let starts: Vec<usize> = src.match_indices('\n').map(|(i, _)| i).collect();
    let line = |o: usize| (starts.partition_point(|&s| s < o) + 1).min(nl);
    let mut lines = vec![];
    let mut at = true;
    for (b, o) in text.bytes().zip(&orig) {
        if at {
            lines.push(line(*o));
        }
        at = b == b'\n';
    }
    if at {
        lines.push(nl);
    }
    Ok((text, lines))
}

/// `PartialOrd`, `Ord`, `Eq` and `Hash` as `#[derive]` defines them for structs without parameters.
/// Each goes behind the text, on lines that stand for the line of the struct.
pub fn derives(src: &str, lines: &mut Vec<usize>) -> std::result::Result<String, String> {
    let file = syn::parse_file(src).map_err(|e| e.to_string())?;
    let mut out = src.to_string();
    if !out.ends_with('\n') {
        out.push('\n');
        lines.push(*lines.last().unwrap_or(&1));
    }
    for it in &file.items {
        let Item::Struct(s) = it else { continue };
        if !s.generics.params.is_empty() {
            continue;
        }
        let mut all = vec![];
        for a in &s.attrs {
            if let (true, Meta::List(l)) = (a.path().is_ident("derive"), &a.meta) {
                all.extend(l.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(String::from));
            }
        }
        let has = |n: &str| all.iter().any(|a| a == n);
        let f: Vec<String> = s.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map_or(i.to_string(), |x| x.to_string())).collect();
        let n = &s.ident;
        let lex = |m: &str, eq: &str, nil: &str| {
            let mut t = String::new();
            for (i, x) in f.iter().enumerate() {
                if i + 1 == f.len() {
                    t.push_str(&format!("self.{x}.{m}(&other.{x})"));
                } else {
                    t.push_str(&format!("match self.{x}.{m}(&other.{x}) {{ {eq} => {{}} c => return c }} "));
                }
            }
            if f.is_empty() { nil.to_string() } else { t }
        };
        let o = "core::cmp::Ordering::Equal";
        let mut t = vec![];
        if has("Eq") {
            t.push(format!("impl Eq for {n} {{}}"));
        }
        if has("PartialOrd") {
            t.push(format!("impl PartialOrd for {n} {{ fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {{ {} }} }}", lex("partial_cmp", &format!("Some({o})"), &format!("Some({o})"))));
        }
        if has("Ord") {
            t.push(format!("impl Ord for {n} {{ fn cmp(&self, other: &Self) -> core::cmp::Ordering {{ {} }} }}", lex("cmp", o, o)));
        }
        if has("Hash") {
            let b: Vec<String> = f.iter().map(|x| format!("crate::vt::Hash::hash(&self.{x}, state);")).collect();
            t.push(format!("impl crate::vt::Hash for {n} {{ fn hash<H: crate::vt::Hasher>(&self, state: &mut H) {{ {} }} }}", b.join(" ")));
        }
        let line = lines.get(src[..syn::spanned::Spanned::span(it).byte_range().start].matches('\n').count()).copied().unwrap_or(1);
        for x in t {
            out.push_str(&x);
            out.push('\n');
            lines.push(line);
        }
    }
    lines.push(*lines.last().unwrap_or(&1));
    Ok(out)
}
