//! Copies of functions, verified for calls that end in a panic.
//!
//! A contract for `f__stop` asks for a copy of `f` (same source text, next to it). In the copy,
//! `@stop_calls g` calls `g__stop` instead of `g`, and with `@stop P` each `expect`, `unwrap`,
//! `panic!` and assertion may fail where `P` holds.
use crate::contracts::Contracts;
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

pub const SUFFIX: &str = "__stop";

fn r(s: impl Spanned) -> (usize, usize) {
    let b = s.span().byte_range();
    (b.start, b.end)
}

struct Names<'a> {
    calls: &'a BTreeSet<String>,
    out: Vec<usize>,
}
impl<'a> Visit<'a> for Names<'_> {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if self.calls.contains(&m.method.to_string()) {
            self.out.push(r(m.method.span()).1);
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, m: &'a ExprCall) {
        if let Expr::Path(p) = &*m.func {
            if let Some(s) = p.path.segments.last() {
                if self.calls.contains(&s.ident.to_string()) {
                    self.out.push(r(s.ident.span()).1);
                }
            }
        }
        visit::visit_expr_call(self, m);
    }
}

fn copy(src: &str, path: &str, sig: &Signature, block: &Block, whole: (usize, usize), attrs: &[Attribute], c: &Contracts, out: &mut Vec<(usize, String)>) {
    let name = format!("{path}{SUFFIX}");
    if !c.fns.contains_key(&name) {
        return;
    }
    let prefix = format!("{name}::");
    let mut at = vec![r(sig.ident.span()).1];
    let mut one = |p: &str, b: &Block, skip_items: bool| {
        let calls: BTreeSet<String> = c.fns.get(p).map(|f| f.sections.iter().filter(|s| s.0 == "stop_calls").flat_map(|s| s.1.split_whitespace().map(String::from).collect::<Vec<_>>()).collect()).unwrap_or_default();
        let mut v = Names { calls: &calls, out: vec![] };
        for s in &b.stmts {
            if !(skip_items && matches!(s, Stmt::Item(_))) {
                v.visit_stmt(s);
            }
        }
        at.extend(v.out);
    };
    one(&name, block, true);
    for s in &block.stmts {
        if let Stmt::Item(Item::Fn(f)) = s {
            one(&format!("{prefix}{}", f.sig.ident), &f.block, true);
        }
    }
    let _ = attrs;
    at.sort();
    let mut t = String::from("\n");
    let mut p = whole.0;
    for a in at {
        t.push_str(&src[p..a]);
        t.push_str(SUFFIX);
        p = a;
    }
    t.push_str(&src[p..whole.1]);
    t.push('\n');
    out.push((whole.1, t));
}

fn items(src: &str, its: &[Item], module: &str, c: &Contracts, out: &mut Vec<(usize, String)>) {
    let path = |p: &str| format!("{module}::{p}").trim_start_matches("::").to_string();
    for it in its {
        match it {
            Item::Fn(f) => copy(src, &path(&f.sig.ident.to_string()), &f.sig, &f.block, r(f), &f.attrs, c, out),
            Item::Impl(im) if im.trait_.is_none() => {
                let Type::Path(t) = &*im.self_ty else { continue };
                let Some(ty) = t.path.segments.last().map(|s| s.ident.to_string()) else { continue };
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        copy(src, &path(&format!("{ty}::{}", f.sig.ident)), &f.sig, &f.block, r(f), &f.attrs, c, out);
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    items(src, its, &path(&m.ident.to_string()), c, out);
                }
            }
            _ => {}
        }
    }
}

/// The source with the copies in it; they have the lines of their originals.
pub fn copies(src: &str, module: &str, c: &Contracts, lines: &mut Vec<usize>) -> std::result::Result<String, String> {
    let file = syn::parse_file(src).map_err(|e| e.to_string())?;
    let mut out = vec![];
    items(src, &file.items, module, c, &mut out);
    if out.is_empty() {
        return Ok(src.to_string());
    }
    out.sort();
    let line_of = |p: usize| src[..p].matches('\n').count();
    let mut text = String::new();
    let mut nl: Vec<usize> = vec![];
    let get = |l: usize| lines.get(l).or(lines.last()).copied().unwrap_or(0);
    let mut p = 0;
    let mut cur = 0; // line of src that the next character belongs to
    nl.push(get(0));
    for (a, t) in &out {
        for ch in src[p..*a].chars() {
            text.push(ch);
            if ch == '\n' {
                cur += 1;
                nl.push(get(cur));
            }
        }
        p = *a;
        // The copy ends where its original ends; count its lines back from there.
        let n = t.matches('\n').count();
        let mut l = (line_of(*a) + 2).saturating_sub(n);
        for ch in t.chars() {
            text.push(ch);
            if ch == '\n' {
                nl.push(get(l));
                l += 1;
            }
        }
    }
    for ch in src[p..].chars() {
        text.push(ch);
        if ch == '\n' {
            cur += 1;
            nl.push(get(cur));
        }
    }
    *lines = nl;
    Ok(text)
}
