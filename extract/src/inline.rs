//! Calls of functions that have no contract are replaced by the bodies of these functions.
//!
//! Only functions are taken that the baseline (contracts/names.txt) does not know.  Their
//! `return`s become the value of the body where the structure allows it; otherwise a call is
//! replaced only where leaving the callee and leaving the caller are the same.
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

#[derive(Clone, Debug)]
pub struct Helper {
    pub name: String,
    /// Type of the `impl`, or empty.
    ty: String,
    /// 0: none, 1: `&self`, 2: `&mut self`, 3: `self`
    recv: u8,
    params: Vec<(String, String)>,
    generics: BTreeSet<String>,
    /// Type parameters of the `impl` and of the function, with their bounds.
    bounds: Vec<(String, String)>,
    body: String,
    has_return: bool,
    has_try: bool,
}

fn r(s: impl Spanned) -> (usize, usize) {
    let b = s.span().byte_range();
    (b.start, b.end)
}

struct Escapes(bool, bool);
impl<'a> Visit<'a> for Escapes {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.1 = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn esc_expr(e: &Expr) -> bool {
    let mut v = Escapes(false, false);
    v.visit_expr(e);
    v.0
}
fn esc_stmt(s: &Stmt) -> bool {
    let mut v = Escapes(false, false);
    v.visit_stmt(s);
    v.0
}

/// The value of a block whose end is the end of the function, without `return`.
fn value_block(src: &str, b: &Block) -> Option<String> {
    value_stmts(src, &b.stmts)
}
fn txt(src: &str, s: impl Spanned) -> String {
    let (a, b) = r(s);
    src[a..b].to_string()
}
/// Does the block always leave by `return`?
fn leaves(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => leaves_expr(e),
        _ => false,
    }
}
fn leaves_expr(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => leaves(&b.block),
        Expr::If(i) => leaves(&i.then_branch) && i.else_branch.as_ref().map_or(false, |(_, e)| leaves_expr(e)),
        Expr::Match(m) => m.arms.iter().all(|a| leaves_expr(&a.body)),
        _ => false,
    }
}
fn value_stmts(src: &str, st: &[Stmt]) -> Option<String> {
    let Some(s) = st.first() else { return Some(String::new()) };
    let rest = &st[1..];
    if !esc_stmt(s) {
        return Some(format!("{} {}", txt(src, s), value_stmts(src, rest)?));
    }
    match s {
        Stmt::Expr(Expr::Return(x), _) => Some(x.expr.as_ref().map_or("()".into(), |e| txt(src, e))),
        Stmt::Expr(e, semi) if rest.is_empty() && semi.is_none() => value_expr(src, e),
        Stmt::Expr(Expr::If(i), _) if !esc_expr(&i.cond) => {
            let c = txt(src, &i.cond);
            match &i.else_branch {
                None if leaves(&i.then_branch) => Some(format!("if {c} {{ {} }} else {{ {} }}", value_block(src, &i.then_branch)?, value_stmts(src, rest)?)),
                Some((_, e)) if leaves(&i.then_branch) && !esc_expr(e) => Some(format!("if {c} {{ {} }} else {{ {}; {} }}", value_block(src, &i.then_branch)?, txt(src, e), value_stmts(src, rest)?)),
                Some((_, e)) if leaves_expr(e) && !i.then_branch.stmts.iter().any(esc_stmt) => Some(format!("if {c} {{ {}; {} }} else {}", txt(src, &i.then_branch), value_stmts(src, rest)?, brace(value_expr(src, e)?))),
                Some((_, e)) if leaves_expr(e) && leaves(&i.then_branch) => Some(format!("if {c} {{ {} }} else {}", value_block(src, &i.then_branch)?, brace(value_expr(src, e)?))),
                _ => None,
            }
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = txt(src, &l.pat);
            if let Some((_, d)) = &init.diverge {
                let Expr::Block(b) = &**d else { return None };
                if esc_expr(&init.expr) || !leaves(&b.block) {
                    return None;
                }
                return Some(format!("if let {pat} = {} {{ {} }} else {{ {} }}", txt(src, &init.expr), value_stmts(src, rest)?, value_block(src, &b.block)?));
            }
            let Expr::Match(m) = &*init.expr else { return None };
            if esc_expr(&m.expr) || m.arms.iter().filter(|a| !leaves_expr(&a.body)).count() != 1 {
                return None;
            }
            let mut t = format!("match {} {{ ", txt(src, &m.expr));
            for a in &m.arms {
                if a.guard.is_some() {
                    return None;
                }
                let p = txt(src, &a.pat);
                if leaves_expr(&a.body) {
                    t += &format!("{p} => {} ", brace(value_expr(src, &a.body)?));
                } else {
                    if esc_expr(&a.body) {
                        return None;
                    }
                    t += &format!("{p} => {{ let {pat} = {}; {} }} ", txt(src, &a.body), value_stmts(src, rest)?);
                }
            }
            Some(t + "}")
        }
        Stmt::Expr(Expr::Match(m), _) => {
            // Statement: the arms that do not leave go on with the rest; only one may.
            if esc_expr(&m.expr) || m.arms.iter().filter(|a| !leaves_expr(&a.body)).count() > 1 {
                return None;
            }
            let mut t = format!("match {} {{ ", txt(src, &m.expr));
            for a in &m.arms {
                if a.guard.is_some() {
                    return None;
                }
                let p = txt(src, &a.pat);
                if leaves_expr(&a.body) {
                    t += &format!("{p} => {} ", brace(value_expr(src, &a.body)?));
                } else {
                    if esc_expr(&a.body) {
                        return None;
                    }
                    t += &format!("{p} => {{ {}; {} }} ", txt(src, &a.body), value_stmts(src, rest)?);
                }
            }
            Some(t + "}")
        }
        _ => None,
    }
}
fn brace(s: String) -> String {
    format!("{{ {s} }}")
}
fn value_expr(src: &str, e: &Expr) -> Option<String> {
    if !esc_expr(e) {
        return Some(txt(src, e));
    }
    match e {
        Expr::Return(x) => Some(x.expr.as_ref().map_or("()".into(), |e| txt(src, e))),
        Expr::Block(b) => Some(brace(value_block(src, &b.block)?)),
        Expr::If(i) if !esc_expr(&i.cond) => {
            let (_, e) = i.else_branch.as_ref()?;
            Some(format!("if {} {{ {} }} else {}", txt(src, &i.cond), value_block(src, &i.then_branch)?, brace(value_expr(src, e)?)))
        }
        Expr::Match(m) if !esc_expr(&m.expr) => {
            let mut t = format!("match {} {{ ", txt(src, &m.expr));
            for a in &m.arms {
                if a.guard.is_some() {
                    return None;
                }
                t += &format!("{} => {} ", txt(src, &a.pat), brace(value_expr(src, &a.body)?));
            }
            Some(t + "}")
        }
        _ => None,
    }
}

fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn idents_of(s: &str) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    if let Ok(t) = s.parse() {
        idents(t, &mut o);
    }
    o
}

fn bounds(src: &str, g: &Generics, out: &mut Vec<(String, String)>) {
    out.extend(g.type_params().map(|t| (t.ident.to_string(), t.bounds.first().map_or(String::new(), |b| txt(src, b)))));
}

fn helper(src: &str, ty: &str, outer: &Generics, sig: &Signature, block: &Block) -> Option<Helper> {
    let mut bs = vec![];
    bounds(src, outer, &mut bs);
    bounds(src, &sig.generics, &mut bs);
    let mut recv = 0;
    let mut params = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(x) => {
                if x.colon_token.is_some() {
                    return None;
                }
                recv = if x.reference.is_none() { 3 } else if x.mutability.is_some() { 2 } else { 1 };
            }
            FnArg::Typed(p) => {
                let Pat::Ident(i) = &*p.pat else { return None };
                if i.by_ref.is_some() || i.subpat.is_some() {
                    return None;
                }
                params.push((format!("{}{}", if i.mutability.is_some() { "mut " } else { "" }, i.ident), txt(src, &p.ty)));
            }
        }
    }
    let generics = sig.generics.type_params().map(|t| t.ident.to_string()).chain(sig.generics.lifetimes().map(|l| l.lifetime.ident.to_string())).collect();
    let mut e = Escapes(false, false);
    e.visit_block(block);
    let (lo, hi) = r(block);
    let mut body = src[lo + 1..hi - 1].to_string();
    let (mut has_return, has_try) = (e.0, e.1);
    if has_return {
        if let Some(v) = value_block(src, block) {
            body = v;
            has_return = false;
        }
    }
    Some(Helper { name: sig.ident.to_string(), ty: ty.to_string(), recv, params, generics, bounds: bs, body, has_return, has_try })
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg"))
}

fn items(src: &str, its: &[Item], module: &str, known: &dyn Fn(&str) -> bool, out: &mut Vec<Helper>) {
    let path = |p: &str| format!("{module}::{p}").trim_start_matches("::").to_string();
    for it in its {
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => {
                if !known(&path(&f.sig.ident.to_string())) {
                    out.extend(helper(src, "", &Generics::default(), &f.sig, &f.block));
                }
            }
            Item::Impl(im) if im.trait_.is_none() && !is_test(&im.attrs) => {
                let Type::Path(t) = &*im.self_ty else { continue };
                let Some(ty) = t.path.segments.last().map(|s| s.ident.to_string()) else { continue };
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        if !known(&path(&format!("{ty}::{}", f.sig.ident))) {
                            out.extend(helper(src, &ty, &im.generics, &f.sig, &f.block));
                        }
                    }
                }
            }
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    items(src, its, &path(&m.ident.to_string()), known, out);
                }
            }
            _ => {}
        }
    }
}

/// Functions of the crate that the baseline does not know.
pub fn helpers(root: &str, known: &dyn Fn(&str) -> bool, known_names: &BTreeSet<String>) -> Vec<Helper> {
    fn walk(d: &std::path::Path, v: &mut Vec<std::path::PathBuf>) {
        if let Ok(e) = std::fs::read_dir(d) {
            for x in e.flatten() {
                let p = x.path();
                if p.is_dir() {
                    walk(&p, v);
                } else if p.extension().map_or(false, |e| e == "rs") {
                    v.push(p);
                }
            }
        }
    }
    let base = std::path::PathBuf::from(format!("{root}/src"));
    let mut fs = vec![];
    walk(&base, &mut fs);
    fs.sort();
    let mut out = vec![];
    for f in fs {
        let rel = f.strip_prefix(&base).unwrap().to_string_lossy().to_string();
        let m = rel.trim_end_matches(".rs").trim_end_matches("/mod").replace('/', "::");
        let m = if m == "lib" { String::new() } else { m };
        if m.split("::").any(|s| s == "tests" || s == "test") {
            continue;
        }
        let Ok(src) = std::fs::read_to_string(&f) else { continue };
        let Ok(file) = syn::parse_file(&src) else { continue };
        items(&src, &file.items, &m, known, &mut out);
    }
    let mut n: BTreeMap<String, usize> = BTreeMap::new();
    for h in &out {
        *n.entry(h.name.clone()).or_default() += 1;
    }
    out.retain(|h| n[&h.name] == 1 && !known_names.contains(&h.name) && !idents_of(&h.body).contains(&h.name));
    out
}

struct Sites<'h> {
    hs: &'h BTreeMap<String, Helper>,
    src: &'h str,
    ty: String,
    scope: Vec<(String, String)>,
    tails: BTreeSet<(usize, usize)>,
    trys: BTreeSet<(usize, usize)>,
    whole: BTreeSet<(usize, usize)>,
    inside: Vec<String>,
    out: Vec<(usize, usize, String)>,
}

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}

/// Puts `to` for the identifier `from`.
fn rename(body: &str, from: &str, to: &str) -> Option<String> {
    fn rec(t: TokenStream, from: &str, out: &mut Vec<(usize, usize)>) {
        for x in t {
            match x {
                TokenTree::Ident(n) if n == from => {
                    let s = n.span().byte_range();
                    out.push((s.start, s.end));
                }
                TokenTree::Group(g) => rec(g.stream(), from, out),
                _ => {}
            }
        }
    }
    let t: TokenStream = format!("{{{body}}}").parse().ok()?;
    let base = t.clone().into_iter().next()?.span().byte_range().start + 1;
    let mut e = vec![];
    rec(t, from, &mut e);
    let mut out = String::new();
    let mut p = 0;
    for (a, b) in e {
        out.push_str(&body[p..a - base]);
        out.push_str(to);
        p = b - base;
    }
    out.push_str(&body[p..]);
    Some(out)
}

/// Puts `to` for `self` and `ty` for `Self`.
fn subst(body: &str, own: Option<(&str, &str)>, ty: Option<&str>) -> Option<String> {
    fn rec(t: TokenStream, own: Option<(&str, &str)>, ty: Option<&str>, out: &mut Vec<(usize, usize, String)>) {
        let v: Vec<TokenTree> = t.into_iter().collect();
        for (i, x) in v.iter().enumerate() {
            match x {
                TokenTree::Ident(n) if n == "self" => {
                    if let Some((place, bare)) = own {
                        let dot = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '.');
                        let s = x.span().byte_range();
                        out.push((s.start, s.end, if dot { place.to_string() } else { bare.to_string() }));
                    }
                }
                TokenTree::Ident(n) if n == "Self" => {
                    if let Some(t) = ty {
                        let s = x.span().byte_range();
                        out.push((s.start, s.end, t.to_string()));
                    }
                }
                TokenTree::Group(g) => rec(g.stream(), own, ty, out),
                _ => {}
            }
        }
    }
    // Parsed on its own: its spans are offsets into what was parsed before, so take the first token's as base.
    let t: TokenStream = format!("{{{body}}}").parse().ok()?;
    let base = t.clone().into_iter().next()?.span().byte_range().start + 1;
    let mut e = vec![];
    rec(t, own, ty, &mut e);
    let mut out = String::new();
    let mut p = 0;
    for (a, b, s) in e {
        out.push_str(&body[p..a - base]);
        out.push_str(&s);
        p = b - base;
    }
    out.push_str(&body[p..]);
    Some(out)
}

impl Sites<'_> {
    fn tail_block(&mut self, b: &Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            self.tail(e);
        }
    }
    fn tail(&mut self, e: &Expr) {
        self.tails.insert(r(e));
        match e {
            Expr::If(i) => {
                self.tail_block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.tail(e);
                }
            }
            Expr::Match(m) => m.arms.iter().for_each(|a| self.tail(&a.body)),
            Expr::Block(b) => self.tail_block(&b.block),
            Expr::Paren(p) => self.tail(&p.expr),
            _ => {}
        }
    }
    fn go(&mut self, at: (usize, usize), name: &str, ty: Option<&str>, recv: Option<&Expr>, args: Vec<&Expr>) {
        let Some(h) = self.hs.get(name) else { return };
        if self.inside.contains(&h.name) || self.out.iter().any(|o| o.0 < at.1 && at.0 < o.1) {
            return;
        }
        if (h.recv == 0) != recv.is_none() || args.len() != h.params.len() {
            return;
        }
        if let Some(t) = ty {
            if t != h.ty && !(t == "Self" && h.ty == self.ty) {
                return;
            }
        }
        let tail = self.tails.contains(&at);
        if h.has_return && !tail || h.has_try && !tail && !(self.trys.contains(&at)) {
            return;
        }
        let own;
        let own = match recv {
            None => None,
            Some(e) if txt(self.src, e) == "self" => None,
            Some(e) if place(e) => {
                let p = txt(self.src, e);
                own = match (e, h.recv) {
                    (Expr::Path(_), _) => (p.clone(), p.clone()),
                    (_, 1) => (p.clone(), format!("(&{p})")),
                    (_, 2) => (p.clone(), format!("(&mut {p})")),
                    _ => (p.clone(), p.clone()),
                };
                Some((own.0.as_str(), own.1.as_str()))
            }
            Some(_) => return,
        };
        let ty = if h.ty == self.ty { None } else { Some(h.ty.as_str()) };
        let Some(mut body) = subst(&h.body, own, ty) else { return };
        // Type parameters of another `impl` go by their bounds.
        let foreign = ty.is_some();
        if foreign {
            let used = idents_of(&body);
            for (g, b) in h.bounds.iter().filter(|(g, _)| used.contains(g) && !h.generics.contains(g)) {
                if self.scope.iter().any(|(n, c)| n == g && c == b) {
                    continue;
                }
                let c: Vec<&String> = self.scope.iter().filter(|(_, c)| c == b && !b.is_empty()).map(|(n, _)| n).collect();
                let [to] = c[..] else { return };
                let Some(x) = rename(&body, g, to) else { return };
                body = x;
            }
        }
        let mut lets = vec![];
        let mut bound: BTreeSet<String> = BTreeSet::new();
        let mut clash = false;
        if let Some((p, _)) = own {
            let ids = idents_of(p);
            clash |= h.params.iter().any(|(n, _)| ids.contains(n.trim_start_matches("mut ")));
        }
        for ((n, t), a) in h.params.iter().zip(&args) {
            let a = txt(self.src, a);
            if *n == a && !t.starts_with("&[") {
                continue;
            }
            clash |= idents_of(&a).iter().any(|i| bound.contains(i));
            bound.insert(n.trim_start_matches("mut ").to_string());
            let ids = idents_of(t);
            let t = if t.contains("impl ") || t.contains('\'') || ids.iter().any(|i| h.generics.contains(i) || foreign && h.bounds.iter().any(|b| b.0 == *i)) || ids.contains("Self") {
                if t.starts_with("&mut") { ": &mut _".to_string() } else { String::new() }
            } else {
                format!(": {t}")
            };
            lets.push((n.clone(), t, a));
        }
        let mut s = String::from("{ ");
        if clash {
            if own.is_some() {
                return;
            }
            for (i, (_, t, a)) in lets.iter().enumerate() {
                s += &format!("let arg{i}__{t} = {a}; ");
            }
            for (i, (n, t, _)) in lets.iter().enumerate() {
                s += &format!("let {n}{t} = arg{i}__; ");
            }
        } else {
            for (n, t, a) in &lets {
                s += &format!("let {n}{t} = {a}; ");
            }
        }
        s += body.trim();
        s += "\n}";
        let s = if self.whole.contains(&at) { s } else { format!("({s})") };
        self.out.push((at.0, at.1, s));
    }
}

impl<'a> Visit<'a> for Sites<'_> {
    fn visit_item_impl(&mut self, i: &'a ItemImpl) {
        let save = self.ty.clone();
        if let Type::Path(t) = &*i.self_ty {
            self.ty = t.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        }
        let n = self.scope.len();
        bounds(self.src, &i.generics, &mut self.scope);
        visit::visit_item_impl(self, i);
        self.scope.truncate(n);
        self.ty = save;
    }
    fn visit_item_mod(&mut self, m: &'a ItemMod) {
        if !is_test(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'a ImplItemFn) {
        self.inside.push(f.sig.ident.to_string());
        self.tail_block(&f.block);
        let n = self.scope.len();
        bounds(self.src, &f.sig.generics, &mut self.scope);
        visit::visit_impl_item_fn(self, f);
        self.scope.truncate(n);
        self.inside.pop();
    }
    fn visit_item_fn(&mut self, f: &'a ItemFn) {
        self.inside.push(f.sig.ident.to_string());
        self.tail_block(&f.block);
        // A nested function does not see the type parameters around it.
        let save = std::mem::take(&mut self.scope);
        bounds(self.src, &f.sig.generics, &mut self.scope);
        visit::visit_item_fn(self, f);
        self.scope = save;
        self.inside.pop();
    }
    fn visit_stmt(&mut self, s: &'a Stmt) {
        if let Stmt::Expr(e, _) = s {
            self.whole.insert(r(e));
        }
        visit::visit_stmt(self, s);
    }
    fn visit_local(&mut self, l: &'a Local) {
        if let Some(i) = &l.init {
            if i.diverge.is_none() {
                self.whole.insert(r(&i.expr));
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if !["write", "writeln", "assert", "assert_eq", "assert_ne", "debug_assert", "debug_assert_eq", "debug_assert_ne"].contains(&n.as_str()) {
            return;
        }
        if let Ok(a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            let a: &'static _ = Box::leak(Box::new(a));
            for e in a.iter() {
                self.visit_expr(e);
            }
        }
    }
    fn visit_expr_return(&mut self, x: &'a ExprReturn) {
        if let Some(e) = &x.expr {
            self.tail(e);
        }
        visit::visit_expr_return(self, x);
    }
    fn visit_expr_try(&mut self, x: &'a ExprTry) {
        self.trys.insert(r(&x.expr));
        visit::visit_expr_try(self, x);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.go(r(m), &m.method.to_string(), None, Some(&m.receiver), m.args.iter().collect());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let name = s.last().cloned().unwrap_or_default();
            let ty = if s.len() == 1 { String::new() } else { s[s.len() - 2].clone() };
            let free = self.hs.get(&name).map_or(false, |h| h.ty.is_empty());
            // A module in front of a free function says nothing.
            let ty = if free { String::new() } else { ty };
            self.go(r(c), &name, Some(&ty), None, c.args.iter().collect());
        }
        visit::visit_expr_call(self, c);
    }
}

/// The text with the calls replaced; `lines` says for each line which one it was originally.
pub fn inline(src: &str, hs: &[Helper], lines: &mut Vec<usize>) -> std::result::Result<String, String> {
    let map: BTreeMap<String, Helper> = hs.iter().map(|h| (h.name.clone(), h.clone())).collect();
    let mut src = src.to_string();
    if map.is_empty() {
        return Ok(src);
    }
    for _ in 0..4 {
        let file = syn::parse_file(&src).map_err(|e| e.to_string())?;
        let mut v = Sites { hs: &map, src: &src, ty: String::new(), scope: vec![], tails: BTreeSet::new(), trys: BTreeSet::new(), whole: BTreeSet::new(), inside: vec![], out: vec![] };
        v.visit_file(&file);
        let mut out = v.out;
        if out.is_empty() {
            break;
        }
        out.sort();
        let mut text = String::new();
        let mut nl: Vec<usize> = vec![];
        let mut line = 0; // of src
        let mut p = 0;
        let mut fresh = true;
        let mut put = |s: &str, step: bool, line: &mut usize, text: &mut String| {
            for ch in s.chars() {
                if fresh {
                    nl.push(lines.get(*line).or(lines.last()).copied().unwrap_or(0));
                    fresh = false;
                }
                text.push(ch);
                if ch == '\n' {
                    fresh = true;
                    if step {
                        *line += 1;
                    }
                }
            }
        };
        for (a, b, t) in out {
            put(&src[p..a], true, &mut line, &mut text);
            put(&t, false, &mut line, &mut text);
            line += src[a..b].matches('\n').count();
            p = b;
        }
        put(&src[p..], true, &mut line, &mut text);
        if text.ends_with('\n') {
            nl.push(lines.last().copied().unwrap_or(0));
        }
        src = text;
        *lines = nl;
    }
    Ok(src)
}
