//! Mechanical extraction of treena's source text into one Verus file.
//!
//! The output consists of the original source text, module by module, changed
//! only by the edits listed in DESIGN.md ("What the extraction drops and rewrites");
//! contracts are spliced in from the contract files.
mod contracts;
mod expand;
mod copies;
mod inline;

use contracts::*;
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

/// Per source file: the original line of each line of the text after macro expansion.
static LINES: std::sync::Mutex<Vec<Vec<usize>>> = std::sync::Mutex::new(Vec::new());
/// Whether an unprovable assertion is put at the start of every contracted function.
static HELPERS: std::sync::Mutex<Vec<inline::Helper>> = std::sync::Mutex::new(Vec::new());
static OPAQUE: std::sync::Mutex<BTreeSet<String>> = std::sync::Mutex::new(BTreeSet::new());
/// Kinds of the loops of each function, in order (contracts/names.txt).
static KINDS: std::sync::Mutex<BTreeMap<String, Vec<String>>> = std::sync::Mutex::new(BTreeMap::new());
static VACUITY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Debug, Clone)]
enum Piece {
    Text(String),
    /// Source range, rendered with the edits inside it (except the given one).
    Src(usize, usize, Option<usize>),
    /// Text of a contract: function path, section, contract line.
    Spec(String, String, usize),
}
#[derive(Debug, Clone)]
struct Edit {
    lo: usize,
    hi: usize,
    pieces: Vec<Piece>,
    ord: usize,
}

struct Out {
    text: String,
    /// per output line: (file index or -1, source line)
    lines: Vec<(i64, usize)>,
}
impl Out {
    fn push(&mut self, s: &str, file: i64, mut line: usize) {
        for ch in s.chars() {
            if self.text.is_empty() || self.text.ends_with('\n') {
                self.lines.push((file, line));
            } else if let Some(l) = self.lines.last_mut() {
                if l.0 < 0 && file >= 0 && !ch.is_whitespace() {
                    *l = (file, line);
                }
            }
            self.text.push(ch);
            if ch == '\n' && file >= 0 {
                line += 1;
            }
        }
    }
}

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

struct FileCx<'c> {
    module: String,
    src: String,
    edits: Vec<Edit>,
    c: &'c Contracts,
    base: &'c BTreeMap<String, Vec<String>>,
    rep: Report,
    children: Vec<(String, usize, usize, usize)>, // mod name, lo, hi, edit index
    ty: String,
    fnstack: Vec<String>,
    hoist_at: usize,
    /// renames of nested functions visible in the current function
    nested: Vec<BTreeMap<String, String>>,
    drop_stmts: BTreeSet<usize>,
}
#[derive(Default)]
struct Report {
    used: BTreeSet<String>,
    uncontracted: BTreeSet<String>,
    lost: Vec<String>,
    /// Functions with renamed locals: the contract follows by position.
    renamed: Vec<String>,
    /// Functions with loops of other kinds than in the baseline: the invariants may not fit.
    reshaped: Vec<String>,
    fns: BTreeMap<String, String>, // path -> "ident params... | locals..."
    fn_ranges: Vec<(String, usize, usize)>,
    calls: BTreeMap<String, BTreeSet<String>>,
}

impl<'c> FileCx<'c> {
    fn edit(&mut self, lo: usize, hi: usize, pieces: Vec<Piece>) -> usize {
        let ord = self.edits.len();
        self.edits.push(Edit { lo, hi, pieces, ord });
        ord
    }
    fn text(&mut self, lo: usize, hi: usize, t: &str) -> usize {
        self.edit(lo, hi, vec![Piece::Text(t.to_string())])
    }
    fn del_attrs(&mut self, attrs: &[Attribute]) {
        for a in attrs {
            let (lo, hi) = rng(a.span());
            self.text(lo, hi, "");
        }
    }
    fn make_pub(&mut self, v: &Visibility, at: usize) {
        match v {
            Visibility::Inherited => {
                self.text(at, at, "pub ");
            }
            Visibility::Restricted(r) => {
                let (lo, hi) = rng(r.span());
                self.text(lo, hi, "pub");
            }
            Visibility::Public(_) => {}
        }
    }
    fn path(&self, name: &str) -> String {
        let mut p = self.module.clone();
        if !self.ty.is_empty() {
            p = format!("{p}::{}", self.ty);
        }
        for f in &self.fnstack {
            p = format!("{p}::{f}");
        }
        format!("{p}::{name}").trim_start_matches("::").to_string()
    }
    fn is_test(attrs: &[Attribute]) -> bool {
        attrs.iter().any(|a| {
            a.path().is_ident("cfg") && {
                let mut t = false;
                let s = quote_str(&a.meta);
                if s.contains("test") || s.contains("feature") {
                    t = true;
                }
                t
            }
        })
    }
    /// The name of a function nested in `outer`, once it is moved out.
    fn hoisted(&self, outer: &Ident, inner: &Ident) -> String {
        match self.ty.split_once('@') {
            Some((t, tr)) => format!("{t}_{tr}_{outer}__{inner}"),
            None => format!("{outer}__{inner}"),
        }
    }
    fn drop_item(&mut self, s: Span) {
        let (lo, hi) = rng(s);
        self.text(lo, hi, "");
    }

    fn item(&mut self, it: &Item) {
        match it {
            Item::Mod(m) => {
                if Self::is_test(&m.attrs) || self.c.drop.contains(&self.path(&m.ident.to_string())) {
                    return self.drop_item(it.span());
                }
                self.del_attrs(&m.attrs);
                let start = match &m.vis {
                    Visibility::Inherited => rng(m.mod_token.span()).0,
                    v => rng(v.span()).0,
                };
                if let Some((_, items)) = &m.content {
                    self.make_pub(&m.vis, start);
                    let save = self.module.clone();
                    self.module = self.path(&m.ident.to_string());
                    let at = rng(m.content.as_ref().unwrap().0.span.open()).1;
                    self.module_head(at);
                    for i in items {
                        self.item(i);
                    }
                    self.module = save;
                } else {
                    let hi = rng(it.span()).1;
                    let e = self.text(start, hi, "");
                    self.children.push((m.ident.to_string(), start, hi, e));
                }
            }
            Item::Use(u) => {
                if Self::is_test(&u.attrs) || self.c.drop.contains(&self.path(&format!("use {}", quote_use(&u.tree)))) {
                    return self.drop_item(it.span());
                }
                self.del_attrs(&u.attrs);
                // Names that only formatting or dropped code uses.
                let t = quote_use(&u.tree);
                if t.starts_with("core::fmt") && self.c.fmt.contains(&self.module) {
                    if let UseTree::Path(p) = &u.tree {
                        let (lo, hi) = rng(p.ident.span());
                        self.text(lo, hi, "crate::vt");
                    }
                    return;
                }
                if t.starts_with("core::fmt") || t.contains("hash::Hash") || t.starts_with("core::iter") {
                    return self.drop_item(it.span());
                }
                if let Visibility::Restricted(_) = u.vis {
                    self.make_pub(&u.vis, 0);
                }
                self.use_tree(&u.tree);
            }
            Item::Fn(f) => self.func(&f.attrs, Some(&f.vis), &f.sig, Some(&f.block), it.span(), false),
            Item::Struct(s) => {
                if Self::is_test(&s.attrs) || self.c.drop.contains(&self.path(&s.ident.to_string())) {
                    return self.drop_item(it.span());
                }
                self.type_attrs(&s.attrs, it);
                let at = match &s.vis {
                    Visibility::Inherited => rng(s.struct_token.span()).0,
                    v => rng(v.span()).0,
                };
                self.make_pub(&s.vis, at);
                for f in &s.fields {
                    self.del_attrs(&f.attrs);
                    let at = match &f.vis {
                        Visibility::Inherited => match &f.ident {
                            Some(i) => rng(i.span()).0,
                            None => rng(f.ty.span()).0,
                        },
                        v => rng(v.span()).0,
                    };
                    self.make_pub(&f.vis, at);
                }
            }
            Item::Enum(s) => {
                if Self::is_test(&s.attrs) || self.c.drop.contains(&self.path(&s.ident.to_string())) {
                    return self.drop_item(it.span());
                }
                self.type_attrs(&s.attrs, it);
                let at = match &s.vis {
                    Visibility::Inherited => rng(s.enum_token.span()).0,
                    v => rng(v.span()).0,
                };
                self.make_pub(&s.vis, at);
                for v in &s.variants {
                    self.del_attrs(&v.attrs);
                }
            }
            Item::Trait(t) => {
                let p = self.path(&t.ident.to_string());
                if self.c.drop.contains(&p) {
                    return self.drop_item(it.span());
                }
                self.del_attrs(&t.attrs);
                let at = match &t.vis {
                    Visibility::Inherited => rng(t.trait_token.span()).0,
                    v => rng(v.span()).0,
                };
                self.make_pub(&t.vis, at);
                if let Some(s) = self.c.supertraits.get(&p) {
                    let lo = match &t.colon_token {
                        Some(c) => rng(c.span()).0,
                        None => rng(t.ident.span()).1,
                    };
                    let hi = if t.supertraits.is_empty() { lo } else { rng(t.supertraits.span()).1 };
                    self.text(lo, hi, &format!(": {s} "));
                }
                let at = rng(t.brace_token.span.open()).1;
                if let Some(s) = self.c.trait_items.get(&p) {
                    self.text(at, at, &format!("\n{s}"));
                }
                self.ty = t.ident.to_string();
                for i in &t.items {
                    match i {
                        TraitItem::Fn(f) => self.func(&f.attrs, None, &f.sig, f.default.as_ref(), i.span(), true),
                        TraitItem::Type(f) => self.del_attrs(&f.attrs),
                        _ => {}
                    }
                }
                self.ty.clear();
            }
            Item::Impl(im) => self.impl_(im, it.span()),
            Item::Macro(_) | Item::ExternCrate(_) => self.drop_item(it.span()),
            Item::Const(s) => {
                self.del_attrs(&s.attrs);
                let at = match &s.vis {
                    Visibility::Inherited => rng(s.const_token.span()).0,
                    v => rng(v.span()).0,
                };
                self.make_pub(&s.vis, at);
            }
            Item::Type(s) => {
                self.del_attrs(&s.attrs);
                let at = match &s.vis {
                    Visibility::Inherited => rng(s.type_token.span()).0,
                    v => rng(v.span()).0,
                };
                self.make_pub(&s.vis, at);
            }
            _ => {}
        }
    }
    fn use_tree(&mut self, t: &UseTree) {
        // In a brace list, remove names of dropped items.
        match t {
            UseTree::Path(p) => self.use_tree(&p.tree),
            UseTree::Group(g) => {
                let n = g.items.len();
                let pairs: Vec<_> = g.items.pairs().collect();
                for (k, pr) in pairs.iter().enumerate() {
                    let name = match pr.value() {
                        UseTree::Name(n) => n.ident.to_string(),
                        UseTree::Rename(n) => n.ident.to_string(),
                        UseTree::Path(_) | UseTree::Group(_) => {
                            let t: &UseTree = pr.value();
                            self.use_tree(t);
                            continue;
                        }
                        _ => continue,
                    };
                    if self.c.drop.contains(&format!("use {name}")) {
                        let lo = rng(pr.value().span()).0;
                        let hi = if k + 1 < n { rng(pairs[k + 1].value().span()).0 } else { rng(g.brace_token.span.close()).0 };
                        self.text(lo, hi, "");
                    }
                }
            }
            UseTree::Name(n) => {
                if self.c.drop.contains(&format!("use {}", n.ident)) {
                    // handled by the caller through `@drop <module>::use ...`
                }
            }
            _ => {}
        }
    }
    fn type_attrs(&mut self, attrs: &[Attribute], it: &Item) {
        let (name, gens) = match it {
            Item::Struct(s) => (s.ident.to_string(), &s.generics),
            Item::Enum(s) => (s.ident.to_string(), &s.generics),
            _ => unreachable!(),
        };
        let mut keep = Vec::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                let s = quote_str(&a.meta);
                let all: Vec<&str> = s.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
                if all.contains(&"Copy") {
                    keep.push("Clone");
                    keep.push("Copy");
                    if all.contains(&"Debug") && gens.params.is_empty() {
                        keep.push("Debug");
                    }
                }
                if all.contains(&"PartialEq") && self.c.derive_eq.contains(&self.path(&name)) {
                    let hint = self.c.derive_eq_proof.get(&self.path(&name)).cloned().unwrap_or_default();
                    let txt = derive_eq(it, &hint);
                    let hi = rng(it.span()).1;
                    self.text(hi, hi, &txt);
                }
            }
        }
        self.del_attrs(attrs);
        if !keep.is_empty() {
            let lo = rng(it.span()).0;
            self.text(lo, lo, &format!("#[derive({})]\n", keep.join(", ")));
        }
    }
    fn impl_(&mut self, im: &ItemImpl, span: Span) {
        if Self::is_test(&im.attrs) {
            return self.drop_item(span);
        }
        let tname = match &*im.self_ty {
            Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
            _ => "?".into(),
        };
        let mut label = tname;
        if let Some((_, p, _)) = &im.trait_ {
            let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            let last = segs.last().cloned().unwrap_or_default();
            let kept = self.c.fmt.contains(&self.module) && segs.first().map(|s| s == "fmt").unwrap_or(false);
            let kept = kept || self.c.derives.contains(&self.module) && (matches!(last.as_str(), "Ord" | "PartialOrd") || segs.iter().any(|s| s == "vt"));
            if !kept
                && (segs.first().map(|s| s == "fmt").unwrap_or(false)
                    || matches!(last.as_str(), "Debug" | "Display" | "Error" | "FusedIterator" | "Ord" | "PartialOrd" | "Hash"))
            {
                return self.drop_item(span);
            }
            label = format!("{label}@{last}");
        }
        let p = self.path(&label);
        if self.c.drop.contains(&p) {
            return self.drop_item(span);
        }
        self.del_attrs(&im.attrs);
        let at = rng(im.brace_token.span.open()).1;
        if let Some(s) = self.c.impl_items.get(&p) {
            self.text(at, at, &format!("\n{s}"));
        }
        self.ty = label;
        self.hoist_at = rng(span).1;
        let is_trait = im.trait_.is_some();
        for i in &im.items {
            match i {
                ImplItem::Fn(f) => self.func(&f.attrs, if is_trait { None } else { Some(&f.vis) }, &f.sig, Some(&f.block), i.span(), false),
                ImplItem::Type(f) => self.del_attrs(&f.attrs),
                _ => {}
            }
        }
        self.ty.clear();
        self.hoist_at = 0;
    }

    #[allow(clippy::too_many_arguments)]
    fn func(&mut self, attrs: &[Attribute], vis: Option<&Visibility>, sig: &Signature, block: Option<&Block>, span: Span, _decl: bool) {
        let path = self.path(&sig.ident.to_string());
        if Self::is_test(attrs) || self.c.drop.contains(&path) {
            return self.drop_item(span);
        }
        self.del_attrs(attrs);
        if let Some(v) = vis {
            let at = match v {
                Visibility::Inherited => sig_start(sig),
                v => rng(v.span()).0,
            };
            if self.fnstack.is_empty() {
                self.make_pub(v, at);
            }
        }
        // Names.
        let mut names: Vec<String> = Vec::new();
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(_) => names.push("self".into()),
                FnArg::Typed(t) => {
                    let mut l = Locals { names: vec![] };
                    l.visit_pat(&t.pat);
                    names.extend(l.names);
                }
            }
        }
        if let Some(b) = block {
            let mut l = Locals { names: vec![] };
            l.visit_block(b);
            for n in l.names {
                if !names.contains(&n) {
                    names.push(n);
                }
            }
        }
        let mut kinds = vec![];
        if let Some(b) = block {
            let mut lv = Loops { found: vec![], stmt: vec![], kinds: vec![] };
            lv.visit_block(b);
            kinds = lv.kinds;
        }
        self.rep.fns.insert(path.clone(), format!("{}{}{}", names.join(" "), if kinds.is_empty() { "" } else { " | " }, kinds.join(" ")));
        if let Some(k) = KINDS.lock().unwrap().get(&path) {
            if *k != kinds {
                self.rep.reshaped.push(path.clone());
            }
        }
        let (flo, fhi) = rng(span);
        self.rep.fn_ranges.push((path.clone(), flo, fhi));

        let contract = self.c.fns.get(&path).cloned();
        let mut map = BTreeMap::new();
        if let Some(base) = self.base.get(&path) {
            let missing: Vec<&String> = base.iter().filter(|n| !names.contains(n)).collect();
            let new: Vec<&String> = names.iter().filter(|n| !base.contains(n)).collect();
            if missing.len() == new.len() {
                for (a, b) in missing.iter().zip(new.iter()) {
                    map.insert(a.to_string(), b.to_string());
                }
            }
        }
        if !map.is_empty() {
            self.rep.renamed.push(path.clone());
        }
        match &contract {
            Some(_) => {
                self.rep.used.insert(path.clone());
            }
            None => {
                self.rep.uncontracted.insert(path.clone());
            }
        }

        // A body that the verifier refuses: only its contract is kept (the caller of this tool
        // counts the function as undecided).
        let unknown = contract.is_none() && !self.base.is_empty() && !self.base.contains_key(&path) && !self.ty.contains('@');
        let opaque = block.is_some() && (unknown || OPAQUE.lock().unwrap().contains(&path));
        // Nested functions are moved out of the body.
        let mut nested_here = BTreeMap::new();
        if let (Some(b), false) = (block, opaque) {
            for s in &b.stmts {
                if let Stmt::Item(Item::Fn(f)) = s {
                    nested_here.insert(f.sig.ident.to_string(), self.hoisted(&sig.ident, &f.sig.ident));
                }
            }
            for s in &b.stmts {
                if let Stmt::Item(Item::Fn(f)) = s {
                    self.fnstack.push(sig.ident.to_string());
                    let (lo, hi) = rng(s.span());
                    let e = self.text(lo, hi, "");
                    let at = if self.hoist_at > 0 { self.hoist_at } else { rng(span).1 };
                    self.edit(at, at, vec![Piece::Text("\n\n".into()), Piece::Src(lo, hi, Some(e)), Piece::Text("\n".into())]);
                    let (ilo, ihi) = rng(f.sig.ident.span());
                    let name = self.hoisted(&sig.ident, &f.sig.ident);
                    self.text(ilo, ihi, &name);
                    let save_ty = self.hoist_at;
                    self.func(&f.attrs, None, &f.sig, Some(&f.block), s.span(), false);
                    self.hoist_at = save_ty;
                    self.fnstack.pop();
                    self.drop_stmts.insert(lo);
                }
            }
        }
        self.nested.push(nested_here);

        // Signature.
        let has_ret = !matches!(sig.output, ReturnType::Default);
        if contract.is_some() {
            if let ReturnType::Type(_, t) = &sig.output {
                let (lo, hi) = rng(t.span());
                self.text(lo, lo, "(r: ");
                self.text(hi, hi, ")");
            }
        }
        let mut secs: Vec<(String, String, String, usize)> = contract.as_ref().map(|c| c.sections.clone()).unwrap_or_default();
        for s in &mut secs {
            s.2 = rename(&s.2, &map);
        }
        if opaque {
            secs.retain(|s| s.0 == "spec" || s.0 == "ghost_param");
            let lo = match vis {
                Some(Visibility::Inherited) | None => sig_start(sig),
                Some(v) => rng(v.span()).0,
            };
            self.edit(lo, lo, vec![Piece::Text("#[verifier::external_body]\n".into())]);
            if let Some(e) = self.edits.last_mut() {
                e.ord = 0;
            }
            let b = block.unwrap();
            let (lo, hi) = (rng(b.brace_token.span.open()).1, rng(b.brace_token.span.close()).0);
            self.text(lo, hi, " unimplemented!() ");
        }
        let body_open = block.map(|b| rng(b.brace_token.span.open()));
        for (k, a, t, l) in &secs {
            let spec = |t: &str| Piece::Spec(path.clone(), t.to_string(), *l);
            match (k.as_str(), block) {
                ("attr", _) => {
                    let lo = match vis {
                        Some(Visibility::Inherited) | None => sig_start(sig),
                        Some(v) => rng(v.span()).0,
                    };
                    let lo = if self.fnstack.is_empty() || true { lo } else { lo };
                    self.edit(lo, lo, vec![Piece::Text(format!("{}\n", t.trim()))]);
                    if let Some(e) = self.edits.last_mut() {
                        e.ord = 0; // before `pub`
                    }
                }
                ("spec", None) => {
                    let hi = rng(span).1;
                    self.edit(hi - 1, hi - 1, vec![spec(&format!("\n{t}"))]);
                }
                ("spec", Some(_)) => {
                    let at = body_open.unwrap().0;
                    self.edit(at, at, vec![spec(&format!("\n{t}"))]);
                }
                ("entry", Some(_)) => {
                    let at = body_open.unwrap().1;
                    self.edit(at, at, vec![spec(&format!("\n{t}"))]);
                }
                ("body", Some(b)) => {
                    // Body replaced: only for functions proved by another back end.
                    let (lo, hi) = (rng(b.brace_token.span.open()).1, rng(b.brace_token.span.close()).0);
                    self.edit(lo, hi, vec![spec(&format!("\n{t}"))]);
                }
                ("exit", Some(b)) => match b.stmts.last() {
                    // What the tail does has been done where the block stands.
                    Some(Stmt::Expr(e, None)) if has_ret && matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) => {
                        let (lo, hi) = rng(e.span());
                        self.edit(lo, lo, vec![Piece::Text("let vt_tail = ".into())]);
                        self.edit(hi, hi, vec![Piece::Text(";\n".into()), spec(t), Piece::Text("\nvt_tail\n".into())]);
                    }
                    Some(Stmt::Expr(e, None)) if has_ret || !matches!(e, Expr::If(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Match(_) | Expr::Block(_) | Expr::Loop(_)) => {
                        let lo = rng(e.span()).0;
                        self.edit(lo, lo, vec![spec(&format!("{t}\n"))]);
                    }
                    _ => {
                        let at = rng(b.brace_token.span.close()).0;
                        self.edit(at, at, vec![spec(&format!("\n{t}"))]);
                    }
                },
                ("wrap_tail", Some(b)) => match b.stmts.last() {
                    Some(Stmt::Expr(e, None)) => {
                        let (lo, hi) = rng(e.span());
                        self.edit(lo, lo, vec![Piece::Text("let r = ".into())]);
                        self.edit(hi, hi, vec![Piece::Text(";\n".into()), spec(t), Piece::Text("\nr\n".into())]);
                    }
                    _ => self.rep.lost.push(format!("{path}: no tail expression")),
                },
                ("loop", Some(b)) | ("loop_entry", Some(b)) | ("loop_exit", Some(b)) | ("before_loop", Some(b)) | ("after_loop", Some(b)) => {
                    let mut lv = Loops { found: vec![], stmt: vec![], kinds: vec![] };
                    lv.visit_block(b);
                    let n: usize = a.parse().unwrap_or(0);
                    match lv.found.get(n) {
                        None => self.rep.lost.push(format!("{path}: loop {n} not found")),
                        Some((open, close, st)) => {
                            let (lo, pre, post) = match k.as_str() {
                                "loop" => (open.0, "\n", ""),
                                "loop_entry" => (open.1, "\n", ""),
                                "loop_exit" => (close.0, "\n", ""),
                                "before_loop" => (st.0, "", "\n"),
                                _ => (st.1, "\n", ""),
                            };
                            self.edit(lo, lo, vec![Piece::Text(pre.into()), spec(t), Piece::Text(post.into())]);
                        }
                    }
                    let total = secs.iter().filter(|s| s.0 == "loop").count();
                    if total != lv.found.len() && k == "loop" {
                        self.rep.lost.push(format!("{path}: {} loops, contracts for {}", lv.found.len(), total));
                    }
                }
                ("closure", Some(b)) => {
                    let mut cv = Closures { found: vec![] };
                    cv.visit_block(b);
                    let n: usize = a.parse().unwrap_or(0);
                    match cv.found.get(n) {
                        None => self.rep.lost.push(format!("{path}: closure {n} not found")),
                        Some((plo, phi, blo, bhi, is_block)) => {
                            // text: first line is the typed header `|id: T| -> (n: U)`, the rest its contract
                            let (head, rest) = t.trim_start().split_once('\n').unwrap_or((t, ""));
                            let (open, close) = if *is_block { ("", "") } else { ("{ ", " }") };
                            self.edit(*plo, *phi, vec![Piece::Text(format!("{head}\n")), spec(rest)]);
                            self.edit(*blo, *blo, vec![Piece::Text(open.into())]);
                            self.edit(*bhi, *bhi, vec![Piece::Text(close.into())]);
                        }
                    }
                }
                ("before", Some(b)) | ("after", Some(b)) => {
                    let (name, n) = match a.split_once('#') {
                        Some((x, y)) => (x.to_string(), y.parse::<usize>().unwrap_or(0)),
                        None => (a.clone(), 0),
                    };
                    let mut cv = Calls { found: vec![], stmts: vec![], nested: false };
                    cv.visit_block(b);
                    cv.found.sort();
                    let hits: Vec<_> = cv.found.iter().filter(|f| f.1 == name).collect();
                    match hits.get(n) {
                        None => self.rep.lost.push(format!("{path}: call {name}#{n} not found")),
                        Some((_, _, st)) => {
                            let (lo, pre, post) = if k == "before" { (st.0, "", "\n") } else { (st.1, "\n", "") };
                            self.edit(lo, lo, vec![Piece::Text(pre.into()), spec(t), Piece::Text(post.into())]);
                        }
                    }
                }
                ("ghost_param", _) => {
                    // A ghost parameter, appended to the signature; it has no run-time content.
                    let at = rng(sig.paren_token.span.close()).0;
                    let sep = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " };
                    self.text(at, at, &format!("{sep}{}", t.trim()));
                }
                ("ghost_arg", Some(b)) => {
                    let mut cv = Args { found: vec![] };
                    cv.visit_block(b);
                    for (_, _, at, sep) in cv.found.iter().filter(|f| f.0 == *a) {
                        let sep = if *sep { ", " } else { "" };
                        self.text(*at, *at, &format!("{sep}{}", t.trim()));
                    }
                }
                ("hook", Some(b)) => {
                    // `f(x)` with a parameter `f` becomes `{ let hook0__ = x; SECTION f(hook0__) }`.
                    let name = map.get(a).unwrap_or(a).clone();
                    let mut cv = Args { found: vec![] };
                    cv.visit_block(b);
                    for (n, c, _, _) in &cv.found {
                        let Some(c) = c else { continue };
                        if *n != name {
                            continue;
                        }
                        let (lo, hi) = rng(c.span());
                        let mut ps = vec![Piece::Text("{ ".into())];
                        let mut al = vec![];
                        for (i, x) in c.args.iter().enumerate() {
                            let (l, h) = rng(x.span());
                            ps.push(Piece::Text(format!("let hook{i}__ = ")));
                            ps.push(Piece::Src(l, h, None));
                            ps.push(Piece::Text("; ".into()));
                            al.push(format!("hook{i}__"));
                        }
                        ps.push(Piece::Text("\n".into()));
                        ps.push(spec(t));
                        ps.push(Piece::Text(format!("\n{name}({}) }}", al.join(", "))));
                        self.edit(lo, hi, ps);
                    }
                }
                ("stop", _) | ("stop_calls", _) => {}
                _ => self.rep.lost.push(format!("{path}: cannot place section {k}")),
            }
        }
        if contract.is_some() && !opaque && VACUITY.load(std::sync::atomic::Ordering::Relaxed) {
            if let Some((_, at)) = body_open {
                self.edit(at, at, vec![Piece::Spec(path.clone(), "\nproof { assert(false); }\n".into(), 0)]);
            }
        }
        // Body rewriting.
        if let (Some(b), false) = (block, opaque) {
            let mut calls = BTreeSet::new();
            let strs = str_params(sig);
            let stop = secs.iter().find(|s| s.0 == "stop").map(|s| s.2.trim().to_string());
            let mut d = Desugar { cx: self, calls: &mut calls, n: 0, strs, stop };
            d.visit_block(b);
            self.rep.calls.insert(path, calls);
        }
        self.nested.pop();
    }
    fn module_head(&mut self, at: usize) {
        let p = self.module.clone();
        let extra = self.c.module_prelude.get(&p).cloned().unwrap_or_default();
        self.text(at, at, &format!("\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::spec::*; use crate::lem::*; use crate::st::*;\n#[allow(unused_imports)] use vstd::std_specs::cmp::*;\n{extra}"));
    }
}

fn sig_start(s: &Signature) -> usize {
    if let Some(t) = &s.constness {
        return rng(t.span()).0;
    }
    if let Some(t) = &s.asyncness {
        return rng(t.span()).0;
    }
    if let Some(t) = &s.unsafety {
        return rng(t.span()).0;
    }
    rng(s.fn_token.span()).0
}

fn quote_str(m: &Meta) -> String {
    match m {
        Meta::List(l) => l.tokens.to_string(),
        _ => String::new(),
    }
}
fn quote_use(t: &UseTree) -> String {
    match t {
        UseTree::Path(p) => format!("{}::{}", p.ident, quote_use(&p.tree)),
        UseTree::Name(n) => n.ident.to_string(),
        UseTree::Rename(n) => n.ident.to_string(),
        UseTree::Glob(_) => "*".into(),
        UseTree::Group(g) => format!("{{{}}}", g.items.iter().map(quote_use).collect::<Vec<_>>().join(",")),
    }
}

/// `PartialEq` as `#[derive]` defines it, with its specification.
fn derive_eq(it: &Item, hint: &str) -> String {
    let mut s = String::new();
    if let Item::Struct(e) = it {
        let n = &e.ident;
        let f: Vec<String> = e.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map_or(i.to_string(), |x| x.to_string())).collect();
        let all = |g: &dyn Fn(&String) -> String| if f.is_empty() { "true".to_string() } else { f.iter().map(g).collect::<Vec<_>>().join(" && ") };
        let eq = all(&|x| format!("self.{x} == other.{x}"));
        let _ = write!(
            s,
            "\n\nimpl PartialEq for {n} {{\n    fn eq(&self, other: &Self) -> bool {{ proof {{ {hint} }} {eq} }}\n}}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{\n    open spec fn obeys_eq_spec() -> bool {{ true }}\n    open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }}\n}}\n"
        );
    }
    if let Item::Enum(e) = it {
        let g: Vec<String> = e.generics.type_params().map(|p| p.ident.to_string()).collect();
        let n = &e.ident;
        let gd = g.iter().map(|x| format!("{x}: vstd::std_specs::cmp::PartialEqSpec")).collect::<Vec<_>>().join(", ");
        let gu = g.join(", ");
        let (gd, gu) = if g.is_empty() { (String::new(), String::new()) } else { (format!("<{gd}>"), format!("<{gu}>")) };
        let mut arms = String::new();
        let mut sarms = String::new();
        for v in &e.variants {
            let k = v.fields.len();
            let (a, b): (Vec<String>, Vec<String>) = (0..k).map(|i| (format!("a{i}"), format!("b{i}"))).unzip();
            let pa = if k == 0 { format!("{n}::{}", v.ident) } else { format!("{n}::{}({})", v.ident, a.join(", ")) };
            let pb = if k == 0 { format!("{n}::{}", v.ident) } else { format!("{n}::{}({})", v.ident, b.join(", ")) };
            let cond = if k == 0 { "true".to_string() } else { a.iter().zip(&b).map(|(x, y)| format!("(*{x} == *{y})")).collect::<Vec<_>>().join(" && ") };
            let scond = if k == 0 { "true".to_string() } else { a.iter().zip(&b).map(|(x, y)| format!("{x}.eq_spec(&{y})")).collect::<Vec<_>>().join(" && ") };
            let _ = writeln!(arms, "            ({pa}, {pb}) => {cond},");
            let _ = writeln!(sarms, "            ({pa}, {pb}) => {scond},");
        }
        let obeys = if g.is_empty() { "true".to_string() } else { g.iter().map(|x| format!("{x}::obeys_eq_spec()")).collect::<Vec<_>>().join(" && ") };
        let _ = write!(
            s,
            "\n\nimpl{gd} PartialEq for {n}{gu} {{\n    fn eq(&self, other: &Self) -> bool {{\n        match (self, other) {{\n{arms}            _ => false,\n        }}\n    }}\n}}\nimpl{gd} vstd::std_specs::cmp::PartialEqSpecImpl for {n}{gu} {{\n    open spec fn obeys_eq_spec() -> bool {{ {obeys} }}\n    open spec fn eq_spec(&self, other: &Self) -> bool {{\n        match (*self, *other) {{\n{sarms}            _ => false,\n        }}\n    }}\n}}\n"
        );
    }
    s
}

struct Locals {
    names: Vec<String>,
}
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) && !self.names.contains(&n) {
            self.names.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

struct Loops {
    found: Vec<((usize, usize), (usize, usize), (usize, usize))>,
    stmt: Vec<(usize, usize)>,
    kinds: Vec<&'static str>,
}
impl Loops {
    fn add(&mut self, b: &Block) {
        let st = self.stmt.last().copied().unwrap_or((0, 0));
        self.found.push((rng(b.brace_token.span.open()), rng(b.brace_token.span.close()), st));
    }
}
impl<'a> Visit<'a> for Loops {
    fn visit_stmt(&mut self, s: &'a Stmt) {
        self.stmt.push(rng(s.span()));
        visit::visit_stmt(self, s);
        self.stmt.pop();
    }
    fn visit_expr_while(&mut self, e: &'a ExprWhile) {
        self.kinds.push(if matches!(*e.cond, Expr::Let(_)) { "while-let" } else { "while" });
        self.add(&e.body);
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
        self.kinds.push("for");
        self.add(&e.body);
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a ExprLoop) {
        self.kinds.push("loop");
        self.add(&e.body);
        visit::visit_expr_loop(self, e);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

const INLINED: &[&str] = &["map", "map_or", "map_or_else", "and_then", "filter", "unwrap_or_else", "or_else", "ok_or_else", "is_some_and", "is_none_or"];

struct Closures {
    found: Vec<(usize, usize, usize, usize, bool)>,
}
impl<'a> Visit<'a> for Closures {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        // Closures that are inlined are not counted.
        self.visit_expr(&m.receiver);
        let inl = INLINED.contains(&m.method.to_string().as_str());
        for a in &m.args {
            match a {
                Expr::Closure(c) if inl && !escapes(&c.body) => self.visit_expr(&c.body),
                _ => self.visit_expr(a),
            }
        }
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        let lo = rng(c.span()).0;
        let hi = match &c.output {
            ReturnType::Type(_, t) => rng(t.span()).1,
            _ => rng(c.or2_token.span()).1,
        };
        let (blo, bhi) = rng(c.body.span());
        self.found.push((lo, hi, blo, bhi, matches!(*c.body, Expr::Block(_))));
        visit::visit_expr_closure(self, c);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

struct Calls {
    found: Vec<(usize, String, (usize, usize))>,
    stmts: Vec<(usize, usize)>,
    nested: bool,
}
impl<'a> Visit<'a> for Calls {
    fn visit_block(&mut self, b: &'a Block) {
        for s in &b.stmts {
            if matches!(s, Stmt::Item(_)) {
                continue;
            }
            self.stmts.push(rng(s.span()));
            self.visit_stmt(s);
            self.stmts.pop();
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.found.push((rng(m.method.span()).0, m.method.to_string(), self.stmts.last().copied().unwrap_or((0, 0))));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, m: &'a ExprCall) {
        if let Expr::Path(p) = &*m.func {
            if let Some(s) = p.path.segments.last() {
                self.found.push((rng(s.ident.span()).0, s.ident.to_string(), self.stmts.last().copied().unwrap_or((0, 0))));
            }
        }
        visit::visit_expr_call(self, m);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if let Some(s) = m.path.segments.last() {
            self.found.push((rng(s.ident.span()).0, format!("{}!", s.ident), self.stmts.last().copied().unwrap_or((0, 0))));
        }
        visit::visit_macro(self, m);
    }
    fn visit_expr_assign(&mut self, m: &'a ExprAssign) {
        // assignments are addressed as `=field` / `=name`
        let n = match &*m.left {
            Expr::Field(f) => match &f.member {
                Member::Named(i) => format!("={i}"),
                _ => "=?".into(),
            },
            Expr::Path(p) => format!("={}", p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()),
            _ => "=*".into(),
        };
        self.found.push((rng(m.eq_token.span()).0, n, self.stmts.last().copied().unwrap_or((0, 0))));
        visit::visit_expr_assign(self, m);
    }
    fn visit_expr_return(&mut self, m: &'a ExprReturn) {
        self.found.push((rng(m.return_token.span()).0, "return".into(), self.stmts.last().copied().unwrap_or((0, 0))));
        visit::visit_expr_return(self, m);
    }
    fn visit_expr_break(&mut self, m: &'a ExprBreak) {
        self.found.push((rng(m.break_token.span()).0, "break".into(), self.stmts.last().copied().unwrap_or((0, 0))));
        visit::visit_expr_break(self, m);
    }
    fn visit_expr_continue(&mut self, m: &'a ExprContinue) {
        self.found.push((rng(m.continue_token.span()).0, "continue".into(), self.stmts.last().copied().unwrap_or((0, 0))));
        visit::visit_expr_continue(self, m);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

/// Calls with the position of their closing parenthesis, and whether a comma must precede a further argument.
struct Args<'a> {
    found: Vec<(String, Option<&'a ExprCall>, usize, bool)>,
}
impl<'a> Visit<'a> for Args<'a> {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.found.push((m.method.to_string(), None, rng(m.paren_token.span.close()).0, !m.args.is_empty() && !m.args.trailing_punct()));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, m: &'a ExprCall) {
        if let Expr::Path(p) = &*m.func {
            if let Some(s) = p.path.segments.last() {
                let one = p.path.segments.len() == 1;
                self.found.push((s.ident.to_string(), if one { Some(m) } else { None }, rng(m.paren_token.span.close()).0, !m.args.is_empty() && !m.args.trailing_punct()));
            }
        }
        visit::visit_expr_call(self, m);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

/// Whether `?` or `return` occurs directly in the expression.
fn escapes(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn stmt_attrs(s: &Stmt) -> &[Attribute] {
    match s {
        Stmt::Macro(m) => &m.attrs,
        Stmt::Expr(e, _) => match e {
            Expr::Assign(x) => &x.attrs,
            Expr::Binary(x) => &x.attrs,
            Expr::Block(x) => &x.attrs,
            Expr::Call(x) => &x.attrs,
            Expr::ForLoop(x) => &x.attrs,
            Expr::If(x) => &x.attrs,
            Expr::Macro(x) => &x.attrs,
            Expr::Match(x) => &x.attrs,
            Expr::MethodCall(x) => &x.attrs,
            Expr::While(x) => &x.attrs,
            _ => &[],
        },
        _ => &[],
    }
}

/// Parameters of type `&str`.
fn str_params(sig: &Signature) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) {
                if matches!(&*r.elem, Type::Path(p) if p.path.is_ident("str")) {
                    s.insert(i.ident.to_string());
                }
            }
        }
    }
    s
}

/// Format strings that show one argument without options: name of an inlined argument, and whether it is `Debug`.
fn plain_format(s: &str) -> Option<(Option<String>, bool)> {
    let s = s.strip_prefix('{')?.strip_suffix('}')?;
    let (n, d) = match s.strip_suffix(":?") {
        Some(n) => (n, true),
        None => (s, false),
    };
    if !n.chars().all(|c| c.is_alphanumeric() || c == '_') || n.chars().next().is_some_and(|c| c.is_numeric()) {
        return None;
    }
    Some((if n.is_empty() { None } else { Some(n.to_string()) }, d))
}

struct Desugar<'x, 'c> {
    cx: &'x mut FileCx<'c>,
    calls: &'x mut BTreeSet<String>,
    n: usize,
    /// Names known to be of type `&str`.
    strs: BTreeSet<String>,
    /// Where a panic is allowed, in a copy for calls that end in a panic.
    stop: Option<String>,
}
impl Desugar<'_, '_> {
    fn src(e: impl Spanned) -> Piece {
        let (lo, hi) = rng(e.span());
        Piece::Src(lo, hi, None)
    }
    fn t(s: &str) -> Piece {
        Piece::Text(s.to_string())
    }
    fn mac(&mut self, m: &Macro, span: Span, semi: bool) -> bool {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let (lo, hi) = rng(span);
        let sc = if semi { ";" } else { "" };
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                match &self.stop {
                    Some(p) => self.cx.text(lo, hi, &format!("crate::vt::rt_stop(Ghost({p})){sc}")),
                    None => self.cx.text(lo, hi, &format!("crate::vt::rt_panic(){sc}")),
                };
                true
            }
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let args = match m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                    Ok(a) => a,
                    Err(_) => return false,
                };
                // Whether the argument is evaluated at all depends on the build.
                let (head, sc) = if name.starts_with("debug") { ("if crate::vt::debug_checks() { ", format!("; }}{sc}")) } else { ("", sc.to_string()) };
                let end = match &self.stop {
                    Some(p) => format!(", Ghost({p})){sc}"),
                    None => format!("){sc}"),
                };
                let mut ps = vec![Self::t(head), Self::t(if self.stop.is_some() { "crate::vt::rt_assert_stop(" } else { "crate::vt::rt_assert(" })];
                if name.ends_with("_eq") || name.ends_with("_ne") {
                    if args.len() < 2 {
                        return false;
                    }
                    ps.push(Self::t(if name.ends_with("_eq") { "(" } else { "!((" }));
                    ps.push(Self::src(&args[0]));
                    ps.push(Self::t(") == ("));
                    ps.push(Self::src(&args[1]));
                    ps.push(Self::t(if name.ends_with("_eq") { ")" } else { "))" }));
                    self.visit_expr_any(&args[0]);
                    self.visit_expr_any(&args[1]);
                } else {
                    ps.push(Self::src(&args[0]));
                    self.visit_expr_any(&args[0]);
                }
                ps.push(Self::t(&end));
                self.cx.edit(lo, hi, ps);
                true
            }
            "cfg" if m.tokens.to_string() == "debug_assertions" => {
                self.cx.text(lo, hi, &format!("crate::vt::debug_checks(){sc}"));
                true
            }
            // `write!(w, "{}", x)`: one argument, shown without options.
            "write" if self.cx.c.fmt.contains(&self.cx.module) => {
                let args: Vec<Expr> = match m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                    Ok(a) => a.into_iter().collect(),
                    Err(_) => return false,
                };
                let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = args.get(1) else { return false };
                let (x, debug) = match (plain_format(&f.value()), args.len()) {
                    (Some((None, d)), 3) => (Self::src(&args[2]), d),
                    (Some((Some(n), d)), 2) => (Self::t(&n), d),
                    _ => return false,
                };
                let k = if debug { "write_debug" } else { "write_display" };
                self.cx.edit(lo, hi, vec![Self::t(&format!("crate::vt::fmt::{k}(&mut *")), Self::src(&args[0]), Self::t(", &"), x, Self::t(&format!("){sc}"))]);
                self.visit_expr_any(&args[0]);
                if args.len() > 2 {
                    self.visit_expr_any(&args[2]);
                }
                true
            }
            _ => false,
        }
    }
    fn is_str(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.strs.contains(&i.to_string())))
    }
    /// `&s[..b]` and `&s[a..]` of a string.
    fn str_slice<'b>(&self, r: &'b Expr) -> Option<(&'static str, &'b Expr, &'b Expr)> {
        let Expr::Reference(ExprReference { mutability: None, expr, .. }) = r else { return None };
        let Expr::Index(ix) = &**expr else { return None };
        let Expr::Range(rg) = &*ix.index else { return None };
        if !self.is_str(&ix.expr) {
            return None;
        }
        match (&rg.start, &rg.end, &rg.limits) {
            (None, Some(e), RangeLimits::HalfOpen(_)) => Some(("str_to", &ix.expr, e)),
            (Some(e), None, _) => Some(("str_from", &ix.expr, e)),
            _ => None,
        }
    }
    fn visit_expr_any(&mut self, e: &Expr) {
        // lifetimes: expressions parsed from macro tokens are visited the same way
        let e2 = e.clone();
        let b: &'static Expr = Box::leak(Box::new(e2));
        self.visit_expr(b);
    }
}
impl<'a> Visit<'a> for Desugar<'_, '_> {
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_attribute(&mut self, a: &'a Attribute) {
        if a.path().is_ident("cfg") {
            return;
        }
        let (lo, hi) = rng(a.span());
        self.cx.text(lo, hi, "");
    }
    fn visit_stmt(&mut self, s: &'a Stmt) {
        // Code that only some builds have.
        for a in stmt_attrs(s).iter().filter(|a| a.path().is_ident("cfg")) {
            let (lo, hi) = rng(a.span());
            let c = match quote_str(&a.meta).replace(' ', "").as_str() {
                "debug_assertions" => "if crate::vt::debug_checks() {",
                "not(debug_assertions)" => "if !crate::vt::debug_checks() {",
                _ => continue,
            };
            if !matches!(s, Stmt::Local(_) | Stmt::Item(_)) {
                let end = rng(s.span()).1;
                self.cx.text(lo, hi, c);
                self.cx.text(end, end, " }");
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        for (i, p) in c.inputs.iter().enumerate() {
            if let Pat::Wild(w) = p {
                let (lo, hi) = rng(w.span());
                self.cx.text(lo, hi, &format!("w{i}__"));
            }
        }
        visit::visit_expr_closure(self, c);
    }
    fn visit_local(&mut self, l: &'a Local) {
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if self.str_slice(&init.expr).is_some() || self.is_str(&init.expr) {
                self.strs.insert(i.ident.to_string());
            } else {
                self.strs.remove(&i.ident.to_string());
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_reference(&mut self, r: &'a ExprReference) {
        let whole = Expr::Reference(r.clone());
        if let Some((f, _, _)) = self.str_slice(&whole) {
            let Expr::Index(ix) = &*r.expr else { unreachable!() };
            let Expr::Range(rg) = &*ix.index else { unreachable!() };
            let e: &'a Expr = rg.start.as_deref().or(rg.end.as_deref()).unwrap();
            let (lo, hi) = rng(r.span());
            self.cx.edit(lo, hi, vec![Self::t(&format!("crate::vt::{f}(")), Self::src(&ix.expr), Self::t(", "), Self::src(e), Self::t(")")]);
            self.visit_expr(e);
            return;
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
        let lo = rng(l.expr.span()).0;
        self.cx.text(lo, lo, "it__: ");
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_stmt_macro(&mut self, m: &'a StmtMacro) {
        let semi = m.semi_token.is_some();
        if !self.mac(&m.mac, m.span(), semi) {
            visit::visit_stmt_macro(self, m);
        }
    }
    fn visit_expr_macro(&mut self, m: &'a ExprMacro) {
        if !self.mac(&m.mac, m.span(), false) {
            visit::visit_expr_macro(self, m);
        }
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.segments.len() == 1 {
            let n = p.path.segments[0].ident.to_string();
            for m in self.cx.nested.iter().rev() {
                if let Some(x) = m.get(&n) {
                    let x = x.clone();
                    let (lo, hi) = rng(p.path.segments[0].ident.span());
                    self.cx.text(lo, hi, &x);
                    break;
                }
            }
        }
        if let Some(s) = p.path.segments.last() {
            let mut v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if v.len() > 2 {
                v = v[v.len() - 2..].to_vec();
            }
            let _ = s;
            self.calls.insert(v.join("::"));
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let name = m.method.to_string();
        self.calls.insert(format!(".{name}"));
        let (lo, hi) = rng(m.span());
        let clo = |e: &'a Expr| -> Option<&'a ExprClosure> {
            match e {
                Expr::Closure(c) if !escapes(&c.body) => Some(c),
                _ => None,
            }
        };
        self.n += 1;
        let arg = |i: usize| m.args.iter().nth(i);
        let done = match (name.as_str(), m.args.len()) {
            ("expect", 1) | ("unwrap", 0) if self.stop.is_some() => {
                let p = self.stop.clone().unwrap();
                Some((
                    vec![Self::t("(match "), Self::src(&m.receiver), Self::t(&format!(" {{ v__ => {{ if crate::vt::Fails::fails(&v__) {{ crate::vt::rt_stop(Ghost({p})); }} v__.unwrap() }} }})"))],
                    vec![],
                ))
            }
            ("len", 0) if self.is_str(&m.receiver) => Some((vec![Self::t("crate::vt::str_len("), Self::src(&m.receiver), Self::t(")")], vec![])),
            ("find", 1) if self.is_str(&m.receiver) && matches!(arg(0), Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))) => Some((
                vec![Self::t("crate::vt::str_find("), Self::src(&m.receiver), Self::t(", "), Self::src(&m.args[0]), Self::t(")")],
                vec![],
            )),
            ("map_or", 2) => arg(1).and_then(clo).map(|c| {
                (
                    vec![Self::t("(match ("), Self::src(&m.receiver), Self::t(", "), Self::src(&m.args[0]), Self::t(") { (Some("), Self::src(&c.inputs[0]), Self::t("), _) => { "), Self::src(&c.body), Self::t(" }, (None, d__) => d__ })")],
                    vec![&m.args[0], &*c.body],
                )
            }),
            ("map", 1) if matches!(arg(0), Some(Expr::Path(p)) if p.path.is_ident("Self")) => Some((
                vec![Self::t("(match "), Self::src(&m.receiver), Self::t(" { Some(v__) => Some(Self(v__)), None => None })")],
                vec![],
            )),
            ("map", 1) => arg(0).and_then(clo).map(|c| {
                (
                    vec![Self::t("(match "), Self::src(&m.receiver), Self::t(" { Some("), Self::src(&c.inputs[0]), Self::t(") => Some({ "), Self::src(&c.body), Self::t(" }), None => None })")],
                    vec![&*c.body],
                )
            }),
            ("and_then", 1) => arg(0).and_then(clo).map(|c| {
                (
                    vec![Self::t("(match "), Self::src(&m.receiver), Self::t(" { Some("), Self::src(&c.inputs[0]), Self::t(") => { "), Self::src(&c.body), Self::t(" }, None => None })")],
                    vec![&*c.body],
                )
            }),
            ("is_some_and", 1) => arg(0).and_then(clo).map(|c| {
                (
                    vec![Self::t("(match "), Self::src(&m.receiver), Self::t(" { Some("), Self::src(&c.inputs[0]), Self::t(") => { "), Self::src(&c.body), Self::t(" }, None => false })")],
                    vec![&*c.body],
                )
            }),
            ("unwrap_or_else", 1) => arg(0).and_then(clo).filter(|c| c.inputs.is_empty()).map(|c| {
                (
                    vec![Self::t("(match "), Self::src(&m.receiver), Self::t(" { Some(v__) => v__, None => { "), Self::src(&c.body), Self::t(" } })")],
                    vec![&*c.body],
                )
            }),
            ("or_else", 1) => arg(0).and_then(clo).filter(|c| c.inputs.is_empty()).map(|c| {
                (
                    vec![Self::t("(match "), Self::src(&m.receiver), Self::t(" { Some(v__) => Some(v__), None => { "), Self::src(&c.body), Self::t(" } })")],
                    vec![&*c.body],
                )
            }),
            ("filter", 1) => arg(0).and_then(clo).map(|c| {
                (
                    vec![Self::t("(match "), Self::src(&m.receiver), Self::t(" { Some(v__) => { if { let "), Self::src(&c.inputs[0]), Self::t(" = &v__; "), Self::src(&c.body), Self::t(" } { Some(v__) } else { None } }, None => None })")],
                    vec![&*c.body],
                )
            }),
            ("zip", 1) => Some((
                vec![Self::t("(match ("), Self::src(&m.receiver), Self::t(", "), Self::src(&m.args[0]), Self::t(") { (Some(l__), Some(r__)) => Some((l__, r__)), _ => None })")],
                vec![&m.args[0]],
            )),
            ("and", 1) => Some((
                vec![Self::t("(match ("), Self::src(&m.receiver), Self::t(", "), Self::src(&m.args[0]), Self::t(") { (Some(_), o__) => o__, _ => None })")],
                vec![&m.args[0]],
            )),
            _ => None,
        };
        match done {
            Some((ps, inner)) => {
                self.cx.edit(lo, hi, ps);
                self.visit_expr(&m.receiver);
                for e in inner {
                    self.visit_expr(e);
                }
            }
            None => visit::visit_expr_method_call(self, m),
        }
    }
}

fn render(cx: &FileCx, out: &mut Out, fi: i64, lo: usize, hi: usize, skip: &BTreeSet<usize>, kids: &BTreeMap<usize, Vec<Child>>, marks: &mut Vec<(String, usize, usize, bool)>) {
    let mut es: Vec<&Edit> = cx
        .edits
        .iter()
        .enumerate()
        .filter(|(i, e)| !skip.contains(i) && e.lo >= lo && e.hi <= hi)
        .filter(|(_, e)| !(e.lo == e.hi && (e.lo == lo || e.lo == hi) && !(lo == 0 || hi == cx.src.len()) && false))
        .map(|(_, e)| e)
        .collect();
    let idx = |e: &Edit| cx.edits.iter().position(|x| std::ptr::eq(x, e)).unwrap();
    es.sort_by(|a, b| a.lo.cmp(&b.lo).then((a.hi != a.lo).cmp(&(b.hi != b.lo))).then(b.hi.cmp(&a.hi)).then(a.ord.cmp(&b.ord)));
    let mut p = lo;
    let line_of = |o: usize| cx.src[..o].matches('\n').count() + 1;
    for e in es {
        if e.lo < p {
            continue;
        }
        // A deletion or replacement swallows what is inside it.
        if e.lo > p {
            out.push(&cx.src[p..e.lo], fi, line_of(p));
        }
        let ei = idx(e);
        for pc in &e.pieces {
            match pc {
                Piece::Text(t) => out.push(t, -1, 0),
                Piece::Spec(path, t, l) => {
                    let a = out.lines.len();
                    out.push(t, -2, *l);
                    marks.push((path.clone(), a, out.lines.len(), true));
                }
                Piece::Src(a, b, ex) => {
                    let mut sk = skip.clone();
                    sk.insert(ei);
                    if let Some(x) = ex {
                        sk.insert(*x);
                    }
                    // zero-width edits at the boundaries belong to the outside,
                    // except for hoisted functions
                    if ex.is_none() {
                        for (i, z) in cx.edits.iter().enumerate() {
                            if z.lo == z.hi && (z.lo == *a || z.lo == *b) && z.lo == lo {
                                let _ = i;
                            }
                        }
                    }
                    let start = out.lines.len();
                    render(cx, out, fi, *a, *b, &sk, kids, marks);
                    if let Some((path, _, _)) = cx.rep.fn_ranges.iter().find(|(_, l, h)| l == a && h == b) {
                        marks.push((path.clone(), start, out.lines.len(), false));
                    }
                }
            }
        }
        if let Some(ch) = kids.get(&ei) {
            for c in ch {
                out.push(&format!("pub mod {} {{\n", c.name), -1, 0);
                c.emit(out, marks);
                out.push("\n}\n", -1, 0);
            }
        }
        p = e.hi;
    }
    if p < hi {
        out.push(&cx.src[p..hi], fi, line_of(p));
    }
}

struct Child<'c> {
    name: String,
    cx: FileCx<'c>,
    fi: i64,
    kids: BTreeMap<usize, Vec<Child<'c>>>,
}
impl Child<'_> {
    fn emit(&self, out: &mut Out, marks: &mut Vec<(String, usize, usize, bool)>) {
        render(&self.cx, out, self.fi, 0, self.cx.src.len(), &BTreeSet::new(), &self.kids, marks);
    }
}

fn load<'c>(root: &str, rel: &str, module: &str, name: &str, c: &'c Contracts, base: &'c BTreeMap<String, Vec<String>>, files: &mut Vec<String>) -> std::result::Result<Child<'c>, String> {
    let path = format!("{root}/{rel}");
    let src = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
    let (src, lines) = expand::expand(&src, c.append.get(module).map_or("", |s| s)).map_err(|e| format!("{path}: {e}"))?;
    let (src, lines) = if c.derives.contains(module) {
        let mut lines = lines;
        (expand::derives(&src, &mut lines).map_err(|e| format!("{path}: {e}"))?, lines)
    } else {
        (src, lines)
    };
    let mut lines = lines;
    let src = inline::inline(&src, &HELPERS.lock().unwrap(), &mut lines).map_err(|e| format!("{path}: {e}"))?;
    let src = copies::copies(&src, module, c, &mut lines).map_err(|e| format!("{path}: {e}"))?;
    LINES.lock().unwrap().push(lines);
    let file = syn::parse_file(&src).map_err(|e| format!("{path}: {e}"))?;
    let fi = files.len() as i64;
    files.push(rel.to_string());
    let mut cx = FileCx {
        module: module.to_string(),
        src,
        edits: vec![],
        c,
        base,
        rep: Report::default(),
        children: vec![],
        ty: String::new(),
        fnstack: vec![],
        hoist_at: 0,
        nested: vec![],
        drop_stmts: BTreeSet::new(),
    };
    cx.del_attrs(&file.attrs);
    cx.module_head(0);
    for it in &file.items {
        cx.item(it);
    }
    // inner doc comments must not remain before the prelude
    let mut kids: BTreeMap<usize, Vec<Child>> = BTreeMap::new();
    let children = std::mem::take(&mut cx.children);
    for (m, _, _, e) in children {
        let dir = rel.trim_end_matches(".rs");
        let dir = if rel == "src/lib.rs" { "src".to_string() } else if let Some(d) = dir.strip_suffix("/mod") { d.to_string() } else { dir.to_string() };
        let cand = [format!("{dir}/{m}.rs"), format!("{dir}/{m}/mod.rs")];
        let f = cand.iter().find(|f| std::path::Path::new(&format!("{root}/{f}")).exists()).ok_or(format!("module {m} of {rel} not found"))?;
        let mp = format!("{module}::{m}").trim_start_matches("::").to_string();
        kids.entry(e).or_default().push(load(root, f, &mp, &m, c, base, files)?);
    }
    Ok(Child { name: name.to_string(), cx, fi, kids })
}

fn collect(c: &Child, rep: &mut Report) {
    rep.used.extend(c.cx.rep.used.iter().cloned());
    rep.uncontracted.extend(c.cx.rep.uncontracted.iter().cloned());
    rep.lost.extend(c.cx.rep.lost.iter().cloned());
    rep.renamed.extend(c.cx.rep.renamed.iter().cloned());
    rep.reshaped.extend(c.cx.rep.reshaped.iter().cloned());
    rep.fns.extend(c.cx.rep.fns.clone());
    rep.calls.extend(c.cx.rep.calls.clone());
    for k in c.kids.values().flatten() {
        collect(k, rep);
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // treena-extract REPO CONTRACT_DIR OUT.rs OUT.json [--names]
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: treena-extract REPO CONTRACT_DIR OUT.rs OUT.json [--names]");
        std::process::exit(2);
    }
    match run(&a) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("extraction failed: {e}");
            std::process::exit(3);
        }
    }
}

fn run(a: &[String]) -> std::result::Result<(), String> {
    if let Ok(t) = std::env::var("OPAQUE") {
        OPAQUE.lock().unwrap().extend(t.split(',').filter(|x| !x.is_empty()).map(String::from));
    }
    let (root, cdir, out_rs, out_json) = (&a[1], &a[2], &a[3], &a[4]);
    if a.get(5).map(|s| s.as_str()) == Some("--vacuity") {
        VACUITY.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let mut vcs: Vec<String> = vec![];
    let mut specs: Vec<String> = vec![];
    for e in std::fs::read_dir(cdir).map_err(|e| e.to_string())? {
        let p = e.map_err(|e| e.to_string())?.path().to_string_lossy().to_string();
        if p.ends_with(".vc") {
            vcs.push(p);
        } else if p.ends_with(".rs") {
            specs.push(p);
        }
    }
    vcs.sort();
    specs.sort();
    let c = contracts::read(&vcs)?;
    let mut base = BTreeMap::new();
    let names_file = format!("{cdir}/names.txt");
    if a.get(5).map(|s| s.as_str()) != Some("--names") {
        if let Ok(t) = std::fs::read_to_string(&names_file) {
            for l in t.lines() {
                if let Some((p, n)) = l.split_once(": ") {
                    let (n, k) = n.split_once(" | ").unwrap_or((n, ""));
                    KINDS.lock().unwrap().insert(p.to_string(), k.split_whitespace().map(String::from).collect());
                    base.insert(p.to_string(), n.split_whitespace().map(String::from).collect::<Vec<_>>());
                }
            }
        }
    }
    if !base.is_empty() {
        let names: BTreeSet<String> = base.keys().map(|p: &String| p.rsplit("::").next().unwrap().to_string()).collect();
        *HELPERS.lock().unwrap() = inline::helpers(root, &|p| base.contains_key(p), &names);
    }
    let mut files = vec![];
    let top = load(root, "src/lib.rs", "", "crate", &c, &base, &mut files)?;
    let mut out = Out { text: String::new(), lines: vec![] };
    let mut marks = vec![];
    out.push("#![feature(allocator_api, const_destruct, nonzero_internals)]\n#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, non_shorthand_field_patterns, unused_parens, unused_braces)]\nextern crate alloc;\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n", -1, 0);
    for s in &specs {
        let t = std::fs::read_to_string(s).map_err(|e| e.to_string())?;
        let stem = std::path::Path::new(s).file_stem().unwrap().to_string_lossy().to_string();
        let fi = files.len() as i64;
        files.push(s.clone());
        out.push(&format!("\n// ---- {s}\n"), -1, 0);
        let st = out.lines.len();
        out.push(&t, fi, 1);
        marks.push((format!("spec:{stem}"), st, out.lines.len(), false));
    }
    out.push("\n// ---- extracted source\n", -1, 0);
    top.emit(&mut out, &mut marks);
    out.push("\n}\nfn main() {}\n", -1, 0);
    std::fs::write(out_rs, &out.text).map_err(|e| e.to_string())?;

    let mut rep = Report::default();
    collect(&top, &mut rep);
    if a.get(5).map(|s| s.as_str()) == Some("--names") {
        let mut t = String::new();
        for (p, n) in &rep.fns {
            t.push_str(&format!("{p}: {n}\n"));
        }
        std::fs::write(&names_file, t).map_err(|e| e.to_string())?;
    }
    // Function of each output line, from source ranges.
    let mut fnlines: Vec<(String, usize, usize)> = vec![];
    fn rec(c: &Child, out: &Out, v: &mut Vec<(String, usize, usize)>) {
        for (p, lo, hi) in &c.cx.rep.fn_ranges {
            let l1 = c.cx.src[..*lo].matches('\n').count() + 1;
            let l2 = c.cx.src[..*hi].matches('\n').count() + 1;
            let ls: Vec<usize> = out.lines.iter().enumerate().filter(|(_, (f, l))| *f == c.fi && *l >= l1 && *l <= l2).map(|(i, _)| i + 1).collect();
            if let (Some(a), Some(b)) = (ls.first(), ls.last()) {
                v.push((p.clone(), *a, *b));
            }
        }
        for k in c.kids.values().flatten() {
            rec(k, out, v);
        }
    }
    rec(&top, &out, &mut fnlines);
    let lost: Vec<String> = rep.lost.clone();
    let unmatched: Vec<String> = c.fns.keys().filter(|k| !rep.used.contains(*k)).cloned().collect();
    let mut j = String::from("{\n");
    let arr = |v: &mut dyn Iterator<Item = String>| format!("[{}]", v.map(|s| js(&s)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "\"files\": {},\n", arr(&mut files.iter().cloned()));
    let _ = write!(j, "\"renamed\": {},\n", arr(&mut rep.renamed.iter().cloned()));
    let _ = write!(j, "\"reshaped\": {},\n", arr(&mut rep.reshaped.iter().cloned()));
    let _ = write!(j, "\"lost\": {},\n", arr(&mut lost.iter().cloned()));
    let _ = write!(j, "\"unmatched_contracts\": {},\n", arr(&mut unmatched.iter().cloned()));
    let _ = write!(j, "\"uncontracted\": {},\n", arr(&mut rep.uncontracted.iter().cloned()));
    let _ = write!(j, "\"contracted\": {},\n", arr(&mut rep.used.iter().cloned()));
    let maps = LINES.lock().unwrap().clone();
    let _ = write!(j, "\"lines\": [{}],\n", out.lines.iter().map(|(f, l)| format!("[{f},{}]", if *f < 0 { *l } else { maps.get(*f as usize).and_then(|m| m.get(l.wrapping_sub(1))).copied().unwrap_or(*l) })).collect::<Vec<_>>().join(","));
    let _ = write!(
        j,
        "\"specs\": [{}],\n",
        marks.iter().map(|(p, a, b, s)| format!("[{}, {a}, {b}, {s}]", js(p))).collect::<Vec<_>>().join(", ")
    );
    // Innermost function of each output line.
    let mut line_fn = vec![-1i64; out.lines.len()];
    let index: BTreeMap<&str, i64> = fnlines.iter().enumerate().map(|(i, f)| (f.0.as_str(), i as i64)).collect();
    fn rec2(c: &Child, out: &Out, index: &BTreeMap<&str, i64>, v: &mut Vec<i64>) {
        let mut rs: Vec<(usize, usize, &str)> = c.cx.rep.fn_ranges.iter().map(|(p, lo, hi)| (c.cx.src[..*lo].matches('\n').count() + 1, c.cx.src[..*hi].matches('\n').count() + 1, p.as_str())).collect();
        rs.sort_by_key(|r| r.1 - r.0);
        for (i, (f, l)) in out.lines.iter().enumerate() {
            if *f == c.fi {
                if let Some(r) = rs.iter().find(|r| r.0 <= *l && *l <= r.1) {
                    v[i] = index.get(r.2).copied().unwrap_or(-1);
                }
            }
        }
        for k in c.kids.values().flatten() {
            rec2(k, out, index, v);
        }
    }
    rec2(&top, &out, &index, &mut line_fn);
    for (p, a, b, spec) in &marks {
        if *spec {
            for l in line_fn[*a..(*b).min(out.lines.len())].iter_mut() {
                *l = index.get(p.as_str()).copied().unwrap_or(-1);
            }
        }
    }
    for i in 1..line_fn.len() {
        if line_fn[i] < 0 && out.lines[i].0 == -1 && line_fn[i - 1] >= 0 {
            line_fn[i] = line_fn[i - 1];
        }
    }
    let _ = write!(j, "\"line_fn\": [{}],\n", line_fn.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"fns\": [{}],\n", fnlines.iter().map(|(p, a, b)| format!("[{}, {a}, {b}]", js(p))).collect::<Vec<_>>().join(", "));
    let _ = write!(
        j,
        "\"calls\": {{{}}}\n}}\n",
        rep.calls.iter().map(|(p, s)| format!("{}: {}", js(p), arr(&mut s.iter().cloned()))).collect::<Vec<_>>().join(",\n")
    );
    std::fs::write(out_json, j).map_err(|e| e.to_string())?;
    Ok(())
}
