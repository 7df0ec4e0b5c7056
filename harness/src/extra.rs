//! Builders, printing and ID ranges.
use crate::trees::*;
use crate::world::*;
use crate::*;
use treena::dynamic::{ChainTreeBuilder, Forest, NestTreeBuilder, NodeId};

// ------------------------------------------------------------ ID ranges

fn fill<Id: NodeId + Ord>(limit: usize) -> Result<(), String> {
    let mut f: Forest<Id, usize> = Forest::new();
    let mut ids: Vec<Id> = Vec::new();
    for i in 0..limit {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match i % 3 {
            0 => f.create_root(i),
            1 => f.create_insert(i, treena::dynamic::InsertAs::FirstChildOf(ids[i - 1])),
            _ => f.create_insert(i, treena::dynamic::InsertAs::LastChildOf(ids[i - 2])),
        }));
        match r {
            Ok(id) => ids.push(id),
            Err(_) => return Err(format!("creating node number {} of {} panicked", i, limit)),
        }
    }
    for i in 0..limit {
        if f.data(ids[i]) != Some(&i) {
            return Err(format!("the ID of node {} of {} refers to datum {:?}", i, limit, f.data(ids[i])));
        }
        // The order of the IDs is documented as unspecified, but it has to be one.
        if i > 0 && ids[i - 1] == ids[i] {
            return Err(format!("IDs {} and {} are equal", i - 1, i));
        }
        if i > 0 && (ids[i - 1].cmp(&ids[i]) == std::cmp::Ordering::Equal || ids[i - 1].cmp(&ids[i]) != ids[i].cmp(&ids[i - 1]).reverse()
            || ids[i - 1].partial_cmp(&ids[i]) != Some(ids[i - 1].cmp(&ids[i]))) {
            return Err(format!("the comparisons of IDs {} and {} contradict each other", i - 1, i));
        }
        if ids[i].cmp(&ids[i]) != std::cmp::Ordering::Equal {
            return Err(format!("ID {} is not equal to itself", i));
        }
    }
    let set: std::collections::HashSet<Id> = ids.iter().copied().collect();
    if set.len() != limit {
        return Err("IDs are not distinct".into());
    }
    let sorted: std::collections::BTreeSet<Id> = ids.iter().copied().collect();
    if sorted.len() != limit || ids.iter().any(|i| !sorted.contains(i)) {
        return Err("IDs are not distinct in an ordered set".into());
    }
    Ok(())
}
fn overflow<Id: NodeId>(limit: usize) -> Result<(), String> {
    let mut f: Forest<Id, usize> = Forest::new();
    let mut ids = Vec::new();
    for i in 0..limit {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.create_root(i))) {
            Ok(id) => ids.push(id),
            Err(_) => return Err(format!("creating node number {} of {} panicked", i, limit)),
        }
    }
    for n in 0..3 {
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.create_root(limit))).is_ok() {
            return Err(format!("a node beyond the documented maximum of {} nodes was created (attempt {})", limit, n));
        }
        let a = ids[0];
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.create_insert(limit, treena::dynamic::InsertAs::LastChildOf(a)))).is_ok() {
            return Err(format!("a node beyond the documented maximum of {} nodes was inserted (attempt {})", limit, n));
        }
    }
    for i in 0..limit {
        if f.data(ids[i]) != Some(&i) {
            return Err(format!("after the overflow, the ID of node {} refers to {:?}", i, f.data(ids[i])));
        }
    }
    Ok(())
}
fn ids_case(name: &str) -> Option<String> {
    guard(|| match name {
        "fill-u8" => fill::<NodeIdU8>(255),
        "fill-u16" => fill::<NodeIdU16>(65535),
        "fill-u32" => fill::<NodeIdU32>(70000),
        "fill-u64" => fill::<NodeIdU64>(70000),
        "fill-usize" => fill::<NodeIdUsize>(70000),
        "overflow-u8" => overflow::<NodeIdU8>(255),
        "overflow-u16" => overflow::<NodeIdU16>(65535),
        _ => Ok(()),
    })
}
pub fn ids(c: &mut Ctx) -> Option<Found> {
    for name in ["fill-u8", "overflow-u8", "fill-u16", "overflow-u16", "fill-u32", "fill-u64", "fill-usize"] {
        c.note_case(&|| name.to_string(), hash(&name), true);
        crate::guard::set(&c.prop, "", &[], &format!("extra ids {}\n", name));
        if let Some(msg) = ids_case(name) {
            return Some(Found { script: format!("property {}\nextra ids {}\n", c.prop, name), msg });
        }
    }
    None
}

// ------------------------------------------------------------- builders

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum B {
    Child,
    Sibling,
    Parent,
    TryParent,
    /// Through forest_mut(): a new next sibling of the current node.
    After,
    /// Through forest_mut(): a new first child of the current node.
    Under,
    /// Through forest_mut(): the tree is inserted before the last node of the other tree.
    Graft,
}
/// A chain-builder script is run in a forest that already has another tree.
fn chain_case(seq: &[B]) -> Result<(), String> {
    let mut s: Side<NodeIdUsize> = Side::new();
    for v in 0..3 {
        let id = if v == 0 { s.f.create_root(D::new(v)) } else { s.f.create_insert(D::new(v), K::First.dest(s.ids[0])) };
        s.m.root(v);
        if v > 0 {
            s.m.insert(v as usize, K::First, 0);
        }
        s.ids.push(id);
    }
    let mut m = s.m.clone();
    let root = m.root(100);
    let mut cur = root;
    let mut f = std::mem::take(&mut s.f);
    let mut ids = s.ids.clone();
    {
        let mut b = ChainTreeBuilder::new(&mut f, D::new(100));
        ids.push(b.root_id());
        if b.current_id() != b.root_id() {
            return Err("a new builder's current node is not its root".into());
        }
        for (i, &op) in seq.iter().enumerate() {
            let v = 101 + i as i64;
            match op {
                B::Child => {
                    b.child(D::new(v));
                    let n = m.root(v);
                    m.insert(n, K::Last, cur);
                    cur = n;
                    ids.push(b.current_id());
                }
                B::Sibling => {
                    if m.parent[cur].is_none() {
                        continue;
                    }
                    b.sibling(D::new(v));
                    let n = m.root(v);
                    m.insert(n, K::Next, cur);
                    cur = n;
                    ids.push(b.current_id());
                }
                B::Parent => {
                    if m.parent[cur].is_none() {
                        continue;
                    }
                    b.parent();
                    cur = m.parent[cur].unwrap();
                }
                B::After | B::Under => {
                    let k = if op == B::After { K::Next } else { K::First };
                    if op == B::After && m.parent[cur].is_none() {
                        continue;
                    }
                    let c = b.current_id();
                    ids.push(b.forest_mut().create_insert(D::new(v), k.dest(c)));
                    let n = m.root(v);
                    m.insert(n, k, cur);
                }
                B::Graft => {
                    if m.parent[root].is_some() {
                        continue;
                    }
                    let r = b.root_id();
                    b.forest_mut().insert(r, K::Prev.dest(ids[2])).map_err(|e| format!("inserting the tree elsewhere gave {:?}", e))?;
                    m.insert(root, K::Prev, 2);
                }
                B::TryParent => {
                    let r = b.try_parent().is_some();
                    if r != m.parent[cur].is_some() {
                        return Err(format!("try_parent reported {} at call {}", r, i));
                    }
                    if let Some(p) = m.parent[cur] {
                        cur = p;
                    }
                }
            }
            if b.current_id() != ids[cur] {
                return Err(format!("after call {} the current node is {:?}, expected {:?}", i, b.current_id(), ids[cur]));
            }
            if b.root_id() != ids[root] {
                return Err(format!("after call {} the root is {:?}", i, b.root_id()));
            }
            if b.forest().data(ids[cur]).map(|d| d.v) != m.data[cur] {
                return Err(format!("after call {} the current node's datum is wrong", i));
            }
        }
    }
    finish(f, ids, m)
}
fn finish(f: Forest<NodeIdUsize, D>, ids: Vec<NodeIdUsize>, m: Model) -> Result<(), String> {
    let toks = ids.iter().map(|&i| f.data(i).map_or(0, |d| d.tok)).collect();
    for i in 0..ids.len() {
        if ids[..i].contains(&ids[i]) {
            return Err(format!("node {} got an ID of an earlier node", i));
        }
    }
    let mut s = Side { f, nums: ids.iter().enumerate().map(|(i, &x)| (x, i)).collect(), ids, toks, m };
    consistent(&s)?;
    identity(&mut s)?;
    shape(&s)
}
/// A nest-builder program: per node, the list of children; a childless child is added with
/// `add_child` or with an empty closure, by turns of `leaf`.
fn nest_case(depths: &[usize], leaf: usize) -> Result<(), String> {
    let par = parents(depths);
    let n = depths.len();
    let kids: Vec<Vec<usize>> = (0..n).map(|i| (0..n).filter(|&j| par[j] == Some(i)).collect()).collect();
    let mut f: Forest<NodeIdUsize, D> = Forest::new();
    let mut m = Model::default();
    let o = f.create_root(D::new(-1));
    m.root(-1);
    let o2 = f.create_insert(D::new(-2), K::First.dest(o));
    m.root(-2);
    m.insert(1, K::First, 0);
    for i in 0..n {
        m.root(i as i64);
    }
    for i in 0..n {
        for &k in &kids[i] {
            m.kids[i + 2].push(k + 2);
            m.parent[k + 2] = Some(i + 2);
        }
    }
    let mut roots: Vec<(usize, NodeIdUsize)> = vec![];
    {
        let mut b = NestTreeBuilder::new(&mut f, D::new(0));
        roots.push((0, b.root()));
        fn go<'a>(b: &mut NestTreeBuilder<'a, NodeIdUsize, D>, i: usize, kids: &[Vec<usize>], leaf: usize, roots: &mut Vec<(usize, NodeIdUsize)>) {
            for &k in &kids[i] {
                if kids[k].is_empty() && (leaf == 0 || (leaf == 2 && k % 2 == 0)) {
                    b.add_child(D::new(k as i64));
                } else {
                    b.create_tree(D::new(k as i64), |b| {
                        roots.push((k, b.root()));
                        go(b, k, kids, leaf, roots);
                        roots.push((k, b.root()));
                    });
                }
                roots.push((i, b.root()));
            }
        }
        go(&mut b, 0, &kids, leaf, &mut roots);
        roots.push((0, b.root()));
    }
    // IDs in creation order are found through the data.
    let top = roots[0].1;
    let mut ids = vec![o, o2];
    let mut byv: Vec<Option<NodeIdUsize>> = vec![None; n];
    for ev in f.depth_first_traverse(top) {
        if let treena::dynamic::DftEvent::Open(x) = ev {
            let v = x.data().v;
            if v < 0 || v as usize >= n || byv[v as usize].is_some() {
                return Err("unexpected node in the built tree".into());
            }
            byv[v as usize] = Some(x.id());
        }
    }
    for (i, b) in byv.iter().enumerate() {
        ids.push(b.ok_or(format!("node {} is missing in the built tree", i))?);
    }
    for (i, id) in roots {
        if ids[i + 2] != id {
            return Err(format!("root() inside the closure of node {} is not that node", i));
        }
    }
    finish(f, ids, m)
}
fn guard(f: impl FnOnce() -> Result<(), String>) -> Option<String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r.err(),
        Err(e) => Some(format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
pub fn builders(c: &mut Ctx) -> Option<Found> {
    let al = [B::Child, B::Sibling, B::Parent, B::TryParent];
    let maxlen = if c.thorough { 8 } else { 6 };
    let mut check = |c: &mut Ctx, seq: &[B]| -> Option<Found> {
        c.note_case(&|| format!("{:?}", seq), hash(&seq), seq.len() > 1);
        let t: Vec<String> = seq.iter().map(|b| format!("{:?}", b)).collect();
        let tail = format!("extra chain {}\n", t.join(","));
        crate::guard::set(&c.prop, "", &[], &tail);
        guard(|| chain_case(seq)).map(|msg| Found { script: format!("property {}\n{}", c.prop, tail), msg })
    };
    for len in 0..=maxlen {
        for code in 0..4usize.pow(len as u32) {
            let seq: Vec<B> = (0..len).map(|i| al[code / 4usize.pow(i as u32) % 4]).collect();
            if let Some(f) = check(c, &seq) {
                return Some(f);
            }
        }
    }
    let all = [B::Child, B::Sibling, B::Parent, B::TryParent, B::After, B::Under, B::Graft];
    for len in 1..=(if c.thorough { 6 } else { 5 }) {
        for code in 0..7usize.pow(len as u32) {
            let seq: Vec<B> = (0..len).map(|i| all[code / 7usize.pow(i as u32) % 7]).collect();
            if seq.iter().any(|b| matches!(b, B::After | B::Under | B::Graft)) {
                if let Some(f) = check(c, &seq) {
                    return Some(f);
                }
            }
        }
    }
    let mut r = Rng::new(c.seed);
    for _ in 0..(if c.thorough { 20000 } else { 3000 }) {
        let len = 8 + r.below(40);
        let seq: Vec<B> = (0..len).map(|_| [B::Child, B::Child, B::Sibling, B::Sibling, B::Parent, B::TryParent, B::After, B::Under, B::Graft][r.below(9)]).collect();
        if let Some(f) = check(c, &seq) {
            return Some(f);
        }
    }
    // Long ones, which go deep, or wide, or both.
    for len in [70, 300, 1100] {
        for round in 0..(if c.thorough { 30 } else { 8 }) {
            let deep = round % 4;
            let seq: Vec<B> = (0..len)
                .map(|i| match (deep, r.below(16)) {
                    (_, 0) => [B::After, B::Under, B::Graft, B::TryParent][r.below(4)],
                    (0, x) if x > 2 => B::Child,
                    (1, x) if x > 2 => B::Sibling,
                    (2, x) if x > 2 => if i * 2 < len { B::Child } else { B::Parent },
                    _ => [B::Child, B::Sibling, B::Parent, B::TryParent][r.below(4)],
                })
                .collect();
            if let Some(f) = check(c, &seq) {
                return Some(f);
            }
        }
        for b in [B::Child, B::Sibling, B::After, B::Under] {
            let mut seq = vec![B::Child];
            seq.extend(std::iter::repeat(b).take(len));
            seq.push(B::Sibling);
            seq.extend(std::iter::repeat(B::TryParent).take(len + 2));
            seq.push(B::Sibling);
            if let Some(f) = check(c, &seq) {
                return Some(f);
            }
        }
    }
    let mut nest = |c: &mut Ctx, d: &[usize], leaf: usize| -> Option<Found> {
        c.note_case(&|| format!("nest {:?} {}", d, leaf), hash(&(d, leaf)), d.len() > 1);
        let t: Vec<String> = d.iter().map(|b| b.to_string()).collect();
        let tail = format!("extra nest {} {}\n", leaf, t.join(","));
        crate::guard::set(&c.prop, "", &[], &tail);
        guard(|| nest_case(d, leaf)).map(|msg| Found { script: format!("property {}\n{}", c.prop, tail), msg })
    };
    for n in 1..=(if c.thorough { 9 } else { 7 }) {
        for d in trees(n) {
            for leaf in 0..3 {
                if let Some(f) = nest(c, &d, leaf) {
                    return Some(f);
                }
            }
        }
    }
    for sz in [15, 40, 300] {
        for d in large_shapes(&mut r, sz) {
            for leaf in 0..3 {
                if let Some(f) = nest(c, &d, leaf) {
                    return Some(f);
                }
            }
        }
    }
    None
}

// ------------------------------------------------------------- printing

struct Txt(String);
impl std::fmt::Display for Txt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.len() % 2 == 0 {
            return f.write_str(&self.0);
        }
        // In pieces, some of them empty, cut after each run of spaces.
        let mut rest = &self.0[..];
        while !rest.is_empty() {
            let n = rest.find(' ').map_or(rest.len(), |a| rest[a..].find(|c| c != ' ').map_or(rest.len(), |b| a + b));
            f.write_str(&rest[..n])?;
            f.write_str("")?;
            rest = &rest[n..];
        }
        Ok(())
    }
}
/// A text that a derived `Debug` puts together.
#[derive(Debug)]
#[allow(dead_code)]
struct Rec {
    a: usize,
    b: Option<&'static str>,
    c: [u8; 2],
}
impl std::fmt::Display for Rec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:>4}|{:<3}|", self.a, self.b.unwrap_or(""))
    }
}
impl std::fmt::Debug for Txt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // In several pieces, as derived implementations do.
        f.write_str("<")?;
        for c in self.0.chars() {
            std::fmt::Write::write_char(f, c)?;
        }
        f.write_str(">")
    }
}
fn text(i: usize, style: usize) -> String {
    match style {
        0 => format!("n{}", i),
        1 => " ".repeat(1 + i % 3) + &"x".repeat(i % 4) + " ",
        _ => ["|-- ", "`-- ", "é漢", "a b", "\t.", "0", "|   |", "k:   v", "    ", "a: b;  c", "é  漢 "][i % 11].to_string(),
    }
}
fn print_case(depths: &[usize], start: usize, style: usize) -> Result<(), String> {
    if style == 3 {
        return print_with(depths, start, &|i| Rec { a: i, b: if i % 2 == 0 { None } else { Some("x y ") }, c: [i as u8, 7] });
    }
    print_with(depths, start, &|i| Txt(text(i, style)))
}
fn print_with<T: std::fmt::Display + std::fmt::Debug>(depths: &[usize], start: usize, make: &dyn Fn(usize) -> T) -> Result<(), String> {
    let par = parents(depths);
    let n = depths.len();
    let mut f: Forest<NodeIdUsize, T> = Forest::new();
    let mut ids = vec![];
    for i in 0..n {
        let t = make(i);
        ids.push(match par[i] {
            None => f.create_root(t),
            Some(p) => f.create_insert(t, K::Last.dest(ids[p])),
        });
    }
    let kids: Vec<Vec<usize>> = (0..n).map(|i| (0..n).filter(|&j| par[j] == Some(i)).collect()).collect();
    fn go(i: usize, prefix: &str, kids: &[Vec<usize>], t: &dyn Fn(usize) -> String, out: &mut String) {
        for (k, &c) in kids[i].iter().enumerate() {
            let last = k + 1 == kids[i].len();
            out.push('\n');
            out.push_str(prefix);
            out.push_str(if last { "`-- " } else { "|-- " });
            out.push_str(&t(c));
            go(c, &format!("{}{}", prefix, if last { "    " } else { "|   " }), kids, t, out);
        }
    }
    for dbg in [false, true] {
        let t = |i: usize| if dbg { format!("{:?}", make(i)) } else { make(i).to_string() };
        let mut want = t(start);
        go(start, "", &kids, &t, &mut want);
        let gots = if dbg {
            vec![format!("{:?}", f.debug_print(ids[start])), format!("{:?}", f.node(ids[start]).unwrap().debug_print()), format!("{:?}", f.node_mut(ids[start]).unwrap().debug_print())]
        } else {
            vec![f.debug_print(ids[start]).to_string(), f.node(ids[start]).unwrap().debug_print().to_string(), f.node_mut(ids[start]).unwrap().debug_print().to_string()]
        };
        for got in gots {
            if got != want {
                return Err(format!("printed {:?}, expected {:?}", got, want));
            }
        }
    }
    Ok(())
}
pub fn printing(c: &mut Ctx) -> Option<Found> {
    let mut case = |c: &mut Ctx, d: &[usize], s: usize, style: usize| -> Option<Found> {
        c.note_case(&|| format!("print {:?} {} {}", d, s, style), hash(&(d, s, style)), d.len() > 1);
        let t: Vec<String> = d.iter().map(|b| b.to_string()).collect();
        let tail = format!("extra print {} {} {}\n", s, style, t.join(","));
        crate::guard::set(&c.prop, "", &[], &tail);
        guard(|| print_case(d, s, style)).map(|msg| Found { script: format!("property {}\n{}", c.prop, tail), msg })
    };
    for n in 1..=(if c.thorough { 9 } else { 7 }) {
        for d in trees(n) {
            for s in 0..n {
                for style in 0..4 {
                    if let Some(f) = case(c, &d, s, style) {
                        return Some(f);
                    }
                }
            }
        }
    }
    let mut r = Rng::new(c.seed);
    for sz in [15, 40, 90, 200, 400] {
        for d in large_shapes(&mut r, sz) {
            for style in 0..4 {
                for s in [0, 1, r.below(sz)] {
                    if let Some(f) = case(c, &d, s.min(d.len() - 1), style) {
                        return Some(f);
                    }
                }
            }
        }
    }
    None
}

pub fn replay(line: &str) -> Option<String> {
    let w: Vec<&str> = line.split_whitespace().collect();
    let nums = |s: &str| -> Vec<usize> { s.split(',').map(|x| x.parse().unwrap()).collect() };
    match w[0] {
        "ids" => ids_case(w[1]),
        "chain" => {
            let seq: Vec<B> = w.get(1).map_or(vec![], |t| {
                t.split(',').map(|x| match x {
                    "Child" => B::Child,
                    "Sibling" => B::Sibling,
                    "Parent" => B::Parent,
                    "After" => B::After,
                    "Under" => B::Under,
                    "Graft" => B::Graft,
                    _ => B::TryParent,
                }).collect()
            });
            guard(|| chain_case(&seq))
        }
        "nest" => guard(|| nest_case(&nums(w[2]), w[1].parse().unwrap())),
        "print" => guard(|| print_case(&nums(w[3]), w[1].parse().unwrap(), w[2].parse().unwrap())),
        _ => None,
    }
}
