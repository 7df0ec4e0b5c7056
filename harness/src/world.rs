//! Independent model of a forest, scripted operations on the real crate, and
//! the comparison of both after every operation.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use treena::dynamic::{AdoptAs, Forest, InsertAs, NodeId, StructureError};

thread_local! {
    pub static DROPS: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    static TOK: RefCell<u64> = RefCell::new(0);
}

fn new_tok() -> u64 {
    TOK.with(|t| {
        *t.borrow_mut() += 1;
        *t.borrow()
    })
}
pub fn take_drops() -> Vec<u64> {
    DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()))
}

/// Datum with a value (copied by cloning) and an instance token (fresh per instance).
#[derive(Debug)]
pub struct D {
    pub v: i64,
    pub tok: u64,
}
impl D {
    pub fn new(v: i64) -> Self {
        D { v, tok: new_tok() }
    }
}
impl Clone for D {
    fn clone(&self) -> Self {
        D::new(self.v)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut().push(self.tok));
    }
}
impl fmt::Display for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.v)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum K {
    First,
    Last,
    Prev,
    Next,
}
pub const KINDS: [K; 4] = [K::First, K::Last, K::Prev, K::Next];
impl K {
    pub fn dest<Id>(self, a: Id) -> InsertAs<Id> {
        match self {
            K::First => InsertAs::FirstChildOf(a),
            K::Last => InsertAs::LastChildOf(a),
            K::Prev => InsertAs::PreviousSiblingOf(a),
            K::Next => InsertAs::NextSiblingOf(a),
        }
    }
    pub fn adopt(self) -> AdoptAs {
        match self {
            K::First => AdoptAs::FirstChild,
            K::Last => AdoptAs::LastChild,
            K::Prev => AdoptAs::PreviousSibling,
            K::Next => AdoptAs::NextSibling,
        }
    }
    fn name(self) -> &'static str {
        match self {
            K::First => "first-child-of",
            K::Last => "last-child-of",
            K::Prev => "previous-sibling-of",
            K::Next => "next-sibling-of",
        }
    }
    fn parse(s: &str) -> K {
        *KINDS.iter().find(|k| k.name() == s).expect("kind")
    }
}

/// One scripted operation. `via` selects among the equivalent public entry points.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op {
    Root,
    Create { k: K, a: usize, via: u8 },
    Insert { n: usize, k: K, a: usize, via: u8 },
    Detach { n: usize, via: u8 },
    DetachSingle { n: usize, via: u8 },
    Remove { n: usize, via: u8 },
    RemovePanic { n: usize, at: usize, via: u8 },
    CloneLocal { n: usize, via: u8 },
    CloneForeign { n: usize, via: u8 },
    SetData { n: usize, via: u8 },
    CloneForest,
    Swap,
    /// A chain (or a star) of that many nodes in the empty forest.
    Build { star: bool, n: usize },
}
impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            Op::Root => write!(f, "create-root"),
            Op::Create { k, a, via } => write!(f, "create {} {} via {}", k.name(), a, via),
            Op::Insert { n, k, a, via } => write!(f, "insert {} {} {} via {}", n, k.name(), a, via),
            Op::Detach { n, via } => write!(f, "detach {} via {}", n, via),
            Op::DetachSingle { n, via } => write!(f, "detach-single {} via {}", n, via),
            Op::Remove { n, via } => write!(f, "remove {} via {}", n, via),
            Op::RemovePanic { n, at, via } => write!(f, "remove-panic {} {} via {}", n, at, via),
            Op::CloneLocal { n, via } => write!(f, "clone-local {} via {}", n, via),
            Op::CloneForeign { n, via } => write!(f, "clone-foreign {} via {}", n, via),
            Op::SetData { n, via } => write!(f, "set-data {} via {}", n, via),
            Op::CloneForest => write!(f, "clone-forest"),
            Op::Swap => write!(f, "swap-forests"),
            Op::Build { star, n } => write!(f, "build-{} {}", if star { "star" } else { "chain" }, n),
        }
    }
}
pub fn parse_op(s: &str) -> Option<Op> {
    let w: Vec<&str> = s.split_whitespace().filter(|x| *x != "via").collect();
    let u = |i: usize| w[i].parse::<usize>().unwrap();
    let v = |i: usize| w[i].parse::<u8>().unwrap();
    Some(match w.first().copied()? {
        "create-root" => Op::Root,
        "create" => Op::Create { k: K::parse(w[1]), a: u(2), via: v(3) },
        "insert" => Op::Insert { n: u(1), k: K::parse(w[2]), a: u(3), via: v(4) },
        "detach" => Op::Detach { n: u(1), via: v(2) },
        "detach-single" => Op::DetachSingle { n: u(1), via: v(2) },
        "remove" => Op::Remove { n: u(1), via: v(2) },
        "remove-panic" => Op::RemovePanic { n: u(1), at: u(2), via: v(3) },
        "clone-local" => Op::CloneLocal { n: u(1), via: v(2) },
        "clone-foreign" => Op::CloneForeign { n: u(1), via: v(2) },
        "set-data" => Op::SetData { n: u(1), via: v(2) },
        "clone-forest" => Op::CloneForest,
        "swap-forests" => Op::Swap,
        "build-star" => Op::Build { star: true, n: u(1) },
        "build-chain" => Op::Build { star: false, n: u(1) },
        _ => return None,
    })
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SErr {
    Loop,
    Unorderable,
    NoParent,
}
pub fn serr(e: StructureError) -> SErr {
    match e {
        StructureError::AncestorDescendantLoop => SErr::Loop,
        StructureError::UnorderableSiblings => SErr::Unorderable,
        StructureError::SiblingsWithoutParent => SErr::NoParent,
    }
}

/// What a detected discrepancy is about; decides which properties it breaks.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Aspect {
    /// A documented-valid call panicked.
    Panic,
    /// Relations disagree among themselves (independent of the model).
    Inconsistent,
    /// Wrong `Ok`/`Err`.
    Result,
    /// The shape differs from the model's after an operation.
    Shape,
    /// Liveness, ID reuse, or a datum under a wrong ID.
    Identity,
    /// Order or multiplicity of data handed to a hook or dropped.
    Hook,
    /// Handle accessors disagree with the model.
    Handle,
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub aspect: Aspect,
    pub op: Option<Op>,
    pub live: bool,
    pub refused: bool,
    pub msg: String,
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Model {
    pub parent: Vec<Option<usize>>,
    pub kids: Vec<Vec<usize>>,
    pub data: Vec<Option<i64>>,
}
impl Model {
    pub fn len(&self) -> usize {
        self.data.len()
    }
    pub fn alive(&self, i: usize) -> bool {
        self.data[i].is_some()
    }
    pub fn live(&self) -> Vec<usize> {
        (0..self.len()).filter(|&i| self.alive(i)).collect()
    }
    pub fn root(&mut self, v: i64) -> usize {
        self.parent.push(None);
        self.kids.push(vec![]);
        self.data.push(Some(v));
        self.len() - 1
    }
    pub fn is_anc_or_self(&self, a: usize, mut i: usize) -> bool {
        loop {
            if a == i {
                return true;
            }
            match self.parent[i] {
                Some(p) => i = p,
                None => return false,
            }
        }
    }
    pub fn detach(&mut self, n: usize) {
        if let Some(p) = self.parent[n].take() {
            self.kids[p].retain(|&c| c != n);
        }
    }
    pub fn refuse(&self, n: usize, k: K, a: usize) -> Option<SErr> {
        let p = match k {
            K::First | K::Last => a,
            K::Prev | K::Next => {
                if n == a {
                    return Some(SErr::Unorderable);
                }
                match self.parent[a] {
                    None => return Some(SErr::NoParent),
                    Some(p) => p,
                }
            }
        };
        if self.is_anc_or_self(n, p) {
            Some(SErr::Loop)
        } else {
            None
        }
    }
    pub fn insert(&mut self, n: usize, k: K, a: usize) {
        self.detach(n);
        let (p, pos) = match k {
            K::First => (a, 0),
            K::Last => (a, self.kids[a].len()),
            K::Prev | K::Next => {
                let p = self.parent[a].unwrap();
                let i = self.kids[p].iter().position(|&c| c == a).unwrap();
                (p, if k == K::Prev { i } else { i + 1 })
            }
        };
        self.kids[p].insert(pos, n);
        self.parent[n] = Some(p);
    }
    pub fn detach_single(&mut self, n: usize) -> Result<(), SErr> {
        let kids = self.kids[n].clone();
        match self.parent[n] {
            None => {
                if kids.len() > 1 {
                    return Err(SErr::NoParent);
                }
                for c in kids {
                    self.detach(c);
                }
            }
            Some(p) => {
                let i = self.kids[p].iter().position(|&c| c == n).unwrap();
                self.kids[p].splice(i..=i, kids.iter().copied());
                for &c in &kids {
                    self.parent[c] = Some(p);
                }
                self.kids[n].clear();
                self.parent[n] = None;
            }
        }
        Ok(())
    }
    pub fn postorder(&self, n: usize, out: &mut Vec<usize>) {
        let mut stack = vec![(n, 0)];
        while let Some((i, k)) = stack.pop() {
            match self.kids[i].get(k) {
                Some(&c) => stack.extend([(i, k + 1), (c, 0)]),
                None => out.push(i),
            }
        }
    }
    pub fn preorder(&self, n: usize, out: &mut Vec<usize>) {
        let mut stack = vec![n];
        while let Some(i) = stack.pop() {
            out.push(i);
            stack.extend(self.kids[i].iter().rev());
        }
    }
    pub fn kill(&mut self, i: usize) {
        self.detach(i);
        self.kids[i].clear();
        self.data[i] = None;
    }
    pub fn remove(&mut self, n: usize) {
        self.detach(n);
        let mut po = vec![];
        self.postorder(n, &mut po);
        for i in po {
            self.kids[i].clear();
            self.parent[i] = None;
            self.data[i] = None;
        }
    }
}

pub struct Side<Id: NodeId> {
    pub f: Forest<Id, D>,
    pub ids: Vec<Id>,
    /// Number of each ID.
    pub nums: HashMap<Id, usize>,
    pub toks: Vec<u64>,
    pub m: Model,
}
impl<Id: NodeId> Side<Id> {
    pub fn new() -> Self {
        Side { f: Forest::new(), ids: vec![], nums: HashMap::new(), toks: vec![], m: Model::default() }
    }
    pub fn idx(&self, id: Id) -> Option<usize> {
        if self.ids.len() < 40 {
            // does without the Hash of the ID
            return self.ids.iter().position(|&x| x == id);
        }
        self.nums.get(&id).copied()
    }
    fn note_new(&mut self, id: Id) -> Result<(), String> {
        if self.idx(id).is_some() {
            return Err(format!("creation returned the ID {:?} which an earlier node already had", id));
        }
        self.nums.insert(id, self.ids.len());
        self.ids.push(id);
        self.toks.push(self.f.data(id).map_or(0, |d| d.tok));
        Ok(())
    }
}

pub struct World<Id: NodeId> {
    pub cur: Side<Id>,
    pub other: Side<Id>,
    next_v: i64,
    /// Each may have left a node nobody has the ID of: a creation that panicked.
    steps: usize,
}

/// Relations of all live nodes must agree among themselves.
pub fn consistent<Id: NodeId>(s: &Side<Id>) -> Result<(), String> {
    let f = &s.f;
    let live: Vec<Id> = s.ids.iter().copied().filter(|&i| f.node(i).is_some()).collect();
    let mut seen_as_child = vec![0usize; live.len()];
    let total = live.len();
    let large = total >= 40;
    let places: HashMap<Id, usize> = if large { live.iter().enumerate().map(|(i, &x)| (x, i)).collect() } else { HashMap::new() };
    let pos = |x: Id| if large { places.get(&x).copied() } else { live.iter().position(|&y| y == x) };
    // Nodes from which the way up is known to end.
    let mut rooted: HashSet<Id> = HashSet::new();
    for &i in &live {
        let n = f.node(i).unwrap();
        let mut fwd = vec![];
        let mut c = n.first_child_id();
        while let Some(x) = c {
            fwd.push(x);
            if fwd.len() > total {
                return Err(format!("children of {:?} do not end", i));
            }
            let xn = f.node(x).ok_or_else(|| format!("child {:?} of {:?} is not alive", x, i))?;
            if xn.parent_id() != Some(i) {
                return Err(format!("child {:?} of {:?} has parent {:?}", x, i, xn.parent_id()));
            }
            c = xn.next_sibling_id();
        }
        let mut bwd = vec![];
        let mut c = n.last_child_id();
        while let Some(x) = c {
            bwd.push(x);
            if bwd.len() > total {
                return Err(format!("children of {:?} do not end backward", i));
            }
            let xn = f.node(x).ok_or_else(|| format!("child {:?} of {:?} is not alive", x, i))?;
            c = xn.prev_sibling_id();
        }
        bwd.reverse();
        if fwd != bwd {
            return Err(format!("children of {:?} forward {:?} but backward {:?}", i, fwd, bwd));
        }
        for x in fwd {
            let p = pos(x).ok_or_else(|| format!("unknown child {:?}", x))?;
            seen_as_child[p] += 1;
        }
        let mut up = n.parent_id();
        let mut steps = 0;
        let mut path = vec![];
        while let Some(p) = up {
            steps += 1;
            if steps > total || p == i {
                return Err(format!("node {:?} is its own ancestor", i));
            }
            if large {
                if rooted.contains(&p) {
                    break;
                }
                path.push(p);
            }
            up = f.node(p).ok_or_else(|| format!("ancestor {:?} of {:?} is not alive", p, i))?.parent_id();
        }
        rooted.extend(path);
        if n.parent_id().is_none() && (n.next_sibling_id().is_some() || n.prev_sibling_id().is_some()) {
            return Err(format!("root {:?} has siblings", i));
        }
    }
    for (p, &i) in live.iter().enumerate() {
        let want = usize::from(f.node(i).unwrap().parent_id().is_some());
        if seen_as_child[p] != want {
            return Err(format!("node {:?} appears {} times among children, expected {}", i, seen_as_child[p], want));
        }
    }
    Ok(())
}

/// Liveness and data of every ID ever created.
pub fn identity<Id: NodeId>(s: &mut Side<Id>) -> Result<(), String> {
    for i in 0..s.ids.len() {
        let id = s.ids[i];
        let alive = s.m.alive(i);
        if s.f.node(id).is_some() != alive {
            return Err(format!("node({}) is {} although the node is {}", i,
                if alive { "None" } else { "Some" }, if alive { "alive" } else { "removed" }));
        }
        if s.f.node_mut(id).is_some() != alive {
            return Err(format!("node_mut({}) disagrees with liveness {}", i, alive));
        }
        if s.f.data_mut(id).map(|d| (d.v, d.tok)) != s.m.data[i].map(|v| (v, s.toks[i])) {
            return Err(format!("data_mut({}) is not the node's own datum", i));
        }
        match (s.f.data(id), s.m.data[i]) {
            (None, None) => {}
            (Some(d), Some(v)) if d.v == v && d.tok == s.toks[i] => {}
            (d, v) => {
                return Err(format!("data({}) is {:?}, expected value {:?} instance {}", i, d, v, s.toks[i]))
            }
        }
    }
    Ok(())
}

pub fn shape<Id: NodeId>(s: &Side<Id>) -> Result<(), String> {
    for i in 0..s.ids.len() {
        if !s.m.alive(i) {
            continue;
        }
        let n = s.f.node(s.ids[i]).ok_or_else(|| format!("node {} should be alive", i))?;
        let p = n.parent_id().map(|x| s.idx(x));
        if p != s.m.parent[i].map(Some) {
            return Err(format!("parent of {} is {:?}, expected {:?}", i, p, s.m.parent[i]));
        }
        let mut kids = vec![];
        let mut c = n.first_child_id();
        while let Some(x) = c {
            let k = s.idx(x).ok_or_else(|| format!("unknown child of {}", i))?;
            kids.push(k);
            if kids.len() > s.ids.len() {
                return Err(format!("children of {} do not end", i));
            }
            c = s.f.node(x).ok_or_else(|| format!("child {} of {} is dead", k, i))?.next_sibling_id();
        }
        if kids != s.m.kids[i] {
            return Err(format!("children of {} are {:?}, expected {:?}", i, kids, s.m.kids[i]));
        }
        let mut kids = vec![];
        let mut c = n.last_child_id();
        while let Some(x) = c {
            let k = s.idx(x).ok_or_else(|| format!("unknown child of {}", i))?;
            kids.push(k);
            if kids.len() > s.ids.len() {
                return Err(format!("children of {} do not end backward", i));
            }
            c = s.f.node(x).ok_or_else(|| format!("child {} of {} is dead", k, i))?.prev_sibling_id();
        }
        kids.reverse();
        if kids != s.m.kids[i] {
            return Err(format!("children of {} backward are {:?}, expected {:?}", i, kids, s.m.kids[i]));
        }
    }
    Ok(())
}

/// Every accessor of shared and mutable handles.
pub fn handles<Id: NodeId>(s: &mut Side<Id>, steps: usize) -> Result<(), String> {
    let fp: *const Forest<Id, D> = &s.f;
    let mut place = vec![0; s.ids.len()];
    for k in &s.m.kids {
        for (i, &c) in k.iter().enumerate() {
            place[c] = i;
        }
    }
    for i in 0..s.ids.len() {
        let id = s.ids[i];
        if !s.m.alive(i) {
            continue;
        }
        let m = &s.m;
        let par = m.parent[i];
        let (mut prev, mut next) = (None, None);
        if let Some(p) = par {
            let pos = place[i];
            if pos > 0 {
                prev = Some(m.kids[p][pos - 1]);
            }
            next = m.kids[p].get(pos + 1).copied();
        }
        let first = m.kids[i].first().copied();
        let last = m.kids[i].last().copied();
        let g = |o: Option<usize>| o.map(|x| s.ids[x]);
        let n = s.f.node(id).ok_or_else(|| format!("node {} should be alive", i))?;
        macro_rules! eq {
            ($what:expr, $got:expr, $want:expr) => {
                let got = $got;
                let want = $want;
                if got != want {
                    return Err(format!("{} of node {} is {:?}, expected {:?}", $what, i, got, want));
                }
            };
        }
        eq!("id", n.id(), id);
        eq!("data", (n.data().v, n.data().tok), (m.data[i].unwrap(), s.toks[i]));
        eq!("forest", n.forest() as *const _, fp);
        eq!("parent_id", n.parent_id(), g(par));
        eq!("prev_sibling_id", n.prev_sibling_id(), g(prev));
        eq!("next_sibling_id", n.next_sibling_id(), g(next));
        eq!("first_child_id", n.first_child_id(), g(first));
        eq!("last_child_id", n.last_child_id(), g(last));
        eq!("first_last_child_id", n.first_last_child_id(), g(first).zip(g(last)));
        eq!("parent", n.parent().map(|x| x.id()), g(par));
        eq!("prev_sibling", n.prev_sibling().map(|x| x.id()), g(prev));
        eq!("next_sibling", n.next_sibling().map(|x| x.id()), g(next));
        eq!("first_child", n.first_child().map(|x| x.id()), g(first));
        eq!("last_child", n.last_child().map(|x| x.id()), g(last));
        eq!("first_last_child", n.first_last_child().map(|(a, b)| (a.id(), b.id())), g(first).zip(g(last)));
        let n2 = n;
        let n3 = n2.clone();
        eq!("copied handle id", n3.id(), id);
        let (wid, wdat) = (id, (m.data[i].unwrap(), s.toks[i]));
        let mut nm = s.f.node_mut(id).ok_or_else(|| format!("node_mut {} should be alive", i))?;
        eq!("mutable id", nm.id(), wid);
        eq!("mutable data", (nm.data().v, nm.data().tok), wdat);
        eq!("mutable data_mut", { let d = nm.data_mut(); (d.v, d.tok) }, wdat);
        eq!("mutable forest", nm.forest() as *const _, fp);
        eq!("mutable node()", (nm.node().id(), nm.node().parent_id()), (wid, par.map(|x| s.ids[x])));
        eq!("into_node", nm.into_node().id(), wid);
        let nm = s.f.node_mut(id).unwrap();
        eq!("into_data_ref_mut", { let d = nm.into_data_ref_mut(); (d.v, d.tok) }, wdat);
    }
    // No handle of what is not there: removed nodes, and IDs that only a larger forest has given out.
    let mut not_here: Vec<Id> = (0..s.ids.len()).filter(|&i| !s.m.alive(i)).map(|i| s.ids[i]).collect();
    let slots = s.ids.len() + steps;
    if slots < 250 {
        let mut larger: Forest<Id, ()> = Forest::new();
        not_here.extend((0..slots + 3).map(|_| larger.create_root(())).skip(slots));
    }
    for id in not_here {
        if s.f.node(id).is_some() || s.f.node_mut(id).is_some() || s.f.data(id).is_some() || s.f.data_mut(id).is_some() {
            return Err(format!("a handle or a datum of {:?}, which is no live node of this forest", id));
        }
    }
    Ok(())
}

pub struct Opts {
    pub check_handles: bool,
}

impl<Id: NodeId> World<Id> {
    pub fn new() -> Self {
        let mut w = World { cur: Side::new(), other: Side::new(), next_v: 0, steps: 0 };
        // The second forest starts non-empty, so that IDs of both forests differ in meaning.
        for _ in 0..2 {
            let v = w.value();
            let id = w.other.f.create_root(D::new(v));
            w.other.m.root(v);
            w.other.note_new(id).unwrap();
        }
        let v = w.value();
        let a = w.other.ids[1];
        let id = w.other.f.create_insert(D::new(v), InsertAs::FirstChildOf(a));
        let n = w.other.m.root(v);
        w.other.m.insert(n, K::First, 1);
        w.other.note_new(id).unwrap();
        take_drops();
        w
    }
    fn value(&mut self) -> i64 {
        self.next_v += 1;
        self.next_v
    }

    /// Runs one operation and compares everything with the model.
    pub fn step(&mut self, op: Op) -> Result<(), Fail> {
        take_drops();
        self.steps += 1;
        let live = self.args_live(op);
        let refused = self.refusal(op).is_some();
        let mk = |aspect, msg: String| Fail { aspect, op: Some(op), live, refused, msg };
        self.apply(op, live).map_err(|(a, m)| mk(a, m))?;
        seen(|| consistent(&self.cur)).map_err(|m| mk(Aspect::Inconsistent, m))?;
        seen(|| consistent(&self.other)).map_err(|m| mk(Aspect::Inconsistent, m))?;
        seen(|| identity(&mut self.cur)).map_err(|m| mk(Aspect::Identity, m))?;
        seen(|| identity(&mut self.other)).map_err(|m| mk(Aspect::Identity, m))?;
        seen(|| shape(&self.cur)).map_err(|m| mk(Aspect::Shape, m))?;
        seen(|| shape(&self.other)).map_err(|m| mk(Aspect::Shape, m))?;
        if live && matches!(op, Op::Remove { .. } | Op::RemovePanic { .. }) {
            self.probe_dead().map_err(|m| mk(Aspect::Identity, m))?;
        }
        Ok(())
    }

    /// Whether the operation names nodes that have been created (a shortened script may not).
    pub fn valid(&self, op: Op) -> bool {
        let al = |i: usize| i < self.cur.m.len();
        match op {
            Op::Root | Op::CloneForest | Op::Swap => true,
            Op::Build { .. } => self.cur.m.len() == 0,
            Op::Create { a, .. } => al(a),
            Op::Insert { n, a, .. } => al(n) && al(a),
            Op::Detach { n, .. } | Op::DetachSingle { n, .. } | Op::Remove { n, .. }
            | Op::RemovePanic { n, .. } | Op::CloneLocal { n, .. } | Op::CloneForeign { n, .. } | Op::SetData { n, .. } => al(n),
        }
    }

    /// Links that look right may be wrong all the same: tries on copies of the forest
    /// to add a child or a sibling to each node, and to take each node out.
    pub fn probe_links(&mut self) -> Result<(), String> {
        let live = self.cur.m.live();
        for &a in &live {
            for k in 0..4 {
                let mut f = self.cur.f.clone();
                let id = self.cur.ids[a];
                let mut m = self.cur.m.clone();
                let mut ids = self.cur.ids.clone();
                if k == 2 && m.parent[a].is_none() {
                    continue;
                }
                let kind = [K::Last, K::First, K::Next][k % 3];
                let r = seen(|| {
                    if k < 3 {
                        let new = f.create_insert(D::new(-5), kind.dest(id));
                        let n = m.root(-5);
                        m.insert(n, kind, a);
                        ids.push(new);
                    } else {
                        f.remove(id);
                        m.remove(a);
                    }
                    let nums = ids.iter().enumerate().map(|(i, &x)| (x, i)).collect();
                    let side = Side { f, ids, nums, toks: vec![], m };
                    consistent(&side)?;
                    shape(&side)
                });
                take_drops();
                if let Err(e) = r {
                    return Err(format!("after {} at {}: {}", ["a new last child", "a new first child", "a new next sibling", "the removal"][k], a, e));
                }
            }
        }
        Ok(())
    }

    /// What is left of removed nodes: tried on a copy of the forest.
    fn probe_dead(&mut self) -> Result<(), String> {
        let dead: Vec<usize> = (0..self.cur.m.len()).filter(|&i| !self.cur.m.alive(i)).collect();
        let near = self.cur.m.live().first().copied();
        for &d in dead.iter().rev().take(6) {
            let id = self.cur.ids[d];
            for probe in 0..4 {
                let mut f = self.cur.f.clone();
                let anchor = near.map(|n| self.cur.ids[n]);
                let r = catch_unwind(AssertUnwindSafe(|| match probe {
                    0 | 1 => {
                        let mut called = false;
                        if probe == 0 {
                            f.remove_hooked(id, |_| called = true);
                        } else {
                            f.remove_hooked_panic_safe(id, |_| called = true);
                        }
                        called
                    }
                    2 => anchor.map_or(false, |a| f.insert(id, InsertAs::LastChildOf(a)).is_ok()),
                    _ => anchor.map_or(false, |a| f.insert(a, InsertAs::LastChildOf(id)).is_ok()),
                }));
                take_drops();
                let what = ["remove_hooked", "remove_hooked_panic_safe", "insert of it", "insert below it"][probe];
                match r {
                    Ok(false) => {}
                    Ok(true) => return Err(format!("removed node {}: {} acted on it", d, what)),
                    Err(e) if probe < 2 => {
                        let t = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
                        if t.contains("consistency") {
                            return Err(format!("removed node {}: {} stopped with: {}", d, what, t));
                        }
                    }
                    Err(_) => {}
                }
            }
        }
        take_drops();
        Ok(())
    }

    pub fn check_handles(&mut self, op: Option<Op>) -> Result<(), Fail> {
        match catch_unwind(AssertUnwindSafe(|| handles(&mut self.cur, self.steps))) {
            Ok(r) => r.map_err(|msg| Fail { aspect: Aspect::Handle, op, live: true, refused: false, msg }),
            Err(_) => Err(Fail { aspect: Aspect::Handle, op, live: true, refused: false, msg: "an accessor of a live node's handle panicked".into() }),
        }
    }

    pub fn args_live(&self, op: Op) -> bool {
        let al = |i: usize| self.cur.m.alive(i);
        match op {
            Op::Root | Op::CloneForest | Op::Swap | Op::Build { .. } => true,
            Op::Build { .. } => self.cur.m.len() == 0,
            Op::Create { a, .. } => al(a),
            Op::Insert { n, a, .. } => al(n) && al(a),
            Op::Detach { n, .. } | Op::DetachSingle { n, .. } | Op::Remove { n, .. }
            | Op::RemovePanic { n, .. } | Op::CloneLocal { n, .. } | Op::CloneForeign { n, .. }
            | Op::SetData { n, .. } => al(n),
        }
    }
    pub fn refusal(&self, op: Op) -> Option<SErr> {
        if !self.args_live(op) {
            return None;
        }
        match op {
            Op::Insert { n, k, a, .. } => self.cur.m.refuse(n, k, a),
            Op::Create { k: K::Prev | K::Next, a, .. } if self.cur.m.parent[a].is_none() => Some(SErr::NoParent),
            Op::DetachSingle { n, .. } if self.cur.m.parent[n].is_none() && self.cur.m.kids[n].len() > 1 => Some(SErr::NoParent),
            _ => None,
        }
    }

    fn apply(&mut self, op: Op, live: bool) -> Result<(), (Aspect, String)> {
        if !live {
            return self.apply_dead(op);
        }
        let refusal = self.refusal(op);
        match op {
            Op::Root => {
                let v = self.value();
                let id = self.call(|w| w.cur.f.create_root(D::new(v)))?;
                self.cur.m.root(v);
                self.cur.note_new(id).map_err(|m| (Aspect::Identity, m))?;
            }
            Op::Create { k, a, via } => {
                let v = self.value();
                let ida = self.cur.ids[a];
                let r = self.call_may_panic(|w| match via {
                    0 => w.cur.f.create_insert(D::new(v), k.dest(ida)),
                    _ => w.cur.f.node_mut(ida).expect("live").create(D::new(v), k.adopt()),
                });
                if refusal.is_some() {
                    // Documented as impossible; whatever happens, no existing node may change.
                    match r {
                        Ok(_) => return Err((Aspect::Result, "creation next to a parentless node succeeded".into())),
                        Err(_) => {
                            // An extra root that nobody knows the ID of may remain.
                            self.adopt_unknown_roots(v);
                            return Ok(());
                        }
                    }
                }
                let id = r.map_err(|p| (Aspect::Panic, p))?;
                let n = self.cur.m.root(v);
                self.cur.m.insert(n, k, a);
                self.cur.note_new(id).map_err(|m| (Aspect::Identity, m))?;
            }
            Op::Insert { n, k, a, via } => {
                let (idn, ida) = (self.cur.ids[n], self.cur.ids[a]);
                if via == 2 {
                    // `adopt` panics for refused moves.
                    let r = self.call_may_panic(|w| w.cur.f.node_mut(ida).expect("live").adopt(idn, k.adopt()));
                    match (r, refusal) {
                        (Ok(()), None) => self.cur.m.insert(n, k, a),
                        (Err(_), Some(_)) => {}
                        (Ok(()), Some(e)) => return Err((Aspect::Result, format!("adopt succeeded, expected refusal {:?}", e))),
                        (Err(p), None) => return Err((Aspect::Panic, p)),
                    }
                    return Ok(());
                }
                let r = self
                    .call(|w| match via {
                        0 => w.cur.f.insert(idn, k.dest(ida)),
                        _ => w.cur.f.node_mut(ida).expect("live").try_adopt(idn, k.adopt()),
                    })?
                    .map_err(serr);
                if r.err() != refusal {
                    return Err((Aspect::Result, format!("insertion returned {:?}, expected {:?}", r, refusal)));
                }
                if refusal.is_none() {
                    self.cur.m.insert(n, k, a);
                }
            }
            Op::Detach { n, via } => {
                let id = self.cur.ids[n];
                self.call(|w| match via {
                    0 => w.cur.f.detach(id),
                    _ => w.cur.f.node_mut(id).expect("live").detach(),
                })?;
                self.cur.m.detach(n);
            }
            Op::DetachSingle { n, via } => {
                let id = self.cur.ids[n];
                let r = self
                    .call(|w| match via {
                        0 => w.cur.f.detach_single(id),
                        _ => w.cur.f.node_mut(id).expect("live").detach_single(),
                    })?
                    .map_err(serr);
                let want = self.cur.m.detach_single(n);
                if r != want {
                    return Err((Aspect::Result, format!("detach_single returned {:?}, expected {:?}", r, want)));
                }
            }
            Op::Remove { n, via } => {
                let id = self.cur.ids[n];
                let mut po = vec![];
                self.cur.m.postorder(n, &mut po);
                let want: Vec<u64> = po.iter().map(|&i| self.cur.toks[i]).collect();
                let mut got = vec![];
                self.call(|w| {
                    let mut hook = |d: D| got.push(d.tok);
                    match via {
                        0 => w.cur.f.remove(id),
                        1 => w.cur.f.remove_hooked(id, &mut hook),
                        2 => w.cur.f.remove_hooked_panic_safe(id, &mut hook),
                        3 => w.cur.f.node_mut(id).expect("live").remove(),
                        4 => w.cur.f.node_mut(id).expect("live").remove_hooked(&mut hook),
                        _ => w.cur.f.node_mut(id).expect("live").remove_hooked_panic_safe(&mut hook),
                    }
                })?;
                let drops = take_drops();
                if via != 0 && via != 3 && got != want {
                    return Err((Aspect::Hook, format!("hook got instances {:?}, expected {:?}", got, want)));
                }
                if drops != want {
                    return Err((Aspect::Hook, format!("instances dropped {:?}, expected {:?}", drops, want)));
                }
                self.cur.m.remove(n);
            }
            Op::RemovePanic { n, at, via } => {
                let id = self.cur.ids[n];
                let mut po = vec![];
                self.cur.m.postorder(n, &mut po);
                let want: Vec<u64> = po.iter().take(at + 1).map(|&i| self.cur.toks[i]).collect();
                let mut got = vec![];
                let r = self.call_may_panic(|w| {
                    let hook = |d: D| {
                        got.push(d.tok);
                        if got.len() == at + 1 {
                            std::panic::panic_any(HookPanic);
                        }
                    };
                    match via {
                        0 => w.cur.f.remove_hooked_panic_safe(id, hook),
                        _ => w.cur.f.node_mut(id).expect("live").remove_hooked_panic_safe(hook),
                    }
                });
                match r {
                    Err(p) if p == "hook" => {}
                    Err(p) => return Err((Aspect::Panic, p)),
                    Ok(()) if at >= po.len() => {}
                    Ok(()) => return Err((Aspect::Hook, "the hook was called fewer times than nodes".into())),
                }
                let drops = take_drops();
                if got != want || drops != want {
                    return Err((Aspect::Hook, format!("hook got instances {:?}, dropped {:?}, expected {:?}", got, drops, want)));
                }
                self.cur.m.detach(n);
                for &i in po.iter().take(at + 1) {
                    self.cur.m.kill(i);
                }
            }
            Op::CloneLocal { n, via } => {
                let id = self.cur.ids[n];
                let mut map = vec![];
                let top = self.call(|w| match via {
                    0 => w.cur.f.clone_local_tree(id),
                    _ => w.cur.f.clone_local_tree_with_id_mapping(id, |a, b| map.push((a, b))),
                })?;
                let src = self.cur.m.clone();
                let srcids = self.cur.ids.clone();
                Self::after_clone(&src, &srcids, n, &mut self.cur, top, if via == 0 { None } else { Some(map) })?;
                // The drop log must be empty: nothing existing was dropped.
                if !take_drops().is_empty() {
                    return Err((Aspect::Hook, "cloning dropped a datum".into()));
                }
            }
            Op::CloneForeign { n, via } => {
                let id = self.cur.ids[n];
                let mut map = vec![];
                let top = self.call(|w| {
                    let src = w.cur.f.node(id).expect("live");
                    match via {
                        0 => w.other.f.clone_foreign_tree(src),
                        _ => w.other.f.clone_foreign_tree_with_id_mapping(src, |a, b| map.push((a, b))),
                    }
                })?;
                let src = self.cur.m.clone();
                let srcids = self.cur.ids.clone();
                Self::after_clone(&src, &srcids, n, &mut self.other, top, if via == 0 { None } else { Some(map) })?;
                if !take_drops().is_empty() {
                    return Err((Aspect::Hook, "cloning dropped a datum".into()));
                }
            }
            Op::SetData { n, via } => {
                let v = self.value();
                let id = self.cur.ids[n];
                let tok = self.call(|w| {
                    let r = match via {
                        0 => w.cur.f.data_mut(id).expect("live"),
                        1 => w.cur.f.node_mut(id).expect("live").into_data_ref_mut(),
                        _ => {
                            let mut h = w.cur.f.node_mut(id).expect("live");
                            let d = h.data_mut();
                            *d = D::new(v);
                            return d.tok;
                        }
                    };
                    *r = D::new(v);
                    r.tok
                })?;
                self.cur.m.data[n] = Some(v);
                self.cur.toks[n] = tok;
            }
            Op::CloneForest => {
                let f2 = self.call(|w| w.cur.f.clone())?;
                let ids = self.cur.ids.clone();
                let toks = ids.iter().map(|&i| f2.data(i).map_or(0, |d| d.tok)).collect();
                self.other = Side { f: f2, ids, nums: self.cur.nums.clone(), toks, m: self.cur.m.clone() };
            }
            Op::Swap => std::mem::swap(&mut self.cur, &mut self.other),
            Op::Build { star, n } => {
                for i in 0..n {
                    let v = self.value();
                    // The many children are those of the first of the two children of the root.
                    let at = if star { (i > 2) as usize } else { i.saturating_sub(1) };
                    let to = self.cur.ids.get(at).copied();
                    let id = self.call(|w| match to {
                        None => w.cur.f.create_root(D::new(v)),
                        Some(a) => w.cur.f.create_insert(D::new(v), InsertAs::LastChildOf(a)),
                    })?;
                    let new = self.cur.m.root(v);
                    if i > 0 {
                        self.cur.m.insert(new, K::Last, at);
                    }
                    self.cur.note_new(id).map_err(|m| (Aspect::Identity, m))?;
                }
            }
        }
        Ok(())
    }

    fn after_clone(src: &Model, srcids: &[Id], n: usize, dest: &mut Side<Id>, top: Id, map: Option<Vec<(Id, Id)>>) -> Result<(), (Aspect, String)> {
        let mut pre = vec![];
        src.preorder(n, &mut pre);
        // The copies are discovered from the real forest by walking the new tree in
        // the order of the source's model; a wrong shape shows as a mismatch.
        let mut newids: Vec<Option<Id>> = vec![None; src.len()];
        newids[n] = Some(top);
        let mut order = vec![];
        let mut stack = vec![n];
        while let Some(i) = stack.pop() {
            let id = newids[i].unwrap();
            order.push((i, id));
            let node = dest.f.node(id).ok_or((Aspect::Identity, "a copied node is not alive".to_string()))?;
            let kids: Vec<Id> = {
                let mut v = vec![];
                let mut c = node.first_child_id();
                while let Some(x) = c {
                    v.push(x);
                    if v.len() > src.len() + 1 {
                        break;
                    }
                    c = dest.f.node(x).and_then(|y| y.next_sibling_id());
                }
                v
            };
            if kids.len() != src.kids[i].len() {
                return Err((Aspect::Shape, format!("the copy of node {} has {} children, the source has {}", i, kids.len(), src.kids[i].len())));
            }
            for (x, &k) in kids.iter().zip(&src.kids[i]) {
                newids[k] = Some(*x);
            }
            stack.extend(src.kids[i].iter().copied());
        }
        // Register the copies in the source's document order.
        let base = dest.m.len();
        let mut newidx = vec![usize::MAX; src.len()];
        for &i in &pre {
            newidx[i] = dest.m.root(src.data[i].unwrap());
        }
        for &i in &pre {
            dest.m.kids[newidx[i]] = src.kids[i].iter().map(|&k| newidx[k]).collect();
            for &k in &src.kids[i] {
                dest.m.parent[newidx[k]] = Some(newidx[i]);
            }
        }
        for &i in &pre {
            dest.note_new(newids[i].unwrap()).map_err(|m| (Aspect::Identity, m))?;
        }
        let mut toks: HashSet<u64> = dest.toks[..base].iter().copied().collect();
        for i in base..dest.m.len() {
            if !toks.insert(dest.toks[i]) {
                return Err((Aspect::Identity, "a copied datum is not a separate instance".into()));
            }
        }
        if let Some(map) = map {
            let mut want: Vec<(Id, Id)> = pre.iter().map(|&i| (srcids[i], newids[i].unwrap())).collect();
            let told: &[(Id, Id)] = if map == want {
                want.clear();
                &[]
            } else {
                &map
            };
            for p in told {
                match want.iter().position(|w| w == p) {
                    Some(x) => {
                        want.swap_remove(x);
                    }
                    None => return Err((Aspect::Hook, format!("unexpected or repeated mapping {:?}", p))),
                }
            }
            if !want.is_empty() {
                return Err((Aspect::Hook, format!("mappings not reported: {:?}", want)));
            }
        }
        Ok(())
    }

    /// Operations on removed IDs: a panic or nothing, and no live node changes.
    fn apply_dead(&mut self, op: Op) -> Result<(), (Aspect, String)> {
        let v = self.value();
        let before = self.cur.m.clone();
        let ids = self.cur.ids.clone();
        let r = self.call_may_panic(|w| match op {
            Op::Create { k, a, via } => {
                if via == 0 {
                    let _ = w.cur.f.create_insert(D::new(v), k.dest(ids[a]));
                    "created"
                } else {
                    assert!(w.cur.f.node_mut(ids[a]).is_some(), "no handle");
                    "handle"
                }
            }
            Op::Insert { n, k, a, via } => {
                if via == 0 || w.cur.m.alive(a) == false {
                    match w.cur.f.insert(ids[n], k.dest(ids[a])) {
                        Ok(()) => "inserted",
                        Err(_) => "",
                    }
                } else {
                    match w.cur.f.node_mut(ids[a]).expect("live").try_adopt(ids[n], k.adopt()) {
                        Ok(()) => "inserted",
                        Err(_) => "",
                    }
                }
            }
            Op::Detach { n, .. } => {
                w.cur.f.detach(ids[n]);
                ""
            }
            Op::DetachSingle { n, .. } => {
                let _ = w.cur.f.detach_single(ids[n]);
                ""
            }
            Op::Remove { n, via } => {
                let mut called = false;
                match via % 3 {
                    0 => w.cur.f.remove(ids[n]),
                    1 => w.cur.f.remove_hooked(ids[n], |_| called = true),
                    _ => w.cur.f.remove_hooked_panic_safe(ids[n], |_| called = true),
                }
                if called {
                    "hooked"
                } else {
                    ""
                }
            }
            Op::RemovePanic { n, .. } => {
                w.cur.f.remove_hooked_panic_safe(ids[n], |_| ());
                ""
            }
            Op::CloneLocal { n, .. } => {
                let _ = w.cur.f.clone_local_tree(ids[n]);
                "cloned"
            }
            Op::CloneForeign { n, .. } => {
                if w.cur.f.node(ids[n]).is_some() {
                    "handle"
                } else {
                    ""
                }
            }
            Op::SetData { n, .. } => {
                if w.cur.f.data_mut(ids[n]).is_some() {
                    "data"
                } else {
                    ""
                }
            }
            _ => "",
        });
        match r {
            Ok("") => {}
            Ok(what) => return Err((Aspect::Identity, format!("an operation on a removed ID took effect: {}", what))),
            Err(_) => {}
        }
        if let Op::Create { .. } = op {
            self.adopt_unknown_roots(v);
        }
        let _ = before;
        Ok(())
    }

    /// A creation that panicked may leave one extra root whose ID nobody got.
    /// Its ID is recovered through `Forest::clone_local_tree`-free means: the
    /// next created ID must simply not collide, so nothing has to be tracked.
    fn adopt_unknown_roots(&mut self, _v: i64) {}

    fn call<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> Result<R, (Aspect, String)> {
        self.call_may_panic(f).map_err(|p| (Aspect::Panic, format!("panicked: {}", p)))
    }
    fn call_may_panic<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> Result<R, String> {
        catch_unwind(AssertUnwindSafe(|| f(self))).map_err(|e| {
            if e.is::<HookPanic>() {
                "hook".to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_string()
            }
        })
    }
}
pub struct HookPanic;
/// Looking at the forest may panic, too.
fn seen(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("a query panicked: {}", crate::last_panic())),
    }
}
