//! Concrete side of the checks: replays operations on the real crate against an
//! independent model. It gives a failing input for a broken property, and it is the
//! (bounded) stand-in for what the deductive verifier cannot reach.
mod extra;
mod guard;
mod trees;
mod walk;
mod world;

use std::collections::HashSet;
use std::time::{Duration, Instant};
use treena::dynamic::{NodeId, NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8, NodeIdUsize};
use trees::*;
use walk::*;
use world::*;

#[global_allocator]
static ALLOC: guard::Counting = guard::Counting;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct MyId(pub NodeIdUsize);
treena::impl_dynamic_node_id!(MyId, NodeIdUsize, 0);

pub struct Found {
    pub script: String,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub deadline: Instant,
    pub notes: Vec<String>,
    pub truncated: bool,
}
impl Ctx {
    pub fn time_up(&mut self) -> bool {
        if Instant::now() > self.deadline {
            self.truncated = true;
            true
        } else {
            false
        }
    }
    pub fn note_case(&mut self, text: &dyn Fn() -> String, key: u64, nontrivial: bool) {
        self.evals += 1;
        guard::EVALS.store(self.evals, std::sync::atomic::Ordering::SeqCst);
        guard::DISTINCT.store(self.distinct.len() as u64, std::sync::atomic::Ordering::SeqCst);
        if nontrivial {
            self.distinct.insert(key);
            if self.samples.len() < 4 && (self.evals % 97 == 1) {
                self.samples.push(text());
            }
        }
    }
}
pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Whether a discrepancy breaks the given property.
fn concerns(prop: &str, f: &Fail) -> bool {
    use Aspect::*;
    let op = f.op;
    let is = |fam: &str| match op {
        Some(Op::Root) | Some(Op::Create { .. }) | Some(Op::Build { .. }) => fam == "create",
        Some(Op::Insert { .. }) => fam == "insert",
        Some(Op::Detach { .. }) => fam == "detach",
        Some(Op::DetachSingle { .. }) => fam == "single",
        Some(Op::Remove { .. }) => fam == "remove",
        Some(Op::RemovePanic { .. }) => fam == "rpanic",
        Some(Op::CloneLocal { .. }) | Some(Op::CloneForeign { .. }) => fam == "clone",
        Some(Op::SetData { .. }) => fam == "set",
        _ => fam == "other",
    };
    match prop {
        "C01" => f.live && (f.aspect == Inconsistent || f.aspect == Panic),
        "C02" => f.live && is("insert") && !f.refused && matches!(f.aspect, Shape | Inconsistent | Panic | Identity),
        "C03" => f.live && is("insert") && (f.aspect == Result || f.aspect == Panic || f.refused),
        "C04" => f.live && is("detach"),
        "C05" => f.live && is("single"),
        "C06" => f.live && is("remove"),
        "C07" => f.aspect == Identity || !f.live,
        "C12" => f.live && is("clone"),
        "C13" => f.live && is("create"),
        "C14" => is("create") && f.aspect == Identity,
        "C16" => f.live && is("rpanic"),
        "C18" => f.aspect == Handle,
        _ => false,
    }
}

fn cur_prop() -> String {
    std::env::args().nth(2).unwrap_or_default()
}
fn cur_ids<Id: NodeId>() -> &'static str {
    let n = std::any::type_name::<Id>();
    match n.rsplit("::").next().unwrap_or("") {
        "NodeIdU8" => "u8",
        "NodeIdU16" => "u16",
        "NodeIdU32" => "u32",
        "NodeIdU64" => "u64",
        "MyId" => "custom",
        _ => "usize",
    }
}

/// Runs a script; Err carries the first discrepancy and the number of executed operations.
pub fn run_script<Id: NodeId>(ops: &[Op], handles_too: bool) -> Result<World<Id>, (usize, Fail)> {
    let mut w = World::<Id>::new();
    guard::set(&cur_prop(), cur_ids::<Id>(), &[], "");
    for (i, &op) in ops.iter().enumerate() {
        if !w.valid(op) {
            break;
        }
        guard::push(op);
        let live = w.args_live(op);
        // Trouble that shows up later belongs to this operation when it was not there before.
        let probe = live && ["C02", "C04", "C05", "C06", "C12", "C13", "C16"].contains(&cur_prop().as_str())
            && concerns(&cur_prop(), &Fail { aspect: Aspect::Inconsistent, op: Some(op), live, refused: false, msg: String::new() })
            && (1..=if cur_prop() == "C02" || cur_prop() == "C13" { 4 } else { 7 }).contains(&w.cur.m.live().len()) && w.probe_links().is_ok();
        w.step(op).map_err(|f| (i + 1, f))?;
        if probe {
            w.probe_links().map_err(|msg| (i + 1, Fail { aspect: Aspect::Inconsistent, op: Some(op), live, refused: false, msg }))?;
        }
        if handles_too {
            w.check_handles(Some(op)).map_err(|f| (i + 1, f))?;
        }
    }
    Ok(w)
}
fn run_script_id(idty: &str, ops: &[Op], handles_too: bool) -> Result<(), (usize, Fail)> {
    match idty {
        "u8" => run_script::<NodeIdU8>(ops, handles_too).map(|_| ()),
        "u16" => run_script::<NodeIdU16>(ops, handles_too).map(|_| ()),
        "u32" => run_script::<NodeIdU32>(ops, handles_too).map(|_| ()),
        "u64" => run_script::<NodeIdU64>(ops, handles_too).map(|_| ()),
        "custom" => run_script::<MyId>(ops, handles_too).map(|_| ()),
        _ => run_script::<NodeIdUsize>(ops, handles_too).map(|_| ()),
    }
}
pub const IDTYPES: [&str; 6] = ["usize", "custom", "u8", "u16", "u32", "u64"];

pub fn script_text(prop: &str, idty: &str, ops: &[Op], tail: &str) -> String {
    let mut s = format!("property {}\nids {}\n", prop, idty);
    for o in ops {
        s.push_str(&format!("op {}\n", o));
    }
    s.push_str(tail);
    s
}

/// Runs a script for a property; on a discrepancy that concerns it, shrinks and returns it.
fn try_script(c: &mut Ctx, idty: &str, ops: &[Op]) -> Option<Found> {
    let h = c.prop == "C18";
    match run_script_id(idty, ops, h) {
        Ok(()) => None,
        Err((n, f)) => {
            if !concerns(&c.prop, &f) {
                return None;
            }
            let mut ops: Vec<Op> = ops[..n].to_vec();
            // Greedy shrinking: drop operations while a concerning discrepancy remains.
            let mut last = f;
            let mut budget = if matches!(ops.first(), Some(Op::Build { .. })) { 8 } else { 400 };
            let mut i = ops.len().saturating_sub(1);
            while i > 0 && budget > 0 {
                i -= 1;
                if matches!(ops[i], Op::Build { .. } | Op::Root | Op::Create { .. } | Op::CloneLocal { .. } | Op::CloneForeign { .. } | Op::Swap | Op::CloneForest) {
                    continue; // would renumber nodes
                }
                let mut t = ops.clone();
                t.remove(i);
                budget -= 1;
                if let Err((m, f)) = run_script_id(idty, &t, h) {
                    if concerns(&c.prop, &f) {
                        t.truncate(m);
                        ops = t;
                        last = f;
                        i = i.min(ops.len());
                    }
                }
            }
            Some(Found {
                script: script_text(&c.prop, idty, &ops, ""),
                msg: format!("{:?}: {} (at operation {}: {})", last.aspect, last.msg, ops.len(), last.op.map_or(String::new(), |o| o.to_string())),
            })
        }
    }
}

fn fams_of(prop: &str) -> Vec<Fam> {
    match prop {
        "C02" | "C03" => vec![Fam::Insert],
        "C04" => vec![Fam::Detach],
        "C05" => vec![Fam::DetachSingle],
        "C06" => vec![Fam::Remove],
        "C12" => vec![Fam::CloneLocal, Fam::CloneForeign],
        "C13" => vec![Fam::Root, Fam::Create],
        "C16" => vec![Fam::RemovePanic],
        _ => ALL_FAMS.to_vec(),
    }
}

/// Exhaustive part and random part for the operation properties.
fn op_battery(c: &mut Ctx) -> Option<Found> {
    let prop = c.prop.clone();
    let fams = fams_of(&prop);
    let n1 = if c.thorough { 7 } else { 6 };
    let n1 = if fams.len() > 3 { n1 - 1 } else { n1 };
    // 1. every operation of the family on every small forest
    for n in 1..=n1 {
        for d in forests(n) {
            for variant in 0..2 {
                if c.time_up() {
                    return None;
                }
                let (b, _) = build(&d, variant);
                let w = match run_script::<NodeIdUsize>(&b, false) {
                    Ok(w) => w,
                    Err(_) => {
                        if let Some(f) = try_script(c, "usize", &b) {
                            return Some(f);
                        }
                        continue;
                    }
                };
                let args: Vec<usize> = match prop.as_str() {
                    "C07" => (0..w.cur.m.len()).collect(),
                    _ => w.cur.m.live(),
                };
                for &fam in &fams {
                    for op in ops_of(fam, &args, &w.cur.m, true) {
                        let mut ops = b.clone();
                        ops.push(op);
                        c.note_case(&|| script_text(&prop, "usize", &ops, ""), hash(&(&d, variant, op)), true);
                        if let Some(f) = try_script(c, "usize", &ops) {
                            return Some(f);
                        }
                    }
                }
            }
        }
    }
    // 2. a structural operation, then one of the family, on small forests
    let n2 = if c.thorough { 5 } else { 4 };
    let n2 = if fams.len() > 3 { n2 - 1 } else { n2 };
    for n in 1..=n2 {
        for d in forests(n) {
            if c.time_up() {
                return None;
            }
            let (b, _) = build(&d, 0);
            let w = match run_script::<NodeIdUsize>(&b, false) {
                Ok(w) => w,
                Err(_) => continue,
            };
            let live = w.cur.m.live();
            let mut firsts = vec![];
            for fam in [Fam::Insert, Fam::Detach, Fam::DetachSingle, Fam::Remove, Fam::Create] {
                firsts.extend(ops_of(fam, &live, &w.cur.m, false));
            }
            for op1 in firsts {
                let mut b2 = b.clone();
                b2.push(op1);
                let w2 = match run_script::<NodeIdUsize>(&b2, false) {
                    Ok(w) => w,
                    Err(_) => continue,
                };
                let args: Vec<usize> = if prop == "C07" { (0..w2.cur.m.len()).collect() } else { w2.cur.m.live() };
                for &fam in &fams {
                    for op in ops_of(fam, &args, &w2.cur.m, false) {
                        let mut ops = b2.clone();
                        ops.push(op);
                        c.note_case(&|| script_text(&prop, "usize", &ops, ""), hash(&(&d, op1, op)), true);
                        if let Some(f) = try_script(c, "usize", &ops) {
                            return Some(f);
                        }
                    }
                }
            }
        }
    }
    // 3. random histories, all ID types; the family is favoured
    let mut r = Rng::new(c.seed);
    let rounds = if c.thorough { 6000 } else { 700 };
    for round in 0..rounds {
        if c.time_up() {
            return None;
        }
        let idty = IDTYPES[round % 6];
        let len = 20 + r.below(60);
        let limit = [6, 10, 16, 30][r.below(4)];
        let limit = if idty == "u8" { limit.min(10) } else { limit };
        let len = if idty == "u8" { len.min(40) } else { len };
        if let Some(f) = random_history(c, &mut r, idty, len, limit, &fams) {
            return Some(f);
        }
    }
    // 4. large shapes
    for sz in [12, 25, 40, 300] {
        for d in if sz == 300 { huge_shapes() } else { large_shapes(&mut r, sz) } {
            if c.time_up() {
                return None;
            }
            let (b, _) = build(&d, 0);
            let w = match run_script::<NodeIdUsize>(&b, false) {
                Ok(w) => w,
                Err(_) => {
                    if let Some(f) = try_script(c, "usize", &b) {
                        return Some(f);
                    }
                    continue;
                }
            };
            let live = w.cur.m.live();
            for k in 0..(if sz == 300 { 5 } else if c.thorough { 60 } else { 12 }) {
                let mut args: Vec<usize> = (0..3).map(|_| live[r.below(live.len())]).collect();
                if sz == 300 && k < 3 {
                    args = vec![live[k]];
                } else if sz == 300 && k == 3 {
                    args = vec![live[live.len() - 1 - r.below(9)], live[live.len() - 1 - r.below(9)], live[live.len() - 1 - r.below(9)]];
                }
                for &fam in &fams {
                    let all = ops_of(fam, &args, &w.cur.m, true);
                    if all.is_empty() {
                        continue;
                    }
                    let op = all[r.below(all.len())];
                    let mut ops = b.clone();
                    ops.push(op);
                    c.note_case(&|| script_text(&prop, "usize", &ops, ""), hash(&(&d, op)), true);
                    if let Some(f) = try_script(c, "usize", &ops) {
                        return Some(f);
                    }
                }
            }
        }
    }
    // 5. more nodes than 16 bits can count
    giants(c, &fams)
}

const GIANT: usize = 66_000;

/// A few operations on a chain and on a star of more nodes than 16 bits can count.
fn giants(c: &mut Ctx, fams: &[Fam]) -> Option<Found> {
    fn go<Id: NodeId>(r: &mut Rng, star: bool, fams: &[Fam], steps: usize, h: bool) -> (Vec<Op>, bool) {
        let mut emptied = false;
        let mut t = None;
        let mut w = World::<Id>::new();
        let mut ops = vec![Op::Build { star, n: GIANT }];
        guard::set(&cur_prop(), cur_ids::<Id>(), &ops, "");
        if w.step(ops[0]).is_err() {
            return (ops, true);
        }
        // First all that must be refused, which changes nothing.
        let all = [0, 1, GIANT / 2, GIANT - 2, GIANT - 1];
        let mut refused = vec![];
        for (i, a) in all.into_iter().enumerate() {
            for b in &all[i + 1..] {
                for &fam in fams {
                    refused.extend(ops_of(fam, &[a, *b], &w.cur.m, false).into_iter().filter(|&op| !matches!(op, Op::Create { .. }) && w.refusal(op).is_some()));
                }
            }
        }
        refused.sort_by_key(|op| hash(op));
        refused.dedup();
        let t0 = Instant::now();
        for op in refused {
            if t0.elapsed() > Duration::from_secs(4) {
                break;
            }
            ops.push(op);
            guard::push(op);
            if w.step(op).is_err() {
                return (vec![ops[0], op], true);
            }
            ops.pop();
        }
        guard::set(&cur_prop(), cur_ids::<Id>(), &ops, "");
        while ops.len() <= steps {
            let spent = t.get_or_insert_with(Instant::now).elapsed();
            if spent > Duration::from_secs(6) {
                break;
            }
            let m = &w.cur.m;
            let args: Vec<usize> = [0, 1, m.len() / 2, GIANT - 2, GIANT - 1, m.len() - 2, m.len() - 1].into_iter().filter(|&i| m.alive(i)).collect();
            // Towards the end all trees go away and new ones come.
            let late = (ops.len() * 2 > steps || spent > Duration::from_secs(3)) && !emptied;
            if args.is_empty() || late {
                let op = match (0..m.len()).find(|&i| m.alive(i) && m.parent[i].is_none()) {
                    Some(n) => Op::Remove { n, via: 0 },
                    None => {
                        emptied = true;
                        Op::Root
                    }
                };
                ops.push(op);
                guard::push(op);
                if w.step(op).is_err() || h && w.check_handles(Some(op)).is_err() {
                    return (ops, true);
                }
                continue;
            }
            let fam = if ops.len() % 3 == 2 { [Fam::Insert, Fam::Detach, Fam::DetachSingle][r.below(3)] } else { fams[r.below(fams.len())] };
            let mut some: Vec<usize> = (0..2).map(|_| args[r.below(args.len())]).collect();
            some.sort();
            some.dedup();
            if r.below(2) == 1 {
                some.reverse();
            }
            if some.len() == 1 && r.below(3) > 0 && args.len() > 1 && matches!(fam, Fam::Insert) {
                continue;
            }
            let all = ops_of(fam, &some, m, true);
            if all.is_empty() {
                continue;
            }
            let op = all[r.below(all.len())];
            ops.push(op);
            guard::push(op);
            if w.step(op).is_err() || h && w.check_handles(Some(op)).is_err() {
                return (ops, true);
            }
        }
        (ops, false)
    }
    let mut r = Rng::new(c.seed ^ 4711);
    let prop = c.prop.clone();
    let h = prop == "C18";
    guard::patient(true);
    for round in 0..(if c.thorough { 12 } else { 2 }) {
        if c.time_up() {
            break;
        }
        let star = round % 2 == 1;
        let (idty, (ops, bad)) = match round % 3 {
            0 => ("u32", go::<NodeIdU32>(&mut r, star, fams, 60, h)),
            1 => ("usize", go::<NodeIdUsize>(&mut r, star, fams, 60, h)),
            _ => ("u64", go::<NodeIdU64>(&mut r, star, fams, 60, h)),
        };
        c.note_case(&|| script_text(&prop, idty, &ops, ""), hash(&ops), true);
        if bad {
            if let Some(f) = try_script(c, idty, &ops) {
                return Some(f);
            }
        }
    }
    guard::patient(false);
    None
}

/// The iterators on a chain and on a star of more nodes than 16 bits can count.
fn giant_walks(c: &mut Ctx) -> Option<Found> {
    guard::patient(true);
    for star in [false, true] {
        let ops = vec![Op::Build { star, n: GIANT }];
        let Ok(w) = run_script::<NodeIdU32>(&ops, false) else { continue };
        let mut its: Vec<It> = its_of(&c.prop).into_iter().filter(|i| !matches!(i, It::Shallow(Some(d)) if *d != 1 && *d != 65536)).collect();
        // The traversal without a queue looks at a chain once per level.
        its.retain(|i| star || *i != It::Bft);
        for it in its {
            for s in [0, 1, GIANT / 2, GIANT - 1] {
                let ps = if double_ended(it) { vec![vec![false], vec![true], vec![false, true, true]] } else { vec![vec![]] };
                for p in ps {
                    if c.time_up() {
                        return None;
                    }
                    if let Some(f) = walk_one(c, &w, &ops, "u32", it, s, &p, false) {
                        return Some(f);
                    }
                }
            }
        }
    }
    guard::patient(false);
    None
}

fn random_history(c: &mut Ctx, r: &mut Rng, idty: &str, len: usize, limit: usize, fams: &[Fam]) -> Option<Found> {
    // Generate against the model of a real run, so that arguments are live.
    fn gen<Id: NodeId>(r: &mut Rng, len: usize, limit: usize, fams: &[Fam], dead: bool, handles_too: bool) -> Vec<Op> {
        let mut w = World::<Id>::new();
        guard::set(&cur_prop(), cur_ids::<Id>(), &[], "");
        let mut ops = vec![];
        for _ in 0..len {
            let live = w.cur.m.live();
            let op = if dead && r.below(5) == 0 && w.cur.m.len() > 0 {
                let args: Vec<usize> = (0..2).map(|_| r.below(w.cur.m.len())).collect();
                let fam = fams[r.below(fams.len())];
                let all = ops_of(fam, &args, &w.cur.m, true);
                if all.is_empty() || fam == Fam::CloneLocal || fam == Fam::CloneForeign {
                    continue;
                }
                all[r.below(all.len())]
            } else if fams.len() < 4 && r.below(3) == 0 && live.len() > 1 {
                let args: Vec<usize> = (0..2).map(|_| live[r.below(live.len())]).collect();
                let all = ops_of(fams[r.below(fams.len())], &args, &w.cur.m, true);
                let op = all[r.below(all.len())];
                if matches!(op, Op::CloneLocal { .. } | Op::Create { .. } | Op::Root | Op::CloneForeign { .. }) && live.len() >= limit {
                    continue;
                }
                op
            } else {
                random_op(r, &w.cur.m, limit)
            };
            ops.push(op);
            guard::push(op);
            if w.step(op).is_err() {
                break;
            }
            if handles_too && w.check_handles(Some(op)).is_err() {
                break;
            }
        }
        ops
    }
    let dead = c.prop == "C07";
    let h = c.prop == "C18";
    let ops = match idty {
        "u8" => gen::<NodeIdU8>(r, len, limit, fams, dead, h),
        "u16" => gen::<NodeIdU16>(r, len, limit, fams, dead, h),
        "u32" => gen::<NodeIdU32>(r, len, limit, fams, dead, h),
        "u64" => gen::<NodeIdU64>(r, len, limit, fams, dead, h),
        "custom" => gen::<MyId>(r, len, limit, fams, dead, h),
        _ => gen::<NodeIdUsize>(r, len, limit, fams, dead, h),
    };
    let prop = c.prop.clone();
    c.note_case(&|| script_text(&prop, idty, &ops, ""), hash(&ops), ops.len() > 5);
    try_script(c, idty, &ops)
}

// ---------------------------------------------------------------- traversals

fn its_of(prop: &str) -> Vec<It> {
    let sh = |v: &mut Vec<It>| {
        v.push(It::Shallow(None));
        for d in 0..6 {
            v.push(It::Shallow(Some(d)));
        }
        for d in [255, 256, 65536, 1 << 31, 1 << 32, 1 << 63] {
            v.push(It::Shallow(Some(d)));
        }
        v.push(It::Shallow(Some(usize::MAX - 1)));
        v.push(It::Shallow(Some(usize::MAX)));
    };
    let sib = [It::Ancestors, It::AncestorsOrSelf, It::Children, It::Following, It::FollowingOrSelf, It::Preceding, It::PrecedingOrSelf];
    let mut v = vec![];
    match prop {
        "C08" => v.push(It::Dft),
        "C09" => sh(&mut v),
        "C10" => v.extend([It::Bft, It::ABft]),
        "C11" => v.extend(sib),
        _ => {
            v.push(It::Dft);
            sh(&mut v);
            v.extend([It::Bft, It::ABft]);
            v.extend(sib);
        }
    }
    v
}
fn double_ended(it: It) -> bool {
    !matches!(it, It::Bft | It::ABft | It::Ancestors | It::AncestorsOrSelf)
}
fn dirs_text(d: &[bool]) -> String {
    d.iter().map(|&b| if b { 'b' } else { 'f' }).collect()
}

fn walk_one<Id: NodeId>(c: &mut Ctx, w: &World<Id>, ops: &[Op], idty: &str, it: It, n: usize, dirs: &[bool], ff: bool) -> Option<Found> {
    let prop = c.prop.clone();
    let tail = format!("walk {} {} {} {}\n", it, n, if dirs.is_empty() { "f".to_string() } else { dirs_text(dirs) }, if ff { "forest" } else { "node" });
    guard::set(&prop, idty, ops, &tail);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&w.cur, it, n, dirs, ff, prop == "C17")));
    let key = hash(&(ops, it.to_string(), n, dirs));
    c.note_case(&|| script_text(&prop, idty, ops, &tail), key, matches!(&res, Ok(Ok(k)) if *k > 1));
    let bad = match res {
        Err(_) => Some((false, "the iterator panicked".to_string())),
        Ok(Err(p)) => Some((p.peek, p.msg)),
        Ok(Ok(_)) => None,
    };
    match bad {
        Some((peek, msg)) if peek == (prop == "C17") => Some(Found { script: script_text(&prop, idty, ops, &tail), msg: if msg.chars().count() > 2000 { format!("{} ...", msg.chars().take(2000).collect::<String>()) } else { msg } }),
        _ => None,
    }
}

fn patterns(r: &mut Rng, len: usize, full: bool) -> Vec<Vec<bool>> {
    let mut out: Vec<Vec<bool>> = vec![vec![false], vec![true], vec![false, true], vec![true, false], vec![false, false, true], vec![true, true, false]];
    if full {
        out = (0..(1u32 << len)).map(|b| (0..len).map(|i| b >> i & 1 == 1).collect()).collect();
        if out.is_empty() || len == 0 {
            out = vec![vec![false], vec![true]];
        }
    } else {
        for _ in 0..6 {
            out.push((0..len.max(1)).map(|_| r.below(2) == 1).collect());
        }
        // switch direction once, at every point
        for k in 0..len.min(24) {
            out.push((0..len).map(|i| i >= k).collect());
            out.push((0..len).map(|i| i < k).collect());
        }
    }
    out
}

fn walk_battery(c: &mut Ctx) -> Option<Found> {
    let its = its_of(&c.prop);
    let mut r = Rng::new(c.seed ^ 77);
    let full_len = if c.thorough { 14 } else { 10 };
    let nmax = if c.thorough { 8 } else { 6 };
    for n in 1..=nmax {
        for d in forests(n) {
            for variant in 0..2 {
                if c.time_up() {
                    return None;
                }
                let (b, _) = build(&d, variant);
                let w = match run_script::<NodeIdUsize>(&b, false) {
                    Ok(w) => w,
                    Err(_) => continue, // another property's business
                };
                for &it in &its {
                    if let It::Shallow(Some(k)) = it {
                        if k > n && k < 255 {
                            continue;
                        }
                    }
                    for s in w.cur.m.live() {
                        let len = expected(&w.cur.m, it, s).len();
                        let ps = if double_ended(it) { patterns(&mut r, len, len <= full_len && variant == 0) } else { vec![vec![]] };
                        for p in ps {
                            if let Some(f) = walk_one(c, &w, &b, "usize", it, s, &p, variant == 1) {
                                return Some(f);
                            }
                        }
                    }
                }
            }
        }
    }
    // larger shapes and other ID types
    for sz in [12usize, 30, if c.thorough { 200 } else { 70 }, 300] {
        for (k, d) in if sz == 300 { huge_shapes() } else { large_shapes(&mut r, sz) }.into_iter().enumerate() {
            if c.time_up() {
                return None;
            }
            let (b, _) = build(&d, k % 2);
            fn go<Id: NodeId>(c: &mut Ctx, r: &mut Rng, b: &[Op], its: &[It], idty: &str) -> Option<Found> {
                let w = run_script::<Id>(b, false).ok()?;
                let live = w.cur.m.live();
                let mut starts = vec![live[0]];
                for _ in 0..(if live.len() >= 300 { 1 } else { 5 }) {
                    starts.push(live[r.below(live.len())]);
                }
                for &it in its {
                    for &s in &starts {
                        let len = expected(&w.cur.m, it, s).len();
                        let ps = if double_ended(it) { patterns(r, len, false) } else { vec![vec![]] };
                        for p in ps {
                            if let Some(f) = walk_one(c, &w, b, idty, it, s, &p, false) {
                                return Some(f);
                            }
                        }
                    }
                }
                None
            }
            let f = match if sz == 300 { k % 3 + 1 } else { k % 6 } {
                0 => go::<NodeIdU8>(c, &mut r, &b, &its, "u8"),
                1 => go::<NodeIdU16>(c, &mut r, &b, &its, "u16"),
                2 => go::<NodeIdU32>(c, &mut r, &b, &its, "u32"),
                3 => go::<NodeIdU64>(c, &mut r, &b, &its, "u64"),
                4 => go::<MyId>(c, &mut r, &b, &its, "custom"),
                _ => go::<NodeIdUsize>(c, &mut r, &b, &its, "usize"),
            };
            if f.is_some() {
                return f;
            }
        }
    }
    None
}

// ------------------------------------------------------------------- driver

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let mut prop = String::new();
    let mut idty = "usize".to_string();
    let mut ops = vec![];
    let mut found: Option<String> = None;
    for line in text.lines() {
        let line = line.trim();
        let (a, b) = line.split_once(' ').unwrap_or((line, ""));
        match a {
            "property" => prop = b.to_string(),
            "ids" => idty = b.to_string(),
            "op" => ops.push(parse_op(b).expect("operation")),
            "walk" => {
                let p: Vec<&str> = b.split_whitespace().collect();
                let dirs: Vec<bool> = p[2].chars().map(|ch| ch == 'b').collect();
                if let Ok(w) = run_script::<NodeIdUsize>(&ops, false) {
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&w.cur, parse_it(p[0]), p[1].parse().unwrap(), &dirs, p[3] == "forest", prop == "C17"))) {
                        Ok(Ok(_)) => {}
                        Ok(Err(e)) => found = Some(e.msg),
                        Err(_) => found = Some("the iterator panicked".into()),
                    }
                }
            }
            "extra" => found = extra::replay(b),
            _ => {}
        }
    }
    if found.is_none() && !ops.is_empty() {
        if let Err((n, f)) = run_script_id(&idty, &ops, prop == "C18") {
            found = Some(format!("{:?}: {} (operation {})", f.aspect, f.msg, n));
        }
    }
    match found {
        Some(m) => {
            println!("REPRODUCED property={} {}", prop, m);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Where the last panic was.
static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|l| l.replace('\n', " ")).unwrap_or_default()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = i.to_string();
        }
    }));
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        std::process::exit(replay(&args[2]));
    }
    // harness run PROP TIER SEED OUTDIR SECONDS
    let prop = args[2].clone();
    let thorough = args[3] == "thorough";
    let seed: u64 = args[4].parse().unwrap_or(1);
    let out = args[5].clone();
    let secs: u64 = args[6].parse().unwrap_or(60);
    let t0 = Instant::now();
    guard::watch(out.clone());
    let mut c = Ctx {
        prop: prop.clone(),
        thorough,
        seed,
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        deadline: t0 + Duration::from_secs(secs),
        notes: vec![],
        truncated: false,
    };
    let found = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match prop.as_str() {
        "C08" | "C09" | "C10" | "C11" | "C17" => walk_battery(&mut c).or_else(|| giant_walks(&mut c)),
        "C14" => extra::ids(&mut c).or_else(|| op_battery_small(&mut c)),
        "C15" => extra::builders(&mut c),
        "C19" => extra::printing(&mut c),
        _ => op_battery(&mut c),
    })) {
        Ok(f) => f,
        // A panic where none is expected: in the code that looks at the forest.
        Err(_) => {
            let why = format!("unexpected panic: {}", last_panic());
            eprintln!("{}", why);
            guard::report(&why)
        }
    };
    let mut j = String::from("{");
    j.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"truncated\":{},\"wall_s\":{:.3},", c.evals, c.distinct.len(), c.truncated, t0.elapsed().as_secs_f64()));
    j.push_str(&format!("\"samples\":[{}],", c.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")));
    match &found {
        Some(f) => j.push_str(&format!("\"found\":{{\"script\":{},\"msg\":{}}}", json_str(&f.script), json_str(&f.msg))),
        None => j.push_str("\"found\":null"),
    }
    j.push('}');
    std::fs::write(&out, j).expect("write result");
    std::process::exit(if found.is_some() { 1 } else { 0 });
}

fn op_battery_small(c: &mut Ctx) -> Option<Found> {
    let mut r = Rng::new(c.seed);
    for round in 0..120 {
        let idty = IDTYPES[round % 6];
        if let Some(f) = random_history(c, &mut r, idty, 30, 12, &ALL_FAMS) {
            return Some(f);
        }
    }
    None
}
