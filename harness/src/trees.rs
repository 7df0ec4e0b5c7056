//! Enumeration of ordered forests and of operations, and a small seeded RNG.
use crate::world::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

/// All ordered forests with exactly `n` nodes as preorder depth sequences.
pub fn forests(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        let max = cur.last().map_or(0, |d| d + 1);
        for d in 0..=max {
            cur.push(d);
            go(n, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}
/// All ordered trees with exactly `n` nodes.
pub fn trees(n: usize) -> Vec<Vec<usize>> {
    forests(n).into_iter().filter(|d| d.iter().filter(|&&x| x == 0).count() == 1).collect()
}

/// Parent and ordered children of a depth sequence.
pub fn parents(depths: &[usize]) -> Vec<Option<usize>> {
    let mut stack: Vec<usize> = vec![];
    depths
        .iter()
        .enumerate()
        .map(|(i, &d)| {
            stack.truncate(d);
            let p = stack.last().copied();
            stack.push(i);
            p
        })
        .collect()
}

/// A script that builds the forest. Variant 0 creates in document order, variant 1
/// creates a few nodes that are removed again and creates siblings in reverse order.
pub fn build(depths: &[usize], variant: usize) -> (Vec<Op>, Vec<usize>) {
    let par = parents(depths);
    let n = depths.len();
    let mut ops = vec![];
    let mut at = vec![usize::MAX; n];
    let mut next = 0;
    match variant {
        0 => {
            for i in 0..n {
                ops.push(match par[i] {
                    None => Op::Root,
                    Some(p) => Op::Create { k: K::Last, a: at[p], via: 0 },
                });
                at[i] = next;
                next += 1;
            }
        }
        _ => {
            // One removed root, one removed child somewhere.
            ops.push(Op::Root);
            ops.push(Op::Create { k: K::First, a: 0, via: 0 });
            ops.push(Op::Remove { n: 0, via: 0 });
            next += 2;
            // Level by level, each family from its last child to its first.
            let mut order: Vec<usize> = (0..n).collect();
            order.sort_by_key(|&i| (depths[i], usize::MAX - i));
            for i in order {
                ops.push(match par[i] {
                    None => Op::Root,
                    Some(p) => Op::Create { k: K::First, a: at[p], via: 0 },
                });
                at[i] = next;
                next += 1;
            }
            ops.push(Op::Create { k: K::Last, a: at[0], via: 0 });
            ops.push(Op::Remove { n: next, via: 0 });
        }
    }
    (ops, at)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Fam {
    Root,
    Create,
    Insert,
    Detach,
    DetachSingle,
    Remove,
    RemovePanic,
    CloneLocal,
    CloneForeign,
    SetData,
    CloneForest,
}
pub const ALL_FAMS: [Fam; 11] = [
    Fam::Root, Fam::Create, Fam::Insert, Fam::Detach, Fam::DetachSingle, Fam::Remove, Fam::RemovePanic,
    Fam::CloneLocal, Fam::CloneForeign, Fam::SetData, Fam::CloneForest,
];

/// All operations of a family on the given arguments.
pub fn ops_of(fam: Fam, args: &[usize], m: &Model, all_vias: bool) -> Vec<Op> {
    let mut out = vec![];
    let v = |n: u8| if all_vias { 0..n } else { 0..1 };
    match fam {
        Fam::Root => out.push(Op::Root),
        Fam::CloneForest => out.push(Op::CloneForest),
        Fam::Create => {
            for &a in args {
                for k in KINDS {
                    for via in v(2) {
                        out.push(Op::Create { k, a, via });
                    }
                }
            }
        }
        Fam::Insert => {
            for &n in args {
                for &a in args {
                    for k in KINDS {
                        for via in v(3) {
                            out.push(Op::Insert { n, k, a, via });
                        }
                    }
                }
            }
        }
        Fam::Detach => args.iter().for_each(|&n| v(2).for_each(|via| out.push(Op::Detach { n, via }))),
        Fam::DetachSingle => args.iter().for_each(|&n| v(2).for_each(|via| out.push(Op::DetachSingle { n, via }))),
        Fam::Remove => args.iter().for_each(|&n| v(6).for_each(|via| out.push(Op::Remove { n, via }))),
        Fam::RemovePanic => {
            for &n in args {
                let cnt = if m.alive(n) {
                    let mut po = vec![];
                    m.postorder(n, &mut po);
                    po.len()
                } else {
                    1
                };
                for at in 0..cnt {
                    for via in v(2) {
                        out.push(Op::RemovePanic { n, at, via });
                    }
                }
            }
        }
        Fam::CloneLocal => args.iter().for_each(|&n| v(2).for_each(|via| out.push(Op::CloneLocal { n, via }))),
        Fam::CloneForeign => args.iter().for_each(|&n| v(2).for_each(|via| out.push(Op::CloneForeign { n, via }))),
        Fam::SetData => args.iter().for_each(|&n| v(3).for_each(|via| out.push(Op::SetData { n, via }))),
    }
    out
}

/// A random operation on live nodes; `limit` bounds the number of live nodes.
pub fn random_op(r: &mut Rng, m: &Model, limit: usize) -> Op {
    let live = m.live();
    if live.is_empty() {
        return Op::Root;
    }
    let pick = |r: &mut Rng| live[r.below(live.len())];
    let k = KINDS[r.below(4)];
    let small = live.len() < limit;
    loop {
        let x = r.below(100);
        let op = match x {
            0..=3 if small => Op::Root,
            4..=33 if small => Op::Create { k, a: pick(r), via: r.below(2) as u8 },
            34..=69 => Op::Insert { n: pick(r), k, a: pick(r), via: r.below(3) as u8 },
            70..=76 => Op::Detach { n: pick(r), via: r.below(2) as u8 },
            77..=84 => Op::DetachSingle { n: pick(r), via: r.below(2) as u8 },
            85..=88 if !small || r.below(3) == 0 => Op::Remove { n: pick(r), via: r.below(6) as u8 },
            89..=90 => {
                let n = pick(r);
                let mut po = vec![];
                m.postorder(n, &mut po);
                if po.len() > 8 && small {
                    continue;
                }
                Op::RemovePanic { n, at: r.below(po.len()), via: r.below(2) as u8 }
            }
            91..=93 if small => {
                let n = pick(r);
                let mut po = vec![];
                m.postorder(n, &mut po);
                if po.len() > 12 {
                    continue;
                }
                Op::CloneLocal { n, via: r.below(2) as u8 }
            }
            94..=95 => {
                let n = pick(r);
                let mut po = vec![];
                m.postorder(n, &mut po);
                if po.len() > 12 {
                    continue;
                }
                Op::CloneForeign { n, via: r.below(2) as u8 }
            }
            96 => Op::Swap,
            97 if r.below(4) == 0 => Op::CloneForest,
            98..=99 => Op::SetData { n: pick(r), via: r.below(3) as u8 },
            _ => continue,
        };
        return op;
    }
}

/// A few larger shapes with particular structure, as depth sequences.
/// Deeper and wider than a byte can count.
pub fn huge_shapes() -> Vec<Vec<usize>> {
    let mut out = vec![(0..300).collect(), std::iter::once(0).chain(std::iter::repeat(1).take(299)).collect()];
    // a chain that ends in a bushy tree
    for n in [9usize, 17, 33, 65, 129, 257] {
        let mut v: Vec<usize> = (0..n).collect();
        v.extend([0, 1, 1, 0, 0, 1, 2, 1].iter().map(|d| n + d));
        v.extend([n - 1, n, n - 1]);
        out.push(v);
    }
    // a deep chain with a leaf before, then after each inner node
    out.push(std::iter::once(0).chain((1..90).flat_map(|d| [d, d])).collect());
    let mut v: Vec<usize> = (0..90).collect();
    v.extend((1..90).rev());
    out.push(v);
    // the many children of a child, the first and the last of which have siblings
    out.push([0, 1, 1].iter().copied().chain(std::iter::repeat(2).take(280)).chain([3, 2, 1]).collect());
    // many children, with trees below the late ones
    let mut v: Vec<usize> = std::iter::once(0).chain(std::iter::repeat(1).take(258)).collect();
    v.extend([2, 2, 3, 1, 2, 3, 3, 1]);
    out.push(v);
    out
}

pub fn large_shapes(r: &mut Rng, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    out.push((0..n).collect()); // chain
    out.push(std::iter::once(0).chain(std::iter::repeat(1).take(n - 1)).collect()); // star
    out.push((0..n).map(|i| if i == 0 { 0 } else { 1 + (i + 1) % 2 + (i - 1) / 2 - (i + 1) % 2 }).collect::<Vec<_>>()); // comb-like
    // chain with a leaf before / after each inner node
    let mut c = vec![0];
    let mut d = 1;
    while c.len() + 2 <= n {
        c.push(d);
        c.push(d);
        d += 1;
    }
    out.push(c);
    // binary
    fn bin(d: usize, n: usize, out: &mut Vec<usize>) {
        if n == 0 {
            return;
        }
        out.push(d);
        let l = (n - 1) / 2;
        bin(d + 1, l, out);
        bin(d + 1, n - 1 - l, out);
    }
    let mut b = vec![];
    bin(0, n, &mut b);
    out.push(b);
    for _ in 0..6 {
        let mut v = vec![0usize];
        let bias = 1 + r.below(4);
        while v.len() < n {
            let last = *v.last().unwrap();
            let d = if r.below(bias + 1) > 0 && last > 0 { 1 + r.below(last + 1) } else { last + 1 };
            v.push(d.max(1));
        }
        out.push(v);
    }
    out.into_iter()
        .map(|mut v| {
            // make it a legal depth sequence
            for i in 1..v.len() {
                v[i] = v[i].max(1).min(v[i - 1] + 1);
            }
            v[0] = 0;
            v
        })
        .collect()
}
