//! Iterator oracles: every traversal against sequences computed from the model.
use crate::world::*;
use treena::dynamic::{DftEvent, Forest, NodeId};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum It {
    Dft,
    Shallow(Option<usize>),
    Bft,
    ABft,
    Ancestors,
    AncestorsOrSelf,
    Children,
    Following,
    FollowingOrSelf,
    Preceding,
    PrecedingOrSelf,
}
impl std::fmt::Display for It {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            It::Shallow(None) => write!(f, "shallow-none"),
            It::Shallow(Some(d)) => write!(f, "shallow-{}", d),
            x => write!(f, "{:?}", x),
        }
    }
}
pub fn parse_it(s: &str) -> It {
    match s {
        "Dft" => It::Dft,
        "Bft" => It::Bft,
        "ABft" => It::ABft,
        "Ancestors" => It::Ancestors,
        "AncestorsOrSelf" => It::AncestorsOrSelf,
        "Children" => It::Children,
        "Following" => It::Following,
        "FollowingOrSelf" => It::FollowingOrSelf,
        "Preceding" => It::Preceding,
        "PrecedingOrSelf" => It::PrecedingOrSelf,
        "shallow-none" => It::Shallow(None),
        s => It::Shallow(Some(s.strip_prefix("shallow-").expect("iterator").parse().unwrap())),
    }
}

/// One yielded item: kind 0 open, 1 close, 2 plain; node; depth if given.
pub type Item = (u8, usize, Option<usize>);

pub fn expected(m: &Model, it: It, n: usize) -> Vec<Item> {
    fn dft(m: &Model, n: usize, max: Option<usize>, with: bool, out: &mut Vec<Item>) {
        // node, depth, number of the next child
        let mut stack = vec![(n, 0, 0)];
        while let Some((i, d, k)) = stack.pop() {
            let dd = if with { Some(d) } else { None };
            if k == 0 {
                out.push((0, i, dd));
            }
            match m.kids[i].get(k) {
                Some(&c) if max != Some(d) => stack.extend([(i, d, k + 1), (c, d + 1, 0)]),
                _ => out.push((1, i, dd)),
            }
        }
    }
    let sib = |lo: i64, hi: i64| -> Vec<Item> {
        match m.parent[n] {
            None => {
                if lo <= 0 && 0 <= hi {
                    vec![(2, n, None)]
                } else {
                    vec![]
                }
            }
            Some(p) => {
                let pos = m.kids[p].iter().position(|&c| c == n).unwrap() as i64;
                m.kids[p].iter().enumerate().filter(|(i, _)| (*i as i64 - pos) >= lo && (*i as i64 - pos) <= hi).map(|(_, &c)| (2, c, None)).collect()
            }
        }
    };
    let mut out = vec![];
    match it {
        It::Dft => dft(m, n, None, false, &mut out),
        It::Shallow(max) => dft(m, n, max, true, &mut out),
        It::Bft | It::ABft => {
            let mut level = vec![n];
            let mut d = 0;
            while !level.is_empty() {
                out.extend(level.iter().map(|&i| (2, i, Some(d))));
                level = level.iter().flat_map(|&i| m.kids[i].iter().copied()).collect();
                d += 1;
            }
        }
        It::Ancestors | It::AncestorsOrSelf => {
            let mut c = if it == It::Ancestors { m.parent[n] } else { Some(n) };
            while let Some(i) = c {
                out.push((2, i, None));
                c = m.parent[i];
            }
        }
        It::Children => out.extend(m.kids[n].iter().map(|&c| (2, c, None))),
        It::Following => out = sib(1, i64::MAX),
        It::FollowingOrSelf => out = sib(0, i64::MAX),
        It::Preceding => out = sib(i64::MIN, -1),
        It::PrecedingOrSelf => out = sib(i64::MIN, 0),
    }
    out
}

pub struct Problem {
    pub peek: bool,
    pub msg: String,
}

/// Runs the iterator with the given directions (false: front, true: back) and
/// compares items, peeks and size hints with the expected sequence.
pub fn run<Id: NodeId>(s: &Side<Id>, it: It, n: usize, dirs: &[bool], from_forest: bool, peeks: bool) -> Result<usize, Problem> {
    let want = expected(&s.m, it, n);
    let f: &Forest<Id, D> = &s.f;
    let node = f.node(s.ids[n]).ok_or(Problem { peek: false, msg: "start node has no handle".into() })?;
    let ix = |id: Id| s.idx(id).unwrap_or(usize::MAX);
    let id = s.ids[n];
    let plain = |x: Option<treena::dynamic::Node<'_, Id, D>>| -> Option<Item> { x.map(|x| (2, ix(x.id()), None)) };
    let lev = |x: Option<(treena::dynamic::Node<'_, Id, D>, usize)>| -> Option<Item> { x.map(|(x, d)| (2, ix(x.id()), Some(d))) };
    let ev = |x: Option<DftEvent<treena::dynamic::Node<'_, Id, D>>>| -> Option<Item> {
        x.map(|e| match e {
            DftEvent::Open(x) => (0, ix(x.id()), None),
            DftEvent::Close(x) => (1, ix(x.id()), None),
        })
    };
    let sev = |x: Option<(DftEvent<treena::dynamic::Node<'_, Id, D>>, usize)>| -> Option<Item> {
        x.map(|(e, d)| match e {
            DftEvent::Open(x) => (0, ix(x.id()), Some(d)),
            DftEvent::Close(x) => (1, ix(x.id()), Some(d)),
        })
    };
    // Helper shims so that one driver serves single- and double-ended iterators.
    macro_rules! de {
        ($iter:expr, $conv:expr) => {{
            drive_de(&want, dirs, peeks, $iter, &$conv, |i| i.next_back(), |i| Some(i.peek()), |i| Some(i.peek_back()))?
        }};
    }
    macro_rules! pick {
        ($m:ident) => {
            if from_forest { f.$m(id) } else { node.$m() }
        };
    }
    match it {
        It::Dft => de!(pick!(depth_first_traverse), ev),
        It::Shallow(max) => {
            let i = if from_forest { f.shallow_depth_first_traverse(id, max) } else { node.shallow_depth_first_traverse(max) };
            let wantmax = if max == Some(usize::MAX) { None } else { max };
            if peeks && i.max_depth() != wantmax {
                return Err(Problem { peek: true, msg: format!("max_depth() is {:?}, given {:?}", i.max_depth(), max) });
            }
            de!(i, sev)
        }
        It::Bft => drive_se(&want, peeks, pick!(breadth_first_traverse), &lev, |_| None)?,
        It::ABft => drive_se(&want, peeks, pick!(allocating_breadth_first_traverse), &lev, |i| Some(i.peek()))?,
        It::Ancestors => drive_se(&want, peeks, pick!(ancestors), &plain, |i| Some(i.peek()))?,
        It::AncestorsOrSelf => drive_se(&want, peeks, pick!(ancestors_or_self), &plain, |i| Some(i.peek()))?,
        It::Children => de!(pick!(children), plain),
        It::Following => de!(pick!(following_siblings), plain),
        It::FollowingOrSelf => de!(pick!(following_siblings_or_self), plain),
        It::Preceding => de!(pick!(preceding_siblings), plain),
        It::PrecedingOrSelf => de!(pick!(preceding_siblings_or_self), plain),
    }
    Ok(want.len())
}

/// The steps so far; of many, how many and the last ones.
fn short(trace: &str) -> String {
    match trace.len() {
        n if n > 400 => format!("{} steps, the last ones {}", n, &trace[n - 100..]),
        _ => trace.to_string(),
    }
}

fn hint(trace: &str, (l, u): (usize, Option<usize>), rem: usize) -> Result<(), Problem> {
    if l > rem || u.map_or(false, |u| u < rem) {
        return Err(Problem { peek: true, msg: format!("after steps [{}] size_hint is {:?} but {} items remain", short(trace), (l, u), rem) });
    }
    Ok(())
}

/// What the provided methods of the iterator must give for the items that remain; on clones, so the iterator stays as it is.
fn provided<I: Iterator + Clone>(trace: &str, want: &[Item], iter: &I, conv: &dyn Fn(Option<I::Item>) -> Option<Item>) -> Result<(), Problem> {
    let bad = |what: &str, got: &dyn std::fmt::Debug, exp: &dyn std::fmt::Debug| Err(Problem { peek: false, msg: format!("after steps [{}] {} gives {:?}, expected {:?} (0 open, 1 close, 2 node; node number; depth)", short(trace), what, got, exp) });
    let c = iter.clone().count();
    if c != want.len() {
        return bad("count()", &c, &want.len());
    }
    let l = conv(iter.clone().last());
    if l != want.last().copied() {
        return bad("last()", &l, &want.last());
    }
    let all: Vec<Option<Item>> = iter.clone().fold(vec![], |mut v, x| {
        v.push(conv(Some(x)));
        v
    });
    if all.iter().map(|x| x.unwrap()).ne(want.iter().copied()) {
        return bad("fold()", &all, &want);
    }
    let mut all = vec![];
    iter.clone().for_each(|x| all.push(conv(Some(x)).unwrap()));
    if all != want {
        return bad("for_each()", &all, &want);
    }
    let n = want.len();
    for k in [0, 1, 2, 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1] {
        let mut i = iter.clone();
        let got = (conv(i.nth(k)), conv(i.next()));
        let exp = (want.get(k).copied(), want.get(k + 1).copied());
        if got != exp {
            return bad(&format!("nth({}), then next()", k), &got, &exp);
        }
        let got: Vec<_> = iter.clone().skip(k).map(|x| conv(Some(x)).unwrap()).collect();
        if got != want[k.min(n)..] {
            return bad(&format!("skip({})", k), &got, &&want[k.min(n)..]);
        }
    }
    let got: Vec<_> = iter.clone().step_by(3).map(|x| conv(Some(x)).unwrap()).collect();
    let exp: Vec<_> = want.iter().copied().step_by(3).collect();
    if got != exp {
        return bad("step_by(3)", &got, &exp);
    }
    Ok(())
}

/// The same for the methods that work from the back.
fn provided_back<I: DoubleEndedIterator + Clone>(trace: &str, want: &[Item], iter: &I, conv: &dyn Fn(Option<I::Item>) -> Option<Item>) -> Result<(), Problem> {
    let bad = |what: &str, got: &dyn std::fmt::Debug, exp: &dyn std::fmt::Debug| Err(Problem { peek: false, msg: format!("after steps [{}] {} gives {:?}, expected {:?} (0 open, 1 close, 2 node; node number; depth)", short(trace), what, got, exp) });
    let rev: Vec<Item> = want.iter().rev().copied().collect();
    let all: Vec<Item> = iter.clone().rfold(vec![], |mut v, x| {
        v.push(conv(Some(x)).unwrap());
        v
    });
    if all != rev {
        return bad("rfold()", &all, &rev);
    }
    let all: Vec<Item> = iter.clone().rev().map(|x| conv(Some(x)).unwrap()).collect();
    if all != rev {
        return bad("rev()", &all, &rev);
    }
    let n = want.len();
    for k in [0, 1, 2, 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1] {
        let mut i = iter.clone();
        let got = (conv(i.nth_back(k)), conv(i.next_back()), conv(i.next()));
        let exp = (rev.get(k).copied(), rev.get(k + 1).copied(), if k + 2 < n { want.first().copied() } else { None });
        if got != exp {
            return bad(&format!("nth_back({}), then next_back(), then next()", k), &got, &exp);
        }
        let mut i = iter.clone();
        let got = (conv(i.nth(k)), conv(i.next_back()), conv(i.next()));
        let exp = (want.get(k).copied(), if k + 1 < n { want.last().copied() } else { None }, if k + 2 < n { want.get(k + 1).copied() } else { None });
        if got != exp {
            return bad(&format!("nth({}), then next_back(), then next()", k), &got, &exp);
        }
    }
    Ok(())
}

fn drive_de<I: DoubleEndedIterator + Clone>(
    want: &[Item],
    dirs: &[bool],
    peeks: bool,
    mut iter: I,
    conv: &dyn Fn(Option<I::Item>) -> Option<Item>,
    next_back: impl Fn(&mut I) -> Option<I::Item>,
    peek: impl Fn(&I) -> Option<Option<I::Item>>,
    peek_back: impl Fn(&I) -> Option<Option<I::Item>>,
) -> Result<(), Problem> {
    let (mut lo, mut hi) = (0, want.len());
    let mut trace = String::new();
    for step_no in 0.. {
        let (front, back) = if lo < hi { (Some(want[lo]), Some(want[hi - 1])) } else { (None, None) };
        // What the peeks promise, when they are what is being looked at. A panicking peek is a peek problem.
        let mut seen = (None, None);
        if peeks {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (peek(&iter).map(|p| conv(p)), peek_back(&iter).map(|p| conv(p))))) {
                Err(_) => return Err(Problem { peek: true, msg: format!("after steps [{}] peeking panicked", short(&trace)) }),
                Ok(x) => seen = x,
            }
            hint(&trace, iter.size_hint(), hi - lo)?;
        } else if dirs.len() <= 2 && (step_no == 0 && dirs.len() == 1 || step_no == want.len() / 2 || step_no == want.len()) {
            provided(&trace, &want[lo..hi], &iter, conv)?;
            provided_back(&trace, &want[lo..hi], &iter, conv)?;
        }
        if step_no >= want.len() + 3 {
            break;
        }
        let dir = !dirs.is_empty() && dirs[step_no % dirs.len()];
        let (got, exp) = if dir { (conv(next_back(&mut iter)), back) } else { (conv(iter.next()), front) };
        if let Some(p) = if dir { seen.1 } else { seen.0 } {
            if p != got {
                return Err(Problem { peek: true, msg: format!("after steps [{}] peek{} is {:?}, but the next item is {:?}", short(&trace), if dir { "_back" } else { "" }, p, got) });
            }
        }
        trace.push(if dir { 'b' } else { 'f' });
        if got != exp {
            return Err(Problem { peek: false, msg: format!("after steps [{}] the iterator yielded {:?}, expected {:?} (0 open, 1 close, 2 node; node number; depth)", short(&trace), got, exp) });
        }
        if got.is_some() {
            if dir {
                hi -= 1
            } else {
                lo += 1
            }
        }
    }
    Ok(())
}

fn drive_se<I: Iterator + Clone>(
    want: &[Item],
    peeks: bool,
    mut iter: I,
    conv: &dyn Fn(Option<I::Item>) -> Option<Item>,
    peek: impl Fn(&I) -> Option<Option<I::Item>>,
) -> Result<(), Problem> {
    let mut trace = String::new();
    for lo in 0..want.len() + 3 {
        let front = want.get(lo).copied();
        let mut seen = None;
        if peeks {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| peek(&iter).map(|p| conv(p)))) {
                Err(_) => return Err(Problem { peek: true, msg: format!("after steps [{}] peeking panicked", short(&trace)) }),
                Ok(x) => seen = x,
            }
            hint(&trace, iter.size_hint(), want.len().saturating_sub(lo))?;
        } else if lo == 0 || lo == want.len() / 2 || lo == want.len() {
            provided(&trace, &want[lo..], &iter, conv)?;
        }
        let got = conv(iter.next());
        if let Some(p) = seen {
            if p != got {
                return Err(Problem { peek: true, msg: format!("after steps [{}] peek is {:?}, but the next item is {:?}", short(&trace), p, got) });
            }
        }
        trace.push('f');
        if got != front {
            return Err(Problem { peek: false, msg: format!("after steps [{}] the iterator yielded {:?}, expected {:?} (0 open, 1 close, 2 node; node number; depth)", short(&trace), got, front) });
        }
    }
    Ok(())
}
