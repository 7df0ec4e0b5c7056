/// What the contracts say together, for every forest and every history.
pub mod th {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::mv::*;
    use crate::fo::*;
    use crate::rm::*;

    /// Child number `j` of `p` is the only place of its node.
    pub open spec fn place(t: Tr, i: int, p: int, j: int) -> bool {
        isk(t, p, j) && t.kids[p][j] == i
    }

    /// What "structurally consistent" means for a caller, who sees the relations from each node.
    pub proof fn thm_forest(s: Raw)
        requires
            wf(s),
        ensures
            // Relatives of a live node are live.
            forall|i: int| #![trigger live(s, i)] live(s, i) ==> olive(s, s[i].parent) && olive(s, next_of(abs(s), i)) && olive(s, prev_of(abs(s), i)),
            // Parent and child agree, in both directions.
            forall|i: int, p: int| #![trigger live(s, i), live(s, p)] live(s, i) && live(s, p) ==> (abs(s).parent[i] == Some(p) <==> abs(s).kids[p].contains(i)),
            // Next and previous sibling agree, in both directions, and have the same parent.
            forall|a: int, b: int| #![trigger live(s, a), live(s, b)] live(s, a) && live(s, b) ==> (next_of(abs(s), a) == Some(b) <==> prev_of(abs(s), b) == Some(a)),
            forall|a: int, b: int| #![trigger live(s, a), live(s, b)] live(s, a) && live(s, b) && next_of(abs(s), a) == Some(b) ==> abs(s).parent[a] == abs(s).parent[b] && abs(s).parent[a] is Some,
            // First and last child are children, at the ends.
            forall|i: int| #![trigger live(s, i)] live(s, i) && s[i].first is Some ==> abs(s).parent[s[i].first->0] == Some(i) && prev_of(abs(s), s[i].first->0) is None,
            forall|i: int| #![trigger live(s, i)] live(s, i) && s[i].first is Some ==> raw_last(s, i) is Some && abs(s).parent[raw_last(s, i)->0] == Some(i) && next_of(abs(s), raw_last(s, i)->0) is None,
            // Every live node is a root or in exactly one place.
            forall|i: int| #![trigger live(s, i)] live(s, i) && abs(s).parent[i] is Some ==> place(abs(s), i, abs(s).parent[i]->0, pos(abs(s), i)),
            forall|i: int, p: int, j: int| #![trigger place(abs(s), i, p, j)] place(abs(s), i, p, j) ==> abs(s).parent[i] == Some(p) && j == pos(abs(s), i),
            // No node is its own ancestor, and going up ends.
            forall|i: int, n: nat| #![trigger up(abs(s), i, n)] live(s, i) && n > 0 ==> up(abs(s), i, n) != Some(i),
            forall|i: int| #![trigger live(s, i)] live(s, i) ==> ends(abs(s), i),
    {
        let t = abs(s);
        lemma_wf(s);
        assert forall|i: int| #![trigger live(s, i)] live(s, i) implies {
            &&& olive(s, s[i].parent) && olive(s, next_of(t, i)) && olive(s, prev_of(t, i))
            &&& t.parent[i] is Some ==> place(t, i, t.parent[i]->0, pos(t, i))
            &&& ends(t, i)
        } by {
            lemma_nav(s, i);
            if t.parent[i] is Some {
                lemma_pos(t, i);
            }
            lemma_up_ends(t, i);
        }
        assert forall|i: int, p: int, j: int| #![trigger place(t, i, p, j)] place(t, i, p, j) implies t.parent[i] == Some(p) && j == pos(t, i) by {
            lemma_pos_of(t, p, j);
        }
        assert forall|i: int, p: int| #![trigger live(s, i), live(s, p)] live(s, i) && live(s, p) implies (t.parent[i] == Some(p) <==> t.kids[p].contains(i)) by {
            if t.parent[i] == Some(p) {
                lemma_pos(t, i);
                assert(t.kids[p][pos(t, i)] == i);
            }
            if t.kids[p].contains(i) {
                let j = choose|j: int| 0 <= j < t.kids[p].len() && t.kids[p][j] == i;
                assert(isk(t, p, j));
            }
        }
        assert forall|a: int, b: int| #![trigger live(s, a), live(s, b)] live(s, a) && live(s, b) implies {
            &&& next_of(t, a) == Some(b) <==> prev_of(t, b) == Some(a)
            &&& next_of(t, a) == Some(b) ==> t.parent[a] == t.parent[b] && t.parent[a] is Some
        } by {
            if t.parent[a] is Some {
                lemma_pos(t, a);
            }
            if t.parent[b] is Some {
                lemma_pos(t, b);
            }
            if next_of(t, a) == Some(b) {
                assert(isk(t, t.parent[a]->0, pos(t, a) + 1));
                lemma_pos_of(t, t.parent[a]->0, pos(t, a) + 1);
            }
            if prev_of(t, b) == Some(a) {
                assert(isk(t, t.parent[b]->0, pos(t, b) - 1));
                lemma_pos_of(t, t.parent[b]->0, pos(t, b) - 1);
            }
        }
        assert forall|i: int| #![trigger live(s, i)] live(s, i) && s[i].first is Some implies {
            &&& t.parent[s[i].first->0] == Some(i) && prev_of(t, s[i].first->0) is None
            &&& raw_last(s, i) is Some && t.parent[raw_last(s, i)->0] == Some(i) && next_of(t, raw_last(s, i)->0) is None
        } by {
            lemma_nav(s, i);
            assert(isk(t, i, 0) && isk(t, i, t.kids[i].len() - 1));
            lemma_pos_of(t, i, 0);
            lemma_pos_of(t, i, t.kids[i].len() - 1);
        }
        assert forall|i: int, n: nat| #![trigger up(t, i, n)] live(s, i) && n > 0 implies up(t, i, n) != Some(i) by {
            if up(t, i, n) == Some(i) {
                lemma_up_rank(t, i, n);
            }
        }
    }

    /// Some number of steps up leads past a root.
    pub open spec fn ends(t: Tr, i: int) -> bool {
        exists|n: nat| #[trigger] up(t, i, n) is None
    }

    proof fn lemma_up_rank(t: Tr, i: int, n: nat)
        requires
            tw(t),
            tl(t, i),
            n > 0,
        ensures
            up(t, i, n) is Some ==> up(t, i, n) != Some(i),
    {
        let (r, m) = choose|r: spec_fn(int) -> nat, m: nat| ranked(t, r, m);
        lemma_up_above(t, i, n, r, m);
    }

    proof fn lemma_up_above(t: Tr, i: int, n: nat, r: spec_fn(int) -> nat, m: nat)
        requires
            tw(t),
            tl(t, i),
            ranked(t, r, m),
        ensures
            up(t, i, n) is Some ==> tl(t, up(t, i, n)->0) && r(up(t, i, n)->0) >= r(i) + n,
        decreases n,
    {
        if n > 0 && t.parent[i] is Some {
            lemma_up_above(t, t.parent[i]->0, (n - 1) as nat, r, m);
            assert(r(i) < r(t.parent[i]->0));
        }
    }

    proof fn lemma_up_ends(t: Tr, i: int)
        requires
            tw(t),
            tl(t, i),
        ensures
            ends(t, i),
    {
        let (r, m) = choose|r: spec_fn(int) -> nat, m: nat| ranked(t, r, m);
        let n = m + 1;
        lemma_up_above(t, i, n, r, m);
        if up(t, i, n) is Some {
            assert(r(up(t, i, n)->0) <= m);
        }
        assert(up(t, i, n) is None);
    }

    /// Insertion: the node is below the destination's parent, right where it was asked for;
    /// everything else, and the order of everything else, is as if the node had only been taken out.
    pub proof fn thm_insert(t: Tr, n: int, d: Dst)
        requires
            tw(t),
            tl(t, n),
            tl(t, anchor(d)),
            refusal(t, n, d) is None,
        ensures
            ({
                let z = t_insert(t, n, d);
                let u = t_detach(t, n);
                let p = dst_parent(t, d)->0;
                &&& tw(z)
                &&& z.alive == t.alive
                &&& z.parent == t.parent.update(n, Some(p))
                &&& z.kids[n] == t.kids[n]
                &&& t_detach(z, n) == u
                &&& d is First ==> pos(z, n) == 0
                &&& d is Last ==> pos(z, n) == z.kids[p].len() - 1
                &&& d is Before ==> next_of(z, n) == Some(anchor(d)) && prev_of(z, n) == prev_of(u, anchor(d))
                &&& d is After ==> prev_of(z, n) == Some(anchor(d)) && next_of(z, n) == next_of(u, anchor(d))
            }),
    {
        thm_detach(t, n);
        let u = t_detach(t, n);
        let p = dst_parent(t, d)->0;
        let k = match d {
            Dst::First(_) => 0,
            Dst::Last(q) => u.kids[q].len() as int,
            Dst::Before(m) => pos(u, m),
            Dst::After(m) => pos(u, m) + 1,
        };
        if d is Before || d is After {
            assert(u.parent[anchor(d)] == Some(p));
            lemma_pos(u, anchor(d));
        }
        let z = t_insert(t, n, d);
        assert(z == paste(u, seq![n], p, k));
        assert(!anc(t, n, p));
        assert(p != n) by {
            lemma_anc_self(t, n);
        }
        assert(tl(u, p));
        assert(!anc(u, n, p)) by {
            if anc(u, n, p) {
                assert forall|j: int| #![trigger u.parent[j]] tl(u, j) && u.parent[j] is Some implies t.parent[j] == u.parent[j] by {}
                lemma_anc_sub(t, u, n, p);
            }
        }
        let r = seq![n];
        assert(u.parent[n] is None);
        lemma_paste_acyc(u, r, p, k);
        lemma_paste_tw(u, r, p, k);
        assert(r.contains(n)) by {
            assert(r[0] == n);
        }
        assert(z.parent =~= t.parent.update(n, Some(p))) by {
            assert forall|i: int| 0 <= i < t.parent.len() implies z.parent[i] == t.parent.update(n, Some(p))[i] by {
                assert(r.contains(i) <==> i == n);
            }
        }
        let zk = z.kids[p];
        assert(zk[k] == n);
        assert(isk(z, p, k));
        lemma_pos_of(z, p, k);
        assert(pos(z, n) == k);
        // Taken out again.
        assert(cut(z, p, k, k + 1) == u) by {
            let c = cut(z, p, k, k + 1);
            let x = zk.subrange(k, k + 1);
            assert(x =~= r);
            assert(zk.subrange(0, k) + zk.subrange(k + 1, zk.len() as int) =~= u.kids[p]);
            assert(c.kids =~= u.kids);
            assert(c.parent =~= u.parent) by {
                assert forall|i: int| 0 <= i < c.parent.len() implies c.parent[i] == u.parent[i] by {
                    assert(r.contains(i) <==> i == n);
                }
            }
        }
        match d {
            Dst::Before(m) => {
                assert(zk[k + 1] == m);
            }
            Dst::After(m) => {
                assert(zk[k - 1] == m);
                if k < u.kids[p].len() {
                    assert(zk[k + 1] == u.kids[p][k]);
                }
            }
            _ => {}
        }
        if d is Before && k > 0 {
            assert(zk[k - 1] == u.kids[p][k - 1]);
        }
    }

    /// Detaching: the node becomes a root, its siblings close up, and everything else stays.
    pub proof fn thm_detach(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
        ensures
            ({
                let u = t_detach(t, n);
                &&& tw(u)
                &&& u.alive == t.alive
                &&& u.parent == t.parent.update(n, None)
                &&& u.kids[n] == t.kids[n]
                &&& t.parent[n] is None ==> u == t
                &&& t.parent[n] is Some ==> {
                    let p = t.parent[n]->0;
                    u.kids == t.kids.update(p, t.kids[p].remove(pos(t, n)))
                }
            }),
    {
        let u = t_detach(t, n);
        match t.parent[n] {
            None => {
                assert(u.parent =~= t.parent.update(n, None));
            }
            Some(p) => {
                lemma_pos(t, n);
                let j = pos(t, n);
                lemma_cut_tw(t, p, j, j + 1);
                let x = t.kids[p].subrange(j, j + 1);
                assert(x =~= seq![n]);
                assert(x[0] == n);
                assert(u.parent =~= t.parent.update(n, None)) by {
                    assert forall|i: int| 0 <= i < u.parent.len() implies u.parent[i] == t.parent.update(n, None)[i] by {
                        assert(x.contains(i) <==> i == n);
                    }
                }
                assert(t.kids[p].subrange(0, j) + t.kids[p].subrange(j + 1, t.kids[p].len() as int) =~= t.kids[p].remove(j));
                lemma_not_own_parent(t, n);
            }
        }
    }

    pub open spec fn splice(k: Seq<int>, j: int, m: Seq<int>) -> Seq<int> {
        k.subrange(0, j) + m + k.subrange(j + 1, k.len() as int)
    }

    /// Detaching a single node: its children take its place, in order; everything else stays.
    pub proof fn thm_detach_single(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
            t.parent[n] is Some || t.kids[n].len() <= 1,
        ensures
            ({
                let z = t_detach_single(t, n);
                let k = t.kids[n];
                &&& z.alive == t.alive
                &&& z.parent.len() == t.parent.len()
                &&& z.parent[n] is None
                &&& z.kids[n] == Seq::<int>::empty()
                &&& forall|i: int| #![trigger z.parent[i]] 0 <= i < t.alive.len() && i != n ==> z.parent[i] == if k.contains(i) { t.parent[n] } else { t.parent[i] }
                &&& forall|i: int| #![trigger z.kids[i]] 0 <= i < t.alive.len() && i != n && t.parent[n] != Some(i) ==> z.kids[i] == t.kids[i]
                &&& t.parent[n] is Some ==> z.kids[t.parent[n]->0] == splice(t.kids[t.parent[n]->0], pos(t, n), k)
            }),
    {
        let z = t_detach_single(t, n);
        let ks = t.kids[n];
        let m = ks.len() as int;
        thm_detach(t, n);
        let u = t_detach(t, n);
        assert(ks.subrange(0, m) =~= ks);
        assert(!ks.contains(n)) by {
            if ks.contains(n) {
                let j = choose|j: int| 0 <= j < ks.len() && ks[j] == n;
                assert(isk(t, n, j));
                lemma_not_own_parent(t, n);
            }
        }
        if ks.len() == 0 {
            assert(ks =~= Seq::empty());
            match t.parent[n] {
                Some(p) => {
                    lemma_pos(t, n);
                    lemma_not_own_parent(t, n);
                    assert(t.kids[p].remove(pos(t, n)) =~= splice(t.kids[p], pos(t, n), ks));
                }
                None => {}
            }
        } else {
            assert(ks.subrange(0, 0) + ks.subrange(m, m) =~= Seq::<int>::empty());
            match t.parent[n] {
                Some(p) => {
                    lemma_pos(t, n);
                    lemma_not_own_parent(t, n);
                    let a = pos(t, n);
                    let c = cut(u, n, 0, m);
                    assert(c.kids[p] == t.kids[p].remove(a));
                    assert(c.kids[p].subrange(0, a) =~= t.kids[p].subrange(0, a));
                    assert(c.kids[p].subrange(a, c.kids[p].len() as int) =~= t.kids[p].subrange(a + 1, t.kids[p].len() as int));
                }
                None => {}
            }
        }
    }

    /// A seq with no dead elements loses nothing.
    proof fn lemma_without_none(k: Seq<int>, a: ISet<int>)
        requires
            forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> !a.contains(k[i]),
        ensures
            without(k, a) == k,
        decreases k.len(),
    {
        if k.len() > 0 {
            let q = k.drop_last();
            assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies !a.contains(q[i]) by {
                assert(q[i] == k[i]);
            }
            assert(k.last() == k[k.len() - 1]);
            lemma_without_none(q, a);
            assert(q.push(k.last()) =~= k);
        } else {
            assert(k =~= Seq::empty());
        }
    }

    /// Removal: exactly the subtree is gone; everything else stays, and the siblings close up.
    pub proof fn thm_remove(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
        ensures
            ({
                let z = t_remove(t, n);
                &&& z.alive.len() == t.alive.len()
                &&& forall|i: int| #![trigger z.alive[i]] 0 <= i < t.alive.len() ==> (z.alive[i] <==> t.alive[i] && !anc(t, n, i))
                &&& forall|i: int| #![trigger z.parent[i]] tl(z, i) ==> z.parent[i] == t.parent[i]
                &&& forall|i: int| #![trigger z.kids[i]] tl(z, i) && t.parent[n] != Some(i) ==> z.kids[i] == t.kids[i]
                &&& t.parent[n] is Some ==> tl(z, t.parent[n]->0) && z.kids[t.parent[n]->0] == t.kids[t.parent[n]->0].remove(pos(t, n))
            }),
    {
        let z = t_remove(t, n);
        let u = t_detach(t, n);
        let dead = crate::rm::sub(t, n);
        thm_detach(t, n);
        lemma_anc_self(t, n);
        if t.parent[n] is Some {
            let p = t.parent[n]->0;
            if anc(t, n, p) {
                lemma_anc_dep(t, n, p);
                lemma_dep(t, n);
            }
        }
        assert forall|i: int| #![trigger z.kids[i]] tl(z, i) implies z.kids[i] == u.kids[i] by {
            assert forall|j: int| #![trigger u.kids[i][j]] 0 <= j < u.kids[i].len() implies !dead.contains(u.kids[i][j]) by {
                let c = u.kids[i][j];
                assert(isk(u, i, j));
                assert(u.parent[c] == Some(i));
                assert(c != n);
                assert(t.parent[c] == Some(i));
                if anc(t, n, c) {
                    let m = choose|m: nat| #[trigger] up(t, c, m) == Some(n);
                    assert(m > 0);
                    assert(up(t, i, (m - 1) as nat) == Some(n));
                }
            }
            lemma_without_none(u.kids[i], dead);
        }
    }
}

/// Histories: what holds after any sequence of operations, by the contracts of the operations alone.
pub mod hist {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::mv::*;
    use crate::fo::*;
    use crate::rm::*;
    use crate::cp::*;
    use crate::bd::*;
    use crate::th::*;
    use crate::dynamic::id::NodeId;
    use crate::dynamic::{AdoptAs, InsertAs};
    use crate::dynamic::forest::Forest;
    use crate::dynamic::forest::node::Node;
    use crate::dynamic::forest::nest_builder::NestTreeBuilder;
    use crate::dynamic::forest::chain_builder::ChainTreeBuilder;

    /// No slot goes away, what is dead stays dead, and what is still alive has the datum it had,
    /// but for the nodes `w` that were written to.
    pub open spec fn kept<T>(s: Raw, d: Seq<Option<T>>, z: Raw, e: Seq<Option<T>>, w: ISet<int>) -> bool {
        &&& s.len() <= z.len()
        &&& d.len() <= e.len()
        &&& forall|i: int| #![trigger live(z, i)] 0 <= i < s.len() && live(z, i) ==> live(s, i)
        &&& forall|i: int| #![trigger e[i]] 0 <= i < s.len() && live(z, i) && !w.contains(i) ==> e[i] == d[i]
    }

    pub proof fn thm_kept_trans<T>(s: Raw, d: Seq<Option<T>>, z: Raw, e: Seq<Option<T>>, y: Raw, g: Seq<Option<T>>, w: ISet<int>, x: ISet<int>)
        requires
            kept(s, d, z, e, w),
            kept(z, e, y, g, x),
        ensures
            kept(s, d, y, g, w.union(x)),
    {
        assert forall|i: int| #![trigger g[i]] 0 <= i < s.len() && live(y, i) && !w.union(x).contains(i) implies g[i] == d[i] by {
            assert(live(z, i));
            assert(e[i] == d[i]);
        }
    }

    /// The states a forest is in, one after another; `w[k]` are the nodes written to by step `k`.
    pub struct Hist<T> {
        pub s: Seq<Raw>,
        pub d: Seq<Seq<Option<T>>>,
        pub w: Seq<ISet<int>>,
    }

    /// Each state is consistent, and each step is one that `step` allows for.
    pub open spec fn run<T>(h: Hist<T>) -> bool {
        &&& h.s.len() == h.d.len()
        &&& h.w.len() == h.s.len()
        &&& forall|k: int| #![trigger h.s[k]] 0 <= k < h.s.len() ==> wf(h.s[k]) && data_ok(h.s[k], h.d[k])
        &&& forall|k: int| #![trigger h.w[k]] 0 < k < h.s.len() ==> kept(h.s[k - 1], h.d[k - 1], h.s[k], h.d[k], h.w[k])
    }

    /// After any number of steps: a node that was dead, or is dead in between, is dead at the end,
    /// and a node that is live at the end has the datum it had, if nobody wrote to it.
    pub proof fn thm_history<T>(h: Hist<T>, a: int, b: int)
        requires
            run(h),
            0 <= a <= b < h.s.len(),
        ensures
            h.s[a].len() <= h.s[b].len(),
            forall|i: int| #![trigger live(h.s[b], i)] 0 <= i < h.s[a].len() && live(h.s[b], i) ==> live(h.s[a], i),
            forall|i: int| #![trigger h.d[b][i]] 0 <= i < h.s[a].len() && live(h.s[b], i) && (forall|k: int| #![trigger h.w[k]] a < k <= b ==> !h.w[k].contains(i)) ==> h.d[b][i] == h.d[a][i],
        decreases b - a,
    {
        if a < b {
            thm_history(h, a, b - 1);
            assert(h.w[b] == h.w[b]);
            assert(kept(h.s[b - 1], h.d[b - 1], h.s[b], h.d[b], h.w[b]));
            assert forall|i: int| #![trigger live(h.s[b], i)] 0 <= i < h.s[a].len() && live(h.s[b], i) implies live(h.s[a], i) by {
                assert(live(h.s[b - 1], i));
            }
            assert forall|i: int| #![trigger h.d[b][i]] 0 <= i < h.s[a].len() && live(h.s[b], i) && (forall|k: int| #![trigger h.w[k]] a < k <= b ==> !h.w[k].contains(i)) implies h.d[b][i] == h.d[a][i] by {
                assert(!h.w[b].contains(i));
                assert(live(h.s[b - 1], i));
                assert(h.d[b - 1][i] == h.d[a][i]);
            }
        }
    }

    /// Lookups by an ID that is dead find nothing, after any history that keeps it dead.
    pub fn lookups<Id: NodeId, T>(f: &mut Forest<Id, T>, id: Id)
        requires
            old(f).ok(),
            !live(old(f).s(), nx(id)),
        ensures
            *final(f) == *old(f),
    {
        let a = f.is_alive(id);
        assert(!a);
        let b = f.node(id);
        assert(b is None);
        let c = f.data(id);
        assert(c is None);
        let d = f.neighbors(id);
        assert(d is None);
        let e = f.node_mut(id);
        assert(e is None);
    }

    pub enum Op<'a, Id: NodeId, T> {
        Root(T),
        Create(T, InsertAs<Id>),
        CreateNear(Id, T, AdoptAs),
        Insert(Id, InsertAs<Id>),
        TryAdopt(Id, Id, AdoptAs),
        Adopt(Id, Id, AdoptAs),
        Detach(Id),
        DetachNode(Id),
        DetachSingle(Id),
        DetachSingleNode(Id),
        Remove(Id),
        RemoveNode(Id),
        RemoveHooked(Id),
        RemoveSafe(Id),
        CloneLocal(Id),
        CloneForeign(Node<'a, Id, T>),
        Write(Id, T),
        WriteNode(Id, T),
        Chain(T, T, T, T),
        Nest(T, T, T),
    }

    pub open spec fn roomy<Id: NodeId, T>(f: Forest<Id, T>, n: int) -> bool {
        f.s().len() + n <= nmax::<Id>() + 1
    }

    /// The operation may be called: what the documentation asks for.
    pub open spec fn may<'a, Id: NodeId, T>(f: Forest<Id, T>, op: Op<'a, Id, T>) -> bool {
        match op {
            Op::Root(_) => roomy(f, 1),
            Op::Create(_, d) => roomy(f, 1) && live(f.s(), anchor(ndst(d))) && dst_parent(f.t(), ndst(d)) is Some,
            Op::CreateNear(n, _, d) => roomy(f, 1) && live(f.s(), nx(n)) && dst_parent(f.t(), ndst(insert_as(d, n))) is Some,
            Op::Insert(n, d) => live(f.s(), nx(n)) && live(f.s(), anchor(ndst(d))),
            Op::TryAdopt(m, n, d) => live(f.s(), nx(m)) && live(f.s(), nx(n)),
            Op::Adopt(m, n, d) => live(f.s(), nx(m)) && live(f.s(), nx(n)) && refusal(f.t(), nx(n), ndst(insert_as(d, m))) is None,
            Op::Detach(n) => live(f.s(), nx(n)),
            Op::DetachSingle(n) => live(f.s(), nx(n)),
            Op::CloneLocal(n) => live(f.s(), nx(n)) && roomy(f, pre(f.t(), nx(n)).len() as int),
            Op::CloneForeign(n) => n.ok() && roomy(f, pre(n.f().t(), n.i()).len() as int),
            Op::Chain(..) => roomy(f, 5),
            Op::Nest(..) => roomy(f, 4),
            _ => true,
        }
    }

    /// The nodes that the operation writes a datum to.
    pub open spec fn writes<'a, Id: NodeId, T>(op: Op<'a, Id, T>) -> ISet<int> {
        match op {
            Op::Write(n, _) => ISet::empty().insert(nx(n)),
            Op::WriteNode(n, _) => ISet::empty().insert(nx(n)),
            _ => ISet::empty(),
        }
    }

    proof fn lemma_kept_op<T>(s: Raw, d: Seq<Option<T>>, z: Raw, e: Seq<Option<T>>)
        requires
            wf(s),
            wf(z),
            data_ok(s, d),
            data_ok(z, e),
            abs(s).alive.len() <= abs(z).alive.len(),
            forall|i: int| #![trigger abs(z).alive[i]] 0 <= i < abs(s).alive.len() && abs(z).alive[i] ==> abs(s).alive[i],
            forall|i: int| #![trigger e[i]] 0 <= i < d.len() && e[i] is Some ==> e[i] == d[i],
        ensures
            kept(s, d, z, e, ISet::empty()),
    {
        lemma_wf(s);
        lemma_wf(z);
        assert forall|i: int| #![trigger live(z, i)] 0 <= i < s.len() && live(z, i) implies live(s, i) && e[i] == d[i] by {
            assert(tl(abs(z), i));
            assert(abs(z).alive[i]);
            assert(tl(abs(s), i));
        }
    }

    fn chain<Id: NodeId, T>(f: &mut Forest<Id, T>, x: T, y: T, z: T, w: T)
        requires
            old(f).ok(),
            roomy(*old(f), 5),
        ensures
            final(f).ok(),
            kept(old(f).s(), old(f).d(), final(f).s(), final(f).d(), ISet::empty()),
    {
        let ghost s = f.s();
        let ghost d = f.d();
        proof {
            nxok::<Id>();
            lemma_wf(s);
        }
        let mut b = ChainTreeBuilder::new(f, x);
        b.child(y);
        b.sibling(z);
        b.parent();
        b.try_parent();
        b.child(w);
        proof {
            lemma_kept_op(s, d, b.f().s(), b.f().d());
        }
    }

    fn nest<Id: NodeId, T>(f: &mut Forest<Id, T>, x: T, y: T, z: T)
        requires
            old(f).ok(),
            roomy(*old(f), 4),
        ensures
            final(f).ok(),
            kept(old(f).s(), old(f).d(), final(f).s(), final(f).d(), ISet::empty()),
    {
        let ghost s = f.s();
        let ghost d = f.d();
        proof {
            nxok::<Id>();
            lemma_wf(s);
        }
        let mut b = NestTreeBuilder::new(f, x);
        let ghost b0 = b;
        b.create_tree(y, |c: &mut NestTreeBuilder<'_, Id, T>|
            requires
                b0.inner(*old(c), y),
            ensures
                old(c).step(*final(c)),
        {
            c.add_child(z);
        });
        proof {
            lemma_kept_op(s, d, b.f().s(), b.f().d());
        }
    }

    /// One operation.
    pub fn step<'a, Id: NodeId, T: Clone>(f: &mut Forest<Id, T>, op: Op<'a, Id, T>)
        requires
            old(f).ok(),
            may(*old(f), op),
        ensures
            final(f).ok(),
            kept(old(f).s(), old(f).d(), final(f).s(), final(f).d(), writes(op)),
    {
        let ghost s = f.s();
        let ghost d = f.d();
        let ghost o = op;
        proof {
            nxok::<Id>();
            lemma_wf(s);
        }
        match op {
            Op::Root(x) => {
                f.create_root(x);
            }
            Op::Create(x, p) => {
                f.create_insert(x, p);
            }
            Op::CreateNear(n, x, p) => {
                if let Some(mut m) = f.node_mut(n) {
                    m.create(x, p);
                }
            }
            Op::Insert(n, p) => {
                let _ = f.insert(n, p);
            }
            Op::TryAdopt(m, n, p) => {
                if let Some(mut m) = f.node_mut(m) {
                    let _ = m.try_adopt(n, p);
                }
            }
            Op::Adopt(m, n, p) => {
                if let Some(mut m) = f.node_mut(m) {
                    m.adopt(n, p);
                }
            }
            Op::Detach(n) => {
                f.detach(n);
            }
            Op::DetachNode(n) => {
                if let Some(mut m) = f.node_mut(n) {
                    m.detach();
                }
            }
            Op::DetachSingle(n) => {
                let _ = f.detach_single(n);
            }
            Op::DetachSingleNode(n) => {
                if let Some(mut m) = f.node_mut(n) {
                    let _ = m.detach_single();
                }
            }
            Op::Remove(n) => {
                f.remove(n);
            }
            Op::RemoveNode(n) => {
                if let Some(m) = f.node_mut(n) {
                    m.remove();
                }
            }
            Op::RemoveHooked(n) => {
                let tracked mut log = log_unused();
                f.remove_hooked(n, |x: T| {}, Tracked(&mut log));
            }
            Op::RemoveSafe(n) => {
                let tracked mut log = log_unused();
                f.remove_hooked_panic_safe(n, |x: T| {}, Tracked(&mut log));
            }
            Op::CloneLocal(n) => {
                f.clone_local_tree(n);
            }
            Op::CloneForeign(n) => {
                f.clone_foreign_tree(n);
            }
            Op::Write(n, x) => {
                if let Some(r) = f.data_mut(n) {
                    *r = x;
                }
            }
            Op::WriteNode(n, x) => {
                if let Some(mut m) = f.node_mut(n) {
                    *m.data_mut() = x;
                }
            }
            Op::Chain(x, y, z, w) => {
                chain(f, x, y, z, w);
            }
            Op::Nest(x, y, z) => {
                nest(f, x, y, z);
            }
        }
        proof {
            match o {
                Op::Write(..) => {}
                Op::WriteNode(..) => {}
                Op::Remove(n) | Op::RemoveNode(n) | Op::RemoveHooked(n) | Op::RemoveSafe(n) => {
                    if live(s, nx(n)) {
                        thm_remove(abs(s), nx(n));
                    }
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::Root(_) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::Create(..) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::CreateNear(..) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::Insert(..) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::TryAdopt(..) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::Adopt(..) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::Detach(_) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::DetachNode(_) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::DetachSingle(_) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::DetachSingleNode(_) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::CloneLocal(_) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::CloneForeign(_) => {
                    lemma_kept_op(s, d, f.s(), f.d());
                }
                Op::Chain(..) => {}
                Op::Nest(..) => {}
            }
        }
    }
}
