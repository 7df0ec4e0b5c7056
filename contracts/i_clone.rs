
pub mod cp {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::mv::*;
    use crate::fo::*;
    use crate::wk::*;
    use crate::rm::*;
    use crate::rm::sub;
    use crate::dynamic::id::NodeId;
    use crate::dynamic::id::private::SealedInternalNodeId;
    use crate::dynamic::hierarchy::traverse::DftEvent;

    // ------------------------------------------------------------------
    // Document order: every node before its children, which are in sibling order.
    pub open spec fn pre(t: Tr, n: int) -> Seq<int>
        decreases rk(t, n), 1int, 0int,
        when tw(t) && tl(t, n)
        via pre_dec
    {
        seq![n] + pres(t, n, t.kids[n].len() as int)
    }

    #[via_fn]
    proof fn pre_dec(t: Tr, n: int) {
    }

    pub open spec fn pres(t: Tr, p: int, j: int) -> Seq<int>
        decreases rk(t, p), 0int, j,
        when tw(t) && tl(t, p) && 0 <= j <= t.kids[p].len()
        via pres_dec
    {
        if j <= 0 {
            Seq::empty()
        } else {
            pres(t, p, j - 1) + pre(t, t.kids[p][j - 1])
        }
    }

    #[via_fn]
    proof fn pres_dec(t: Tr, p: int, j: int) {
        if j > 0 {
            assert(isk(t, p, j - 1));
            lemma_rk(t, p, j - 1);
        }
    }

    /// The nodes opened by the events `r`, in order.
    pub open spec fn ops(r: Seq<(Ev, int)>) -> Seq<int>
        decreases r.len(),
    {
        if r.len() == 0 {
            Seq::empty()
        } else {
            match r.last().0 {
                Ev::O(x) => ops(r.drop_last()).push(x),
                Ev::C(_) => ops(r.drop_last()),
            }
        }
    }

    proof fn lemma_ops_cat(a: Seq<(Ev, int)>, b: Seq<(Ev, int)>)
        ensures
            ops(a + b) == ops(a) + ops(b),
        decreases b.len(),
    {
        if b.len() == 0 {
            assert(a + b =~= a);
            assert(ops(a) + ops(b) =~= ops(a));
        } else {
            lemma_ops_cat(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
            assert(ops(a + b) =~= ops(a) + ops(b));
        }
    }

    /// The openings of a traversal are the document order.
    pub proof fn lemma_pre(t: Tr, n: int, d: int)
        requires
            tw(t),
            tl(t, n),
        ensures
            ops(tour(t, n, d, None)) == pre(t, n),
        decreases rk(t, n), 1int, 0int,
    {
        let len = t.kids[n].len() as int;
        let a = seq![(Ev::O(n), d)];
        let b = tours(t, n, len, d + 1, None);
        let z = seq![(Ev::C(n), d)];
        lemma_pres(t, n, len, d + 1);
        lemma_ops_cat(a, b);
        lemma_ops_cat(a + b, z);
        reveal_with_fuel(ops, 3);
        assert(a.drop_last() =~= Seq::empty() && z.drop_last() =~= Seq::empty());
        assert(ops(a) =~= seq![n]);
        assert(ops(z) =~= Seq::empty());
        assert(tour(t, n, d, None) == a + b + z);
        assert(ops(tour(t, n, d, None)) =~= pre(t, n));
    }

    proof fn lemma_pres(t: Tr, p: int, j: int, d: int)
        requires
            tw(t),
            tl(t, p),
            0 <= j <= t.kids[p].len(),
        ensures
            ops(tours(t, p, j, d, None)) == pres(t, p, j),
        decreases rk(t, p), 0int, j,
    {
        if j > 0 {
            assert(isk(t, p, j - 1));
            lemma_rk(t, p, j - 1);
            lemma_pres(t, p, j - 1, d);
            lemma_pre(t, t.kids[p][j - 1], d);
            lemma_ops_cat(tours(t, p, j - 1, d, None), tour(t, t.kids[p][j - 1], d, None));
        }
    }

    /// The nodes opened before event `k`, in order.
    pub open spec fn seen(r: Seq<(Ev, int)>, k: int) -> Seq<int> {
        ops(r.subrange(0, k))
    }

    pub proof fn lemma_seen_step(r: Seq<(Ev, int)>, k: int)
        requires
            0 <= k < r.len(),
        ensures
            seen(r, k + 1) == (match r[k].0 {
                Ev::O(x) => seen(r, k).push(x),
                Ev::C(_) => seen(r, k),
            }),
    {
        assert(r.subrange(0, k + 1).drop_last() =~= r.subrange(0, k));
        assert(r.subrange(0, k + 1).last() == r[k]);
    }

    pub proof fn lemma_seen(r: Seq<(Ev, int)>, k: int, x: int)
        requires
            0 <= k <= r.len(),
        ensures
            seen(r, k).contains(x) <==> opened(r, k, x),
        decreases k,
    {
        if k == 0 {
            assert(r.subrange(0, 0) =~= Seq::empty());
            if opened(r, 0, x) {
                let j = choose|j: int| j < 0 && #[trigger] oat(r, j, x);
                assert(oat(r, j, x));
            }
        } else {
            lemma_seen(r, k - 1, x);
            lemma_seen_step(r, k - 1);
            lemma_closed_step(r, k - 1, x);
            match r[k - 1].0 {
                Ev::O(y) => {
                    let q = seen(r, k - 1);
                    if q.push(y).contains(x) && x != y {
                        let i = choose|i: int| 0 <= i < q.push(y).len() && q.push(y)[i] == x;
                        assert(q[i] == x);
                    }
                    if q.contains(x) {
                        let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
                        assert(q.push(y)[i] == x);
                    }
                    assert(q.push(y)[q.len() as int] == y);
                },
                Ev::C(_) => {},
            }
        }
    }

    /// Nodes are opened once, the top first.
    pub proof fn lemma_seen_once(t: Tr, n: int, r: Seq<(Ev, int)>, k: int)
        requires
            tw(t),
            twalk(t, n, r),
            0 <= k <= r.len(),
        ensures
            seen(r, k).no_duplicates(),
            k > 0 ==> seen(r, k).len() > 0 && seen(r, k)[0] == n,
            k == 1 ==> seen(r, k) == seq![n],
        decreases k,
    {
        if k == 0 {
            assert(r.subrange(0, 0) =~= Seq::empty());
        } else {
            lemma_seen_once(t, n, r, k - 1);
            lemma_seen_step(r, k - 1);
            lemma_now(t, n, r, k - 1);
            if let Ev::O(x) = r[k - 1].0 {
                lemma_seen(r, k - 1, x);
                if k == 1 {
                    assert(r.subrange(0, 0) =~= Seq::empty());
                    assert(seen(r, 1) =~= seq![n]);
                }
            }
        }
    }

    // ------------------------------------------------------------------
    // Copies.

    /// The `i`-th node of `q` becomes the `i`-th new node.
    pub open spec fn img(q: Seq<int>, a: int, x: int) -> int {
        a + q.index_of(x)
    }

    pub open spec fn not_in(q: Seq<int>) -> ISet<int> {
        ISet::new(|x: int| !q.contains(x))
    }

    /// The part `q` of a tree has been copied into `t`.
    pub open spec fn t_copy(t: Tr, src: Tr, q: Seq<int>) -> Tr {
        let a = t.alive.len() as int;
        Tr {
            alive: t.alive + Seq::new(q.len(), |i: int| true),
            parent: t.parent + Seq::new(q.len(), |i: int| if i == 0 { None } else { Some(img(q, a, src.parent[q[i]]->0)) }),
            kids: t.kids + Seq::new(q.len(), |i: int| without(src.kids[q[i]], not_in(q)).map_values(|c: int| img(q, a, c))),
        }
    }

    /// The subtree of `n` has been copied into `t`: new nodes in document order, and between
    /// them the same relations as between the nodes that they stand for.
    pub open spec fn t_clone(t: Tr, src: Tr, n: int) -> Tr {
        let a = t.alive.len() as int;
        let q = pre(src, n);
        Tr {
            alive: t.alive + Seq::new(q.len(), |i: int| true),
            parent: t.parent + Seq::new(q.len(), |i: int| if i == 0 { None } else { Some(img(q, a, src.parent[q[i]]->0)) }),
            kids: t.kids + Seq::new(q.len(), |i: int| src.kids[q[i]].map_values(|c: int| img(q, a, c))),
        }
    }

    /// Where the copy of the node of the next event hangs, or that copy.
    pub open spec fn top(src: Tr, r: Seq<(Ev, int)>, k: int) -> int {
        match r[k].0 {
            Ev::O(x) => src.parent[x]->0,
            Ev::C(x) => x,
        }
    }

    proof fn lemma_index(q: Seq<int>, x: int)
        requires
            q.no_duplicates(),
        ensures
            q.contains(x) ==> 0 <= q.index_of(x) < q.len() && q[q.index_of(x)] == x,
            forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> q.index_of(q[i]) == i,
            !q.contains(x) ==> q.push(x).no_duplicates() && q.push(x).index_of(x) == q.len(),
            forall|y: int| #![trigger q.push(x).index_of(y)] !q.contains(x) && q.contains(y) ==> q.push(x).index_of(y) == q.index_of(y),
    {
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies q.index_of(q[i]) == i by {
            assert(q.contains(q[i]));
        }
        if !q.contains(x) {
            let z = q.push(x);
            assert(z[q.len() as int] == x);
            assert(z.contains(x));
            assert forall|y: int| #![trigger z.index_of(y)] q.contains(y) implies z.index_of(y) == q.index_of(y) by {
                let i = q.index_of(y);
                assert(z[i] == y);
                assert(z.contains(y));
                let j = z.index_of(y);
                assert(z[j] == y && 0 <= j < z.len());
                if j != i {
                    assert(j < q.len());
                    assert(q[j] == y);
                }
            }
        }
    }

    /// Which nodes have been opened when `x` is about to be.
    proof fn lemma_opened_now(t: Tr, n: int, r: Seq<(Ev, int)>, k: int, x: int)
        requires
            tw(t),
            twalk(t, n, r),
            oat(r, k, x),
            x != n,
        ensures
            t.parent[x] is Some,
            tl(t, x),
            tl(t, t.parent[x]->0),
            !opened(r, k, x),
            opened(r, k, t.parent[x]->0),
            forall|i: int| #![trigger isk(t, t.parent[x]->0, i)] isk(t, t.parent[x]->0, i) ==> (opened(r, k, t.kids[t.parent[x]->0][i]) <==> i < pos(t, x)),
            forall|i: int| #![trigger isk(t, x, i)] isk(t, x, i) ==> !opened(r, k, t.kids[x][i]),
    {
        lemma_now(t, n, r, k);
        lemma_before_open(t, n, r, k, x);
        lemma_pos(t, x);
        let p = t.parent[x]->0;
        assert forall|i: int| #![trigger isk(t, p, i)] isk(t, p, i) implies (opened(r, k, t.kids[p][i]) <==> i < pos(t, x)) by {
            let y = t.kids[p][i];
            lemma_pos_of(t, p, i);
            if i < pos(t, x) {
                let j = choose|j: int| j < k && #[trigger] cat(r, j, y);
                assert(cat(r, j, y));
                lemma_before_close(t, n, r, j, y);
                let o = choose|o: int| o < j && #[trigger] oat(r, o, y);
                assert(oat(r, o, y));
            } else if opened(r, k, y) {
                let o = choose|o: int| o < k && #[trigger] oat(r, o, y);
                assert(oat(r, o, y));
                if i > pos(t, x) {
                    assert(anc(t, n, evn(r[k].0)));
                    lemma_anc_step(t, n, x);
                    lemma_kid_not_top(t, n, p, i);
                    lemma_before_open(t, n, r, o, y);
                    assert(isk(t, p, pos(t, x)));
                    assert(closed(r, o, x));
                    let c = choose|c: int| c < o && #[trigger] cat(r, c, x);
                    assert(cat(r, c, x));
                    assert(closed(r, k, x));
                }
            }
        }
        assert forall|i: int| #![trigger isk(t, x, i)] isk(t, x, i) implies !opened(r, k, t.kids[x][i]) by {
            let y = t.kids[x][i];
            assert(t.parent[y] == Some(x));
            if opened(r, k, y) {
                let o = choose|o: int| o < k && #[trigger] oat(r, o, y);
                assert(anc(t, n, evn(r[k].0)));
                lemma_kid_not_top(t, n, x, i);
                lemma_before_open(t, n, r, o, y);
                let c = choose|c: int| c < o && #[trigger] oat(r, c, x);
                assert(oat(r, c, x));
            }
        }
    }

    /// The parent of every copied node but the first has been copied.
    pub proof fn lemma_seen_parent(t: Tr, n: int, r: Seq<(Ev, int)>, k: int, i: int)
        requires
            tw(t),
            twalk(t, n, r),
            0 <= k <= r.len(),
            0 <= i < seen(r, k).len(),
        ensures
            tl(t, seen(r, k)[i]),
            anc(t, n, seen(r, k)[i]),
            i > 0 ==> seen(r, k)[i] != n && t.parent[seen(r, k)[i]] is Some && seen(r, k).contains(t.parent[seen(r, k)[i]]->0),
    {
        let q = seen(r, k);
        let x = q[i];
        lemma_seen_once(t, n, r, k);
        lemma_seen(r, k, x);
        assert(q.contains(x));
        let o = choose|o: int| o < k && #[trigger] oat(r, o, x);
        assert(oat(r, o, x));
        assert(tl(t, evn(r[o].0)));
        if k == 0 {
            assert(r.subrange(0, 0) =~= Seq::empty());
        }
        if i > 0 {
            assert(q[0] == n);
            assert(x != n);
            lemma_before_open(t, n, r, o, x);
            let p = t.parent[x]->0;
            let c = choose|c: int| c < o && #[trigger] oat(r, c, p);
            assert(oat(r, c, p));
            lemma_seen(r, k, p);
        }
    }

    /// The children of an unopened node, of its parent, of others, when `x` is opened.
    proof fn lemma_copy_open(t: Tr, src: Tr, n: int, r: Seq<(Ev, int)>, k: int, x: int)
        requires
            tw(t),
            tw(src),
            twalk(src, n, r),
            1 <= k,
            oat(r, k, x),
        ensures
            ({
                let a = t.alive.len() as int;
                let q = seen(r, k);
                let p = src.parent[x]->0;
                let u = t_copy(t, src, q);
                &&& x != n
                &&& seen(r, k + 1) == q.push(x)
                &&& !q.contains(x)
                &&& q.contains(p)
                &&& q.no_duplicates()
                &&& tl(u, img(q, a, p))
                &&& t_insert(t_new(u), a + q.len(), Dst::Last(img(q, a, p))) == t_copy(t, src, q.push(x))
            }),
    {
        let a = t.alive.len() as int;
        let q = seen(r, k);
        lemma_now(src, n, r, k);
        if x == n {
            assert(oat(r, 0, n));
            assert(opened(r, k, n));
        }
        lemma_opened_now(src, n, r, k, x);
        lemma_seen_step(r, k);
        lemma_seen_once(src, n, r, k);
        lemma_seen(r, k, x);
        let p = src.parent[x]->0;
        lemma_seen(r, k, p);
        lemma_index(q, x);
        lemma_index(q, p);
        let z = q.push(x);
        let u = t_copy(t, src, q);
        let v = t_copy(t, src, z);
        let id = a + q.len();
        let b = img(q, a, p);
        let w = t_insert(t_new(u), id, Dst::Last(b));
        lemma_pos(src, x);
        let j0 = pos(src, x);
        assert(isk(src, p, j0));
        // children of the parent: one more
        assert forall|i: int| #![trigger src.kids[p][i]] 0 <= i < src.kids[p].len() implies (!not_in(q).contains(src.kids[p][i]) <==> i < j0) && (!not_in(z).contains(src.kids[p][i]) <==> i < j0 + 1) by {
            assert(isk(src, p, i));
            let y = src.kids[p][i];
            lemma_seen(r, k, y);
            lemma_push_contains(q, x, y);
            if i == j0 { assert(y == x); }
            if i != j0 && y == x { assert(isk(src, p, i) && isk(src, p, j0)); }
        }
        lemma_within_prefix(src.kids[p], not_in(q), j0);
        lemma_within_prefix(src.kids[p], not_in(z), j0 + 1);
        let f = |c: int| img(q, a, c);
        let g = |c: int| img(z, a, c);
        assert(src.kids[p].subrange(0, j0 + 1) =~= src.kids[p].subrange(0, j0).push(x));
        let kq = src.kids[p].subrange(0, j0);
        assert(kq.push(x).map_values(g) =~= kq.map_values(f).push(id)) by {
            assert forall|i: int| 0 <= i < kq.len() implies #[trigger] g(kq[i]) == f(kq[i]) by {
                let y = src.kids[p][i];
                assert(!not_in(q).contains(src.kids[p][i]));
                assert(q.contains(y));
                assert(z.index_of(y) == q.index_of(y));
            }
            assert(g(x) == id);
        }
        // children of x: none yet
        assert forall|i: int| #![trigger src.kids[x][i]] 0 <= i < src.kids[x].len() implies (!not_in(z).contains(src.kids[x][i]) <==> i < 0) by {
            assert(isk(src, x, i));
            let y = src.kids[x][i];
            lemma_seen(r, k, y);
            lemma_push_contains(q, x, y);
            lemma_not_own_parent(src, y);
            assert(src.parent[y] == Some(x));
        }
        lemma_within_prefix(src.kids[x], not_in(z), 0);
        assert(src.kids[x].subrange(0, 0).map_values(g) =~= Seq::<int>::empty());
        // children of others: the same
        assert forall|i: int| 0 <= i < q.len() && q[i] != p implies without(src.kids[#[trigger] q[i]], not_in(z)).map_values(g) == without(src.kids[q[i]], not_in(q)).map_values(f) by {
            let y = q[i];
            lemma_seen_parent(src, n, r, k, i);
            let l = src.kids[y];
            assert forall|e: int| #![trigger l[e]] 0 <= e < l.len() implies (not_in(z).contains(l[e]) <==> not_in(q).contains(l[e])) by {
                lemma_push_contains(q, x, l[e]);
                assert(isk(src, y, e));
                assert(src.parent[l[e]] == Some(y));
            }
            lemma_without_same(l, not_in(z), not_in(q));
            let l2 = without(l, not_in(q));
            lemma_without_in(l, not_in(q));
            assert forall|e: int| 0 <= e < l2.len() implies #[trigger] g(l2[e]) == f(l2[e]) by {
                assert(!not_in(q).contains(l2[e]));
                assert(q.contains(l2[e]));
                assert(z.index_of(l2[e]) == q.index_of(l2[e]));
            }
            assert(l2.map_values(g) =~= l2.map_values(f));
        }
        assert(q[q.index_of(p)] == p);
        assert(u.alive.len() == id);
        assert(w.alive =~= v.alive);
        assert(t_new(u).parent[id] is None);
        assert forall|i: int| 0 <= i < v.parent.len() implies w.parent[i] == v.parent[i] by {
            assert(seq![id].contains(i) <==> i == id) by {
                assert(seq![id][0] == id);
            }
            if i == id {
                assert(v.parent[i] == Some(img(z, a, src.parent[z[q.len() as int]]->0)));
            } else if i >= a {
                let e = i - a;
                assert(z[e] == q[e]);
                if e > 0 {
                    lemma_seen_parent(src, n, r, k, e);
                    let y = src.parent[q[e]]->0;
                    assert(z.index_of(y) == q.index_of(y));
                }
            }
        }
        assert(w.parent =~= v.parent);
        assert forall|i: int| 0 <= i < v.kids.len() implies w.kids[i] == v.kids[i] by {
            let un = t_new(u);
            if i == b {
                let e = i - a;
                assert(q[e] == p && z[e] == p);
                assert(un.kids[b] == u.kids[b]);
                assert(u.kids[b] == kq.map_values(f));
                assert(w.kids[b] =~= u.kids[b].push(id));
                assert(v.kids[b] == kq.push(x).map_values(g));
            } else if i == id {
                assert(z[q.len() as int] == x);
                assert(w.kids[i] == Seq::<int>::empty());
            } else if i >= a {
                let e = i - a;
                assert(z[e] == q[e]);
                assert(q[e] != p) by {
                    if q[e] == p { assert(q.index_of(q[e]) == e); }
                }
                assert(w.kids[i] == u.kids[i]);
            }
        }
        assert(w.kids =~= v.kids);
    }

    proof fn lemma_push_contains(q: Seq<int>, x: int, y: int)
        ensures
            q.push(x).contains(y) <==> q.contains(y) || y == x,
    {
        let z = q.push(x);
        if z.contains(y) && y != x {
            let i = choose|i: int| 0 <= i < z.len() && z[i] == y;
            assert(q[i] == y);
        }
        if q.contains(y) {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == y;
            assert(z[i] == y);
        }
        assert(z[q.len() as int] == x);
    }

    /// The ones that stay are the first `j`.
    proof fn lemma_within_prefix(k: Seq<int>, a: ISet<int>, j: int)
        requires
            0 <= j <= k.len(),
            forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> (!a.contains(k[i]) <==> i < j),
        ensures
            without(k, a) == k.subrange(0, j),
        decreases k.len(),
    {
        if k.len() > 0 {
            let q = k.drop_last();
            assert(k.last() == k[k.len() - 1]);
            let m = if j == k.len() { j - 1 } else { j };
            assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies (!a.contains(q[i]) <==> i < m) by {
                assert(q[i] == k[i]);
            }
            lemma_within_prefix(q, a, m);
            assert(without(k, a) =~= k.subrange(0, j));
        } else {
            assert(without(k, a) =~= k.subrange(0, j));
        }
    }

    proof fn lemma_without_in(k: Seq<int>, a: ISet<int>)
        ensures
            forall|i: int| #![trigger without(k, a)[i]] 0 <= i < without(k, a).len() ==> !a.contains(without(k, a)[i]),
        decreases k.len(),
    {
        if k.len() > 0 {
            let w = without(k.drop_last(), a);
            lemma_without_in(k.drop_last(), a);
            assert forall|i: int| #![trigger without(k, a)[i]] 0 <= i < without(k, a).len() implies !a.contains(without(k, a)[i]) by {
                if i < w.len() {
                    assert(without(k, a)[i] == w[i]);
                }
            }
        }
    }

    /// One event of the copying.
    pub proof fn lemma_copy_step(t: Tr, src: Tr, n: int, r: Seq<(Ev, int)>, k: int)
        requires
            tw(t),
            tw(src),
            twalk(src, n, r),
            1 <= k < r.len(),
        ensures
            ({
                let a = t.alive.len() as int;
                let q = seen(r, k);
                let u = t_copy(t, src, q);
                let x = evn(r[k].0);
                let b = img(q, a, top(src, r, k));
                &&& tl(src, x)
                &&& tl(u, b)
                &&& match r[k].0 {
                    Ev::O(_) => {
                        &&& seen(r, k + 1) == q.push(x)
                        &&& k + 1 < r.len()
                        &&& img(q.push(x), a, top(src, r, k + 1)) == a + q.len()
                        &&& t_insert(t_new(u), a + q.len(), Dst::Last(b)) == t_copy(t, src, q.push(x))
                        &&& u.alive.len() == a + q.len()
                    },
                    Ev::C(_) => {
                        &&& seen(r, k + 1) == q
                        &&& x == n <==> k + 1 == r.len()
                        &&& x == n ==> u.parent[b] is None && b == a
                        &&& x != n ==> u.parent[b] == Some(img(q, a, top(src, r, k + 1)))
                    },
                }
            }),
    {
        let a = t.alive.len() as int;
        let q = seen(r, k);
        let u = t_copy(t, src, q);
        let x = evn(r[k].0);
        let b = img(q, a, top(src, r, k));
        assert(tl(src, x));
        lemma_now(src, n, r, k);
        lemma_seen_step(r, k);
        lemma_seen_once(src, n, r, k);
        lemma_index(q, x);
        lemma_index(q, n);
        lemma_seen(r, k, x);
        assert(q[0] == n);
        if r[k].0 is O {
            assert(oat(r, k, x));
            lemma_copy_open(t, src, n, r, k, x);
            assert(k + 1 < r.len()) by {
                assert(r[r.len() - 1].0 == Ev::C(n));
            }
            assert(fs(src, None, r[k]) == Some(r[k + 1]));
            if src.kids[x].len() > 0 {
                assert(isk(src, x, 0));
            }
        } else {
            assert(cat(r, k, x));
            lemma_before_close(src, n, r, k, x);
            assert(q.contains(x));
            let i = q.index_of(x);
            if x == n {
                if k + 1 < r.len() {
                    assert(r[r.len() - 1].0 == r[k].0);
                }
                assert(i == 0);
            } else {
                assert(k + 1 < r.len()) by {
                    assert(r[r.len() - 1].0 == Ev::C(n));
                }
                assert(fs(src, None, r[k]) == Some(r[k + 1]));
                assert(i != 0);
                let p = src.parent[x]->0;
                lemma_pos(src, x);
                if next_of(src, x) is Some {
                    assert(isk(src, p, pos(src, x) + 1));
                }
                assert(top(src, r, k + 1) == p);
            }
        }
    }

    pub proof fn lemma_copy_start(t: Tr, src: Tr, n: int)
        requires
            tw(t),
            tw(src),
            tl(src, n),
        ensures
            ({
                let r = tour(src, n, 0, None);
                &&& twalk(src, n, r)
                &&& r.len() >= 2
                &&& r[0].0 == Ev::O(n)
                &&& seen(r, 1) == seq![n]
                &&& t_copy(t, src, seq![n]) == t_new(t)
                &&& img(seq![n], t.alive.len() as int, top(src, r, 1)) == t.alive.len()
            }),
    {
        let r = tour(src, n, 0, None);
        let q = seq![n];
        lemma_twalk(src, n);
        lemma_seen_once(src, n, r, 1);
        let u = t_copy(t, src, q);
        let v = t_new(t);
        assert(u.alive =~= v.alive);
        assert(u.parent =~= v.parent);
        assert forall|i: int| #![trigger src.kids[n][i]] 0 <= i < src.kids[n].len() implies (!not_in(q).contains(src.kids[n][i]) <==> i < 0) by {
            assert(isk(src, n, i));
            let y = src.kids[n][i];
            lemma_not_own_parent(src, y);
            if q.contains(y) {
                assert(y == n);
            }
        }
        lemma_within_prefix(src.kids[n], not_in(q), 0);
        assert(u.kids =~= v.kids) by {
            assert(src.kids[n].subrange(0, 0).map_values(|c: int| img(q, t.alive.len() as int, c)) =~= Seq::<int>::empty());
        }
        assert(fs(src, None, r[0]) == Some(r[1]));
        if src.kids[n].len() > 0 {
            assert(isk(src, n, 0));
        }
        assert(q[0] == n);
        assert(q.contains(n));
    }

    pub proof fn lemma_copy_end(t: Tr, src: Tr, n: int)
        requires
            tw(t),
            tw(src),
            tl(src, n),
        ensures
            ({
                let r = tour(src, n, 0, None);
                &&& seen(r, r.len() as int) == pre(src, n)
                &&& t_copy(t, src, pre(src, n)) == t_clone(t, src, n)
            }),
    {
        let r = tour(src, n, 0, None);
        let len = r.len() as int;
        lemma_twalk(src, n);
        lemma_pre(src, n, 0);
        assert(r.subrange(0, len) =~= r);
        let q = pre(src, n);
        let u = t_copy(t, src, q);
        let v = t_clone(t, src, n);
        let a = t.alive.len() as int;
        assert forall|i: int| 0 <= i < q.len() implies without(src.kids[#[trigger] q[i]], not_in(q)) == src.kids[q[i]] by {
            let x = q[i];
            lemma_seen_parent(src, n, r, len, i);
            let l = src.kids[x];
            assert forall|e: int| #![trigger l[e]] 0 <= e < l.len() implies (!not_in(q).contains(l[e]) <==> e < l.len()) by {
                assert(isk(src, x, e));
                assert(src.parent[l[e]] == Some(x));
                lemma_pre_sub_at(src, n, l[e]);
                lemma_anc_step(src, n, l[e]);
            }
            lemma_within_prefix(l, not_in(q), l.len() as int);
            assert(l.subrange(0, l.len() as int) =~= l);
        }
        assert(u.alive =~= v.alive);
        assert(u.parent =~= v.parent);
        assert forall|i: int| 0 <= i < v.kids.len() implies u.kids[i] == v.kids[i] by {
            if i >= a {
                let e = i - a;
                assert(without(src.kids[q[e]], not_in(q)) == src.kids[q[e]]);
            }
        }
        assert(u.kids =~= v.kids);
    }

    proof fn lemma_pre_sub_at(t: Tr, n: int, x: int)
        requires
            tw(t),
            tl(t, n),
            0 <= x < t.alive.len(),
        ensures
            pre(t, n).contains(x) <==> sub(t, n).contains(x),
    {
        let r = tour(t, n, 0, None);
        let len = r.len() as int;
        lemma_twalk(t, n);
        lemma_pre(t, n, 0);
        assert(r.subrange(0, len) =~= r);
        lemma_seen(r, len, x);
        lemma_all_closed(t, n, r, x);
        if opened(r, len, x) {
            let o = choose|o: int| o < len && #[trigger] oat(r, o, x);
            assert(oat(r, o, x));
            assert(tl(t, evn(r[o].0)));
        }
        if closed(r, len, x) {
            let j = choose|j: int| j < len && #[trigger] cat(r, j, x);
            lemma_before_close(t, n, r, j, x);
            let o = choose|o: int| o < j && #[trigger] oat(r, o, x);
            assert(oat(r, o, x));
        }
    }

    /// The copied nodes are those of the subtree, each of them once, the top first.
    pub proof fn thm_pre(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
        ensures
            pre(t, n).no_duplicates(),
            pre(t, n).len() > 0,
            pre(t, n)[0] == n,
            forall|x: int| #![trigger pre(t, n).contains(x)] pre(t, n).contains(x) <==> sub(t, n).contains(x),
            pre(t, n).len() <= t.alive.len(),
    {
        let r = tour(t, n, 0, None);
        let len = r.len() as int;
        lemma_twalk(t, n);
        lemma_pre(t, n, 0);
        assert(r.subrange(0, len) =~= r);
        lemma_seen_once(t, n, r, len);
        let q = pre(t, n);
        assert forall|x: int| #![trigger q.contains(x)] q.contains(x) <==> sub(t, n).contains(x) by {
            if q.contains(x) {
                let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
                lemma_seen_parent(t, n, r, len, i);
            }
            if 0 <= x < t.alive.len() {
                lemma_pre_sub_at(t, n, x);
            }
        }
        q.unique_seq_to_set();
        vstd::set_lib::lemma_int_range(0, t.alive.len() as int);
        let u = vstd::set_lib::set_int_range(0, t.alive.len() as int);
        assert(q.to_set().subset_of(u)) by {
            assert forall|v: int| q.to_set().contains(v) implies u.contains(v) by {
                assert(q.contains(v));
            }
        }
        vstd::set_lib::lemma_len_subset(q.to_set(), u);
    }

    /// There are never more copies than nodes in the subtree.
    pub proof fn lemma_seen_len(r: Seq<(Ev, int)>, k: int, l: int)
        requires
            0 <= k <= l <= r.len(),
        ensures
            seen(r, k).len() <= seen(r, l).len(),
        decreases l - k,
    {
        if k < l {
            lemma_seen_step(r, k);
            lemma_seen_len(r, k + 1, l);
        }
    }

    /// The nodes that were there keep their links while others are copied.
    pub proof fn lemma_copy_event(s: Raw, t: Tr, n: int, r: Seq<(Ev, int)>, k: int, q: Seq<int>)
        requires
            tw(t),
            twalk(t, n, r),
            0 <= k < r.len(),
            wf(s),
            abs(s) == t_copy(t, t, q),
        ensures
            live(s, evn(r[k].0)),
            rpre(s, n, r[k].0),
            rstep(s, n, r[k].0) == evat(r, k + 1),
    {
        let x = evn(r[k].0);
        let u = abs(s);
        lemma_tw(s);
        assert(tl(t, x));
        assert(tl(u, x));
        lemma_single(s, x);
        if t.parent[x] is Some {
            let p = t.parent[x]->0;
            lemma_pos(t, x);
            assert(isk(u, p, pos(t, x)));
            lemma_pos_of(u, p, pos(t, x));
        }
        lemma_rstep(s, t, n, r, k);
    }

    // ------------------------------------------------------------------
    // Data.

    /// The data of the copies are copies of the data.
    pub open spec fn dcopy<T: Clone>(d0: Seq<Option<T>>, ds: Seq<Option<T>>, q: Seq<int>, d: Seq<Option<T>>) -> bool {
        &&& d.len() == d0.len() + q.len()
        &&& forall|i: int| #![trigger d0[i]] #![trigger d[i]] 0 <= i < d0.len() ==> d[i] == d0[i]
        &&& forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> d[d0.len() + i] is Some && cloned(ds[q[i]]->0, d[d0.len() + i]->0)
    }

    /// `k` events of the traversal `r` of the subtree of `n` have been copied.
    pub open spec fn copying(t: Tr, src: Tr, n: int, k: int, q: Seq<int>, s: Raw, cur: int) -> bool {
        let a = t.alive.len() as int;
        let r = tour(src, n, 0, None);
        &&& 1 <= k <= r.len()
        &&& q == seen(r, k)
        &&& wf(s)
        &&& abs(s) == t_copy(t, src, q)
        &&& k < r.len() ==> cur == img(q, a, top(src, r, k))
        &&& k == r.len() ==> cur == a
    }

    /// Capacity and data for a copy of the subtree of `n`.
    pub open spec fn room<T>(t: Tr, src: Tr, n: int, d0: Seq<Option<T>>, ds: Seq<Option<T>>, max: int) -> bool {
        &&& tw(t)
        &&& tw(src)
        &&& tl(src, n)
        &&& d0.len() == t.alive.len()
        &&& forall|i: int| #![trigger d0[i]] 0 <= i < d0.len() ==> (d0[i] is Some <==> t.alive[i])
        &&& ds.len() == src.alive.len()
        &&& forall|i: int| #![trigger ds[i]] 0 <= i < ds.len() ==> (ds[i] is Some <==> src.alive[i])
        &&& t.alive.len() + pre(src, n).len() <= max + 1
    }

    /// Copying within one forest.
    pub open spec fn lcopy(t: Tr, n: int, k: int, q: Seq<int>, s: Raw, cur: int, root: int, next: Option<Ev>) -> bool {
        &&& copying(t, t, n, k, q, s, cur)
        &&& root == n
        &&& next == evat(tour(t, n, 0, None), k)
    }

    pub open spec fn lstate(t: Tr, n: int, q: Seq<int>, s: Raw, cur: int, root: int, next: Option<Ev>) -> bool {
        exists|k: int| #[trigger] lcopy(t, n, k, q, s, cur, root, next)
    }

    /// Copying from another forest.
    pub open spec fn fcopy<I: SealedInternalNodeId>(t: Tr, src: Tr, n: int, k: int, q: Seq<int>, s: Raw, cur: int, next: Option<(DftEvent<I>, DftEvent<I>)>) -> bool {
        let r = tour(src, n, 0, None);
        &&& copying(t, src, n, k, q, s, cur)
        &&& dft(src, next, r.subrange(k, r.len() as int))
    }

    pub open spec fn fstate<I: SealedInternalNodeId>(t: Tr, src: Tr, n: int, q: Seq<int>, s: Raw, cur: int, next: Option<(DftEvent<I>, DftEvent<I>)>) -> bool {
        exists|k: int| #[trigger] fcopy(t, src, n, k, q, s, cur, next)
    }

    /// The pairs reported for the nodes `q`, whose copies start at `a`.
    pub open spec fn paired<I: NodeId>(q: Seq<int>, a: int, before: Seq<(I, I)>, after: Seq<(I, I)>) -> bool {
        &&& after.len() == before.len() + q.len()
        &&& after.subrange(0, before.len() as int) == before
        &&& forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> nx(after[before.len() + i].0) == q[i] && nx(after[before.len() + i].1) == a + i
    }

    pub proof fn lemma_paired<I: NodeId>(q: Seq<int>, a: int, before: Seq<(I, I)>, after: Seq<(I, I)>, p: (I, I))
        requires
            paired(q, a, before, after),
            nx(p.1) == a + q.len(),
        ensures
            paired(q.push(nx(p.0)), a, before, after.push(p)),
    {
        let z = after.push(p);
        assert(z.subrange(0, before.len() as int) =~= after.subrange(0, before.len() as int));
        assert forall|i: int| #![trigger q.push(nx(p.0))[i]] 0 <= i < q.push(nx(p.0)).len() implies nx(z[before.len() + i].0) == q.push(nx(p.0))[i] && nx(z[before.len() + i].1) == a + i by {
            if i < q.len() {
                assert(q[i] == q.push(nx(p.0))[i]);
            }
        }
    }

    pub proof fn lemma_dcopy<T: Clone>(d0: Seq<Option<T>>, ds: Seq<Option<T>>, q: Seq<int>, d: Seq<Option<T>>, x: int, v: T)
        requires
            dcopy(d0, ds, q, d),
            cloned(ds[x]->0, v),
        ensures
            dcopy(d0, ds, q.push(x), d.push(Some(v))),
    {
        let z = d.push(Some(v));
        let p = q.push(x);
        assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies z[d0.len() + i] is Some && cloned(ds[p[i]]->0, z[d0.len() + i]->0) by {
            if i < q.len() {
                assert(q[i] == p[i]);
                assert(z[d0.len() + i] == d[d0.len() + i]);
            }
        }
        assert forall|i: int| #![trigger d0[i]] #![trigger z[i]] 0 <= i < d0.len() implies z[i] == d0[i] by {
            assert(d[i] == d0[i]);
        }
    }

    /// One event, all about it.
    pub proof fn lemma_copying(t: Tr, src: Tr, n: int, k: int, q: Seq<int>, s: Raw, cur: int)
        requires
            tw(t),
            tw(src),
            tl(src, n),
            copying(t, src, n, k, q, s, cur),
        ensures
            ({
                let r = tour(src, n, 0, None);
                let a = t.alive.len() as int;
                &&& twalk(src, n, r)
                &&& q.len() <= pre(src, n).len()
                &&& s.len() == a + q.len()
                &&& k == r.len() ==> q == pre(src, n) && abs(s) == t_clone(t, src, n)
                &&& k < r.len() ==> live(s, cur)
                &&& k < r.len() && r[k].0 is O ==> {
                    let x = evn(r[k].0);
                    &&& q.push(x).len() <= pre(src, n).len()
                    &&& k + 1 < r.len()
                    &&& forall|s2: Raw, c2: int| #![trigger copying(t, src, n, k + 1, q.push(x), s2, c2)] wf(s2) && c2 == a + q.len() && abs(s2) == t_insert(t_new(abs(s)), c2, Dst::Last(cur)) ==> copying(t, src, n, k + 1, q.push(x), s2, c2)
                }
                &&& k < r.len() && r[k].0 is C ==> {
                    &&& s[cur].parent is None <==> k + 1 == r.len()
                    &&& s[cur].parent is None ==> copying(t, src, n, k + 1, q, s, cur) && q == pre(src, n) && abs(s) == t_clone(t, src, n) && cur == a
                    &&& s[cur].parent is Some ==> copying(t, src, n, k + 1, q, s, s[cur].parent->0)
                }
            }),
    {
        let r = tour(src, n, 0, None);
        let a = t.alive.len() as int;
        lemma_copy_start(t, src, n);
        lemma_copy_end(t, src, n);
        lemma_seen_len(r, k, r.len() as int);
        lemma_tw(s);
        assert(abs(s).alive.len() == a + q.len());
        if k < r.len() {
            lemma_copy_step(t, src, n, r, k);
            lemma_single(s, cur);
            lemma_seen_len(r, k + 1, r.len() as int);
        }
    }

    /// What the traverser has to say next, and what it will have to say then.
    pub proof fn lemma_fcopy<I: SealedInternalNodeId>(t: Tr, src: Tr, n: int, k: int, q: Seq<int>, s: Raw, cur: int)
        requires
            tw(t),
            tw(src),
            tl(src, n),
        ensures
            ({
                let r = tour(src, n, 0, None);
                let w = r.subrange(k, r.len() as int);
                &&& forall|next: Option<(DftEvent<I>, DftEvent<I>)>| #![trigger fcopy(t, src, n, k, q, s, cur, next)] fcopy(t, src, n, k, q, s, cur, next) ==> {
                    &&& copying(t, src, n, k, q, s, cur)
                    &&& 1 <= k <= r.len()
                    &&& wf(s)
                    &&& next is Some <==> k < r.len()
                    &&& dft(src, next, w)
                    &&& k < r.len() ==> head(w) == Some(r[k]) && tl(src, evn(r[k].0))
                }
                &&& forall|next2: Option<(DftEvent<I>, DftEvent<I>)>, q2: Seq<int>, s2: Raw, c2: int| #![trigger fcopy(t, src, n, k + 1, q2, s2, c2, next2)] 1 <= k < r.len() && dft(src, next2, tail(w)) && copying(t, src, n, k + 1, q2, s2, c2) ==> fcopy(t, src, n, k + 1, q2, s2, c2, next2)
                &&& forall|next2: Option<(DftEvent<I>, DftEvent<I>)>| #![trigger dft(src, next2, tail(w))] 1 <= k < r.len() && dft(src, next2, tail(w)) ==> (next2 is Some <==> k + 1 < r.len()) && dft(src, next2, r.subrange(k + 1, r.len() as int))
            }),
    {
        let r = tour(src, n, 0, None);
        let w = r.subrange(k, r.len() as int);
        if 1 <= k < r.len() {
            assert(w[0] == r[k]);
            assert(tail(w) =~= r.subrange(k + 1, r.len() as int));
            lemma_twalk(src, n);
            lemma_copy_step(t, src, n, r, k);
        }
    }

    /// The state after the copy of the top node.
    pub proof fn lemma_fcopy_start<I: SealedInternalNodeId>(t: Tr, src: Tr, n: int, s: Raw, next: Option<(DftEvent<I>, DftEvent<I>)>)
        requires
            tw(t),
            tw(src),
            tl(src, n),
            wf(s),
            abs(s) == t_new(t),
            dft(src, next, tail(tour(src, n, 0, None))),
        ensures
            fcopy(t, src, n, 1, seq![n], s, t.alive.len() as int, next),
            fstate(t, src, n, seq![n], s, t.alive.len() as int, next),
            seq![n].len() <= pre(src, n).len(),
            s.len() == t.alive.len() + 1,
            next is Some,
    {
        let r = tour(src, n, 0, None);
        lemma_copy_start(t, src, n);
        assert(tail(r) =~= r.subrange(1, r.len() as int));
        assert(copying(t, src, n, 1, seq![n], s, t.alive.len() as int));
        assert(fcopy(t, src, n, 1, seq![n], s, t.alive.len() as int, next));
        lemma_copying(t, src, n, 1, seq![n], s, t.alive.len() as int);
    }
}
