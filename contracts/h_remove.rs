
pub mod rm {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::mv::*;
    use crate::fo::*;
    use crate::wk::*;
    use crate::dynamic::id::private::SealedInternalNodeId;
    use crate::dynamic::hierarchy::traverse::DftEvent;

    /// The calls made to the hook `F` so far, with their arguments.
    pub tracked struct HookLog<F, A> {
        pub ghost calls: Seq<A>,
        pub ghost of: core::marker::PhantomData<F>,
    }

    /// A log of no calls yet for the hook `f`.
    pub proof fn log_of<F, A>(f: F) -> (tracked r: HookLog<F, A>)
        ensures
            r.calls == Seq::<A>::empty(),
    {
        HookLog { calls: Seq::empty(), of: arbitrary() }
    }

    /// A log for a hook that nobody asks about.
    pub proof fn log_unused<F, A>() -> (tracked r: HookLog<F, A>)
        ensures
            r.calls == Seq::<A>::empty(),
    {
        HookLog { calls: Seq::empty(), of: arbitrary() }
    }

    // ------------------------------------------------------------------
    // Which nodes a traversal has opened and closed before its `k`-th event.
    pub open spec fn cat(r: Seq<(Ev, int)>, j: int, x: int) -> bool {
        0 <= j < r.len() && r[j].0 == Ev::C(x)
    }

    pub open spec fn oat(r: Seq<(Ev, int)>, j: int, x: int) -> bool {
        0 <= j < r.len() && r[j].0 == Ev::O(x)
    }

    pub open spec fn closed(r: Seq<(Ev, int)>, k: int, x: int) -> bool {
        exists|j: int| j < k && #[trigger] cat(r, j, x)
    }

    pub open spec fn opened(r: Seq<(Ev, int)>, k: int, x: int) -> bool {
        exists|j: int| j < k && #[trigger] oat(r, j, x)
    }

    /// `r` is the traversal of the subtree of `n`, as far as its steps tell.
    pub open spec fn twalk(t: Tr, n: int, r: Seq<(Ev, int)>) -> bool {
        &&& walk(t, None, r)
        &&& r.len() >= 2
        &&& r[0].0 == Ev::O(n)
        &&& r[r.len() - 1].0 == Ev::C(n)
        &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> anc(t, n, evn(r[i].0))
    }

    pub proof fn lemma_twalk(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
        ensures
            twalk(t, n, tour(t, n, 0, None)),
    {
        let r = tour(t, n, 0, None);
        lemma_tour(t, n, 0, None);
        lemma_tour_walk(t, n, None);
        lemma_tour_depth(t, n, 0, None);
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies anc(t, n, evn(r[i].0)) by {
            assert(below_at(t, n, evn(r[i].0), r[i].1 - 0));
        }
    }

    /// What has happened before a node is closed: it was opened, its children were closed,
    /// its parent was opened, its previous siblings were closed.
    pub proof fn lemma_before_close(t: Tr, n: int, r: Seq<(Ev, int)>, j: int, x: int)
        requires
            tw(t),
            twalk(t, n, r),
            cat(r, j, x),
        ensures
            tl(t, x),
            opened(r, j, x),
            forall|i: int| #![trigger isk(t, x, i)] isk(t, x, i) ==> closed(r, j, t.kids[x][i]),
            x != n ==> {
                &&& t.parent[x] is Some
                &&& opened(r, j, t.parent[x]->0)
                &&& forall|i: int| #![trigger isk(t, t.parent[x]->0, i)] isk(t, t.parent[x]->0, i) && i < pos(t, x) ==> closed(r, j, t.kids[t.parent[x]->0][i])
            },
        decreases j,
    {
        assert(tl(t, evn(r[j].0)));
        assert(bs(t, None, r[j]) == Some(r[j - 1]));
        let len = t.kids[x].len();
        if len == 0 {
            assert(oat(r, j - 1, x));
        } else {
            assert(isk(t, x, len - 1));
            let y = t.kids[x][len - 1];
            assert(tl(t, y) && t.parent[y] == Some(x));
            assert(cat(r, j - 1, y));
            lemma_pos_of(t, x, len - 1);
            lemma_before_close(t, n, r, j - 1, y);
            if y == n {
                assert(anc(t, n, x));
                lemma_anc_dep(t, n, x);
                lemma_dep(t, y);
                assert(false);
            }
            let o = choose|o: int| o < j - 1 && #[trigger] oat(r, o, x);
            assert(oat(r, o, x));
            assert forall|i: int| #![trigger isk(t, x, i)] isk(t, x, i) implies closed(r, j, t.kids[x][i]) by {
                if i < len - 1 {
                    assert(closed(r, j - 1, t.kids[x][i]));
                    let c = choose|c: int| c < j - 1 && #[trigger] cat(r, c, t.kids[x][i]);
                    assert(cat(r, c, t.kids[x][i]));
                }
            }
        }
        if x != n {
            let o = choose|o: int| o < j && #[trigger] oat(r, o, x);
            lemma_before_open(t, n, r, o, x);
            let p = t.parent[x]->0;
            let q = choose|q: int| q < o && #[trigger] oat(r, q, p);
            assert(oat(r, q, p));
            assert forall|i: int| #![trigger isk(t, p, i)] isk(t, p, i) && i < pos(t, x) implies closed(r, j, t.kids[p][i]) by {
                let c = choose|c: int| c < o && #[trigger] cat(r, c, t.kids[p][i]);
                assert(cat(r, c, t.kids[p][i]));
            }
        }
    }

    pub proof fn lemma_before_open(t: Tr, n: int, r: Seq<(Ev, int)>, o: int, x: int)
        requires
            tw(t),
            twalk(t, n, r),
            oat(r, o, x),
            x != n,
        ensures
            tl(t, x),
            t.parent[x] is Some,
            opened(r, o, t.parent[x]->0),
            forall|i: int| #![trigger isk(t, t.parent[x]->0, i)] isk(t, t.parent[x]->0, i) && i < pos(t, x) ==> closed(r, o, t.kids[t.parent[x]->0][i]),
        decreases o,
    {
        assert(tl(t, evn(r[o].0)));
        assert(o > 0);
        assert(bs(t, None, r[o]) == Some(r[o - 1]));
        assert(t.parent[x] is Some);
        let p = t.parent[x]->0;
        lemma_pos(t, x);
        let k = pos(t, x);
        if k == 0 {
            assert(oat(r, o - 1, p));
        } else {
            assert(isk(t, p, k - 1));
            let y = t.kids[p][k - 1];
            lemma_pos_of(t, p, k - 1);
            assert(prev_of(t, x) == Some(y));
            assert(cat(r, o - 1, y));
            lemma_before_close(t, n, r, o - 1, y);
            if y == n {
                assert(anc(t, n, x));
                // a sibling is no ancestor
                let m = choose|m: nat| #[trigger] up(t, x, m) == Some(n);
                lemma_anc_dep(t, n, x);
                assert(m > 0);
                assert(up(t, p, (m - 1) as nat) == Some(n));
                assert(anc(t, n, p));
                lemma_anc_dep(t, n, p);
                lemma_dep(t, y);
                assert(false);
            }
            let q = choose|q: int| q < o - 1 && #[trigger] oat(r, q, p);
            assert(oat(r, q, p));
            assert forall|i: int| #![trigger isk(t, p, i)] isk(t, p, i) && i < k implies closed(r, o, t.kids[p][i]) by {
                if i < k - 1 {
                    assert(closed(r, o - 1, t.kids[p][i]));
                    let c = choose|c: int| c < o - 1 && #[trigger] cat(r, c, t.kids[p][i]);
                    assert(cat(r, c, t.kids[p][i]));
                }
            }
        }
    }

    /// Where the traversal stands when it is about to yield event `k`.
    pub open spec fn now(t: Tr, n: int, r: Seq<(Ev, int)>, k: int) -> bool {
        let x = evn(r[k].0);
        &&& tl(t, x)
        &&& !closed(r, k, x)
        &&& r[k].0 is O ==> !opened(r, k, x)
        &&& r[k].0 is O ==> forall|i: int| #![trigger isk(t, x, i)] isk(t, x, i) ==> !closed(r, k, t.kids[x][i])
        &&& r[k].0 is C ==> forall|i: int| #![trigger isk(t, x, i)] isk(t, x, i) ==> closed(r, k, t.kids[x][i])
        &&& x != n ==> {
            let p = t.parent[x]->0;
            &&& t.parent[x] is Some
            &&& tl(t, p)
            &&& opened(r, k, p)
            &&& !closed(r, k, p)
            &&& forall|i: int| #![trigger isk(t, p, i)] isk(t, p, i) ==> (closed(r, k, t.kids[p][i]) <==> i < pos(t, x))
        }
    }

    /// No child of a node of the subtree is its top.
    pub proof fn lemma_kid_not_top(t: Tr, n: int, x: int, i: int)
        requires
            tw(t),
            tl(t, x),
            anc(t, n, x),
            isk(t, x, i),
        ensures
            t.kids[x][i] != n,
    {
        let y = t.kids[x][i];
        assert(tl(t, y) && t.parent[y] == Some(x));
        if y == n {
            lemma_anc_dep(t, n, x);
            lemma_dep(t, y);
        }
    }

    pub proof fn lemma_now(t: Tr, n: int, r: Seq<(Ev, int)>, k: int)
        requires
            tw(t),
            twalk(t, n, r),
            0 <= k < r.len(),
        ensures
            now(t, n, r, k),
    {
        let x = evn(r[k].0);
        assert(tl(t, x) && anc(t, n, x));
        if closed(r, k, x) {
            let j = choose|j: int| j < k && #[trigger] cat(r, j, x);
            assert(cat(r, j, x));
            if r[k].0 is O {
                lemma_before_close(t, n, r, j, x);
                let o = choose|o: int| o < j && #[trigger] oat(r, o, x);
                assert(oat(r, o, x));
                assert(r[o].0 == r[k].0);
            } else {
                assert(r[j].0 == r[k].0);
            }
        }
        if r[k].0 is O {
            if opened(r, k, x) {
                let o = choose|o: int| o < k && #[trigger] oat(r, o, x);
                assert(oat(r, o, x) && r[o].0 == r[k].0);
            }
            assert forall|i: int| #![trigger isk(t, x, i)] isk(t, x, i) implies !closed(r, k, t.kids[x][i]) by {
                let y = t.kids[x][i];
                if closed(r, k, y) {
                    let j = choose|j: int| j < k && #[trigger] cat(r, j, y);
                    lemma_kid_not_top(t, n, x, i);
                    lemma_before_close(t, n, r, j, y);
                    assert(t.parent[y] == Some(x));
                    let o = choose|o: int| o < j && #[trigger] oat(r, o, x);
                    assert(oat(r, o, x) && r[o].0 == r[k].0);
                }
            }
            if x != n {
                assert(oat(r, k, x));
                lemma_before_open(t, n, r, k, x);
            }
        } else {
            assert(cat(r, k, x));
            lemma_before_close(t, n, r, k, x);
        }
        if x != n {
            let p = t.parent[x]->0;
            lemma_pos(t, x);
            if closed(r, k, p) {
                let j = choose|j: int| j < k && #[trigger] cat(r, j, p);
                lemma_before_close(t, n, r, j, p);
                assert(isk(t, p, pos(t, x)));
                assert(closed(r, j, x));
                let c = choose|c: int| c < j && #[trigger] cat(r, c, x);
                assert(cat(r, c, x));
                assert(closed(r, k, x));
            }
            assert forall|i: int| #![trigger isk(t, p, i)] isk(t, p, i) && i >= pos(t, x) implies !closed(r, k, t.kids[p][i]) by {
                let y = t.kids[p][i];
                if closed(r, k, y) && i > pos(t, x) {
                    let j = choose|j: int| j < k && #[trigger] cat(r, j, y);
                    assert(cat(r, j, y));
                    lemma_pos_of(t, p, i);
                    assert(isk(t, p, pos(t, x)));
                    lemma_anc_step(t, n, x);
                    lemma_kid_not_top(t, n, p, i);
                    lemma_before_close(t, n, r, j, y);
                    assert(closed(r, j, x));
                    let c = choose|c: int| c < j && #[trigger] cat(r, c, x);
                    assert(cat(r, c, x));
                    assert(closed(r, k, x));
                }
            }
        }
    }

    /// In the end exactly the subtree has been closed.
    pub proof fn lemma_all_closed(t: Tr, n: int, r: Seq<(Ev, int)>, x: int)
        requires
            tw(t),
            twalk(t, n, r),
            0 <= x < t.alive.len(),
        ensures
            closed(r, r.len() as int, x) <==> tl(t, x) && anc(t, n, x),
    {
        if closed(r, r.len() as int, x) {
            let j = choose|j: int| j < r.len() && #[trigger] cat(r, j, x);
            assert(cat(r, j, x));
            assert(tl(t, evn(r[j].0)));
        }
        if tl(t, x) && anc(t, n, x) {
            let m = choose|m: nat| #[trigger] up(t, x, m) == Some(n);
            lemma_closes(t, n, r, x, m);
        }
    }

    proof fn lemma_closes(t: Tr, n: int, r: Seq<(Ev, int)>, x: int, m: nat)
        requires
            tw(t),
            twalk(t, n, r),
            tl(t, x),
            up(t, x, m) == Some(n),
        ensures
            closed(r, r.len() as int, x),
        decreases m,
    {
        if m == 0 {
            assert(cat(r, r.len() - 1, n));
        } else {
            let p = t.parent[x]->0;
            lemma_pos(t, x);
            lemma_closes(t, n, r, p, (m - 1) as nat);
            let j = choose|j: int| j < r.len() && #[trigger] cat(r, j, p);
            assert(cat(r, j, p));
            lemma_before_close(t, n, r, j, p);
            assert(isk(t, p, pos(t, x)));
            let c = choose|c: int| c < j && #[trigger] cat(r, c, x);
            assert(cat(r, c, x));
        }
    }

    /// What event `k` adds to the closed nodes.
    pub proof fn lemma_closed_step(r: Seq<(Ev, int)>, k: int, x: int)
        requires
            0 <= k < r.len(),
        ensures
            closed(r, k + 1, x) <==> closed(r, k, x) || r[k].0 == Ev::C(x),
            opened(r, k + 1, x) <==> opened(r, k, x) || r[k].0 == Ev::O(x),
    {
        if closed(r, k + 1, x) && r[k].0 != Ev::C(x) {
            let j = choose|j: int| j < k + 1 && #[trigger] cat(r, j, x);
            assert(cat(r, j, x) && j < k);
        }
        if r[k].0 == Ev::C(x) {
            assert(cat(r, k, x));
        }
        if closed(r, k, x) {
            let j = choose|j: int| j < k && #[trigger] cat(r, j, x);
            assert(cat(r, j, x) && j < k + 1);
        }
        if opened(r, k + 1, x) && r[k].0 != Ev::O(x) {
            let j = choose|j: int| j < k + 1 && #[trigger] oat(r, j, x);
            assert(oat(r, j, x) && j < k);
        }
        if r[k].0 == Ev::O(x) {
            assert(oat(r, k, x));
        }
        if opened(r, k, x) {
            let j = choose|j: int| j < k && #[trigger] oat(r, j, x);
            assert(oat(r, j, x) && j < k + 1);
        }
    }

    // ------------------------------------------------------------------
    // Closing order: every node after its children, which are in sibling order.
    pub open spec fn post(t: Tr, n: int) -> Seq<int>
        decreases rk(t, n), 1int, 0int,
        when tw(t) && tl(t, n)
        via post_dec
    {
        posts(t, n, t.kids[n].len() as int).push(n)
    }

    #[via_fn]
    proof fn post_dec(t: Tr, n: int) {
    }

    pub open spec fn posts(t: Tr, p: int, j: int) -> Seq<int>
        decreases rk(t, p), 0int, j,
        when tw(t) && tl(t, p) && 0 <= j <= t.kids[p].len()
        via posts_dec
    {
        if j <= 0 {
            Seq::empty()
        } else {
            posts(t, p, j - 1) + post(t, t.kids[p][j - 1])
        }
    }

    #[via_fn]
    proof fn posts_dec(t: Tr, p: int, j: int) {
        if j > 0 {
            assert(isk(t, p, j - 1));
            lemma_rk(t, p, j - 1);
        }
    }

    /// The nodes closed by the events `r`, in order.
    pub open spec fn cls(r: Seq<(Ev, int)>) -> Seq<int>
        decreases r.len(),
    {
        if r.len() == 0 {
            Seq::empty()
        } else {
            match r.last().0 {
                Ev::C(x) => cls(r.drop_last()).push(x),
                Ev::O(_) => cls(r.drop_last()),
            }
        }
    }

    pub proof fn lemma_cls_step(r: Seq<(Ev, int)>, k: int)
        requires
            0 <= k < r.len(),
        ensures
            cls(r.subrange(0, k + 1)) == (match r[k].0 {
                Ev::C(x) => cls(r.subrange(0, k)).push(x),
                Ev::O(_) => cls(r.subrange(0, k)),
            }),
    {
        assert(r.subrange(0, k + 1).drop_last() =~= r.subrange(0, k));
        assert(r.subrange(0, k + 1).last() == r[k]);
    }

    proof fn lemma_cls_cat(a: Seq<(Ev, int)>, b: Seq<(Ev, int)>)
        ensures
            cls(a + b) == cls(a) + cls(b),
        decreases b.len(),
    {
        if b.len() == 0 {
            assert(a + b =~= a);
            assert(cls(a) + cls(b) =~= cls(a));
        } else {
            lemma_cls_cat(a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
            assert(cls(a + b) =~= cls(a) + cls(b));
        }
    }

    /// The closings of a traversal are the closing order.
    pub proof fn lemma_post(t: Tr, n: int, d: int)
        requires
            tw(t),
            tl(t, n),
        ensures
            cls(tour(t, n, d, None)) == post(t, n),
        decreases rk(t, n), 1int, 0int,
    {
        let len = t.kids[n].len() as int;
        let a = seq![(Ev::O(n), d)];
        let b = tours(t, n, len, d + 1, None);
        let z = seq![(Ev::C(n), d)];
        lemma_posts(t, n, len, d + 1);
        lemma_cls_cat(a, b);
        lemma_cls_cat(a + b, z);
        reveal_with_fuel(cls, 3);
        assert(a.drop_last() =~= Seq::empty() && z.drop_last() =~= Seq::empty());
        assert(cls(a) =~= Seq::empty());
        assert(cls(z) =~= seq![n]);
        assert(tour(t, n, d, None) == a + b + z);
        assert(cls(tour(t, n, d, None)) =~= post(t, n));
    }

    proof fn lemma_posts(t: Tr, p: int, j: int, d: int)
        requires
            tw(t),
            tl(t, p),
            0 <= j <= t.kids[p].len(),
        ensures
            cls(tours(t, p, j, d, None)) == posts(t, p, j),
        decreases rk(t, p), 0int, j,
    {
        if j > 0 {
            assert(isk(t, p, j - 1));
            lemma_rk(t, p, j - 1);
            lemma_posts(t, p, j - 1, d);
            lemma_post(t, t.kids[p][j - 1], d);
            lemma_cls_cat(tours(t, p, j - 1, d, None), tour(t, t.kids[p][j - 1], d, None));
        }
    }

    // ------------------------------------------------------------------
    // Forests without some of their nodes.
    pub open spec fn without(k: Seq<int>, dead: ISet<int>) -> Seq<int>
        decreases k.len(),
    {
        if k.len() == 0 {
            Seq::empty()
        } else if dead.contains(k.last()) {
            without(k.drop_last(), dead)
        } else {
            without(k.drop_last(), dead).push(k.last())
        }
    }

    /// The nodes `dead` are gone; every other node keeps its other children in order.
    pub open spec fn t_drop(t: Tr, dead: ISet<int>) -> Tr {
        Tr {
            alive: Seq::new(t.alive.len(), |i: int| t.alive[i] && !dead.contains(i)),
            parent: Seq::new(t.parent.len(), |i: int| if dead.contains(i) { None } else { t.parent[i] }),
            kids: Seq::new(t.kids.len(), |i: int| if dead.contains(i) { Seq::empty() } else { without(t.kids[i], dead) }),
        }
    }

    /// The subtree of `n`.
    pub open spec fn sub(t: Tr, n: int) -> ISet<int> {
        ISet::new(|x: int| tl(t, x) && anc(t, n, x))
    }

    /// The subtree of `n` is detached and gone.
    pub open spec fn t_remove(t: Tr, n: int) -> Tr {
        t_drop(t_detach(t, n), sub(t, n))
    }

    pub open spec fn closed_set(r: Seq<(Ev, int)>, k: int) -> ISet<int> {
        ISet::new(|x: int| closed(r, k, x))
    }

    pub proof fn lemma_without_same(k: Seq<int>, a: ISet<int>, b: ISet<int>)
        requires
            forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> (a.contains(k[i]) <==> b.contains(k[i])),
        ensures
            without(k, a) == without(k, b),
        decreases k.len(),
    {
        if k.len() > 0 {
            let q = k.drop_last();
            assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies (a.contains(q[i]) <==> b.contains(q[i])) by {
                assert(q[i] == k[i]);
            }
            assert(k.last() == k[k.len() - 1]);
            lemma_without_same(q, a, b);
        }
    }

    /// The dead ones are the first `j`.
    pub proof fn lemma_without_prefix(k: Seq<int>, a: ISet<int>, j: int)
        requires
            0 <= j <= k.len(),
            forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> (a.contains(k[i]) <==> i < j),
        ensures
            without(k, a) == k.subrange(j, k.len() as int),
        decreases k.len(),
    {
        if k.len() > 0 {
            let q = k.drop_last();
            assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies (a.contains(q[i]) <==> i < j) by {
                assert(q[i] == k[i]);
            }
            assert(k.last() == k[k.len() - 1]);
            if j == k.len() {
                assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies (a.contains(q[i]) <==> i < q.len()) by {}
                lemma_without_prefix(q, a, q.len() as int);
            } else {
                lemma_without_prefix(q, a, j);
            }
            assert(without(k, a) =~= k.subrange(j, k.len() as int));
        } else {
            assert(without(k, a) =~= k.subrange(j, k.len() as int));
        }
    }

    // ------------------------------------------------------------------
    // The traverser that takes the links as they are.
    pub open spec fn rstep(s: Raw, root: int, e: Ev) -> Option<Ev> {
        if e == Ev::C(root) {
            None
        } else {
            match e {
                Ev::O(x) => match s[x].first {
                    Some(f) => Some(Ev::O(f)),
                    None => Some(Ev::C(x)),
                },
                Ev::C(x) => match s[x].next {
                    Some(y) => Some(Ev::O(y)),
                    None => Some(Ev::C(s[x].parent->0)),
                },
            }
        }
    }

    pub open spec fn rpre(s: Raw, root: int, e: Ev) -> bool {
        &&& live(s, evn(e))
        &&& e is C && evn(e) != root && s[evn(e)].next is None ==> s[evn(e)].parent is Some
    }

    /// The event `k` of `r`, if any.
    pub open spec fn evat(r: Seq<(Ev, int)>, k: int) -> Option<Ev> {
        if 0 <= k < r.len() { Some(r[k].0) } else { None }
    }

    /// The raw traverser goes through the tour as long as the links of the current node are those of the tree.
    pub proof fn lemma_rstep(s: Raw, t: Tr, n: int, r: Seq<(Ev, int)>, k: int)
        requires
            tw(t),
            twalk(t, n, r),
            0 <= k < r.len(),
            live(s, evn(r[k].0)),
            r[k].0 is O ==> s[evn(r[k].0)].first == k_first(t.kids[evn(r[k].0)]),
            r[k].0 is C && evn(r[k].0) != n ==> s[evn(r[k].0)].next == next_of(t, evn(r[k].0)) && s[evn(r[k].0)].parent == t.parent[evn(r[k].0)],
        ensures
            rpre(s, n, r[k].0),
            rstep(s, n, r[k].0) == evat(r, k + 1),
    {
        let x = evn(r[k].0);
        lemma_now(t, n, r, k);
        if r[k].0 == Ev::C(n) {
            if k + 1 < r.len() {
                assert(r[k].0 == r[r.len() - 1].0);
            }
        } else {
            assert(k + 1 < r.len()) by {
                assert(r[r.len() - 1].0 == Ev::C(n));
            }
            assert(fs(t, None, r[k]) == Some(r[k + 1]));
        }
    }

    // ------------------------------------------------------------------
    // Removal.
    pub open spec fn t_kill(t: Tr, x: int) -> Tr {
        Tr { alive: t.alive.update(x, false), ..t }
    }

    /// A childless root is removed.
    pub proof fn lemma_kill(s: Raw, x: int)
        requires
            wf(s),
            live(s, x),
            abs(s).parent[x] is None,
            abs(s).kids[x].len() == 0,
        ensures
            s[x].prev is Some && s[x].parent is None && s[x].next is None && s[x].first is None,
            wf(s.update(x, nb_dead())),
            abs(s.update(x, nb_dead())) == t_kill(abs(s), x),
    {
        let t = abs(s);
        let u = t_kill(t, x);
        let z = s.update(x, nb_dead());
        lemma_wf(s);
        lemma_single(s, x);
        assert(tl(t, x));
        assert forall|i: int| #![trigger tl(u, i)] tl(u, i) <==> tl(t, i) && i != x by {}
        assert forall|p: int, j: int| #![trigger isk(u, p, j)] isk(u, p, j) implies isk(t, p, j) && tl(u, u.kids[p][j]) && u.parent[u.kids[p][j]] == Some(p) by {
            assert(isk(t, p, j));
        }
        assert forall|p: int, j: int, k: int| #![trigger isk(u, p, j), isk(u, p, k)] isk(u, p, j) && isk(u, p, k) && j != k implies u.kids[p][j] != u.kids[p][k] by {
            assert(isk(t, p, j) && isk(t, p, k));
        }
        assert forall|i: int| #![trigger u.parent[i]] tl(u, i) && u.parent[i] is Some implies tl(u, u.parent[i]->0) && has_pos(u, i) by {
            lemma_pos(t, i);
            let p = t.parent[i]->0;
            assert(isk(t, p, pos(t, i)));
            assert(is_pos(u, i, pos(t, i)));
        }
        assert forall|i: int| #![trigger u.kids[i]] #![trigger u.parent[i]] 0 <= i < u.alive.len() && !u.alive[i] implies u.parent[i] is None && u.kids[i].len() == 0 by {
            if i != x { assert(!t.alive[i]); assert(t.parent[i] is None); }
        }
        lemma_acyc_sub(t, u);
        assert(tw(u));
        assert forall|i: int| #![trigger z[i]] #![trigger u.alive[i]] 0 <= i < z.len() implies (z[i].prev is Some <==> u.alive[i]) by {
            assert(s[i].prev is Some <==> t.alive[i]);
        }
        assert forall|i: int| #![trigger z[i]] #![trigger u.kids[i]] tl(u, i) implies z[i].first == k_first(u.kids[i]) by {
            assert(s[i].first == k_first(t.kids[i]));
        }
        assert forall|p: int, j: int| #![trigger isk(u, p, j)] isk(u, p, j) implies ({
            &&& z[u.kids[p][j]].parent == Some(p)
            &&& z[u.kids[p][j]].next == k_at(u.kids[p], j + 1)
            &&& z[u.kids[p][j]].prev == link_prev(u.kids[p], j)
        }) by {
            assert(isk(t, p, j));
            assert(u.kids[p][j] != x);
        }
        assert forall|i: int| #![trigger z[i]] #![trigger u.parent[i]] tl(u, i) && u.parent[i] is None implies z[i].parent is None && z[i].next is None && z[i].prev == Some(i) by {
            assert(s[i].parent is None);
        }
        assert forall|i: int| #![trigger z[i]] 0 <= i < z.len() && z[i].prev is None implies z[i] == nb_dead() by {
            if i != x { assert(s[i].prev is None); }
        }
        assert(rep(z, u, ISet::empty()));
        lemma_abs(z, u, ISet::empty());
    }

    /// Nothing is gone yet.
    pub proof fn lemma_drop_none(t: Tr, r: Seq<(Ev, int)>)
        requires
            tw(t),
        ensures
            t_drop(t, closed_set(r, 0)) == t,
    {
        let d = closed_set(r, 0);
        assert forall|x: int| !d.contains(x) by {
            if closed(r, 0, x) {
                let j = choose|j: int| j < 0 && #[trigger] cat(r, j, x);
                assert(cat(r, j, x));
            }
        }
        let u = t_drop(t, d);
        assert(u.alive =~= t.alive);
        assert(u.parent =~= t.parent);
        assert forall|i: int| 0 <= i < t.kids.len() implies u.kids[i] == t.kids[i] by {
            lemma_without_prefix(t.kids[i], d, 0);
            assert(t.kids[i].subrange(0, t.kids[i].len() as int) =~= t.kids[i]);
        }
        assert(u.kids =~= t.kids);
    }

    /// While the closed nodes are gone: the tree at event `k`.
    pub proof fn lemma_drop_now(t: Tr, n: int, r: Seq<(Ev, int)>, k: int)
        requires
            tw(t),
            twalk(t, n, r),
            0 <= k < r.len(),
        ensures
            ({
                let u = t_drop(t, closed_set(r, k));
                let x = evn(r[k].0);
                &&& tl(u, x)
                &&& u.parent[x] == t.parent[x]
                &&& r[k].0 is O ==> u.kids[x] == t.kids[x]
                &&& r[k].0 is C ==> u.kids[x].len() == 0
                &&& x != n ==> {
                    let p = t.parent[x]->0;
                    let l = t.kids[p].len() as int;
                    &&& t.parent[x] is Some
                    &&& tl(u, p)
                    &&& 0 <= pos(t, x) < l
                    &&& u.kids[p] == t.kids[p].subrange(pos(t, x), l)
                    &&& u.kids[p][0] == x
                }
            }),
    {
        let d = closed_set(r, k);
        let u = t_drop(t, d);
        let x = evn(r[k].0);
        lemma_now(t, n, r, k);
        let l = t.kids[x].len() as int;
        assert forall|i: int| #![trigger t.kids[x][i]] 0 <= i < l implies (d.contains(t.kids[x][i]) <==> r[k].0 is C) by {
            assert(isk(t, x, i));
        }
        if r[k].0 is O {
            lemma_without_prefix(t.kids[x], d, 0);
            assert(t.kids[x].subrange(0, l) =~= t.kids[x]);
        } else {
            lemma_without_prefix(t.kids[x], d, l);
        }
        if x != n {
            let p = t.parent[x]->0;
            lemma_pos(t, x);
            assert forall|i: int| #![trigger t.kids[p][i]] 0 <= i < t.kids[p].len() implies (d.contains(t.kids[p][i]) <==> i < pos(t, x)) by {
                assert(isk(t, p, i));
            }
            lemma_without_prefix(t.kids[p], d, pos(t, x));
        }
    }

    /// One node is closed: it is a leaf, and detaching and removing it makes it one of those that are gone.
    pub proof fn lemma_drop_step(t: Tr, n: int, r: Seq<(Ev, int)>, k: int)
        requires
            tw(t),
            twalk(t, n, r),
            t.parent[n] is None,
            0 <= k < r.len(),
            r[k].0 is C,
            tw(t_drop(t, closed_set(r, k))),
        ensures
            ({
                let u = t_drop(t, closed_set(r, k));
                let x = evn(r[k].0);
                let v = t_detach(u, x);
                &&& tl(u, x)
                &&& tl(v, x)
                &&& v.parent[x] is None
                &&& v.kids[x].len() == 0
                &&& t_kill(v, x) == t_drop(t, closed_set(r, k + 1))
            }),
    {
        let d = closed_set(r, k);
        let e = closed_set(r, k + 1);
        let u = t_drop(t, d);
        let x = evn(r[k].0);
        let v = t_detach(u, x);
        let w = t_drop(t, e);
        lemma_now(t, n, r, k);
        lemma_drop_now(t, n, r, k);
        assert forall|y: int| e.contains(y) <==> d.contains(y) || y == x by {
            lemma_closed_step(r, k, y);
        }
        let z = t_kill(v, x);
        if x != n {
            let p = t.parent[x]->0;
            let l = t.kids[p].len() as int;
            lemma_pos(t, x);
            assert(isk(u, p, 0));
            lemma_pos_of(u, p, 0);
            assert(pos(u, x) == 0);
            let c = u.kids[p].subrange(0, 1);
            assert(c =~= seq![x]);
            assert forall|y: int| c.contains(y) <==> y == x by { assert(c[0] == x); }
            assert(v.kids[x] == u.kids[x]);
            assert forall|i: int| #![trigger t.kids[p][i]] 0 <= i < l implies (e.contains(t.kids[p][i]) <==> i < pos(t, x) + 1) by {
                assert(isk(t, p, i) && isk(t, p, pos(t, x)));
            }
            lemma_without_prefix(t.kids[p], e, pos(t, x) + 1);
            assert(v.kids[p] =~= t.kids[p].subrange(pos(t, x) + 1, l));
        } else {
            assert(v == u);
        }
        assert(z.alive =~= w.alive);
        assert(z.parent =~= w.parent);
        assert forall|i: int| 0 <= i < t.kids.len() implies z.kids[i] == w.kids[i] by {
            if i == x {
                assert(z.kids[i] =~= w.kids[i]);
            } else if x != n && i == t.parent[x]->0 {
            } else {
                assert forall|j: int| #![trigger t.kids[i][j]] 0 <= j < t.kids[i].len() implies (d.contains(t.kids[i][j]) <==> e.contains(t.kids[i][j])) by {
                    if t.alive[i] {
                        assert(isk(t, i, j));
                        assert(t.parent[t.kids[i][j]] == Some(i));
                    }
                }
                lemma_without_same(t.kids[i], d, e);
            }
        }
        assert(z.kids =~= w.kids);
    }

    /// Detaching changes nothing below the node.
    pub proof fn lemma_detach_sub(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
            tw(t_detach(t, n)),
        ensures
            sub(t_detach(t, n), n) == sub(t, n),
            t_detach(t, n).parent[n] is None,
            tl(t_detach(t, n), n),
    {
        let u = t_detach(t, n);
        if t.parent[n] is Some {
            let p = t.parent[n]->0;
            lemma_pos(t, n);
            let c = t.kids[p].subrange(pos(t, n), pos(t, n) + 1);
            assert(c =~= seq![n]);
            assert forall|y: int| c.contains(y) <==> y == n by { assert(c[0] == n); }
            assert forall|x: int| sub(u, n).contains(x) <==> sub(t, n).contains(x) by {
                if tl(t, x) && anc(u, n, x) {
                    lemma_anc_sub(t, u, n, x);
                }
                if tl(t, x) && anc(t, n, x) {
                    let m = choose|m: nat| #[trigger] up(t, x, m) == Some(n);
                    lemma_detach_up(t, n, x, m);
                }
            }
            assert(sub(u, n) =~= sub(t, n));
        }
    }

    proof fn lemma_detach_up(t: Tr, n: int, x: int, m: nat)
        requires
            tw(t),
            tl(t, n),
            tl(t, x),
            t.parent[n] is Some,
            up(t, x, m) == Some(n),
        ensures
            anc(t_detach(t, n), n, x),
        decreases m,
    {
        let u = t_detach(t, n);
        lemma_anc_self(u, n);
        if x != n {
            lemma_pos(t, n);
            let p = t.parent[n]->0;
            let c = t.kids[p].subrange(pos(t, n), pos(t, n) + 1);
            assert(c =~= seq![n]);
            assert(!c.contains(x)) by { if c.contains(x) { assert(c[0] == n); } }
            assert(u.parent[x] == t.parent[x]);
            lemma_detach_up(t, n, t.parent[x]->0, (m - 1) as nat);
            lemma_anc_step(u, n, x);
        }
    }

    /// In the end the subtree is gone.
    pub proof fn lemma_drop_all(t: Tr, n: int, r: Seq<(Ev, int)>)
        requires
            tw(t),
            twalk(t, n, r),
        ensures
            closed_set(r, r.len() as int) == sub(t, n),
    {
        assert forall|x: int| closed_set(r, r.len() as int).contains(x) <==> sub(t, n).contains(x) by {
            if 0 <= x < t.alive.len() {
                lemma_all_closed(t, n, r, x);
            } else if closed(r, r.len() as int, x) {
                let j = choose|j: int| j < r.len() && #[trigger] cat(r, j, x);
                assert(cat(r, j, x));
                assert(tl(t, evn(r[j].0)));
            }
        }
        assert(closed_set(r, r.len() as int) =~= sub(t, n));
    }

    /// The links with the nodes `dead` overwritten.
    pub open spec fn kill(s: Raw, dead: ISet<int>) -> Raw {
        Seq::new(s.len(), |i: int| if dead.contains(i) { nb_dead() } else { s[i] })
    }

    /// Overwriting a whole tree leaves a consistent forest.
    pub proof fn lemma_kill_all(s: Raw, n: int)
        requires
            wf(s),
            live(s, n),
            abs(s).parent[n] is None,
        ensures
            wf(kill(s, sub(abs(s), n))),
            abs(kill(s, sub(abs(s), n))) == t_drop(abs(s), sub(abs(s), n)),
    {
        let t = abs(s);
        let d = sub(t, n);
        let u = t_drop(t, d);
        let z = kill(s, d);
        lemma_wf(s);
        // no child of a node outside is inside, every child of a node inside is inside
        assert forall|p: int, j: int| #![trigger isk(t, p, j)] isk(t, p, j) implies (d.contains(t.kids[p][j]) <==> d.contains(p)) by {
            let c = t.kids[p][j];
            assert(tl(t, c) && t.parent[c] == Some(p));
            lemma_anc_step(t, n, c);
        }
        assert forall|p: int| #![trigger u.kids[p]] 0 <= p < t.alive.len() && !d.contains(p) implies u.kids[p] == t.kids[p] by {
            assert forall|j: int| #![trigger t.kids[p][j]] 0 <= j < t.kids[p].len() implies (d.contains(t.kids[p][j]) <==> j < 0) by {
                if t.alive[p] { assert(isk(t, p, j)); }
            }
            lemma_without_prefix(t.kids[p], d, 0);
            assert(t.kids[p].subrange(0, t.kids[p].len() as int) =~= t.kids[p]);
        }
        assert forall|i: int| #![trigger tl(u, i)] tl(u, i) <==> tl(t, i) && !d.contains(i) by {}
        assert forall|p: int, j: int| #![trigger isk(u, p, j)] isk(u, p, j) implies isk(t, p, j) && u.kids[p] == t.kids[p] && tl(u, u.kids[p][j]) && u.parent[u.kids[p][j]] == Some(p) by {
            assert(tl(u, p));
            assert(u.kids[p] == t.kids[p]);
            assert(isk(t, p, j));
        }
        assert forall|p: int, j: int, k: int| #![trigger isk(u, p, j), isk(u, p, k)] isk(u, p, j) && isk(u, p, k) && j != k implies u.kids[p][j] != u.kids[p][k] by {
            assert(isk(t, p, j) && isk(t, p, k));
        }
        assert forall|i: int| #![trigger u.parent[i]] tl(u, i) && u.parent[i] is Some implies tl(u, u.parent[i]->0) && has_pos(u, i) && u.parent[i] == t.parent[i] by {
            lemma_pos(t, i);
            let p = t.parent[i]->0;
            assert(isk(t, p, pos(t, i)));
            assert(u.kids[p] == t.kids[p]);
            assert(is_pos(u, i, pos(t, i)));
        }
        assert forall|i: int| #![trigger u.kids[i]] #![trigger u.parent[i]] 0 <= i < u.alive.len() && !u.alive[i] implies u.parent[i] is None && u.kids[i].len() == 0 by {
            if !d.contains(i) { assert(!t.alive[i]); assert(t.parent[i] is None); assert(u.kids[i] == t.kids[i]); }
        }
        lemma_acyc_sub(t, u);
        assert(tw(u));
        assert forall|i: int| #![trigger z[i]] #![trigger u.alive[i]] 0 <= i < z.len() implies (z[i].prev is Some <==> u.alive[i]) by {
            assert(s[i].prev is Some <==> t.alive[i]);
        }
        assert forall|i: int| #![trigger z[i]] #![trigger u.kids[i]] tl(u, i) implies z[i].first == k_first(u.kids[i]) by {
            assert(s[i].first == k_first(t.kids[i]));
            assert(u.kids[i] == t.kids[i]);
        }
        assert forall|p: int, j: int| #![trigger isk(u, p, j)] isk(u, p, j) implies ({
            &&& z[u.kids[p][j]].parent == Some(p)
            &&& z[u.kids[p][j]].next == k_at(u.kids[p], j + 1)
            &&& z[u.kids[p][j]].prev == link_prev(u.kids[p], j)
        }) by {
            assert(isk(t, p, j));
            assert(tl(u, u.kids[p][j]));
        }
        assert forall|i: int| #![trigger z[i]] #![trigger u.parent[i]] tl(u, i) && u.parent[i] is None implies z[i].parent is None && z[i].next is None && z[i].prev == Some(i) by {
            assert(t.parent[i] is None);
            assert(s[i].parent is None);
        }
        assert forall|i: int| #![trigger z[i]] 0 <= i < z.len() && z[i].prev is None implies z[i] == nb_dead() by {
            if !d.contains(i) { assert(s[i].prev is None); }
        }
        assert(rep(z, u, ISet::empty()));
        lemma_abs(z, u, ISet::empty());
    }

    // ------------------------------------------------------------------
    // The loops.
    /// The data without those of the nodes `dead`.
    pub open spec fn gone<T>(d: Seq<Option<T>>, dead: ISet<int>) -> Seq<Option<T>> {
        Seq::new(d.len(), |i: int| if dead.contains(i) { None } else { d[i] })
    }

    /// The data of the nodes `q`, in order.
    pub open spec fn pick<T>(q: Seq<int>, d: Seq<Option<T>>) -> Seq<T> {
        Seq::new(q.len(), |i: int| d[q[i]]->0)
    }

    /// The nodes closed before event `k`, in order.
    pub open spec fn done(r: Seq<(Ev, int)>, k: int) -> Seq<int> {
        cls(r.subrange(0, k))
    }

    pub proof fn lemma_tour_start(s: Raw, n: int)
        requires
            wf(s),
            live(s, n),
        ensures
            ({
                let r = tour(abs(s), n, 0, None);
                &&& tw(abs(s))
                &&& tl(abs(s), n)
                &&& twalk(abs(s), n, r)
                &&& evat(r, 0) == Some(Ev::O(n))
                &&& done(r, 0) == Seq::<int>::empty()
                &&& closed_set(r, 0) =~= ISet::<int>::empty()
            }),
    {
        lemma_tw(s);
        let r = tour(abs(s), n, 0, None);
        lemma_twalk(abs(s), n);
        assert(r.subrange(0, 0) =~= Seq::empty());
        assert forall|x: int| !closed_set(r, 0).contains(x) by {
            if closed(r, 0, x) {
                let j = choose|j: int| j < 0 && #[trigger] cat(r, j, x);
                assert(cat(r, j, x));
            }
        }
    }

    pub proof fn lemma_tour_end(s: Raw, n: int)
        requires
            wf(s),
            live(s, n),
        ensures
            ({
                let r = tour(abs(s), n, 0, None);
                &&& done(r, r.len() as int) == post(abs(s), n)
                &&& closed_set(r, r.len() as int) == sub(abs(s), n)
            }),
    {
        let t = abs(s);
        lemma_tour_start(s, n);
        let r = tour(t, n, 0, None);
        lemma_post(t, n, 0);
        lemma_drop_all(t, n, r);
        assert(r.subrange(0, r.len() as int) =~= r);
    }

    /// One event of the traversal, in the links `s` with the closed nodes gone.
    pub proof fn lemma_safe_event(s: Raw, t: Tr, n: int, r: Seq<(Ev, int)>, k: int)
        requires
            tw(t),
            twalk(t, n, r),
            0 <= k < r.len(),
            wf(s),
            abs(s) == t_drop(t, closed_set(r, k)),
        ensures
            live(s, evn(r[k].0)),
            rpre(s, n, r[k].0),
            rstep(s, n, r[k].0) == evat(r, k + 1),
            r[k].0 is C ==> abs(s).kids[evn(r[k].0)].len() == 0 && s[evn(r[k].0)].first is None,
    {
        let x = evn(r[k].0);
        let u = abs(s);
        lemma_tw(s);
        lemma_drop_now(t, n, r, k);
        assert(tl(u, x));
        assert(s[x].first == k_first(u.kids[x]));
        lemma_single(s, x);
        if r[k].0 is C && x != n {
            let p = t.parent[x]->0;
            lemma_pos(t, x);
            assert(isk(u, p, 0));
            lemma_pos_of(u, p, 0);
        }
        lemma_rstep(s, t, n, r, k);
    }

    pub proof fn lemma_fast_event(s: Raw, n: int, r: Seq<(Ev, int)>, k: int)
        requires
            wf(s),
            twalk(abs(s), n, r),
            0 <= k < r.len(),
        ensures
            ({
                let z = kill(s, closed_set(r, k));
                &&& live(z, evn(r[k].0))
                &&& rpre(z, n, r[k].0)
                &&& rstep(z, n, r[k].0) == evat(r, k + 1)
            }),
    {
        let x = evn(r[k].0);
        let t = abs(s);
        let z = kill(s, closed_set(r, k));
        lemma_tw(s);
        lemma_now(t, n, r, k);
        assert(z[x] == s[x]);
        lemma_single(s, x);
        assert(s[x].first == k_first(t.kids[x]));
        lemma_rstep(z, t, n, r, k);
    }

    /// Event `k` and what has been done after it.
    pub proof fn lemma_event_done(r: Seq<(Ev, int)>, k: int)
        requires
            0 <= k < r.len(),
        ensures
            r[k].0 is O ==> closed_set(r, k + 1) == closed_set(r, k) && done(r, k + 1) == done(r, k),
            r[k].0 is C ==> closed_set(r, k + 1) == closed_set(r, k).insert(evn(r[k].0)) && done(r, k + 1) == done(r, k).push(evn(r[k].0)),
    {
        lemma_cls_step(r, k);
        assert forall|x: int| closed_set(r, k + 1).contains(x) <==> closed_set(r, k).contains(x) || r[k].0 == Ev::C(x) by {
            lemma_closed_step(r, k, x);
        }
        if r[k].0 is O {
            assert(closed_set(r, k + 1) =~= closed_set(r, k));
        } else {
            let a = closed_set(r, k + 1);
            let b = closed_set(r, k).insert(evn(r[k].0));
            assert forall|x: int| a.contains(x) <==> b.contains(x) by {
                lemma_closed_step(r, k, x);
                assert(r[k].0 == Ev::C(x) <==> x == evn(r[k].0));
                assert(a.contains(x) <==> closed(r, k + 1, x));
                assert(closed_set(r, k).contains(x) <==> closed(r, k, x));
                assert(b.contains(x) <==> closed_set(r, k).contains(x) || x == evn(r[k].0));
            }
            assert(a =~= b);
        }
    }

    /// The closing order of a subtree does not depend on what is around it.
    proof fn lemma_post_same(t: Tr, u: Tr, x: int)
        requires
            tw(t),
            tw(u),
            tl(t, x),
            tl(u, x),
            forall|y: int| #![trigger t.kids[y]] #![trigger tl(u, y)] sub(t, x).contains(y) ==> tl(u, y) && u.kids[y] == t.kids[y],
        ensures
            post(t, x) == post(u, x),
        decreases rk(t, x), 1int, 0int,
    {
        lemma_anc_self(t, x);
        assert(sub(t, x).contains(x));
        assert(t.kids[x] == u.kids[x]);
        lemma_posts_same(t, u, x, t.kids[x].len() as int);
    }

    proof fn lemma_posts_same(t: Tr, u: Tr, x: int, j: int)
        requires
            tw(t),
            tw(u),
            tl(t, x),
            tl(u, x),
            0 <= j <= t.kids[x].len(),
            forall|y: int| #![trigger t.kids[y]] #![trigger tl(u, y)] sub(t, x).contains(y) ==> tl(u, y) && u.kids[y] == t.kids[y],
        ensures
            posts(t, x, j) == posts(u, x, j),
        decreases rk(t, x), 0int, j,
    {
        lemma_anc_self(t, x);
        assert(sub(t, x).contains(x));
        assert(t.kids[x] == u.kids[x]);
        if j > 0 {
            assert(isk(t, x, j - 1));
            lemma_rk(t, x, j - 1);
            let c = t.kids[x][j - 1];
            lemma_posts_same(t, u, x, j - 1);
            assert forall|y: int| #![trigger t.kids[y]] #![trigger tl(u, y)] sub(t, c).contains(y) implies tl(u, y) && u.kids[y] == t.kids[y] by {
                lemma_anc_self(t, x);
                lemma_anc_step(t, x, c);
                lemma_anc_trans(t, x, c, y);
                assert(sub(t, x).contains(y));
            }
            lemma_anc_self(t, c);
            assert(sub(t, c).contains(c));
            assert(t.kids[c] == u.kids[c]);
            lemma_post_same(t, u, c);
            assert(isk(u, x, j - 1));
        }
    }

    proof fn lemma_anc_trans(t: Tr, a: int, b: int, x: int)
        requires
            anc(t, a, b),
            anc(t, b, x),
        ensures
            anc(t, a, x),
    {
        let m = choose|m: nat| #[trigger] up(t, x, m) == Some(b);
        lemma_anc_trans_n(t, a, b, x, m);
    }

    proof fn lemma_anc_trans_n(t: Tr, a: int, b: int, x: int, m: nat)
        requires
            anc(t, a, b),
            up(t, x, m) == Some(b),
        ensures
            anc(t, a, x),
        decreases m,
    {
        if m > 0 {
            let p = t.parent[x]->0;
            lemma_anc_trans_n(t, a, b, p, (m - 1) as nat);
            let j = choose|j: nat| #[trigger] up(t, p, j) == Some(a);
            assert(up(t, x, j + 1) == Some(a));
        }
    }

    pub proof fn lemma_post_detach(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
            tw(t_detach(t, n)),
        ensures
            post(t_detach(t, n), n) == post(t, n),
    {
        let u = t_detach(t, n);
        if t.parent[n] is Some {
            lemma_pos(t, n);
            let p = t.parent[n]->0;
            assert forall|y: int| #![trigger t.kids[y]] #![trigger tl(u, y)] sub(t, n).contains(y) implies tl(u, y) && u.kids[y] == t.kids[y] by {
                if y == p {
                    lemma_anc_dep(t, n, p);
                    lemma_dep(t, n);
                }
            }
            lemma_post_same(t, u, n);
        }
    }

    /// The forest `s1` with data `d1` is the forest `s0` with data `d0` without the subtree of `n`; a dead `n` changes nothing.
    pub open spec fn removed<T>(s0: Raw, d0: Seq<Option<T>>, s1: Raw, d1: Seq<Option<T>>, n: int) -> bool {
        if live(s0, n) {
            &&& wf(s1)
            &&& data_ok(s1, d1)
            &&& abs(s1) == t_remove(abs(s0), n)
            &&& d1 == gone(d0, sub(abs(s0), n))
        } else {
            s1 == s0 && d1 == d0
        }
    }

    /// The data handed out by that removal, in order.
    pub open spec fn told<T>(s0: Raw, d0: Seq<Option<T>>, n: int) -> Seq<T> {
        if live(s0, n) { pick(post(abs(s0), n), d0) } else { Seq::empty() }
    }

    pub proof fn lemma_removed<T>(s0: Raw, d0: Seq<Option<T>>, s1: Raw, s: Raw, d: Seq<Option<T>>, n: int)
        requires
            wf(s0),
            live(s0, n),
            data_ok(s0, d0),
            wf(s1),
            abs(s1) == t_detach(abs(s0), n),
            wf(s),
            abs(s) == t_drop(abs(s1), sub(abs(s1), n)),
            d == gone(d0, sub(abs(s1), n)),
        ensures
            removed(s0, d0, s, d, n),
            pick(post(abs(s1), n), d0) == told(s0, d0, n),
    {
        let t = abs(s0);
        let u = abs(s1);
        lemma_tw(s0);
        lemma_tw(s1);
        lemma_tw(s);
        lemma_detach_sub(t, n);
        lemma_post_detach(t, n);
        assert(abs(s) == t_remove(t, n));
        assert(u.alive == t.alive) by {
            if t.parent[n] is Some {}
        }
        assert forall|i: int| #![trigger d[i]] #![trigger live(s, i)] 0 <= i < s.len() implies (d[i] is Some <==> live(s, i)) by {
            assert(live(s, i) <==> tl(abs(s), i));
            assert(tl(abs(s), i) <==> tl(t, i) && !sub(t, n).contains(i));
            assert(d0[i] is Some <==> live(s0, i));
        }
    }

    /// The data of the nodes that are left.
    pub proof fn lemma_drop_data<T>(s0: Raw, d0: Seq<Option<T>>, n: int, s: Raw, dead: ISet<int>)
        requires
            wf(s0),
            live(s0, n),
            data_ok(s0, d0),
            wf(s),
            abs(s) == t_drop(t_detach(abs(s0), n), dead),
        ensures
            data_ok(s, gone(d0, dead)),
    {
        let t = abs(s0);
        let d = gone(d0, dead);
        lemma_tw(s0);
        lemma_tw(s);
        assert(t_detach(t, n).alive == t.alive) by {
            if t.parent[n] is Some {}
        }
        assert forall|i: int| #![trigger d[i]] #![trigger live(s, i)] 0 <= i < s.len() implies (d[i] is Some <==> live(s, i)) by {
            assert(live(s, i) <==> tl(abs(s), i));
            assert(tl(abs(s), i) <==> tl(t, i) && !dead.contains(i));
            assert(d0[i] is Some <==> live(s0, i));
        }
    }
}
