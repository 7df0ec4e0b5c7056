pub mod bf {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::dynamic::id::private::SealedInternalNodeId;
    use crate::dynamic::hierarchy::traverse::*;

    // ------------------------------------------------------------------
    // Levels.

    /// The children of the nodes `q`, in order.
    pub open spec fn kidsof(t: Tr, q: Seq<int>) -> Seq<int>
        decreases q.len(),
    {
        if q.len() == 0 {
            Seq::empty()
        } else {
            kidsof(t, q.drop_last()) + t.kids[q.last()]
        }
    }

    pub open spec fn all_live(t: Tr, q: Seq<int>) -> bool {
        forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> tl(t, q[i])
    }

    /// No node of `q` is higher than `h`.
    pub open spec fn low(t: Tr, q: Seq<int>, h: nat) -> bool {
        forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> rk(t, q[i]) < h
    }

    pub open spec fn hi(t: Tr, q: Seq<int>) -> nat
        decreases q.len(),
    {
        if q.len() == 0 {
            0
        } else {
            let a = hi(t, q.drop_last());
            if a > rk(t, q.last()) { a } else { rk(t, q.last()) + 1 }
        }
    }

    pub proof fn lemma_hi(t: Tr, q: Seq<int>)
        ensures
            low(t, q, hi(t, q)),
            q.len() == 0 ==> hi(t, q) == 0,
            q.len() > 0 ==> hi(t, q) > 0,
            forall|h: nat| #![trigger low(t, q, h)] low(t, q, h) ==> hi(t, q) <= h,
        decreases q.len(),
    {
        if q.len() > 0 {
            let z = q.drop_last();
            lemma_hi(t, z);
            assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies rk(t, q[i]) < hi(t, q) by {
                if i < q.len() - 1 { assert(z[i] == q[i]); }
            }
            assert forall|h: nat| #![trigger low(t, q, h)] low(t, q, h) implies hi(t, q) <= h by {
                assert(rk(t, q[q.len() - 1]) < h);
                assert(low(t, z, h)) by {
                    assert forall|i: int| #![trigger z[i]] 0 <= i < z.len() implies rk(t, z[i]) < h by {
                        assert(z[i] == q[i]);
                    }
                }
            }
        }
    }

    pub proof fn lemma_kidsof(t: Tr, q: Seq<int>)
        requires
            tw(t),
            all_live(t, q),
        ensures
            all_live(t, kidsof(t, q)),
            q.len() > 0 ==> hi(t, kidsof(t, q)) < hi(t, q),
            q.len() == 0 ==> kidsof(t, q).len() == 0,
    {
        lemma_kidsof_low(t, q);
        lemma_hi(t, q);
        lemma_hi(t, kidsof(t, q));
        if q.len() > 0 {
            assert(low(t, kidsof(t, q), (hi(t, q) - 1) as nat));
        }
    }

    proof fn lemma_kidsof_low(t: Tr, q: Seq<int>)
        requires
            tw(t),
            all_live(t, q),
        ensures
            all_live(t, kidsof(t, q)),
            low(t, kidsof(t, q), (hi(t, q) - 1) as nat),
        decreases q.len(),
    {
        if q.len() > 0 {
            let z = q.drop_last();
            assert forall|i: int| #![trigger z[i]] 0 <= i < z.len() implies tl(t, z[i]) by {
                assert(z[i] == q[i]);
            }
            lemma_kidsof_low(t, z);
            lemma_hi(t, z);
            lemma_hi(t, q);
            assert(tl(t, q[q.len() - 1]));
            let k = kidsof(t, q);
            let a = kidsof(t, z);
            let p = q.last();
            assert forall|i: int| #![trigger k[i]] 0 <= i < k.len() implies tl(t, k[i]) && rk(t, k[i]) < hi(t, q) - 1 by {
                if i < a.len() {
                    assert(k[i] == a[i]);
                } else {
                    assert(isk(t, p, i - a.len()));
                    lemma_rk(t, p, i - a.len());
                    assert(rk(t, q[q.len() - 1]) < hi(t, q));
                }
            }
        }
    }

    pub proof fn lemma_kidsof_cat(t: Tr, a: Seq<int>, b: Seq<int>)
        ensures
            kidsof(t, a + b) == kidsof(t, a) + kidsof(t, b),
        decreases b.len(),
    {
        if b.len() == 0 {
            assert(a + b =~= a);
            assert(kidsof(t, a + b) =~= kidsof(t, a) + kidsof(t, b));
        } else {
            lemma_kidsof_cat(t, a, b.drop_last());
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
            assert(kidsof(t, a + b) =~= kidsof(t, a) + kidsof(t, b));
        }
    }

    pub proof fn lemma_kidsof_one(t: Tr, n: int)
        ensures
            kidsof(t, seq![n]) == t.kids[n],
    {
        let q = seq![n];
        assert(q.drop_last() =~= Seq::empty());
        assert(kidsof(t, q.drop_last()) =~= Seq::empty());
        assert(kidsof(t, q) =~= t.kids[n]);
    }

    pub open spec fn tag(q: Seq<int>, d: int) -> Seq<(int, int)> {
        Seq::new(q.len(), |i: int| (q[i], d))
    }

    /// Breadth-first order, from the nodes `q` at depth `d` on.
    pub open spec fn bfs(t: Tr, q: Seq<int>, d: int) -> Seq<(int, int)>
        decreases hi(t, q),
        when tw(t) && all_live(t, q)
        via bfs_dec
    {
        if q.len() == 0 {
            Seq::empty()
        } else {
            tag(q, d) + bfs(t, kidsof(t, q), d + 1)
        }
    }

    #[via_fn]
    proof fn bfs_dec(t: Tr, q: Seq<int>, d: int) {
        lemma_kidsof(t, q);
    }

    // ------------------------------------------------------------------
    // Levels of one tree.

    /// The nodes `k` below `n`.
    pub open spec fn at(t: Tr, n: int, k: nat) -> Seq<int>
        decreases k,
    {
        if k == 0 { seq![n] } else { kidsof(t, at(t, n, (k - 1) as nat)) }
    }

    pub proof fn lemma_at(t: Tr, n: int, k: nat)
        requires
            tw(t),
            tl(t, n),
        ensures
            all_live(t, at(t, n, k)),
            bfs(t, at(t, n, k), k as int) == tag(at(t, n, k), k as int) + bfs(t, at(t, n, k + 1), k as int + 1),
        decreases k,
    {
        if k > 0 {
            lemma_at(t, n, (k - 1) as nat);
            lemma_kidsof(t, at(t, n, (k - 1) as nat));
        }
        lemma_kidsof(t, at(t, n, k));
        if at(t, n, k).len() == 0 {
            assert(tag(at(t, n, k), k as int) + bfs(t, at(t, n, k + 1), k as int + 1) =~= Seq::empty());
        }
    }

    /// The `k`th level below `q`.
    pub open spec fn ats(t: Tr, q: Seq<int>, k: nat) -> Seq<int>
        decreases k,
    {
        if k == 0 { q } else { kidsof(t, ats(t, q, (k - 1) as nat)) }
    }

    proof fn lemma_ats_at(t: Tr, n: int, k: nat)
        ensures
            ats(t, seq![n], k) == at(t, n, k),
            k > 0 ==> ats(t, t.kids[n], (k - 1) as nat) == at(t, n, k),
        decreases k,
    {
        lemma_kidsof_one(t, n);
        if k > 0 {
            lemma_ats_at(t, n, (k - 1) as nat);
        }
    }

    proof fn lemma_ats_cat(t: Tr, a: Seq<int>, b: Seq<int>, k: nat)
        ensures
            ats(t, a + b, k) == ats(t, a, k) + ats(t, b, k),
        decreases k,
    {
        if k > 0 {
            lemma_ats_cat(t, a, b, (k - 1) as nat);
            lemma_kidsof_cat(t, ats(t, a, (k - 1) as nat), ats(t, b, (k - 1) as nat));
        }
    }

    proof fn lemma_ats_none(t: Tr, k: nat)
        ensures
            ats(t, Seq::empty(), k) == Seq::<int>::empty(),
        decreases k,
    {
        if k > 0 {
            lemma_ats_none(t, (k - 1) as nat);
        }
        assert(ats(t, Seq::empty(), k) =~= Seq::<int>::empty());
    }

    // ------------------------------------------------------------------
    // The nodes at depth `c` in a stretch of a depth-first traversal.
    pub open spec fn opens(r: Seq<(Ev, int)>, c: int) -> Seq<int>
        decreases r.len(),
    {
        if r.len() == 0 {
            Seq::empty()
        } else {
            match r[0].0 {
                Ev::O(n) => (if r[0].1 == c { seq![n] } else { Seq::empty() }) + opens(r.subrange(1, r.len() as int), c),
                Ev::C(n) => opens(r.subrange(1, r.len() as int), c),
            }
        }
    }

    proof fn lemma_opens_cat(a: Seq<(Ev, int)>, b: Seq<(Ev, int)>, c: int)
        ensures
            opens(a + b, c) == opens(a, c) + opens(b, c),
        decreases a.len(),
    {
        let r = a + b;
        if a.len() == 0 {
            assert(r =~= b);
            assert(opens(a + b, c) =~= opens(a, c) + opens(b, c));
        } else {
            let a1 = a.subrange(1, a.len() as int);
            assert(r.subrange(1, r.len() as int) =~= a1 + b);
            lemma_opens_cat(a1, b, c);
            assert(opens(a + b, c) =~= opens(a, c) + opens(b, c));
        }
    }

    proof fn lemma_opens_one(e: (Ev, int), c: int)
        ensures
            opens(seq![e], c) == (if e.0 is O && e.1 == c { seq![evn(e.0)] } else { Seq::empty() }),
    {
        let r = seq![e];
        assert(r.subrange(1, 1) =~= Seq::empty());
        assert(opens(r.subrange(1, 1), c) =~= Seq::empty());
        assert(opens(r, c) =~= (if e.0 is O && e.1 == c { seq![evn(e.0)] } else { Seq::empty() }));
    }

    pub proof fn lemma_tour_opens(t: Tr, n: int, d: int, c: int)
        requires
            tw(t),
            tl(t, n),
            d <= c,
        ensures
            opens(tour(t, n, d, Some(c)), c) == at(t, n, (c - d) as nat),
        decreases rk(t, n), 1int, 0int,
    {
        let len = t.kids[n].len() as int;
        let a = seq![(Ev::O(n), d)];
        let z = seq![(Ev::C(n), d)];
        let b = if d == c { Seq::empty() } else { tours(t, n, len, d + 1, Some(c)) };
        lemma_opens_one((Ev::O(n), d), c);
        lemma_opens_one((Ev::C(n), d), c);
        lemma_opens_cat(a, b, c);
        lemma_opens_cat(a + b, z, c);
        assert(tour(t, n, d, Some(c)) =~= a + b + z);
        if d < c {
            lemma_tours_opens(t, n, len, d + 1, c);
            assert(t.kids[n].subrange(0, len) =~= t.kids[n]);
            lemma_ats_at(t, n, (c - d) as nat);
            assert(opens(tour(t, n, d, Some(c)), c) =~= at(t, n, (c - d) as nat));
        } else {
            assert(opens(b, c) =~= Seq::empty());
            assert(opens(tour(t, n, d, Some(c)), c) =~= seq![n]);
        }
    }

    proof fn lemma_tours_opens(t: Tr, p: int, j: int, d: int, c: int)
        requires
            tw(t),
            tl(t, p),
            0 <= j <= t.kids[p].len(),
            d <= c,
        ensures
            opens(tours(t, p, j, d, Some(c)), c) == ats(t, t.kids[p].subrange(0, j), (c - d) as nat),
        decreases rk(t, p), 0int, j,
    {
        if j <= 0 {
            lemma_ats_none(t, (c - d) as nat);
            assert(t.kids[p].subrange(0, j) =~= Seq::empty());
        } else {
            assert(isk(t, p, j - 1));
            let k = t.kids[p][j - 1];
            lemma_rk(t, p, j - 1);
            lemma_tours_opens(t, p, j - 1, d, c);
            lemma_tour_opens(t, k, d, c);
            lemma_opens_cat(tours(t, p, j - 1, d, Some(c)), tour(t, k, d, Some(c)), c);
            lemma_ats_cat(t, t.kids[p].subrange(0, j - 1), seq![k], (c - d) as nat);
            lemma_ats_at(t, k, (c - d) as nat);
            assert(t.kids[p].subrange(0, j - 1) + seq![k] =~= t.kids[p].subrange(0, j));
        }
    }

    // ------------------------------------------------------------------
    // The breadth-first traversal by repeated depth-first ones.

    /// A stretch of a traversal is determined by its ends.
    pub proof fn lemma_walk_unique(t: Tr, m: Option<int>, a: Seq<(Ev, int)>, b: Seq<(Ev, int)>)
        requires
            walk(t, m, a),
            walk(t, m, b),
            a.len() > 0 && b.len() > 0,
            a[0] == b[0],
            a[a.len() - 1] == b[b.len() - 1],
        ensures
            a == b,
    {
        if a.len() <= b.len() { lemma_walk_prefix(t, m, a, b); } else { lemma_walk_prefix(t, m, b, a); }
    }

    proof fn lemma_walk_prefix(t: Tr, m: Option<int>, a: Seq<(Ev, int)>, b: Seq<(Ev, int)>)
        requires
            walk(t, m, a),
            walk(t, m, b),
            0 < a.len() <= b.len(),
            a[0] == b[0],
            a[a.len() - 1] == b[b.len() - 1],
        ensures
            a == b,
    {
        lemma_walk_same(t, m, a, b, a.len() - 1);
        if a.len() < b.len() {
            assert(b[a.len() - 1].0 != b[b.len() - 1].0);
        }
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            lemma_walk_same(t, m, a, b, i);
        }
        assert(a =~= b);
    }

    proof fn lemma_walk_same(t: Tr, m: Option<int>, a: Seq<(Ev, int)>, b: Seq<(Ev, int)>, i: int)
        requires
            walk(t, m, a),
            walk(t, m, b),
            0 <= i < a.len() <= b.len(),
            a[0] == b[0],
        ensures
            a[i] == b[i],
        decreases i,
    {
        if i > 0 {
            lemma_walk_same(t, m, a, b, i - 1);
            assert(fs(t, m, a[i - 1]) == Some(a[i]));
            assert(fs(t, m, b[i - 1]) == Some(b[i]));
        }
    }

    pub proof fn lemma_sdft_unique<I: SealedInternalNodeId>(t: Tr, m: Option<int>, o: Option<((DftEvent<I>, usize), (DftEvent<I>, usize))>, a: Seq<(Ev, int)>, b: Seq<(Ev, int)>)
        requires
            sdft(t, m, o, a),
            sdft(t, m, o, b),
        ensures
            a == b,
    {
        if o is Some {
            lemma_walk_unique(t, m, a, b);
        } else {
            assert(a =~= b);
        }
    }

    /// `w` are the nodes at depth `c` that the inner traverser is still to open.
    pub open spec fn lvl<I: SealedInternalNodeId>(t: Tr, i: ShallowDepthFirstTraverser<I>, c: int, w: Seq<int>) -> bool {
        exists|q: Seq<(Ev, int)>| #[trigger] sdft(t, mx(i.max_depth), i.next, q) && opens(q, c) == w
    }

    pub proof fn lemma_lvl_some<I: SealedInternalNodeId>(t: Tr, i: ShallowDepthFirstTraverser<I>, c: int, w: Seq<int>, q: Seq<(Ev, int)>)
        requires
            lvl(t, i, c, w),
            sdft(t, mx(i.max_depth), i.next, q),
        ensures
            opens(q, c) == w,
    {
        let r = choose|r: Seq<(Ev, int)>| #[trigger] sdft(t, mx(i.max_depth), i.next, r) && opens(r, c) == w;
        lemma_sdft_unique(t, mx(i.max_depth), i.next, q, r);
    }

    /// `q` is what is still to come of the breadth-first traversal.
    pub open spec fn bft<I: SealedInternalNodeId>(t: Tr, b: BreadthFirstTraverser<I>, q: Seq<(int, int)>) -> bool {
        match b.root {
            None => q.len() == 0,
            Some(n) => {
                let c = b.current_depth as int;
                &&& tl(t, ix(n))
                &&& at(t, ix(n), c as nat).len() > 0
                &&& exists|w: Seq<int>| #[trigger] lvl(t, b.inner, c, w) && q == tag(w, c) + bfs(t, at(t, ix(n), (c + 1) as nat), c + 1)
            },
        }
    }

    proof fn lemma_kidsof_parent(t: Tr, q: Seq<int>, i: int)
        requires
            tw(t),
            all_live(t, q),
            0 <= i < kidsof(t, q).len(),
        ensures
            exists|j: int| #![trigger q[j]] 0 <= j < q.len() && t.parent[kidsof(t, q)[i]] == Some(q[j]),
            tl(t, kidsof(t, q)[i]),
        decreases q.len(),
    {
        let z = q.drop_last();
        let a = kidsof(t, z);
        assert forall|i: int| #![trigger z[i]] 0 <= i < z.len() implies tl(t, z[i]) by {
            assert(z[i] == q[i]);
        }
        if i < a.len() {
            lemma_kidsof_parent(t, z, i);
            let j = choose|j: int| #![trigger z[j]] 0 <= j < z.len() && t.parent[kidsof(t, z)[i]] == Some(z[j]);
            assert(q[j] == z[j]);
            assert(kidsof(t, q)[i] == kidsof(t, z)[i]);
        } else {
            assert(tl(t, q[q.len() - 1]));
            assert(isk(t, q.last(), i - a.len()));
            assert(kidsof(t, q)[i] == t.kids[q.last()][i - a.len()]);
            assert(q[q.len() - 1] == q.last());
        }
    }

    /// The nodes of a level are that far below.
    pub open spec fn far(t: Tr, n: int, q: Seq<int>, k: int) -> bool {
        forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> k >= 0 && tl(t, q[i]) && up(t, q[i], k as nat) == Some(n)
    }

    pub proof fn lemma_far_kids(t: Tr, n: int, q: Seq<int>, k: int)
        requires
            tw(t),
            far(t, n, q, k),
        ensures
            far(t, n, kidsof(t, q), k + 1),
    {
        let z = kidsof(t, q);
        assert(all_live(t, q));
        assert forall|i: int| #![trigger z[i]] 0 <= i < z.len() implies k + 1 >= 0 && tl(t, z[i]) && up(t, z[i], (k + 1) as nat) == Some(n) by {
            lemma_kidsof_parent(t, q, i);
            let j = choose|j: int| #![trigger q[j]] 0 <= j < q.len() && t.parent[z[i]] == Some(q[j]);
            assert(up(t, q[j], k as nat) == Some(n));
            assert(up(t, z[i], (k + 1) as nat) == up(t, q[j], k as nat));
        }
    }

    pub proof fn lemma_at_far(t: Tr, n: int, k: nat)
        requires
            tw(t),
            tl(t, n),
        ensures
            far(t, n, at(t, n, k), k as int),
            at(t, n, k).len() > 0 ==> k < t.alive.len(),
        decreases k,
    {
        if k == 0 {
            assert(up(t, n, 0) == Some(n));
        } else {
            lemma_at_far(t, n, (k - 1) as nat);
            lemma_far_kids(t, n, at(t, n, (k - 1) as nat), k - 1);
        }
        if at(t, n, k).len() > 0 {
            let x = at(t, n, k)[0];
            lemma_up_len(t, x, n, k);
        }
    }

    // ------------------------------------------------------------------
    // The breadth-first traversal with a queue.
    pub open spec fn qn<I: SealedInternalNodeId>(e: BftQueuedEvent<I>) -> Option<int> {
        match e {
            BftQueuedEvent::Node(i) => Some(ix(i)),
            BftQueuedEvent::IncrementDepth => None,
        }
    }

    /// The queue: nodes of one level, the mark, nodes of the next level.
    pub open spec fn queue<I: SealedInternalNodeId>(e: Seq<BftQueuedEvent<I>>, a: Seq<int>, b: Seq<int>) -> bool {
        &&& e.len() == a.len() + 1 + b.len()
        &&& forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> qn(e[i]) == (if i < a.len() { Some(a[i]) } else if i == a.len() { None } else { Some(b[i - a.len() - 1]) })
    }

    pub open spec fn qfar(t: Tr, a: Seq<int>, b: Seq<int>, c: int) -> bool {
        exists|n: int| #[trigger] far(t, n, a, c) && far(t, n, b, c + 1)
    }

    pub open spec fn qrest(t: Tr, a: Seq<int>, b: Seq<int>, c: int) -> Seq<(int, int)> {
        tag(a, c) + bfs(t, b + kidsof(t, a), c + 1)
    }

    /// `q` is what is still to come of the breadth-first traversal.
    pub open spec fn abft<I: SealedInternalNodeId>(t: Tr, e: Seq<BftQueuedEvent<I>>, c: int, q: Seq<(int, int)>) -> bool {
        ||| e.len() == 0 && q.len() == 0
        ||| exists|a: Seq<int>, b: Seq<int>| #[trigger] queue(e, a, b) && qfar(t, a, b, c) && q == qrest(t, a, b, c)
    }

    pub proof fn lemma_q_live(t: Tr, a: Seq<int>, b: Seq<int>, c: int)
        requires
            tw(t),
            qfar(t, a, b, c),
        ensures
            all_live(t, a),
            all_live(t, b),
            all_live(t, b + kidsof(t, a)),
            a.len() > 0 ==> 0 <= c < t.alive.len(),
            b.len() > 0 ==> 0 <= c + 1 < t.alive.len(),
    {
        let n = choose|n: int| #[trigger] far(t, n, a, c) && far(t, n, b, c + 1);
        lemma_far_kids(t, n, a, c);
        if a.len() > 0 { assert(tl(t, a[0])); lemma_up_len(t, a[0], n, c as nat); }
        if b.len() > 0 { assert(tl(t, b[0])); lemma_up_len(t, b[0], n, (c + 1) as nat); }
        let z = b + kidsof(t, a);
        assert forall|i: int| #![trigger z[i]] 0 <= i < z.len() implies tl(t, z[i]) by {
            if i < b.len() { assert(z[i] == b[i]); } else { assert(z[i] == kidsof(t, a)[i - b.len()]); }
        }
    }

    /// The first node leaves the queue, its children enter it.
    pub proof fn lemma_q_node(t: Tr, a: Seq<int>, b: Seq<int>, c: int)
        requires
            tw(t),
            qfar(t, a, b, c),
            a.len() > 0,
        ensures
            tl(t, a[0]),
            qfar(t, tail(a), b + t.kids[a[0]], c),
            head(qrest(t, a, b, c)) == Some((a[0], c)),
            tail(qrest(t, a, b, c)) == qrest(t, tail(a), b + t.kids[a[0]], c),
    {
        let n = choose|n: int| #[trigger] far(t, n, a, c) && far(t, n, b, c + 1);
        let x = a[0];
        let a1 = tail(a);
        let b1 = b + t.kids[x];
        assert(far(t, n, seq![x], c)) by { assert(tl(t, a[0])); }
        lemma_far_kids(t, n, seq![x], c);
        lemma_kidsof_one(t, x);
        assert(far(t, n, a1, c)) by {
            assert forall|i: int| #![trigger a1[i]] 0 <= i < a1.len() implies c >= 0 && tl(t, a1[i]) && up(t, a1[i], c as nat) == Some(n) by {
                assert(a1[i] == a[i + 1]);
            }
        }
        assert(far(t, n, b1, c + 1)) by {
            assert forall|i: int| #![trigger b1[i]] 0 <= i < b1.len() implies c + 1 >= 0 && tl(t, b1[i]) && up(t, b1[i], (c + 1) as nat) == Some(n) by {
                if i < b.len() { assert(b1[i] == b[i]); } else { assert(b1[i] == t.kids[x][i - b.len()]); }
            }
        }
        assert(a =~= seq![x] + a1);
        lemma_kidsof_cat(t, seq![x], a1);
        assert(b + kidsof(t, a) =~= b1 + kidsof(t, a1));
        assert(tag(a, c) =~= seq![(x, c)] + tag(a1, c));
        assert(tail(qrest(t, a, b, c)) =~= qrest(t, a1, b1, c));
    }

    /// The mark leaves the queue.
    pub proof fn lemma_q_mark(t: Tr, b: Seq<int>, c: int)
        requires
            tw(t),
            qfar(t, Seq::empty(), b, c),
        ensures
            b.len() == 0 ==> qrest(t, Seq::empty(), b, c).len() == 0,
            qfar(t, b, Seq::empty(), c + 1),
            qrest(t, Seq::empty(), b, c) == qrest(t, b, Seq::empty(), c + 1),
    {
        let e = Seq::<int>::empty();
        let n = choose|n: int| #[trigger] far(t, n, e, c) && far(t, n, b, c + 1);
        assert(far(t, n, b, c + 1) && far(t, n, e, c + 1 + 1));
        lemma_q_live(t, e, b, c);
        assert(b + kidsof(t, e) =~= b);
        assert(e + kidsof(t, b) =~= kidsof(t, b));
        lemma_kidsof(t, b);
        assert(qrest(t, e, b, c) =~= bfs(t, b, c + 1));
        if b.len() == 0 {
            lemma_kidsof(t, e);
            assert(qrest(t, b, e, c + 1) =~= Seq::empty());
        }
    }

    pub proof fn lemma_q_len(t: Tr, a: Seq<int>, b: Seq<int>, c: int)
        requires
            tw(t),
            qfar(t, a, b, c),
        ensures
            qrest(t, a, b, c).len() >= a.len() + b.len(),
            a.len() == 0 && b.len() > 0 ==> head(qrest(t, a, b, c)) == Some((b[0], c + 1)),
            a.len() == 0 && b.len() == 0 ==> qrest(t, a, b, c).len() == 0,
    {
        lemma_q_live(t, a, b, c);
        let z = b + kidsof(t, a);
        lemma_kidsof(t, z);
        if z.len() > 0 {
            assert(bfs(t, z, c + 1) == tag(z, c + 1) + bfs(t, kidsof(t, z), c + 1 + 1));
        }
        if a.len() == 0 && b.len() > 0 {
            assert(z[0] == b[0]);
            assert(qrest(t, a, b, c)[0] == bfs(t, z, c + 1)[0]);
        }
        if a.len() == 0 && b.len() == 0 { assert(z.len() == 0); }
    }

    pub open spec fn onode<I: SealedInternalNodeId>(o: Option<(I, usize)>) -> Option<(int, int)> {
        match o {
            Some(o) => Some((ix(o.0), o.1 as int)),
            None => None,
        }
    }

    pub proof fn lemma_lvl_unique<I: SealedInternalNodeId>(t: Tr, i: ShallowDepthFirstTraverser<I>, c: int, v: Seq<int>, w: Seq<int>)
        requires
            lvl(t, i, c, v),
            lvl(t, i, c, w),
        ensures
            v == w,
    {
        let q = choose|q: Seq<(Ev, int)>| #[trigger] sdft(t, mx(i.max_depth), i.next, q) && opens(q, c) == v;
        lemma_lvl_some(t, i, c, w, q);
    }

    pub proof fn lemma_bft_unique<I: SealedInternalNodeId>(t: Tr, b: BreadthFirstTraverser<I>)
        ensures
            forall|p: Seq<(int, int)>, q: Seq<(int, int)>| #![trigger bft(t, b, p), bft(t, b, q)] bft(t, b, p) && bft(t, b, q) ==> p == q,
    {
        assert forall|p: Seq<(int, int)>, q: Seq<(int, int)>| #![trigger bft(t, b, p), bft(t, b, q)] bft(t, b, p) && bft(t, b, q) implies p == q by {
            let c = b.current_depth as int;
            if b.root is Some {
                let n = b.root->0;
                let v = choose|w: Seq<int>| #[trigger] lvl(t, b.inner, c, w) && p == tag(w, c) + bfs(t, at(t, ix(n), (c + 1) as nat), c + 1);
                let w = choose|w: Seq<int>| #[trigger] lvl(t, b.inner, c, w) && q == tag(w, c) + bfs(t, at(t, ix(n), (c + 1) as nat), c + 1);
                lemma_lvl_unique(t, b.inner, c, v, w);
            } else {
                assert(p =~= q);
            }
        }
    }

    pub proof fn lemma_bft_step<I: SealedInternalNodeId>(t: Tr, b: BreadthFirstTraverser<I>, q: Seq<(int, int)>)
        requires
            tw(t),
            bft(t, b, q),
            b.root is Some,
        ensures
            ({
                let n = ix(b.root->0);
                let c = b.current_depth as int;
                let a = at(t, n, (c + 1) as nat);
                &&& c < t.alive.len()
                &&& exists|w: Seq<int>| #![trigger lvl(t, b.inner, c, w)] lvl(t, b.inner, c, w)
                &&& forall|w: Seq<int>| #![trigger lvl(t, b.inner, c, w)] lvl(t, b.inner, c, w) ==> {
                    &&& q == tag(w, c) + bfs(t, a, c + 1)
                    &&& w.len() > 0 ==> head(q) == Some((w[0], c)) && tail(q) == tag(tail(w), c) + bfs(t, a, c + 1)
                    &&& w.len() == 0 ==> q == bfs(t, a, c + 1)
                }
                &&& opens(tour(t, n, 0, Some(c + 1)), c + 1) == a
                &&& bfs(t, a, c + 1) == tag(a, c + 1) + bfs(t, at(t, n, (c + 2) as nat), c + 2)
                &&& a.len() > 0 ==> head(bfs(t, a, c + 1)) == Some((a[0], c + 1)) && tail(bfs(t, a, c + 1)) == tag(tail(a), c + 1) + bfs(t, at(t, n, (c + 2) as nat), c + 2)
                &&& a.len() == 0 ==> bfs(t, a, c + 1).len() == 0
            }),
    {
        let n = ix(b.root->0);
        let c = b.current_depth as int;
        let a = at(t, n, (c + 1) as nat);
        lemma_at_far(t, n, c as nat);
        lemma_at(t, n, c as nat);
        lemma_at(t, n, (c + 1) as nat);
        lemma_tour_opens(t, n, 0, c + 1);
        let v = choose|w: Seq<int>| #[trigger] lvl(t, b.inner, c, w) && q == tag(w, c) + bfs(t, a, c + 1);
        assert(lvl(t, b.inner, c, v));
        assert forall|w: Seq<int>| #![trigger lvl(t, b.inner, c, w)] lvl(t, b.inner, c, w) implies {
                    &&& q == tag(w, c) + bfs(t, a, c + 1)
                    &&& w.len() > 0 ==> head(q) == Some((w[0], c)) && tail(q) == tag(tail(w), c) + bfs(t, a, c + 1)
                    &&& w.len() == 0 ==> q == bfs(t, a, c + 1)
                } by {
            lemma_lvl_unique(t, b.inner, c, v, w);
            if w.len() > 0 {
                assert(tail(q) =~= tag(tail(w), c) + bfs(t, a, c + 1));
            } else {
                assert(q =~= bfs(t, a, c + 1));
            }
        }
        assert((c + 1) as nat + 1 == (c + 2) as nat);
        assert(bfs(t, a, c + 1) == tag(a, c + 1) + bfs(t, at(t, n, (c + 2) as nat), c + 2));
        if a.len() > 0 {
            assert(tail(bfs(t, a, c + 1)) =~= tag(tail(a), c + 1) + bfs(t, at(t, n, (c + 2) as nat), c + 2));
        }
    }

    pub proof fn lemma_lvl_in<I: SealedInternalNodeId>(t: Tr, n: int, c: int)
        requires
            tw(t),
            tl(t, n),
            c >= 0,
        ensures
            forall|i: ShallowDepthFirstTraverser<I>| #![trigger sdft(t, mx(i.max_depth), i.next, tour(t, n, 0, Some(c)))] sdft(t, mx(i.max_depth), i.next, tour(t, n, 0, Some(c))) ==> lvl(t, i, c, at(t, n, c as nat)),
    {
        lemma_tour_opens(t, n, 0, c);
    }

    pub proof fn lemma_q_start(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
        ensures
            qfar(t, seq![n], Seq::empty(), 0),
            qrest(t, seq![n], Seq::empty(), 0) == bfs(t, seq![n], 0),
    {
        let e = Seq::<int>::empty();
        assert(up(t, n, 0) == Some(n));
        assert(far(t, n, seq![n], 0) && far(t, n, e, 1));
        lemma_at(t, n, 0);
        assert(e + kidsof(t, seq![n]) =~= kidsof(t, seq![n]));
        assert(at(t, n, 1) == kidsof(t, at(t, n, 0)));
        assert(qfar(t, seq![n], e, 0));
    }

    pub proof fn lemma_abft_unique<I: SealedInternalNodeId>(t: Tr, e: Seq<BftQueuedEvent<I>>, c: int)
        ensures
            forall|p: Seq<(int, int)>, q: Seq<(int, int)>| #![trigger abft(t, e, c, p), abft(t, e, c, q)] abft(t, e, c, p) && abft(t, e, c, q) ==> p == q,
    {
        assert forall|p: Seq<(int, int)>, q: Seq<(int, int)>| #![trigger abft(t, e, c, p), abft(t, e, c, q)] abft(t, e, c, p) && abft(t, e, c, q) implies p == q by {
            if e.len() == 0 {
                assert(p =~= q);
            } else {
                let (a, b) = choose|a: Seq<int>, b: Seq<int>| #[trigger] queue(e, a, b) && qfar(t, a, b, c) && p == qrest(t, a, b, c);
                let (a2, b2) = choose|a: Seq<int>, b: Seq<int>| #[trigger] queue(e, a, b) && qfar(t, a, b, c) && q == qrest(t, a, b, c);
                assert(qn(e[a.len() as int]) is None);
                assert(qn(e[a2.len() as int]) is None);
                assert(a.len() == a2.len());
                assert forall|i: int| 0 <= i < a.len() implies a[i] == a2[i] by { assert(qn(e[i]) == Some(a[i])); }
                assert forall|i: int| 0 <= i < b.len() implies b[i] == b2[i] by { assert(qn(e[i + a.len() + 1]) == Some(b[i])); }
                assert(a =~= a2 && b =~= b2);
            }
        }
    }

    /// What the queue tells about what is still to come.
    pub proof fn lemma_abft_len<I: SealedInternalNodeId>(e: Seq<BftQueuedEvent<I>>, c: int)
        ensures
            forall|t: Tr, q: Seq<(int, int)>| #![trigger abft(t, e, c, q)] tw(t) && abft(t, e, c, q) ==> {
                &&& q.len() + 1 >= e.len()
                &&& e.len() <= 1 ==> q.len() == 0
                &&& e.len() > 0 && qn(e[0]) is Some ==> head(q) == Some((qn(e[0])->0, c))
                &&& e.len() > 1 && qn(e[0]) is None ==> qn(e[1]) is Some && head(q) == Some((qn(e[1])->0, c + 1)) && c + 1 < t.alive.len()
                &&& e.len() == 1 ==> qn(e[0]) is None
            },
    {
        assert forall|t: Tr, q: Seq<(int, int)>| #![trigger abft(t, e, c, q)] tw(t) && abft(t, e, c, q) implies {
                &&& q.len() + 1 >= e.len()
                &&& e.len() <= 1 ==> q.len() == 0
                &&& e.len() > 0 && qn(e[0]) is Some ==> head(q) == Some((qn(e[0])->0, c))
                &&& e.len() > 1 && qn(e[0]) is None ==> qn(e[1]) is Some && head(q) == Some((qn(e[1])->0, c + 1)) && c + 1 < t.alive.len()
                &&& e.len() == 1 ==> qn(e[0]) is None
            } by {
            if e.len() > 0 {
                let (a, b) = choose|a: Seq<int>, b: Seq<int>| #[trigger] queue(e, a, b) && qfar(t, a, b, c) && q == qrest(t, a, b, c);
                lemma_q_len(t, a, b, c);
                lemma_q_live(t, a, b, c);
                if a.len() > 0 {
                    lemma_q_node(t, a, b, c);
                }
                assert(qn(e[0]) is None <==> a.len() == 0);
            }
        }
    }

    /// Every node that is still to come is live.
    pub proof fn lemma_bfs_live(t: Tr, q: Seq<int>, d: int)
        requires
            tw(t),
            all_live(t, q),
        ensures
            forall|i: int| #![trigger bfs(t, q, d)[i]] 0 <= i < bfs(t, q, d).len() ==> tl(t, bfs(t, q, d)[i].0),
        decreases hi(t, q),
    {
        lemma_kidsof(t, q);
        if q.len() > 0 {
            let r = bfs(t, q, d);
            let a = tag(q, d);
            let b = bfs(t, kidsof(t, q), d + 1);
            lemma_bfs_live(t, kidsof(t, q), d + 1);
            assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies tl(t, r[i].0) by {
                if i < a.len() { assert(r[i] == (q[i], d)); } else { assert(r[i] == b[i - a.len()]); }
            }
        }
    }

    pub proof fn lemma_bft_live<I: SealedInternalNodeId>(t: Tr, b: BreadthFirstTraverser<I>)
        requires
            tw(t),
        ensures
            forall|q: Seq<(int, int)>| #![trigger bft(t, b, q)] bft(t, b, q) && q.len() > 0 ==> tl(t, q[0].0),
    {
        assert forall|q: Seq<(int, int)>| #![trigger bft(t, b, q)] bft(t, b, q) && q.len() > 0 implies tl(t, q[0].0) by {
            let n = ix(b.root->0);
            let c = b.current_depth as int;
            let w = choose|w: Seq<int>| #[trigger] lvl(t, b.inner, c, w) && q == tag(w, c) + bfs(t, at(t, n, (c + 1) as nat), c + 1);
            let r = choose|r: Seq<(Ev, int)>| #[trigger] sdft(t, mx(b.inner.max_depth), b.inner.next, r) && opens(r, c) == w;
            lemma_opens_live(t, r, c);
            lemma_at(t, n, (c + 1) as nat);
            lemma_bfs_live(t, at(t, n, (c + 1) as nat), c + 1);
            if w.len() > 0 { assert(q[0] == (w[0], c)); } else { assert(q[0] == bfs(t, at(t, n, (c + 1) as nat), c + 1)[0]); }
        }
    }

    proof fn lemma_opens_live(t: Tr, r: Seq<(Ev, int)>, c: int)
        requires
            forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> tl(t, evn(r[i].0)),
        ensures
            all_live(t, opens(r, c)),
        decreases r.len(),
    {
        if r.len() > 0 {
            let z = r.subrange(1, r.len() as int);
            assert forall|i: int| #![trigger z[i]] 0 <= i < z.len() implies tl(t, evn(z[i].0)) by {
                assert(z[i] == r[i + 1]);
            }
            lemma_opens_live(t, z, c);
            assert(tl(t, evn(r[0].0)));
        }
    }

    pub proof fn lemma_abft_live<I: SealedInternalNodeId>(t: Tr, e: Seq<BftQueuedEvent<I>>, c: int)
        requires
            tw(t),
        ensures
            forall|q: Seq<(int, int)>| #![trigger abft(t, e, c, q)] abft(t, e, c, q) && q.len() > 0 ==> tl(t, q[0].0),
    {
        assert forall|q: Seq<(int, int)>| #![trigger abft(t, e, c, q)] abft(t, e, c, q) && q.len() > 0 implies tl(t, q[0].0) by {
            let (a, b) = choose|a: Seq<int>, b: Seq<int>| #[trigger] queue(e, a, b) && qfar(t, a, b, c) && q == qrest(t, a, b, c);
            lemma_q_live(t, a, b, c);
            lemma_bfs_live(t, b + kidsof(t, a), c + 1);
            if a.len() > 0 { assert(q[0] == (a[0], c)); assert(tl(t, a[0])); } else { assert(q[0] == bfs(t, b + kidsof(t, a), c + 1)[0]); }
        }
    }
}
