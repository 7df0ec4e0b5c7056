pub mod wk {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::mv::*;
    use crate::fo::*;
    use crate::dynamic::id::private::SealedInternalNodeId;
    use crate::dynamic::hierarchy::traverse::DftEvent;

    // ------------------------------------------------------------------
    // Depth-first order.
    pub enum Ev {
        O(int),
        C(int),
    }

    pub open spec fn evn(e: Ev) -> int {
        match e {
            Ev::O(i) => i,
            Ev::C(i) => i,
        }
    }

    /// Decreases from parents to children.
    pub open spec fn rk(t: Tr, n: int) -> nat {
        (rank_of(t).0)(n)
    }

    pub proof fn lemma_rk(t: Tr, p: int, j: int)
        requires
            tw(t),
            isk(t, p, j),
        ensures
            rk(t, t.kids[p][j]) < rk(t, p),
            tl(t, t.kids[p][j]),
            t.parent[t.kids[p][j]] == Some(p),
    {
        let (r0, m0) = choose|r: spec_fn(int) -> nat, m: nat| ranked(t, r, m);
        let w = (r0, m0);
        assert(ranked(t, w.0, w.1));
        let (r, m) = rank_of(t);
        assert(ranked(t, r, m));
        let k = t.kids[p][j];
        assert(t.parent[k] == Some(p));
        assert(r(k) < r(t.parent[k]->0));
    }

    /// The events of the subtree of `n` in document order, with depths counted from `d`,
    /// without what is below depth `m`.
    pub open spec fn tour(t: Tr, n: int, d: int, m: Option<int>) -> Seq<(Ev, int)>
        decreases rk(t, n), 1int, 0int,
        when tw(t) && tl(t, n)
        via tour_dec
    {
        seq![(Ev::O(n), d)] + (if m == Some(d) { Seq::empty() } else { tours(t, n, t.kids[n].len() as int, d + 1, m) }) + seq![(Ev::C(n), d)]
    }

    #[via_fn]
    proof fn tour_dec(t: Tr, n: int, d: int, m: Option<int>) {
    }

    /// The events below the first `j` children of `p`.
    pub open spec fn tours(t: Tr, p: int, j: int, d: int, m: Option<int>) -> Seq<(Ev, int)>
        decreases rk(t, p), 0int, j,
        when tw(t) && tl(t, p) && 0 <= j <= t.kids[p].len()
        via tours_dec
    {
        if j <= 0 {
            Seq::empty()
        } else {
            tours(t, p, j - 1, d, m) + tour(t, t.kids[p][j - 1], d, m)
        }
    }

    #[via_fn]
    proof fn tours_dec(t: Tr, p: int, j: int, d: int, m: Option<int>) {
        if j > 0 {
            assert(isk(t, p, j - 1));
            lemma_rk(t, p, j - 1);
        }
    }

    /// The step forward of an event, by its node's relatives.
    pub open spec fn fs(t: Tr, m: Option<int>, e: (Ev, int)) -> Option<(Ev, int)> {
        match e.0 {
            Ev::O(i) => if m == Some(e.1) || t.kids[i].len() == 0 {
                Some((Ev::C(i), e.1))
            } else {
                Some((Ev::O(t.kids[i][0]), e.1 + 1))
            },
            Ev::C(i) => match next_of(t, i) {
                Some(x) => Some((Ev::O(x), e.1)),
                None => match t.parent[i] {
                    Some(p) => Some((Ev::C(p), e.1 - 1)),
                    None => None,
                },
            },
        }
    }

    /// The step backward of an event.
    pub open spec fn bs(t: Tr, m: Option<int>, e: (Ev, int)) -> Option<(Ev, int)> {
        match e.0 {
            Ev::C(i) => if m == Some(e.1) || t.kids[i].len() == 0 {
                Some((Ev::O(i), e.1))
            } else {
                Some((Ev::C(t.kids[i][t.kids[i].len() - 1]), e.1 + 1))
            },
            Ev::O(i) => match prev_of(t, i) {
                Some(x) => Some((Ev::C(x), e.1)),
                None => match t.parent[i] {
                    Some(p) => Some((Ev::O(p), e.1 - 1)),
                    None => None,
                },
            },
        }
    }

    /// Consecutive events follow each other in both directions.
    pub open spec fn chain(t: Tr, m: Option<int>, r: Seq<(Ev, int)>) -> bool {
        &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> tl(t, evn(r[i].0))
        &&& forall|i: int| #![trigger fs(t, m, r[i])] 0 <= i && i + 1 < r.len() ==> fs(t, m, r[i]) == Some(r[i + 1])
        &&& forall|i: int| #![trigger bs(t, m, r[i])] 0 < i < r.len() ==> bs(t, m, r[i]) == Some(r[i - 1])
    }

    pub proof fn lemma_chain_cat(t: Tr, m: Option<int>, a: Seq<(Ev, int)>, b: Seq<(Ev, int)>)
        requires
            chain(t, m, a),
            chain(t, m, b),
            a.len() > 0 && b.len() > 0 ==> fs(t, m, a[a.len() - 1]) == Some(b[0]) && bs(t, m, b[0]) == Some(a[a.len() - 1]),
        ensures
            chain(t, m, a + b),
    {
        let r = a + b;
        assert forall|i: int| #![trigger fs(t, m, r[i])] 0 <= i && i + 1 < r.len() implies fs(t, m, r[i]) == Some(r[i + 1]) by {
            if i < a.len() {
                assert(r[i] == a[i]);
            } else {
                assert(r[i] == b[i - a.len()]);
            }
        }
        assert forall|i: int| #![trigger bs(t, m, r[i])] 0 < i < r.len() implies bs(t, m, r[i]) == Some(r[i - 1]) by {
            if i < a.len() {
                assert(r[i] == a[i]);
            } else {
                assert(r[i] == b[i - a.len()]);
            }
        }
    }

    pub open spec fn m_ok(d: int, m: Option<int>) -> bool {
        m is Some ==> d <= m->0
    }

    pub proof fn lemma_tour(t: Tr, n: int, d: int, m: Option<int>)
        requires
            tw(t),
            tl(t, n),
            m_ok(d, m),
        ensures
            ({
                let r = tour(t, n, d, m);
                &&& r.len() >= 2
                &&& r[0] == (Ev::O(n), d)
                &&& r[r.len() - 1] == (Ev::C(n), d)
                &&& chain(t, m, r)
                &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> rk(t, evn(r[i].0)) <= rk(t, n)
                &&& forall|i: int| #![trigger r[i]] 0 < i && i + 1 < r.len() ==> rk(t, evn(r[i].0)) < rk(t, n) && d < r[i].1
                &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> m_ok(r[i].1, m) && d <= r[i].1
            }),
        decreases rk(t, n), 1int, 0int,
    {
        let r = tour(t, n, d, m);
        let a = seq![(Ev::O(n), d)];
        let z = seq![(Ev::C(n), d)];
        let len = t.kids[n].len() as int;
        if m == Some(d) || len == 0 {
            if m != Some(d) {
                assert(tours(t, n, len, d + 1, m) =~= Seq::empty());
            }
            assert(r =~= a + z);
            lemma_chain_cat(t, m, a, z);
        } else {
            let b = tours(t, n, len, d + 1, m);
            lemma_tours(t, n, len, d + 1, m);
            lemma_pos_of(t, n, 0);
            lemma_pos_of(t, n, len - 1);
            assert(isk(t, n, 0) && isk(t, n, len - 1));
            lemma_chain_cat(t, m, a, b);
            lemma_chain_cat(t, m, a + b, z);
            assert(r == a + b + z);
            assert forall|i: int| #![trigger r[i]] 0 < i && i + 1 < r.len() implies rk(t, evn(r[i].0)) < rk(t, n) && d < r[i].1 by {
                assert(r[i] == b[i - 1]);
            }
            assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies m_ok(r[i].1, m) by {
                if 0 < i && i + 1 < r.len() { assert(r[i] == b[i - 1]); }
            }
        }
    }

    pub proof fn lemma_tours(t: Tr, p: int, j: int, d: int, m: Option<int>)
        requires
            tw(t),
            tl(t, p),
            0 <= j <= t.kids[p].len(),
            m_ok(d, m),
        ensures
            ({
                let r = tours(t, p, j, d, m);
                &&& j == 0 ==> r.len() == 0
                &&& j > 0 ==> r.len() >= 2 && r[0] == (Ev::O(t.kids[p][0]), d) && r[r.len() - 1] == (Ev::C(t.kids[p][j - 1]), d)
                &&& chain(t, m, r)
                &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> rk(t, evn(r[i].0)) < rk(t, p) && m_ok(r[i].1, m) && d <= r[i].1
            }),
        decreases rk(t, p), 0int, j,
    {
        if j > 0 {
            assert(isk(t, p, j - 1));
            let k = t.kids[p][j - 1];
            lemma_rk(t, p, j - 1);
            lemma_tours(t, p, j - 1, d, m);
            lemma_tour(t, k, d, m);
            let a = tours(t, p, j - 1, d, m);
            let b = tour(t, k, d, m);
            let r = tours(t, p, j, d, m);
            assert(r == a + b);
            lemma_pos_of(t, p, j - 1);
            if j > 1 {
                assert(isk(t, p, j - 2));
                lemma_pos_of(t, p, j - 2);
            }
            lemma_chain_cat(t, m, a, b);
            assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies rk(t, evn(r[i].0)) < rk(t, p) && m_ok(r[i].1, m) && d <= r[i].1 by {
                if i < a.len() { assert(r[i] == a[i]); } else { assert(r[i] == b[i - a.len()]); }
            }
        }
    }

    /// No event occurs twice.
    pub proof fn lemma_tour_distinct(t: Tr, n: int, d: int, m: Option<int>)
        requires
            tw(t),
            tl(t, n),
            m_ok(d, m),
        ensures
            tour(t, n, d, m).no_duplicates(),
    {
        let r = tour(t, n, d, m);
        lemma_tour(t, n, d, m);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by {
            if r[i] == r[j] {
                lemma_back(t, m, r, i, j);
                assert(r[0] == r[j - i]);
                if j - i + 1 == r.len() {} else { assert(rk(t, evn(r[j - i].0)) < rk(t, n)); }
            }
        }
    }

    proof fn lemma_back(t: Tr, m: Option<int>, r: Seq<(Ev, int)>, i: int, j: int)
        requires
            chain(t, m, r),
            0 <= i < j < r.len(),
            r[i] == r[j],
        ensures
            r[0] == r[j - i],
        decreases i,
    {
        if i > 0 {
            assert(bs(t, m, r[i]) == Some(r[i - 1]));
            assert(bs(t, m, r[j]) == Some(r[j - 1]));
            lemma_back(t, m, r, i - 1, j - 1);
        }
    }

    // ------------------------------------------------------------------
    // What remains of a double-ended traversal.

    /// `r` is what lies between the two ends, inclusive.
    pub open spec fn rest<A>(ends: Option<(A, A)>, r: Seq<A>) -> bool {
        match ends {
            None => r.len() == 0,
            Some((a, b)) => r.len() > 0 && r[0] == a && r[r.len() - 1] == b,
        }
    }

    /// A stretch of a traversal: every event once, each followed by the next one.
    pub open spec fn walk(t: Tr, m: Option<int>, r: Seq<(Ev, int)>) -> bool {
        &&& chain(t, m, r)
        &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && i != j ==> r[i].0 != r[j].0
        &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> 0 <= r[i].1 < t.alive.len()
    }

    pub proof fn lemma_walk_sub(t: Tr, m: Option<int>, r: Seq<(Ev, int)>, a: int, b: int)
        requires
            walk(t, m, r),
            0 <= a <= b <= r.len(),
        ensures
            walk(t, m, r.subrange(a, b)),
    {
        let q = r.subrange(a, b);
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies q[i] == r[i + a] && tl(t, evn(q[i].0)) && 0 <= q[i].1 < t.alive.len() by {
            assert(q[i] == r[i + a]);
        }
        assert forall|i: int| #![trigger fs(t, m, q[i])] 0 <= i && i + 1 < q.len() implies fs(t, m, q[i]) == Some(q[i + 1]) by {
            assert(q[i] == r[i + a]);
        }
        assert forall|i: int| #![trigger bs(t, m, q[i])] 0 < i < q.len() implies bs(t, m, q[i]) == Some(q[i - 1]) by {
            assert(q[i] == r[i + a]);
        }
        assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i].0 != q[j].0 by {
            assert(q[i] == r[i + a] && q[j] == r[j + a]);
        }
    }

    // ------------------------------------------------------------------
    // Depths are bounded by the number of nodes.
    pub open spec fn below_at(t: Tr, n: int, x: int, k: int) -> bool {
        k >= 0 && up(t, x, k as nat) == Some(n)
    }

    pub proof fn lemma_up_add(t: Tr, x: int, a: nat, b: nat)
        requires
            up(t, x, a) is Some,
        ensures
            up(t, x, a + b) == up(t, up(t, x, a)->0, b),
        decreases a,
    {
        if a > 0 {
            lemma_up_add(t, t.parent[x]->0, (a - 1) as nat, b);
        }
    }

    /// The chain of ancestors is no longer than the number of nodes.
    pub proof fn lemma_up_len(t: Tr, x: int, n: int, k: nat)
        requires
            tw(t),
            tl(t, x),
            up(t, x, k) == Some(n),
        ensures
            k < t.alive.len(),
            tl(t, n),
    {
        let s = Seq::new(k + 1, |i: int| up(t, x, i as nat)->0);
        assert forall|i: int| #![trigger up(t, x, i as nat)] 0 <= i <= k implies up(t, x, i as nat) is Some && tl(t, up(t, x, i as nat)->0) && rk(t, x) + i <= rk(t, up(t, x, i as nat)->0) by {
            lemma_up_some(t, x, k, i as nat);
        }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by {
            let y = up(t, x, i as nat)->0;
            lemma_up_add(t, x, i as nat, (j - i) as nat);
            lemma_up_some(t, y, (j - i) as nat, (j - i) as nat);
        }
        assert(s.no_duplicates());
        s.unique_seq_to_set();
        vstd::set_lib::lemma_int_range(0, t.alive.len() as int);
        let u = vstd::set_lib::set_int_range(0, t.alive.len() as int);
        assert(s.to_set().subset_of(u)) by {
            assert forall|v: int| s.to_set().contains(v) implies u.contains(v) by {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == v;
                assert(up(t, x, i as nat) is Some);
            }
        }
        vstd::set_lib::lemma_len_subset(s.to_set(), u);
        assert(s[k as int] == n);
    }

    pub proof fn lemma_up_some(t: Tr, x: int, k: nat, i: nat)
        requires
            tw(t),
            tl(t, x),
            up(t, x, k) is Some,
            i <= k,
        ensures
            up(t, x, i) is Some,
            tl(t, up(t, x, i)->0),
            rk(t, x) + i <= rk(t, up(t, x, i)->0),
        decreases i,
    {
        if i > 0 {
            let p = t.parent[x]->0;
            lemma_pos(t, x);
            lemma_rk(t, p, pos(t, x));
            lemma_up_some(t, p, (k - 1) as nat, (i - 1) as nat);
        }
    }

    /// Events are of descendants, at their depth.
    pub proof fn lemma_tour_depth(t: Tr, n: int, d: int, m: Option<int>)
        requires
            tw(t),
            tl(t, n),
        ensures
            forall|i: int| #![trigger tour(t, n, d, m)[i]] 0 <= i < tour(t, n, d, m).len() ==> below_at(t, n, evn(tour(t, n, d, m)[i].0), tour(t, n, d, m)[i].1 - d) && tl(t, evn(tour(t, n, d, m)[i].0)),
        decreases rk(t, n), 1int, 0int,
    {
        let r = tour(t, n, d, m);
        assert(below_at(t, n, n, 0));
        if m != Some(d) {
            let len = t.kids[n].len() as int;
            let b = tours(t, n, len, d + 1, m);
            lemma_tours_depth(t, n, len, d + 1, m);
            assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies below_at(t, n, evn(r[i].0), r[i].1 - d) && tl(t, evn(r[i].0)) by {
                if 0 < i && i + 1 < r.len() {
                    assert(r[i] == b[i - 1]);
                }
            }
        }
    }

    pub proof fn lemma_tours_depth(t: Tr, p: int, j: int, d: int, m: Option<int>)
        requires
            tw(t),
            tl(t, p),
            0 <= j <= t.kids[p].len(),
        ensures
            forall|i: int| #![trigger tours(t, p, j, d, m)[i]] 0 <= i < tours(t, p, j, d, m).len() ==> below_at(t, p, evn(tours(t, p, j, d, m)[i].0), tours(t, p, j, d, m)[i].1 - d + 1) && tl(t, evn(tours(t, p, j, d, m)[i].0)),
        decreases rk(t, p), 0int, j,
    {
        if j > 0 {
            let r = tours(t, p, j, d, m);
            assert(isk(t, p, j - 1));
            let k = t.kids[p][j - 1];
            lemma_rk(t, p, j - 1);
            lemma_tours_depth(t, p, j - 1, d, m);
            lemma_tour_depth(t, k, d, m);
            let a = tours(t, p, j - 1, d, m);
            let b = tour(t, k, d, m);
            assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies below_at(t, p, evn(r[i].0), r[i].1 - d + 1) && tl(t, evn(r[i].0)) by {
                if i < a.len() {
                    assert(r[i] == a[i]);
                } else {
                    assert(r[i] == b[i - a.len()]);
                    let x = evn(r[i].0);
                    let q = (r[i].1 - d) as nat;
                    assert(below_at(t, k, x, q as int));
                    lemma_up_add(t, x, q, 1);
                    assert(up(t, k, 1) == Some(p)) by { assert(up(t, p, 0) == Some(p)); }
                }
            }
        }
    }

    pub proof fn lemma_tour_walk(t: Tr, n: int, m: Option<int>)
        requires
            tw(t),
            tl(t, n),
            m_ok(0, m),
        ensures
            walk(t, m, tour(t, n, 0, m)),
    {
        lemma_tour(t, n, 0, m);
        lemma_tour_distinct(t, n, 0, m);
        lemma_tour_depth(t, n, 0, m);
        let r = tour(t, n, 0, m);
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies 0 <= r[i].1 < t.alive.len() by {
            lemma_up_len(t, evn(r[i].0), n, r[i].1 as nat);
        }
        assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i].0 != r[j].0 by {
            if r[i].0 == r[j].0 {
                let x = evn(r[i].0);
                assert(below_at(t, n, x, r[i].1 as int) && below_at(t, n, x, r[j].1 as int));
                lemma_up_once(t, x, n, r[i].1 as nat, r[j].1 as nat);
                assert(r[i] == r[j]);
            }
        }
    }

    /// A node is above another at one distance only.
    pub proof fn lemma_up_once(t: Tr, x: int, n: int, a: nat, b: nat)
        requires
            tw(t),
            tl(t, x),
            up(t, x, a) == Some(n),
            up(t, x, b) == Some(n),
        ensures
            a == b,
    {
        if a < b {
            lemma_up_add(t, x, a, (b - a) as nat);
            lemma_up_some(t, x, b, a);
            lemma_up_some(t, n, (b - a) as nat, (b - a) as nat);
        } else if b < a {
            lemma_up_add(t, x, b, (a - b) as nat);
            lemma_up_some(t, x, a, b);
            lemma_up_some(t, n, (a - b) as nat, (a - b) as nat);
        }
    }

    // ------------------------------------------------------------------
    // The limited traversal is the full one without what is deeper.
    pub proof fn lemma_tour_limit(t: Tr, n: int, d: int, m: int)
        requires
            tw(t),
            tl(t, n),
            d <= m,
        ensures
            tour(t, n, d, Some(m)) == tour(t, n, d, None).filter(|e: (Ev, int)| e.1 <= m),
        decreases rk(t, n), 1int, 0int,
    {
        let f = |e: (Ev, int)| e.1 <= m;
        let len = t.kids[n].len() as int;
        let a = seq![(Ev::O(n), d)];
        let z = seq![(Ev::C(n), d)];
        let b = tours(t, n, len, d + 1, None);
        lemma_filter_one((Ev::O(n), d), f);
        lemma_filter_one((Ev::C(n), d), f);
        Seq::filter_distributes_over_add(a, b, f);
        Seq::filter_distributes_over_add(a + b, z, f);
        lemma_tours_limit(t, n, len, d + 1, m);
        assert(tour(t, n, d, None) == a + b + z);
        assert(tour(t, n, d, Some(m)) =~= a + b.filter(f) + z);
    }

    proof fn lemma_filter_one<A>(a: A, f: spec_fn(A) -> bool)
        ensures
            seq![a].filter(f) == (if f(a) { seq![a] } else { Seq::empty() }),
    {
        reveal_with_fuel(Seq::filter, 3);
        assert(seq![a].drop_last() =~= Seq::empty());
        assert(seq![a].filter(f) =~= (if f(a) { seq![a] } else { Seq::empty() }));
    }

    proof fn lemma_filter_none<A>(a: Seq<A>, f: spec_fn(A) -> bool)
        requires
            forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> !f(a[i]),
        ensures
            a.filter(f) == Seq::<A>::empty(),
        decreases a.len(),
    {
        reveal_with_fuel(Seq::filter, 2);
        if a.len() > 0 {
            lemma_filter_none(a.drop_last(), f);
        }
    }

    proof fn lemma_filter_all<A>(a: Seq<A>, f: spec_fn(A) -> bool)
        requires
            forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> f(a[i]),
        ensures
            a.filter(f) == a,
        decreases a.len(),
    {
        reveal_with_fuel(Seq::filter, 2);
        if a.len() > 0 {
            lemma_filter_all(a.drop_last(), f);
            assert(a.drop_last().push(a.last()) =~= a);
        } else {
            assert(a.filter(f) =~= a);
        }
    }

    proof fn lemma_tours_limit(t: Tr, p: int, j: int, d: int, m: int)
        requires
            tw(t),
            tl(t, p),
            0 <= j <= t.kids[p].len(),
        ensures
            tours(t, p, j, d, None).filter(|e: (Ev, int)| e.1 <= m) == (if d <= m { tours(t, p, j, d, Some(m)) } else { Seq::empty() }),
        decreases rk(t, p), 0int, j,
    {
        let f = |e: (Ev, int)| e.1 <= m;
        if j <= 0 {
            lemma_filter_none(tours(t, p, j, d, None), f);
        } else if d <= m {
            assert(isk(t, p, j - 1));
            let k = t.kids[p][j - 1];
            lemma_rk(t, p, j - 1);
            lemma_tours_limit(t, p, j - 1, d, m);
            lemma_tour_limit(t, k, d, m);
            Seq::filter_distributes_over_add(tours(t, p, j - 1, d, None), tour(t, k, d, None), f);
        } else {
            lemma_tours(t, p, j, d, None);
            lemma_filter_none(tours(t, p, j, d, None), f);
        }
    }

    /// A limit that no depth reaches does not matter.
    pub proof fn lemma_no_limit(t: Tr, n: int, m: int)
        requires
            tw(t),
            tl(t, n),
            t.alive.len() <= m,
        ensures
            tour(t, n, 0, Some(m)) == tour(t, n, 0, None),
    {
        lemma_tour_limit(t, n, 0, m);
        lemma_tour_walk(t, n, None);
        lemma_filter_all(tour(t, n, 0, None), |e: (Ev, int)| e.1 <= m);
    }

    // ------------------------------------------------------------------
    // What remains of a traversal.
    pub open spec fn dev<I: SealedInternalNodeId>(e: DftEvent<I>) -> Ev {
        match e {
            DftEvent::Open(i) => Ev::O(ix(i)),
            DftEvent::Close(i) => Ev::C(ix(i)),
        }
    }

    pub open spec fn odev<I: SealedInternalNodeId>(e: Option<DftEvent<I>>) -> Option<Ev> {
        match e {
            Some(e) => Some(dev(e)),
            None => None,
        }
    }

    pub open spec fn odevd<I: SealedInternalNodeId>(e: Option<(DftEvent<I>, usize)>) -> Option<(Ev, int)> {
        match e {
            Some(e) => Some((dev(e.0), e.1 as int)),
            None => None,
        }
    }

    pub open spec fn ev0(e: Option<(Ev, int)>) -> Option<Ev> {
        match e {
            Some(e) => Some(e.0),
            None => None,
        }
    }

    pub open spec fn head<A>(r: Seq<A>) -> Option<A> {
        if r.len() > 0 { Some(r[0]) } else { None }
    }

    pub open spec fn tail<A>(r: Seq<A>) -> Seq<A> {
        if r.len() > 0 { r.subrange(1, r.len() as int) } else { r }
    }

    pub open spec fn last<A>(r: Seq<A>) -> Option<A> {
        if r.len() > 0 { Some(r[r.len() - 1]) } else { None }
    }

    pub open spec fn init<A>(r: Seq<A>) -> Seq<A> {
        if r.len() > 0 { r.subrange(0, r.len() - 1) } else { r }
    }

    /// `r` is what is still to come between the two ends.
    pub open spec fn dft<I: SealedInternalNodeId>(t: Tr, o: Option<(DftEvent<I>, DftEvent<I>)>, r: Seq<(Ev, int)>) -> bool {
        &&& walk(t, None, r)
        &&& (match o {
            None => r.len() == 0,
            Some((a, b)) => r.len() > 0 && r[0].0 == dev(a) && r[r.len() - 1].0 == dev(b),
        })
    }

    pub open spec fn sdft<I: SealedInternalNodeId>(t: Tr, m: Option<int>, o: Option<((DftEvent<I>, usize), (DftEvent<I>, usize))>, r: Seq<(Ev, int)>) -> bool {
        &&& walk(t, m, r)
        &&& (match o {
            None => r.len() == 0,
            Some((a, b)) => r.len() > 0 && r[0] == (dev(a.0), a.1 as int) && r[r.len() - 1] == (dev(b.0), b.1 as int),
        })
    }

    pub open spec fn mx(m: Option<crate::nonmax::NonMaxUsize>) -> Option<int> {
        match m {
            Some(v) => Some(v.v() as int),
            None => None,
        }
    }

    pub open spec fn lim(m: Option<usize>) -> Option<int> {
        match m {
            Some(v) => Some(v as int),
            None => None,
        }
    }

    /// The facts about one event that its step needs.
    pub proof fn lemma_ev(s: Raw, m: Option<int>, r: Seq<(Ev, int)>, i: int)
        requires
            wf(s),
            walk(abs(s), m, r),
            0 <= i < r.len(),
        ensures
            live(s, evn(r[i].0)),
            s[evn(r[i].0)].prev is Some && live(s, s[evn(r[i].0)].prev->0),
            ({
                let t = abs(s);
                let n = evn(r[i].0);
                &&& olive(s, s[n].parent)
                &&& olive(s, s[n].next)
                &&& olive(s, s[n].first)
                &&& s[n].parent == t.parent[n]
                &&& s[n].next == next_of(t, n)
                &&& s[n].first == k_first(t.kids[n])
                &&& raw_last(s, n) == k_last(t.kids[n])
                &&& raw_prev(s, n) == prev_of(t, n)
            }),
            i + 1 < r.len() ==> fs(abs(s), m, r[i]) == Some(r[i + 1]),
            i > 0 ==> bs(abs(s), m, r[i]) == Some(r[i - 1]),
            0 <= r[i].1 < s.len(),
    {
        lemma_wf(s);
        lemma_liv(s, abs(s), ISet::empty());
        assert(tl(abs(s), evn(r[i].0)));
        lemma_nav(s, evn(r[i].0));
        lemma_single(s, evn(r[i].0));
        if i + 1 < r.len() { assert(fs(abs(s), m, r[i]) == Some(r[i + 1])); }
        if i > 0 { assert(bs(abs(s), m, r[i]) == Some(r[i - 1])); }
    }

    // ------------------------------------------------------------------
    // Siblings.
    pub open spec fn sibs(t: Tr, r: Seq<int>) -> bool {
        &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> tl(t, r[i])
        &&& forall|i: int| #![trigger next_of(t, r[i])] 0 <= i && i + 1 < r.len() ==> next_of(t, r[i]) == Some(r[i + 1])
        &&& forall|i: int| #![trigger prev_of(t, r[i])] 0 < i < r.len() ==> prev_of(t, r[i]) == Some(r[i - 1])
        &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && i != j ==> r[i] != r[j]
    }

    pub open spec fn sib<I: SealedInternalNodeId>(t: Tr, o: Option<(I, I)>, r: Seq<int>) -> bool {
        &&& sibs(t, r)
        &&& (match o {
            None => r.len() == 0,
            Some((a, b)) => r.len() > 0 && r[0] == ix(a) && r[r.len() - 1] == ix(b),
        })
    }

    pub proof fn lemma_sibs_kids(t: Tr, p: int, a: int, b: int)
        requires
            tw(t),
            tl(t, p),
            0 <= a <= b <= t.kids[p].len(),
        ensures
            sibs(t, t.kids[p].subrange(a, b)),
    {
        let r = t.kids[p].subrange(a, b);
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies tl(t, r[i]) && t.parent[r[i]] == Some(p) && pos(t, r[i]) == a + i by {
            assert(isk(t, p, a + i));
            lemma_pos_of(t, p, a + i);
        }
        assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
            assert(isk(t, p, a + i) && isk(t, p, a + j));
        }
        assert forall|i: int| #![trigger next_of(t, r[i])] 0 <= i && i + 1 < r.len() implies next_of(t, r[i]) == Some(r[i + 1]) by {
            assert(pos(t, r[i]) == a + i);
        }
        assert forall|i: int| #![trigger prev_of(t, r[i])] 0 < i < r.len() implies prev_of(t, r[i]) == Some(r[i - 1]) by {
            assert(pos(t, r[i]) == a + i);
        }
    }

    pub proof fn lemma_sibs_one(t: Tr, n: int)
        requires
            tl(t, n),
        ensures
            sibs(t, seq![n]),
    {
    }

    pub proof fn lemma_sibs_sub(t: Tr, r: Seq<int>, a: int, b: int)
        requires
            sibs(t, r),
            0 <= a <= b <= r.len(),
        ensures
            sibs(t, r.subrange(a, b)),
    {
        let q = r.subrange(a, b);
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies tl(t, q[i]) by {
            assert(q[i] == r[a + i]);
        }
        assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
            assert(q[i] == r[a + i] && q[j] == r[a + j]);
        }
        assert forall|i: int| #![trigger next_of(t, q[i])] 0 <= i && i + 1 < q.len() implies next_of(t, q[i]) == Some(q[i + 1]) by {
            assert(q[i] == r[a + i]);
        }
        assert forall|i: int| #![trigger prev_of(t, q[i])] 0 < i < q.len() implies prev_of(t, q[i]) == Some(q[i - 1]) by {
            assert(q[i] == r[a + i]);
        }
    }

    /// The siblings from `n` on.
    pub open spec fn from_sib(t: Tr, n: int) -> Seq<int> {
        match t.parent[n] {
            Some(p) => t.kids[p].subrange(pos(t, n), t.kids[p].len() as int),
            None => seq![n],
        }
    }

    /// The siblings up to `n`.
    pub open spec fn to_sib(t: Tr, n: int) -> Seq<int> {
        match t.parent[n] {
            Some(p) => t.kids[p].subrange(0, pos(t, n) + 1),
            None => seq![n],
        }
    }

    pub proof fn lemma_sib_ends(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
        ensures
            sibs(t, from_sib(t, n)),
            sibs(t, to_sib(t, n)),
            from_sib(t, n).len() > 0 && from_sib(t, n)[0] == n,
            to_sib(t, n).len() > 0 && to_sib(t, n)[to_sib(t, n).len() - 1] == n,
            t.parent[n] is Some ==> from_sib(t, n)[from_sib(t, n).len() - 1] == k_last(t.kids[t.parent[n]->0])->0,
            t.parent[n] is Some ==> to_sib(t, n)[0] == k_first(t.kids[t.parent[n]->0])->0,
    {
        match t.parent[n] {
            Some(p) => {
                lemma_pos(t, n);
                lemma_sibs_kids(t, p, pos(t, n), t.kids[p].len() as int);
                lemma_sibs_kids(t, p, 0, pos(t, n) + 1);
            },
            None => lemma_sibs_one(t, n),
        }
    }

    // ------------------------------------------------------------------
    // Ancestors.
    pub open spec fn ancs(t: Tr, n: int) -> Seq<int>
        decreases dep(t, n),
        when tw(t) && tl(t, n)
        via ancs_dec
    {
        match t.parent[n] {
            Some(p) => seq![n] + ancs(t, p),
            None => seq![n],
        }
    }

    #[via_fn]
    proof fn ancs_dec(t: Tr, n: int) {
        if t.parent[n] is Some {
            lemma_dep(t, n);
        }
    }

    pub open spec fn oancs(t: Tr, n: Option<int>) -> Seq<int> {
        match n {
            Some(n) => ancs(t, n),
            None => Seq::empty(),
        }
    }

    /// The ancestors, one after another.
    pub proof fn lemma_ancs(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
        ensures
            forall|i: int| #![trigger ancs(t, n)[i]] 0 <= i < ancs(t, n).len() ==> up(t, n, i as nat) == Some(ancs(t, n)[i]),
            up(t, n, ancs(t, n).len()) is None,
            ancs(t, n).len() > 0,
        decreases dep(t, n),
    {
        match t.parent[n] {
            Some(p) => {
                lemma_dep(t, n);
                lemma_ancs(t, p);
                let r = ancs(t, n);
                assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies up(t, n, i as nat) == Some(r[i]) by {
                    if i > 0 {
                        assert(r[i] == ancs(t, p)[i - 1]);
                    }
                }
            },
            None => {
                assert(up(t, n, 1) is None);
            },
        }
    }

    // ------------------------------------------------------------------
    // One step at each end.
    pub open spec fn evn_ok(s: Raw, n: int) -> bool {
        let t = abs(s);
        &&& live(s, n)
        &&& s[n].prev is Some && live(s, s[n].prev->0)
        &&& olive(s, s[n].parent)
        &&& olive(s, s[n].next)
        &&& olive(s, s[n].first)
        &&& s[n].parent == t.parent[n]
        &&& s[n].next == next_of(t, n)
        &&& s[n].first == k_first(t.kids[n])
        &&& raw_last(s, n) == k_last(t.kids[n])
        &&& raw_prev(s, n) == prev_of(t, n)
    }

    pub proof fn lemma_dft_steps<I: SealedInternalNodeId>(s: Raw, o: Option<(DftEvent<I>, DftEvent<I>)>)
        requires
            wf(s),
        ensures
            forall|q: Seq<(Ev, int)>| #![trigger dft(abs(s), o, q)] dft(abs(s), o, q) && o is Some ==> {
                let a = dev((o->0).0);
                let b = dev((o->0).1);
                &&& evn_ok(s, evn(a)) && evn_ok(s, evn(b))
                &&& a == b <==> q.len() == 1
                &&& a == b ==> tail(q).len() == 0 && init(q).len() == 0
                &&& a != b ==> fs(abs(s), None, q[0]) is Some && ev0(fs(abs(s), None, q[0])) == ev0(head(tail(q))) && q[0].0 == a
                &&& a != b ==> bs(abs(s), None, q[q.len() - 1]) is Some && ev0(bs(abs(s), None, q[q.len() - 1])) == ev0(last(init(q))) && q[q.len() - 1].0 == b
            },
    {
        assert forall|q: Seq<(Ev, int)>| #![trigger dft(abs(s), o, q)] dft(abs(s), o, q) && o is Some implies {
                let a = dev((o->0).0);
                let b = dev((o->0).1);
                &&& evn_ok(s, evn(a)) && evn_ok(s, evn(b))
                &&& a == b <==> q.len() == 1
                &&& a == b ==> tail(q).len() == 0 && init(q).len() == 0
                &&& a != b ==> fs(abs(s), None, q[0]) is Some && ev0(fs(abs(s), None, q[0])) == ev0(head(tail(q))) && q[0].0 == a
                &&& a != b ==> bs(abs(s), None, q[q.len() - 1]) is Some && ev0(bs(abs(s), None, q[q.len() - 1])) == ev0(last(init(q))) && q[q.len() - 1].0 == b
            } by {
            lemma_ev(s, None, q, 0);
            lemma_ev(s, None, q, q.len() - 1);
            if q.len() > 1 {
                assert(q[0].0 != q[q.len() - 1].0);
            }
        }
    }

    pub proof fn lemma_walk_ends(t: Tr, m: Option<int>, q: Seq<(Ev, int)>)
        requires
            walk(t, m, q),
        ensures
            walk(t, m, tail(q)),
            walk(t, m, init(q)),
            q.len() > 1 ==> tail(q)[tail(q).len() - 1] == q[q.len() - 1] && init(q)[0] == q[0],
            q.len() > 0 ==> tail(q).len() == q.len() - 1 && init(q).len() == q.len() - 1,
    {
        if q.len() > 0 {
            lemma_walk_sub(t, m, q, 1, q.len() as int);
            lemma_walk_sub(t, m, q, 0, q.len() - 1);
        }
    }

    pub proof fn lemma_dft_tails<I: SealedInternalNodeId>(s: Raw, o: Option<(DftEvent<I>, DftEvent<I>)>)
        requires
            wf(s),
        ensures
            forall|q: Seq<(Ev, int)>| #![trigger dft(abs(s), o, q)] dft(abs(s), o, q) ==> {
                &&& walk(abs(s), None, tail(q))
                &&& walk(abs(s), None, init(q))
                &&& q.len() > 1 ==> tail(q)[tail(q).len() - 1] == q[q.len() - 1] && init(q)[0] == q[0]
                &&& q.len() > 0 ==> tail(q).len() == q.len() - 1 && init(q).len() == q.len() - 1
            },
    {
        assert forall|q: Seq<(Ev, int)>| #![trigger dft(abs(s), o, q)] dft(abs(s), o, q) implies {
                &&& walk(abs(s), None, tail(q))
                &&& walk(abs(s), None, init(q))
                &&& q.len() > 1 ==> tail(q)[tail(q).len() - 1] == q[q.len() - 1] && init(q)[0] == q[0]
                &&& q.len() > 0 ==> tail(q).len() == q.len() - 1 && init(q).len() == q.len() - 1
            } by {
            lemma_walk_ends(abs(s), None, q);
        }
    }

    pub proof fn lemma_tw(s: Raw)
        requires
            wf(s),
        ensures
            tw(abs(s)),
            abs(s).alive.len() == s.len(),
            forall|i: int| #![trigger live(s, i)] #![trigger tl(abs(s), i)] live(s, i) <==> tl(abs(s), i),
    {
        lemma_wf(s);
        lemma_liv(s, abs(s), ISet::empty());
    }

    pub proof fn lemma_sdft_steps<I: SealedInternalNodeId>(s: Raw, m: Option<int>, o: Option<((DftEvent<I>, usize), (DftEvent<I>, usize))>)
        requires
            wf(s),
        ensures
            forall|q: Seq<(Ev, int)>| #![trigger sdft(abs(s), m, o, q)] sdft(abs(s), m, o, q) && o is Some ==> {
                let a = (dev(((o->0).0).0), ((o->0).0).1 as int);
                let b = (dev(((o->0).1).0), ((o->0).1).1 as int);
                &&& evn_ok(s, evn(a.0)) && evn_ok(s, evn(b.0))
                &&& a == b <==> q.len() == 1
                &&& a == b ==> tail(q).len() == 0 && init(q).len() == 0
                &&& a != b ==> fs(abs(s), m, a) is Some && fs(abs(s), m, a) == head(tail(q)) && 0 <= (fs(abs(s), m, a)->0).1 < s.len()
                &&& a != b ==> bs(abs(s), m, b) is Some && bs(abs(s), m, b) == last(init(q)) && 0 <= (bs(abs(s), m, b)->0).1 < s.len()
            },
    {
        assert forall|q: Seq<(Ev, int)>| #![trigger sdft(abs(s), m, o, q)] sdft(abs(s), m, o, q) && o is Some implies {
                let a = (dev(((o->0).0).0), ((o->0).0).1 as int);
                let b = (dev(((o->0).1).0), ((o->0).1).1 as int);
                &&& evn_ok(s, evn(a.0)) && evn_ok(s, evn(b.0))
                &&& a == b <==> q.len() == 1
                &&& a == b ==> tail(q).len() == 0 && init(q).len() == 0
                &&& a != b ==> fs(abs(s), m, a) is Some && fs(abs(s), m, a) == head(tail(q)) && 0 <= (fs(abs(s), m, a)->0).1 < s.len()
                &&& a != b ==> bs(abs(s), m, b) is Some && bs(abs(s), m, b) == last(init(q)) && 0 <= (bs(abs(s), m, b)->0).1 < s.len()
            } by {
            lemma_ev(s, m, q, 0);
            lemma_ev(s, m, q, q.len() - 1);
            lemma_tw(s);
            if q.len() > 1 {
                assert(q[0].0 != q[q.len() - 1].0);
                assert(0 <= q[1].1 < s.len());
                assert(0 <= q[q.len() - 2].1 < s.len());
            }
        }
    }

    pub proof fn lemma_sdft_tails<I: SealedInternalNodeId>(s: Raw, m: Option<int>, o: Option<((DftEvent<I>, usize), (DftEvent<I>, usize))>)
        requires
            wf(s),
        ensures
            forall|q: Seq<(Ev, int)>| #![trigger sdft(abs(s), m, o, q)] sdft(abs(s), m, o, q) ==> {
                &&& walk(abs(s), m, tail(q))
                &&& walk(abs(s), m, init(q))
                &&& q.len() > 1 ==> tail(q)[tail(q).len() - 1] == q[q.len() - 1] && init(q)[0] == q[0]
                &&& q.len() > 0 ==> tail(q).len() == q.len() - 1 && init(q).len() == q.len() - 1
            },
    {
        assert forall|q: Seq<(Ev, int)>| #![trigger sdft(abs(s), m, o, q)] sdft(abs(s), m, o, q) implies {
                &&& walk(abs(s), m, tail(q))
                &&& walk(abs(s), m, init(q))
                &&& q.len() > 1 ==> tail(q)[tail(q).len() - 1] == q[q.len() - 1] && init(q)[0] == q[0]
                &&& q.len() > 0 ==> tail(q).len() == q.len() - 1 && init(q).len() == q.len() - 1
            } by {
            lemma_walk_ends(abs(s), m, q);
        }
    }

    /// A limit beyond all depths stands for no limit.
    pub proof fn lemma_limit_start(s: Raw, n: int, m: Option<int>, big: int)
        requires
            wf(s),
            live(s, n),
            s.len() <= big,
            m is Some ==> m->0 >= 0,
        ensures
            ({
                let t = abs(s);
                let m2 = if m == Some(big) { None } else { m };
                let q = tour(t, n, 0, m);
                &&& walk(t, m2, q)
                &&& q.len() >= 2
                &&& q[0] == (Ev::O(n), 0int)
                &&& q[q.len() - 1] == (Ev::C(n), 0int)
            }),
    {
        lemma_tw(s);
        let t = abs(s);
        let m2 = if m == Some(big) { None } else { m };
        if m == Some(big) {
            lemma_no_limit(t, n, big);
        }
        lemma_tour(t, n, 0, m2);
        lemma_tour_walk(t, n, m2);
    }

    pub proof fn lemma_sib_steps<I: SealedInternalNodeId>(s: Raw, o: Option<(I, I)>)
        requires
            wf(s),
        ensures
            forall|q: Seq<int>| #![trigger sib(abs(s), o, q)] sib(abs(s), o, q) && o is Some ==> {
                let a = ix((o->0).0);
                let b = ix((o->0).1);
                &&& evn_ok(s, a) && evn_ok(s, b)
                &&& a == b <==> q.len() == 1
                &&& a == b ==> tail(q).len() == 0 && init(q).len() == 0
                &&& a != b ==> s[a].next == head(tail(q)) && s[a].next is Some
                &&& a != b ==> raw_prev(s, b) == last(init(q)) && raw_prev(s, b) is Some
            },
    {
        assert forall|q: Seq<int>| #![trigger sib(abs(s), o, q)] sib(abs(s), o, q) && o is Some implies {
                let a = ix((o->0).0);
                let b = ix((o->0).1);
                &&& evn_ok(s, a) && evn_ok(s, b)
                &&& a == b <==> q.len() == 1
                &&& a == b ==> tail(q).len() == 0 && init(q).len() == 0
                &&& a != b ==> s[a].next == head(tail(q)) && s[a].next is Some
                &&& a != b ==> raw_prev(s, b) == last(init(q)) && raw_prev(s, b) is Some
            } by {
            lemma_tw(s);
            let a = q[0];
            let b = q[q.len() - 1];
            assert(tl(abs(s), a) && tl(abs(s), b));
            lemma_nav(s, a);
            lemma_nav(s, b);
            lemma_single(s, a);
            lemma_single(s, b);
            if q.len() > 1 {
                assert(next_of(abs(s), q[0]) == Some(q[1]));
                assert(prev_of(abs(s), q[q.len() - 1]) == Some(q[q.len() - 2]));
            }
        }
    }

    pub proof fn lemma_sib_tails<I: SealedInternalNodeId>(s: Raw, o: Option<(I, I)>)
        requires
            wf(s),
        ensures
            forall|q: Seq<int>| #![trigger sib(abs(s), o, q)] sib(abs(s), o, q) ==> {
                &&& sibs(abs(s), tail(q))
                &&& sibs(abs(s), init(q))
                &&& q.len() > 1 ==> tail(q)[tail(q).len() - 1] == q[q.len() - 1] && init(q)[0] == q[0]
                &&& q.len() > 0 ==> tail(q).len() == q.len() - 1 && init(q).len() == q.len() - 1
            },
    {
        assert forall|q: Seq<int>| #![trigger sib(abs(s), o, q)] sib(abs(s), o, q) implies {
                &&& sibs(abs(s), tail(q))
                &&& sibs(abs(s), init(q))
                &&& q.len() > 1 ==> tail(q)[tail(q).len() - 1] == q[q.len() - 1] && init(q)[0] == q[0]
                &&& q.len() > 0 ==> tail(q).len() == q.len() - 1 && init(q).len() == q.len() - 1
            } by {
            if q.len() > 0 {
                lemma_sibs_sub(abs(s), q, 1, q.len() as int);
                lemma_sibs_sub(abs(s), q, 0, q.len() - 1);
            }
        }
    }

    pub proof fn lemma_oancs(s: Raw, n: Option<int>)
        requires
            wf(s),
        ensures
            olive(s, n) ==> head(oancs(abs(s), n)) == n,
            n is Some && live(s, n->0) ==> s[n->0].parent == abs(s).parent[n->0] && olive(s, s[n->0].parent) && tail(oancs(abs(s), n)) == oancs(abs(s), s[n->0].parent),
            n is None ==> tail(oancs(abs(s), n)) == oancs(abs(s), n),
    {
        lemma_tw(s);
        if n is Some && live(s, n->0) {
            lemma_nav(s, n->0);
            let t = abs(s);
            match t.parent[n->0] {
                Some(p) => { assert(tail(ancs(t, n->0)) =~= ancs(t, p)); },
                None => { assert(tail(ancs(t, n->0)) =~= Seq::empty()); },
            }
        }
    }
}
