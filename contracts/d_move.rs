pub mod mv {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;

    pub open spec fn setp(s: Raw, r: Seq<int>, j: int, p: int) -> Raw {
        Seq::new(s.len(), |i: int| if r.subrange(0, j).contains(i) { Nb { parent: Some(p), ..s[i] } } else { s[i] })
    }

    pub open spec fn rset(r: Seq<int>) -> ISet<int> {
        ISet::new(|i: int| r.contains(i))
    }

    pub proof fn lemma_setp(s: Raw, r: Seq<int>, j: int, p: int)
        requires
            0 <= j < r.len(),
            0 <= r[j] < s.len(),
        ensures
            setp(s, r, j + 1, p) == setp(s, r, j, p).update(r[j], Nb { parent: Some(p), ..setp(s, r, j, p)[r[j]] }),
            setp(s, r, j, p)[r[j]].next == s[r[j]].next,
            setp(s, r, j, p)[r[j]].prev == s[r[j]].prev,
            setp(s, r, j, p).len() == s.len(),
    {
        let a = r.subrange(0, j);
        let b = r.subrange(0, j + 1);
        assert(b == a.push(r[j]));
        assert forall|i: int| b.contains(i) <==> a.contains(i) || i == r[j] by {
            if a.contains(i) {
                let k = choose|k: int| 0 <= k < a.len() && a[k] == i;
                assert(b[k] == i);
            }
            assert(b[j] == r[j]);
            if b.contains(i) && i != r[j] {
                let k = choose|k: int| 0 <= k < b.len() && b[k] == i;
                assert(a[k] == i);
            }
        }
        assert(setp(s, r, j + 1, p) =~= setp(s, r, j, p).update(r[j], Nb { parent: Some(p), ..setp(s, r, j, p)[r[j]] }));
    }

    /// What the code reads at the two ends of a range of siblings.
    pub proof fn lemma_range(s: Raw, f: int, l: int)
        requires
            range_ok(s, f, l),
        ensures
            ({
                let t = abs(s);
                let r = rng(t, f, l);
                &&& live(s, f) && live(s, l)
                &&& live(s, s[f].prev->0)
                &&& s[f].parent == t.parent[f]
                &&& r.len() > 0 && r[0] == f && r[r.len() - 1] == l
                &&& t.parent[f] is None ==> s[s[f].prev->0].next is None && s[l].next is None
                &&& t.parent[f] is Some ==> {
                    let q = t.parent[f]->0;
                    let a = pos(t, f);
                    let b = pos(t, l) + 1;
                    &&& tl(t, q) && 0 <= a < b <= t.kids[q].len()
                    &&& t.kids[q][a] == f && t.kids[q][b - 1] == l
                    &&& (if s[s[f].prev->0].next is Some { s[f].prev } else { None }) == k_before(t.kids[q], a)
                    &&& s[l].next == k_at(t.kids[q], b)
                }
            }),
    {
        let t = abs(s);
        let x = loose(s);
        lemma_liv(s, t, x);
        lemma_raw_parent(s, t, x, f);
        if t.parent[f] is Some {
            let q = t.parent[f]->0;
            lemma_pos(t, f);
            lemma_pos(t, l);
            let a = pos(t, f);
            let n = t.kids[q].len() as int;
            assert(isk(t, q, a) && isk(t, q, pos(t, l)));
            assert(isk(t, q, 0) && isk(t, q, n - 1));
            if a > 0 { assert(isk(t, q, a - 1)); }
        }
    }

    pub open spec fn prev_of(t: Tr, f: int) -> Option<int> {
        match t.parent[f] {
            Some(q) => k_before(t.kids[q], pos(t, f)),
            None => None,
        }
    }

    pub open spec fn next_of(t: Tr, l: int) -> Option<int> {
        match t.parent[l] {
            Some(q) => k_at(t.kids[q], pos(t, l) + 1),
            None => None,
        }
    }

    /// More roots may be left unconstrained.
    pub proof fn lemma_rep_more(s: Raw, t: Tr, x: ISet<int>, y: ISet<int>)
        requires
            rep(s, t, x),
            forall|i: int| #![trigger x.contains(i)] x.contains(i) ==> y.contains(i),
            forall|i: int| #![trigger y.contains(i)] y.contains(i) ==> tl(t, i) && t.parent[i] is None,
        ensures
            rep(s, t, y),
    {
    }

    pub proof fn lemma_take_out(s: Raw, f: int, l: int)
        requires
            range_ok(s, f, l),
        ensures
            ({
                let t = abs(s);
                let r = rng(t, f, l);
                let s1 = ct(s, t.parent[f], prev_of(t, f), next_of(t, l));
                &&& ct_pre(s, t.parent[f], prev_of(t, f), next_of(t, l))
                &&& rep(s1, t_cut(t, f, l), loose(s).union(rset(r)))
                &&& linked(s1, r)
                &&& s1.len() == s.len()
            }),
    {
        let t = abs(s);
        let x = loose(s);
        let r = rng(t, f, l);
        let s1 = ct(s, t.parent[f], prev_of(t, f), next_of(t, l));
        lemma_range(s, f, l);
        if t.parent[f] is Some {
            let q = t.parent[f]->0;
            let a = pos(t, f);
            let b = pos(t, l) + 1;
            let k = t.kids[q];
            lemma_cut_fields(s, t, x, q, a, b);
            lemma_cut(s, t, x, q, a, b, s1);
            assert(x.union(rset(r)) =~= x.union(r.to_set().to_iset()));
            assert forall|i: int| #![trigger inr(r, i)] inr(r, i) && i < r.len() - 1 implies s1[r[i]].next == Some(r[i + 1]) by {
                assert(isk(t, q, a + i));
                assert(r[i] == k[a + i] && r[i + 1] == k[a + i + 1]);
                if a > 0 { assert(isk(t, q, a - 1)); }
            }
            assert forall|i: int| #![trigger inr(r, i)] inr(r, i) && i > 0 implies s1[r[i]].prev == Some(r[i - 1]) by {
                assert(isk(t, q, a + i));
                assert(r[i] == k[a + i] && r[i - 1] == k[a + i - 1]);
                assert(isk(t, q, 0));
                if b < k.len() { assert(isk(t, q, b)); }
            }
        } else {
            assert(s1 == s);
            let y = x.union(rset(r));
            assert forall|i: int| #![trigger y.contains(i)] y.contains(i) implies tl(t, i) && t.parent[i] is None by {
                if !x.contains(i) {
                    assert(r.contains(i));
                }
            }
            lemma_rep_more(s, t, x, y);
        }
    }

    /// What follows about the place the range is moved to.
    pub proof fn lemma_place(s: Raw, f: int, l: int, p: int, prev: Option<int>, next: Option<int>)
        requires
            range_ok(s, f, l),
            parent_ok(s, f, l, p),
            place_ok(s, f, l, p, prev, next),
            !anc(abs(s), f, p),
        ensures
            ({
                let t = abs(s);
                let r = rng(t, f, l);
                let t1 = t_cut(t, f, l);
                let k1 = dest_cut(t, f, l, p, dest(t, p, next));
                &&& tl(t1, p)
                &&& roots_list(t1, r, p)
                &&& !below(t1, r, p)
                &&& 0 <= k1 <= t1.kids[p].len()
                &&& (if prev == Some(l) { prev_of(t, f) } else { prev }) == k_before(t1.kids[p], k1)
                &&& (if next == Some(f) { next_of(t, l) } else { next }) == k_at(t1.kids[p], k1)
                &&& !loose(s).contains(p)
                &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> !loose(s).contains(r[i])
            }),
    {
        let t = abs(s);
        let x = loose(s);
        let r = rng(t, f, l);
        let t1 = t_cut(t, f, l);
        let k = dest(t, p, next);
        let k1 = dest_cut(t, f, l, p, k);
        lemma_range(s, f, l);
        lemma_anc_self(t, p);
        lemma_anc_self(t, f);
        assert(!x.contains(p));
        if next is Some {
            lemma_pos(t, next->0);
        }
        match t.parent[f] {
            None => {
                assert(roots_list(t1, r, p));
                assert(!below(t1, r, p));
                if prev is Some { assert(isk(t, p, k - 1)); }
            },
            Some(q) => {
                let a = pos(t, f);
                let b = pos(t, l) + 1;
                let kk = t.kids[q];
                lemma_subrange(t, q, a, b);
                assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies tl(t1, r[i]) && t1.parent[r[i]] is None && r[i] != p && !x.contains(r[i]) && !anc(t, r[i], p) by {
                    assert(r[i] == kk[a + i]);
                    assert(isk(t, q, a + i));
                    assert(r.contains(r[i]));
                    lemma_anc_self(t, r[i]);
                    if anc(t, r[i], p) {
                        if f == l {
                            assert(r.len() == 1);
                        } else {
                            lemma_anc_up(t, r[i], q, p);
                        }
                    }
                }
                assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
                    assert(isk(t, q, a + i) && isk(t, q, a + j));
                }
                assert(roots_list(t1, r, p));
                if below(t1, r, p) {
                    let j = choose|j: int| 0 <= j < r.len() && #[trigger] anc(t1, r[j], p);
                    lemma_cut_tw(t, q, a, b);
                    lemma_anc_sub(t, t1, r[j], p);
                }
                if k > 0 { assert(isk(t, p, k - 1)); }
                if k < t.kids[p].len() { assert(isk(t, p, k)); }
                assert(isk(t, q, a) && isk(t, q, b - 1));
                if q == p {
                    assert(forall|j: int| 0 <= j < a ==> t1.kids[p][j] == kk[j]);
                    assert(forall|j: int| a <= j < t1.kids[p].len() ==> t1.kids[p][j] == kk[j + (b - a)]);
                } else {
                    assert(t1.kids[p] == t.kids[p]);
                }
            },
        }
    }

    /// The range hangs below its new parent.
    pub proof fn lemma_put_in(s: Raw, f: int, l: int, p: int, prev: Option<int>, next: Option<int>)
        requires
            range_ok(s, f, l),
            parent_ok(s, f, l, p),
            place_ok(s, f, l, p, prev, next),
            !anc(abs(s), f, p),
        ensures
            ({
                let t = abs(s);
                let r = rng(t, f, l);
                let t1 = t_cut(t, f, l);
                let k = dest(t, p, next);
                let k1 = dest_cut(t, f, l, p, k);
                let s1 = ct(s, t.parent[f], prev_of(t, f), next_of(t, l));
                let s2 = setp(s1, r, r.len() as int, p);
                let pr = k_before(t1.kids[p], k1);
                let nx = k_at(t1.kids[p], k1);
                let s3 = ct(s2, Some(p), pr, Some(f));
                &&& ct_pre(s2, Some(p), pr, Some(f))
                &&& ct_pre(s3, Some(p), Some(l), nx)
                &&& rep(ct(s3, Some(p), Some(l), nx), t_move(t, f, l, p, k), loose(s))
            }),
    {
        let t = abs(s);
        let x = loose(s);
        let r = rng(t, f, l);
        let t1 = t_cut(t, f, l);
        let k = dest(t, p, next);
        let k1 = dest_cut(t, f, l, p, k);
        let s1 = ct(s, t.parent[f], prev_of(t, f), next_of(t, l));
        let s2 = setp(s1, r, r.len() as int, p);
        lemma_range(s, f, l);
        lemma_take_out(s, f, l);
        lemma_place(s, f, l, p, prev, next);
        let y = x.union(rset(r));
        assert(r.subrange(0, r.len() as int) =~= r);
        lemma_rep_setp(s1, t1, y, r, p);
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies s2[r[i]].parent == Some(p) && s2[r[i]].next == s1[r[i]].next && s2[r[i]].prev == s1[r[i]].prev by {
            assert(r.contains(r[i]));
        }
        assert(linked(s2, r));
        lemma_paste_acyc(t1, r, p, k1);
        lemma_paste_fields(s2, t1, y, r, p, k1);
        let s3 = ct(s2, Some(p), k_before(t1.kids[p], k1), Some(f));
        let s4 = ct(s3, Some(p), Some(l), k_at(t1.kids[p], k1));
        lemma_paste(s2, t1, y, x, r, p, k1, s4);
    }

    pub proof fn lemma_rep_setp(s: Raw, t: Tr, y: ISet<int>, r: Seq<int>, p: int)
        requires
            rep(s, t, y),
            forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> y.contains(r[i]),
        ensures
            rep(setp(s, r, r.len() as int, p), t, y),
    {
        let s2 = setp(s, r, r.len() as int, p);
        assert(r.subrange(0, r.len() as int) =~= r);
        assert forall|i: int| #![trigger r.contains(i)] r.contains(i) implies y.contains(i) && tl(t, i) && t.parent[i] is None by {
            let j = choose|j: int| 0 <= j < r.len() && r[j] == i;
            assert(y.contains(r[j]));
        }
        assert forall|q: int, j: int| #![trigger isk(t, q, j)] isk(t, q, j) implies ({
            &&& s2[t.kids[q][j]].parent == Some(q)
            &&& s2[t.kids[q][j]].next == k_at(t.kids[q], j + 1)
            &&& s2[t.kids[q][j]].prev == link_prev(t.kids[q], j)
        }) by {
            assert(!r.contains(t.kids[q][j]));
        }
        assert forall|i: int| #![trigger s2[i]] 0 <= i < s2.len() && s2[i].prev is None implies s2[i] == nb_dead() by {
            assert(s[i].prev is None);
            if r.contains(i) {
                assert(s[i].prev is Some <==> t.alive[i]);
            }
        }
        assert forall|i: int| #![trigger s2[i]] #![trigger t.alive[i]] 0 <= i < s2.len() implies (s2[i].prev is Some <==> t.alive[i]) by {
            assert(s[i].prev is Some <==> t.alive[i]);
        }
        assert forall|i: int| #![trigger s2[i]] #![trigger t.kids[i]] tl(t, i) implies s2[i].first == k_first(t.kids[i]) by {
            assert(s[i].first == k_first(t.kids[i]));
        }
        assert forall|i: int| #![trigger s2[i]] #![trigger t.parent[i]] tl(t, i) && t.parent[i] is None && !y.contains(i) implies s2[i].parent is None && s2[i].next is None && s2[i].prev == Some(i) by {
            assert(!r.contains(i));
            assert(s[i].parent is None);
        }
    }

    /// A new root.
    pub proof fn lemma_create(s: Raw, t: Tr)
        requires
            rep(s, t, ISet::empty()),
        ensures
            wf(s.push(nb_root(s.len() as int))),
            abs(s.push(nb_root(s.len() as int))) == t_new(t),
    {
        let n = s.len() as int;
        let s2 = s.push(nb_root(n));
        let u = t_new(t);
        assert forall|i: int| #![trigger tl(u, i)] tl(u, i) <==> tl(t, i) || i == n by {}
        assert forall|p: int, j: int| #![trigger isk(u, p, j)] isk(u, p, j) implies isk(t, p, j) && u.kids[p] == t.kids[p] by {}
        assert forall|p: int, j: int| #![trigger isk(u, p, j)] isk(u, p, j) implies tl(u, u.kids[p][j]) && u.parent[u.kids[p][j]] == Some(p) by {
            assert(isk(t, p, j));
        }
        assert forall|p: int, j: int, k: int| #![trigger isk(u, p, j), isk(u, p, k)] isk(u, p, j) && isk(u, p, k) && j != k implies u.kids[p][j] != u.kids[p][k] by {
            assert(isk(t, p, j) && isk(t, p, k));
        }
        assert forall|i: int| #![trigger u.parent[i]] tl(u, i) && u.parent[i] is Some implies tl(u, u.parent[i]->0) by {
            assert(t.parent[i] == u.parent[i]);
        }
        assert forall|i: int| #![trigger has_pos(u, i)] tl(u, i) && u.parent[i] is Some implies has_pos(u, i) by {
            assert(t.parent[i] == u.parent[i]);
            lemma_pos(t, i);
            assert(is_pos(u, i, pos(t, i)));
        }
        assert forall|i: int| #![trigger u.kids[i]] #![trigger u.parent[i]] 0 <= i < u.alive.len() && !u.alive[i] implies u.parent[i] is None && u.kids[i].len() == 0 by {
            assert(t.parent[i] is None && t.kids[i].len() == 0);
        }
        assert(acyc(u)) by {
            let (r, m) = choose|r: spec_fn(int) -> nat, m: nat| ranked(t, r, m);
            assert forall|i: int| #![trigger u.parent[i]] tl(u, i) && u.parent[i] is Some implies r(i) < r(u.parent[i]->0) by {
                assert(t.parent[i] == u.parent[i]);
            }
            assert(ranked(u, r, m));
        }
        assert(tw(u));
        assert forall|i: int| #![trigger s2[i]] #![trigger u.alive[i]] 0 <= i < s2.len() implies (s2[i].prev is Some <==> u.alive[i]) by {
            if i < n { assert(s[i].prev is Some <==> t.alive[i]); }
        }
        assert forall|i: int| #![trigger s2[i]] #![trigger u.kids[i]] tl(u, i) implies s2[i].first == k_first(u.kids[i]) by {
            if i < n { assert(s[i].first == k_first(t.kids[i])); }
        }
        assert forall|p: int, j: int| #![trigger isk(u, p, j)] isk(u, p, j) implies ({
            &&& s2[u.kids[p][j]].parent == Some(p)
            &&& s2[u.kids[p][j]].next == k_at(u.kids[p], j + 1)
            &&& s2[u.kids[p][j]].prev == link_prev(u.kids[p], j)
        }) by {
            assert(isk(t, p, j));
        }
        assert forall|i: int| #![trigger s2[i]] #![trigger u.parent[i]] tl(u, i) && u.parent[i] is None implies s2[i].parent is None && s2[i].next is None && s2[i].prev == Some(i) by {
            if i < n { assert(s[i].parent is None || t.parent[i] is Some); assert(s[i] == s2[i]); }
        }
        assert forall|i: int| #![trigger s2[i]] 0 <= i < s2.len() && s2[i].prev is None implies s2[i] == nb_dead() by {
            if i < n { assert(s[i] == s2[i]); }
        }
        assert(rep(s2, u, ISet::empty()));
        lemma_abs(s2, u, ISet::empty());
    }

    // ------------------------------------------------------------------
    // The end of a move: a root is given its clean links again.
    pub proof fn lemma_reset(s: Raw, t: Tr, x: ISet<int>, n: int)
        requires
            rep(s, t, x),
            x.contains(n),
            forall|i: int| #![trigger x.contains(i)] x.contains(i) ==> i == n,
        ensures
            ({
                let s2 = s.update(n, Nb { parent: None, prev: Some(n), next: None, ..s[n] });
                wf(s2) && abs(s2) == t
            }),
    {
        let s2 = s.update(n, Nb { parent: None, prev: Some(n), next: None, ..s[n] });
        let e = ISet::<int>::empty();
        assert(tl(t, n) && t.parent[n] is None);
        assert(live(s, n)) by { lemma_liv(s, t, x); }
        assert forall|p: int, j: int| #![trigger isk(t, p, j)] isk(t, p, j) implies ({
            &&& s2[t.kids[p][j]].parent == Some(p)
            &&& s2[t.kids[p][j]].next == k_at(t.kids[p], j + 1)
            &&& s2[t.kids[p][j]].prev == link_prev(t.kids[p], j)
        }) by {
            assert(t.kids[p][j] != n);
        }
        assert forall|i: int| #![trigger s2[i]] #![trigger t.alive[i]] 0 <= i < s2.len() implies (s2[i].prev is Some <==> t.alive[i]) by {
            assert(s[i].prev is Some <==> t.alive[i]);
        }
        assert forall|i: int| #![trigger s2[i]] #![trigger t.kids[i]] tl(t, i) implies s2[i].first == k_first(t.kids[i]) by {
            assert(s[i].first == k_first(t.kids[i]));
        }
        assert forall|i: int| #![trigger s2[i]] #![trigger t.parent[i]] tl(t, i) && t.parent[i] is None implies s2[i].parent is None && s2[i].next is None && s2[i].prev == Some(i) by {
            if i != n { assert(!x.contains(i)); assert(s[i].parent is None); }
        }
        assert forall|i: int| #![trigger s2[i]] 0 <= i < s2.len() && s2[i].prev is None implies s2[i] == nb_dead() by {
            assert(s[i].prev is None);
        }
        assert(rep(s2, t, e));
        lemma_abs(s2, t, e);
    }

    /// A live node of consistent links is a range of its own.
    pub proof fn lemma_single(s: Raw, n: int)
        requires
            wf(s),
            live(s, n),
        ensures
            range_ok(s, n, n),
            live(s, s[n].prev->0),
            olive(s, s[n].first),
            olive(s, s[n].parent),
            olive(s, s[n].next),
            s[n].parent == abs(s).parent[n],
            s[n].next == next_of(abs(s), n),
            (if s[s[n].prev->0].next is Some { s[n].prev } else { None }) == prev_of(abs(s), n),
            loose(s) =~= ISet::<int>::empty(),
            tl(abs(s), n),
            s[n].first == k_first(abs(s).kids[n]),
            s[n].first is Some ==> s[s[n].first->0].prev == k_last(abs(s).kids[n]),
            abs(s).kids[n].len() > 0 ==> tl(abs(s), abs(s).kids[n][0]) && tl(abs(s), abs(s).kids[n].last()),
            s.len() == abs(s).alive.len(),
    {
        lemma_wf(s);
        let t = abs(s);
        lemma_liv(s, t, loose(s));
        lemma_range(s, n, n);
        assert(s[n].first == k_first(t.kids[n]));
        if t.kids[n].len() > 0 {
            assert(isk(t, n, 0) && isk(t, n, t.kids[n].len() - 1));
        }
        if t.parent[n] is Some {
            lemma_pos(t, n);
            let q = t.parent[n]->0;
            let j = pos(t, n);
            if j + 1 < t.kids[q].len() { assert(isk(t, q, j + 1)); }
        }
    }

    pub proof fn lemma_detach(s: Raw, n: int)
        requires
            wf(s),
            live(s, n),
        ensures
            ({
                let t = abs(s);
                let s1 = ct(s, t.parent[n], prev_of(t, n), next_of(t, n));
                let s2 = s1.update(n, Nb { parent: None, prev: Some(n), next: None, ..s1[n] });
                &&& ct_pre(s, t.parent[n], prev_of(t, n), next_of(t, n))
                &&& live(s1, n)
                &&& t.parent[n] is Some ==> wf(s2) && abs(s2) == t_detach(t, n)
                &&& t.parent[n] is None ==> t_detach(t, n) == t
            }),
    {
        let t = abs(s);
        let s1 = ct(s, t.parent[n], prev_of(t, n), next_of(t, n));
        lemma_single(s, n);
        lemma_take_out(s, n, n);
        let x = loose(s).union(rset(rng(t, n, n)));
        lemma_liv(s1, t_cut(t, n, n), x);
        lemma_range(s, n, n);
        if t.parent[n] is Some {
            let r = rng(t, n, n);
            assert(r.len() == 1 && r[0] == n);
            assert(x.contains(n)) by { assert(r.contains(n)); }
            lemma_reset(s1, t_cut(t, n, n), x, n);
        }
    }

    pub open spec fn dst_prev(t: Tr, d: Dst) -> Option<int> {
        match d {
            Dst::First(p) => None,
            Dst::Last(p) => k_last(t.kids[p]),
            Dst::Before(m) => prev_of(t, m),
            Dst::After(m) => Some(m),
        }
    }

    pub open spec fn dst_next(t: Tr, d: Dst) -> Option<int> {
        match d {
            Dst::First(p) => k_first(t.kids[p]),
            Dst::Last(p) => None,
            Dst::Before(m) => Some(m),
            Dst::After(m) => next_of(t, m),
        }
    }

    /// Index of the destination.
    proof fn lemma_dest(t: Tr, d: Dst)
        requires
            tw(t),
            tl(t, anchor(d)),
            dst_parent(t, d) is Some,
        ensures
            ({
                let p = dst_parent(t, d)->0;
                &&& tl(t, p)
                &&& d is Before || d is After ==> 0 <= pos(t, anchor(d)) < t.kids[p].len() && t.kids[p][pos(t, anchor(d))] == anchor(d)
                &&& dest(t, p, dst_next(t, d)) == (match d {
                    Dst::First(_) => 0,
                    Dst::Last(_) => t.kids[p].len() as int,
                    Dst::Before(_) => pos(t, anchor(d)),
                    Dst::After(_) => pos(t, anchor(d)) + 1,
                })
                &&& dst_next(t, d) is Some ==> tl(t, dst_next(t, d)->0) && t.parent[dst_next(t, d)->0] == Some(p)
                &&& dst_prev(t, d) == k_before(t.kids[p], dest(t, p, dst_next(t, d)))
            }),
    {
        let p = dst_parent(t, d)->0;
        let m = anchor(d);
        let kk = t.kids[p];
        if d is Before || d is After {
            lemma_pos(t, m);
            let j = pos(t, m);
            assert(isk(t, p, j));
            if j + 1 < kk.len() {
                assert(isk(t, p, j + 1));
                lemma_pos_of(t, p, j + 1);
            }
        } else {
            if kk.len() > 0 {
                assert(isk(t, p, 0));
                lemma_pos_of(t, p, 0);
            }
        }
    }

    proof fn lemma_insert_tree(t: Tr, n: int, d: Dst)
        requires
            tw(t),
            tl(t, n),
            tl(t, anchor(d)),
            d is Before || d is After ==> n != anchor(d),
            dst_parent(t, d) is Some,
        ensures
            t_move(t, n, n, dst_parent(t, d)->0, dest(t, dst_parent(t, d)->0, dst_next(t, d))) == t_insert(t, n, d),
    {
        let p = dst_parent(t, d)->0;
        let m = anchor(d);
        lemma_dest(t, d);
        let k = dest(t, p, dst_next(t, d));
        let u = t_detach(t, n);
        assert(t_cut(t, n, n) == u);
        let k1 = dest_cut(t, n, n, p, k);
        if t.parent[n] is Some {
            let q = t.parent[n]->0;
            let a = pos(t, n);
            lemma_pos(t, n);
            lemma_cut_tw(t, q, a, a + 1);
            assert(t.kids[q].subrange(a, a + 1) =~= seq![n]);
        }
        assert(rng(t, n, n) =~= seq![n]);
        if d is Before || d is After {
            assert(u.parent[m] == Some(p));
            let j = pos(t, m);
            let j1 = if t.parent[n] == Some(p) && pos(t, n) < j { j - 1 } else { j };
            assert(isk(u, p, j1));
            assert(u.kids[p][j1] == m);
            lemma_pos_of(u, p, j1);
        }
    }

    /// Insertion of a subtree is a move of the node alone.
    pub proof fn lemma_insert(s: Raw, n: int, d: Dst)
        requires
            wf(s),
            live(s, n),
            live(s, anchor(d)),
            d is Before || d is After ==> n != anchor(d),
            dst_parent(abs(s), d) is Some,
        ensures
            ({
                let t = abs(s);
                let p = dst_parent(t, d)->0;
                &&& live(s, p)
                &&& range_ok(s, n, n)
                &&& parent_ok(s, n, n, p)
                &&& place_ok(s, n, n, p, dst_prev(t, d), dst_next(t, d))
                &&& t_move(t, n, n, p, dest(t, p, dst_next(t, d))) == t_insert(t, n, d)
                &&& loose(s) == ISet::<int>::empty()
            }),
    {
        hide(rep);
        hide(t_move);
        hide(t_insert);
        let t = abs(s);
        lemma_single(s, n);
        lemma_single(s, anchor(d));
        lemma_wf(s);
        assert(loose(s) =~= ISet::<int>::empty());
        lemma_rep_tw(s, t, loose(s));
        lemma_dest(t, d);
        lemma_insert_tree(t, n, d);
        lemma_liv(s, t, loose(s));
    }

    proof fn lemma_rep_tw(s: Raw, t: Tr, x: ISet<int>)
        requires
            rep(s, t, x),
        ensures
            tw(t),
    {
    }

    pub open spec fn s_out(s: Raw, n: int) -> Raw {
        ct(s, abs(s).parent[n], prev_of(abs(s), n), next_of(abs(s), n))
    }

    /// A node taken out of its siblings, before its own links are reset.
    proof fn lemma_out(s: Raw, n: int)
        requires
            wf(s),
            live(s, n),
            abs(s).parent[n] is Some,
        ensures
            abs(s_out(s, n)) == t_detach(abs(s), n),
            rep(s_out(s, n), abs(s_out(s, n)), loose(s_out(s, n))),
            loose(s_out(s, n)) =~= ISet::<int>::empty().insert(n),
            live(s_out(s, n), n),
    {
        let t = abs(s);
        let p = t.parent[n]->0;
        let s1 = s_out(s, n);
        let u = t_detach(t, n);
        lemma_single(s, n);
        lemma_range(s, n, n);
        lemma_take_out(s, n, n);
        lemma_wf(s);
        let r = rng(t, n, n);
        let x = loose(s).union(rset(r));
        assert(r.len() == 1 && r[0] == n);
        assert(x =~= ISet::<int>::empty().insert(n)) by {
            assert(r.contains(n));
        }
        assert(t_cut(t, n, n) == u);
        lemma_abs(s1, u, x);
        lemma_liv(s1, u, x);
        lemma_cut_fields(s, t, ISet::empty(), p, pos(t, n), pos(t, n) + 1);
        assert(s1[n].parent == s[n].parent);
        assert forall|i: int| loose(s1).contains(i) <==> i == n by {
            if loose(s1).contains(i) && i != n {
                assert(s1[i].parent is None) by { assert(!x.contains(i)); }
            }
            if i == n {
                assert(x.contains(n));
            }
        }
        assert(loose(s1) =~= x);
    }

    proof fn lemma_single_tree(t: Tr, n: int)
        requires
            tw(t),
            tl(t, n),
            t.parent[n] is Some,
            t.kids[n].len() > 0,
        ensures
            ({
                let p = t.parent[n]->0;
                let u = t_detach(t, n);
                let f = t.kids[n][0];
                let l = t.kids[n].last();
                &&& tw(u)
                &&& u.kids[n] == t.kids[n]
                &&& u.alive == t.alive
                &&& tl(u, f) && tl(u, l) && tl(u, p) && p != n
                &&& u.parent[n] is None
                &&& u.parent[f] == Some(n) && u.parent[l] == Some(n)
                &&& pos(u, f) == 0 && pos(u, l) == t.kids[n].len() - 1
                &&& !anc(u, n, p) && !anc(u, f, p)
                &&& dest(u, p, next_of(t, n)) == pos(t, n)
                &&& next_of(t, n) is Some ==> tl(u, next_of(t, n)->0) && u.parent[next_of(t, n)->0] == Some(p)
                &&& prev_of(t, n) == k_before(u.kids[p], pos(t, n))
                &&& t_move(u, f, l, p, pos(t, n)) == t_detach_single(t, n)
                &&& t_detach_single(t, n).kids[n].len() == 0
            }),
    {
        let p = t.parent[n]->0;
        let u = t_detach(t, n);
        let ks = t.kids[n];
        let f = ks[0];
        let l = ks.last();
        let a = pos(t, n);
        lemma_pos(t, n);
        lemma_cut_tw(t, p, a, a + 1);
        lemma_subrange(t, p, a, a + 1);
        assert(t.kids[p].subrange(a, a + 1) =~= seq![n]);
        assert(u.parent[n] is None) by { assert(t.kids[p].subrange(a, a + 1).contains(t.kids[p][a])); }
        assert(isk(u, n, 0) && isk(u, n, ks.len() - 1));
        lemma_pos_of(u, n, 0);
        lemma_pos_of(u, n, ks.len() - 1);
        if anc(u, n, p) {
            lemma_anc_sub(t, u, n, p);
            lemma_anc_dep(t, n, p);
            lemma_dep(t, n);
        }
        if anc(u, f, p) {
            lemma_anc_up(u, f, n, p);
        }
        if a + 1 < t.kids[p].len() {
            assert(isk(t, p, a + 1));
            assert(isk(u, p, a));
            assert(u.kids[p][a] == t.kids[p][a + 1]);
            lemma_pos_of(u, p, a);
        }
        assert(ks.subrange(0, ks.len() as int) =~= ks);
        assert(rng(u, f, l) == ks);
    }

    pub proof fn lemma_detach_single(s: Raw, n: int)
        requires
            wf(s),
            live(s, n),
            abs(s).parent[n] is Some,
            abs(s).kids[n].len() > 0,
        ensures
            ({
                let t = abs(s);
                let p = t.parent[n]->0;
                let s1 = s_out(s, n);
                let f = t.kids[n][0];
                let l = t.kids[n].last();
                &&& range_ok(s1, f, l)
                &&& parent_ok(s1, f, l, p)
                &&& place_ok(s1, f, l, p, prev_of(t, n), next_of(t, n))
                &&& !anc(abs(s1), f, p)
                &&& t_move(abs(s1), f, l, p, dest(abs(s1), p, next_of(t, n))) == t_detach_single(t, n)
                &&& forall|z: Raw| #![trigger rep(z, t_detach_single(t, n), loose(s1))] rep(z, t_detach_single(t, n), loose(s1)) ==> {
                    let z2 = z.update(n, Nb { parent: None, prev: Some(n), next: None, ..z[n] });
                    live(z, n) && z[n].first is None && wf(z2) && abs(z2) == t_detach_single(t, n)
                }
            }),
    {
        hide(t_move);
        hide(t_detach_single);
        let t = abs(s);
        let p = t.parent[n]->0;
        let s1 = s_out(s, n);
        let u = abs(s1);
        let f = t.kids[n][0];
        let l = t.kids[n].last();
        lemma_single(s, n);
        lemma_out(s, n);
        lemma_single_tree(t, n);
        let t2 = t_detach_single(t, n);
        assert forall|z: Raw| #![trigger rep(z, t2, loose(s1))] rep(z, t2, loose(s1)) implies ({
            let z2 = z.update(n, Nb { parent: None, prev: Some(n), next: None, ..z[n] });
            live(z, n) && z[n].first is None && wf(z2) && abs(z2) == t2
        }) by {
            assert(loose(s1).contains(n));
            assert(tl(t2, n));
            lemma_liv(z, t2, loose(s1));
            assert(z[n].first == k_first(t2.kids[n]));
            lemma_reset(z, t2, loose(s1), n);
        }
    }

    /// A root with one child.
    pub proof fn lemma_single_root(s: Raw, n: int)
        requires
            wf(s),
            live(s, n),
            abs(s).parent[n] is None,
            abs(s).kids[n].len() == 1,
        ensures
            ({
                let t = abs(s);
                let c = t.kids[n][0];
                &&& live(s, c)
                &&& t_detach(t, c) == t_detach_single(t, n)
                &&& t_detach(t_detach(t, c), n) == t_detach(t, c)
                &&& tl(t_detach(t, c), n)
            }),
    {
        let t = abs(s);
        let c = t.kids[n][0];
        lemma_single(s, n);
        assert(isk(t, n, 0));
        lemma_pos_of(t, n, 0);
        lemma_wf(s);
    }

    pub proof fn lemma_ends_differ(s: Raw, n: int)
        requires
            wf(s),
            live(s, n),
            abs(s).kids[n].len() > 1,
        ensures
            abs(s).kids[n][0] != abs(s).kids[n].last(),
    {
        let t = abs(s);
        lemma_wf(s);
        assert(isk(t, n, 0) && isk(t, n, t.kids[n].len() - 1));
    }

    pub proof fn lemma_wf_all()
        ensures
            forall|s: Raw, i: int| #![trigger wf(s), live(s, i)] #![trigger wf(s), tl(abs(s), i)] wf(s) ==> (live(s, i) <==> tl(abs(s), i)),
    {
        assert forall|s: Raw, i: int| #![trigger wf(s), live(s, i)] #![trigger wf(s), tl(abs(s), i)] wf(s) implies (live(s, i) <==> tl(abs(s), i)) by {
            lemma_liv(s, abs(s), ISet::empty());
        }
    }

    pub proof fn lemma_wf_empty()
        ensures
            forall|s: Raw| #![trigger wf(s)] s.len() == 0 ==> wf(s),
    {
        assert forall|s: Raw| #![trigger wf(s)] s.len() == 0 implies wf(s) by {
            let t = Tr { alive: Seq::empty(), parent: Seq::empty(), kids: Seq::empty() };
            let r = |i: int| 0nat;
            assert(ranked(t, r, 0));
            assert(rep(s, t, ISet::empty()));
            lemma_abs(s, t, ISet::empty());
        }
    }
}
