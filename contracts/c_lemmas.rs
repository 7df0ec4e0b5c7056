pub mod lem {
    use vstd::prelude::*;
    use crate::spec::*;
    pub use crate::mv::*;
    pub use crate::fo::*;
    pub use crate::wk::*;
    pub use crate::bf::*;
    pub use crate::rm::*;
    pub use crate::cp::*;
    pub use crate::bd::*;

    /// Facts about a range of children.
    pub proof fn lemma_subrange(t: Tr, p: int, a: int, b: int)
        requires
            tw(t),
            tl(t, p),
            0 <= a <= b <= t.kids[p].len(),
        ensures
            forall|j: int| #![trigger t.kids[p][j]] 0 <= j < t.kids[p].len() ==> (t.kids[p].subrange(a, b).contains(t.kids[p][j]) <==> a <= j < b),
            forall|i: int| #![trigger t.kids[p].subrange(a, b).contains(i)] t.kids[p].subrange(a, b).contains(i) ==> tl(t, i) && t.parent[i] == Some(p) && i != p,
    {
        let k = t.kids[p];
        let r = k.subrange(a, b);
        assert forall|j: int| #![trigger k[j]] 0 <= j < k.len() implies (r.contains(k[j]) <==> a <= j < b) by {
            if a <= j < b {
                assert(r[j - a] == k[j]);
            }
            if r.contains(k[j]) {
                let q = choose|q: int| 0 <= q < r.len() && r[q] == k[j];
                assert(isk(t, p, q + a) && isk(t, p, j));
                assert(k[q + a] == k[j]);
            }
        }
        assert forall|i: int| #![trigger r.contains(i)] r.contains(i) implies tl(t, i) && t.parent[i] == Some(p) && i != p by {
            let q = choose|q: int| 0 <= q < r.len() && r[q] == i;
            assert(isk(t, p, q + a));
            assert(k[q + a] == i);
            lemma_not_own_parent(t, i);
        }
    }

    pub proof fn lemma_not_own_parent(t: Tr, i: int)
        requires
            acyc(t),
            tl(t, i),
        ensures
            t.parent[i] != Some(i),
    {
        let (r, m) = choose|r: spec_fn(int) -> nat, m: nat| ranked(t, r, m);
        if t.parent[i] == Some(i) {
            assert(r(i) < r(t.parent[i]->0));
        }
    }

    pub proof fn lemma_pos(t: Tr, i: int)
        requires
            tw(t),
            tl(t, i),
            t.parent[i] is Some,
        ensures
            is_pos(t, i, pos(t, i)),
            tl(t, t.parent[i]->0),
            0 <= pos(t, i) < t.kids[t.parent[i]->0].len(),
            t.kids[t.parent[i]->0][pos(t, i)] == i,
            t.parent[i]->0 != i,
    {
        lemma_not_own_parent(t, i);
        assert(has_pos(t, i));
    }

    pub proof fn lemma_pos_of(t: Tr, p: int, j: int)
        requires
            tw(t),
            isk(t, p, j),
        ensures
            pos(t, t.kids[p][j]) == j,
    {
        let c = t.kids[p][j];
        assert(tl(t, c) && t.parent[c] == Some(p));
        assert(is_pos(t, c, j));
        assert(is_pos(t, c, pos(t, c)));
        assert(t.kids[p][pos(t, c)] == t.kids[p][j]);
    }

    /// A forest without some parent links is still acyclic.
    pub proof fn lemma_acyc_sub(t: Tr, u: Tr)
        requires
            acyc(t),
            u.alive.len() == t.alive.len(),
            forall|i: int| #![trigger u.parent[i]] tl(u, i) && u.parent[i] is Some ==> tl(t, i) && t.parent[i] == u.parent[i],
        ensures
            acyc(u),
    {
        let (r, m) = choose|r: spec_fn(int) -> nat, m: nat| ranked(t, r, m);
        assert(ranked(u, r, m)) by {
            assert forall|i: int| #![trigger u.parent[i]] tl(u, i) && u.parent[i] is Some implies r(i) < r(u.parent[i]->0) by {
                assert(r(i) < r(t.parent[i]->0));
            }
        }
    }

    pub proof fn lemma_cut_tw(t: Tr, p: int, a: int, b: int)
        requires
            tw(t),
            tl(t, p),
            0 <= a <= b <= t.kids[p].len(),
        ensures
            tw(cut(t, p, a, b)),
    {
        let u = cut(t, p, a, b);
        let k = t.kids[p];
        let k2 = u.kids[p];
        let r = k.subrange(a, b);
        lemma_subrange(t, p, a, b);
        assert(k2.len() == k.len() - (b - a));
        assert forall|j: int| #![trigger k2[j]] 0 <= j < k2.len() implies k2[j] == (if j < a { k[j] } else { k[j + (b - a)] }) by {}
        assert forall|q: int, j: int| #![trigger isk(u, q, j)] isk(u, q, j) implies tl(u, u.kids[q][j]) && u.parent[u.kids[q][j]] == Some(q) by {
            let c = u.kids[q][j];
            if q == p {
                let jj = if j < a { j } else { j + (b - a) };
                assert(c == k[jj]);
                assert(isk(t, p, jj));
                assert(!r.contains(c));
            } else {
                assert(isk(t, q, j));
                assert(t.kids[q][j] == c);
                assert(t.parent[c] == Some(q));
                assert(!r.contains(c));
            }
        }
        assert forall|q: int, j: int, l: int| #![trigger isk(u, q, j), isk(u, q, l)] isk(u, q, j) && isk(u, q, l) && j != l implies u.kids[q][j] != u.kids[q][l] by {
            if q == p {
                let jj = if j < a { j } else { j + (b - a) };
                let ll = if l < a { l } else { l + (b - a) };
                assert(isk(t, p, jj) && isk(t, p, ll) && jj != ll);
                assert(k[jj] != k[ll]);
            } else {
                assert(isk(t, q, j) && isk(t, q, l));
                assert(t.kids[q][j] != t.kids[q][l]);
            }
        }
        assert forall|i: int| #![trigger u.parent[i]] tl(u, i) && u.parent[i] is Some implies tl(u, u.parent[i]->0) by {
            assert(t.parent[i] == u.parent[i]);
        }
        assert forall|i: int| #![trigger has_pos(u, i)] tl(u, i) && u.parent[i] is Some implies has_pos(u, i) by {
            assert(!r.contains(i));
            assert(t.parent[i] == u.parent[i]);
            let q = t.parent[i]->0;
            lemma_pos(t, i);
            let j = pos(t, i);
            if q == p {
                assert(k[j] == i);
                let jj = if j < a { j } else { j - (b - a) };
                assert(k2[jj] == i);
                assert(is_pos(u, i, jj));
            } else {
                assert(is_pos(u, i, j));
            }
        }
        assert forall|i: int| #![trigger u.kids[i]] #![trigger u.parent[i]] 0 <= i < u.alive.len() && !u.alive[i] implies u.parent[i] is None && u.kids[i].len() == 0 by {
            assert(t.parent[i] is None && t.kids[i].len() == 0);
        }
        lemma_acyc_sub(t, u);
    }

    /// Fields after `connect_triangle` around a range of children.
    pub open spec fn cut_fields(s: Raw, t: Tr, p: int, a: int, b: int, s3: Raw) -> bool {
        let k = t.kids[p];
        let n = k.len() as int;
        &&& s3.len() == s.len()
        &&& forall|i: int| #![trigger s3[i]] 0 <= i < s.len() ==> {
            &&& s3[i].parent == s[i].parent
            &&& s3[i].first == (if i == p && a == 0 { k_at(k, b) } else { s[i].first })
            &&& s3[i].next == (if a > 0 && i == k[a - 1] { k_at(k, b) } else { s[i].next })
            &&& s3[i].prev == (if b < n && i == k[b] {
                Some(if a > 0 { k[a - 1] } else { k[n - 1] })
            } else if b == n && a > 0 && i == k[0] {
                Some(k[a - 1])
            } else {
                s[i].prev
            })
        }
    }

    pub proof fn lemma_cut_fields(s: Raw, t: Tr, x: ISet<int>, p: int, a: int, b: int)
        requires
            rep(s, t, x),
            tl(t, p),
            0 <= a < b <= t.kids[p].len(),
        ensures
            ct_pre(s, Some(p), k_before(t.kids[p], a), k_at(t.kids[p], b)),
            cut_fields(s, t, p, a, b, ct(s, Some(p), k_before(t.kids[p], a), k_at(t.kids[p], b))),
    {
        let k = t.kids[p];
        let n = k.len() as int;
        let pr = k_before(k, a);
        let nx = k_at(k, b);
        let s1 = ct1(s, Some(p), pr, nx);
        let s2 = ct2(s1, Some(p), pr, nx);
        let s3 = ct3(s2, Some(p), pr, nx);
        assert(isk(t, p, 0) && isk(t, p, n - 1) && isk(t, p, a));
        assert(a > 0 ==> isk(t, p, a - 1));
        assert(b < n ==> isk(t, p, b));
        lemma_not_own_parent(t, k[0]);
        lemma_not_own_parent(t, k[n - 1]);
        if a > 0 { lemma_not_own_parent(t, k[a - 1]); }
        if b < n { lemma_not_own_parent(t, k[b]); }
        assert(s[p].first == Some(k[0]));
        assert(s[k[0]].prev == Some(k[n - 1]));
        assert(live(s, k[0]) && live(s, p));
        if a > 0 { assert(live(s, k[a - 1])); }
        if b < n { assert(live(s, k[b])); }
        if a > 0 && b < n { assert(k[a - 1] != k[b]); }
        assert(raw_last(s1, p) == Some(k[n - 1]));
        assert(s2[p].first == Some(k[0]));
    }

    /// Connecting the nodes around a range of children takes the range out.
    pub proof fn lemma_cut(s: Raw, t: Tr, x: ISet<int>, p: int, a: int, b: int, s3: Raw)
        requires
            rep(s, t, x),
            tl(t, p),
            0 <= a < b <= t.kids[p].len(),
            cut_fields(s, t, p, a, b, s3),
        ensures
            rep(s3, cut(t, p, a, b), x.union(t.kids[p].subrange(a, b).to_set().to_iset())),
    {
        let k = t.kids[p];
        let n = k.len() as int;
        let u = cut(t, p, a, b);
        let r = k.subrange(a, b);
        let k2 = u.kids[p];
        let y = x.union(r.to_set().to_iset());
        lemma_subrange(t, p, a, b);
        lemma_cut_tw(t, p, a, b);
        assert(isk(t, p, 0) && isk(t, p, n - 1) && isk(t, p, a));
        assert(a > 0 ==> isk(t, p, a - 1));
        assert(b < n ==> isk(t, p, b));
        assert(k2.len() == n - (b - a));
        assert(forall|i: int| #![trigger y.contains(i)] y.contains(i) <==> x.contains(i) || r.contains(i));
        assert forall|j: int| #![trigger k2[j]] 0 <= j < k2.len() implies k2[j] == (if j < a { k[j] } else { k[j + (b - a)] }) by {}
        assert forall|i: int| #![trigger y.contains(i)] y.contains(i) implies tl(u, i) && u.parent[i] is None by {
            if r.contains(i) {} else { assert(x.contains(i)); }
        }
        assert forall|i: int| #![trigger s3[i]] #![trigger u.alive[i]] 0 <= i < s3.len() implies (s3[i].prev is Some <==> u.alive[i]) by {
            assert(s[i].prev is Some <==> t.alive[i]);
        }
        assert forall|i: int| #![trigger s3[i]] #![trigger u.kids[i]] tl(u, i) implies s3[i].first == k_first(u.kids[i]) by {
            assert(s[i].first == k_first(t.kids[i]));
            if i == p {
                if a > 0 { assert(k2[0] == k[0]); } else if b < n { assert(k2[0] == k[b]); }
            }
        }
        assert forall|q: int, j: int| #![trigger isk(u, q, j)] isk(u, q, j) implies {
            &&& s3[u.kids[q][j]].parent == Some(q)
            &&& s3[u.kids[q][j]].next == k_at(u.kids[q], j + 1)
            &&& s3[u.kids[q][j]].prev == link_prev(u.kids[q], j)
        } by {
            let c = u.kids[q][j];
            if q == p {
                let jj = if j < a { j } else { j + (b - a) };
                assert(c == k[jj]);
                assert(isk(t, p, jj));
                if a > 0 { assert(c == k[a - 1] <==> jj == a - 1); }
                if b < n { assert(c == k[b] <==> jj == b); }
                assert(c == k[0] <==> jj == 0);
                if j + 1 < k2.len() { assert(k2[j + 1] == (if j + 1 < a { k[j + 1] } else { k[j + 1 + (b - a)] })); }
                if j > 0 { assert(k2[j - 1] == (if j - 1 < a { k[j - 1] } else { k[j - 1 + (b - a)] })); }
                assert(k2[k2.len() - 1] == (if b < n { k[n - 1] } else { k[a - 1] }));
            } else {
                assert(isk(t, q, j));
                assert(t.kids[q][j] == c);
                assert(t.parent[c] == Some(q));
                assert(u.kids[q] == t.kids[q]);
            }
        }
        assert forall|i: int| #![trigger s3[i]] #![trigger u.parent[i]] tl(u, i) && u.parent[i] is None && !y.contains(i) implies s3[i].parent is None && s3[i].next is None && s3[i].prev == Some(i) by {
            assert(!r.contains(i));
            assert(t.parent[i] is None && !x.contains(i));
        }
        assert forall|i: int| #![trigger s3[i]] 0 <= i < s3.len() && s3[i].prev is None implies s3[i] == nb_dead() by {
            assert(s[i].prev is None);
            assert(t.kids[i].len() == 0 && !t.alive[i]);
        }
    }

    /// `r` is a list of distinct roots, none of which is `p`.
    pub open spec fn roots_list(t: Tr, r: Seq<int>, p: int) -> bool {
        &&& r.len() > 0
        &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> tl(t, r[i]) && t.parent[r[i]] is None && r[i] != p
        &&& forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && i != j ==> r[i] != r[j]
    }

    pub proof fn lemma_paste_tw(t: Tr, r: Seq<int>, p: int, k: int)
        requires
            tw(t),
            tl(t, p),
            roots_list(t, r, p),
            0 <= k <= t.kids[p].len(),
            acyc(paste(t, r, p, k)),
        ensures
            tw(paste(t, r, p, k)),
    {
        let u = paste(t, r, p, k);
        let kk = t.kids[p];
        let k2 = u.kids[p];
        let m = r.len() as int;
        assert(k2.len() == kk.len() + m);
        assert forall|j: int| #![trigger k2[j]] 0 <= j < k2.len() implies k2[j] == (if j < k { kk[j] } else if j < k + m { r[j - k] } else { kk[j - m] }) by {}
        assert forall|q: int, j: int| #![trigger isk(u, q, j)] isk(u, q, j) implies tl(u, u.kids[q][j]) && u.parent[u.kids[q][j]] == Some(q) by {
            let c = u.kids[q][j];
            if q == p && k <= j < k + m {
                assert(c == r[j - k]);
                assert(r.contains(c));
            } else {
                let jj = if q != p || j < k { j } else { j - m };
                assert(isk(t, q, jj));
                assert(c == t.kids[q][jj]);
            }
        }
        assert forall|q: int, j: int, l: int| #![trigger isk(u, q, j), isk(u, q, l)] isk(u, q, j) && isk(u, q, l) && j != l implies u.kids[q][j] != u.kids[q][l] by {
            if q == p {
                let jj = if j < k { j } else { j - m };
                let ll = if l < k { l } else { l - m };
                if k <= j < k + m {
                    assert(k2[j] == r[j - k]);
                    if k <= l < k + m {
                        assert(k2[l] == r[l - k]);
                    } else {
                        assert(isk(t, p, ll));
                    }
                } else {
                    assert(isk(t, p, jj));
                    if k <= l < k + m {
                        assert(k2[l] == r[l - k]);
                    } else {
                        assert(isk(t, p, ll));
                    }
                }
            } else {
                assert(isk(t, q, j) && isk(t, q, l));
            }
        }
        assert forall|i: int| #![trigger u.parent[i]] tl(u, i) && u.parent[i] is Some implies tl(u, u.parent[i]->0) by {
            if !r.contains(i) {
                assert(t.parent[i] == u.parent[i]);
            }
        }
        assert forall|i: int| #![trigger has_pos(u, i)] tl(u, i) && u.parent[i] is Some implies has_pos(u, i) by {
            if r.contains(i) {
                let j = choose|j: int| 0 <= j < r.len() && r[j] == i;
                assert(k2[k + j] == r[j]);
                assert(is_pos(u, i, k + j));
            } else {
                assert(t.parent[i] == u.parent[i]);
                lemma_pos(t, i);
                let j = pos(t, i);
                if t.parent[i]->0 == p {
                    let jj = if j < k { j } else { j + m };
                    assert(k2[jj] == i);
                    assert(is_pos(u, i, jj));
                } else {
                    assert(is_pos(u, i, j));
                }
            }
        }
        assert forall|i: int| #![trigger u.kids[i]] #![trigger u.parent[i]] 0 <= i < u.alive.len() && !u.alive[i] implies u.parent[i] is None && u.kids[i].len() == 0 by {
            assert(t.parent[i] is None && t.kids[i].len() == 0);
            if r.contains(i) {
                let j = choose|j: int| 0 <= j < r.len() && r[j] == i;
                assert(tl(t, r[j]));
            }
        }
    }

    /// `r` is linked as a run of siblings, with `p` as the parent.
    pub open spec fn linked(s: Raw, r: Seq<int>) -> bool {
        &&& forall|i: int| #![trigger inr(r, i)] inr(r, i) && i < r.len() - 1 ==> s[r[i]].next == Some(r[i + 1])
        &&& forall|i: int| #![trigger inr(r, i)] inr(r, i) && i > 0 ==> s[r[i]].prev == Some(r[i - 1])
    }

    pub open spec fn inr(r: Seq<int>, i: int) -> bool {
        0 <= i < r.len()
    }

    pub open spec fn paste_fields(s: Raw, t: Tr, r: Seq<int>, p: int, k: int, s4: Raw) -> bool {
        let kk = t.kids[p];
        let n = kk.len() as int;
        let f = r[0];
        let l = r[r.len() - 1];
        &&& s4.len() == s.len()
        &&& forall|i: int| #![trigger s4[i]] 0 <= i < s.len() ==> {
            &&& s4[i].parent == (if i == f || i == l { Some(p) } else { s[i].parent })
            &&& s4[i].first == (if i == p && k == 0 { Some(f) } else { s[i].first })
            &&& s4[i].next == (if k > 0 && i == kk[k - 1] { Some(f) } else if i == l { k_at(kk, k) } else { s[i].next })
            &&& s4[i].prev == (if i == f {
                Some(if k > 0 { kk[k - 1] } else if n > 0 { kk[n - 1] } else { l })
            } else if k < n && i == kk[k] {
                Some(l)
            } else if k == n && n > 0 && i == kk[0] {
                Some(l)
            } else {
                s[i].prev
            })
        }
    }

    pub proof fn lemma_paste_fields(s: Raw, t: Tr, y: ISet<int>, r: Seq<int>, p: int, k: int)
        requires
            rep(s, t, y),
            tl(t, p),
            roots_list(t, r, p),
            0 <= k <= t.kids[p].len(),
        ensures
            ({
                let f = r[0];
                let l = r[r.len() - 1];
                let pr = k_before(t.kids[p], k);
                let nx = k_at(t.kids[p], k);
                let s3 = ct(s, Some(p), pr, Some(f));
                &&& ct_pre(s, Some(p), pr, Some(f))
                &&& ct_pre(s3, Some(p), Some(l), nx)
                &&& paste_fields(s, t, r, p, k, ct(s3, Some(p), Some(l), nx))
            }),
    {
        let kk = t.kids[p];
        let n = kk.len() as int;
        let f = r[0];
        let l = r[r.len() - 1];
        let pr = k_before(kk, k);
        let nx = k_at(kk, k);
        let s1 = ct1(s, Some(p), pr, Some(f));
        let s2 = ct2(s1, Some(p), pr, Some(f));
        let s3 = ct3(s2, Some(p), pr, Some(f));
        let s4 = ct1(s3, Some(p), Some(l), nx);
        let s5 = ct2(s4, Some(p), Some(l), nx);
        let s6 = ct3(s5, Some(p), Some(l), nx);
        assert(live(s, p) && live(s, f) && live(s, l));
        if n > 0 {
            assert(isk(t, p, 0) && isk(t, p, n - 1));
            lemma_not_own_parent(t, kk[0]);
            lemma_not_own_parent(t, kk[n - 1]);
            assert(s[p].first == Some(kk[0]));
            assert(live(s, kk[0]) && live(s, kk[n - 1]));
        } else {
            assert(s[p].first is None);
        }
        if k > 0 {
            assert(isk(t, p, k - 1));
            lemma_not_own_parent(t, kk[k - 1]);
            assert(live(s, kk[k - 1]));
        }
        if k < n {
            assert(isk(t, p, k));
            lemma_not_own_parent(t, kk[k]);
            assert(live(s, kk[k]));
        }
        assert(s3[p].first == (if k > 0 { Some(kk[0]) } else { Some(f) }));
    }

    proof fn lemma_paste_kids(s: Raw, t: Tr, y: ISet<int>, r: Seq<int>, p: int, k: int, s4: Raw)
        requires
            rep(s, t, y),
            tl(t, p),
            roots_list(t, r, p),
            0 <= k <= t.kids[p].len(),
            linked(s, r),
            forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> s[r[i]].parent == Some(p),
            paste_fields(s, t, r, p, k, s4),
        ensures
            forall|q: int, j: int| #![trigger isk(paste(t, r, p, k), q, j)] isk(paste(t, r, p, k), q, j) ==> {
                let u = paste(t, r, p, k);
                &&& s4[u.kids[q][j]].parent == Some(q)
                &&& s4[u.kids[q][j]].next == k_at(u.kids[q], j + 1)
                &&& s4[u.kids[q][j]].prev == link_prev(u.kids[q], j)
            },
    {
        let u = paste(t, r, p, k);
        let kk = t.kids[p];
        let k2 = u.kids[p];
        let n = kk.len() as int;
        let m = r.len() as int;
        let f = r[0];
        let l = r[m - 1];
        assert(k2.len() == n + m);
        assert(tl(t, f) && tl(t, l) && t.parent[f] is None && t.parent[l] is None);
        assert(forall|j: int| 0 <= j < k ==> k2[j] == kk[j]);
        assert(forall|j: int| k <= j < k + m ==> k2[j] == r[j - k]);
        assert(forall|j: int| k + m <= j < n + m ==> k2[j] == kk[j - m]);
        if n > 0 { assert(isk(t, p, 0) && isk(t, p, n - 1)); }
        if k > 0 { assert(isk(t, p, k - 1)); }
        if k < n { assert(isk(t, p, k)); }
        assert forall|q: int, j: int| #![trigger isk(u, q, j)] isk(u, q, j) implies ({
            &&& s4[u.kids[q][j]].parent == Some(q)
            &&& s4[u.kids[q][j]].next == k_at(u.kids[q], j + 1)
            &&& s4[u.kids[q][j]].prev == link_prev(u.kids[q], j)
        }) by {
            if q == p {
                if k <= j < k + m {
                    lemma_paste_in(s, t, y, r, p, k, s4, j);
                } else {
                    lemma_paste_out(s, t, y, r, p, k, s4, j);
                }
            } else {
                let c = u.kids[q][j];
                assert(isk(t, q, j));
                assert(t.kids[q][j] == c);
                assert(t.parent[c] == Some(q));
                assert(u.kids[q] == t.kids[q]);
                assert(c != f && c != l);
            }
        }
    }

    proof fn lemma_paste_in(s: Raw, t: Tr, y: ISet<int>, r: Seq<int>, p: int, k: int, s4: Raw, j: int)
        requires
            rep(s, t, y),
            tl(t, p),
            roots_list(t, r, p),
            0 <= k <= t.kids[p].len(),
            linked(s, r),
            forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> s[r[i]].parent == Some(p),
            paste_fields(s, t, r, p, k, s4),
            k <= j < k + r.len(),
        ensures
            ({
                let k2 = paste(t, r, p, k).kids[p];
                &&& s4[k2[j]].parent == Some(p)
                &&& s4[k2[j]].next == k_at(k2, j + 1)
                &&& s4[k2[j]].prev == link_prev(k2, j)
            }),
    {
        let kk = t.kids[p];
        let k2 = paste(t, r, p, k).kids[p];
        let n = kk.len() as int;
        let m = r.len() as int;
        let f = r[0];
        let l = r[m - 1];
        let jj = j - k;
        let c = r[jj];
        assert(k2.len() == n + m);
        assert(k2[j] == c);
        assert(inr(r, jj));
        assert(tl(t, c) && t.parent[c] is None);
        if n > 0 {
            assert(isk(t, p, 0) && isk(t, p, n - 1));
            assert(c != kk[0]);
        }
        if k > 0 {
            assert(isk(t, p, k - 1));
            assert(c != kk[k - 1]);
            assert(k2[k - 1] == kk[k - 1]);
        }
        if k < n {
            assert(isk(t, p, k));
            assert(c != kk[k]);
            assert(k2[k + m] == kk[k]);
            assert(k2[n + m - 1] == kk[n - 1]);
        } else {
            assert(k2[n + m - 1] == r[m - 1]);
        }
        if jj < m - 1 {
            assert(k2[j + 1] == r[jj + 1]);
            assert(c != l);
        }
        if jj > 0 {
            assert(k2[j - 1] == r[jj - 1]);
            assert(c != f);
        }
    }

    proof fn lemma_paste_out(s: Raw, t: Tr, y: ISet<int>, r: Seq<int>, p: int, k: int, s4: Raw, j: int)
        requires
            rep(s, t, y),
            tl(t, p),
            roots_list(t, r, p),
            0 <= k <= t.kids[p].len(),
            paste_fields(s, t, r, p, k, s4),
            0 <= j < k || k + r.len() <= j < t.kids[p].len() + r.len(),
        ensures
            ({
                let k2 = paste(t, r, p, k).kids[p];
                &&& s4[k2[j]].parent == Some(p)
                &&& s4[k2[j]].next == k_at(k2, j + 1)
                &&& s4[k2[j]].prev == link_prev(k2, j)
            }),
    {
        let kk = t.kids[p];
        let k2 = paste(t, r, p, k).kids[p];
        let n = kk.len() as int;
        let m = r.len() as int;
        let f = r[0];
        let l = r[m - 1];
        let jj = if j < k { j } else { j - m };
        let c = kk[jj];
        assert(k2.len() == n + m);
        assert(k2[j] == c);
        assert(isk(t, p, jj) && isk(t, p, 0) && isk(t, p, n - 1));
        assert(c != f && c != l);
        if k > 0 {
            assert(isk(t, p, k - 1));
            assert(c == kk[k - 1] <==> jj == k - 1);
        }
        if k < n {
            assert(isk(t, p, k));
            assert(c == kk[k] <==> jj == k);
            assert(k2[n + m - 1] == kk[n - 1]);
        } else {
            assert(k2[n + m - 1] == r[m - 1]);
        }
        assert(c == kk[0] <==> jj == 0);
        if j + 1 < k { assert(k2[j + 1] == kk[jj + 1]); }
        if j + 1 == k { assert(k2[j + 1] == r[0]); }
        if j >= k + m && j + 1 < n + m { assert(k2[j + 1] == kk[jj + 1]); }
        if 0 < j < k { assert(k2[j - 1] == kk[jj - 1]); }
        if j == k + m { assert(k2[j - 1] == r[m - 1]); }
        if j > k + m { assert(k2[j - 1] == kk[jj - 1]); }
    }

    pub proof fn lemma_paste(s: Raw, t: Tr, y: ISet<int>, x: ISet<int>, r: Seq<int>, p: int, k: int, s4: Raw)
        requires
            rep(s, t, y),
            tl(t, p),
            roots_list(t, r, p),
            0 <= k <= t.kids[p].len(),
            linked(s, r),
            forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> s[r[i]].parent == Some(p),
            forall|i: int| #![trigger y.contains(i)] #![trigger r.contains(i)] #![trigger x.contains(i)] y.contains(i) <==> x.contains(i) || r.contains(i),
            forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> !x.contains(r[i]),
            !x.contains(p),
            acyc(paste(t, r, p, k)),
            paste_fields(s, t, r, p, k, s4),
        ensures
            rep(s4, paste(t, r, p, k), x),
    {
        let u = paste(t, r, p, k);
        let kk = t.kids[p];
        let k2 = u.kids[p];
        let n = kk.len() as int;
        let m = r.len() as int;
        let f = r[0];
        let l = r[m - 1];
        lemma_paste_tw(t, r, p, k);
        assert(k2.len() == n + m);
        assert forall|j: int| #![trigger k2[j]] 0 <= j < k2.len() implies k2[j] == (if j < k { kk[j] } else if j < k + m { r[j - k] } else { kk[j - m] }) by {}
        if n > 0 {
            assert(isk(t, p, 0) && isk(t, p, n - 1));
        }
        if k > 0 {
            assert(isk(t, p, k - 1));
        }
        if k < n {
            assert(isk(t, p, k));
        }
        assert forall|i: int| #![trigger s4[i]] #![trigger u.alive[i]] 0 <= i < s4.len() implies (s4[i].prev is Some <==> u.alive[i]) by {
            assert(s[i].prev is Some <==> t.alive[i]);
        }
        assert forall|i: int| #![trigger s4[i]] #![trigger u.kids[i]] tl(u, i) implies s4[i].first == k_first(u.kids[i]) by {
            assert(s[i].first == k_first(t.kids[i]));
            if i == p {
                assert(k2[0] == (if k > 0 { kk[0] } else { r[0] }));
            }
        }
        lemma_paste_kids(s, t, y, r, p, k, s4);
        assert forall|i: int| #![trigger s4[i]] #![trigger u.parent[i]] tl(u, i) && u.parent[i] is None && !x.contains(i) implies s4[i].parent is None && s4[i].next is None && s4[i].prev == Some(i) by {
            assert(!r.contains(i));
            assert(t.parent[i] is None && !y.contains(i));
            assert(s[i].parent is None);
            if i == f { assert(r.contains(i)); }
            if i == l { assert(r.contains(i)); }
        }
        assert forall|i: int| #![trigger x.contains(i)] x.contains(i) implies tl(u, i) && u.parent[i] is None by {
            assert(y.contains(i));
            if r.contains(i) {
                let j = choose|j: int| 0 <= j < r.len() && r[j] == i;
                assert(!x.contains(r[j]));
            }
        }
        assert forall|i: int| #![trigger s4[i]] 0 <= i < s4.len() && s4[i].prev is None implies s4[i] == nb_dead() by {
            assert(s[i].prev is None) by {
                assert(s4[i].prev == s[i].prev);
            }
            assert(!t.alive[i]);
            assert(i != f && i != l && i != p);
        }
    }

    // ------------------------------------------------------------------
    // Ancestors.
    pub proof fn lemma_anc_self(t: Tr, i: int)
        ensures
            anc(t, i, i),
    {
        assert(up(t, i, 0) == Some(i));
    }

    pub proof fn lemma_anc_step(t: Tr, a: int, i: int)
        requires
            t.parent[i] is Some,
        ensures
            anc(t, a, t.parent[i]->0) ==> anc(t, a, i),
            anc(t, a, i) && a != i ==> anc(t, a, t.parent[i]->0),
    {
        let p = t.parent[i]->0;
        if anc(t, a, p) {
            let n = choose|n: nat| #[trigger] up(t, p, n) == Some(a);
            assert(up(t, i, n + 1) == up(t, p, n));
        }
        if anc(t, a, i) && a != i {
            let n = choose|n: nat| #[trigger] up(t, i, n) == Some(a);
            assert(n > 0);
            assert(up(t, i, n) == up(t, p, (n - 1) as nat));
        }
    }

    pub proof fn lemma_anc_root(t: Tr, a: int, i: int)
        requires
            t.parent[i] is None,
            anc(t, a, i),
        ensures
            a == i,
    {
        let n = choose|n: nat| #[trigger] up(t, i, n) == Some(a);
        assert(n == 0);
    }

    /// Ancestors in a forest with fewer parent links.
    pub proof fn lemma_anc_sub(t: Tr, u: Tr, a: int, i: int)
        requires
            tw(u),
            tl(u, i),
            forall|j: int| #![trigger u.parent[j]] tl(u, j) && u.parent[j] is Some ==> t.parent[j] == u.parent[j],
            anc(u, a, i),
        ensures
            anc(t, a, i),
    {
        let n = choose|n: nat| #[trigger] up(u, i, n) == Some(a);
        lemma_up_sub(t, u, a, i, n);
    }

    proof fn lemma_up_sub(t: Tr, u: Tr, a: int, i: int, n: nat)
        requires
            tw(u),
            tl(u, i),
            forall|j: int| #![trigger u.parent[j]] tl(u, j) && u.parent[j] is Some ==> t.parent[j] == u.parent[j],
            up(u, i, n) == Some(a),
        ensures
            up(t, i, n) == Some(a),
        decreases n,
    {
        if n > 0 {
            let p = u.parent[i]->0;
            lemma_up_sub(t, u, a, p, (n - 1) as nat);
        }
    }

    /// A child of `c` is not an ancestor of `p` unless `c` is.
    pub proof fn lemma_anc_up(t: Tr, a: int, c: int, i: int)
        requires
            t.parent[a] == Some(c),
            anc(t, a, i),
        ensures
            anc(t, c, i),
    {
        let n = choose|n: nat| #[trigger] up(t, i, n) == Some(a);
        lemma_up_next(t, a, c, i, n);
    }

    proof fn lemma_up_next(t: Tr, a: int, c: int, i: int, n: nat)
        requires
            t.parent[a] == Some(c),
            up(t, i, n) == Some(a),
        ensures
            up(t, i, n + 1) == Some(c),
        decreases n,
    {
        if n > 0 {
            lemma_up_next(t, a, c, t.parent[i]->0, (n - 1) as nat);
        } else {
            assert(up(t, c, 0) == Some(c));
            assert(up(t, i, 1) == up(t, c, 0));
        }
    }

    pub open spec fn below(t: Tr, r: Seq<int>, i: int) -> bool {
        exists|j: int| 0 <= j < r.len() && #[trigger] anc(t, r[j], i)
    }

    /// Pasting trees under a node outside of them makes no cycle.
    pub proof fn lemma_paste_acyc(t: Tr, r: Seq<int>, p: int, k: int)
        requires
            tw(t),
            tl(t, p),
            roots_list(t, r, p),
            0 <= k <= t.kids[p].len(),
            !below(t, r, p),
        ensures
            acyc(paste(t, r, p, k)),
    {
        let u = paste(t, r, p, k);
        let (rk, m) = choose|rk: spec_fn(int) -> nat, m: nat| ranked(t, rk, m);
        let r2 = |i: int| if below(t, r, i) { rk(i) } else { rk(i) + m + 1 };
        let m2 = 2 * m + 1;
        assert forall|i: int| #![trigger r2(i)] r2(i) <= m2 by {
            assert(rk(i) <= m);
        }
        assert forall|i: int| #![trigger u.parent[i]] tl(u, i) && u.parent[i] is Some implies r2(i) < r2(u.parent[i]->0) by {
            if r.contains(i) {
                assert(u.parent[i] == Some(p));
                assert(!below(t, r, p));
                let j = choose|j: int| 0 <= j < r.len() && r[j] == i;
                lemma_anc_self(t, i);
                assert(anc(t, r[j], i));
                assert(below(t, r, i));
                assert(rk(i) <= m);
            } else {
                assert(t.parent[i] == u.parent[i]);
                let q = t.parent[i]->0;
                assert(rk(i) < rk(t.parent[i]->0));
                assert(rk(i) <= m);
                if below(t, r, q) {
                    let j = choose|j: int| 0 <= j < r.len() && #[trigger] anc(t, r[j], q);
                    lemma_anc_step(t, r[j], i);
                    assert(anc(t, r[j], i));
                    assert(below(t, r, i));
                }
            }
        }
        assert(ranked(u, r2, m2));
    }

    // ------------------------------------------------------------------
    // The links determine the forest.
    pub proof fn lemma_unique(s: Raw, t: Tr, x: ISet<int>, u: Tr, y: ISet<int>)
        requires
            rep(s, t, x),
            rep(s, u, y),
        ensures
            t == u,
    {
        assert(t.alive =~= u.alive) by {
            assert forall|i: int| 0 <= i < s.len() implies t.alive[i] == u.alive[i] by {
                assert(s[i].prev is Some <==> t.alive[i]);
                assert(s[i].prev is Some <==> u.alive[i]);
            }
        }
        assert(t.kids =~= u.kids) by {
            assert forall|i: int| 0 <= i < s.len() implies t.kids[i] == u.kids[i] by {
                if t.alive[i] {
                    lemma_kids_same(s, t, x, u, y, i, t.kids[i].len() as int);
                    lemma_kids_same(s, u, y, t, x, i, u.kids[i].len() as int);
                    assert(t.kids[i] =~= u.kids[i]);
                } else {
                    assert(t.kids[i].len() == 0 && u.kids[i].len() == 0);
                    assert(t.kids[i] =~= u.kids[i]);
                }
            }
        }
        assert(t.parent =~= u.parent) by {
            assert forall|i: int| 0 <= i < s.len() implies t.parent[i] == u.parent[i] by {
                if t.alive[i] {
                    if t.parent[i] is Some {
                        lemma_pos(t, i);
                        assert(isk(u, t.parent[i]->0, pos(t, i)));
                    }
                    if u.parent[i] is Some {
                        lemma_pos(u, i);
                        assert(isk(t, u.parent[i]->0, pos(u, i)));
                    }
                } else {
                    assert(t.parent[i] is None && u.parent[i] is None);
                }
            }
        }
    }

    pub proof fn lemma_raw_parent(s: Raw, t: Tr, x: ISet<int>, i: int)
        requires
            rep(s, t, x),
            0 <= i < s.len(),
            !x.contains(i),
        ensures
            s[i].parent == t.parent[i],
    {
        if t.alive[i] {
            if t.parent[i] is Some {
                lemma_pos(t, i);
                assert(isk(t, t.parent[i]->0, pos(t, i)));
            }
        } else {
            assert(s[i].prev is None);
        }
    }

    proof fn lemma_kids_same(s: Raw, t: Tr, x: ISet<int>, u: Tr, y: ISet<int>, p: int, n: int)
        requires
            rep(s, t, x),
            rep(s, u, y),
            tl(t, p),
            tl(u, p),
            0 <= n <= t.kids[p].len(),
        ensures
            n <= u.kids[p].len(),
            forall|j: int| #![trigger t.kids[p][j]] #![trigger u.kids[p][j]] 0 <= j < n ==> t.kids[p][j] == u.kids[p][j],
        decreases n,
    {
        if n > 0 {
            lemma_kids_same(s, t, x, u, y, p, n - 1);
            assert(s[p].first == k_first(t.kids[p]));
            assert(s[p].first == k_first(u.kids[p]));
            if n > 1 {
                assert(isk(t, p, n - 2) && isk(u, p, n - 2));
                assert(t.kids[p][n - 2] == u.kids[p][n - 2]);
            }
        }
    }

    pub proof fn lemma_abs(s: Raw, t: Tr, x: ISet<int>)
        requires
            rep(s, t, x),
        ensures
            abs(s) == t,
            rep(s, abs(s), x),
            x =~= ISet::<int>::empty() ==> wf(s),
    {
        assert(stands(s, t));
        let y = choose|y: ISet<int>| rep(s, abs(s), y);
        lemma_unique(s, t, x, abs(s), y);
    }

    pub proof fn lemma_abs_all(t: Tr)
        ensures
            forall|s: Raw| #![trigger rep(s, t, ISet::empty())] rep(s, t, ISet::empty()) ==> wf(s) && abs(s) == t,
    {
        assert forall|s: Raw| #![trigger rep(s, t, ISet::empty())] rep(s, t, ISet::empty()) implies wf(s) && abs(s) == t by {
            lemma_abs(s, t, ISet::empty());
        }
    }

    pub proof fn lemma_wf(s: Raw)
        requires
            wf(s),
        ensures
            loose(s) =~= ISet::<int>::empty(),
            rep(s, abs(s), loose(s)),
            forall|i: int| #![trigger live(s, i)] #![trigger tl(abs(s), i)] live(s, i) <==> tl(abs(s), i),
            forall|i: int| #![trigger s[i]] #![trigger abs(s).parent[i]] 0 <= i < s.len() ==> s[i].parent == abs(s).parent[i],
    {
        let t = abs(s);
        assert forall|i: int| #![trigger s[i]] #![trigger abs(s).parent[i]] 0 <= i < s.len() implies s[i].parent == abs(s).parent[i] by {
            lemma_raw_parent(s, t, ISet::empty(), i);
        }
        assert(loose(s) =~= ISet::<int>::empty()) by {
            assert forall|i: int| !loose(s).contains(i) by {
                if tl(t, i) {
                    assert(s[i].parent == t.parent[i]);
                }
            }
        }
        assert(forall|i: int| #![trigger s[i]] #![trigger t.alive[i]] 0 <= i < s.len() ==> (s[i].prev is Some <==> t.alive[i]));
    }

    // ------------------------------------------------------------------
    // Distance to the root.
    pub open spec fn rank_of(t: Tr) -> (spec_fn(int) -> nat, nat) {
        choose|rm: (spec_fn(int) -> nat, nat)| #[trigger] ranked(t, rm.0, rm.1)
    }

    pub open spec fn dep(t: Tr, i: int) -> nat {
        (rank_of(t).1 - (rank_of(t).0)(i)) as nat
    }

    pub open spec fn odep(t: Tr, i: Option<int>) -> nat {
        match i {
            Some(i) => dep(t, i) + 1,
            None => 0,
        }
    }

    pub proof fn lemma_dep(t: Tr, i: int)
        requires
            tw(t),
            tl(t, i),
            t.parent[i] is Some,
        ensures
            dep(t, t.parent[i]->0) < dep(t, i),
    {
        let (r0, m0) = choose|r: spec_fn(int) -> nat, m: nat| ranked(t, r, m);
        let w = (r0, m0);
        assert(ranked(t, w.0, w.1));
        let (r, m) = rank_of(t);
        assert(ranked(t, r, m));
        assert(r(i) < r(t.parent[i]->0));
        assert(r(t.parent[i]->0) <= m);
    }

    pub proof fn lemma_liv(s: Raw, t: Tr, x: ISet<int>)
        requires
            rep(s, t, x),
        ensures
            forall|i: int| #![trigger live(s, i)] #![trigger tl(t, i)] live(s, i) <==> tl(t, i),
    {
        assert(forall|i: int| #![trigger s[i]] #![trigger t.alive[i]] 0 <= i < s.len() ==> (s[i].prev is Some <==> t.alive[i]));
    }

    pub proof fn lemma_anc_dep(t: Tr, a: int, i: int)
        requires
            tw(t),
            tl(t, i),
            anc(t, a, i),
        ensures
            tl(t, a),
            dep(t, a) <= dep(t, i),
    {
        let n = choose|n: nat| #[trigger] up(t, i, n) == Some(a);
        lemma_up_dep(t, a, i, n);
    }

    proof fn lemma_up_dep(t: Tr, a: int, i: int, n: nat)
        requires
            tw(t),
            tl(t, i),
            up(t, i, n) == Some(a),
        ensures
            tl(t, a),
            dep(t, a) <= dep(t, i),
        decreases n,
    {
        if n > 0 {
            lemma_dep(t, i);
            lemma_up_dep(t, a, t.parent[i]->0, (n - 1) as nat);
        }
    }

    /// `a` is above `i`, `c` as well: going on from `c`.
    pub proof fn lemma_climb(t: Tr, a: int, c: int, i: int)
        requires
            tw(t),
            tl(t, c),
            anc(t, c, i),
            a != c,
            anc(t, a, i) <==> anc(t, a, c),
        ensures
            t.parent[c] is None ==> !anc(t, a, i),
            t.parent[c] is Some ==> tl(t, t.parent[c]->0) && anc(t, t.parent[c]->0, i) && (anc(t, a, i) <==> anc(t, a, t.parent[c]->0)),
            odep(t, t.parent[c]) < odep(t, Some(c)),
    {
        if t.parent[c] is None {
            if anc(t, a, c) { lemma_anc_root(t, a, c); }
        } else {
            lemma_anc_step(t, a, c);
            lemma_anc_up(t, c, t.parent[c]->0, i);
            lemma_dep(t, c);
        }
    }
}
