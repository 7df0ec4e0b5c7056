pub mod fo {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;

    /// The operations that move nodes leave all of them alive.
    pub proof fn lemma_op_alive(s: Raw)
        requires
            wf(s),
        ensures
            forall|i: int| #![trigger live(s, i)] #![trigger tl(abs(s), i)] live(s, i) <==> tl(abs(s), i),
            forall|z: Raw, i: int| #![trigger wf(z), live(z, i)] wf(z) && abs(z).alive == abs(s).alive ==> (live(z, i) <==> live(s, i)),
            forall|z: Raw| #![trigger wf(z)] wf(z) && abs(z).alive == abs(s).alive ==> z.len() == s.len(),
    {
        lemma_wf(s);
        assert forall|z: Raw, i: int| #![trigger wf(z), live(z, i)] wf(z) && abs(z).alive == abs(s).alive implies (live(z, i) <==> live(s, i)) by {
            lemma_liv(z, abs(z), ISet::empty());
            assert(tl(abs(z), i) <==> tl(abs(s), i));
        }
    }

    /// A new root can be inserted anywhere.
    pub proof fn lemma_create_insert(s: Raw, d: Dst)
        requires
            wf(s),
            live(s, anchor(d)),
            dst_parent(abs(s), d) is Some,
        ensures
            ({
                let n = s.len() as int;
                let z = s.push(nb_root(n));
                let u = t_new(abs(s));
                &&& wf(z)
                &&& abs(z) == u
                &&& live(z, n)
                &&& live(z, anchor(d))
                &&& refusal(u, n, d) is None
                &&& forall|y: Raw, i: int| #![trigger wf(y), live(y, i)] wf(y) && abs(y) == t_insert(u, n, d) ==> (live(y, i) <==> live(s, i) || i == n)
                &&& forall|y: Raw| #![trigger wf(y)] wf(y) && abs(y) == t_insert(u, n, d) ==> y.len() == s.len() + 1
            }),
    {
        let t = abs(s);
        let n = s.len() as int;
        let z = s.push(nb_root(n));
        let u = t_new(t);
        lemma_wf(s);
        lemma_create(s, t);
        lemma_wf(z);
        lemma_op_alive(z);
        let p = dst_parent(t, d)->0;
        assert(dst_parent(u, d) == Some(p));
        assert(tl(u, p));
        if anc(u, n, p) {
            assert forall|j: int| #![trigger u.parent[j]] tl(u, j) && u.parent[j] is Some implies t.parent[j] == u.parent[j] by {}
            lemma_anc_sub(t, u, n, p);
            lemma_anc_dep(t, n, p);
        }
        assert forall|y: Raw, i: int| #![trigger wf(y), live(y, i)] wf(y) && abs(y) == t_insert(u, n, d) implies (live(y, i) <==> live(s, i) || i == n) by {
            assert(abs(y).alive == u.alive);
            lemma_liv(y, abs(y), ISet::empty());
        }
    }

    /// The relatives of a live node are live, and where the links say.
    pub proof fn lemma_nav(s: Raw, n: int)
        requires
            wf(s),
            live(s, n),
        ensures
            ({
                let t = abs(s);
                &&& olive(s, t.parent[n])
                &&& olive(s, next_of(t, n))
                &&& olive(s, prev_of(t, n))
                &&& olive(s, k_first(t.kids[n]))
                &&& olive(s, k_last(t.kids[n]))
                &&& s[n].parent == t.parent[n]
                &&& s[n].next == next_of(t, n)
                &&& s[n].first == k_first(t.kids[n])
                &&& raw_last(s, n) == k_last(t.kids[n])
                &&& raw_prev(s, n) == prev_of(t, n)
            }),
    {
        let t = abs(s);
        lemma_single(s, n);
        lemma_wf(s);
        assert(tl(t, n));
        if t.kids[n].len() > 0 {
            assert(isk(t, n, 0) && isk(t, n, t.kids[n].len() - 1));
        }
        if t.parent[n] is Some {
            lemma_pos(t, n);
            let p = t.parent[n]->0;
            let j = pos(t, n);
            if j > 0 { assert(isk(t, p, j - 1)); }
            if j + 1 < t.kids[p].len() { assert(isk(t, p, j + 1)); }
        }
    }
}
