/// What holds when an operation panics.
pub mod st {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::mv::*;
    use crate::fo::*;
    use crate::cp::*;
    use crate::dynamic::id::NodeId;
    use crate::dynamic::forest::Forest;

    /// The slots of `t` are in `u` as they were, and further ones after them.
    pub open spec fn within(t: Tr, u: Tr) -> bool {
        &&& t.alive.is_prefix_of(u.alive)
        &&& t.parent.is_prefix_of(u.parent)
        &&& t.kids.is_prefix_of(u.kids)
    }

    /// The forest is consistent, and all nodes and data of an earlier state are as they were.
    pub open spec fn frozen<T>(t: Tr, d: Seq<Option<T>>, s: Raw, e: Seq<Option<T>>) -> bool {
        &&& wf(s)
        &&& data_ok(s, e)
        &&& within(t, abs(s))
        &&& d.is_prefix_of(e)
    }

    /// Nothing has changed.
    pub open spec fn same<Id: NodeId, T>(a: Forest<Id, T>, b: Forest<Id, T>) -> bool {
        a.s() == b.s() && a.d() == b.d()
    }

    pub open spec fn both(p: bool, q: bool) -> bool {
        p && q
    }

    /// `p` held before, and the links have not changed since.
    pub open spec fn kept_at(p: bool, s: Raw, z: Raw) -> bool {
        p && s == z
    }

    /// Said node by node: live nodes are live, dead nodes are dead, relatives and data are the same.
    pub proof fn thm_frozen<T>(s: Raw, d: Seq<Option<T>>, z: Raw, e: Seq<Option<T>>, i: int)
        requires
            wf(s),
            data_ok(s, d),
            frozen(abs(s), d, z, e),
            0 <= i < s.len(),
        ensures
            s.len() <= z.len(),
            live(z, i) == live(s, i),
            e[i] == d[i],
            abs(z).parent[i] == abs(s).parent[i],
            abs(z).kids[i] == abs(s).kids[i],
    {
        lemma_tw(s);
        lemma_tw(z);
        let t = abs(s);
        let u = abs(z);
        assert(t.alive[i] == u.alive[i]);
        assert(t.parent[i] == u.parent[i]);
        assert(t.kids[i] == u.kids[i]);
    }

    pub proof fn lemma_frozen_self<T>(s: Raw, d: Seq<Option<T>>)
        requires
            wf(s),
            data_ok(s, d),
        ensures
            frozen(abs(s), d, s, d),
    {
    }

    /// A new root changes nothing.
    pub proof fn lemma_frozen_new<T>(t: Tr, d: Seq<Option<T>>, s: Raw, e: Seq<Option<T>>, x: Option<T>)
        requires
            frozen(t, d, s, e),
            x is Some,
        ensures
            forall|z: Raw| #![trigger abs(z)] z == s.push(nb_root(s.len() as int)) && wf(z) && abs(z) == t_new(abs(s)) ==> frozen(t, d, z, e.push(x)),
    {
        assert forall|z: Raw| #![trigger abs(z)] z == s.push(nb_root(s.len() as int)) && wf(z) && abs(z) == t_new(abs(s)) implies frozen(t, d, z, e.push(x)) by {
            let u = abs(s);
            let v = abs(z);
            assert(u.alive.is_prefix_of(v.alive));
            assert(u.parent.is_prefix_of(v.parent));
            assert(u.kids.is_prefix_of(v.kids));
        }
    }

    /// Creating at an anchor that exists: as `lemma_create_insert`, or the insertion is refused or finds no live anchor.
    pub proof fn lemma_stop_create(s: Raw, d: Dst)
        requires
            wf(s),
            0 <= anchor(d),
        ensures
            ({
                let n = s.len() as int;
                let z = s.push(nb_root(n));
                let u = t_new(abs(s));
                &&& wf(z)
                &&& abs(z) == u
                &&& live(z, n)
                &&& anchor(d) < n ==> (live(z, anchor(d)) <==> live(s, anchor(d)))
                &&& anchor(d) < n && live(s, anchor(d)) ==> (refusal(u, n, d) is None <==> dst_parent(abs(s), d) is Some)
                &&& forall|y: Raw, i: int| #![trigger wf(y), live(y, i)] anchor(d) < n && live(s, anchor(d)) && wf(y) && abs(y) == t_insert(u, n, d) && dst_parent(abs(s), d) is Some ==> (live(y, i) <==> live(s, i) || i == n)
                &&& forall|y: Raw| #![trigger wf(y)] anchor(d) < n && live(s, anchor(d)) && wf(y) && abs(y) == t_insert(u, n, d) && dst_parent(abs(s), d) is Some ==> y.len() == s.len() + 1
            }),
    {
        let n = s.len() as int;
        let z = s.push(nb_root(n));
        let t = abs(s);
        lemma_wf(s);
        lemma_create(s, t);
        lemma_wf(z);
        lemma_op_alive(z);
        if anchor(d) < n && live(s, anchor(d)) {
            if dst_parent(t, d) is Some {
                lemma_create_insert(s, d);
            } else {
                assert(dst_parent(t_new(t), d) is None);
            }
        }
    }

    /// Copying leaves what was there.
    pub proof fn lemma_frozen_copy<T: Clone>(t: Tr, src: Tr, n: int, k: int, q: Seq<int>, s: Raw, cur: int, d0: Seq<Option<T>>, ds: Seq<Option<T>>, d: Seq<Option<T>>)
        requires
            copying(t, src, n, k, q, s, cur),
            dcopy(d0, ds, q, d),
            data_ok(s, d),
        ensures
            frozen(t, d0, s, d),
    {
        let u = abs(s);
        assert(t.alive.is_prefix_of(u.alive));
        assert(t.parent.is_prefix_of(u.parent));
        assert(t.kids.is_prefix_of(u.kids));
        assert(d0.is_prefix_of(d));
    }
}
