
pub mod bd {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;

    /// A new leaf is the child number `k` of `p`, and nothing else changes.
    pub open spec fn put(t: Tr, p: int, k: int) -> Tr {
        Tr {
            alive: t.alive.push(true),
            parent: t.parent.push(Some(p)),
            kids: t.kids.update(p, t.kids[p].insert(k, t.alive.len() as int)).push(Seq::empty()),
        }
    }

    /// Where the new leaf comes to be among its siblings.
    pub open spec fn put_at(t: Tr, d: Dst) -> int {
        match d {
            Dst::First(p) => 0,
            Dst::Last(p) => t.kids[p].len() as int,
            Dst::Before(m) => pos(t, m),
            Dst::After(m) => pos(t, m) + 1,
        }
    }

    /// Creating a node at a place puts one new leaf there.
    pub proof fn lemma_put(s: Raw, d: Dst)
        requires
            wf(s),
            live(s, anchor(d)),
            dst_parent(abs(s), d) is Some,
        ensures
            ({
                let t = abs(s);
                let n = s.len() as int;
                &&& t.alive.len() == n
                &&& t.parent.len() == n
                &&& t.kids.len() == n
                &&& live(s, dst_parent(t, d)->0)
                &&& 0 <= put_at(t, d) <= t.kids[dst_parent(t, d)->0].len()
                &&& t_insert(t_new(t), n, d) == put(t, dst_parent(t, d)->0, put_at(t, d))
            }),
    {
        let t = abs(s);
        let n = s.len() as int;
        let u = t_new(t);
        let p = dst_parent(t, d)->0;
        lemma_wf(s);
        lemma_op_alive(s);
        lemma_create_insert(s, d);
        assert(tl(t, anchor(d)));
        assert(t.alive.len() == n);
        assert(t_detach(u, n) == u);
        assert(u.parent[anchor(d)] == t.parent[anchor(d)]);
        if d is Before || d is After {
            let m = anchor(d);
            lemma_pos(t, m);
            lemma_wf(s.push(nb_root(n)));
            assert(tl(u, m));
            assert(isk(u, p, pos(t, m)));
            lemma_pos_of(u, p, pos(t, m));
        }
        assert(tl(t, p));
        let k = put_at(t, d);
        assert(u.kids[p] == t.kids[p]);
        assert(set_parents(u, seq![n], Some(p)) =~= t.parent.push(Some(p))) by {
            assert(seq![n][0] == n);
        }
        assert(u.kids[p].subrange(0, k) + seq![n] + u.kids[p].subrange(k, u.kids[p].len() as int) =~= t.kids[p].insert(k, n));
        assert(t.kids.push(Seq::empty()).update(p, t.kids[p].insert(k, n)) =~= t.kids.update(p, t.kids[p].insert(k, n)).push(Seq::empty()));
    }

    /// The trees of `u` are those of `t`, with nodes added at the end of the children of `r`, and below the added nodes.
    pub open spec fn grown<T>(t: Tr, d: Seq<Option<T>>, u: Tr, e: Seq<Option<T>>, r: int) -> bool {
        &&& t.alive.len() <= u.alive.len()
        &&& d.len() <= e.len()
        &&& forall|i: int| #![trigger u.alive[i]] 0 <= i < t.alive.len() ==> u.alive[i] == t.alive[i]
        &&& forall|i: int| #![trigger u.parent[i]] 0 <= i < t.alive.len() ==> u.parent[i] == t.parent[i]
        &&& forall|i: int| #![trigger u.kids[i]] 0 <= i < t.alive.len() && i != r ==> u.kids[i] == t.kids[i]
        &&& t.kids[r].len() <= u.kids[r].len()
        &&& forall|j: int| #![trigger u.kids[r][j]] 0 <= j < t.kids[r].len() ==> u.kids[r][j] == t.kids[r][j]
        &&& forall|i: int| #![trigger e[i]] 0 <= i < d.len() ==> e[i] == d[i]
    }

    pub proof fn lemma_grown_refl<T>(t: Tr, d: Seq<Option<T>>, r: int)
        ensures
            grown(t, d, t, d, r),
    {
    }

    /// What two calls do one after the other, one call of the same kind could have done.
    pub proof fn lemma_grown_trans<T>(t: Tr, d: Seq<Option<T>>, u: Tr, e: Seq<Option<T>>, v: Tr, f: Seq<Option<T>>, r: int)
        requires
            grown(t, d, u, e, r),
            grown(u, e, v, f, r),
            0 <= r < t.alive.len(),
        ensures
            grown(t, d, v, f, r),
    {
        assert forall|i: int| #![trigger v.alive[i]] 0 <= i < t.alive.len() implies v.alive[i] == t.alive[i] by {
            assert(u.alive[i] == t.alive[i]);
        }
        assert forall|i: int| #![trigger v.parent[i]] 0 <= i < t.alive.len() implies v.parent[i] == t.parent[i] by {
            assert(u.parent[i] == t.parent[i]);
        }
        assert forall|i: int| #![trigger v.kids[i]] 0 <= i < t.alive.len() && i != r implies v.kids[i] == t.kids[i] by {
            assert(u.kids[i] == t.kids[i]);
        }
        assert forall|j: int| #![trigger v.kids[r][j]] 0 <= j < t.kids[r].len() implies v.kids[r][j] == t.kids[r][j] by {
            assert(u.kids[r][j] == t.kids[r][j]);
        }
        assert forall|i: int| #![trigger f[i]] 0 <= i < d.len() implies f[i] == d[i] by {
            assert(e[i] == d[i]);
        }
    }

    /// A new last child `n` of `r`, and then whatever grows below `n`.
    pub proof fn lemma_grown_below<T>(t: Tr, d: Seq<Option<T>>, x: Option<T>, v: Tr, f: Seq<Option<T>>, r: int)
        requires
            tw(t),
            0 <= r < t.alive.len(),
            t.kids.len() == t.alive.len(),
            t.parent.len() == t.alive.len(),
            d.len() == t.alive.len(),
            grown(put(t, r, t.kids[r].len() as int), d.push(x), v, f, t.alive.len() as int),
        ensures
            grown(t, d, v, f, r),
            v.parent[t.alive.len() as int] == Some(r),
            v.kids[r] == t.kids[r].push(t.alive.len() as int),
    {
        let n = t.alive.len() as int;
        let u = put(t, r, t.kids[r].len() as int);
        let e = d.push(x);
        assert(t.kids[r].insert(t.kids[r].len() as int, n) =~= t.kids[r].push(n));
        assert(v.kids[r] == u.kids[r]);
        assert forall|i: int| #![trigger v.alive[i]] 0 <= i < t.alive.len() implies v.alive[i] == t.alive[i] by {
            assert(u.alive[i] == t.alive[i]);
        }
        assert forall|i: int| #![trigger v.parent[i]] 0 <= i < t.alive.len() implies v.parent[i] == t.parent[i] by {
            assert(u.parent[i] == t.parent[i]);
        }
        assert(v.parent[n] == u.parent[n]);
        assert forall|i: int| #![trigger v.kids[i]] 0 <= i < t.alive.len() && i != r implies v.kids[i] == t.kids[i] by {
            assert(u.kids[i] == t.kids[i]);
        }
        assert forall|i: int| #![trigger f[i]] 0 <= i < d.len() implies f[i] == d[i] by {
            assert(e[i] == d[i]);
        }
    }

    pub proof fn lemma_put_grown<T>(t: Tr, d: Seq<Option<T>>, x: Option<T>, r: int)
        requires
            0 <= r < t.alive.len(),
            t.kids.len() == t.alive.len(),
            t.parent.len() == t.alive.len(),
            d.len() == t.alive.len(),
        ensures
            grown(t, d, put(t, r, t.kids[r].len() as int), d.push(x), r),
    {
    }

    /// A new root is live, and the other nodes stay what they were.
    pub proof fn lemma_new_live(s: Raw)
        requires
            wf(s),
        ensures
            forall|z: Raw| #![trigger wf(z)] wf(z) && abs(z) == t_new(abs(s)) ==> z.len() == s.len() + 1 && live(z, s.len() as int),
            forall|z: Raw, i: int| #![trigger wf(z), live(z, i)] wf(z) && abs(z) == t_new(abs(s)) ==> (live(z, i) <==> live(s, i) || i == s.len()),
    {
        let t = abs(s);
        let n = s.len() as int;
        lemma_wf(s);
        lemma_create(s, t);
        assert forall|z: Raw, i: int| #![trigger wf(z), live(z, i)] wf(z) && abs(z) == t_new(abs(s)) implies (live(z, i) <==> live(s, i) || i == n) by {
            lemma_liv(z, abs(z), ISet::empty());
            assert(live(z, i) <==> tl(abs(z), i));
            assert(live(s, i) <==> tl(t, i));
        }
        assert forall|z: Raw| #![trigger wf(z)] wf(z) && abs(z) == t_new(abs(s)) implies z.len() == s.len() + 1 && live(z, n) by {
            lemma_wf(z);
            assert(tl(abs(z), n));
        }
    }

    /// A new node as the last child of `r`, found through the last child if there is one.
    pub proof fn lemma_add_last<T>(s: Raw, r: int, d: Seq<Option<T>>, x: Option<T>)
        requires
            wf(s),
            live(s, r),
            data_ok(s, d),
        ensures
            ({
                let t = abs(s);
                let n = s.len() as int;
                let k = t.kids[r].len() as int;
                let a = match k_last(t.kids[r]) {
                    Some(c) => Dst::After(c),
                    None => Dst::First(r),
                };
                let v = put(t, r, k);
                &&& t_insert(t_new(t), n, a) == v
                &&& dst_parent(t_new(t), a) == Some(r)
                &&& refusal(t_new(t), n, a) is None
                &&& forall|z: Raw| #![trigger wf(z)] wf(z) && abs(z) == t_new(t) ==> live(z, n) && live(z, anchor(a))
                &&& forall|z: Raw| #![trigger wf(z)] wf(z) && abs(z) == v ==> live(z, r) && live(z, n) && z.len() == n + 1
                &&& k_last(v.kids[r]) == Some(n)
                &&& v.kids[n].len() == 0
                &&& grown(t, d, v, d.push(x), r)
            }),
    {
        let t = abs(s);
        let n = s.len() as int;
        let k = t.kids[r].len() as int;
        let a = match k_last(t.kids[r]) {
            Some(c) => Dst::After(c),
            None => Dst::First(r),
        };
        let v = put(t, r, k);
        lemma_wf(s);
        lemma_op_alive(s);
        lemma_new_live(s);
        lemma_nav(s, r);
        assert(tl(t, r));
        if k > 0 {
            let c = t.kids[r][k - 1];
            assert(isk(t, r, k - 1));
            lemma_pos_of(t, r, k - 1);
        }
        assert(live(s, anchor(a)));
        assert(dst_parent(t, a) == Some(r));
        lemma_put(s, a);
        lemma_create_insert(s, a);
        assert(put_at(t, a) == k);
        lemma_put_grown(t, d, x, r);
    }
}

/// Uses of the builders as a caller writes them: the contracts say enough, and ask for nothing that cannot be had.
pub mod bd_use {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::dynamic::id::NodeId;
    use crate::dynamic::forest::nest_builder::NestTreeBuilder;
    use crate::dynamic::forest::chain_builder::ChainTreeBuilder;

    pub fn nest<'a, Id: NodeId, T: Copy>(b: &mut NestTreeBuilder<'a, Id, T>, x: T, y: T)
        requires
            old(b).ok(),
            old(b).f().s().len() + 2 <= nmax::<Id>(),
        ensures
            old(b).step(*final(b)),
            ({
                let n = old(b).f().s().len() as int;
                let v = final(b).f();
                &&& v.t().kids[nx(old(b).root)] == old(b).f().t().kids[nx(old(b).root)].push(n)
                &&& v.t().kids[n] == seq![n + 1, n + 2]
                &&& v.d()[n] == Some(x)
                &&& v.d()[n + 1] == Some(y)
                &&& v.d()[n + 2] == Some(x)
            }),
    {
        proof {
            nxok::<Id>();
        }
        let ghost b0 = *b;
        b.create_tree(x, |c: &mut NestTreeBuilder<'a, Id, T>|
            requires
                b0.inner(*old(c), x),
            ensures
                old(c).step(*final(c)),
                final(c).f().t().kids[nx(old(c).root)] == seq![b0.f().s().len() as int + 1, b0.f().s().len() as int + 2],
                final(c).f().d() == old(c).f().d().push(Some(y)).push(Some(x)),
        {
            let ghost r = nx(c.root);
            let ghost k = c.f().t().kids[r];
            c.add_child(y);
            let ghost k1 = c.f().t().kids[r];
            proof {
                assert(k =~= Seq::empty());
                assert(k1 =~= seq![b0.f().s().len() as int + 1]);
            }
            c.add_child(x);
            proof {
                assert(c.f().t().kids[r] =~= seq![b0.f().s().len() as int + 1, b0.f().s().len() as int + 2]);
            }
        });
    }

    pub fn chain<'a, Id: NodeId, T: Copy>(b: &mut ChainTreeBuilder<'a, Id, T>, x: T, y: T)
        requires
            old(b).ok(),
            old(b).f().s().len() + 2 <= nmax::<Id>(),
        ensures
            final(b).ok(),
            ({
                let p = nx(old(b).current);
                let n = old(b).f().s().len() as int;
                let v = final(b).f();
                &&& nx(final(b).current) == n + 2
                &&& v.t().kids[p] == old(b).f().t().kids[p].push(n).push(n + 2)
                &&& v.t().kids[n] == seq![n + 1]
                &&& v.d()[n] == Some(x)
                &&& v.d()[n + 1] == Some(y)
                &&& v.d()[n + 2] == Some(y)
                &&& *final(old(b).forest) == *final(final(b).forest)
            }),
    {
        proof {
            nxok::<Id>();
            lemma_nav(b.f().s(), nx(b.current));
        }
        let ghost p = nx(b.current);
        let ghost n = b.f().s().len() as int;
        let ghost k = b.f().t().kids[p];
        let c = b.child(x);
        let ghost t1 = c.f().t();
        proof {
            assert(t1.kids[p] =~= k.push(n));
            assert(t1.parent[n] == Some(p));
        }
        let c = c.child(y);
        proof {
            assert(c.f().t().kids[n] =~= seq![n + 1]);
        }
        let c = c.parent();
        let ghost t3 = c.f().t();
        proof {
            lemma_op_alive(c.f().s());
            lemma_wf(c.f().s());
            assert(tl(t3, p) && tl(t3, n));
            assert(t3.kids[p] == k.push(n));
            assert(isk(t3, p, k.len() as int));
            lemma_pos_of(t3, p, k.len() as int);
        }
        let c = c.sibling(y);
        proof {
            assert(c.f().t().kids[p] =~= k.push(n).push(n + 2));
        }
    }
}
