@fn dynamic::forest::Forest::clone_local_tree_with_id_mapping::clone_next_node
@ghost_param
    Ghost(t): Ghost<Tr>, Ghost(n): Ghost<int>, Ghost(q): Ghost<Seq<int>>, Ghost(d0): Ghost<Seq<Option<T>>>
@spec
    requires
        room(t, t, n, d0, d0, InternalId::max_idx() as int),
        lstate(t, n, q, old(hierarchy).s(), ix(*old(current_dest)), ix(old(traverser).root), odev(old(traverser).next)),
        old(traverser).next is Some,
        data_ok(old(hierarchy).s(), old(data)@),
        dcopy(d0, d0, q, old(data)@),
    ensures
        data_ok(final(hierarchy).s(), final(data)@),
        wf(final(hierarchy).s()),
        r is Some ==> lstate(t, n, q.push(ix(r->0)), final(hierarchy).s(), ix(*final(current_dest)), ix(final(traverser).root), odev(final(traverser).next)),
        r is Some ==> final(traverser).next is Some,
        r is Some ==> dcopy(d0, d0, q.push(ix(r->0)), final(data)@),
        r is Some ==> ix(*final(current_dest)) == d0.len() + q.len(),
        r is Some ==> q.len() < pre(t, n).len(),
        r is None ==> q == pre(t, n),
        r is None ==> abs(final(hierarchy).s()) == t_clone(t, t, n),
        r is None ==> dcopy(d0, d0, q, final(data)@),
        r is None ==> ix(*final(current_dest)) == d0.len(),
@attr
#[verifier::loop_isolation(false)]
@entry
    hide(rep);
    hide(t_copy);
    hide(t_clone);
    hide(t_insert);
    let ghost r0 = tour(t, n, 0, None);
    let ghost mut k = choose|k: int| #[trigger] lcopy(t, n, k, q, hierarchy.s(), ix(*current_dest), ix(traverser.root), odev(traverser.next));
    proof {
        eqok::<InternalId>();
    }
@loop 0
    invariant
        lcopy(t, n, k, q, hierarchy.s(), ix(*current_dest), ix(traverser.root), odev(traverser.next)),
        k < r0.len(),
        data_ok(hierarchy.s(), data@),
        dcopy(d0, d0, q, data@),
        traverser.next is Some,
        rpre(hierarchy.s(), n, dev(traverser.next->0)),
    decreases r0.len() - k,
@before_loop 0
    proof {
        lemma_copying(t, t, n, k, q, hierarchy.s(), ix(*current_dest));
        lemma_copy_event(hierarchy.s(), t, n, r0, k, q);
    }
@loop_entry 0
    let ghost d1 = data@;
    proof {
        lemma_copying(t, t, n, k, q, hierarchy.s(), ix(*current_dest));
        lemma_copy_event(hierarchy.s(), t, n, r0, k, q);
        k = k + 1;
        if k < r0.len() && r0[k - 1].0 is C {
            lemma_copy_event(hierarchy.s(), t, n, r0, k, q);
        }
    }
@after create_insert_momo#0
    proof {
        lemma_dcopy(d0, d0, q, d1, evn(r0[k - 1].0), data@.last()->0);
        assert(lcopy(t, n, k, q.push(evn(r0[k - 1].0)), hierarchy.s(), ix(*current_dest), ix(traverser.root), odev(traverser.next)));
        lemma_copying(t, t, n, k, q.push(evn(r0[k - 1].0)), hierarchy.s(), ix(*current_dest));
        assert(lstate(t, n, q.push(evn(r0[k - 1].0)), hierarchy.s(), ix(*current_dest), ix(traverser.root), odev(traverser.next)));
        assert(traverser.next is Some);
    }
@fn dynamic::forest::Forest::clone_local_tree_with_id_mapping
@ghost_param
    Tracked(log): Tracked<&mut HookLog<F, (Id, Id)>>
@ghost_arg clone_next_node
    Ghost(t), Ghost(n), Ghost(q), Ghost(d0)
@spec
    requires
        old(self).ok(),
        live(old(self).s(), nx(src_id)),
        old(self).s().len() + pre(old(self).t(), nx(src_id)).len() <= nmax::<Id>() + 1,
        forall|a: Id, b: Id| #[trigger] add_mapping.requires((a, b)),
    ensures
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_clone(old(self).t(), old(self).t(), nx(src_id)),
        dcopy(old(self).d(), old(self).d(), pre(old(self).t(), nx(src_id)), final(self).d()),
        paired(pre(old(self).t(), nx(src_id)), old(self).s().len() as int, old(log).calls, final(log).calls),
@attr
#[verifier::loop_isolation(false)]
@entry
    hide(rep);
    hide(t_copy);
    hide(t_clone);
    let ghost t = abs(self.s());
    let ghost n = nx(src_id);
    let ghost a = self.s().len() as int;
    let ghost d0 = self.d();
    let ghost log0 = log.calls;
    let ghost mut q: Seq<int> = Seq::empty();
    let ghost m = pre(t, n);
    proof {
        nxok::<Id>();
        lemma_tw(self.s());
        thm_pre(t, n);
        lemma_copy_start(t, t, n);
        assert(log0.subrange(0, log0.len() as int) =~= log0);
    }
@hook add_mapping
    proof {
        lemma_paired(q, a, log0, log.calls, (hook0__, hook1__));
        log.calls = log.calls.push((hook0__, hook1__));
        q = q.push(nx(hook0__));
    }
@before_loop 0
    proof {
        let e = Seq::<int>::empty();
        assert(q =~= seq![n]);
        lemma_tw(self.s());
        lemma_copy_event(self.s(), t, n, tour(t, n, 0, None), 0, q);
        lemma_dcopy(d0, d0, e, d0, n, self.d().last()->0);
        assert(e.push(n) =~= q);
        lemma_copying(t, t, n, 1, q, self.s(), ix(current_dest));
        assert(lcopy(t, n, 1, q, self.s(), ix(current_dest), ix(traverser.root), odev(traverser.next)));
    }
@loop 0
    invariant
        lstate(t, n, q, self.s(), ix(current_dest), ix(traverser.root), odev(traverser.next)),
        traverser.next is Some,
        data_ok(self.s(), self.d()),
        dcopy(d0, d0, q, self.d()),
        paired(q, a, log0, log.calls),
        q.len() <= m.len(),
        forall|a: Id, b: Id| #[trigger] add_mapping.requires((a, b)),
    decreases m.len() - q.len(),
@fn dynamic::forest::Forest::clone_local_tree
@ghost_arg clone_local_tree_with_id_mapping
    Tracked(&mut log)
@spec
    requires
        old(self).ok(),
        live(old(self).s(), nx(src_id)),
        old(self).s().len() + pre(old(self).t(), nx(src_id)).len() <= nmax::<Id>() + 1,
    ensures
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_clone(old(self).t(), old(self).t(), nx(src_id)),
        dcopy(old(self).d(), old(self).d(), pre(old(self).t(), nx(src_id)), final(self).d()),
@entry
    let tracked mut log = log_unused();
@fn dynamic::forest::Forest::clone_foreign_tree_with_id_mapping::clone_next_node
@ghost_param
    Ghost(t): Ghost<Tr>, Ghost(n): Ghost<int>, Ghost(q): Ghost<Seq<int>>, Ghost(d0): Ghost<Seq<Option<T>>>
@spec
    requires
        wf(hierarchy_src.s()),
        room(t, abs(hierarchy_src.s()), n, d0, data_src@, InternalId::max_idx() as int),
        fstate(t, abs(hierarchy_src.s()), n, q, old(hierarchy_dest).s(), ix(*old(current_dest)), old(src_traverser).next),
        old(src_traverser).next is Some,
        data_ok(old(hierarchy_dest).s(), old(data_dest)@),
        dcopy(d0, data_src@, q, old(data_dest)@),
    ensures
        data_ok(final(hierarchy_dest).s(), final(data_dest)@),
        wf(final(hierarchy_dest).s()),
        r is Some ==> fstate(t, abs(hierarchy_src.s()), n, q.push(ix(r->0)), final(hierarchy_dest).s(), ix(*final(current_dest)), final(src_traverser).next),
        r is Some ==> final(src_traverser).next is Some,
        r is Some ==> dcopy(d0, data_src@, q.push(ix(r->0)), final(data_dest)@),
        r is Some ==> ix(*final(current_dest)) == d0.len() + q.len(),
        r is Some ==> q.len() < pre(abs(hierarchy_src.s()), n).len(),
        r is None ==> q == pre(abs(hierarchy_src.s()), n),
        r is None ==> abs(final(hierarchy_dest).s()) == t_clone(t, abs(hierarchy_src.s()), n),
        r is None ==> dcopy(d0, data_src@, q, final(data_dest)@),
        r is None ==> ix(*final(current_dest)) == d0.len(),
        r is None ==> final(src_traverser).next is None,
@attr
#[verifier::loop_isolation(false)]
@entry
    hide(rep);
    hide(t_copy);
    hide(t_clone);
    hide(t_insert);
    hide(dft);
    hide(copying);
    hide(fcopy);
    hide(tour);
    hide(twalk);
    hide(tw);
    hide(t_new);
    hide(wf);
    let ghost u = abs(hierarchy_src.s());
    let ghost r0 = tour(u, n, 0, None);
    let ghost mut k = choose|k: int| #[trigger] fcopy(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest), src_traverser.next);
    proof {
        eqok::<InternalId>();
        lemma_tw(hierarchy_src.s());
    }
@loop 0
    invariant
        fcopy(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest), src_traverser.next),
        k < r0.len(),
        data_ok(hierarchy_dest.s(), data_dest@),
        dcopy(d0, data_src@, q, data_dest@),
        src_traverser.next is Some,
        dft(u, src_traverser.next, r0.subrange(k, r0.len() as int)),
        tail(r0.subrange(k, r0.len() as int)) =~= r0.subrange(k + 1, r0.len() as int),
        1 <= k,
    decreases r0.len() - k,
@before_loop 0
    proof {
        lemma_fcopy::<InternalId>(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest));
    }
@loop_entry 0
    let ghost d1 = data_dest@;
    proof {
        lemma_fcopy::<InternalId>(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest));
        lemma_copying(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest));
        k = k + 1;
    }
@after create_insert_momo#0
    proof {
        let x = evn(r0[k - 1].0);
        lemma_dcopy(d0, data_src@, q, d1, x, data_dest@.last()->0);
        assert(fcopy(t, u, n, k, q.push(x), hierarchy_dest.s(), ix(*current_dest), src_traverser.next));
        lemma_copying(t, u, n, k, q.push(x), hierarchy_dest.s(), ix(*current_dest));
        assert(fstate(t, u, n, q.push(x), hierarchy_dest.s(), ix(*current_dest), src_traverser.next));
    }
@fn dynamic::forest::Forest::clone_foreign_tree_with_id_mapping
@ghost_param
    Tracked(log): Tracked<&mut HookLog<F, (Id, Id)>>
@ghost_arg clone_next_node
    Ghost(t), Ghost(n), Ghost(q), Ghost(d0)
@spec
    requires
        old(self).ok(),
        src_root.ok(),
        old(self).s().len() + pre(src_root.f().t(), src_root.i()).len() <= nmax::<Id>() + 1,
        forall|a: Id, b: Id| #[trigger] add_mapping.requires((a, b)),
    ensures
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_clone(old(self).t(), src_root.f().t(), src_root.i()),
        dcopy(old(self).d(), src_root.f().d(), pre(src_root.f().t(), src_root.i()), final(self).d()),
        paired(pre(src_root.f().t(), src_root.i()), old(self).s().len() as int, old(log).calls, final(log).calls),
@attr
#[verifier::loop_isolation(false)]
@entry
    hide(rep);
    hide(t_copy);
    hide(t_clone);
    hide(walk);
    hide(tour);
    hide(t_insert);
    hide(copying);
    hide(fcopy);
    hide(dft);
    hide(tw);
    let ghost t = abs(self.s());
    let ghost src = src_root.f();
    let ghost u = abs(src.s());
    let ghost n = src_root.i();
    let ghost a = self.s().len() as int;
    let ghost d0 = self.d();
    let ghost ds = src.d();
    let ghost log0 = log.calls;
    let ghost mut q: Seq<int> = Seq::empty();
    let ghost m = pre(u, n);
    let ghost r0 = tour(u, n, 0, None);
    proof {
        nxok::<Id>();
        lemma_tw(self.s());
        lemma_tw(src.s());
        thm_pre(u, n);
        assert(log0.subrange(0, log0.len() as int) =~= log0);
        lemma_copy_start(t, u, n);
        assert(tail(r0) =~= r0.subrange(1, r0.len() as int));
    }
@hook add_mapping
    proof {
        lemma_paired(q, a, log0, log.calls, (hook0__, hook1__));
        log.calls = log.calls.push((hook0__, hook1__));
        q = q.push(nx(hook0__));
    }
@before_loop 0
    proof {
        let e = Seq::<int>::empty();
        assert(q =~= seq![n]);
        lemma_tw(self.s());
        lemma_dcopy(d0, ds, e, d0, n, self.d().last()->0);
        assert(e.push(n) =~= q);
        lemma_fcopy_start(t, u, n, self.s(), src_traverser.next);
    }
@loop 0
    invariant
        fstate(t, u, n, q, self.s(), ix(current_dest), src_traverser.next),
        src_traverser.next is Some,
        data_ok(self.s(), self.d()),
        dcopy(d0, ds, q, self.d()),
        paired(q, a, log0, log.calls),
        q.len() <= m.len(),
        forall|a: Id, b: Id| #[trigger] add_mapping.requires((a, b)),
    decreases m.len() - q.len(),
@after_loop 0
    proof {
        let z = Seq::<(Ev, int)>::empty();
        let w = tail(z);
        assert(dft(u, src_traverser.next, z)) by {
            reveal(walk);
            reveal(dft);
        }
    }
@fn dynamic::forest::Forest::clone_foreign_tree
@ghost_arg clone_foreign_tree_with_id_mapping
    Tracked(&mut log)
@spec
    requires
        old(self).ok(),
        src_root.ok(),
        old(self).s().len() + pre(src_root.f().t(), src_root.i()).len() <= nmax::<Id>() + 1,
    ensures
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_clone(old(self).t(), src_root.f().t(), src_root.i()),
        dcopy(old(self).d(), src_root.f().d(), pre(src_root.f().t(), src_root.i()), final(self).d()),
@entry
    let tracked mut log = log_unused();
