@fn dynamic::hierarchy::traverse::SafeModeDepthFirstTraverser::new
@spec
    requires
        live(hier.s(), ix(root)),
    ensures
        r.root == root,
        odev(r.next) == Some(Ev::O(ix(root))),
@fn dynamic::hierarchy::traverse::SafeModeDepthFirstTraverser::next_of_next
@spec
    requires
        old(self).next is Some ==> rpre(hier.s(), ix(old(self).root), dev(old(self).next->0)),
    ensures
        *final(self) == *old(self),
        odev(r) == (match old(self).next {
            None => None,
            Some(e) => rstep(hier.s(), ix(old(self).root), dev(e)),
        }),
@entry
    proof {
        eqok::<Id>();
    }
@fn dynamic::hierarchy::traverse::SafeModeDepthFirstTraverser::next
@spec
    requires
        old(self).next is Some ==> rpre(hier.s(), ix(old(self).root), dev(old(self).next->0)),
    ensures
        r == old(self).next,
        final(self).root == old(self).root,
        odev(final(self).next) == (match old(self).next {
            None => None,
            Some(e) => rstep(hier.s(), ix(old(self).root), dev(e)),
        }),
@fn dynamic::forest::Forest::remove_hooked::inner
@ghost_param
    Tracked(log): Tracked<&mut HookLog<F, T>>
@spec
    requires
        wf(old(hierarchy).s()),
        data_ok(old(hierarchy).s(), old(data)@),
        forall|x: T| #[trigger] f.requires((x,)),
    ensures
        removed(old(hierarchy).s(), old(data)@, final(hierarchy).s(), final(data)@, ix(node)),
        final(log).calls == old(log).calls + told(old(hierarchy).s(), old(data)@, ix(node)),
@attr
#[verifier::loop_isolation(false)]
@entry
    hide(rep);
    let ghost s0 = hierarchy.s();
    let ghost d0 = data@;
    let ghost n = ix(node);
    let ghost log0 = log.calls;
    let ghost k: int = 0;
    proof {
        eqok::<InternalId>();
        lemma_tw(s0);
        lemma_op_alive(s0);
        assert(log0 + Seq::<T>::empty() =~= log0);
    }
@before_loop 0
    let ghost s1 = hierarchy.s();
    let ghost r = tour(abs(s1), n, 0, None);
    proof {
        lemma_tour_start(s1, n);
        assert(s1 =~= kill(s1, closed_set(r, 0)));
        assert(data@ =~= gone(d0, closed_set(r, 0)));
        assert(pick(done(r, 0), d0) =~= Seq::<T>::empty());
    }
@loop 0
    invariant
        0 <= k <= r.len(),
        hierarchy.s() == kill(s1, closed_set(r, k)),
        data@ == gone(d0, closed_set(r, k)),
        odev(traverser.next) == evat(r, k),
        ix(traverser.root) == n,
        log.calls == log0 + pick(done(r, k), d0),
        traverser.next is Some ==> rpre(hierarchy.s(), n, dev(traverser.next->0)),
        forall|x: T| #[trigger] f.requires((x,)),
    decreases r.len() - k,
@loop_entry 0
    proof {
        lemma_fast_event(s1, n, r, k);
        lemma_event_done(r, k);
        lemma_now(abs(s1), n, r, k);
        if k + 1 < r.len() {
            lemma_fast_event(s1, n, r, k + 1);
        }
        let x = evn(r[k].0);
        if r[k].0 is C {
            assert(pick(done(r, k + 1), d0) =~= pick(done(r, k), d0).push(d0[x]->0));
            assert(kill(s1, closed_set(r, k + 1)) =~= hierarchy.s().update(x, nb_dead()));
            assert(gone(d0, closed_set(r, k + 1)) =~= data@.update(x, None));
        }
        k = k + 1;
    }
@hook f
    proof {
        log.calls = log.calls.push(hook0__);
    }
@after_loop 0
    proof {
        lemma_tour_end(s1, n);
        lemma_detach_sub(abs(s0), n);
        lemma_kill_all(s1, n);
        lemma_removed(s0, d0, s1, hierarchy.s(), data@, n);
    }
@fn dynamic::forest::Forest::remove_hooked
@ghost_param
    Tracked(log): Tracked<&mut HookLog<F, T>>
@ghost_arg inner
    Tracked(log)
@spec
    requires
        old(self).ok(),
        forall|x: T| #[trigger] f.requires((x,)),
    ensures
        final(self).ok(),
        removed(old(self).s(), old(self).d(), final(self).s(), final(self).d(), nx(node)),
        final(log).calls == old(log).calls + told(old(self).s(), old(self).d(), nx(node)),
@fn dynamic::forest::Forest::remove_hooked_panic_safe
@ghost_param
    Tracked(log): Tracked<&mut HookLog<F, T>>
@ghost_arg inner
    Tracked(log)
@spec
    requires
        old(self).ok(),
        forall|x: T| #[trigger] f.requires((x,)),
    ensures
        final(self).ok(),
        removed(old(self).s(), old(self).d(), final(self).s(), final(self).d(), nx(node)),
        final(log).calls == old(log).calls + told(old(self).s(), old(self).d(), nx(node)),
@fn dynamic::forest::Forest::remove
@spec
    requires
        old(self).ok(),
    ensures
        final(self).ok(),
        removed(old(self).s(), old(self).d(), final(self).s(), final(self).d(), nx(node)),
@entry
    let ghost s0 = self.s();
    let ghost d0 = self.d();
    // Only `drop` itself can be the hook that goes with this log.
    let tracked mut log = log_of(drop::<T>);
@exit
    proof {
        assert(log.calls =~= told(s0, d0, nx(node)));
    }
@ghost_arg remove_hooked
    Tracked(&mut log)
@fn dynamic::forest::node::NodeMut::remove_hooked
@ghost_param
    Tracked(log): Tracked<&mut HookLog<F, T>>
@ghost_arg remove_hooked
    Tracked(log)
@spec
    requires
        self.ok(),
        forall|x: T| #[trigger] f.requires((x,)),
    ensures
        (*final(self.forest)).ok(),
        removed(self.f().s(), self.f().d(), (*final(self.forest)).s(), (*final(self.forest)).d(), self.i()),
        final(log).calls == old(log).calls + told(self.f().s(), self.f().d(), self.i()),
@fn dynamic::forest::node::NodeMut::remove_hooked_panic_safe
@ghost_param
    Tracked(log): Tracked<&mut HookLog<F, T>>
@ghost_arg remove_hooked_panic_safe
    Tracked(log)
@spec
    requires
        self.ok(),
        forall|x: T| #[trigger] f.requires((x,)),
    ensures
        (*final(self.forest)).ok(),
        removed(self.f().s(), self.f().d(), (*final(self.forest)).s(), (*final(self.forest)).d(), self.i()),
        final(log).calls == old(log).calls + told(self.f().s(), self.f().d(), self.i()),
@fn dynamic::forest::node::NodeMut::remove
@spec
    requires
        self.ok(),
    ensures
        (*final(self.forest)).ok(),
        removed(self.f().s(), self.f().d(), (*final(self.forest)).s(), (*final(self.forest)).d(), self.i()),
@fn dynamic::forest::Forest::remove_hooked_panic_safe::inner
@ghost_param
    Tracked(log): Tracked<&mut HookLog<F, T>>
@spec
    requires
        wf(old(hierarchy).s()),
        data_ok(old(hierarchy).s(), old(data)@),
        forall|x: T| #[trigger] f.requires((x,)),
    ensures
        removed(old(hierarchy).s(), old(data)@, final(hierarchy).s(), final(data)@, ix(node)),
        final(log).calls == old(log).calls + told(old(hierarchy).s(), old(data)@, ix(node)),
@attr
#[verifier::loop_isolation(false)]
@entry
    hide(rep);
    let ghost s0 = hierarchy.s();
    let ghost d0 = data@;
    let ghost n = ix(node);
    let ghost log0 = log.calls;
    let ghost k: int = 0;
    proof {
        eqok::<InternalId>();
        lemma_tw(s0);
        lemma_op_alive(s0);
        assert(log0 + Seq::<T>::empty() =~= log0);
    }
@before_loop 0
    let ghost s1 = hierarchy.s();
    let ghost t = abs(s1);
    let ghost r = tour(t, n, 0, None);
    proof {
        lemma_tour_start(s1, n);
        lemma_drop_none(t, r);
        lemma_detach_sub(abs(s0), n);
        assert(data@ =~= gone(d0, closed_set(r, 0)));
        assert(pick(done(r, 0), d0) =~= Seq::<T>::empty());
        lemma_safe_event(s1, t, n, r, 0);
    }
@loop 0
    invariant
        0 <= k <= r.len(),
        wf(hierarchy.s()),
        abs(hierarchy.s()) == t_drop(t, closed_set(r, k)),
        data@ == gone(d0, closed_set(r, k)),
        odev(traverser.next) == evat(r, k),
        ix(traverser.root) == n,
        log.calls == log0 + pick(done(r, k), d0),
        traverser.next is Some ==> rpre(hierarchy.s(), n, dev(traverser.next->0)),
        forall|x: T| #[trigger] f.requires((x,)),
    decreases r.len() - k,
@loop_entry 0
    let ghost s2 = hierarchy.s();
    proof {
        lemma_tw(s2);
        lemma_safe_event(s2, t, n, r, k);
        lemma_event_done(r, k);
        lemma_now(t, n, r, k);
        let x = evn(r[k].0);
        if r[k].0 is C {
            lemma_drop_step(t, n, r, k);
            assert(pick(done(r, k + 1), d0) =~= pick(done(r, k), d0).push(d0[x]->0));
            assert(gone(d0, closed_set(r, k + 1)) =~= data@.update(x, None));
        } else if k + 1 < r.len() {
            lemma_safe_event(s2, t, n, r, k + 1);
        }
        k = k + 1;
    }
@after detach#1
    proof {
        lemma_tw(hierarchy.s());
        lemma_kill(hierarchy.s(), ix(id));
    }
@hook f
    // The hook may panic: what it leaves behind is a consistent forest without the nodes done so far.
    proof {
        assert(wf(hierarchy.s()));
        lemma_drop_data(s0, d0, n, hierarchy.s(), closed_set(r, k));
        assert(data_ok(hierarchy.s(), data@));
        assert(abs(hierarchy.s()) == t_drop(t_detach(abs(s0), n), closed_set(r, k)));
        assert(data@ == gone(d0, closed_set(r, k)));
        if k < r.len() {
            lemma_safe_event(hierarchy.s(), t, n, r, k);
        }
        log.calls = log.calls.push(hook0__);
        assert(log.calls == log0 + pick(done(r, k), d0));
    }
@after_loop 0
    proof {
        lemma_tour_end(s1, n);
        lemma_removed(s0, d0, s1, hierarchy.s(), data@, n);
    }
