@fn dynamic::hierarchy::Hierarchy::create_root__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    kept_at(p, old(self).s(), self.s())
@spec
    requires
        wf(old(self).s()),
        old(self).s().len() <= Id::max_idx() || p,
    ensures
        old(self).s().len() <= Id::max_idx(),
        ix(r) == old(self).s().len(),
        final(self).s() == old(self).s().push(nb_root(ix(r))),
        wf(final(self).s()),
        abs(final(self).s()) == t_new(abs(old(self).s())),
@exit
    proof {
        let s = old(self).s();
        assert(self.s() =~= s.push(nb_root(s.len() as int)));
        lemma_create(s, abs(s));
    }
@fn dynamic::hierarchy::SiblingsRange::with_single_toplevel__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    p
@spec
    requires
        live(hier.s(), ix(node)) || p,
    ensures
        live(hier.s(), ix(node)),
        r.first == node && r.last == node,
@fn dynamic::hierarchy::Hierarchy::detach__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    kept_at(p, old(self).s(), self.s())
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)) || p,
    ensures
        live(old(self).s(), ix(node)),
        wf(final(self).s()),
        abs(final(self).s()) == t_detach(abs(old(self).s()), ix(node)),
@entry
    let ghost s = self.s();
    proof {
        eqok::<Id>();
        if live(s, ix(node)) {
            lemma_single(s, ix(node));
            lemma_detach(s, ix(node));
        }
    }
@exit
    proof {
        let t = abs(s);
        let n = ix(node);
        let s1 = ct(s, t.parent[n], prev_of(t, n), next_of(t, n));
        assert(self.s() =~= s1.update(n, Nb { parent: None, prev: Some(n), next: None, ..s1[n] }));
    }
@fn dynamic::hierarchy::Hierarchy::detach_single__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    kept_at(p, old(self).s(), self.s())
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)) || p,
    ensures
        live(old(self).s(), ix(node)),
        wf(final(self).s()),
        r is Err <==> abs(old(self).s()).parent[ix(node)] is None && abs(old(self).s()).kids[ix(node)].len() > 1,
        r is Err ==> r->Err_0 is SiblingsWithoutParent && final(self).s() == old(self).s(),
        r is Ok ==> abs(final(self).s()) == t_detach_single(abs(old(self).s()), ix(node)),
@entry
    hide(rep);
    hide(t_detach_single);
    hide(t_move);
    hide(t_detach);
    hide(ct);
    hide(ct_pre);
    let ghost s = self.s();
    let ghost t = abs(s);
    let ghost n = ix(node);
    proof {
        if live(s, n) {
        eqok::<Id>();
        lemma_single(s, n);
        lemma_detach(s, n);
        if t.kids[n].len() > 0 {
            if t.parent[n] is Some {
                lemma_detach_single(s, n);
            } else if t.kids[n].len() == 1 {
                lemma_single_root(s, n);
            } else {
                lemma_ends_differ(s, n);
            }
        } else {
            reveal(t_detach_single);
        }
        lemma_wf_all();
            }
    }
@exit
    proof {
        let z = s2;
        assert(self.s() =~= z.update(n, Nb { parent: None, prev: Some(n), next: None, ..z[n] }));
    }
@after transplant
    let ghost s2 = self.s();
@fn dynamic::hierarchy::Hierarchy::prepend_child__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    kept_at(p, old(self).s(), self.s())
@stop_calls with_single_toplevel
@ghost_arg with_single_toplevel__stop
    Ghost(kept_at(p, old(self).s(), self.s()))
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(new_first_child)) && live(old(self).s(), ix(parent)) || p,
    ensures
        wf(final(self).s()),
        r is Ok ==> live(old(self).s(), ix(new_first_child)) && live(old(self).s(), ix(parent)),
        r is Ok ==> refusal(abs(old(self).s()), ix(new_first_child), Dst::First(ix(parent))) is None,
        r is Err ==> final(self).s() == old(self).s(),
        live(old(self).s(), ix(new_first_child)) && live(old(self).s(), ix(parent)) && refusal(abs(old(self).s()), ix(new_first_child), Dst::First(ix(parent))) is None ==> r is Ok,
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(new_first_child), Dst::First(ix(parent))),
@entry
    let ghost s = self.s();
    let ghost d = Dst::First(ix(parent));
    proof {
        eqok::<Id>();
        if live(s, anchor(d)) {
            lemma_single(s, anchor(d));
            if live(s, ix(new_first_child)) {
                lemma_single(s, ix(new_first_child));
                if dst_parent(abs(s), d) is Some && !((d is Before || d is After) && ix(new_first_child) == anchor(d)) {
                    lemma_insert(s, ix(new_first_child), d);
                    lemma_abs_all(t_insert(abs(s), ix(new_first_child), d));
                }
            }
        }
    }
@fn dynamic::hierarchy::Hierarchy::append_child__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    kept_at(p, old(self).s(), self.s())
@stop_calls with_single_toplevel
@ghost_arg with_single_toplevel__stop
    Ghost(kept_at(p, old(self).s(), self.s()))
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(new_last_child)) && live(old(self).s(), ix(parent)) || p,
    ensures
        wf(final(self).s()),
        r is Ok ==> live(old(self).s(), ix(new_last_child)) && live(old(self).s(), ix(parent)),
        r is Ok ==> refusal(abs(old(self).s()), ix(new_last_child), Dst::Last(ix(parent))) is None,
        r is Err ==> final(self).s() == old(self).s(),
        live(old(self).s(), ix(new_last_child)) && live(old(self).s(), ix(parent)) && refusal(abs(old(self).s()), ix(new_last_child), Dst::Last(ix(parent))) is None ==> r is Ok,
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(new_last_child), Dst::Last(ix(parent))),
@entry
    let ghost s = self.s();
    let ghost d = Dst::Last(ix(parent));
    proof {
        eqok::<Id>();
        if live(s, anchor(d)) {
            lemma_single(s, anchor(d));
            if live(s, ix(new_last_child)) {
                lemma_single(s, ix(new_last_child));
                if dst_parent(abs(s), d) is Some && !((d is Before || d is After) && ix(new_last_child) == anchor(d)) {
                    lemma_insert(s, ix(new_last_child), d);
                    lemma_abs_all(t_insert(abs(s), ix(new_last_child), d));
                }
            }
        }
    }
@fn dynamic::hierarchy::Hierarchy::insert_before__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    kept_at(p, old(self).s(), self.s())
@stop_calls with_single_toplevel
@ghost_arg with_single_toplevel__stop
    Ghost(kept_at(p, old(self).s(), self.s()))
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)) && live(old(self).s(), ix(next_sibling)) || p,
    ensures
        wf(final(self).s()),
        r is Ok ==> live(old(self).s(), ix(node)) && live(old(self).s(), ix(next_sibling)),
        r is Ok ==> refusal(abs(old(self).s()), ix(node), Dst::Before(ix(next_sibling))) is None,
        r is Err ==> final(self).s() == old(self).s(),
        live(old(self).s(), ix(node)) && live(old(self).s(), ix(next_sibling)) && refusal(abs(old(self).s()), ix(node), Dst::Before(ix(next_sibling))) is None ==> r is Ok,
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(node), Dst::Before(ix(next_sibling))),
@entry
    let ghost s = self.s();
    let ghost d = Dst::Before(ix(next_sibling));
    proof {
        eqok::<Id>();
        if live(s, anchor(d)) {
            lemma_single(s, anchor(d));
            if live(s, ix(node)) {
                lemma_single(s, ix(node));
                if dst_parent(abs(s), d) is Some && !((d is Before || d is After) && ix(node) == anchor(d)) {
                    lemma_insert(s, ix(node), d);
                    lemma_abs_all(t_insert(abs(s), ix(node), d));
                }
            }
        }
    }
@fn dynamic::hierarchy::Hierarchy::insert_after__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    kept_at(p, old(self).s(), self.s())
@stop_calls with_single_toplevel
@ghost_arg with_single_toplevel__stop
    Ghost(kept_at(p, old(self).s(), self.s()))
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)) && live(old(self).s(), ix(prev_sibling)) || p,
    ensures
        wf(final(self).s()),
        r is Ok ==> live(old(self).s(), ix(node)) && live(old(self).s(), ix(prev_sibling)),
        r is Ok ==> refusal(abs(old(self).s()), ix(node), Dst::After(ix(prev_sibling))) is None,
        r is Err ==> final(self).s() == old(self).s(),
        live(old(self).s(), ix(node)) && live(old(self).s(), ix(prev_sibling)) && refusal(abs(old(self).s()), ix(node), Dst::After(ix(prev_sibling))) is None ==> r is Ok,
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(node), Dst::After(ix(prev_sibling))),
@entry
    let ghost s = self.s();
    let ghost d = Dst::After(ix(prev_sibling));
    proof {
        eqok::<Id>();
        if live(s, anchor(d)) {
            lemma_single(s, anchor(d));
            if live(s, ix(node)) {
                lemma_single(s, ix(node));
                if dst_parent(abs(s), d) is Some && !((d is Before || d is After) && ix(node) == anchor(d)) {
                    lemma_insert(s, ix(node), d);
                    lemma_abs_all(t_insert(abs(s), ix(node), d));
                }
            }
        }
    }
@fn dynamic::hierarchy::Hierarchy::insert__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    kept_at(p, old(self).s(), self.s())
@stop_calls prepend_child append_child insert_before insert_after
@ghost_arg prepend_child__stop
    Ghost(kept_at(p, old(self).s(), self.s()))
@ghost_arg append_child__stop
    Ghost(kept_at(p, old(self).s(), self.s()))
@ghost_arg insert_before__stop
    Ghost(kept_at(p, old(self).s(), self.s()))
@ghost_arg insert_after__stop
    Ghost(kept_at(p, old(self).s(), self.s()))
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)) && live(old(self).s(), anchor(dst(dest))) || p,
    ensures
        wf(final(self).s()),
        r is Ok ==> live(old(self).s(), ix(node)) && live(old(self).s(), anchor(dst(dest))),
        r is Ok ==> refusal(abs(old(self).s()), ix(node), dst(dest)) is None,
        r is Err ==> final(self).s() == old(self).s(),
        live(old(self).s(), ix(node)) && live(old(self).s(), anchor(dst(dest))) && refusal(abs(old(self).s()), ix(node), dst(dest)) is None ==> r is Ok,
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(node), dst(dest)),
@fn dynamic::forest::Forest::detach__stop
@stop
    same(*old(self), *self)
@stop_calls detach
@ghost_arg detach__stop
    Ghost(same(*old(self), *self))
@spec
    requires
        old(self).ok(),
    ensures
        live(old(self).s(), nx(node)),
@entry
    proof {
        lemma_op_alive(self.s());
    }
@fn dynamic::forest::Forest::detach_single__stop
@stop
    same(*old(self), *self)
@stop_calls detach_single
@ghost_arg detach_single__stop
    Ghost(same(*old(self), *self))
@spec
    requires
        old(self).ok(),
    ensures
        live(old(self).s(), nx(node)),
        r is Err ==> same(*old(self), *final(self)),
@entry
    proof {
        lemma_op_alive(self.s());
    }
@fn dynamic::forest::Forest::insert__stop
@stop
    same(*old(self), *self)
@stop_calls insert
@ghost_arg insert__stop
    Ghost(same(*old(self), *self))
@spec
    requires
        old(self).ok(),
    ensures
        r is Ok ==> live(old(self).s(), nx(node)) && live(old(self).s(), anchor(ndst(dest))),
        r is Err ==> same(*old(self), *final(self)),
@entry
    proof {
        lemma_op_alive(self.s());
    }
@fn dynamic::forest::Forest::create_root__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    both(p, same(*old(self), *self))
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost(both(p, same(*old(self), *self)))
@spec
    requires
        old(self).ok(),
        old(self).s().len() <= nmax::<Id>() || p,
    ensures
        old(self).s().len() <= nmax::<Id>(),
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_new(old(self).t()),
        final(self).d() == old(self).d().push(Some(data)),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::create_insert_momo__stop
@ghost_param
    Ghost(t0): Ghost<Tr>, Ghost(d0): Ghost<Seq<Option<T>>>
@stop
    frozen(t0, d0, hierarchy.s(), storage@)
@stop_calls create_root insert
@ghost_arg create_root__stop
    Ghost(frozen(t0, d0, hierarchy.s(), storage@))
@ghost_arg insert__stop
    Ghost(frozen(t0, d0, hierarchy.s(), storage@))
@spec
    requires
        wf(old(hierarchy).s()),
        data_ok(old(hierarchy).s(), old(storage)@),
        frozen(t0, d0, old(hierarchy).s(), old(storage)@),
    ensures
        old(hierarchy).s().len() <= Id::max_idx(),
        live(old(hierarchy).s(), anchor(dst(dest))),
        dst_parent(abs(old(hierarchy).s()), dst(dest)) is Some,
        ix(r) == old(hierarchy).s().len(),
        wf(final(hierarchy).s()),
        data_ok(final(hierarchy).s(), final(storage)@),
        final(storage)@ == old(storage)@.push(Some(data)),
        abs(final(hierarchy).s()) == t_insert(t_new(abs(old(hierarchy).s())), ix(r), dst(dest)),
@entry
    proof {
        lemma_stop_create(hierarchy.s(), dst(dest));
        lemma_frozen_new(t0, d0, hierarchy.s(), storage@, Some(data));
    }
@fn dynamic::forest::Forest::create_insert__stop
@ghost_param
    Ghost(t0): Ghost<Tr>, Ghost(d0): Ghost<Seq<Option<T>>>
@stop
    frozen(t0, d0, self.s(), self.d())
@stop_calls create_insert_momo
@ghost_arg create_insert_momo__stop
    Ghost(t0), Ghost(d0)
@spec
    requires
        old(self).ok(),
        frozen(t0, d0, old(self).s(), old(self).d()),
    ensures
        old(self).s().len() <= nmax::<Id>(),
        live(old(self).s(), anchor(ndst(dest))),
        dst_parent(old(self).t(), ndst(dest)) is Some,
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).d() == old(self).d().push(Some(data)),
        final(self).t() == t_insert(t_new(old(self).t()), nx(r), ndst(dest)),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::Forest::clone_local_tree_with_id_mapping__stop::clone_next_node
@stop
    frozen(t, d0, hierarchy.s(), data@)
@stop_calls create_insert_momo
@ghost_arg create_insert_momo__stop
    Ghost(t), Ghost(d0)
@ghost_param
    Ghost(t): Ghost<Tr>, Ghost(n): Ghost<int>, Ghost(q): Ghost<Seq<int>>, Ghost(d0): Ghost<Seq<Option<T>>>
@spec
    requires
        room(t, t, n, d0, d0, (t.alive.len() + pre(t, n).len()) as int),
        lstate(t, n, q, old(hierarchy).s(), ix(*old(current_dest)), ix(old(traverser).root), odev(old(traverser).next)),
        old(traverser).next is Some,
        data_ok(old(hierarchy).s(), old(data)@),
        dcopy(d0, d0, q, old(data)@),
    ensures
        data_ok(final(hierarchy).s(), final(data)@),
        wf(final(hierarchy).s()),
        r is Some ==> lstate(t, n, q.push(ix(r->0)), final(hierarchy).s(), ix(*final(current_dest)), ix(final(traverser).root), odev(final(traverser).next)),
        r is Some ==> final(traverser).next is Some,
        r is Some ==> dcopy(d0, d0, q.push(ix(r->0)), final(data)@),
        r is Some ==> ix(*final(current_dest)) == d0.len() + q.len(),
        r is Some ==> q.len() < pre(t, n).len(),
        r is None ==> q == pre(t, n),
        r is None ==> abs(final(hierarchy).s()) == t_clone(t, t, n),
        r is None ==> dcopy(d0, d0, q, final(data)@),
        r is None ==> ix(*final(current_dest)) == d0.len(),
@attr
#[verifier::loop_isolation(false)]
@entry
    hide(rep);
    hide(t_copy);
    hide(t_clone);
    hide(t_insert);
    let ghost r0 = tour(t, n, 0, None);
    let ghost mut k = choose|k: int| #[trigger] lcopy(t, n, k, q, hierarchy.s(), ix(*current_dest), ix(traverser.root), odev(traverser.next));
    proof {
        eqok::<InternalId>();
    }
@loop 0
    invariant
        lcopy(t, n, k, q, hierarchy.s(), ix(*current_dest), ix(traverser.root), odev(traverser.next)),
        k < r0.len(),
        data_ok(hierarchy.s(), data@),
        dcopy(d0, d0, q, data@),
        traverser.next is Some,
        rpre(hierarchy.s(), n, dev(traverser.next->0)),
    decreases r0.len() - k,
@before_loop 0
    proof {
        lemma_copying(t, t, n, k, q, hierarchy.s(), ix(*current_dest));
        lemma_copy_event(hierarchy.s(), t, n, r0, k, q);
    }
@loop_entry 0
    let ghost d1 = data@;
    proof {
        lemma_copying(t, t, n, k, q, hierarchy.s(), ix(*current_dest));
        lemma_copy_event(hierarchy.s(), t, n, r0, k, q);
        lemma_frozen_copy(t, t, n, k, q, hierarchy.s(), ix(*current_dest), d0, d0, data@);
        k = k + 1;
        if k < r0.len() && r0[k - 1].0 is C {
            lemma_copy_event(hierarchy.s(), t, n, r0, k, q);
        }
    }
@after create_insert_momo__stop#0
    proof {
        lemma_dcopy(d0, d0, q, d1, evn(r0[k - 1].0), data@.last()->0);
        assert(lcopy(t, n, k, q.push(evn(r0[k - 1].0)), hierarchy.s(), ix(*current_dest), ix(traverser.root), odev(traverser.next)));
        lemma_copying(t, t, n, k, q.push(evn(r0[k - 1].0)), hierarchy.s(), ix(*current_dest));
        assert(lstate(t, n, q.push(evn(r0[k - 1].0)), hierarchy.s(), ix(*current_dest), ix(traverser.root), odev(traverser.next)));
        assert(traverser.next is Some);
    }
@fn dynamic::forest::Forest::clone_foreign_tree_with_id_mapping__stop::clone_next_node
@stop
    frozen(t, d0, hierarchy_dest.s(), data_dest@)
@stop_calls create_insert_momo
@ghost_arg create_insert_momo__stop
    Ghost(t), Ghost(d0)
@ghost_param
    Ghost(t): Ghost<Tr>, Ghost(n): Ghost<int>, Ghost(q): Ghost<Seq<int>>, Ghost(d0): Ghost<Seq<Option<T>>>
@spec
    requires
        wf(hierarchy_src.s()),
        room(t, abs(hierarchy_src.s()), n, d0, data_src@, (t.alive.len() + pre(abs(hierarchy_src.s()), n).len()) as int),
        fstate(t, abs(hierarchy_src.s()), n, q, old(hierarchy_dest).s(), ix(*old(current_dest)), old(src_traverser).next),
        old(src_traverser).next is Some,
        data_ok(old(hierarchy_dest).s(), old(data_dest)@),
        dcopy(d0, data_src@, q, old(data_dest)@),
    ensures
        data_ok(final(hierarchy_dest).s(), final(data_dest)@),
        wf(final(hierarchy_dest).s()),
        r is Some ==> fstate(t, abs(hierarchy_src.s()), n, q.push(ix(r->0)), final(hierarchy_dest).s(), ix(*final(current_dest)), final(src_traverser).next),
        r is Some ==> final(src_traverser).next is Some,
        r is Some ==> dcopy(d0, data_src@, q.push(ix(r->0)), final(data_dest)@),
        r is Some ==> ix(*final(current_dest)) == d0.len() + q.len(),
        r is Some ==> q.len() < pre(abs(hierarchy_src.s()), n).len(),
        r is None ==> q == pre(abs(hierarchy_src.s()), n),
        r is None ==> abs(final(hierarchy_dest).s()) == t_clone(t, abs(hierarchy_src.s()), n),
        r is None ==> dcopy(d0, data_src@, q, final(data_dest)@),
        r is None ==> ix(*final(current_dest)) == d0.len(),
        r is None ==> final(src_traverser).next is None,
@attr
#[verifier::loop_isolation(false)]
@entry
    hide(rep);
    hide(t_copy);
    hide(t_clone);
    hide(t_insert);
    hide(dft);
    hide(copying);
    hide(fcopy);
    hide(tour);
    hide(twalk);
    hide(tw);
    hide(t_new);
    hide(wf);
    let ghost u = abs(hierarchy_src.s());
    let ghost r0 = tour(u, n, 0, None);
    let ghost mut k = choose|k: int| #[trigger] fcopy(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest), src_traverser.next);
    proof {
        eqok::<InternalId>();
        lemma_tw(hierarchy_src.s());
    }
@loop 0
    invariant
        fcopy(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest), src_traverser.next),
        k < r0.len(),
        data_ok(hierarchy_dest.s(), data_dest@),
        dcopy(d0, data_src@, q, data_dest@),
        src_traverser.next is Some,
        dft(u, src_traverser.next, r0.subrange(k, r0.len() as int)),
        tail(r0.subrange(k, r0.len() as int)) =~= r0.subrange(k + 1, r0.len() as int),
        1 <= k,
    decreases r0.len() - k,
@before_loop 0
    proof {
        lemma_fcopy::<InternalId>(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest));
    }
@loop_entry 0
    let ghost d1 = data_dest@;
    proof {
        lemma_fcopy::<InternalId>(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest));
        lemma_copying(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest));
        lemma_frozen_copy(t, u, n, k, q, hierarchy_dest.s(), ix(*current_dest), d0, data_src@, data_dest@);
        k = k + 1;
    }
@after create_insert_momo__stop#0
    proof {
        let x = evn(r0[k - 1].0);
        lemma_dcopy(d0, data_src@, q, d1, x, data_dest@.last()->0);
        assert(fcopy(t, u, n, k, q.push(x), hierarchy_dest.s(), ix(*current_dest), src_traverser.next));
        lemma_copying(t, u, n, k, q.push(x), hierarchy_dest.s(), ix(*current_dest));
        assert(fstate(t, u, n, q.push(x), hierarchy_dest.s(), ix(*current_dest), src_traverser.next));
    }
@fn dynamic::forest::Forest::clone_local_tree_with_id_mapping__stop
@stop
    same(*old(self), *self)
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost(same(*old(self), *self))
@ghost_param
    Tracked(log): Tracked<&mut HookLog<F, (Id, Id)>>
@ghost_arg clone_next_node
    Ghost(t), Ghost(n), Ghost(q), Ghost(d0)
@spec
    requires
        old(self).ok(),
        forall|a: Id, b: Id| #[trigger] add_mapping.requires((a, b)),
    ensures
        live(old(self).s(), nx(src_id)),
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_clone(old(self).t(), old(self).t(), nx(src_id)),
        dcopy(old(self).d(), old(self).d(), pre(old(self).t(), nx(src_id)), final(self).d()),
        paired(pre(old(self).t(), nx(src_id)), old(self).s().len() as int, old(log).calls, final(log).calls),
@attr
#[verifier::loop_isolation(false)]
@entry
    hide(rep);
    hide(t_copy);
    hide(t_clone);
    let ghost t = abs(self.s());
    let ghost n = nx(src_id);
    let ghost a = self.s().len() as int;
    let ghost d0 = self.d();
    let ghost log0 = log.calls;
    let ghost mut q: Seq<int> = Seq::empty();
    let ghost m = pre(t, n);
    proof {
        nxok::<Id>();
        lemma_tw(self.s());
        if live(self.s(), n) {
            thm_pre(t, n);
            lemma_copy_start(t, t, n);
        }
        assert(log0.subrange(0, log0.len() as int) =~= log0);
    }
@hook add_mapping
    proof {
        lemma_paired(q, a, log0, log.calls, (hook0__, hook1__));
        log.calls = log.calls.push((hook0__, hook1__));
        q = q.push(nx(hook0__));
    }
@before_loop 0
    proof {
        let e = Seq::<int>::empty();
        assert(q =~= seq![n]);
        lemma_tw(self.s());
        lemma_copy_event(self.s(), t, n, tour(t, n, 0, None), 0, q);
        lemma_dcopy(d0, d0, e, d0, n, self.d().last()->0);
        assert(e.push(n) =~= q);
        lemma_copying(t, t, n, 1, q, self.s(), ix(current_dest));
        assert(lcopy(t, n, 1, q, self.s(), ix(current_dest), ix(traverser.root), odev(traverser.next)));
    }
@loop 0
    invariant
        lstate(t, n, q, self.s(), ix(current_dest), ix(traverser.root), odev(traverser.next)),
        traverser.next is Some,
        data_ok(self.s(), self.d()),
        dcopy(d0, d0, q, self.d()),
        paired(q, a, log0, log.calls),
        q.len() <= m.len(),
        forall|a: Id, b: Id| #[trigger] add_mapping.requires((a, b)),
    decreases m.len() - q.len(),
@fn dynamic::forest::Forest::clone_foreign_tree_with_id_mapping__stop
@stop
    same(*old(self), *self)
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost(same(*old(self), *self))
@ghost_param
    Tracked(log): Tracked<&mut HookLog<F, (Id, Id)>>
@ghost_arg clone_next_node
    Ghost(t), Ghost(n), Ghost(q), Ghost(d0)
@spec
    requires
        old(self).ok(),
        src_root.ok(),
        forall|a: Id, b: Id| #[trigger] add_mapping.requires((a, b)),
    ensures
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_clone(old(self).t(), src_root.f().t(), src_root.i()),
        dcopy(old(self).d(), src_root.f().d(), pre(src_root.f().t(), src_root.i()), final(self).d()),
        paired(pre(src_root.f().t(), src_root.i()), old(self).s().len() as int, old(log).calls, final(log).calls),
@attr
#[verifier::loop_isolation(false)]
@entry
    hide(rep);
    hide(t_copy);
    hide(t_clone);
    hide(walk);
    hide(tour);
    hide(t_insert);
    hide(copying);
    hide(fcopy);
    hide(dft);
    hide(tw);
    let ghost t = abs(self.s());
    let ghost src = src_root.f();
    let ghost u = abs(src.s());
    let ghost n = src_root.i();
    let ghost a = self.s().len() as int;
    let ghost d0 = self.d();
    let ghost ds = src.d();
    let ghost log0 = log.calls;
    let ghost mut q: Seq<int> = Seq::empty();
    let ghost m = pre(u, n);
    let ghost r0 = tour(u, n, 0, None);
    proof {
        nxok::<Id>();
        lemma_tw(self.s());
        lemma_tw(src.s());
        thm_pre(u, n);
        assert(log0.subrange(0, log0.len() as int) =~= log0);
        lemma_copy_start(t, u, n);
        assert(tail(r0) =~= r0.subrange(1, r0.len() as int));
    }
@hook add_mapping
    proof {
        lemma_paired(q, a, log0, log.calls, (hook0__, hook1__));
        log.calls = log.calls.push((hook0__, hook1__));
        q = q.push(nx(hook0__));
    }
@before_loop 0
    proof {
        let e = Seq::<int>::empty();
        assert(q =~= seq![n]);
        lemma_tw(self.s());
        lemma_dcopy(d0, ds, e, d0, n, self.d().last()->0);
        assert(e.push(n) =~= q);
        lemma_fcopy_start(t, u, n, self.s(), src_traverser.next);
    }
@loop 0
    invariant
        fstate(t, u, n, q, self.s(), ix(current_dest), src_traverser.next),
        src_traverser.next is Some,
        data_ok(self.s(), self.d()),
        dcopy(d0, ds, q, self.d()),
        paired(q, a, log0, log.calls),
        q.len() <= m.len(),
        forall|a: Id, b: Id| #[trigger] add_mapping.requires((a, b)),
    decreases m.len() - q.len(),
@after_loop 0
    proof {
        let z = Seq::<(Ev, int)>::empty();
        let w = tail(z);
        assert(dft(u, src_traverser.next, z)) by {
            reveal(walk);
            reveal(dft);
        }
    }
@fn dynamic::forest::Forest::clone_local_tree__stop
@stop
    same(*old(self), *self)
@stop_calls clone_local_tree_with_id_mapping
@ghost_arg clone_local_tree_with_id_mapping__stop
    Tracked(&mut log)
@spec
    requires
        old(self).ok(),
    ensures
        live(old(self).s(), nx(src_id)),
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_clone(old(self).t(), old(self).t(), nx(src_id)),
        dcopy(old(self).d(), old(self).d(), pre(old(self).t(), nx(src_id)), final(self).d()),
@entry
    let tracked mut log = log_unused();
@fn dynamic::forest::Forest::clone_foreign_tree__stop
@stop
    same(*old(self), *self)
@stop_calls clone_foreign_tree_with_id_mapping
@ghost_arg clone_foreign_tree_with_id_mapping__stop
    Tracked(&mut log)
@spec
    requires
        old(self).ok(),
        src_root.ok(),
    ensures
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_clone(old(self).t(), src_root.f().t(), src_root.i()),
        dcopy(old(self).d(), src_root.f().d(), pre(src_root.f().t(), src_root.i()), final(self).d()),
@entry
    let tracked mut log = log_unused();
@fn dynamic::forest::node::NodeMut::try_adopt__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    both(p, same(old(self).f(), self.f()))
@stop_calls insert
@ghost_arg insert__stop
    Ghost(both(p, same(old(self).f(), self.f())))
@spec
    requires
        old(self).ok(),
        live(old(self).f().s(), nx(node)) || p,
    ensures
        r is Ok ==> live(old(self).f().s(), nx(node)),
        r is Err ==> same(old(self).f(), final(self).f()),
@entry
    proof {
        lemma_op_alive(self.f().s());
    }
@fn dynamic::forest::node::NodeMut::adopt__stop
@stop
    same(old(self).f(), self.f())
@stop_calls try_adopt
@ghost_arg try_adopt__stop
    Ghost(same(old(self).f(), self.f()))
@spec
    requires
        old(self).ok(),
    ensures
        live(old(self).f().s(), nx(node)),
@fn dynamic::forest::node::NodeMut::create__stop
@stop
    frozen(old(self).f().t(), old(self).f().d(), self.f().s(), self.f().d())
@stop_calls create_insert
@ghost_arg create_insert__stop
    Ghost(old(self).f().t()), Ghost(old(self).f().d())
@spec
    requires
        old(self).ok(),
    ensures
        old(self).f().s().len() <= nmax::<Id>(),
        dst_parent(old(self).f().t(), ndst(insert_as(dest, old(self).id))) is Some,
        nx(r) == old(self).f().s().len(),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::chain_builder::ChainTreeBuilder::new__stop
@stop
    same(*old(forest), *forest)
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost(same(*old(forest), *forest))
@spec
    requires
        old(forest).ok(),
    ensures
        old(forest).s().len() <= nmax::<Id>(),
        nx(r.root) == old(forest).s().len(),
        r.current == r.root,
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::chain_builder::ChainTreeBuilder::child__stop
@stop
    frozen(old(self).f().t(), old(self).f().d(), self.f().s(), self.f().d())
@stop_calls create_insert
@ghost_arg create_insert__stop
    Ghost(old(self).f().t()), Ghost(old(self).f().d())
@spec
    requires
        old(self).f().ok(),
    ensures
        old(self).f().s().len() <= nmax::<Id>(),
        live(old(self).f().s(), nx(old(self).current)),
        dst_parent(old(self).f().t(), Dst::Last(nx(old(self).current))) is Some,
        nx(r.current) == old(self).f().s().len(),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::chain_builder::ChainTreeBuilder::sibling__stop
@stop
    frozen(old(self).f().t(), old(self).f().d(), self.f().s(), self.f().d())
@stop_calls create_insert
@ghost_arg create_insert__stop
    Ghost(old(self).f().t()), Ghost(old(self).f().d())
@spec
    requires
        old(self).f().ok(),
    ensures
        old(self).f().s().len() <= nmax::<Id>(),
        live(old(self).f().s(), nx(old(self).current)),
        dst_parent(old(self).f().t(), Dst::After(nx(old(self).current))) is Some,
        nx(r.current) == old(self).f().s().len(),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::chain_builder::ChainTreeBuilder::try_parent__stop
@stop
    both(old(self).f() == self.f(), old(self).current == self.current)
@spec
    requires
        old(self).f().ok(),
    ensures
        live(old(self).f().s(), nx(old(self).current)),
@entry
    proof {
        nxok::<Id>();
        if live(self.f().s(), nx(self.current)) {
            lemma_nav(self.forest.s(), nx(self.current));
        }
    }
@fn dynamic::forest::chain_builder::ChainTreeBuilder::parent__stop
@stop
    both(old(self).f() == self.f(), old(self).current == self.current)
@spec
    requires
        old(self).f().ok(),
    ensures
        live(old(self).f().s(), nx(old(self).current)),
        old(self).f().t().parent[nx(old(self).current)] is Some,
@entry
    proof {
        nxok::<Id>();
        if live(self.f().s(), nx(self.current)) {
            lemma_nav(self.forest.s(), nx(self.current));
        }
    }
@fn dynamic::forest::nest_builder::NestTreeBuilder::new__stop
@stop
    same(*old(forest), *forest)
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost(same(*old(forest), *forest))
@spec
    requires
        old(forest).ok(),
    ensures
        old(forest).s().len() <= nmax::<Id>(),
        nx(r.root) == old(forest).s().len(),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::nest_builder::NestTreeBuilder::add_child__stop
@ghost_param
    Ghost(p): Ghost<bool>
@stop
    both(p, same(old(self).f(), self.f()))
@stop_calls create_root
@ghost_arg create_root__stop
    Ghost(both(p, same(old(self).f(), self.f())))
@spec
    requires
        old(self).ok(),
        old(self).f().s().len() <= nmax::<Id>() || p,
    ensures
        old(self).f().s().len() <= nmax::<Id>(),
        old(self).step(*final(self)),
        final(self).current is Some,
        nx(final(self).current->0) == old(self).f().s().len(),
        final(self).f().t() == put(old(self).f().t(), nx(old(self).root), old(self).f().t().kids[nx(old(self).root)].len() as int),
        final(self).f().d() == old(self).f().d().push(Some(data)),
        final(self).f().s().len() == old(self).f().s().len() + 1,
@entry
    proof {
        nxok::<Id>();
        lemma_add_last(self.forest.s(), nx(self.root), self.forest.d(), Some(data));
    }
@fn dynamic::forest::nest_builder::NestTreeBuilder::create_tree__stop
@stop
    same(old(self).f(), self.f())
@stop_calls add_child
@ghost_arg add_child__stop
    Ghost(same(old(self).f(), self.f()))
@spec
    requires
        old(self).ok(),
        callable(*old(self), data, f),
    ensures
        old(self).f().s().len() <= nmax::<Id>(),
        old(self).step(*final(self)),
        final(self).current is Some,
        nx(final(self).current->0) == old(self).f().s().len(),
        final(self).f().t().kids[nx(old(self).root)] =~= old(self).f().t().kids[nx(old(self).root)].push(old(self).f().s().len() as int),
        old(self).ran(*final(self), data, f),
@entry
    proof {
        nxok::<Id>();
    }
