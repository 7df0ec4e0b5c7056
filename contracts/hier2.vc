@fn dynamic::hierarchy::traverse::AncestorsTraverser::with_start
@spec
    requires
        live(hier.s(), ix(id)),
    ensures
        r.next == Some(id),
@fn dynamic::hierarchy::traverse::AncestorsTraverser::next
@spec
    requires
        olive(hier.s(), oid(old(self).next)),
    ensures
        r == old(self).next,
        r is None ==> final(self).next is None,
        r is Some ==> oid(final(self).next) == hier.s()[ix(r->0)].parent,
@fn dynamic::hierarchy::traverse::AncestorsTraverser::peek
@spec
    ensures
        r == self.next,
@fn dynamic::hierarchy::SiblingsRange::new
@spec
    requires
        range_ok(hier.s(), ix(first), ix(last)),
    ensures
        r.first == first && r.last == last,
@entry
    proof {
        eqok::<Id>();
        lemma_liv(hier.s(), abs(hier.s()), loose(hier.s()));
        lemma_range(hier.s(), ix(first), ix(last));
        lemma_raw_parent(hier.s(), abs(hier.s()), loose(hier.s()), ix(last));
    }
@fn dynamic::hierarchy::SiblingsRange::with_single_toplevel
@spec
    requires
        live(hier.s(), ix(node)),
    ensures
        r.first == node && r.last == node,
@fn dynamic::hierarchy::SiblingsRange::transplant_would_make_cyclic_links
@spec
    requires
        range_ok(hier.s(), ix(self.first), ix(self.last)),
        parent_ok(hier.s(), ix(self.first), ix(self.last), ix(parent)),
    ensures
        r == anc(abs(hier.s()), ix(self.first), ix(parent)),
@entry
    let ghost s = hier.s();
    let ghost t = abs(s);
    let ghost f = ix(self.first);
    let ghost p = ix(parent);
    proof {
        eqok::<Id>();
        lemma_anc_self(t, p);
        lemma_liv(s, t, loose(s));
        ixinj(self.first, self.last);
        if t.parent[f] is Some {
            lemma_raw_parent(s, t, loose(s), f);
            lemma_pos(t, f);
            assert(isk(t, t.parent[f]->0, pos(t, f)));
            if f != ix(self.last) && anc(t, f, p) {
                lemma_anc_up(t, f, t.parent[f]->0, p);
            }
        }
        lemma_raw_parent(s, t, loose(s), p);
        if t.parent[p] is Some {
            lemma_anc_up(t, p, t.parent[p]->0, p);
        }
    }
    let ghost q = t.parent[f]->0;
@loop 0
    invariant
        ids_ok::<Id>(),
        rep(s, t, loose(s)),
        s == hier.s(), t == abs(s), f == ix(self.first), p == ix(parent),
        f == ix(range_root),
        tl(t, p),
        forall|y: int| #![trigger loose(s).contains(y)] loose(s).contains(y) ==> !anc(t, y, p),
        oid(ancestors.next) is Some ==> tl(t, oid(ancestors.next)->0) && anc(t, oid(ancestors.next)->0, p),
        olive(s, oid(ancestors.next)),
        anc(t, f, p) <==> oid(ancestors.next) is Some && anc(t, f, oid(ancestors.next)->0),
    ensures
        !anc(t, f, p),
    decreases odep(t, oid(ancestors.next)),
@loop_entry 0
    proof {
        ixinj(ancestor, range_root);
        let c = ix(ancestor);
        lemma_anc_self(t, c);
        lemma_raw_parent(s, t, loose(s), c);
        if c != f {
            lemma_climb(t, f, c, p);
        }
        lemma_liv(s, t, loose(s));
    }
@loop 1
    invariant
        ids_ok::<Id>(),
        rep(s, t, loose(s)),
        s == hier.s(), t == abs(s), p == ix(parent), q == ix(range_parent),
        tl(t, p),
        !anc(t, q, p),
        forall|y: int| #![trigger loose(s).contains(y)] loose(s).contains(y) ==> !anc(t, y, p),
        oid(ancestors.next) is Some ==> tl(t, oid(ancestors.next)->0) && anc(t, oid(ancestors.next)->0, p),
        olive(s, oid(ancestors.next)),
    decreases odep(t, oid(ancestors.next)),
@loop_entry 1
    proof {
        let c = ix(ancestor);
        lemma_raw_parent(s, t, loose(s), c);
        if t.parent[c] is Some {
            lemma_anc_up(t, c, t.parent[c]->0, p);
            lemma_dep(t, c);
        }
        lemma_liv(s, t, loose(s));
    }
@loop 2
    invariant
        false,
    decreases 0int,
@fn dynamic::hierarchy::SiblingsRange::transplant
@spec
    requires
        range_ok(old(hier).s(), ix(self.first), ix(self.last)),
        parent_ok(old(hier).s(), ix(self.first), ix(self.last), ix(parent)),
        place_ok(old(hier).s(), ix(self.first), ix(self.last), ix(parent), oid(prev_sibling), oid(next_sibling)),
    ensures
        r is Ok <==> !anc(abs(old(hier).s()), ix(self.first), ix(parent)),
        r is Err ==> r->Err_0 is AncestorDescendantLoop && final(hier).s() == old(hier).s(),
        r is Ok ==> ({
            let t = abs(old(hier).s());
            rep(final(hier).s(), t_move(t, ix(self.first), ix(self.last), ix(parent), dest(t, ix(parent), oid(next_sibling))), loose(old(hier).s()))
        }),
@entry
    hide(rep);
    hide(ct);
    hide(ct_pre);
    hide(t_move);
    hide(t_cut);
    hide(rng);
    hide(place_ok);
    hide(roots_list);
    let ghost s = hier.s();
    let ghost t = abs(s);
    let ghost f = ix(self.first);
    let ghost l = ix(self.last);
    let ghost p = ix(parent);
    let ghost x = loose(s);
    let ghost pv = oid(prev_sibling);
    let ghost nv = oid(next_sibling);
    let ghost t1 = t_cut(t, f, l);
    let ghost r = rng(t, f, l);
    let ghost k = dest(t, p, oid(next_sibling));
    let ghost k1 = dest_cut(t, f, l, p, k);
    proof {
        eqok::<Id>();
        lemma_liv(s, t, x);
        lemma_range(s, f, l);
        lemma_take_out(s, f, l);
        if !anc(t, f, p) {
            lemma_place(s, f, l, p, oid(prev_sibling), oid(next_sibling));
            lemma_put_in(s, f, l, p, oid(prev_sibling), oid(next_sibling));
        }
    }
    let ghost s1 = ct(s, t.parent[f], prev_of(t, f), next_of(t, l));
@loop 0
    invariant_except_break
        child_opt is Some,
        0 <= j < r.len(),
        ix(child_opt->0) == r[j],
        hier.s() == setp(s1, r, j, p),
    invariant
        ids_ok::<Id>(),
        p == ix(parent), f == ix(self.first), l == ix(self.last),
        r.len() > 0, r[r.len() - 1] == l,
        linked(s1, r),
        forall|i: int| #![trigger inr(r, i)] inr(r, i) ==> live(s1, r[i]) && r[i] != p,
        forall|i: int| #![trigger inr(r, i)] inr(r, i) && r[i] == l ==> i == r.len() - 1,
    ensures
        hier.s() == setp(s1, r, r.len() as int, p),
    decreases r.len() - j,
@before_loop 0
    let ghost mut j: int = 0;
    assert(oid(prev_of_range) == prev_of(t, f));
    assert(oid(next_of_range) == next_of(t, l));
    assert(oid(prev_sibling) == (if pv == Some(l) { prev_of(t, f) } else { pv }));
    assert(oid(next_sibling) == (if nv == Some(f) { next_of(t, l) } else { nv }));
    proof {
        reveal(roots_list);
        lemma_liv(s1, t1, x.union(rset(r)));
    }
    assert(hier.s() =~= setp(s1, r, 0, p));
@loop_entry 0
    proof {
        ixinj(child, self.last);
        assert(inr(r, j));
        lemma_setp(s1, r, j, p);
    }
@after next_sibling#1
    proof {
        j = j + 1;
    }
@fn dynamic::hierarchy::Hierarchy::create_root
@spec
    requires
        wf(old(self).s()),
        old(self).s().len() <= Id::max_idx(),
    ensures
        ix(r) == old(self).s().len(),
        final(self).s() == old(self).s().push(nb_root(ix(r))),
        wf(final(self).s()),
        abs(final(self).s()) == t_new(abs(old(self).s())),
@exit
    proof {
        let s = old(self).s();
        assert(self.s() =~= s.push(nb_root(s.len() as int)));
        lemma_create(s, abs(s));
    }
@fn dynamic::hierarchy::Hierarchy::detach
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)),
    ensures
        wf(final(self).s()),
        abs(final(self).s()) == t_detach(abs(old(self).s()), ix(node)),
@entry
    let ghost s = self.s();
    proof {
        eqok::<Id>();
        lemma_single(s, ix(node));
        lemma_detach(s, ix(node));
    }
@exit
    proof {
        let t = abs(s);
        let n = ix(node);
        let s1 = ct(s, t.parent[n], prev_of(t, n), next_of(t, n));
        assert(self.s() =~= s1.update(n, Nb { parent: None, prev: Some(n), next: None, ..s1[n] }));
    }
@fn dynamic::hierarchy::Hierarchy::prepend_child
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(new_first_child)),
        live(old(self).s(), anchor(Dst::First(ix(parent)))),
    ensures
        wf(final(self).s()),
        r is Ok <==> refusal(abs(old(self).s()), ix(new_first_child), Dst::First(ix(parent))) is None,
        r is Err ==> Some(r->Err_0) == refusal(abs(old(self).s()), ix(new_first_child), Dst::First(ix(parent))),
        r is Err ==> final(self).s() == old(self).s(),
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(new_first_child), Dst::First(ix(parent))),
@entry
    let ghost s = self.s();
    let ghost d = Dst::First(ix(parent));
    proof {
        eqok::<Id>();
        lemma_single(s, ix(new_first_child));
        lemma_single(s, anchor(d));
        if dst_parent(abs(s), d) is Some && !((d is Before || d is After) && ix(new_first_child) == anchor(d)) {
            lemma_insert(s, ix(new_first_child), d);
            lemma_abs_all(t_insert(abs(s), ix(new_first_child), d));
        }
    }
@fn dynamic::hierarchy::Hierarchy::append_child
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(new_last_child)),
        live(old(self).s(), anchor(Dst::Last(ix(parent)))),
    ensures
        wf(final(self).s()),
        r is Ok <==> refusal(abs(old(self).s()), ix(new_last_child), Dst::Last(ix(parent))) is None,
        r is Err ==> Some(r->Err_0) == refusal(abs(old(self).s()), ix(new_last_child), Dst::Last(ix(parent))),
        r is Err ==> final(self).s() == old(self).s(),
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(new_last_child), Dst::Last(ix(parent))),
@entry
    let ghost s = self.s();
    let ghost d = Dst::Last(ix(parent));
    proof {
        eqok::<Id>();
        lemma_single(s, ix(new_last_child));
        lemma_single(s, anchor(d));
        if dst_parent(abs(s), d) is Some && !((d is Before || d is After) && ix(new_last_child) == anchor(d)) {
            lemma_insert(s, ix(new_last_child), d);
            lemma_abs_all(t_insert(abs(s), ix(new_last_child), d));
        }
    }
@fn dynamic::hierarchy::Hierarchy::insert_before
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)),
        live(old(self).s(), anchor(Dst::Before(ix(next_sibling)))),
    ensures
        wf(final(self).s()),
        r is Ok <==> refusal(abs(old(self).s()), ix(node), Dst::Before(ix(next_sibling))) is None,
        r is Err ==> Some(r->Err_0) == refusal(abs(old(self).s()), ix(node), Dst::Before(ix(next_sibling))),
        r is Err ==> final(self).s() == old(self).s(),
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(node), Dst::Before(ix(next_sibling))),
@entry
    let ghost s = self.s();
    let ghost d = Dst::Before(ix(next_sibling));
    proof {
        eqok::<Id>();
        lemma_single(s, ix(node));
        lemma_single(s, anchor(d));
        if dst_parent(abs(s), d) is Some && !((d is Before || d is After) && ix(node) == anchor(d)) {
            lemma_insert(s, ix(node), d);
            lemma_abs_all(t_insert(abs(s), ix(node), d));
        }
    }
@fn dynamic::hierarchy::Hierarchy::insert_after
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)),
        live(old(self).s(), anchor(Dst::After(ix(prev_sibling)))),
    ensures
        wf(final(self).s()),
        r is Ok <==> refusal(abs(old(self).s()), ix(node), Dst::After(ix(prev_sibling))) is None,
        r is Err ==> Some(r->Err_0) == refusal(abs(old(self).s()), ix(node), Dst::After(ix(prev_sibling))),
        r is Err ==> final(self).s() == old(self).s(),
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(node), Dst::After(ix(prev_sibling))),
@entry
    let ghost s = self.s();
    let ghost d = Dst::After(ix(prev_sibling));
    proof {
        eqok::<Id>();
        lemma_single(s, ix(node));
        lemma_single(s, anchor(d));
        if dst_parent(abs(s), d) is Some && !((d is Before || d is After) && ix(node) == anchor(d)) {
            lemma_insert(s, ix(node), d);
            lemma_abs_all(t_insert(abs(s), ix(node), d));
        }
    }
@fn dynamic::hierarchy::Hierarchy::insert
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)),
        live(old(self).s(), anchor(dst(dest))),
    ensures
        wf(final(self).s()),
        r is Ok <==> refusal(abs(old(self).s()), ix(node), dst(dest)) is None,
        r is Err ==> Some(r->Err_0) == refusal(abs(old(self).s()), ix(node), dst(dest)),
        r is Err ==> final(self).s() == old(self).s(),
        r is Ok ==> abs(final(self).s()) == t_insert(abs(old(self).s()), ix(node), dst(dest)),
@fn dynamic::hierarchy::Hierarchy::detach_single
@spec
    requires
        wf(old(self).s()),
        live(old(self).s(), ix(node)),
    ensures
        wf(final(self).s()),
        r is Err <==> abs(old(self).s()).parent[ix(node)] is None && abs(old(self).s()).kids[ix(node)].len() > 1,
        r is Err ==> r->Err_0 is SiblingsWithoutParent && final(self).s() == old(self).s(),
        r is Ok ==> abs(final(self).s()) == t_detach_single(abs(old(self).s()), ix(node)),
@entry
    hide(rep);
    hide(t_detach_single);
    hide(t_move);
    hide(t_detach);
    hide(ct);
    hide(ct_pre);
    let ghost s = self.s();
    let ghost t = abs(s);
    let ghost n = ix(node);
    proof {
        eqok::<Id>();
        lemma_single(s, n);
        lemma_detach(s, n);
        if t.kids[n].len() > 0 {
            if t.parent[n] is Some {
                lemma_detach_single(s, n);
            } else if t.kids[n].len() == 1 {
                lemma_single_root(s, n);
            } else {
                lemma_ends_differ(s, n);
            }
        } else {
            reveal(t_detach_single);
        }
        lemma_wf_all();
    }
@exit
    proof {
        let z = s2;
        assert(self.s() =~= z.update(n, Nb { parent: None, prev: Some(n), next: None, ..z[n] }));
    }
@after transplant
    let ghost s2 = self.s();
@fn dynamic::hierarchy::Hierarchy@Default::default
@spec
    ensures
        r.s().len() == 0,
        wf(r.s()),
@exit
    proof {
        lemma_wf_empty();
    }
