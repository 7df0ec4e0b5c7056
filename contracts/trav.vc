@fn dynamic::hierarchy::traverse::DepthFirstTraverser::with_toplevel
@spec
    requires
        wf(hier.s()),
        live(hier.s(), ix(id)),
    ensures
        dft(abs(hier.s()), r.next, tour(abs(hier.s()), ix(id), 0, None)),
@entry
    hide(rep);
    proof {
        lemma_tw(hier.s());
        lemma_tour(abs(hier.s()), ix(id), 0, None);
        lemma_tour_walk(abs(hier.s()), ix(id), None);
    }
@fn dynamic::hierarchy::traverse::DepthFirstTraverser::next_of_next_forward
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<(Ev, int)>| dft(abs(hier.s()), old(self).next, q),
    ensures
        final(self).next == old(self).next,
        forall|q: Seq<(Ev, int)>| #![trigger dft(abs(hier.s()), old(self).next, q)] dft(abs(hier.s()), old(self).next, q) ==> odev(r) == ev0(head(tail(q))),
@entry
    hide(rep);
    proof {
        eqok::<Id>();
        lemma_dft_steps(hier.s(), self.next);
    }
@fn dynamic::hierarchy::traverse::DepthFirstTraverser::next_of_next_backward
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<(Ev, int)>| dft(abs(hier.s()), old(self).next, q),
    ensures
        final(self).next == old(self).next,
        forall|q: Seq<(Ev, int)>| #![trigger dft(abs(hier.s()), old(self).next, q)] dft(abs(hier.s()), old(self).next, q) ==> odev(r) == ev0(last(init(q))),
@entry
    hide(rep);
    proof {
        eqok::<Id>();
        lemma_dft_steps(hier.s(), self.next);
    }
@fn dynamic::hierarchy::traverse::DepthFirstTraverser::next
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<(Ev, int)>| dft(abs(hier.s()), old(self).next, q),
    ensures
        forall|q: Seq<(Ev, int)>| #![trigger dft(abs(hier.s()), old(self).next, q), tail(q)] dft(abs(hier.s()), old(self).next, q) ==> odev(r) == ev0(head(q)) && dft(abs(hier.s()), final(self).next, tail(q)),
@entry
    hide(rep);
    proof {
        lemma_dft_tails(hier.s(), self.next);
    }
@fn dynamic::hierarchy::traverse::DepthFirstTraverser::next_back
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<(Ev, int)>| dft(abs(hier.s()), old(self).next, q),
    ensures
        forall|q: Seq<(Ev, int)>| #![trigger dft(abs(hier.s()), old(self).next, q)] dft(abs(hier.s()), old(self).next, q) ==> odev(r) == ev0(last(q)) && dft(abs(hier.s()), final(self).next, init(q)),
@entry
    hide(rep);
    proof {
        lemma_dft_tails(hier.s(), self.next);
    }
@fn dynamic::hierarchy::traverse::DepthFirstTraverser::peek
@spec
    ensures
        forall|t: Tr, q: Seq<(Ev, int)>| #![trigger dft(t, self.next, q)] dft(t, self.next, q) ==> odev(r) == ev0(head(q)),
@fn dynamic::hierarchy::traverse::DepthFirstTraverser::peek_back
@spec
    ensures
        forall|t: Tr, q: Seq<(Ev, int)>| #![trigger dft(t, self.next, q)] dft(t, self.next, q) ==> odev(r) == ev0(last(q)),
@fn dynamic::hierarchy::traverse::ShallowDepthFirstTraverser::with_toplevel_and_max_depth
@spec
    requires
        wf(hier.s()),
        live(hier.s(), ix(id)),
    ensures
        sdft(abs(hier.s()), mx(r.max_depth), r.next, tour(abs(hier.s()), ix(id), 0, lim(max_depth))),
        mx(r.max_depth) == (if max_depth == Some(usize::MAX) { None } else { lim(max_depth) }),
@entry
    hide(rep);
    proof {
        lemma_tw(hier.s());
        assert(hier.neighbors.len() <= usize::MAX);
        lemma_limit_start(hier.s(), ix(id), lim(max_depth), usize::MAX as int);
    }
@fn dynamic::hierarchy::traverse::ShallowDepthFirstTraverser::max_depth
@spec
    ensures
        lim(r) == mx(self.max_depth),
        r != Some(usize::MAX),
@fn dynamic::hierarchy::traverse::ShallowDepthFirstTraverser::next_of_next_forward
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<(Ev, int)>| sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q),
    ensures
        final(self).next == old(self).next,
        final(self).max_depth == old(self).max_depth,
        forall|q: Seq<(Ev, int)>| #![trigger sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q)] sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q) ==> odevd(r) == (head(tail(q))),
@entry
    hide(rep);
    proof {
        eqok::<Id>();
        assert(hier.neighbors.len() <= usize::MAX);
        lemma_sdft_steps(hier.s(), mx(self.max_depth), self.next);
    }
@fn dynamic::hierarchy::traverse::ShallowDepthFirstTraverser::next_of_next_backward
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<(Ev, int)>| sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q),
    ensures
        final(self).next == old(self).next,
        final(self).max_depth == old(self).max_depth,
        forall|q: Seq<(Ev, int)>| #![trigger sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q)] sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q) ==> odevd(r) == (last(init(q))),
@entry
    hide(rep);
    proof {
        eqok::<Id>();
        assert(hier.neighbors.len() <= usize::MAX);
        lemma_sdft_steps(hier.s(), mx(self.max_depth), self.next);
    }
@fn dynamic::hierarchy::traverse::ShallowDepthFirstTraverser::next
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<(Ev, int)>| sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q),
    ensures
        final(self).max_depth == old(self).max_depth,
        forall|q: Seq<(Ev, int)>| #![trigger sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q)] sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q) ==> odevd(r) == (head(q)) && sdft(abs(hier.s()), mx(old(self).max_depth), final(self).next, tail(q)),
@entry
    hide(rep);
    proof {
        lemma_sdft_tails(hier.s(), mx(self.max_depth), self.next);
    }
@fn dynamic::hierarchy::traverse::ShallowDepthFirstTraverser::next_back
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<(Ev, int)>| sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q),
    ensures
        final(self).max_depth == old(self).max_depth,
        forall|q: Seq<(Ev, int)>| #![trigger sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q)] sdft(abs(hier.s()), mx(old(self).max_depth), old(self).next, q) ==> odevd(r) == (last(q)) && sdft(abs(hier.s()), mx(old(self).max_depth), final(self).next, init(q)),
@entry
    hide(rep);
    proof {
        lemma_sdft_tails(hier.s(), mx(self.max_depth), self.next);
    }
@fn dynamic::hierarchy::traverse::ShallowDepthFirstTraverser::peek
@spec
    ensures
        forall|t: Tr, q: Seq<(Ev, int)>| #![trigger sdft(t, mx(self.max_depth), self.next, q)] sdft(t, mx(self.max_depth), self.next, q) ==> odevd(r) == (head(q)),
@fn dynamic::hierarchy::traverse::ShallowDepthFirstTraverser::peek_back
@spec
    ensures
        forall|t: Tr, q: Seq<(Ev, int)>| #![trigger sdft(t, mx(self.max_depth), self.next, q)] sdft(t, mx(self.max_depth), self.next, q) ==> odevd(r) == (last(q)),
@fn dynamic::hierarchy::traverse::SiblingsTraverser::with_parent
@spec
    requires
        wf(hier.s()),
        live(hier.s(), ix(parent)),
    ensures
        sib(abs(hier.s()), r.next, abs(hier.s()).kids[ix(parent)]),
@entry
    hide(rep);
    proof {
        lemma_tw(hier.s());
        lemma_nav(hier.s(), ix(parent));
        let k = abs(hier.s()).kids[ix(parent)];
        lemma_sibs_kids(abs(hier.s()), ix(parent), 0, k.len() as int);
        assert(k.subrange(0, k.len() as int) =~= k);
    }
@fn dynamic::hierarchy::traverse::SiblingsTraverser::with_first_sibling
@spec
    requires
        wf(hier.s()),
        live(hier.s(), ix(first)),
    ensures
        sib(abs(hier.s()), r.next, from_sib(abs(hier.s()), ix(first))),
@entry
    hide(rep);
    proof {
        eqok::<Id>();
        lemma_tw(hier.s());
        lemma_nav(hier.s(), ix(first));
        lemma_sib_ends(abs(hier.s()), ix(first));
        let p = abs(hier.s()).parent[ix(first)];
        if p is Some {
            lemma_nav(hier.s(), p->0);
            lemma_pos(abs(hier.s()), ix(first));
        }
    }
@fn dynamic::hierarchy::traverse::SiblingsTraverser::with_last_sibling
@spec
    requires
        wf(hier.s()),
        live(hier.s(), ix(last)),
    ensures
        sib(abs(hier.s()), r.next, to_sib(abs(hier.s()), ix(last))),
@entry
    hide(rep);
    proof {
        eqok::<Id>();
        lemma_tw(hier.s());
        lemma_nav(hier.s(), ix(last));
        lemma_sib_ends(abs(hier.s()), ix(last));
        let p = abs(hier.s()).parent[ix(last)];
        if p is Some {
            lemma_nav(hier.s(), p->0);
            lemma_pos(abs(hier.s()), ix(last));
        }
    }
@fn dynamic::hierarchy::traverse::SiblingsTraverser::next_of_next_forward
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<int>| sib(abs(hier.s()), old(self).next, q),
    ensures
        final(self).next == old(self).next,
        forall|q: Seq<int>| #![trigger sib(abs(hier.s()), old(self).next, q)] sib(abs(hier.s()), old(self).next, q) ==> oid(r) == (head(tail(q))),
@entry
    hide(rep);
    proof {
        eqok::<Id>();
        lemma_sib_steps(hier.s(), self.next);
    }
@fn dynamic::hierarchy::traverse::SiblingsTraverser::next_of_next_backward
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<int>| sib(abs(hier.s()), old(self).next, q),
    ensures
        final(self).next == old(self).next,
        forall|q: Seq<int>| #![trigger sib(abs(hier.s()), old(self).next, q)] sib(abs(hier.s()), old(self).next, q) ==> oid(r) == (last(init(q))),
@entry
    hide(rep);
    proof {
        eqok::<Id>();
        lemma_sib_steps(hier.s(), self.next);
    }
@fn dynamic::hierarchy::traverse::SiblingsTraverser::next
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<int>| sib(abs(hier.s()), old(self).next, q),
    ensures
        forall|q: Seq<int>| #![trigger sib(abs(hier.s()), old(self).next, q)] sib(abs(hier.s()), old(self).next, q) ==> oid(r) == (head(q)) && sib(abs(hier.s()), final(self).next, tail(q)),
@entry
    hide(rep);
    proof {
        lemma_sib_tails(hier.s(), self.next);
    }
@fn dynamic::hierarchy::traverse::SiblingsTraverser::next_back
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<int>| sib(abs(hier.s()), old(self).next, q),
    ensures
        forall|q: Seq<int>| #![trigger sib(abs(hier.s()), old(self).next, q)] sib(abs(hier.s()), old(self).next, q) ==> oid(r) == (last(q)) && sib(abs(hier.s()), final(self).next, init(q)),
@entry
    hide(rep);
    proof {
        lemma_sib_tails(hier.s(), self.next);
    }
@fn dynamic::hierarchy::traverse::SiblingsTraverser::peek
@spec
    ensures
        forall|t: Tr, q: Seq<int>| #![trigger sib(t, self.next, q)] sib(t, self.next, q) ==> oid(r) == (head(q)),
@fn dynamic::hierarchy::traverse::SiblingsTraverser::peek_back
@spec
    ensures
        forall|t: Tr, q: Seq<int>| #![trigger sib(t, self.next, q)] sib(t, self.next, q) ==> oid(r) == (last(q)),
@fn dynamic::hierarchy::traverse::BreadthFirstTraverser::with_toplevel
@spec
    requires
        wf(hier.s()),
        live(hier.s(), ix(id)),
    ensures
        bft(abs(hier.s()), r, bfs(abs(hier.s()), seq![ix(id)], 0)),
@entry
    hide(rep);
    proof {
        let t = abs(hier.s());
        lemma_tw(hier.s());
        lemma_at(t, ix(id), 0);
        lemma_lvl_in::<Id>(t, ix(id), 0);
    }
@fn dynamic::hierarchy::traverse::BreadthFirstTraverser::next_inner
@attr
#[verifier::loop_isolation(false)]
@spec
    requires
        wf(hier.s()),
        exists|w: Seq<int>| lvl(abs(hier.s()), old(self).inner, old(self).current_depth as int, w),
    ensures
        final(self).root == old(self).root,
        final(self).current_depth == old(self).current_depth,
        forall|w: Seq<int>| #![trigger lvl(abs(hier.s()), old(self).inner, old(self).current_depth as int, w)] lvl(abs(hier.s()), old(self).inner, old(self).current_depth as int, w) ==> oid(r) == head(w) && lvl(abs(hier.s()), final(self).inner, final(self).current_depth as int, tail(w)),
@entry
    hide(rep);
    let ghost t = abs(hier.s());
    let ghost c = self.current_depth as int;
    let ghost w = choose|w: Seq<int>| lvl(abs(hier.s()), self.inner, self.current_depth as int, w);
    let ghost mut q = choose|q: Seq<(Ev, int)>| #[trigger] sdft(t, mx(self.inner.max_depth), self.inner.next, q) && opens(q, c) == w;
    proof {
        let i0 = self.inner;
        assert forall|v: Seq<int>| #![trigger lvl(t, i0, c, v)] lvl(t, i0, c, v) implies v == w by {
            lemma_lvl_some(t, i0, c, v, q);
        }
    }
@loop 0
    invariant
        sdft(t, mx(self.inner.max_depth), self.inner.next, q),
        opens(q, c) == w,
        self.root == old(self).root,
        self.current_depth == c,
    decreases q.len(),
@loop_entry 0
    proof {
        assert(q.len() > 0);
        q = tail(q);
        assert(lvl(t, self.inner, c, opens(q, c)));
        if opens(q, c).len() > 0 || w.len() > 0 {
            assert(tail(w) =~= opens(q, c) || w =~= opens(q, c));
        }
    }
@fn dynamic::hierarchy::traverse::BreadthFirstTraverser::next
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<(int, int)>| bft(abs(hier.s()), *old(self), q),
    ensures
        forall|q: Seq<(int, int)>| #![trigger bft(abs(hier.s()), *old(self), q)] bft(abs(hier.s()), *old(self), q) ==> onode(r) == head(q) && bft(abs(hier.s()), *final(self), tail(q)),
@entry
    hide(rep);
    let ghost t = abs(hier.s());
    let ghost me = *self;
    let ghost c = self.current_depth as int;
    let ghost q = choose|q: Seq<(int, int)>| bft(abs(hier.s()), *self, q);
    proof {
        lemma_tw(hier.s());
        assert(hier.neighbors.len() <= usize::MAX);
        if self.root is Some {
            lemma_bft_unique(t, *self);
            lemma_bft_step(t, *self, q);
            lemma_lvl_in::<Id>(t, ix(self.root->0), c + 1);
        }
    }
@after with_toplevel_and_max_depth
    proof {
        assert(lim(Some(self.current_depth)) == Some(c + 1));
    }
@fn dynamic::hierarchy::traverse::AllocatingBreadthFirstTraverser::with_toplevel
@spec
    requires
        wf(hier.s()),
        live(hier.s(), ix(id)),
    ensures
        abft(abs(hier.s()), r.events@, r.current_depth as int, bfs(abs(hier.s()), seq![ix(id)], 0)),
@entry
    hide(rep);
@after push_back#1
    proof {
        lemma_tw(hier.s());
        lemma_q_start(abs(hier.s()), ix(id));
        assert(queue(events@, seq![ix(id)], Seq::<int>::empty()));
    }
@fn dynamic::hierarchy::traverse::AllocatingBreadthFirstTraverser::next
@attr
#[verifier::loop_isolation(false)]
@spec
    requires
        wf(hier.s()),
        exists|q: Seq<(int, int)>| abft(abs(hier.s()), old(self).events@, old(self).current_depth as int, q),
    ensures
        forall|q: Seq<(int, int)>| #![trigger abft(abs(hier.s()), old(self).events@, old(self).current_depth as int, q)] abft(abs(hier.s()), old(self).events@, old(self).current_depth as int, q) ==> onode(r) == head(q) && abft(abs(hier.s()), final(self).events@, final(self).current_depth as int, tail(q)),
@entry
    hide(rep);
    let ghost t = abs(hier.s());
    let ghost q = choose|q: Seq<(int, int)>| abft(t, self.events@, self.current_depth as int, q);
    let ghost (mut a, mut b) = choose|a: Seq<int>, b: Seq<int>| #[trigger] queue(self.events@, a, b) && qfar(t, a, b, self.current_depth as int) && q == qrest(t, a, b, self.current_depth as int);
    proof {
        lemma_tw(hier.s());
        assert(hier.neighbors.len() <= usize::MAX);
        lemma_abft_unique(t, self.events@, self.current_depth as int);
    }
@loop 0
    invariant
        self.events@.len() == 0 ==> q.len() == 0,
        self.events@.len() > 0 ==> queue(self.events@, a, b) && qfar(t, a, b, self.current_depth as int) && q == qrest(t, a, b, self.current_depth as int),
    decreases if a.len() == 0 { 1int } else { 0int },
@loop_entry 0
    let ghost c = self.current_depth as int;
    let ghost e0 = self.events@;
    proof {
        lemma_q_live(t, a, b, c);
        lemma_q_len(t, a, b, c);
        if a.len() > 0 {
            assert(qn(ev) == Some(a[0]));
            lemma_q_node(t, a, b, c);
            assert(live(hier.s(), a[0]));
            lemma_nav(hier.s(), a[0]);
            assert(queue(e0, tail(a), b));
        } else {
            assert(a =~= Seq::empty());
            assert(qn(ev) is None);
            lemma_q_mark(t, b, c);
        }
    }
@after push_back#0
    proof {
        assert(queue(self.events@, b, Seq::<int>::empty()));
        a = b;
        b = Seq::empty();
    }
@before_loop 1
    let ghost x = a[0];
    let ghost mut j: int = 0;
    proof {
        assert(b + t.kids[x].subrange(0, 0) =~= b);
    }
@loop 1
    invariant
        0 <= j <= t.kids[x].len(),
        oid(next_child) == k_at(t.kids[x], j),
        queue(self.events@, tail(a), b + t.kids[x].subrange(0, j)),
        self.current_depth == c,
    decreases t.kids[x].len() - j,
@loop_entry 1
    proof {
        assert(isk(t, x, j));
        let k = t.kids[x][j];
        lemma_pos_of(t, x, j);
        assert(live(hier.s(), k));
        lemma_nav(hier.s(), k);
    }
@loop_exit 1
    proof {
        let z = b + t.kids[x].subrange(0, j);
        assert((b + t.kids[x].subrange(0, j + 1)) =~= z.push(t.kids[x][j]));
        assert(queue(self.events@, tail(a), b + t.kids[x].subrange(0, j + 1)));
        j = j + 1;
    }
@after_loop 1
    proof {
        assert(t.kids[x].subrange(0, j) =~= t.kids[x]);
        assert(queue(self.events@, tail(a), b + t.kids[x]));
    }
@fn dynamic::hierarchy::traverse::AllocatingBreadthFirstTraverser::size_hint
@spec
    ensures
        forall|t: Tr, q: Seq<(int, int)>| #![trigger abft(t, self.events@, self.current_depth as int, q)] tw(t) && abft(t, self.events@, self.current_depth as int, q) ==> r.0 <= q.len() && (r.1 is Some ==> q.len() <= r.1->0),
@entry
    proof {
        lemma_abft_len(self.events@, self.current_depth as int);
    }
@fn dynamic::hierarchy::traverse::AllocatingBreadthFirstTraverser::peek
@spec
    requires
        exists|t: Tr, q: Seq<(int, int)>| tw(t) && t.alive.len() <= usize::MAX && abft(t, self.events@, self.current_depth as int, q),
    ensures
        forall|t: Tr, q: Seq<(int, int)>| #![trigger abft(t, self.events@, self.current_depth as int, q)] tw(t) && abft(t, self.events@, self.current_depth as int, q) ==> onode(r) == head(q),
@entry
    proof {
        lemma_abft_len(self.events@, self.current_depth as int);
        let (t, q) = choose|t: Tr, q: Seq<(int, int)>| tw(t) && t.alive.len() <= usize::MAX && abft(t, self.events@, self.current_depth as int, q);
        assert(abft(t, self.events@, self.current_depth as int, q));
        if self.events@.len() > 0 {
            assert(qn(self.events@[0]) is None || qn(self.events@[0]) is Some);
        }
        if self.events@.len() > 1 {
            assert(qn(self.events@[1]) is None || qn(self.events@[1]) is Some);
        }
    }
