@# Written by tools/gen_iter.py.
@module_prelude dynamic::forest::traverse
use crate::vt::{Iterator, DoubleEndedIterator};
/// `n` is a handle to the node `i` of `f`.
pub open spec fn is_node<'a, Id: NodeId, T>(n: Node<'a, Id, T>, f: &'a Forest<Id, T>, i: int) -> bool {
    n.forest == f && n.ok() && n.i() == i
}
pub open spec fn is_onode<'a, Id: NodeId, T>(r: Option<Node<'a, Id, T>>, f: &'a Forest<Id, T>, i: Option<int>) -> bool {
    &&& r is Some <==> i is Some
    &&& r is Some ==> is_node(r->0, f, i->0)
}
/// The event `r` is the event `e`, with a handle to its node.
pub open spec fn is_ev<'a, Id: NodeId, T>(r: DftEvent<Node<'a, Id, T>>, f: &'a Forest<Id, T>, e: Ev) -> bool {
    match (r, e) {
        (DftEvent::Open(n), Ev::O(i)) => is_node(n, f, i),
        (DftEvent::Close(n), Ev::C(i)) => is_node(n, f, i),
        _ => false,
    }
}
pub open spec fn is_oev<'a, Id: NodeId, T>(r: Option<DftEvent<Node<'a, Id, T>>>, f: &'a Forest<Id, T>, e: Option<(Ev, int)>) -> bool {
    &&& r is Some <==> e is Some
    &&& r is Some ==> is_ev(r->0, f, (e->0).0)
}
pub open spec fn is_oevd<'a, Id: NodeId, T>(r: Option<(DftEvent<Node<'a, Id, T>>, usize)>, f: &'a Forest<Id, T>, e: Option<(Ev, int)>) -> bool {
    &&& r is Some <==> e is Some
    &&& r is Some ==> is_ev((r->0).0, f, (e->0).0) && (r->0).1 == (e->0).1
}
pub open spec fn is_onoded<'a, Id: NodeId, T>(r: Option<(Node<'a, Id, T>, usize)>, f: &'a Forest<Id, T>, e: Option<(int, int)>) -> bool {
    &&& r is Some <==> e is Some
    &&& r is Some ==> is_node((r->0).0, f, (e->0).0) && (r->0).1 == (e->0).1
}
impl<'a, Id: NodeId, T> DepthFirstTraverse<'a, Id, T> {
    /// `q` is what is still to come.
    pub open spec fn to_come(self, q: Seq<(Ev, int)>) -> bool {
        self.forest.ok() && dft(self.forest.t(), self.traverser.next, q)
    }
}
impl<'a, Id: NodeId, T> ShallowDepthFirstTraverse<'a, Id, T> {
    /// `q` is what is still to come.
    pub open spec fn to_come(self, q: Seq<(Ev, int)>) -> bool {
        self.forest.ok() && sdft(self.forest.t(), mx(self.traverser.max_depth), self.traverser.next, q)
    }
}
impl<'a, Id: NodeId, T> Ancestors<'a, Id, T> {
    /// `q` is what is still to come.
    pub open spec fn to_come(self, q: Seq<int>) -> bool {
        self.forest.ok() && olive(self.forest.s(), oid(self.traverser.next)) && q == oancs(self.forest.t(), oid(self.traverser.next))
    }
}
impl<'a, Id: NodeId, T> Siblings<'a, Id, T> {
    /// `q` is what is still to come.
    pub open spec fn to_come(self, q: Seq<int>) -> bool {
        self.forest.ok() && sib(self.forest.t(), self.traverser.next, q)
    }
}
impl<'a, Id: NodeId, T> BreadthFirstTraverse<'a, Id, T> {
    /// `q` is what is still to come.
    pub open spec fn to_come(self, q: Seq<(int, int)>) -> bool {
        self.forest.ok() && bft(self.forest.t(), self.traverser, q)
    }
}
impl<'a, Id: NodeId, T> AllocatingBreadthFirstTraverse<'a, Id, T> {
    /// `q` is what is still to come.
    pub open spec fn to_come(self, q: Seq<(int, int)>) -> bool {
        self.forest.ok() && abft(self.forest.t(), self.traverser.events@, self.traverser.current_depth as int, q)
    }
}
@impl_items dynamic::forest::traverse::DepthFirstTraverse@Iterator
    open spec fn it_ok(self) -> bool { exists|q: Seq<(Ev, int)>| #[trigger] self.to_come(q) }
    open spec fn stepped(self, new: Self) -> bool { self.forest == new.forest && forall|q: Seq<(Ev, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> new.to_come(tail(q)) }
@impl_items dynamic::forest::traverse::DepthFirstTraverse@DoubleEndedIterator
    open spec fn stepped_back(self, new: Self) -> bool { self.forest == new.forest && forall|q: Seq<(Ev, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> new.to_come(init(q)) }
@fn dynamic::forest::traverse::DepthFirstTraverse@Iterator::next
@spec
    ensures
        final(self).forest == old(self).forest,
        forall|q: Seq<(Ev, int)>| #![trigger old(self).to_come(q)] old(self).to_come(q) ==> is_oev(r, old(self).forest, head(q)) && final(self).to_come(tail(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(Ev, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_dft_steps(self.forest.s(), self.traverser.next);
    }
@closure 0
|id: Id::Internal| -> (n: Node<'a, Id, T>)
    requires
        self.forest.ok(),
        live(self.forest.s(), ix(id)),
    ensures
        is_node(n, self.forest, ix(id)),
@fn dynamic::forest::traverse::DepthFirstTraverse@DoubleEndedIterator::next_back
@spec
    ensures
        final(self).forest == old(self).forest,
        forall|q: Seq<(Ev, int)>| #![trigger old(self).to_come(q)] old(self).to_come(q) ==> is_oev(r, old(self).forest, last(q)) && final(self).to_come(init(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(Ev, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_dft_steps(self.forest.s(), self.traverser.next);
    }
@closure 0
|id: Id::Internal| -> (n: Node<'a, Id, T>)
    requires
        self.forest.ok(),
        live(self.forest.s(), ix(id)),
    ensures
        is_node(n, self.forest, ix(id)),
@fn dynamic::forest::traverse::DepthFirstTraverse::peek
@spec
    requires
        self.it_ok(),
    ensures
        forall|q: Seq<(Ev, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> is_oev(r, self.forest, head(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(Ev, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_dft_steps(self.forest.s(), self.traverser.next);
    }
@closure 0
|id: Id::Internal| -> (n: Node<'a, Id, T>)
    requires
        self.forest.ok(),
        live(self.forest.s(), ix(id)),
    ensures
        is_node(n, self.forest, ix(id)),
@fn dynamic::forest::traverse::DepthFirstTraverse::peek_back
@spec
    requires
        self.it_ok(),
    ensures
        forall|q: Seq<(Ev, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> is_oev(r, self.forest, last(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(Ev, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_dft_steps(self.forest.s(), self.traverser.next);
    }
@closure 0
|id: Id::Internal| -> (n: Node<'a, Id, T>)
    requires
        self.forest.ok(),
        live(self.forest.s(), ix(id)),
    ensures
        is_node(n, self.forest, ix(id)),
@impl_items dynamic::forest::traverse::ShallowDepthFirstTraverse@Iterator
    open spec fn it_ok(self) -> bool { exists|q: Seq<(Ev, int)>| #[trigger] self.to_come(q) }
    open spec fn stepped(self, new: Self) -> bool { self.forest == new.forest && forall|q: Seq<(Ev, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> new.to_come(tail(q)) }
@impl_items dynamic::forest::traverse::ShallowDepthFirstTraverse@DoubleEndedIterator
    open spec fn stepped_back(self, new: Self) -> bool { self.forest == new.forest && forall|q: Seq<(Ev, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> new.to_come(init(q)) }
@fn dynamic::forest::traverse::ShallowDepthFirstTraverse@Iterator::next
@spec
    ensures
        final(self).forest == old(self).forest,
        forall|q: Seq<(Ev, int)>| #![trigger old(self).to_come(q)] old(self).to_come(q) ==> is_oevd(r, old(self).forest, head(q)) && final(self).to_come(tail(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(Ev, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_sdft_steps(self.forest.s(), mx(self.traverser.max_depth), self.traverser.next);
    }
@closure 0
|id: Id::Internal| -> (n: Node<'a, Id, T>)
    requires
        self.forest.ok(),
        live(self.forest.s(), ix(id)),
    ensures
        is_node(n, self.forest, ix(id)),
@fn dynamic::forest::traverse::ShallowDepthFirstTraverse@DoubleEndedIterator::next_back
@spec
    ensures
        final(self).forest == old(self).forest,
        forall|q: Seq<(Ev, int)>| #![trigger old(self).to_come(q)] old(self).to_come(q) ==> is_oevd(r, old(self).forest, last(q)) && final(self).to_come(init(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(Ev, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_sdft_steps(self.forest.s(), mx(self.traverser.max_depth), self.traverser.next);
    }
@closure 0
|id: Id::Internal| -> (n: Node<'a, Id, T>)
    requires
        self.forest.ok(),
        live(self.forest.s(), ix(id)),
    ensures
        is_node(n, self.forest, ix(id)),
@fn dynamic::forest::traverse::ShallowDepthFirstTraverse::peek
@spec
    requires
        self.it_ok(),
    ensures
        forall|q: Seq<(Ev, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> is_oevd(r, self.forest, head(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(Ev, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_sdft_steps(self.forest.s(), mx(self.traverser.max_depth), self.traverser.next);
    }
@closure 0
|id: Id::Internal| -> (n: Node<'a, Id, T>)
    requires
        self.forest.ok(),
        live(self.forest.s(), ix(id)),
    ensures
        is_node(n, self.forest, ix(id)),
@fn dynamic::forest::traverse::ShallowDepthFirstTraverse::peek_back
@spec
    requires
        self.it_ok(),
    ensures
        forall|q: Seq<(Ev, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> is_oevd(r, self.forest, last(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(Ev, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_sdft_steps(self.forest.s(), mx(self.traverser.max_depth), self.traverser.next);
    }
@closure 0
|id: Id::Internal| -> (n: Node<'a, Id, T>)
    requires
        self.forest.ok(),
        live(self.forest.s(), ix(id)),
    ensures
        is_node(n, self.forest, ix(id)),
@impl_items dynamic::forest::traverse::Ancestors@Iterator
    open spec fn it_ok(self) -> bool { self.forest.ok() && olive(self.forest.s(), oid(self.traverser.next)) }
    open spec fn stepped(self, new: Self) -> bool { self.forest == new.forest && forall|q: Seq<int>| #![trigger self.to_come(q)] self.to_come(q) ==> new.to_come(tail(q)) }
@fn dynamic::forest::traverse::Ancestors@Iterator::next
@spec
    ensures
        final(self).forest == old(self).forest,
        forall|q: Seq<int>| #![trigger old(self).to_come(q)] old(self).to_come(q) ==> is_onode(r, old(self).forest, head(q)) && final(self).to_come(tail(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<int>| self.to_come(q);
        assert(self.to_come(oancs(self.forest.t(), oid(self.traverser.next)))); if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_oancs(self.forest.s(), oid(self.traverser.next));
    }
@fn dynamic::forest::traverse::Ancestors::peek
@spec
    requires
        self.it_ok(),
    ensures
        forall|q: Seq<int>| #![trigger self.to_come(q)] self.to_come(q) ==> is_onode(r, self.forest, head(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<int>| self.to_come(q);
        assert(self.to_come(oancs(self.forest.t(), oid(self.traverser.next)))); if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_oancs(self.forest.s(), oid(self.traverser.next));
    }
@impl_items dynamic::forest::traverse::Siblings@Iterator
    open spec fn it_ok(self) -> bool { exists|q: Seq<int>| #[trigger] self.to_come(q) }
    open spec fn stepped(self, new: Self) -> bool { self.forest == new.forest && forall|q: Seq<int>| #![trigger self.to_come(q)] self.to_come(q) ==> new.to_come(tail(q)) }
@impl_items dynamic::forest::traverse::Siblings@DoubleEndedIterator
    open spec fn stepped_back(self, new: Self) -> bool { self.forest == new.forest && forall|q: Seq<int>| #![trigger self.to_come(q)] self.to_come(q) ==> new.to_come(init(q)) }
@fn dynamic::forest::traverse::Siblings@Iterator::next
@spec
    ensures
        final(self).forest == old(self).forest,
        forall|q: Seq<int>| #![trigger old(self).to_come(q)] old(self).to_come(q) ==> is_onode(r, old(self).forest, head(q)) && final(self).to_come(tail(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<int>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_sib_steps(self.forest.s(), self.traverser.next);
    }
@fn dynamic::forest::traverse::Siblings@DoubleEndedIterator::next_back
@spec
    ensures
        final(self).forest == old(self).forest,
        forall|q: Seq<int>| #![trigger old(self).to_come(q)] old(self).to_come(q) ==> is_onode(r, old(self).forest, last(q)) && final(self).to_come(init(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<int>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_sib_steps(self.forest.s(), self.traverser.next);
    }
@fn dynamic::forest::traverse::Siblings::peek
@spec
    requires
        self.it_ok(),
    ensures
        forall|q: Seq<int>| #![trigger self.to_come(q)] self.to_come(q) ==> is_onode(r, self.forest, head(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<int>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_sib_steps(self.forest.s(), self.traverser.next);
    }
@fn dynamic::forest::traverse::Siblings::peek_back
@spec
    requires
        self.it_ok(),
    ensures
        forall|q: Seq<int>| #![trigger self.to_come(q)] self.to_come(q) ==> is_onode(r, self.forest, last(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<int>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_sib_steps(self.forest.s(), self.traverser.next);
    }
@impl_items dynamic::forest::traverse::BreadthFirstTraverse@Iterator
    open spec fn it_ok(self) -> bool { exists|q: Seq<(int, int)>| #[trigger] self.to_come(q) }
    open spec fn stepped(self, new: Self) -> bool { self.forest == new.forest && forall|q: Seq<(int, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> new.to_come(tail(q)) }
@fn dynamic::forest::traverse::BreadthFirstTraverse@Iterator::next
@spec
    ensures
        final(self).forest == old(self).forest,
        forall|q: Seq<(int, int)>| #![trigger old(self).to_come(q)] old(self).to_come(q) ==> is_onoded(r, old(self).forest, head(q)) && final(self).to_come(tail(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(int, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_bft_live(self.forest.t(), self.traverser);
    }
@impl_items dynamic::forest::traverse::AllocatingBreadthFirstTraverse@Iterator
    open spec fn it_ok(self) -> bool { exists|q: Seq<(int, int)>| #[trigger] self.to_come(q) }
    open spec fn stepped(self, new: Self) -> bool { self.forest == new.forest && forall|q: Seq<(int, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> new.to_come(tail(q)) }
@fn dynamic::forest::traverse::AllocatingBreadthFirstTraverse@Iterator::next
@spec
    ensures
        final(self).forest == old(self).forest,
        forall|q: Seq<(int, int)>| #![trigger old(self).to_come(q)] old(self).to_come(q) ==> is_onoded(r, old(self).forest, head(q)) && final(self).to_come(tail(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(int, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_abft_live(self.forest.t(), self.traverser.events@, self.traverser.current_depth as int); lemma_abft_len(self.traverser.events@, self.traverser.current_depth as int); assert(self.forest.hierarchy.neighbors.len() <= usize::MAX);
    }
@fn dynamic::forest::traverse::AllocatingBreadthFirstTraverse::peek
@spec
    requires
        self.it_ok(),
    ensures
        forall|q: Seq<(int, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> is_onoded(r, self.forest, head(q)),
@entry
    hide(rep);
    hide(walk);
    hide(sibs);
    proof {
        let q0 = choose|q: Seq<(int, int)>| self.to_come(q);
         if self.it_ok() { assert(self.to_come(q0)); }
        nxok::<Id>();
        lemma_tw(self.forest.s());
        lemma_abft_live(self.forest.t(), self.traverser.events@, self.traverser.current_depth as int); lemma_abft_len(self.traverser.events@, self.traverser.current_depth as int); assert(self.forest.hierarchy.neighbors.len() <= usize::MAX);
    }
@fn dynamic::forest::traverse::AllocatingBreadthFirstTraverse@Iterator::size_hint
@spec
    ensures
        forall|q: Seq<(int, int)>| #![trigger self.to_come(q)] self.to_come(q) ==> r.0 <= q.len() && (r.1 is Some ==> q.len() <= r.1->0),
@entry
    proof {
        lemma_tw(self.forest.s());
    }
@fn dynamic::forest::traverse::ShallowDepthFirstTraverse::max_depth
@spec
    ensures
        lim(r) == mx(self.traverser.max_depth),
@fn dynamic::forest::traverse::DepthFirstTraverse::with_toplevel
@spec
    requires
        node.ok(),
    ensures
        r.forest == node.forest,
        r.to_come(tour(node.f().t(), node.i(), 0, None)),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::traverse::ShallowDepthFirstTraverse::with_toplevel_and_max_depth
@spec
    requires
        node.ok(),
    ensures
        r.forest == node.forest,
        r.to_come(tour(node.f().t(), node.i(), 0, lim(max_depth))),
        mx(r.traverser.max_depth) == (if max_depth == Some(usize::MAX) { None } else { lim(max_depth) }),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::traverse::Ancestors::with_start
@spec
    requires
        node.ok(),
    ensures
        r.forest == node.forest,
        r.to_come(ancs(node.f().t(), node.i())),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::traverse::Siblings::with_parent
@spec
    requires
        parent.ok(),
    ensures
        r.forest == parent.forest,
        r.to_come(parent.f().t().kids[parent.i()]),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::traverse::Siblings::with_first_sibling
@spec
    requires
        first.ok(),
    ensures
        r.forest == first.forest,
        r.to_come(from_sib(first.f().t(), first.i())),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::traverse::Siblings::with_last_sibling
@spec
    requires
        last.ok(),
    ensures
        r.forest == last.forest,
        r.to_come(to_sib(last.f().t(), last.i())),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::traverse::BreadthFirstTraverse::with_toplevel
@spec
    requires
        node.ok(),
    ensures
        r.forest == node.forest,
        r.to_come(bfs(node.f().t(), seq![node.i()], 0)),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::traverse::AllocatingBreadthFirstTraverse::with_toplevel
@spec
    requires
        node.ok(),
    ensures
        r.forest == node.forest,
        r.to_come(bfs(node.f().t(), seq![node.i()], 0)),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::traverse::DftEvent::map
@spec
    requires
        forall|v: T| #[trigger] f.requires((v,)),
    ensures
        match (self, r) {
            (DftEvent::Open(a), DftEvent::Open(b)) => f.ensures((a,), b),
            (DftEvent::Close(a), DftEvent::Close(b)) => f.ensures((a,), b),
            _ => false,
        },
@fn dynamic::forest::traverse::DftEvent::from_hierarchy_dft_event
@spec
    requires
        match ev {
            DftEventSrc::Open(a) => f.requires((a,)),
            DftEventSrc::Close(a) => f.requires((a,)),
        },
    ensures
        match (ev, r) {
            (DftEventSrc::Open(a), DftEvent::Open(b)) => f.ensures((a,), b),
            (DftEventSrc::Close(a), DftEvent::Close(b)) => f.ensures((a,), b),
            _ => false,
        },
