@module_prelude dynamic::forest::node
use crate::vt::{Iterator, DoubleEndedIterator};
impl<'a, Id: NodeId, T> Node<'a, Id, T> {
    pub open spec fn f(self) -> Forest<Id, T> {
        *self.forest
    }
    pub open spec fn i(self) -> int {
        nx(self.id)
    }
    /// The handle refers to a live node of a consistent forest.
    pub open spec fn ok(self) -> bool {
        self.forest.ok() && live(self.forest.s(), nx(self.id))
    }
}
/// `r` is a handle, to the node `i` of the same forest as `n`.
pub open spec fn handle<'a, Id: NodeId, T>(r: Option<Node<'a, Id, T>>, n: Node<'a, Id, T>, i: Option<int>) -> bool {
    &&& r is Some <==> i is Some
    &&& r is Some ==> r->0.forest == n.forest && r->0.ok() && r->0.i() == i->0
}
impl<'a, Id: NodeId, T> NodeMut<'a, Id, T> {
    pub open spec fn f(self) -> Forest<Id, T> {
        *self.forest
    }
    pub open spec fn i(self) -> int {
        nx(self.id)
    }
    pub open spec fn ok(self) -> bool {
        self.f().ok() && live(self.f().s(), nx(self.id))
    }
}
@fn dynamic::forest::node::NodeMut::new
@spec
    requires
        old(forest).ok(),
    ensures
        r is Some <==> live(old(forest).s(), nx(id)),
        r is Some ==> r->0.ok() && r->0.f() == *old(forest) && r->0.id == id && *final(r->0.forest) == *final(forest),
        r is None ==> *final(forest) == *old(forest),
@fn dynamic::forest::Forest::node_mut
@spec
    requires
        old(self).ok(),
    ensures
        r is Some <==> live(old(self).s(), nx(id)),
        r is Some ==> r->0.ok() && r->0.f() == *old(self) && r->0.id == id && *final(r->0.forest) == *final(self),
        r is None ==> *final(self) == *old(self),
@fn dynamic::forest::node::NodeMut::create
@spec
    requires
        old(self).ok(),
        dst_parent(old(self).f().t(), ndst(insert_as(dest, old(self).id))) is Some,
        old(self).f().s().len() <= nmax::<Id>(),
    ensures
        final(self).ok(),
        final(self).id == old(self).id,
        nx(r) == old(self).f().s().len(),
        final(self).f().d() == old(self).f().d().push(Some(data)),
        final(self).f().t() == t_insert(t_new(old(self).f().t()), nx(r), ndst(insert_as(dest, old(self).id))),
        *final(old(self).forest) == *final(final(self).forest),
@entry
    proof {
        nxok::<Id>();
        lemma_create_insert(self.f().s(), ndst(insert_as(dest, self.id)));
    }
@fn dynamic::forest::node::NodeMut::try_adopt
@spec
    requires
        old(self).ok(),
        live(old(self).f().s(), nx(node)),
    ensures
        final(self).ok(),
        final(self).id == old(self).id,
        *final(old(self).forest) == *final(final(self).forest),
        final(self).f().d() == old(self).f().d(),
        r is Ok <==> refusal(old(self).f().t(), nx(node), ndst(insert_as(dest, old(self).id))) is None,
        r is Err ==> Some(r->Err_0) == refusal(old(self).f().t(), nx(node), ndst(insert_as(dest, old(self).id))),
        r is Err ==> final(self).f().s() == old(self).f().s(),
        r is Ok ==> final(self).f().t() == t_insert(old(self).f().t(), nx(node), ndst(insert_as(dest, old(self).id))),
@entry
    proof {
        lemma_op_alive(self.f().s());
    }
@fn dynamic::forest::node::NodeMut::adopt
@spec
    requires
        old(self).ok(),
        live(old(self).f().s(), nx(node)),
        refusal(old(self).f().t(), nx(node), ndst(insert_as(dest, old(self).id))) is None,
    ensures
        final(self).ok(),
        final(self).id == old(self).id,
        *final(old(self).forest) == *final(final(self).forest),
        final(self).f().d() == old(self).f().d(),
        final(self).f().t() == t_insert(old(self).f().t(), nx(node), ndst(insert_as(dest, old(self).id))),
@fn dynamic::forest::node::NodeMut::detach
@spec
    requires
        old(self).ok(),
    ensures
        final(self).ok(),
        final(self).id == old(self).id,
        *final(old(self).forest) == *final(final(self).forest),
        final(self).f().d() == old(self).f().d(),
        final(self).f().t() == t_detach(old(self).f().t(), nx(old(self).id)),
@entry
    proof {
        lemma_op_alive(self.f().s());
    }
@fn dynamic::forest::node::NodeMut::detach_single
@spec
    requires
        old(self).ok(),
    ensures
        final(self).ok(),
        final(self).id == old(self).id,
        *final(old(self).forest) == *final(final(self).forest),
        final(self).f().d() == old(self).f().d(),
        r is Err <==> old(self).f().t().parent[nx(old(self).id)] is None && old(self).f().t().kids[nx(old(self).id)].len() > 1,
        r is Err ==> r->Err_0 is SiblingsWithoutParent && final(self).f().s() == old(self).f().s(),
        r is Ok ==> final(self).f().t() == t_detach_single(old(self).f().t(), nx(old(self).id)),
@entry
    proof {
        lemma_op_alive(self.f().s());
    }
@fn dynamic::forest::node::Node::new
@spec
    requires
        forest.ok(),
    ensures
        r is Some <==> live(forest.s(), nx(id)),
        r is Some ==> r->0.ok() && r->0.forest == forest && r->0.id == id,
@fn dynamic::forest::Forest::node
@spec
    requires
        self.ok(),
    ensures
        r is Some <==> live(self.s(), nx(id)),
        r is Some ==> r->0.ok() && r->0.f() == *self && r->0.id == id,
@fn dynamic::forest::node::Node@Clone::clone
@spec
    ensures
        r == *self,
@fn dynamic::forest::node::Node::forest
@spec
    ensures
        r == self.forest,
@fn dynamic::forest::node::Node::hierarchy
@spec
    ensures
        *r == self.forest.hierarchy,
@fn dynamic::forest::node::Node::id
@spec
    ensures
        r == self.id,
@fn dynamic::forest::node::Node::data
@spec
    requires
        self.ok(),
    ensures
        self.f().d()[self.i()] == Some(*r),
@fn dynamic::forest::node::Node::parent_id
@spec
    requires
        self.ok(),
    ensures
        pid(r) == self.f().t().parent[self.i()],
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::parent
@spec
    requires
        self.ok(),
    ensures
        handle(r, *self, self.f().t().parent[self.i()]),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::next_sibling_id
@spec
    requires
        self.ok(),
    ensures
        pid(r) == next_of(self.f().t(), self.i()),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::next_sibling
@spec
    requires
        self.ok(),
    ensures
        handle(r, *self, next_of(self.f().t(), self.i())),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::prev_sibling_id
@spec
    requires
        self.ok(),
    ensures
        pid(r) == prev_of(self.f().t(), self.i()),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::prev_sibling
@spec
    requires
        self.ok(),
    ensures
        handle(r, *self, prev_of(self.f().t(), self.i())),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::first_child_id
@spec
    requires
        self.ok(),
    ensures
        pid(r) == k_first(self.f().t().kids[self.i()]),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::first_child
@spec
    requires
        self.ok(),
    ensures
        handle(r, *self, k_first(self.f().t().kids[self.i()])),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::last_child_id
@spec
    requires
        self.ok(),
    ensures
        pid(r) == k_last(self.f().t().kids[self.i()]),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::last_child
@spec
    requires
        self.ok(),
    ensures
        handle(r, *self, k_last(self.f().t().kids[self.i()])),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::first_last_child_id
@spec
    requires
        self.ok(),
    ensures
        r is Some <==> self.f().t().kids[self.i()].len() > 0,
        r is Some ==> nx((r->0).0) == self.f().t().kids[self.i()][0] && nx((r->0).1) == self.f().t().kids[self.i()].last(),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::Node::first_last_child
@spec
    requires
        self.ok(),
    ensures
        r is Some <==> self.f().t().kids[self.i()].len() > 0,
        r is Some ==> handle(Some((r->0).0), *self, k_first(self.f().t().kids[self.i()])) && handle(Some((r->0).1), *self, k_last(self.f().t().kids[self.i()])),
@entry
    proof {
        nxok::<Id>();
        lemma_single(self.forest.s(), nx(self.id));
        lemma_nav(self.forest.s(), nx(self.id));
    }
@fn dynamic::forest::node::NodeMut::node
@spec
    requires
        self.ok(),
    ensures
        r.ok() && r.f() == self.f() && r.id == self.id,
@fn dynamic::forest::node::NodeMut::into_node
@spec
    requires
        self.ok(),
    ensures
        r.ok() && r.f() == self.f() && r.id == self.id,
@fn dynamic::forest::node::NodeMut::forest
@spec
    ensures
        *r == self.f(),
@fn dynamic::forest::node::NodeMut::id
@spec
    ensures
        r == self.id,
@fn dynamic::forest::node::NodeMut::data
@spec
    requires
        self.ok(),
    ensures
        self.f().d()[self.i()] == Some(*r),
@fn dynamic::forest::node::NodeMut::data_mut
@spec
    requires
        old(self).ok(),
    ensures
        old(self).f().d()[old(self).i()] == Some(*r),
        final(self).ok(),
        final(self).id == old(self).id,
        *final(old(self).forest) == *final(final(self).forest),
        final(self).f().hierarchy == old(self).f().hierarchy,
        final(self).f().d() == old(self).f().d().update(old(self).i(), Some(*final(r))),
@fn dynamic::forest::node::NodeMut::into_data_ref_mut
@spec
    requires
        self.ok(),
    ensures
        self.f().d()[self.i()] == Some(*r),
        final(self.forest).ok(),
        final(self.forest).hierarchy == self.f().hierarchy,
        final(self.forest).d() == self.f().d().update(self.i(), Some(*final(r))),
