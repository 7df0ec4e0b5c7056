@module_prelude dynamic::forest::chain_builder
impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
    pub open spec fn f(self) -> Forest<Id, T> {
        *self.forest
    }
    /// The root and the current node are live nodes of a consistent forest.
    pub open spec fn ok(self) -> bool {
        self.f().ok() && live(self.f().s(), nx(self.root)) && live(self.f().s(), nx(self.current))
    }
    /// A new leaf with this datum is child number `k` of `p`, and it has become current.
    pub open spec fn added(self, b: Self, data: T, p: int, k: int) -> bool {
        &&& b.ok()
        &&& b.root == self.root
        &&& nx(b.current) == self.f().s().len()
        &&& b.f().s().len() == self.f().s().len() + 1
        &&& b.f().t() == put(self.f().t(), p, k)
        &&& b.f().d() == self.f().d().push(Some(data))
    }
}
@fn dynamic::forest::chain_builder::ChainTreeBuilder::new
@spec
    requires
        old(forest).ok(),
        old(forest).s().len() <= nmax::<Id>(),
    ensures
        r.ok(),
        nx(r.root) == old(forest).s().len(),
        r.current == r.root,
        r.f().t() == t_new(old(forest).t()),
        r.f().d() == old(forest).d().push(Some(root_data)),
        *final(r.forest) == *final(forest),
@entry
    proof {
        nxok::<Id>();
        lemma_new_live(forest.s());
    }
@fn dynamic::forest::chain_builder::ChainTreeBuilder::forest
@spec
    ensures
        *r == self.f(),
@fn dynamic::forest::chain_builder::ChainTreeBuilder::forest_mut
@spec
    ensures
        *r == old(self).f(),
        *final(r) == final(self).f(),
        final(self).root == old(self).root,
        final(self).current == old(self).current,
        *final(old(self).forest) == *final(final(self).forest),
@fn dynamic::forest::chain_builder::ChainTreeBuilder::root_id
@spec
    ensures
        r == self.root,
@fn dynamic::forest::chain_builder::ChainTreeBuilder::current_id
@spec
    ensures
        r == self.current,
@fn dynamic::forest::chain_builder::ChainTreeBuilder::child
@spec
    requires
        old(self).ok(),
        old(self).f().s().len() <= nmax::<Id>(),
    ensures
        old(self).added(*r, data, nx(old(self).current), old(self).f().t().kids[nx(old(self).current)].len() as int),
        *final(self) == *final(r),
        *final(old(self).forest) == *final(r.forest),
@entry
    proof {
        nxok::<Id>();
        lemma_put(self.forest.s(), Dst::Last(nx(self.current)));
        lemma_create_insert(self.forest.s(), Dst::Last(nx(self.current)));
    }
@fn dynamic::forest::chain_builder::ChainTreeBuilder::sibling
@spec
    requires
        old(self).ok(),
        old(self).f().s().len() <= nmax::<Id>(),
        old(self).f().t().parent[nx(old(self).current)] is Some,
    ensures
        old(self).added(*r, data, old(self).f().t().parent[nx(old(self).current)]->0, pos(old(self).f().t(), nx(old(self).current)) + 1),
        *final(self) == *final(r),
        *final(old(self).forest) == *final(r.forest),
@entry
    proof {
        nxok::<Id>();
        lemma_put(self.forest.s(), Dst::After(nx(self.current)));
        lemma_create_insert(self.forest.s(), Dst::After(nx(self.current)));
    }
@fn dynamic::forest::chain_builder::ChainTreeBuilder::try_parent
@spec
    requires
        old(self).ok(),
    ensures
        r is Some <==> old(self).f().t().parent[nx(old(self).current)] is Some,
        r is None ==> *final(self) == *old(self),
        r is Some ==> r->0.ok() && r->0.root == old(self).root && r->0.f() == old(self).f(),
        r is Some ==> Some(nx(r->0.current)) == old(self).f().t().parent[nx(old(self).current)],
        r is Some ==> *final(self) == *final(r->0),
        r is Some ==> *final(old(self).forest) == *final(r->0.forest),
@entry
    proof {
        nxok::<Id>();
        lemma_nav(self.forest.s(), nx(self.current));
    }
@fn dynamic::forest::chain_builder::ChainTreeBuilder::parent
@spec
    requires
        old(self).ok(),
        old(self).f().t().parent[nx(old(self).current)] is Some,
    ensures
        r.ok(),
        r.root == old(self).root,
        r.f() == old(self).f(),
        Some(nx(r.current)) == old(self).f().t().parent[nx(old(self).current)],
        *final(self) == *final(r),
        *final(old(self).forest) == *final(r.forest),
@entry
    proof {
        nxok::<Id>();
        lemma_nav(self.forest.s(), nx(self.current));
    }
@module_prelude dynamic::forest::nest_builder
impl<'a, Id: NodeId, T> NestTreeBuilder<'a, Id, T> {
    pub open spec fn f(self) -> Forest<Id, T> {
        *self.forest
    }
    /// The node whose children are being added is live, and `current` is its last child.
    pub open spec fn ok(self) -> bool {
        &&& self.f().ok()
        &&& live(self.f().s(), nx(self.root))
        &&& pid(self.current) == k_last(self.f().t().kids[nx(self.root)])
    }
    /// What the calls of a builder's methods may do, however many.
    #[verifier::prophetic] pub open spec fn step(self, b: Self) -> bool {
        &&& b.ok()
        &&& b.root == self.root
        &&& grown(self.f().t(), self.f().d(), b.f().t(), b.f().d(), nx(self.root))
        &&& *final(self.forest) == *final(b.forest)
    }
    /// A builder for the new last child with this datum.
    #[verifier::prophetic] pub open spec fn inner(self, b: Self, data: T) -> bool {
        &&& b.ok()
        &&& nx(b.root) == self.f().s().len()
        &&& b.f().s().len() == self.f().s().len() + 1
        &&& b.current is None
        &&& b.f().t() == put(self.f().t(), nx(self.root), self.f().t().kids[nx(self.root)].len() as int)
        &&& b.f().d() == self.f().d().push(Some(data))
        &&& *final(self.forest) == *final(b.forest)
    }
    /// The closure ran on a builder for the new last child, and that child is now current.
    #[verifier::prophetic] pub open spec fn ran<F: FnOnce(&mut NestTreeBuilder<'a, Id, T>)>(self, b: Self, data: T, f: F) -> bool {
        exists|c: &mut NestTreeBuilder<'a, Id, T>| #![trigger f.ensures((c,), ())] {
            &&& f.ensures((c,), ())
            &&& self.inner(*c, data)
            &&& b.f() == final(c).f()
            &&& b.root == self.root
            &&& b.current == Some(c.root)
        }
    }
}
/// The closure can be called on the builder for the new child, and does nothing there that the methods of a builder cannot do.
#[verifier::prophetic]
pub open spec fn callable<'a, Id: NodeId, T, F: FnOnce(&mut NestTreeBuilder<'a, Id, T>)>(s: NestTreeBuilder<'a, Id, T>, data: T, f: F) -> bool {
    &&& forall|b: &mut NestTreeBuilder<'a, Id, T>| #![trigger f.requires((b,))] s.inner(*b, data) ==> f.requires((b,))
    &&& forall|b: &mut NestTreeBuilder<'a, Id, T>| #![trigger f.ensures((b,), ())] s.inner(*b, data) && f.ensures((b,), ()) ==> b.step(*final(b))
}
@fn dynamic::forest::nest_builder::NestTreeBuilder::new
@spec
    requires
        old(forest).ok(),
        old(forest).s().len() <= nmax::<Id>(),
    ensures
        r.ok(),
        nx(r.root) == old(forest).s().len(),
        r.current is None,
        r.f().t() == t_new(old(forest).t()),
        r.f().d() == old(forest).d().push(Some(data)),
        *final(r.forest) == *final(forest),
@entry
    proof {
        nxok::<Id>();
        lemma_new_live(forest.s());
    }
@fn dynamic::forest::nest_builder::NestTreeBuilder::root
@spec
    ensures
        r == self.root,
@fn dynamic::forest::nest_builder::NestTreeBuilder::add_child
@spec
    requires
        old(self).ok(),
        old(self).f().s().len() <= nmax::<Id>(),
    ensures
        old(self).step(*final(self)),
        final(self).current is Some,
        nx(final(self).current->0) == old(self).f().s().len(),
        final(self).f().t() == put(old(self).f().t(), nx(old(self).root), old(self).f().t().kids[nx(old(self).root)].len() as int),
        final(self).f().d() == old(self).f().d().push(Some(data)),
        final(self).f().s().len() == old(self).f().s().len() + 1,
@entry
    proof {
        nxok::<Id>();
        lemma_add_last(self.forest.s(), nx(self.root), self.forest.d(), Some(data));
    }
@fn dynamic::forest::nest_builder::NestTreeBuilder::create_tree
@spec
    requires
        old(self).ok(),
        old(self).f().s().len() <= nmax::<Id>(),
        callable(*old(self), data, f),
    ensures
        old(self).step(*final(self)),
        final(self).current is Some,
        nx(final(self).current->0) == old(self).f().s().len(),
        final(self).f().t().kids[nx(old(self).root)] =~= old(self).f().t().kids[nx(old(self).root)].push(old(self).f().s().len() as int),
        old(self).ran(*final(self), data, f),
@entry
    proof {
        nxok::<Id>();
    }
