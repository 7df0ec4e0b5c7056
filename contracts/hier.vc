@module_prelude dynamic::hierarchy
impl<Id: InternalNodeId> Neighbors<Id> {
    pub open spec fn nb(self) -> Nb {
        Nb {
            parent: oid(self.parent),
            prev: oid(self.prev_sibling_cyclic),
            next: oid(self.next_sibling),
            first: oid(self.first_child),
        }
    }
}
impl<Id: InternalNodeId> Hierarchy<Id> {
    pub open spec fn s(self) -> Raw {
        self.neighbors@.map_values(|n: Neighbors<Id>| n.nb())
    }
}
@fn dynamic::hierarchy::Hierarchy::neighbors
@spec
    ensures
        r is Some <==> live(self.s(), ix(id)),
        r is Some ==> ix(id) < self.neighbors@.len() && *r->0 == self.neighbors@[ix(id)] && r->0.nb() == self.s()[ix(id)],
@fn dynamic::hierarchy::Hierarchy::neighbors_mut
@spec
    ensures
        r is Some <==> live(old(self).s(), ix(id)),
        r is None ==> final(self).neighbors@ == old(self).neighbors@,
        r is Some ==> *(r->0) == old(self).neighbors@[ix(id)]
            && (r->0).nb() == old(self).s()[ix(id)]
            && final(self).neighbors@ == old(self).neighbors@.update(ix(id), *final(r->0))
            && final(self).s() == old(self).s().update(ix(id), (*final(r->0)).nb()),
@fn dynamic::hierarchy::Hierarchy::is_valid
@spec
    ensures
        r == (ix(id) < self.s().len()),
@fn dynamic::hierarchy::Hierarchy::is_alive
@spec
    ensures
        r == live(self.s(), ix(id)),
@fn dynamic::hierarchy::Neighbors::new_root
@spec
    ensures
        r.nb() == nb_root(ix(id)),
@fn dynamic::hierarchy::Neighbors::is_alive
@spec
    ensures
        r == (self.nb().prev is Some),
@fn dynamic::hierarchy::Neighbors::parent
@spec
    requires
        self.nb().prev is Some,
    ensures
        r == self.parent,
@fn dynamic::hierarchy::Neighbors::next_sibling
@spec
    requires
        self.nb().prev is Some,
    ensures
        r == self.next_sibling,
@fn dynamic::hierarchy::Neighbors::first_child
@spec
    requires
        self.nb().prev is Some,
    ensures
        r == self.first_child,
@fn dynamic::hierarchy::Neighbors::prev_sibling
@spec
    requires
        self.nb().prev is Some,
        live(hier.s(), self.nb().prev->0),
    ensures
        r == (if hier.s()[self.nb().prev->0].next is Some { self.prev_sibling_cyclic } else { None }),
@fn dynamic::hierarchy::Neighbors::last_child
@spec
    requires
        self.nb().prev is Some,
        olive(hier.s(), self.nb().first),
    ensures
        oid(r) == (match self.nb().first { None => None::<int>, Some(f) => hier.s()[f].prev }),
@fn dynamic::hierarchy::Neighbors::first_last_child
@spec
    requires
        self.nb().prev is Some,
        olive(hier.s(), self.nb().first),
    ensures
        r is Some <==> self.nb().first is Some,
        r is Some ==> Some((r->0).0) == self.first_child && Some(ix((r->0).1)) == hier.s()[self.nb().first->0].prev,
@fn dynamic::hierarchy::Neighbors::is_alone
@spec
    requires
        self.nb().prev is Some,
    ensures
        r == (self.nb().parent is None && self.nb().next is None && self.nb().first is None),
@fn dynamic::hierarchy::Neighbors::make_removed
@spec
    requires
        old(self).nb().prev is Some,
        old(self).nb().parent is None && old(self).nb().next is None && old(self).nb().first is None,
    ensures
        final(self).nb() == nb_dead(),
@fn dynamic::hierarchy::Neighbors::force_make_removed
@spec
    requires
        old(self).nb().prev is Some,
    ensures
        final(self).nb() == nb_dead(),
@fn dynamic::hierarchy::Hierarchy::connect_triangle
@spec
    requires
        ct_pre(old(self).s(), oid(parent), oid(prev_child), oid(next_child)),
    ensures
        final(self).s() == ct(old(self).s(), oid(parent), oid(prev_child), oid(next_child)),
@entry
    proof {
        eqok::<Id>();
        if prev_child is Some && next_child is Some && prev_child->0 != next_child->0 {
            ixinj(prev_child->0, next_child->0);
        }
    }
