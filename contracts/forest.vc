@module_prelude dynamic::forest
impl<Id: NodeId, T> Forest<Id, T> {
    /// Links.
    pub open spec fn s(self) -> Raw {
        self.hierarchy.s()
    }
    /// The ordered forest of the live nodes.
    pub open spec fn t(self) -> Tr {
        abs(self.hierarchy.s())
    }
    pub open spec fn d(self) -> Seq<Option<T>> {
        self.data@
    }
    /// Consistency of the whole forest.
    pub open spec fn ok(self) -> bool {
        wf(self.s()) && data_ok(self.s(), self.d())
    }
}
@fn dynamic::anchor::AdoptAs::insert_with_anchor
@spec
    ensures
        r == insert_as(self, anchor),
@fn dynamic::anchor::InsertAs::map
@spec
    requires
        forall|i: Id| #[trigger] f.requires((i,)),
    ensures
        match (self, r) {
            (InsertAs::FirstChildOf(a), InsertAs::FirstChildOf(b)) => f.ensures((a,), b),
            (InsertAs::LastChildOf(a), InsertAs::LastChildOf(b)) => f.ensures((a,), b),
            (InsertAs::PreviousSiblingOf(a), InsertAs::PreviousSiblingOf(b)) => f.ensures((a,), b),
            (InsertAs::NextSiblingOf(a), InsertAs::NextSiblingOf(b)) => f.ensures((a,), b),
            _ => false,
        },
@fn dynamic::anchor::InsertAs::to_anchor
@spec
    ensures
        r == ins_anchor(self),
@fn dynamic::forest::Forest@Default::default
@spec
    ensures
        r.ok(),
        r.s() == Seq::<Nb>::empty(),
        r.d() == Seq::<Option<T>>::empty(),
@exit
    proof {
        lemma_wf_empty();
    }
@fn dynamic::forest::Forest::new
@spec
    ensures
        r.ok(),
        r.s() == Seq::<Nb>::empty(),
        r.d() == Seq::<Option<T>>::empty(),
@fn dynamic::forest::Forest::is_alive
@spec
    ensures
        r == has(self.d(), nx(id)),
@fn dynamic::forest::Forest::data
@spec
    ensures
        r is Some <==> has(self.d(), nx(id)),
        r is Some ==> self.d()[nx(id)] == Some(*r->0),
@fn dynamic::forest::Forest::data_mut
@spec
    ensures
        r is Some <==> has(old(self).d(), nx(id)),
        final(self).hierarchy == old(self).hierarchy,
        r is None ==> final(self).d() == old(self).d(),
        r is Some ==> old(self).d()[nx(id)] == Some(*r->0) && final(self).d() == old(self).d().update(nx(id), Some(*final(r->0))),
        old(self).ok() ==> final(self).ok(),
@fn dynamic::forest::Forest::neighbors
@spec
    ensures
        r is Some <==> live(self.s(), nx(id)),
        r is Some ==> nx(id) < self.s().len() && *r->0 == self.hierarchy.neighbors@[nx(id)] && r->0.nb() == self.s()[nx(id)],
@fn dynamic::forest::Forest::create_root
@spec
    requires
        old(self).ok(),
        old(self).s().len() <= nmax::<Id>(),
    ensures
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).t() == t_new(old(self).t()),
        final(self).d() == old(self).d().push(Some(data)),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::create_insert_momo
@spec
    requires
        wf(old(hierarchy).s()),
        data_ok(old(hierarchy).s(), old(storage)@),
        live(old(hierarchy).s(), anchor(dst(dest))),
        dst_parent(abs(old(hierarchy).s()), dst(dest)) is Some,
        old(hierarchy).s().len() <= Id::max_idx(),
    ensures
        ix(r) == old(hierarchy).s().len(),
        wf(final(hierarchy).s()),
        data_ok(final(hierarchy).s(), final(storage)@),
        final(storage)@ == old(storage)@.push(Some(data)),
        abs(final(hierarchy).s()) == t_insert(t_new(abs(old(hierarchy).s())), ix(r), dst(dest)),
@entry
    proof {
        lemma_create_insert(hierarchy.s(), dst(dest));
    }
@fn dynamic::forest::Forest::create_insert
@spec
    requires
        old(self).ok(),
        live(old(self).s(), anchor(ndst(dest))),
        dst_parent(old(self).t(), ndst(dest)) is Some,
        old(self).s().len() <= nmax::<Id>(),
    ensures
        final(self).ok(),
        nx(r) == old(self).s().len(),
        final(self).d() == old(self).d().push(Some(data)),
        final(self).t() == t_insert(t_new(old(self).t()), nx(r), ndst(dest)),
@entry
    proof {
        nxok::<Id>();
    }
@fn dynamic::forest::Forest::insert
@spec
    requires
        old(self).ok(),
        live(old(self).s(), nx(node)),
        live(old(self).s(), anchor(ndst(dest))),
    ensures
        final(self).ok(),
        final(self).d() == old(self).d(),
        r is Ok <==> refusal(old(self).t(), nx(node), ndst(dest)) is None,
        r is Err ==> Some(r->Err_0) == refusal(old(self).t(), nx(node), ndst(dest)),
        r is Err ==> final(self).s() == old(self).s(),
        r is Ok ==> final(self).t() == t_insert(old(self).t(), nx(node), ndst(dest)),
@entry
    proof {
        lemma_op_alive(self.s());
    }
@fn dynamic::forest::Forest::detach
@spec
    requires
        old(self).ok(),
        live(old(self).s(), nx(node)),
    ensures
        final(self).ok(),
        final(self).d() == old(self).d(),
        final(self).t() == t_detach(old(self).t(), nx(node)),
@entry
    proof {
        lemma_op_alive(self.s());
    }
@fn dynamic::forest::Forest::detach_single
@spec
    requires
        old(self).ok(),
        live(old(self).s(), nx(node)),
    ensures
        final(self).ok(),
        final(self).d() == old(self).d(),
        r is Err <==> old(self).t().parent[nx(node)] is None && old(self).t().kids[nx(node)].len() > 1,
        r is Err ==> r->Err_0 is SiblingsWithoutParent && final(self).s() == old(self).s(),
        r is Ok ==> final(self).t() == t_detach_single(old(self).t(), nx(node)),
@entry
    proof {
        lemma_op_alive(self.s());
    }
