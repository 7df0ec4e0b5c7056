@supertraits dynamic::id::private::SealedInternalNodeId Sized + vstd::std_specs::cmp::PartialEqSpec
@supertraits dynamic::id::InternalNodeId Copy + private::SealedInternalNodeId
@supertraits dynamic::id::NodeId Copy + vstd::std_specs::cmp::PartialEqSpec
@trait_items dynamic::id::private::SealedInternalNodeId
    spec fn idx(self) -> nat;
    spec fn max_idx() -> nat;
    proof fn eq_ok()
        ensures
            Self::obeys_eq_spec(),
            forall|a: Self, b: Self| #[trigger] a.eq_spec(&b) <==> a == b,
    ;
    proof fn idx_inj(a: Self, b: Self)
        requires
            a.idx() == b.idx(),
        ensures
            a == b,
    ;
    proof fn idx_max(a: Self)
        ensures
            a.idx() <= Self::max_idx() < usize::MAX,
    ;
@fn dynamic::id::private::SealedInternalNodeId::to_usize
@spec
    ensures
        r == self.idx(),
@fn dynamic::id::private::SealedInternalNodeId::from_usize
@spec
    ensures
        r is Some <==> v <= Self::max_idx(),
        r is Some ==> r->0.idx() == v,
@trait_items dynamic::id::NodeId
    spec fn int(self) -> Self::Internal;
    spec fn ext(i: Self::Internal) -> Self;
    proof fn ext_int(i: Self::Internal)
        ensures
            Self::ext(i).int() == i,
    ;
    proof fn int_ext(i: Self)
        ensures
            Self::ext(i.int()) == i,
    ;
    proof fn id_eq_ok()
        ensures
            Self::obeys_eq_spec(),
            forall|a: Self, b: Self| #[trigger] a.eq_spec(&b) <==> a == b,
    ;
@impl_items dynamic::id::T@NodeId
    open spec fn int(self) -> Self::Internal { self }
    open spec fn ext(i: Self::Internal) -> Self { i }
    proof fn ext_int(i: Self::Internal) {}
    proof fn int_ext(i: Self) {}
    proof fn id_eq_ok() { T::eq_ok(); }
@fn dynamic::id::NodeId::from_internal
@spec
    ensures
        r == Self::ext(id),
@fn dynamic::id::NodeId::to_internal
@spec
    ensures
        r == self.int(),
@trait_items dynamic::id::NodeIdExt
    spec fn nidx(self) -> nat;
@impl_items dynamic::id::Id@NodeIdExt
    open spec fn nidx(self) -> nat { ix(self.int()) as nat }
@fn dynamic::id::NodeIdExt::to_usize
@spec
    ensures
        r == self.nidx(),
@fn dynamic::id::T@NodeId::from_internal
@spec
@fn dynamic::id::T@NodeId::to_internal
@spec
@fn dynamic::id::Id@NodeIdExt::to_usize
@spec
