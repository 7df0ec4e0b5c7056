@# Generated by tools/gen_ids.py.
@derives nonmax
@derives dynamic::id
@derive_eq nonmax::NonMaxU8
@derive_eq dynamic::id::NodeIdU8
@derive_eq_proof nonmax::NonMaxU8
    crate::vt::axiom_nonzero_eq(self.0, other.0);
@derive_eq nonmax::NonMaxU16
@derive_eq dynamic::id::NodeIdU16
@derive_eq_proof nonmax::NonMaxU16
    crate::vt::axiom_nonzero_eq(self.0, other.0);
@derive_eq nonmax::NonMaxU32
@derive_eq dynamic::id::NodeIdU32
@derive_eq_proof nonmax::NonMaxU32
    crate::vt::axiom_nonzero_eq(self.0, other.0);
@derive_eq nonmax::NonMaxU64
@derive_eq dynamic::id::NodeIdU64
@derive_eq_proof nonmax::NonMaxU64
    crate::vt::axiom_nonzero_eq(self.0, other.0);
@derive_eq nonmax::NonMaxUsize
@derive_eq dynamic::id::NodeIdUsize
@derive_eq_proof nonmax::NonMaxUsize
    crate::vt::axiom_nonzero_eq(self.0, other.0);
@derive_eq dynamic::id::OuterTuple__
@derive_eq dynamic::id::OuterNamed__
@module_prelude nonmax
use crate::vt::*;
/// The bits are stored inverted.
impl NonMaxU8 {
    pub open spec fn v(&self) -> usize {
        (!self.0.view()) as usize
    }
    pub open spec fn max() -> usize {
        (u8::MAX - 1) as usize
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NonMaxU8 {
    open spec fn obeys_partial_cmp_spec() -> bool {
        false
    }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> {
        None
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for NonMaxU8 {
    open spec fn obeys_cmp_spec() -> bool {
        false
    }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering {
        Ordering::Equal
    }
}
/// The bits are stored inverted.
impl NonMaxU16 {
    pub open spec fn v(&self) -> usize {
        (!self.0.view()) as usize
    }
    pub open spec fn max() -> usize {
        (u16::MAX - 1) as usize
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NonMaxU16 {
    open spec fn obeys_partial_cmp_spec() -> bool {
        false
    }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> {
        None
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for NonMaxU16 {
    open spec fn obeys_cmp_spec() -> bool {
        false
    }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering {
        Ordering::Equal
    }
}
/// The bits are stored inverted.
impl NonMaxU32 {
    pub open spec fn v(&self) -> usize {
        (!self.0.view()) as usize
    }
    pub open spec fn max() -> usize {
        (u32::MAX - 1) as usize
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NonMaxU32 {
    open spec fn obeys_partial_cmp_spec() -> bool {
        false
    }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> {
        None
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for NonMaxU32 {
    open spec fn obeys_cmp_spec() -> bool {
        false
    }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering {
        Ordering::Equal
    }
}
/// The bits are stored inverted.
impl NonMaxU64 {
    pub open spec fn v(&self) -> usize {
        (!self.0.view()) as usize
    }
    pub open spec fn max() -> usize {
        (u64::MAX - 1) as usize
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NonMaxU64 {
    open spec fn obeys_partial_cmp_spec() -> bool {
        false
    }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> {
        None
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for NonMaxU64 {
    open spec fn obeys_cmp_spec() -> bool {
        false
    }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering {
        Ordering::Equal
    }
}
/// The bits are stored inverted.
impl NonMaxUsize {
    pub open spec fn v(&self) -> usize {
        (!self.0.view()) as usize
    }
    pub open spec fn max() -> usize {
        (usize::MAX - 1) as usize
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NonMaxUsize {
    open spec fn obeys_partial_cmp_spec() -> bool {
        false
    }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> {
        None
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for NonMaxUsize {
    open spec fn obeys_cmp_spec() -> bool {
        false
    }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering {
        Ordering::Equal
    }
}
@module_prelude dynamic::id
use crate::vt::*;
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NodeIdU8 {
    open spec fn obeys_partial_cmp_spec() -> bool {
        false
    }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> {
        None
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for NodeIdU8 {
    open spec fn obeys_cmp_spec() -> bool {
        false
    }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering {
        core::cmp::Ordering::Equal
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NodeIdU16 {
    open spec fn obeys_partial_cmp_spec() -> bool {
        false
    }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> {
        None
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for NodeIdU16 {
    open spec fn obeys_cmp_spec() -> bool {
        false
    }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering {
        core::cmp::Ordering::Equal
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NodeIdU32 {
    open spec fn obeys_partial_cmp_spec() -> bool {
        false
    }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> {
        None
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for NodeIdU32 {
    open spec fn obeys_cmp_spec() -> bool {
        false
    }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering {
        core::cmp::Ordering::Equal
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NodeIdU64 {
    open spec fn obeys_partial_cmp_spec() -> bool {
        false
    }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> {
        None
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for NodeIdU64 {
    open spec fn obeys_cmp_spec() -> bool {
        false
    }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering {
        core::cmp::Ordering::Equal
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NodeIdUsize {
    open spec fn obeys_partial_cmp_spec() -> bool {
        false
    }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> {
        None
    }
}
impl vstd::std_specs::cmp::OrdSpecImpl for NodeIdUsize {
    open spec fn obeys_cmp_spec() -> bool {
        false
    }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering {
        core::cmp::Ordering::Equal
    }
}
@fn nonmax::NonMaxU8::new
@spec
    ensures
        r is Some <==> n <= Self::max(),
        r is Some ==> r->0.v() == n,
@entry
    proof {
        
        assert(forall|x: u8| #![trigger !x] (!x == 0) <==> x == u8::MAX) by (bit_vector);
        assert(forall|x: u8| #![trigger !x] (!x == u8::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u8| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU8::get
@spec
    ensures
        r == self.v(),
        r <= Self::max(),
@entry
    proof {
        assert(self.0.view() != 0);
        assert(forall|x: u8| #![trigger !x] (!x == 0) <==> x == u8::MAX) by (bit_vector);
        assert(forall|x: u8| #![trigger !x] (!x == u8::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u8| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU8@Default::default
@spec
    ensures
        r.v() == 0,
@impl_items dynamic::id::NodeIdU8@SealedInternalNodeId
    open spec fn idx(self) -> nat {
        self.0.v() as nat
    }
    open spec fn max_idx() -> nat {
        (u8::MAX - 1) as nat
    }
    proof fn eq_ok() {
    }
    proof fn idx_inj(a: Self, b: Self) {
        assert(forall|x: u8| #![trigger !x] (!x == 0) <==> x == u8::MAX) by (bit_vector);
        assert(forall|x: u8| #![trigger !x] (!x == u8::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u8| #![trigger !x] !(!x) == x) by (bit_vector);
        assert(!(!a.0.0.view()) == !(!b.0.0.view()));
        crate::vt::axiom_nonzero_eq(a.0.0, b.0.0);
    }
    proof fn idx_max(a: Self) {
        assert(a.0.0.view() != 0);
        assert(forall|x: u8| #![trigger !x] (!x == 0) <==> x == u8::MAX) by (bit_vector);
        assert(forall|x: u8| #![trigger !x] (!x == u8::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u8| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU8@Ord::cmp
@spec
    ensures
        r == Ordering::Equal <==> self.v() == other.v(),
        // In detail, which nobody may rely on:
        detail(r == order(self.v() as int, other.v() as int)),
@entry
    proof {
        crate::vt::axiom_nonzero_cmp(self.0, other.0);
        crate::vt::axiom_nonzero_cmp(other.0, self.0);
        crate::vt::axiom_nonzero_eq(self.0, other.0);
        assert(forall|x: u8| #![trigger !x] (!x == 0) <==> x == u8::MAX) by (bit_vector);
        assert(forall|x: u8| #![trigger !x] (!x == u8::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u8| #![trigger !x] !(!x) == x) by (bit_vector);
        assert(forall|x: u8, y: u8| #![trigger !x, !y] (x < y) <==> (!y < !x)) by (bit_vector);
    }
@fn nonmax::NonMaxU8@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == Ordering::Equal <==> self.v() == other.v(),
        detail(r->0 == order(self.v() as int, other.v() as int)),
@fn dynamic::id::NodeIdU8@Ord::cmp
@spec
    ensures
        r == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r == order(ix(*self) as int, ix(*other) as int)),
@fn dynamic::id::NodeIdU8@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r->0 == order(ix(*self) as int, ix(*other) as int)),
@impl_items nonmax::NonMaxU8@Hash
    open spec fn h(&self) -> Seq<int> {
        self.0.h()
    }
@fn nonmax::NonMaxU8@Hash::hash
@spec
@exit
    proof {
        assert(state.fed() =~= old(state).fed() + self.h());
    }
@impl_items dynamic::id::NodeIdU8@Hash
    open spec fn h(&self) -> Seq<int> {
        self.0.h()
    }
@fn dynamic::id::NodeIdU8@Hash::hash
@spec
@exit
    proof {
        assert(state.fed() =~= old(state).fed() + self.h());
    }
@fn dynamic::id::NodeIdU8@SealedInternalNodeId::to_usize
@spec
@fn dynamic::id::NodeIdU8@SealedInternalNodeId::from_usize
@spec
@fn nonmax::NonMaxU16::new
@spec
    ensures
        r is Some <==> n <= Self::max(),
        r is Some ==> r->0.v() == n,
@entry
    proof {
        
        assert(forall|x: u16| #![trigger !x] (!x == 0) <==> x == u16::MAX) by (bit_vector);
        assert(forall|x: u16| #![trigger !x] (!x == u16::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u16| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU16::get
@spec
    ensures
        r == self.v(),
        r <= Self::max(),
@entry
    proof {
        assert(self.0.view() != 0);
        assert(forall|x: u16| #![trigger !x] (!x == 0) <==> x == u16::MAX) by (bit_vector);
        assert(forall|x: u16| #![trigger !x] (!x == u16::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u16| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU16@Default::default
@spec
    ensures
        r.v() == 0,
@impl_items dynamic::id::NodeIdU16@SealedInternalNodeId
    open spec fn idx(self) -> nat {
        self.0.v() as nat
    }
    open spec fn max_idx() -> nat {
        (u16::MAX - 1) as nat
    }
    proof fn eq_ok() {
    }
    proof fn idx_inj(a: Self, b: Self) {
        assert(forall|x: u16| #![trigger !x] (!x == 0) <==> x == u16::MAX) by (bit_vector);
        assert(forall|x: u16| #![trigger !x] (!x == u16::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u16| #![trigger !x] !(!x) == x) by (bit_vector);
        assert(!(!a.0.0.view()) == !(!b.0.0.view()));
        crate::vt::axiom_nonzero_eq(a.0.0, b.0.0);
    }
    proof fn idx_max(a: Self) {
        assert(a.0.0.view() != 0);
        assert(forall|x: u16| #![trigger !x] (!x == 0) <==> x == u16::MAX) by (bit_vector);
        assert(forall|x: u16| #![trigger !x] (!x == u16::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u16| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU16@Ord::cmp
@spec
    ensures
        r == Ordering::Equal <==> self.v() == other.v(),
        // In detail, which nobody may rely on:
        detail(r == order(self.v() as int, other.v() as int)),
@entry
    proof {
        crate::vt::axiom_nonzero_cmp(self.0, other.0);
        crate::vt::axiom_nonzero_cmp(other.0, self.0);
        crate::vt::axiom_nonzero_eq(self.0, other.0);
        assert(forall|x: u16| #![trigger !x] (!x == 0) <==> x == u16::MAX) by (bit_vector);
        assert(forall|x: u16| #![trigger !x] (!x == u16::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u16| #![trigger !x] !(!x) == x) by (bit_vector);
        assert(forall|x: u16, y: u16| #![trigger !x, !y] (x < y) <==> (!y < !x)) by (bit_vector);
    }
@fn nonmax::NonMaxU16@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == Ordering::Equal <==> self.v() == other.v(),
        detail(r->0 == order(self.v() as int, other.v() as int)),
@fn dynamic::id::NodeIdU16@Ord::cmp
@spec
    ensures
        r == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r == order(ix(*self) as int, ix(*other) as int)),
@fn dynamic::id::NodeIdU16@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r->0 == order(ix(*self) as int, ix(*other) as int)),
@impl_items nonmax::NonMaxU16@Hash
    open spec fn h(&self) -> Seq<int> {
        self.0.h()
    }
@fn nonmax::NonMaxU16@Hash::hash
@spec
@exit
    proof {
        assert(state.fed() =~= old(state).fed() + self.h());
    }
@impl_items dynamic::id::NodeIdU16@Hash
    open spec fn h(&self) -> Seq<int> {
        self.0.h()
    }
@fn dynamic::id::NodeIdU16@Hash::hash
@spec
@exit
    proof {
        assert(state.fed() =~= old(state).fed() + self.h());
    }
@fn dynamic::id::NodeIdU16@SealedInternalNodeId::to_usize
@spec
@fn dynamic::id::NodeIdU16@SealedInternalNodeId::from_usize
@spec
@fn nonmax::NonMaxU32::new
@spec
    ensures
        r is Some <==> n <= Self::max(),
        r is Some ==> r->0.v() == n,
@entry
    proof {
        
        assert(forall|x: u32| #![trigger !x] (!x == 0) <==> x == u32::MAX) by (bit_vector);
        assert(forall|x: u32| #![trigger !x] (!x == u32::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u32| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU32::get
@spec
    ensures
        r == self.v(),
        r <= Self::max(),
@entry
    proof {
        assert(self.0.view() != 0);
        assert(forall|x: u32| #![trigger !x] (!x == 0) <==> x == u32::MAX) by (bit_vector);
        assert(forall|x: u32| #![trigger !x] (!x == u32::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u32| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU32@Default::default
@spec
    ensures
        r.v() == 0,
@impl_items dynamic::id::NodeIdU32@SealedInternalNodeId
    open spec fn idx(self) -> nat {
        self.0.v() as nat
    }
    open spec fn max_idx() -> nat {
        (u32::MAX - 1) as nat
    }
    proof fn eq_ok() {
    }
    proof fn idx_inj(a: Self, b: Self) {
        assert(forall|x: u32| #![trigger !x] (!x == 0) <==> x == u32::MAX) by (bit_vector);
        assert(forall|x: u32| #![trigger !x] (!x == u32::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u32| #![trigger !x] !(!x) == x) by (bit_vector);
        assert(!(!a.0.0.view()) == !(!b.0.0.view()));
        crate::vt::axiom_nonzero_eq(a.0.0, b.0.0);
    }
    proof fn idx_max(a: Self) {
        assert(a.0.0.view() != 0);
        assert(forall|x: u32| #![trigger !x] (!x == 0) <==> x == u32::MAX) by (bit_vector);
        assert(forall|x: u32| #![trigger !x] (!x == u32::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u32| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU32@Ord::cmp
@spec
    ensures
        r == Ordering::Equal <==> self.v() == other.v(),
        // In detail, which nobody may rely on:
        detail(r == order(self.v() as int, other.v() as int)),
@entry
    proof {
        crate::vt::axiom_nonzero_cmp(self.0, other.0);
        crate::vt::axiom_nonzero_cmp(other.0, self.0);
        crate::vt::axiom_nonzero_eq(self.0, other.0);
        assert(forall|x: u32| #![trigger !x] (!x == 0) <==> x == u32::MAX) by (bit_vector);
        assert(forall|x: u32| #![trigger !x] (!x == u32::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u32| #![trigger !x] !(!x) == x) by (bit_vector);
        assert(forall|x: u32, y: u32| #![trigger !x, !y] (x < y) <==> (!y < !x)) by (bit_vector);
    }
@fn nonmax::NonMaxU32@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == Ordering::Equal <==> self.v() == other.v(),
        detail(r->0 == order(self.v() as int, other.v() as int)),
@fn dynamic::id::NodeIdU32@Ord::cmp
@spec
    ensures
        r == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r == order(ix(*self) as int, ix(*other) as int)),
@fn dynamic::id::NodeIdU32@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r->0 == order(ix(*self) as int, ix(*other) as int)),
@impl_items nonmax::NonMaxU32@Hash
    open spec fn h(&self) -> Seq<int> {
        self.0.h()
    }
@fn nonmax::NonMaxU32@Hash::hash
@spec
@exit
    proof {
        assert(state.fed() =~= old(state).fed() + self.h());
    }
@impl_items dynamic::id::NodeIdU32@Hash
    open spec fn h(&self) -> Seq<int> {
        self.0.h()
    }
@fn dynamic::id::NodeIdU32@Hash::hash
@spec
@exit
    proof {
        assert(state.fed() =~= old(state).fed() + self.h());
    }
@fn dynamic::id::NodeIdU32@SealedInternalNodeId::to_usize
@spec
@fn dynamic::id::NodeIdU32@SealedInternalNodeId::from_usize
@spec
@fn nonmax::NonMaxU64::new
@spec
    ensures
        r is Some <==> n <= Self::max(),
        r is Some ==> r->0.v() == n,
@entry
    proof {
        
        assert(forall|x: u64| #![trigger !x] (!x == 0) <==> x == u64::MAX) by (bit_vector);
        assert(forall|x: u64| #![trigger !x] (!x == u64::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u64| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU64::get
@spec
    ensures
        r == self.v(),
        r <= Self::max(),
@entry
    proof {
        assert(self.0.view() != 0);
        assert(forall|x: u64| #![trigger !x] (!x == 0) <==> x == u64::MAX) by (bit_vector);
        assert(forall|x: u64| #![trigger !x] (!x == u64::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u64| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU64@Default::default
@spec
    ensures
        r.v() == 0,
@impl_items dynamic::id::NodeIdU64@SealedInternalNodeId
    open spec fn idx(self) -> nat {
        self.0.v() as nat
    }
    open spec fn max_idx() -> nat {
        (u64::MAX - 1) as nat
    }
    proof fn eq_ok() {
    }
    proof fn idx_inj(a: Self, b: Self) {
        assert(forall|x: u64| #![trigger !x] (!x == 0) <==> x == u64::MAX) by (bit_vector);
        assert(forall|x: u64| #![trigger !x] (!x == u64::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u64| #![trigger !x] !(!x) == x) by (bit_vector);
        assert(!(!a.0.0.view()) == !(!b.0.0.view()));
        crate::vt::axiom_nonzero_eq(a.0.0, b.0.0);
    }
    proof fn idx_max(a: Self) {
        assert(a.0.0.view() != 0);
        assert(forall|x: u64| #![trigger !x] (!x == 0) <==> x == u64::MAX) by (bit_vector);
        assert(forall|x: u64| #![trigger !x] (!x == u64::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u64| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxU64@Ord::cmp
@spec
    ensures
        r == Ordering::Equal <==> self.v() == other.v(),
        // In detail, which nobody may rely on:
        detail(r == order(self.v() as int, other.v() as int)),
@entry
    proof {
        crate::vt::axiom_nonzero_cmp(self.0, other.0);
        crate::vt::axiom_nonzero_cmp(other.0, self.0);
        crate::vt::axiom_nonzero_eq(self.0, other.0);
        assert(forall|x: u64| #![trigger !x] (!x == 0) <==> x == u64::MAX) by (bit_vector);
        assert(forall|x: u64| #![trigger !x] (!x == u64::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: u64| #![trigger !x] !(!x) == x) by (bit_vector);
        assert(forall|x: u64, y: u64| #![trigger !x, !y] (x < y) <==> (!y < !x)) by (bit_vector);
    }
@fn nonmax::NonMaxU64@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == Ordering::Equal <==> self.v() == other.v(),
        detail(r->0 == order(self.v() as int, other.v() as int)),
@fn dynamic::id::NodeIdU64@Ord::cmp
@spec
    ensures
        r == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r == order(ix(*self) as int, ix(*other) as int)),
@fn dynamic::id::NodeIdU64@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r->0 == order(ix(*self) as int, ix(*other) as int)),
@impl_items nonmax::NonMaxU64@Hash
    open spec fn h(&self) -> Seq<int> {
        self.0.h()
    }
@fn nonmax::NonMaxU64@Hash::hash
@spec
@exit
    proof {
        assert(state.fed() =~= old(state).fed() + self.h());
    }
@impl_items dynamic::id::NodeIdU64@Hash
    open spec fn h(&self) -> Seq<int> {
        self.0.h()
    }
@fn dynamic::id::NodeIdU64@Hash::hash
@spec
@exit
    proof {
        assert(state.fed() =~= old(state).fed() + self.h());
    }
@fn dynamic::id::NodeIdU64@SealedInternalNodeId::to_usize
@spec
@fn dynamic::id::NodeIdU64@SealedInternalNodeId::from_usize
@spec
@fn nonmax::NonMaxUsize::new
@spec
    ensures
        r is Some <==> n <= Self::max(),
        r is Some ==> r->0.v() == n,
@entry
    proof {
        crate::vt::axiom_try_from_self();
        assert(forall|x: usize| #![trigger !x] (!x == 0) <==> x == usize::MAX) by (bit_vector);
        assert(forall|x: usize| #![trigger !x] (!x == usize::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: usize| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxUsize::get
@spec
    ensures
        r == self.v(),
        r <= Self::max(),
@entry
    proof {
        assert(self.0.view() != 0);
        assert(forall|x: usize| #![trigger !x] (!x == 0) <==> x == usize::MAX) by (bit_vector);
        assert(forall|x: usize| #![trigger !x] (!x == usize::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: usize| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxUsize@Default::default
@spec
    ensures
        r.v() == 0,
@impl_items dynamic::id::NodeIdUsize@SealedInternalNodeId
    open spec fn idx(self) -> nat {
        self.0.v() as nat
    }
    open spec fn max_idx() -> nat {
        (usize::MAX - 1) as nat
    }
    proof fn eq_ok() {
    }
    proof fn idx_inj(a: Self, b: Self) {
        assert(forall|x: usize| #![trigger !x] (!x == 0) <==> x == usize::MAX) by (bit_vector);
        assert(forall|x: usize| #![trigger !x] (!x == usize::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: usize| #![trigger !x] !(!x) == x) by (bit_vector);
        assert(!(!a.0.0.view()) == !(!b.0.0.view()));
        crate::vt::axiom_nonzero_eq(a.0.0, b.0.0);
    }
    proof fn idx_max(a: Self) {
        assert(a.0.0.view() != 0);
        assert(forall|x: usize| #![trigger !x] (!x == 0) <==> x == usize::MAX) by (bit_vector);
        assert(forall|x: usize| #![trigger !x] (!x == usize::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: usize| #![trigger !x] !(!x) == x) by (bit_vector);
    }
@fn nonmax::NonMaxUsize@Ord::cmp
@spec
    ensures
        r == Ordering::Equal <==> self.v() == other.v(),
        // In detail, which nobody may rely on:
        detail(r == order(self.v() as int, other.v() as int)),
@entry
    proof {
        crate::vt::axiom_nonzero_cmp(self.0, other.0);
        crate::vt::axiom_nonzero_cmp(other.0, self.0);
        crate::vt::axiom_nonzero_eq(self.0, other.0);
        assert(forall|x: usize| #![trigger !x] (!x == 0) <==> x == usize::MAX) by (bit_vector);
        assert(forall|x: usize| #![trigger !x] (!x == usize::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: usize| #![trigger !x] !(!x) == x) by (bit_vector);
        assert(forall|x: usize, y: usize| #![trigger !x, !y] (x < y) <==> (!y < !x)) by (bit_vector);
    }
@fn nonmax::NonMaxUsize@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == Ordering::Equal <==> self.v() == other.v(),
        detail(r->0 == order(self.v() as int, other.v() as int)),
@fn dynamic::id::NodeIdUsize@Ord::cmp
@spec
    ensures
        r == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r == order(ix(*self) as int, ix(*other) as int)),
@fn dynamic::id::NodeIdUsize@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r->0 == order(ix(*self) as int, ix(*other) as int)),
@impl_items nonmax::NonMaxUsize@Hash
    open spec fn h(&self) -> Seq<int> {
        self.0.h()
    }
@fn nonmax::NonMaxUsize@Hash::hash
@spec
@exit
    proof {
        assert(state.fed() =~= old(state).fed() + self.h());
    }
@impl_items dynamic::id::NodeIdUsize@Hash
    open spec fn h(&self) -> Seq<int> {
        self.0.h()
    }
@fn dynamic::id::NodeIdUsize@Hash::hash
@spec
@exit
    proof {
        assert(state.fed() =~= old(state).fed() + self.h());
    }
@fn dynamic::id::NodeIdUsize@SealedInternalNodeId::to_usize
@spec
@fn dynamic::id::NodeIdUsize@SealedInternalNodeId::from_usize
@spec
@append dynamic::id
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct OuterTuple__(NodeIdUsize);
impl_dynamic_node_id!(OuterTuple__, NodeIdUsize, 0);
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct OuterNamed__ {
    inner: NodeIdU8,
}
impl_dynamic_node_id!(OuterNamed__, NodeIdU8, inner);
@impl_items dynamic::id::OuterTuple__@NodeId
    open spec fn int(self) -> Self::Internal { self.0 }
    open spec fn ext(i: Self::Internal) -> Self { OuterTuple__ { 0: i } }
    proof fn ext_int(i: Self::Internal) {}
    proof fn int_ext(i: Self) {}
    proof fn id_eq_ok() {}
@fn dynamic::id::OuterTuple__@NodeId::from_internal
@spec
@fn dynamic::id::OuterTuple__@NodeId::to_internal
@spec
@impl_items dynamic::id::OuterNamed__@NodeId
    open spec fn int(self) -> Self::Internal { self.inner }
    open spec fn ext(i: Self::Internal) -> Self { OuterNamed__ { inner: i } }
    proof fn ext_int(i: Self::Internal) {}
    proof fn int_ext(i: Self) {}
    proof fn id_eq_ok() {}
@fn dynamic::id::OuterNamed__@NodeId::from_internal
@spec
@fn dynamic::id::OuterNamed__@NodeId::to_internal
@spec
