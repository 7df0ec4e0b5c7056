#!/usr/bin/env python3
"""Writes contracts/ids.vc: the same contracts for every node ID width."""
W = [('U8', 'u8'), ('U16', 'u16'), ('U32', 'u32'), ('U64', 'u64'), ('Usize', 'usize')]
o = ['@# Generated by tools/gen_ids.py.', '@derives nonmax', '@derives dynamic::id']
for n, _ in W:
    o.append(f'@derive_eq nonmax::NonMax{n}\n@derive_eq dynamic::id::NodeId{n}\n@derive_eq_proof nonmax::NonMax{n}\n    crate::vt::axiom_nonzero_eq(self.0, other.0);')
o.append('@derive_eq dynamic::id::OuterTuple__\n@derive_eq dynamic::id::OuterNamed__')
o.append('@module_prelude nonmax')
o.append('use crate::vt::*;')
for n, t in W:
    o.append(f'''/// The bits are stored inverted.
impl NonMax{n} {{
    pub open spec fn v(&self) -> usize {{
        (!self.0.view()) as usize
    }}
    pub open spec fn max() -> usize {{
        ({t}::MAX - 1) as usize
    }}
}}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NonMax{n} {{
    open spec fn obeys_partial_cmp_spec() -> bool {{
        false
    }}
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> {{
        None
    }}
}}
impl vstd::std_specs::cmp::OrdSpecImpl for NonMax{n} {{
    open spec fn obeys_cmp_spec() -> bool {{
        false
    }}
    open spec fn cmp_spec(&self, other: &Self) -> Ordering {{
        Ordering::Equal
    }}
}}''')
o.append('@module_prelude dynamic::id\nuse crate::vt::*;')
for n, t in W:
    o.append(f'''impl vstd::std_specs::cmp::PartialOrdSpecImpl for NodeId{n} {{
    open spec fn obeys_partial_cmp_spec() -> bool {{
        false
    }}
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> {{
        None
    }}
}}
impl vstd::std_specs::cmp::OrdSpecImpl for NodeId{n} {{
    open spec fn obeys_cmp_spec() -> bool {{
        false
    }}
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering {{
        core::cmp::Ordering::Equal
    }}
}}''')
bits = lambda t: f'''        assert(forall|x: {t}| #![trigger !x] (!x == 0) <==> x == {t}::MAX) by (bit_vector);
        assert(forall|x: {t}| #![trigger !x] (!x == {t}::MAX) <==> x == 0) by (bit_vector);
        assert(forall|x: {t}| #![trigger !x] !(!x) == x) by (bit_vector);
'''
for n, t in W:
    o.append(f'''@fn nonmax::NonMax{n}::new
@spec
    ensures
        r is Some <==> n <= Self::max(),
        r is Some ==> r->0.v() == n,
@entry
    proof {{
        {"crate::vt::axiom_try_from_self();" if t == 'usize' else ''}
{bits(t)}    }}
@fn nonmax::NonMax{n}::get
@spec
    ensures
        r == self.v(),
        r <= Self::max(),
@entry
    proof {{
        assert(self.0.view() != 0);
{bits(t)}    }}
@fn nonmax::NonMax{n}@Default::default
@spec
    ensures
        r.v() == 0,
@impl_items dynamic::id::NodeId{n}@SealedInternalNodeId
    open spec fn idx(self) -> nat {{
        self.0.v() as nat
    }}
    open spec fn max_idx() -> nat {{
        ({t}::MAX - 1) as nat
    }}
    proof fn eq_ok() {{
    }}
    proof fn idx_inj(a: Self, b: Self) {{
{bits(t)}        assert(!(!a.0.0.view()) == !(!b.0.0.view()));
        crate::vt::axiom_nonzero_eq(a.0.0, b.0.0);
    }}
    proof fn idx_max(a: Self) {{
        assert(a.0.0.view() != 0);
{bits(t)}    }}
@fn nonmax::NonMax{n}@Ord::cmp
@spec
    ensures
        r == Ordering::Equal <==> self.v() == other.v(),
        // In detail, which nobody may rely on:
        detail(r == order(self.v() as int, other.v() as int)),
@entry
    proof {{
        crate::vt::axiom_nonzero_cmp(self.0, other.0);
        crate::vt::axiom_nonzero_cmp(other.0, self.0);
        crate::vt::axiom_nonzero_eq(self.0, other.0);
{bits(t)}        assert(forall|x: {t}, y: {t}| #![trigger !x, !y] (x < y) <==> (!y < !x)) by (bit_vector);
    }}
@fn nonmax::NonMax{n}@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == Ordering::Equal <==> self.v() == other.v(),
        detail(r->0 == order(self.v() as int, other.v() as int)),
@fn dynamic::id::NodeId{n}@Ord::cmp
@spec
    ensures
        r == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r == order(ix(*self) as int, ix(*other) as int)),
@fn dynamic::id::NodeId{n}@PartialOrd::partial_cmp
@spec
    ensures
        r is Some,
        r->0 == core::cmp::Ordering::Equal <==> ix(*self) == ix(*other),
        detail(r->0 == order(ix(*self) as int, ix(*other) as int)),
@impl_items nonmax::NonMax{n}@Hash
    open spec fn h(&self) -> Seq<int> {{
        self.0.h()
    }}
@fn nonmax::NonMax{n}@Hash::hash
@spec
@exit
    proof {{
        assert(state.fed() =~= old(state).fed() + self.h());
    }}
@impl_items dynamic::id::NodeId{n}@Hash
    open spec fn h(&self) -> Seq<int> {{
        self.0.h()
    }}
@fn dynamic::id::NodeId{n}@Hash::hash
@spec
@exit
    proof {{
        assert(state.fed() =~= old(state).fed() + self.h());
    }}
@fn dynamic::id::NodeId{n}@SealedInternalNodeId::to_usize
@spec
@fn dynamic::id::NodeId{n}@SealedInternalNodeId::from_usize
@spec''')
o.append('''@append dynamic::id
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct OuterTuple__(NodeIdUsize);
impl_dynamic_node_id!(OuterTuple__, NodeIdUsize, 0);
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct OuterNamed__ {
    inner: NodeIdU8,
}
impl_dynamic_node_id!(OuterNamed__, NodeIdU8, inner);''')
for t, f in (('OuterTuple__', '0'), ('OuterNamed__', 'inner')):
    o.append(f'''@impl_items dynamic::id::{t}@NodeId
    open spec fn int(self) -> Self::Internal {{ self.{f} }}
    open spec fn ext(i: Self::Internal) -> Self {{ {t} {{ {f}: i }} }}
    proof fn ext_int(i: Self::Internal) {{}}
    proof fn int_ext(i: Self) {{}}
    proof fn id_eq_ok() {{}}
@fn dynamic::id::{t}@NodeId::from_internal
@spec
@fn dynamic::id::{t}@NodeId::to_internal
@spec''')
import os
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/contracts/ids.vc', 'w').write('\n'.join(o) + '\n')
m = ["", "// Generated by tools/gen_ids.py.", "pub mod idt {", "use vstd::prelude::*;", "use crate::vt::*;", "use crate::dynamic::id::*;"]
for n, t in W:
    m.append(f'''/// Equal IDs feed the same to a hasher, IDs of distinct indices do not.
pub proof fn thm_hash_{n.lower()}(a: NodeId{n}, b: NodeId{n})
    ensures
        a == b ==> Hash::h(&a) == Hash::h(&b),
        crate::dynamic::id::private::SealedInternalNodeId::idx(a) != crate::dynamic::id::private::SealedInternalNodeId::idx(b) ==> Hash::h(&a) != Hash::h(&b),
{{
    assert(Hash::h(&a)[0] == a.0.0.view() as int && Hash::h(&b)[0] == b.0.0.view() as int);
}}''')
m.append("}")
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/contracts/m_ids.rs', 'w').write('\n'.join(m) + '\n')
