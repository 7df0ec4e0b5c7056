
// Generated by tools/gen_ids.py.
pub mod idt {
use vstd::prelude::*;
use crate::vt::*;
use crate::dynamic::id::*;
/// Equal IDs feed the same to a hasher, IDs of distinct indices do not.
pub proof fn thm_hash_u8(a: NodeIdU8, b: NodeIdU8)
    ensures
        a == b ==> Hash::h(&a) == Hash::h(&b),
        crate::dynamic::id::private::SealedInternalNodeId::idx(a) != crate::dynamic::id::private::SealedInternalNodeId::idx(b) ==> Hash::h(&a) != Hash::h(&b),
{
    assert(Hash::h(&a)[0] == a.0.0.view() as int && Hash::h(&b)[0] == b.0.0.view() as int);
}
/// Equal IDs feed the same to a hasher, IDs of distinct indices do not.
pub proof fn thm_hash_u16(a: NodeIdU16, b: NodeIdU16)
    ensures
        a == b ==> Hash::h(&a) == Hash::h(&b),
        crate::dynamic::id::private::SealedInternalNodeId::idx(a) != crate::dynamic::id::private::SealedInternalNodeId::idx(b) ==> Hash::h(&a) != Hash::h(&b),
{
    assert(Hash::h(&a)[0] == a.0.0.view() as int && Hash::h(&b)[0] == b.0.0.view() as int);
}
/// Equal IDs feed the same to a hasher, IDs of distinct indices do not.
pub proof fn thm_hash_u32(a: NodeIdU32, b: NodeIdU32)
    ensures
        a == b ==> Hash::h(&a) == Hash::h(&b),
        crate::dynamic::id::private::SealedInternalNodeId::idx(a) != crate::dynamic::id::private::SealedInternalNodeId::idx(b) ==> Hash::h(&a) != Hash::h(&b),
{
    assert(Hash::h(&a)[0] == a.0.0.view() as int && Hash::h(&b)[0] == b.0.0.view() as int);
}
/// Equal IDs feed the same to a hasher, IDs of distinct indices do not.
pub proof fn thm_hash_u64(a: NodeIdU64, b: NodeIdU64)
    ensures
        a == b ==> Hash::h(&a) == Hash::h(&b),
        crate::dynamic::id::private::SealedInternalNodeId::idx(a) != crate::dynamic::id::private::SealedInternalNodeId::idx(b) ==> Hash::h(&a) != Hash::h(&b),
{
    assert(Hash::h(&a)[0] == a.0.0.view() as int && Hash::h(&b)[0] == b.0.0.view() as int);
}
/// Equal IDs feed the same to a hasher, IDs of distinct indices do not.
pub proof fn thm_hash_usize(a: NodeIdUsize, b: NodeIdUsize)
    ensures
        a == b ==> Hash::h(&a) == Hash::h(&b),
        crate::dynamic::id::private::SealedInternalNodeId::idx(a) != crate::dynamic::id::private::SealedInternalNodeId::idx(b) ==> Hash::h(&a) != Hash::h(&b),
{
    assert(Hash::h(&a)[0] == a.0.0.view() as int && Hash::h(&b)[0] == b.0.0.view() as int);
}
}
