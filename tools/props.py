"""What decides each property: the functions under contract, the modules of the
verified text they are in, and what the result means."""

import fnmatch
import re

import idprobe


def matches(path, globs):
    # Copies for calls that end in a panic are named by globs of their own.
    return any(fnmatch.fnmatchcase(path, g) for g in globs if ('__stop' in g) == ('__stop' in path))

H = 'dynamic::hierarchy::'
T = 'dynamic::hierarchy::traverse::'
F = 'dynamic::forest::'
N = 'dynamic::forest::node::'
FT = 'dynamic::forest::traverse::'

LEMMA_MODULES = ['lem', 'mv', 'fo', 'wk', 'bf', 'rm', 'cp', 'bd', 'bd_use', 'th', 'hist', 'pr', 'idt', 'st']
CORE = ['lem', 'mv', 'fo']
WALK = ['lem', 'fo', 'wk']
REMOVE = ['lem', 'mv', 'fo', 'wk', 'rm']
CLONE = REMOVE + ['cp']
BFT = ['lem', 'fo', 'wk', 'bf']
BUILD = CORE + ['bd', 'bd_use', 'th', 'hist']

IDS = 'the node ID type obeys the contracts of the traits InternalNodeId and NodeId (contracts/id.vc): proved under C14 for NodeIdU8 to NodeIdUsize and for types that use impl_dynamic_node_id!; assumed for implementations of NodeId written by hand'
DEPTH = 'memory allocation does not fail'
OOM = 'vstd specifications of Vec, VecDeque, Option, Result and core::mem::replace are trusted'

MOVES = [H + 'Hierarchy::' + f for f in ('connect_triangle', 'neighbors', 'neighbors_mut', 'is_alive', 'is_valid')] + [
    H + 'Neighbors::*', H + 'SiblingsRange::*', T + 'AncestorsTraverser::*']
INSERT = MOVES + [H + 'Hierarchy::' + f for f in ('insert', 'insert_before', 'insert_after', 'prepend_child', 'append_child')] + [
    F + 'Forest::insert', F + 'Forest::is_alive', N + 'NodeMut::adopt', N + 'NodeMut::try_adopt', 'dynamic::anchor::*']

ITER = 'core::iter::Iterator and DoubleEndedIterator are replaced by traits of the same required methods (vt in contracts/a_vt.rs); provided methods other than size_hint are not called by the crate'
NONMAX = 'usize has 64 bits; core::num::NonZero is known by the specifications of vstd and the two axioms axiom_nonzero_eq (equal exactly when the values are equal) and axiom_try_from_self (usize::try_from(usize) succeeds with the value) in contracts/a_vt.rs'
DERIVES = 'derived PartialEq, Eq, PartialOrd, Ord and Hash of the ID types are expanded at source level to what the derives mean (field by field in order); core::hash is replaced by stand-ins (vt::Hash, vt::Hasher: a hasher is the sequence of the values fed to it, and a NonZero feeds its value); NonZero orders by its value (axiom_nonzero_cmp)'
BASE = [H + 'Hierarchy::' + f for f in ('neighbors', 'is_alive', 'is_valid')] + [H + 'Neighbors::*', F + 'Forest::node', F + 'Forest::neighbors', F + 'Forest::is_alive', N + 'Node::new', N + 'Node::id', N + 'Node::hierarchy', N + 'Node::forest']
def walks(types, entries):
    f = []
    for t in types:
        f += [T + t + ('Traverser' if t in ('Ancestors', 'Siblings') else 'r') + '::*', FT + t + '::*', FT + t + '@*']
    return f + [F + 'Forest::' + e for e in entries] + [N + 'Node::' + e for e in entries]
EV = [FT + 'DftEvent::map', FT + 'DftEvent::from_hierarchy_dft_event']
WMODS = ['dynamic::hierarchy', 'dynamic::hierarchy::traverse', 'dynamic::forest', 'dynamic::forest::node', 'dynamic::forest::traverse']

FMT = 'core::fmt is replaced by stand-ins (vt::fmt in contracts/a_vt.rs): a Formatter is the text written so far and whether a write failed; Display or Debug of the data is known by a text and by whether it always succeeds, and writes its text in pieces through the Write given; write!(w, "{}", x) and write!(w, "{:?}", x) are calls of it; str::len, str::find and slicing at a byte position are known by vt::str_*'

HOOK = 'the hook is known by its calls only: the extractor binds the arguments of each call f(x) in the two remove functions with let and adds a ghost log of the calls; the log type carries the type of the hook'
HOOK2 = HOOK.replace('f(x) in the two remove functions', 'add_mapping(a, b)')
REMOVES = [T + 'SafeModeDepthFirstTraverser::*', H + 'Hierarchy::detach']
RMODS = ['dynamic::hierarchy', 'dynamic::hierarchy::traverse', 'dynamic::forest', 'dynamic::forest::node']

MUT = sorted(set(INSERT + REMOVES + [H + 'Hierarchy::create_root', H + 'Hierarchy::detach_single', H + 'Hierarchy@Default::default', F + 'Forest@Default::default', F + 'create_insert_momo',
    F + 'chain_builder::*', F + 'nest_builder::*', T + 'DepthFirstTraverser::with_toplevel', T + 'DepthFirstTraverser::next', T + 'DepthFirstTraverser::next_of_next_forward']
    + [F + 'Forest::' + f for f in ('new', 'node', 'node_mut', 'data', 'data_mut', 'neighbors', 'create_root', 'create_insert', 'detach', 'detach_single', 'remove*', 'clone_*')]
    + [N + 'NodeMut::' + f for f in ('new', 'create', 'detach', 'detach_single', 'remove*', 'data_mut', 'into_data_ref_mut', 'node', 'into_node', 'id', 'data', 'forest')]))
NAV = [N + 'Node::' + f for f in ('new', 'id', 'data', 'forest', 'hierarchy', 'parent', 'parent_id', 'prev_sibling', 'prev_sibling_id', 'next_sibling', 'next_sibling_id', 'first_child', 'first_child_id', 'last_child', 'last_child_id', 'first_last_child', 'first_last_child_id')]
MUTMODS = ['dynamic::hierarchy', 'dynamic::hierarchy::traverse', 'dynamic::forest', 'dynamic::forest::node', 'dynamic::anchor', 'dynamic::forest::chain_builder', 'dynamic::forest::nest_builder']
MUTLEM = ['lem', 'mv', 'fo', 'wk', 'rm', 'cp', 'bd', 'bd_use', 'th', 'hist']


def broken01(fn, msg, clause):
    """A failed obligation that means broken links or an internal panic; others are for the other properties."""
    if 'precondition' in msg:
        return True
    return 'postcondition' in msg and (bool(re.search(r'\bok\(|\bwf\(|data_ok\(|\brep\(', clause)) or matches(fn, NAV))


# Copies for calls that end in a panic.
STOP_NEW = [H + 'Hierarchy::create_root__stop', F + 'Forest::create_*__stop', F + 'create_insert_momo__stop', F + 'Forest::clone_*__stop', F + 'Forest::clone_*__stop::*', N + 'NodeMut::create__stop',
            F + 'chain_builder::ChainTreeBuilder::*__stop', F + 'nest_builder::NestTreeBuilder::*__stop']
STOP = STOP_NEW + [H + 'Hierarchy::*__stop', H + 'SiblingsRange::*__stop', F + 'Forest::*__stop', N + 'NodeMut::*__stop']


def stopped(fn, msg, clause):
    """A failed obligation of such a copy that is about the panic: something has changed before it, or it does not come."""
    if 'precondition' in msg:
        return bool(re.search(r'\bp\b|\bfrozen\(|\bsame\(', clause))
    return 'postcondition' in msg and bool(re.search(r'^\s*(r is Ok ==> )?live\(|max', clause))


def broken14(fn, msg, clause):
    return stopped(fn, msg, clause) if '__stop' in fn else 'detail(' not in clause


def broken07(fn, msg, clause):
    """A failed obligation about data, liveness or the index of a new node."""
    if '__stop' in fn:
        return stopped(fn, msg, clause)
    return 'postcondition' in msg and bool(re.search(r'\.d\(\)|\bhas\(|\blive\(|storage|data_ok\(|[ni]x\(r\)', clause))


PROPS = {
    'C01': dict(
        fns=MUT + NAV, modules=MUTMODS, lemmas=MUTLEM, clauses=broken01, more=[HOOK, 'a hook that panics is C16; operations with dead IDs are C07; the closures given to the builders and to clone and remove are known by their contracts'],
        claim='Every public operation that changes a forest, given a consistent forest (ok: the links stand for finite ordered trees, wf, and exactly the live slots have data) and live IDs, leaves a consistent forest, and reaches no panic, expect or unwrap that fails (each is a discharged precondition) except where the documentation announces one. thm_forest says what wf means from each node: relatives are live, parent and child, next and previous sibling, first and last child agree in both directions, every node is a root or at exactly one index of exactly one child list, nobody is its own ancestor, going up ends. hist::step is verified client code: any one operation, chosen from all of them, called on a consistent forest with what the documentation asks for, compiles against the contracts alone and leaves a consistent forest; induction over the history gives the property.'),
    'C07': dict(
        fns=MUT + [F + 'Forest::is_alive', F + 'Forest::neighbors'] + STOP, modules=MUTMODS, lemmas=MUTLEM + ['st'], clauses=broken07, more=[HOOK],
        claim='hist::step: every operation keeps all slots (kept): a dead slot stays dead, a slot that stays live keeps its datum unless it is the one written to; creation returns the index of a new slot, larger than all before, so no ID comes back (C14: distinct indices, distinct IDs). thm_history, thm_kept_trans: the same over any number of operations. hist::lookups: with a dead ID, is_alive, node, node_mut, data and neighbors find nothing and change nothing. data_mut and NodeMut::data_mut give access to the datum of that slot only. Operations that accept dead IDs (remove and its variants) change nothing for them. Operations that panic for dead IDs are verified a second time, as copies (__stop) without the precondition that the IDs are live and with each expect, unwrap, panic! and assertion allowed to fail where nothing has changed (same) or, for creating and cloning, where all slots and data from before are as they were and the forest is consistent (frozen, thm_frozen); they return only if the IDs are live.'),
    'C02': dict(
        fns=INSERT, lemmas=CORE + ['th'], modules=['dynamic::hierarchy', 'dynamic::hierarchy::traverse', 'dynamic::forest', 'dynamic::forest::node', 'dynamic::anchor'],
        claim='Forest::insert, NodeMut::adopt and try_adopt: for every consistent forest, live node and live anchor, the resulting forest equals the forest with the subtree cut out and pasted at the requested index (t_insert), from which position, unchanged subtree and unchanged order elsewhere follow (lemmas thm_insert_*).'),
    'C03': dict(
        fns=INSERT, lemmas=CORE + ['th'], modules=['dynamic::hierarchy', 'dynamic::hierarchy::traverse', 'dynamic::forest', 'dynamic::forest::node', 'dynamic::anchor'],
        claim='The result of every insertion of live nodes is Err exactly when refusal(t, node, destination) gives that error, and on Err the links and data are identical to before.'),
    'C04': dict(
        fns=MOVES + [H + 'Hierarchy::detach', F + 'Forest::detach', N + 'NodeMut::detach'],
        modules=['dynamic::hierarchy', 'dynamic::hierarchy::traverse', 'dynamic::forest', 'dynamic::forest::node'],
        claim='detach turns every consistent forest t into t_detach(t, node): the node is cut out of its parent\'s child list, nothing else changes.'),
    'C05': dict(
        fns=MOVES + [H + 'Hierarchy::detach_single', F + 'Forest::detach_single', N + 'NodeMut::detach_single'],
        modules=['dynamic::hierarchy', 'dynamic::hierarchy::traverse', 'dynamic::forest', 'dynamic::forest::node'],
        claim='detach_single turns every consistent forest t into t_detach_single(t, node), or is refused exactly for a root with several children with everything unchanged.'),
    'C13': dict(
        fns=INSERT + [H + 'Hierarchy::create_root', F + 'Forest::create_root', F + 'Forest::create_insert', F + 'create_insert_momo', N + 'NodeMut::create', F + 'Forest::new', F + 'Forest@Default::default', H + 'Hierarchy@Default::default'],
        modules=['dynamic::hierarchy', 'dynamic::hierarchy::traverse', 'dynamic::forest', 'dynamic::forest::node', 'dynamic::anchor'],
        claim='Creation returns the ID whose index is the number of slots created so far and turns forest t into t_new(t), or t_insert(t_new(t), new node, destination); the data sequence is extended by the given datum only.'),
    'C18': dict(
        fns=[H + 'Neighbors::*', H + 'Hierarchy::neighbors', F + 'Forest::neighbors', F + 'Forest::node', F + 'Forest::node_mut', F + 'Forest::data', F + 'Forest::data_mut', F + 'Forest::is_alive']
        + [N + 'Node::' + f for f in ('new', 'id', 'data', 'forest', 'hierarchy', 'parent', 'parent_id', 'prev_sibling', 'prev_sibling_id', 'next_sibling', 'next_sibling_id', 'first_child', 'first_child_id', 'last_child', 'last_child_id', 'first_last_child', 'first_last_child_id')]
        + [N + 'Node@Clone::clone'] + [N + 'NodeMut::' + f for f in ('new', 'node', 'into_node', 'forest', 'id', 'data', 'data_mut', 'into_data_ref_mut')],
        modules=['dynamic::hierarchy', 'dynamic::forest', 'dynamic::forest::node'],
        claim='A handle exists exactly for a live node; each navigation query equals the relation of the abstract ordered forest.'),
    'C08': dict(
        fns=BASE + EV + walks(['DepthFirstTraverse'], ['depth_first_traverse']), modules=WMODS, lemmas=WALK, more=[ITER],
        claim='depth_first_traverse starts with to_come(tour(t, node)), where tour is Open(n), the tours of the children in order, Close(n); from every state with to_come(q), next yields the first element of q and leaves to_come(rest), next_back yields the last one and leaves to_come(init), and on the empty q both yield None and leave the empty q. By induction every interleaving is a prefix and a reversed suffix that cover the tour once. lemma_tour_distinct: no event occurs twice.'),
    'C09': dict(
        fns=BASE + EV + walks(['ShallowDepthFirstTraverse'], ['shallow_depth_first_traverse']) + ['nonmax::NonMaxUsize::*', 'nonmax::NonMaxUsize@Default::default'], modules=WMODS + ['nonmax'], lemmas=WALK, more=[ITER, NONMAX],
        claim='shallow_depth_first_traverse starts with to_come(tour(t, node, limit)), and every step from either end takes one element of what is to come. lemma_tour_limit: the tour with a limit is the full tour, with depths, filtered by depth <= limit; lemma_no_limit: a limit of at least the number of nodes changes nothing.'),
    'C10': dict(
        fns=BASE + walks(['BreadthFirstTraverse', 'AllocatingBreadthFirstTraverse'], ['breadth_first_traverse', 'allocating_breadth_first_traverse']), modules=WMODS, lemmas=BFT, more=[ITER],
        claim='Both breadth-first traversals start with to_come(bfs(t, [node], 0)), where bfs lists a level from left to right and then the children of that level, one deeper; every step takes the first element of what is to come.'),
    'C11': dict(
        fns=BASE + walks(['Ancestors', 'Siblings'], ['ancestors', 'ancestors_or_self', 'children', 'following_siblings', 'following_siblings_or_self', 'preceding_siblings', 'preceding_siblings_or_self'])
        + [N + 'first_skipped', N + 'last_skipped'], modules=WMODS, lemmas=WALK, more=[ITER],
        claim='Each of the seven iterators starts with to_come of the chain of parents, of the child list, or of the part of the sibling list after or before the node, with or without it; every step from either end takes one element of what is to come.'),
    'C06': dict(
        fns=MOVES + REMOVES + [F + 'Forest::remove_hooked', F + 'Forest::remove_hooked::inner', F + 'Forest::remove', N + 'NodeMut::remove', N + 'NodeMut::remove_hooked', F + 'Forest::remove_hooked_panic_safe', F + 'Forest::remove_hooked_panic_safe::inner', N + 'NodeMut::remove_hooked_panic_safe'],
        modules=RMODS, lemmas=REMOVE, more=[HOOK],
        claim='Every removal of a live node turns forest t into t_drop(t_detach(t, node), sub(t, node)): the subtree is gone and every other node keeps its other children in order; the data of exactly the subtree become None; the calls to the hook, as a sequence, are the data of post(t, node), the closing order of the subtree (remove: the hook is core::mem::drop itself). A dead node changes nothing.'),
    'C16': dict(
        fns=MOVES + REMOVES + [F + 'Forest::remove_hooked_panic_safe', F + 'Forest::remove_hooked_panic_safe::inner', N + 'NodeMut::remove_hooked_panic_safe'],
        modules=RMODS, lemmas=REMOVE, more=[HOOK, 'unwinding out of the hook changes no state of the forest: the only locals with drop glue live across the call are the traverser and IDs'],
        claim='At every call of the hook, before it runs, the links are consistent, they stand for t_drop(t_detach(t, node), nodes closed so far), the data of exactly those nodes have been taken out, and the calls so far (this one included) are the data of those nodes in closing order: what a panic of the hook leaves behind.'),
    'C12': dict(
        fns=INSERT + [H + 'Hierarchy::create_root', F + 'Forest::create_root', F + 'create_insert_momo', F + 'Forest::data', N + 'Node::data', N + 'Node::id', N + 'Node::forest',
                      T + 'SafeModeDepthFirstTraverser::*', T + 'DepthFirstTraverser::with_toplevel', T + 'DepthFirstTraverser::next', T + 'DepthFirstTraverser::next_of_next_forward',
                      F + 'Forest::clone_*'],
        modules=RMODS + ['dynamic::anchor'], lemmas=CLONE, more=[HOOK2],
        claim='Each of the four clone functions turns forest t into t_clone(t, source, node): one new slot per element of pre(source, node), the document order of the subtree (thm_pre: exactly the subtree, each node once, the top first); the i-th new node stands for the i-th element, its parent and its children in order are the images of those of the source node, the top is a root, and the links and data of all earlier slots are unchanged. The datum of each new node satisfies the postcondition of T::clone on the source datum. The calls to the mapping hook are exactly the pairs (i-th element, i-th new node). The ID range must have room for the copy.'),
    'C15': dict(
        fns=INSERT + [H + 'Hierarchy::create_root', F + 'Forest::create_root', F + 'Forest::create_insert', F + 'create_insert_momo', F + 'Forest::node', N + 'Node::new', N + 'Node::parent_id',
                      F + 'chain_builder::*', F + 'nest_builder::*'],
        modules=RMODS + ['dynamic::anchor', 'dynamic::forest::chain_builder', 'dynamic::forest::nest_builder'], lemmas=BUILD,
        more=['the closure given to create_tree is known by its own contract: it may be called on the builder of the new child, and does there only what calls of builder methods can do (step: the trees grow by new last children of the root of the builder and below new nodes, everything else unchanged); safe code in the closure could break this only by exchanging two builders with mem::swap'],
        claim='Chain builder: child turns forest t into put(t, current, number of its children), sibling into put(t, parent of current, index of current + 1), where put adds one new leaf at that child index and changes nothing else; the new node becomes current; parent and try_parent move to the parent, try_parent returns None exactly at a root and then changes nothing. Nesting builder: add_child adds a new last child of the root of the builder; create_tree adds a new last child, runs the closure exactly once on a builder whose root is that child and which has no children yet, and afterwards the builder is back at its own root with the child as the last; old nodes keep parents, children and data (grown, transitive over any number of calls), so nesting of any depth follows by induction. Both builders are also used in verified client code (bd_use). The ID range must have room.'),
    'C14': dict(
        probe=idprobe.run, lemmas=CORE + ['wk', 'rm', 'cp', 'bd', 'st', 'idt'], clauses=broken14,
        fns=['nonmax::*', 'dynamic::id::NodeId*', 'dynamic::id::[A-Z]*@*', H + 'Hierarchy::create_root', F + 'Forest::create_root'] + STOP_NEW,
        modules=['nonmax', 'dynamic::id', 'dynamic::hierarchy', 'dynamic::forest', 'dynamic::forest::node', 'dynamic::forest::chain_builder', 'dynamic::forest::nest_builder'],
        more=[NONMAX, DERIVES],
        claim='For each of the five widths: from_usize(v) is Some exactly for v <= MAX - 1, with index v, to_usize gives the index, which is at most MAX - 1 (idx_max); equal indices mean equal IDs (idx_inj), == compares the index, the ordering is total on the index (Equal exactly for equal IDs, antisymmetric, transitive), and what an ID feeds to a hasher determines the ID (thm_hash_*: equal IDs feed the same, distinct IDs feed different values); the same through NodeId and impl_dynamic_node_id! (instances with a tuple field and with a named field, expanded from the macro of the crate). create_root returns the ID whose index is the number of slots. Every operation that creates nodes (create_root, create_insert, NodeMut::create, the builders, the four kinds of cloning) is verified a second time, as a copy (__stop) without the precondition that there is room: it returns only if there was, and where it panics the forest is consistent and all slots and data from before are as they were (frozen).'),
    'C19': dict(
        fns=BASE + [T + 'DepthFirstTraverser::with_toplevel', T + 'DepthFirstTraverser::next', T + 'DepthFirstTraverser::next_of_next_forward', F + 'debug_print::*', F + 'Forest::debug_print', N + 'Node::debug_print', N + 'NodeMut::debug_print'],
        modules=['dynamic::hierarchy', 'dynamic::hierarchy::traverse', 'dynamic::forest', 'dynamic::forest::node', 'dynamic::forest::debug_print'], lemmas=['lem', 'mv', 'fo', 'wk', 'rm', 'cp', 'pr'], more=[ITER, FMT],
        claim='For every forest, node and formatter: if Display (Debug) of the data of every node of the subtree writes a non-empty single line and does not fail by itself, then DebugPrint appends to the formatter printed(subtree in document order), that is the text of the node itself and for each further node a line break, marks(lasts(node)) and its text, or the formatter has failed. marks has one four-character mark per level below the printed node; mark number i tells whether the ancestor on that level (the last one: the node itself) is the last of its siblings (lemmas thm_marks, thm_lasts, thm_last_at). For any other texts the printing code is proved free of panics and of endless loops.'),
    'C17': dict(
        fns=BASE + EV + walks(['DepthFirstTraverse', 'ShallowDepthFirstTraverse', 'BreadthFirstTraverse', 'AllocatingBreadthFirstTraverse', 'Ancestors', 'Siblings'],
                              ['depth_first_traverse', 'shallow_depth_first_traverse', 'breadth_first_traverse', 'allocating_breadth_first_traverse', 'ancestors_or_self', 'children', 'following_siblings_or_self', 'preceding_siblings_or_self']) + ['nonmax::NonMaxUsize::*', 'nonmax::NonMaxUsize@Default::default'],
        modules=WMODS + ['nonmax'], lemmas=BFT, more=[ITER, NONMAX],
        claim='In every state with to_come(q), peek and peek_back (which take &self) return the first and last element of q, which is what next and next_back yield; size_hint of the allocating breadth-first traversal is (lower, upper) with lower <= |q| <= upper; max_depth is the limit given, or None for usize::MAX. Iterators without size_hint of their own have the default (0, None).'),
}
for p in PROPS.values():
    p.setdefault('level', 'proof')
    p.setdefault('lemmas', CORE)
    p.setdefault('assumptions', [IDS, OOM, DEPTH] + p.pop('more', []))

EXTERNAL = {}

NOT_APPLICABLE = {}
