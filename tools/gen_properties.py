import json
H="src/dynamic/hierarchy.rs"; HT="src/dynamic/hierarchy/traverse.rs"; F="src/dynamic/forest.rs"; N="src/dynamic/forest/node.rs"; FT="src/dynamic/forest/traverse.rs"
A="src/dynamic/anchor.rs"; I="src/dynamic/id.rs"; X="src/nonmax.rs"; CB="src/dynamic/forest/chain_builder.rs"; NB="src/dynamic/forest/nest_builder.rs"; DP="src/dynamic/forest/debug_print.rs"
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
LINKS=[dict(name="neighbour links",meaning="parent, cyclic previous sibling, next sibling, first child of every slot; a slot without previous-sibling link is removed",where=H+" struct Neighbors")]
p("C01","The forest stays structurally consistent",
 "After any sequence of public operations with live node IDs, the live nodes form a set of finite ordered trees: parent, child and sibling relations seen from any node agree with those seen from its relatives in both directions, no node is its own ancestor, and every live node is in exactly one place. Operations that are valid according to the documentation never stop with an internal-consistency panic.",
 ["histories","inputs"],"every reachable forest and every sequence of create/insert/adopt/detach/remove/clone/builder calls",
 "The tests check a handful of fixed seven-to-ten node trees with single moves; link corruption needs particular combinations of position and anchor, and shows up only when traversed in the other direction or at a later operation.",
 [H,F,N],[("links of adjacent nodes are rewritten together",H+" Hierarchy::connect_triangle"),("range move",H+" SiblingsRange::transplant"),("cycle test before a move",H+" SiblingsRange::transplant_would_make_cyclic_links")],["Node accessors and iterators of every live node after every operation"],LINKS)
p("C02","Insertion puts the subtree exactly where requested",
 "When a live node is successfully inserted or adopted as first child, last child, previous sibling or next sibling of a live anchor, it ends up at exactly that position together with its whole unchanged subtree, wherever it was before, including when it already was at or next to that position. Every other parent keeps its children in the same relative order.",
 ["inputs","histories"],"every forest, every live node, every anchor and all four kinds of destination",
 "The tests move nodes in a few fixed trees; the outcome depends on the relation between old and new position (same parent, adjacent, only child, first or last), which they sample at few points.",
 [H,F,N,A],[("insert dispatch",H+" Hierarchy::insert"),("range move",H+" SiblingsRange::transplant"),("anchor conversion",A+" AdoptAs::insert_with_anchor, InsertAs::map")],["Forest::insert, NodeMut::adopt, NodeMut::try_adopt"],LINKS)
p("C03","Impossible insertions are refused and change nothing",
 "Inserting a live node under itself or under one of its descendants is refused with the ancestor-descendant-loop error, making it a sibling of itself with the unorderable-siblings error, and making it a sibling of a node that has no parent with the siblings-without-parent error; insertion next to a descendant is refused too. A refused insertion leaves the whole forest exactly as it was, and every other insertion of live nodes succeeds.",
 ["inputs","histories"],"every forest, every pair of live nodes and all four kinds of destination",
 "tests/cyclic.rs tries eight combinations in one tree; a missed ancestor chain or a change made before the refusal needs other depths and shapes.",
 [H,F,N],[("cycle test before a move",H+" SiblingsRange::transplant_would_make_cyclic_links"),("sibling tests",H+" Hierarchy::insert_before, Hierarchy::insert_after")],["Forest::insert, NodeMut::try_adopt results and the forest afterwards"],LINKS)
p("C04","Detaching a subtree only separates it",
 "Detaching a live node makes it a root that keeps its whole subtree unchanged, and removes it from the children of its former parent whose other children keep their order. Nothing else in the forest changes, and detaching a node that is already a root changes nothing.",
 ["inputs","histories"],"every forest and every live node",
 "The tests detach one middle child of one tree; first, last and only children use other link updates.",
 [H,F,N],[("detach",H+" Hierarchy::detach"),("links of adjacent nodes",H+" Hierarchy::connect_triangle")],["Forest::detach, NodeMut::detach"],LINKS)
p("C05","Detaching a single node splices its children in its place",
 "Detaching a single live node leaves it alone as a childless root, and its children take its place among its former siblings in their original order. A root with exactly one child leaves that child as a new root, and a root with several children is refused with the siblings-without-parent error without any change; nothing else in the forest changes.",
 ["inputs","histories"],"every forest and every live node",
 "The tests detach one middle node with three children; the number of children, the position among siblings and the missing parent all use other code paths.",
 [H,F,N],[("detach_single",H+" Hierarchy::detach_single"),("range move",H+" SiblingsRange::new, SiblingsRange::transplant")],["Forest::detach_single, NodeMut::detach_single"],LINKS)
p("C06","Removal deletes exactly the subtree, children before parents",
 "Every removal operation on a live node removes that node and all of its descendants and no other node, and the rest of the forest is as if the node had only been detached. Each removed datum is handed to the hook (or dropped) exactly once, in depth-first closing order: children in sibling order, each before its parent.",
 ["inputs","histories"],"every forest, every live node and every removal operation",
 "The tests remove one subtree of a fixed tree; nothing checks the links around it or the removal state of every descendant in other shapes.",
 [F,H,HT,N],[("hooked removal",F+" Forest::remove_hooked, Forest::remove_hooked_panic_safe"),("traversal that reads ahead of the removal",HT+" SafeModeDepthFirstTraverser::next")],["order of hook calls; Forest::node and Forest::data of every ID afterwards"],LINKS)
p("C07","Removed IDs stay dead and data stays with its ID",
 "A removed node's ID never refers to a node again in that forest: lookups by it find nothing for ever, no later creation returns it, and using it as an argument never changes or exposes any live node. Each live ID keeps referring to the same datum it was created with, through all moves, detachments, removals and clones of other nodes; mutable access through one ID changes that datum only.",
 ["histories","inputs"],"every sequence of creations, moves, removals and lookups",
 "The tests look up a few removed nodes once, right after the removal; reuse or aliasing needs a longer history.",
 [F,H,N],[("liveness test",H+" Hierarchy::is_alive, Hierarchy::neighbors; "+F+" Forest::is_alive, Forest::data"),("append-only slots",H+" Hierarchy::create_root")],["Forest::node, Forest::node_mut, Forest::data, Forest::data_mut"],
 LINKS+[dict(name="data",meaning="one slot per created node, emptied when the node is removed",where=F+" struct Forest")])
p("C08","Depth-first traversal yields the document order from both ends",
 "A depth-first traversal of a live node yields an open event for the node, then the traversals of its children in sibling order, then a close event for the node, and then ends for ever. For every interleaving of forward and backward steps, the forward results are a prefix and the backward results a reversed suffix of that sequence, together covering each event exactly once.",
 ["inputs","schedules"],"every tree and every interleaving of forward and backward steps",
 "The tests run a few fixed trees purely forward or backward; the meeting point of both directions depends on the tree and the interleaving.",
 [HT,FT,N,F],[("successor and predecessor events",HT+" DepthFirstTraverser::next_of_next_forward, next_of_next_backward")],["DepthFirstTraverse as an iterator"],[dict(name="next",meaning="events at both ends of the remaining range",where=HT+" struct DepthFirstTraverser")])
p("C09","Depth-limited traversal equals the traversal cut at that depth",
 "A depth-limited depth-first traversal yields exactly the open and close events of the full traversal whose nodes are at most the given depth below the start node, each with that node's depth, and all of them when no limit is given or the limit exceeds the tree's height. This holds for every interleaving of forward and backward steps.",
 ["inputs","schedules"],"every tree, every depth limit including none and the maximum integer, every interleaving of forward and backward steps",
 "The tests use two limits on one tree in one direction.",
 [HT,FT,N,F],[("successor and predecessor events with depth",HT+" ShallowDepthFirstTraverser::next_of_next_forward, next_of_next_backward"),("limit storage",X+" NonMaxUsize")],["ShallowDepthFirstTraverse as an iterator"])
p("C10","Both breadth-first traversals yield level order",
 "Both breadth-first traversals of a live node yield every node of its subtree exactly once with its depth: by increasing depth, and within one depth in document order. They then end and stay ended, and the allocating and the non-allocating variant yield the same sequence.",
 ["inputs"],"every tree",
 "The tests compare both on one small tree; empty levels, long levels and uneven depths need other shapes.",
 [HT,FT,N,F],[("level by level traversal",HT+" BreadthFirstTraverser::next"),("queue of nodes and depth increments",HT+" AllocatingBreadthFirstTraverser::next")],["BreadthFirstTraverse and AllocatingBreadthFirstTraverse as iterators"])
p("C11","Ancestor, child and sibling iterators list exactly those nodes",
 "The ancestor iterators yield the chain of parents from the node (or its parent) up to its root; the children iterator yields the children in order; the following- and preceding-sibling iterators yield the siblings after and before the node, with or without the node itself, in sibling order. The double-ended ones yield each node once for every interleaving of forward and backward steps, and all end and stay ended.",
 ["inputs","schedules"],"every forest, every live node (roots included) and every interleaving of forward and backward steps",
 "The tests use one node of one tree; roots, first, last and only children take other paths.",
 [HT,FT,N,F],[("ancestor walk",HT+" AncestorsTraverser::next"),("sibling range walk",HT+" SiblingsTraverser"),("skipping the start node",N+" first_skipped, last_skipped")],["Ancestors and Siblings as iterators"])
p("C12","Cloning copies exactly one subtree",
 "Cloning a subtree, within one forest or from another, creates a new tree whose nodes all have fresh IDs, with the same shape, child order and cloned data as the source subtree, and whose top is a root; the reported ID mapping pairs each source node with its own copy exactly once. The source and every pre-existing node are unchanged.",
 ["inputs","histories"],"every source subtree in every pair of forests",
 "The tests clone one tree; sibling order at depth, source nodes with following siblings, and single nodes take other paths.",
 [F,HT],[("copy loop",F+" Forest::clone_local_tree_with_id_mapping, Forest::clone_foreign_tree_with_id_mapping (clone_next_node)")],["Forest::clone_local_tree*, Forest::clone_foreign_tree* and the hook calls"])
p("C13","Creation adds exactly one fresh node at the requested place",
 "Creating a node returns an ID that no earlier node of that forest ever had, and adds exactly that one node with the given datum: as a childless root, or childless at exactly the requested position next to a live anchor. Every other node keeps its datum, parent and relative order.",
 ["inputs","histories"],"every forest, including ones with removed nodes, and every live anchor and destination",
 "The tests create nodes in a few fixed orders; the effect on neighbours depends on the anchor's position and on earlier removals.",
 [F,H,N],[("root creation",H+" Hierarchy::create_root"),("creation with insertion",F+" create_insert_momo")],["Forest::create_root, Forest::create_insert, NodeMut::create"])
p("C14","Every node ID type holds its documented range without loss",
 "For each node ID width, every index up to the documented maximum (the integer's maximum minus one) converts to an ID and back to the same index, larger indices are rejected instead of wrapping, and distinct indices give distinct IDs, for equality, ordering and hashing alike. A forest panics instead of reusing an ID when the range is exhausted.",
 ["inputs","configurations"],"every machine-word index and every ID width",
 "The tests check type sizes only; no test creates a node near the limit of any width.",
 [X,I,H],[("inverted non-zero storage",X+" define_type"),("ID conversions",I+" define_internal_id_type"),("overflow test",H+" Hierarchy::create_root")],["node IDs returned by creations; lookups by them"])
p("C15","Tree builders build the tree that their calls describe",
 "With the chain builder, child adds a last child of the current node and sibling adds the next sibling of the current node, each becoming current, and parent moves to the parent of the current node or reports that there is none. With the nesting builder, add_child and create_tree append children in call order under the node of the enclosing closure, at any nesting depth, and control returns to the enclosing node afterwards; neither builder changes other trees.",
 ["programs","inputs"],"every sequence and nesting of builder calls",
 "The tests use two fixed call sequences.",
 [CB,NB],[("chain builder",CB+" ChainTreeBuilder"),("nest builder",NB+" NestTreeBuilder::add_child, create_tree")],["the forest after the builder calls; current_id and root_id"])
p("C16","Panic-safe removal leaves a consistent forest when the hook panics",
 "When the hook given to the panic-safe removal panics at any call, the forest is structurally consistent and usable: exactly the nodes whose data had been handed out by then (including the panicking call's) are removed, and every other node is alive with its datum, its remaining children and its order unchanged. The subtree being removed has been detached from its former parent.",
 ["crash_points","inputs"],"every subtree and every hook call at which the panic can happen",
 "The only test of this operation uses a hook that does not panic.",
 [F,N],[("leaf by leaf removal",F+" Forest::remove_hooked_panic_safe")],["the forest after catching the panic"],LINKS)
p("C17","Peeking and size hints agree with what iteration yields",
 "On every traversal iterator that offers them, peeking at either end returns exactly what the next step from that end would return, without changing the iterator, in every state reached by any interleaving of steps. Size hints never claim more items than remain and their upper bound, if any, is never below the number that remain; the reported depth limit is the one given, except that the maximum integer is reported as no limit.",
 ["inputs","schedules"],"every traversal iterator in every state",
 "The tests peek at a few states of one tree; the queue states of the breadth-first traversal in particular depend on the tree shape.",
 [HT,FT],[("peek",HT+" peek and peek_back of all traversers"),("size hint",HT+" AllocatingBreadthFirstTraverser::size_hint")],["peek, peek_back, size_hint, max_depth of the iterators"])
p("C18","Node handles answer navigation queries truthfully",
 "For every live node, its handle reports its own ID and datum and the true parent, previous and next sibling, first and last child (or their absence), whether as IDs or as handles, and the shared and the mutable handle agree. A handle is available exactly for live nodes.",
 ["inputs","histories"],"every forest and every live node",
 "The tests query some accessors on one tree; presence and absence of each relative combine in many ways.",
 [N,F,H],[("accessors",N+" Node, NodeMut"),("cyclic previous link",H+" Neighbors::prev_sibling, Neighbors::first_last_child")],["Node and NodeMut accessors"],LINKS)
p("C19","Tree printing shows every node once, in order, at its nesting",
 "Printing a subtree whose node texts are non-empty single lines yields one line per node in document order, starting with the node itself without any prefix. Each descendant's text is preceded by one four-character mark per level below the printed node that tells, for each of its ancestors and itself, whether further siblings follow.",
 ["inputs"],"every tree and every non-empty single-line node text",
 "The documentation examples print a few trees.",
 [DP],[("indent writer",DP+" IndentWriter"),("traversal of the nodes to print",DP+" prepare_next_node_printing")],["Display and Debug output of DebugPrint"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
