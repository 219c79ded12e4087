import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
IN="src/node/internal.rs";ED="src/node/edit.rs";PL="src/node/plain.rs";HO="src/node/hot.rs";FR="src/node/frozen.rs"
HI="src/tree/hierarchy.rs"
p("C01","Every history of edits leaves well-formed trees",
"After any sequence of public operations, successful, failing or panicking, every set of live nodes forms ordered trees: parent, first/last child and next/previous sibling agree with each other in both directions, child counts equal the number of children, and there are no cycles and no node with two positions. Each tree has exactly one root, which every node of the tree reports.",
["histories","inputs"],"every finite history of public operations on any number of trees, and every call in it",
"The tests build a handful of fixed trees and compare them with the expected serialization; the link fields that the comparison does not walk, and the other shapes and histories, are not observed.",
[ED,IN],[("create_as_*, detach, interrupting_*, replace_with_children, detach_and_move_to","src/node/edit.rs"),("NodeCoreLink link setters; cyclic previous-sibling link","src/node/internal.rs")],
[("parent, first_child, next_sibling, prev_sibling_cyclic, num_children","the links of a node","NeighborLinks/NodeCore in src/node/internal.rs")],["parent(), children(), siblings_reverse(), num_children(), debug_validate"])
p("C02","Creating a node adds exactly one node at the requested place",
"Creating a tree, a first/last child or an adjacent sibling yields a new node that carries the given data, has no children and stands exactly at the requested place; every other node keeps its data, its children and its relative order. Creation beside a root is refused and changes nothing.",
["inputs","histories"],"every tree shape, every anchor node in it, every creating operation (method, InsertAs form and handle type)",
"Tests create nodes in a few fixed shapes; whether nothing else moved is compared only for those.",
[ED,PL,HO],[("create_as_first_child, create_as_last_child, create_as_prev_sibling, create_as_next_sibling, create_node_as, new_tree","src/node/edit.rs, src/node/plain.rs, src/node/hot.rs")],
[("InsertAs","place of the new node","src/anchor.rs")],["create_* on Node and HotNode"])
p("C03","Interrupting creation puts the new node between parent and children",
"Creating an interrupting parent puts the new node at the node's former place (also when the node was the root) with the node as its only child; creating an interrupting child gives the node the new node as only child, which takes over all former children in order. Everything else stays as it was.",
["inputs","histories"],"every tree shape and every node in it",
"Tests cover a few positions in one or two shapes; first, middle, last and only children and roots with any number of children need a quantifier over shapes.",
[ED],[("create_as_interrupting_parent, create_as_interrupting_child","src/node/edit.rs")],(),["create_as_interrupting_parent/child on Node and HotNode"])
p("C04","Detaching and moving a subtree moves exactly that subtree, intact",
"Detaching makes the subtree a tree of its own, and moving puts it exactly at the requested place in the same or another tree; inside the subtree nothing changes, and outside it only the gap closes. Moves of a whole tree into another tree included, no node is lost.",
["inputs","histories"],"every pair of trees, every subtree, every destination, every set of handles that the user still holds",
"Tests move one or two subtrees between fixed places; first/last/only child gaps, adjacent source and destination, same-tree and whole-tree moves combine into many cases.",
[ED],[("detach_subtree, detach_and_move_to (insertion)","src/node/edit.rs")],(),["detach_subtree, detach_insert_subtree, try_detach_insert_subtree"])
p("C05","Replacing a node with its children splices them into its place",
"When a node is replaced with its children, the children take its place among its siblings in their order and the node becomes a single-node tree of its own; a root with exactly one child hands its tree to that child. Nothing else changes.",
["inputs","histories"],"every tree shape and every node in it, with any number of children and siblings",
"Tests try a few shapes; the combinations of (first, middle, last, only, root) with (no, one, many) children are infinite in the number of siblings and children.",
[ED],[("try_replace_with_children","src/node/edit.rs")],(),["replace_with_children, try_replace_with_children"])
p("C06","A refused edit reports the documented error and changes nothing",
"An edit that returns an error, or panics for one of the documented reasons, leaves all links, data, memberships and locks as they were. The error is exactly the documented one: no sibling beside a root, no move of a subtree into itself, no replacing of a root by none or several children.",
["inputs","histories"],"every edit with every argument, including destinations inside the moved subtree, roots, and the node itself",
"Tests check that a few refused edits return an error; that nothing has been changed by then is not compared, and panicking variants abort the test.",
[ED,PL,HO],[("try_* edits and their checks before the first write","src/node/edit.rs"),("HierarchyError","src/node.rs")],(),["try_* methods, panics of the other variants"])
p("C07","Navigation returns exactly the neighbour that the structure defines",
"root, parent, first/last child, next/previous sibling and first/last sibling return exactly the node standing there, or nothing when there is none, and the handle returned has the same kind as the one asked. Asking changes nothing in the tree.",
["inputs","histories"],"every node of every tree, for Node, HotNode and FrozenNode",
"Tests ask a few nodes of fixed trees.",
[IN,PL,HO,FR],[("neighbour accessors","src/node/internal.rs and the handle types")],(),["parent(), root(), *_child(), *_sibling() and the pair forms"])
p("C08","Counts and predicates agree with the structure",
"Counting children, preceding and following siblings and ancestors, and the predicates about being root and about having children, one child, several children or siblings, give the values that the structure defines.",
["inputs","histories"],"every node of every tree, for Node, HotNode and FrozenNode",
"Tests evaluate them at a few nodes; the cached child count can go out of step after any edit.",
[IN,PL,HO,FR],[("num_children upkeep in edits; counting loops","src/node/edit.rs, src/node/internal.rs")],[("num_children","cached number of children","NodeCore in src/node/internal.rs")],["num_children, count_*, has_*, is_root"])
p("C09","Depth-first traversal visits the subtree in document order",
"Depth-first traversal from a node yields, for each node of its subtree, an open and a close event in exactly the nesting order of the tree, forward and in reverse, with correct depths where reported, and then ends; it never leaves the subtree. Stepping single traversal events forward, backward or to the close event of the current node follows the same order.",
["inputs","histories"],"every subtree of every tree, every starting event",
"Tests walk a few fixed trees.",
["src/traverse/depth_first.rs"],[("DepthFirstTraverser, ReverseDepthFirstTraverser, DftEvent::next/prev/close_current, ShallowDepthFirst*, AllocatingBreadthFirst*","src/traverse/depth_first.rs")],(),["depth_first_traverse, depth_first_reverse_traverse, shallow_depth_first_traverse, DftEvent"])
p("C10","Double-ended traversals yield each item exactly once",
"A double-ended traversal consumed from both ends in any interleaving yields each of its items exactly once, the front items in order and the back items in reverse order, and after both ends have met it ends and stays ended.",
["inputs","schedules"],"every subtree and every interleaving of front and back steps",
"Tests consume a few trees from one end or in one or two interleavings.",
["src/traverse/depth_first.rs","src/traverse/siblings.rs","src/traverse/ancestors.rs"],[("Stable* traversers","src/traverse")],(),["Stable*Traverser next/next_back"])
p("C11","Breadth-first traversal visits the subtree level by level",
"Breadth-first traversal, in both implementations, yields each node of the subtree exactly once, by increasing depth and in document order within a depth, with the right depth, and then ends.",
["inputs","histories"],"every subtree of every tree",
"Tests walk a few fixed trees.",
["src/traverse/breadth_first.rs"],[("AllocatingBreadthFirstTraverser, NonAllocatingBreadthFirstTraverser","src/traverse/breadth_first.rs")],(),["*_breadth_first_traverse"])
p("C12","Sibling, child and ancestor iterators yield exactly those nodes in order",
"The iterators over siblings, following and preceding siblings, children and ancestors (in their forward, reverse and or-self forms) yield exactly the nodes named, each once, in the documented order, and then end; peeking does not advance.",
["inputs","histories"],"every node of every tree, for each handle type",
"Tests walk a few fixed nodes.",
["src/traverse/siblings.rs","src/traverse/ancestors.rs"],[("SiblingsTraverser, ReverseSiblingsTraverser, AncestorsTraverser and the stable forms","src/traverse")],(),["children, siblings, following_siblings_or_self, ancestors, ... "])
p("C13","Traversal size hints are sound bounds",
"At every point of every iteration, the lower bound of size_hint is at most, and the upper bound (if any) at least, the number of items still to come; exact-size claims equal it.",
["inputs","histories"],"every iterator state reachable on any tree",
"Tests check no size hint of most iterators, and only initial states.",
["src/traverse/depth_first.rs","src/traverse/siblings.rs","src/traverse/ancestors.rs","src/traverse/breadth_first.rs"],[("size_hint of the iterators","src/traverse")],(),["Iterator::size_hint"])
p("C14","Edit grants and edit prohibitions of a tree exclude each other",
"At no time do a live edit grant and a live edit prohibition for the same tree coexist, free-standing or carried by node handles; a request is refused, without effect, exactly when a lock of the other kind is live, and granted otherwise, also at the limit of the counters.",
["histories"],"every history of acquiring, cloning, dropping and converting tokens and node handles, and of moves between trees",
"Tests try short sequences of two or three tokens.",
["src/tree/lock.rs","src/tree.rs","src/node/membership.rs"],[("HierarchyLockManager counters","src/tree/lock.rs")],[("num_grants","positive: grants; negative: prohibitions","src/tree/lock.rs")],["grant/prohibit methods of Tree and nodes"])
p("C15","Lock and reference accounting is exact for every handle",
"Every handle and token accounts for exactly one lock (if it carries one) and one reference: cloning, converting, bundling, extracting, moving its node to another tree and dropping it change the accounts by exactly that, so that a tree is locked if and only if a live handle or token locks it.",
["histories"],"every history of creating, converting, cloning and dropping handles and tokens, with moves between trees",
"A leaked or doubly released lock shows only in a later refusal, after histories that the tests do not run.",
["src/node/membership.rs","src/tree/lock.rs",PL,HO,FR],[("Membership aggregators and Drop/Clone impls","src/node/membership.rs")],[("tree_refcount, lock_aggregator","handles and locks counted per node","src/node/membership.rs")],["Clone/Drop of Node, HotNode, FrozenNode, tokens"])
p("C16","An edit needs a grant for the very tree it modifies",
"An edit through a plain node with a grant for another tree (or with a destination node whose tree the grant does not cover) panics before anything is modified; with a grant for the right tree it never panics for that reason.",
["inputs","histories"],"every edit method and every pair of trees, also after nodes were moved between trees",
"Tests pass the right grant.",
[PL,"src/tree/lock.rs",ED],[("panic_if_invalid_for_node / is_valid_for_node checks","src/tree/lock.rs")],(),["edits on Node taking HierarchyEditGrant"])
p("C17","Handles keep their tree alive; the last one releases it",
"While any strong handle to a tree or one of its nodes lives, all its nodes and their data stay usable and weak references to them can be upgraded; when the last one is gone, every node's data is dropped exactly once and weak references no longer upgrade.",
["histories"],"every history of handle creation and dropping in any order, including moves between trees",
"Tests drop handles in one or two orders and mostly do not observe the drop of the data.",
["src/node/membership.rs","src/tree.rs",IN],[("strong/weak membership; TreeCore::drop","src/node/membership.rs, src/tree.rs")],[("Membership::{Weak,Strong}","whether the node keeps its tree","src/node/membership.rs")],["downgrade/upgrade, Drop of user data"])
p("C18","Dropping a tree of any size and shape frees all of it without recursion",
"When a tree is released, all of its nodes are freed exactly once, with stack use independent of the depth and width of the tree.",
["inputs"],"trees of every size, depth and width, released through any handle",
"Tests drop small trees, for which a recursive or leaking teardown goes unnoticed.",
["src/tree.rs",IN],[("TreeCore::drop","src/tree.rs")],(),["drop of the last handle"])
p("C19","Every node reports the tree it belongs to",
"tree, root, belongs_to and belongs_to_same_tree agree with the structure: two nodes belong to the same tree exactly when they have the same root, and after every edit all nodes of a moved subtree, and no others, report the new tree.",
["histories","inputs"],"every history of edits, every node of every tree",
"Tests look at the membership of one or two nodes after a move.",
["src/node/membership.rs",ED,"src/tree.rs"],[("set_memberships_of_descendants_and_self","src/node/edit.rs")],[("tree_core","the tree of a node","src/node/membership.rs"),("root","the root of a tree","src/tree.rs")],["tree(), root(), belongs_to(), belongs_to_same_tree()"])
p("C20","Serialization and tree building are inverse",
"The events of a subtree describe it exactly, and building a tree from a sequence of events makes exactly the tree that they describe: nodes in order with their data, below the given root node if there is one. Ill-formed sequences are refused with the documented error at the first event that breaks the form.",
["inputs"],"every subtree, and every finite event sequence",
"Tests use a few literals.",
["src/serial.rs"],[("TreeSerializeIter, TreeBuilder","src/serial.rs")],(),["to_events, TreeBuilder, FromIterator/Extend forms"])
p("C21","Cloning a subtree yields an equal, independent copy",
"Cloning a subtree makes a new tree (or inserts a new subtree at the requested place) whose nodes have clones of the data in the same shape, and leaves the original untouched; a borrowed datum makes it fail without any effect.",
["inputs","histories"],"every subtree of every tree, every destination, every set of borrowed data",
"Tests clone one or two shapes; copies into the source itself and failures half-way are not tried.",
[ED,PL,HO,FR],[("clone_subtree / clone_insert_subtree and try_ forms","src/node/edit.rs")],(),["clone_subtree, try_clone_subtree, clone_insert_subtree, try_clone_insert_subtree"])
p("C22","Subtree and tree equality is exactly shape and data equality",
"Two subtrees (or trees) compare equal exactly when they have the same shape and pairwise equal data, whatever stands around them; comparing changes nothing, and data of a pair of nodes that cannot be read because it is exclusively borrowed is reported (an error from try_eq, a panic from ==) instead of answered, unless an earlier difference has already decided the answer.",
["inputs"],"every pair of subtrees, including a tree with itself and with parts of itself",
"Tests compare a few pairs.",
[IN,PL,"src/tree.rs"],[("NodeCoreLink::try_eq, PartialEq impls","src/node/internal.rs")],(),["try_eq, PartialEq of the handles and Tree"])
p("C23","Data borrows are checked, and structure edits never touch data",
"Borrowing the data of a node follows the shared-or-exclusive rule per node and always refers to that node's data; no structural operation reads, changes or is blocked by the data of any node.",
["histories","inputs"],"every node, every set of outstanding borrows, every structural operation",
"Tests borrow from one node at a time, and never during an edit.",
[IN,PL,HO,FR],[("borrow_data, try_borrow_data, borrow_data_mut, try_borrow_data_mut","src/node/internal.rs")],(),["borrow_data family; edits during borrows"])
p("C24","Handle identity and conversions preserve the node",
"ptr_eq holds exactly between handles to the same node, whatever their kind; converting, cloning, bundling, downgrading and upgrading give a handle to the same node.",
["histories","inputs"],"every pair of handles and every chain of conversions",
"Tests compare a few handles.",
[PL,HO,FR],[("ptr_eq, plain, bundle_*, extract_*, downgrade, upgrade","src/node")],(),["ptr_eq, From, bundle_*, downgrade, upgrade"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
