import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
LINKS=[("sibling and parent links","first child, cyclic previous sibling, next sibling, parent and child count of every node","src/node/internal.rs")]
TESTS="The tests and doc examples build a handful of fixed trees and look at a few nodes afterwards; "
prop("C01","A created node goes exactly where it was asked to, and nothing else moves",
 "Creating a node as first or last child, or as previous or next sibling, of any node yields a node with the given data at exactly that place; every other node keeps its parent, its order among its siblings and its data. It succeeds unless a sibling is requested for a root, which is refused with the documented error (a panic from the forms that cannot return an error) and changes nothing.",
 ["inputs"],"every ordered tree shape, every anchor node, every of the four places, every data value, every entry point (node with grant, node that carries a grant, fallible or panicking), any subset of handles kept",
 TESTS+"the claim ranges over all shapes, anchors and places, and over every neighbour whose links must stay right.",
 ["src/node/edit.rs","src/node/hot.rs","src/node/plain.rs"],[("insertion between neighbours","src/node/edit.rs OrphanRoot::insert_*"),("creation entry points","src/node/edit.rs create_as_*, try_create_*")],LINKS)
prop("C02","Interrupting creation adopts exactly the intended nodes",
 "Creating an interrupting parent puts the new node in the place of the given node (or makes it the root of the tree) with the given node as its only child; creating an interrupting child makes the new node the only child of the given node and gives it all former children in order. Every other relation and all data stay as they were.",
 ["inputs"],"every ordered tree shape, every node, every data value, both operations",TESTS+"first, middle, last and only children, and the root, all take different code paths.",
 ["src/node/edit.rs","src/node/hot.rs","src/node/plain.rs"],[("interrupting creation","src/node/edit.rs create_as_interrupting_parent, create_as_interrupting_child")],LINKS)
prop("C03","Replacing a node with its children keeps all other structure and order",
 "Replacing a node with its children splices the children, in order, into its place among its siblings, and leaves the node alone as the only node of a new tree; a root with exactly one child hands its tree to that child. A root without children, or with several, is refused with the documented error (or panic) and nothing changes.",
 ["inputs"],"every ordered tree shape and every node, including roots, leaves, first, middle, last and only children",TESTS+"the splice has a branch per number of children and per position, and two of them were wrong before this work.",
 ["src/node/edit.rs","src/node/hot.rs","src/node/plain.rs"],[("splice of the children","src/node/edit.rs try_replace_with_children")],LINKS)
prop("C04","Detaching a subtree splits one tree into two consistent trees",
 "After detaching a node, it is the root of a tree that holds exactly its former subtree with unchanged inner structure, and the rest of the former tree is unchanged except that the node is gone from its parent's children. Detaching a root changes nothing.",
 ["inputs"],"every ordered tree shape and every node; any subset of handles and tree handles kept",TESTS+"the claim is about every other node of both trees.",
 ["src/node/edit.rs"],[("unlinking","src/node/edit.rs OrphanRoot::new_by_unlink, detach_subtree"),("membership update","src/node/edit.rs OrphanRoot::create_new_tree")],LINKS)
prop("C05","Moving a subtree within its tree only changes where the subtree hangs",
 "Moving a subtree to any place of the same tree makes its root the requested child or sibling of the destination; the order of all other nodes, the inside of the subtree and all data are unchanged, also when the place is next to where the subtree was. Moving a node below itself is refused as a loop and changes nothing.",
 ["inputs"],"every ordered tree shape, every moved node, every destination node, every of the four places",TESTS+"pairs of node and destination (adjacent siblings, own parent, own position) are what breaks link surgery, and there are hundreds of them even in small trees.",
 ["src/node/edit.rs","src/anchor.rs"],[("move","src/node/edit.rs detach_and_move_inside_same_tree"),("loop check","src/node/edit.rs OrphanRoot::is_ancestor_of")],LINKS)
prop("C06","Moving a subtree between trees transfers exactly that subtree",
 "Moving a subtree into another tree gives exactly its nodes to the destination tree, at the requested place, and leaves both trees otherwise unchanged. Moving the root of a tree away (which would leave a tree without nodes) and destinations that cannot exist are refused with an error and change nothing.",
 ["inputs"],"every pair of ordered trees, every node of the one, every place in the other",TESTS+"membership and links of two trees have to change together, for every shape of the moved subtree.",
 ["src/node/edit.rs","src/node/membership.rs"],[("move between trees","src/node/edit.rs detach_and_move_to_another_tree"),("membership update","src/node/edit.rs OrphanRoot::set_tree_core")],LINKS)
prop("C07","A refused edit changes nothing observable",
 "When an edit is refused with an error, every link, every membership, all data and both kinds of locks are exactly as before, and the trees go on accepting valid edits. An edit that has to be refused never reports success.",
 ["inputs","fault_sequences"],"every pair of ordered trees and every edit with operands that make it invalid",TESTS+"no test looks at the trees after an error, and two refused moves used to leave a damaged tree.",
 ["src/node/edit.rs","src/node/plain.rs","src/node/hot.rs"],[("validation before surgery","src/node/edit.rs detach_and_move_*, try_create_*, try_replace_with_children, try_clone_insert_subtree")],LINKS)
prop("C08","A cloned subtree is an equal, independent copy at the requested place",
 "Cloning a subtree or a tree yields new nodes with the same structure and equal data, as a tree of its own or at the requested place (also inside the cloned subtree itself), and leaves the source unchanged. If some data cannot be read because it is mutably borrowed, the fallible forms return an error, the others panic, and no tree is changed.",
 ["inputs","fault_sequences"],"every ordered tree, every source node, every destination and place in the same or another tree, every set of outstanding data borrows",TESTS+"the destination may lie in the source, and any single borrowed node makes the clone fail half way.",
 ["src/node/edit.rs","src/serial.rs","src/tree.rs"],[("clone through events","src/node/edit.rs clone_subtree, try_clone_insert_subtree"),("tree clone","src/tree.rs try_clone_tree")],LINKS)
prop("C09","Links and derived views agree after every history of edits",
 "After any sequence of successful and refused edits on any forest, parent, child and sibling links are mutually consistent and equal to those of an ordered forest to which the same edits were applied. Every derived view (root, sibling and child queries, counts, predicates) of every kind of node handle agrees with these links.",
 ["histories","inputs"],"every starting tree, every sequence of edits with every choice of operands (creation, detachment, move, replacement, interruption, cloning), mixed between trees that the history itself creates",TESTS+"the claim quantifies over histories; a test replays one.",
 ["src/node/edit.rs","src/node/internal.rs","src/node/plain.rs","src/node/frozen.rs","src/node/hot.rs"],[("link surgery","src/node/edit.rs"),("derived views","src/node/internal.rs, src/node/plain.rs, src/node/frozen.rs, src/node/hot.rs")],LINKS)
prop("C10","Every node belongs to exactly the tree of its root, through every edit",
 "At every moment, the tree of a node is the tree whose root is reached by following parents, two nodes belong to the same tree exactly when they have the same root, and a tree handle names the current root of its tree. This holds for all nodes, whether their handles were kept across the edits or acquired afterwards.",
 ["histories","inputs"],"every pair of starting trees, every history of edits, any subset of handles held while editing",TESTS+"memberships are stored per node and are updated lazily, so a mistake shows only for particular held nodes after particular edits.",
 ["src/node/membership.rs","src/node/edit.rs","src/tree.rs"],[("membership","src/node/membership.rs"),("bulk update","src/node/edit.rs OrphanRoot::set_tree_core, create_new_tree")],[("membership of a node","the tree it belongs to and the number of its strong references","src/node/membership.rs MembershipCore")])
prop("C11","A tree lives exactly as long as something refers to it, and is freed once",
 "While a handle of any of its nodes or of the tree exists, the whole tree stays alive and reachable from it; when the last one goes away, every node is dropped exactly once and all memory of the tree is released, regardless of the edits made before. Nothing outlives its last handle.",
 ["histories","inputs"],"every starting forest, every edit, every order in which node and tree handles are kept and released",TESTS+"the tests never count drops, and reference counts are kept by hand along every edit.",
 ["src/node/membership.rs","src/node/internal.rs","src/tree.rs"],[("tree refcounts of nodes","src/node/membership.rs increment_tree_refcount, decrement_tree_refcount"),("iterative drop","src/tree.rs TreeCore::drop")])
prop("C12","Weak references answer correctly at any time, even during destruction",
 "A weak node or tree reference yields its node or tree exactly while something keeps that tree alive, and nothing afterwards, whatever edits happened in between. Destructors of node data that use weak references or handles while their tree is destroyed get a safe answer, and never a panic, a dead node, or an endless loop.",
 ["histories","inputs"],"every tree shape, every edit between creating and using the weak reference, every set of handles kept; every node whose destructor looks at every other node during destruction",TESTS+"no test upgrades a reference during destruction or after an edit that moves the node between trees.",
 ["src/node/plain.rs","src/tree.rs","src/node/membership.rs"],[("upgrade","src/node/plain.rs NodeWeak::upgrade, src/tree.rs TreeWeak::upgrade"),("destruction","src/tree.rs TreeCore::drop, src/node/membership.rs decrement_tree_refcount")])
prop("C13","Edit grants and edit prohibitions exclude each other, with exact counting",
 "At no time do a live edit grant and a live edit prohibition exist for the same tree: a request for one succeeds exactly when no object holding the other is alive, counting every clone, conversion, bundled node and node derived by navigation. Any number of the same kind may coexist, and releasing the last one makes the other kind available at once.",
 ["histories"],"every sequence of acquiring, cloning, bundling, extracting, converting, navigating and releasing lock objects through every entry point, for trees of several nodes",TESTS+"the locks are counted at two levels (tree and node), and only sequences of several operations can unbalance them.",
 ["src/tree/lock.rs","src/node/membership.rs","src/node/hot.rs","src/node/frozen.rs"],[("tree-level count","src/tree/lock.rs HierarchyLockManager"),("node-level count","src/tree/lock.rs LockAggregatorForNode"),("bundling","src/node/hot.rs, src/node/frozen.rs from_node_and_*, Clone, Drop")],[("lock counter","positive: prohibitions, negative: grants","src/tree/lock.rs HierarchyLockManager")])
prop("C14","Locks follow their nodes between trees and never leak or cross over",
 "A node that carries an edit grant keeps locking exactly the tree it currently belongs to, through every edit that moves it into another or a new tree; when all lock objects are released, every tree involved is free for either kind of lock. A grant or prohibition of one tree is never accepted for a node of another tree, and a node whose tree is protected by a prohibition is never edited.",
 ["histories","inputs"],"every pair of trees, every history of edits, every set of nodes that carry grants across them; every combination of lock object and node",TESTS+"the transfer of counts happens on every membership change and depends on which nodes hold locks at that moment.",
 ["src/tree/lock.rs","src/node/membership.rs","src/tree.rs","src/node/plain.rs"],[("transfer","src/tree/lock.rs transfer_single_lock_to, src/node/membership.rs set_tree_core"),("validity check","src/tree/lock.rs panic_if_invalid_for_node")])
prop("C15","Depth-first traversal opens and closes every node once, in document order",
 "Depth-first traversal from any node yields exactly the events of the recursive definition (open, the children in order, close) for its subtree and then ends for good; the reverse traversal yields the mirrored sequence. Starting from any single event inside a traversal continues with exactly the remaining events.",
 ["inputs"],"every ordered tree shape, every starting node, every starting event, both directions, every kind of node handle",TESTS+"the order must hold for all shapes and all starting points, including that it stops at the start node's end.",
 ["src/traverse/depth_first.rs"],[("event stepping","src/traverse/depth_first.rs DftEvent::next, prev"),("traversers","src/traverse/depth_first.rs DepthFirstTraverser, ReverseDepthFirstTraverser")])
prop("C16","Sibling, child and ancestor axes yield exactly the specified nodes in order",
 "Each axis (children, siblings, preceding and following siblings with or without the node itself, forward or reverse, ancestors with or without the node itself) yields exactly the nodes of that axis, in its documented order, and then ends for good.",
 ["inputs"],"every ordered tree shape, every node, every axis, every kind of node handle",TESTS+"roots, only children, first and last children are all boundary cases for each of the axes.",
 ["src/traverse/siblings.rs","src/traverse/ancestors.rs","src/node/plain.rs","src/node/frozen.rs","src/node/hot.rs"],[("traversers","src/traverse/siblings.rs, src/traverse/ancestors.rs"),("entry points","src/node/plain.rs, src/node/frozen.rs, src/node/hot.rs")])
prop("C17","Double-ended stable traversals yield every item once under any interleaving",
 "A stable (double-ended) sibling or depth-first traversal yields every item of its range exactly once, items taken from the front in order and items taken from the back in reverse order, for every interleaving of the two ends, and then ends for good at both ends. Every item can be the start or the end of the range.",
 ["schedules","inputs"],"every ordered tree shape, every start (and range of events), every interleaving of taking from the front and from the back",TESTS+"the tests take from one end only; the ends meeting was wrong before this work.",
 ["src/traverse/siblings.rs","src/traverse/depth_first.rs"],[("meeting of the ends","src/traverse/siblings.rs StableSiblingsTraverser, src/traverse/depth_first.rs StableDepthFirstTraverser")])
prop("C18","Depth-limited traversal visits exactly the nodes within the limit",
 "A depth-limited traversal yields exactly the events of the full depth-first traversal whose node lies within the limit, each with its depth below the start, for every interleaving of both ends, with any limit including none and the largest.",
 ["schedules","inputs"],"every ordered tree shape, every start, every machine-word limit or none, every interleaving of the ends",TESTS+"limits near the depth of the tree and mixed use of the ends are not sampled.",
 ["src/traverse/depth_first.rs"],[("depth bookkeeping","src/traverse/depth_first.rs ShallowDepthFirstTraverser")])
prop("C19","Breadth-first traversals yield every node once, level by level",
 "Both breadth-first traversals (allocating and not) with a start depth yield every node that lies at least that far below the start node exactly once, by increasing depth and in document order within a level, each with its depth below the start node, and then end for good. This holds for every start depth.",
 ["inputs"],"every ordered tree shape, every start node, every machine-word start depth",TESTS+"shapes with gaps between levels and extreme start depths are not sampled.",
 ["src/traverse/breadth_first.rs"],[("queue","src/traverse/breadth_first.rs AllocatingBreadthFirstTraverser"),("re-descent","src/traverse/breadth_first.rs BreadthFirstTraverser")])
prop("C20","Size hints and peeks of every traversal tell the truth",
 "Before every step, the lower bound of a traversal's size hint is at most, and the upper bound (if any) at least, the number of items that are actually left, and a peek shows exactly the item that the next step from that end yields. A traversal that has ended stays ended.",
 ["schedules","inputs"],"every traverser, every ordered tree shape, every start, every moment of every interleaving of the ends",TESTS+"size hints are hardly tested at all, and a wrong lower bound corrupts collecting code silently.",
 ["src/traverse/depth_first.rs","src/traverse/siblings.rs","src/traverse/ancestors.rs","src/traverse/breadth_first.rs"],[("size_hint and peek","src/traverse/*.rs")])
prop("C21","Serializing a tree to events and building from events are inverse",
 "The events of any subtree are exactly its nodes in preorder with exact numbers of closings between them, and building from them gives a tree equal in structure and data; any event sequence derived from traversals is taken the same way. If the data of a node cannot be borrowed, serialization reports an error instead of a wrong sequence.",
 ["inputs"],"every ordered tree shape with every data values, every start node, every ordered set of borrowed nodes",TESTS+"the claim is a round trip over all trees.",
 ["src/serial.rs"],[("serialization","src/serial.rs TreeSerializeIter"),("building","src/serial.rs TreeBuilder, push_events, push_dft_event")])
prop("C22","Equality of nodes and trees is exactly structural equality",
 "Two subtrees (or trees) compare equal exactly when they have the same shape and pairwise equal data, independently of what surrounds them; comparison is reflexive and symmetric, and changes nothing. If data that has to be compared cannot be borrowed, the fallible form reports an error and the operator panics.",
 ["inputs"],"every pair of ordered trees or subtrees with all data values, subtrees of the same or different trees, different data types, every set of borrowed nodes",TESTS+"shapes with equal preorder data but different depth are what a traversal-based comparison confuses.",
 ["src/tree.rs","src/node/plain.rs","src/serial.rs"],[("comparison","src/tree.rs Tree::try_eq, src/node/internal.rs try_eq, src/node/plain.rs Node::try_eq")])
prop("C23","Data borrows are per node and never blocked by structure",
 "Borrowing the data of a node follows the rules of a cell per node: shared borrows coexist, an exclusive borrow excludes all others of that node and of no other node, through every kind of handle. Structural edits and traversals neither need nor disturb the borrows, and data written through one handle is read through all others.",
 ["histories","inputs"],"every ordered tree shape, every pair of nodes and handles, every kind of borrow, every edit made while borrows are outstanding, every data value",TESTS+"the interaction of borrows with edits and across handle kinds is not sampled.",
 ["src/node/plain.rs","src/node/hot.rs","src/node/frozen.rs","src/node/internal.rs"],[("data cell","src/node/internal.rs try_borrow_data, try_borrow_data_mut"),("entry points","src/node/plain.rs, src/node/hot.rs, src/node/frozen.rs")])
prop("C24","Closing the current node skips exactly its remaining descendants",
 "At any point of a depth-first traversal, forward, stable or depth-limited, closing the current node returns that node, skips exactly the rest of its descendants, and lets the traversal go on right after its closing event; when nothing is open it returns nothing and skips nothing. Stepping from any event to the next and back is consistent everywhere.",
 ["inputs","schedules"],"every ordered tree shape, every point of the traversal, every pattern of closing and stepping, every kind of traverser and event",TESTS+"each pattern of skips is a different history of the traverser; the documented skip was missing on events before this work.",
 ["src/traverse/depth_first.rs"],[("close_current","src/traverse/depth_first.rs DftEvent::close_current, DepthFirstTraverser::close_current, StableDepthFirstTraverser::close_current")])
prop("C25","Debug printing shows the real structure and never fails or disturbs",
 "Pretty-printing any subtree shows every node on its own line or lines with indentation that determines the tree uniquely, shows a placeholder for data that is mutably borrowed, and never panics. Printing any node, tree, weak reference, lock or error never panics, whatever is borrowed or already destroyed, and changes nothing.",
 ["inputs"],"every ordered tree shape and start node, every set of borrowed nodes, plain and alternate forms, data that prints over several lines",TESTS+"two fixed trees are printed; the indentation depends on where last children are on each level.",
 ["src/tree/debug_print.rs","src/node/debug_print.rs","src/tree.rs","src/node/plain.rs"],[("pretty print","src/tree/debug_print.rs DebugPrettyPrint"),("local printing","src/node/debug_print.rs")])
prop("C26","The tree builder accepts exactly the well-formed event sequences",
 "The builder accepts an opening exactly while its root is not closed, and a closing of some levels exactly when so many nodes are open; what it has built is at every moment the tree the accepted events describe, below the given root if one was given. A refused event adds no node and loses none, and finishing succeeds exactly when a root was opened or given, and yields it. If the tree is edited between two calls, the next call acts on the tree as it then is: an opening adds a last child to the current node, a closing goes up to its parent.",
 ["histories"],"every sequence of open, close (with any machine-word level), queries and finishing, starting empty or from any node of an existing tree, which may be edited in between",TESTS+"the tests feed fixed sequences; the error cases and starting below an existing parent are hardly touched.",
 ["src/serial.rs"],[("builder","src/serial.rs TreeBuilder::open, close, finish, with_root")],[("open nodes","the current node and whether the root is closed","src/serial.rs TreeBuilder")])
prop("C27","The tree macros build exactly the tree that is written",
 "The tree macros build a tree with exactly the written nodes, order and nesting, evaluate every data expression exactly once and in the written order, and yield the documented kinds of results.",
 ["programs","inputs"],"a family of macro invocations that covers every form the grammar offers (leaves, nested lists, trailing separators, expressions), with every data values",TESTS+"the tests use the macro to build expected values but do not compare it with a tree built otherwise.",
 ["src/macros.rs"],[("macro expansion","src/macros.rs tree!, tree_node!"),("builder","src/serial.rs TreeBuilder")])
prop("C28","A panic in user code leaves the trees consistent and loses nothing",
 "When code of the user panics inside an operation (cloning, dropping, comparing or printing data, an iterator of events), the panic reaches the caller, all trees are consistent and can be used and edited, and no lock, borrow or memory is left behind. A copy that panics leaves no trace; an edit that lets nodes die is complete even if a destructor panics, and all other nodes are destroyed exactly once.",
 ["fault_sequences","inputs"],"every ordered tree (or pair), every operation that runs code of the user, every single call of that code that panics",TESTS+"no test makes user code panic, and half-done edits, held locks and skipped destructors show only then.",
 ["src/serial.rs","src/node/edit.rs","src/tree.rs","src/node/internal.rs","src/node/membership.rs"],[("copying through events","src/node/edit.rs try_clone_insert_subtree, src/serial.rs TreeBuilder"),("destruction","src/tree.rs TreeCore::drop, src/node/internal.rs"),("order of surgery and release","src/node/edit.rs detach_*, src/node/membership.rs set_tree_core")])
prop("C29","Plain traversals survive edits; stable traversals keep the tree locked",
 "A plain traversal under way while the tree is edited still yields the item it had ready, then goes on from that item in the structure it finds, and never panics or leaks. A stable traversal holds an edit prohibition of its tree as long as it has items left, every item it yields holds one too, and when all of these are gone the tree can be edited again.",
 ["histories","inputs"],"every ordered tree (or pair), every kind of traverser, every number of steps before the edit, every edit; every point at which a stable traversal is abandoned",TESTS+"no test edits a tree while a traversal of it is under way.",
 ["src/traverse/depth_first.rs","src/traverse/siblings.rs","src/traverse/ancestors.rs","src/traverse/breadth_first.rs"],[("ready item","src/traverse/*.rs: the fields of the traversers"),("locks of items","src/node/frozen.rs FrozenNode")])
prop("C30","Large trees need no more stack than small ones",
 "Dropping, cloning, comparing, serializing, building, traversing, editing and pretty-printing a tree need an amount of stack space that does not depend on the size, depth or width of the tree.",
 ["inputs"],"every listed operation, on deep, wide and mixed trees",TESTS+"deep trees overflow the stack only at depths no test builds, and Rc chains drop recursively unless the code prevents it.",
 ["src/tree.rs","src/node/membership.rs","src/node/edit.rs","src/serial.rs","src/traverse/depth_first.rs"],[("iterative destruction","src/tree.rs TreeCore::drop"),("iterative walks","src/traverse/depth_first.rs, src/serial.rs, src/node/edit.rs OrphanRoot::set_tree_core")])
prop("C31","Operations cost what the documentation says",
 "Following one link, counting the children, locking, creating a node and making one step of a traversal take time that does not depend on the size of the tree; moving a subtree within its tree depends on the depth of the destination only. Detaching, moving to another tree, copying, comparing and serializing a subtree depend on that subtree only. On whole trees these, destruction, building and the depth-first and allocating breadth-first traversals take time in proportion to the number of nodes.",
 ["inputs"],"every small ordered tree, every node and destination, every listed operation, additional nodes at every place; growing chains, stars and combs",TESTS+"no test measures cost, and an accidental walk over all siblings or descendants changes no result.",
 ["src/node/edit.rs","src/node/internal.rs","src/node/membership.rs","src/tree.rs","src/traverse/breadth_first.rs","src/node/hot.rs"],[("number of children","src/node/internal.rs num_children_cell"),("move within a tree and to another","src/node/edit.rs detach_and_move_inside_same_tree, detach_and_move_to_another_tree"),("documented costs","src/node/hot.rs try_detach_insert_subtree, num_children; src/traverse/breadth_first.rs")])
prop("C32","User code may edit trees while the crate runs it",
 "Code of the user that runs inside an operation (cloning, dropping, comparing or printing data) may edit any tree, including the one the operation is about: that edit does what it would do outside, and the operation completes without a panic. A copied subtree has the hierarchy it had when the operation began; a comparison or a printed text is undisturbed by edits elsewhere; destructors see and may edit a tree that is already consistent. Afterwards all trees are consistent and unlocked, and nothing is lost or destroyed twice.",
 ["histories","inputs"],"every ordered tree (or pair), every operation that runs code of the user, every call of that code at which it edits, every edit it makes",TESTS+"no test edits a tree from within a clone, comparison, printer or destructor.",
 ["src/node/plain.rs","src/node/edit.rs","src/tree.rs","src/node/internal.rs","src/node/membership.rs"],[("the hierarchy is taken before the data is cloned","src/node/plain.rs try_clone_subtree, src/node/edit.rs try_clone_insert_subtree"),("order of surgery and release","src/node/edit.rs detach_*, try_replace_with_children"),("no borrow of internal state while user code runs","src/node/internal.rs, src/node/membership.rs, src/tree.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for p in P: jsonschema.validate(p,S)
print(len(P))
