#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

EDIT="src/node/edit.rs"; INT="src/node/internal.rs"; MEM="src/node/membership.rs"; TREE="src/tree.rs"; LOCK="src/tree/lock.rs"
PL="src/node/plain.rs"; HOT="src/node/hot.rs"; FR="src/node/frozen.rs"
links=[dict(name="neighbour links", meaning="parent, first child, next sibling and cyclic previous sibling of a node; the previous sibling of the first child is the last child", where=INT),
       dict(name="cached number of children", meaning="O(1) child count", where=INT)]

p("C01","Every tree stays a well-formed rooted ordered tree under any edit history",
  "After any sequence of hierarchy edits (successful or failed), through any kind of node handle, all navigation answers agree with one single ordered tree: parent, previous/next sibling, first/last sibling, first/last child, the has-a-neighbour predicates and every child, sibling and ancestor count. Each node of the tree is reachable exactly once from its root, and exactly the root has no parent and has no siblings.",
  ["histories","inputs"],"all interleaved sequences of create, interrupt, detach, move, replace-with-children and clone-insert operations on any set of trees of any shape",
  "the tests and doc examples check one or two edits on a handful of hand-written trees; stale cyclic sibling links only show after a later operation on a particular neighbour",
  [INT,EDIT,PL,HOT,FR],[("link updates of insert/unlink","src/node/edit.rs OrphanRoot"),("first/last lookup through the cyclic link","src/node/internal.rs")],
  ["all navigation methods of Node, HotNode and FrozenNode"],links)
p("C02","Each successful edit has exactly its documented effect and touches nothing else",
  "Creating, interrupting, detaching, moving, replacing a node with its children, and clone-inserting put exactly the documented nodes at exactly the documented positions, keep the order and identity of the nodes in every moved subtree, and leave all other nodes, their data and their order as they were. This holds for every position (first, middle, last, only child, root), every anchor, within one tree and between trees, and equally for plain and hot node handles and for the fallible and panicking forms.",
  ["inputs","histories"],"all tree shapes, operands, destinations and API flavours, starting from states produced by earlier edits",
  "each operation has one doc example on one shape; positions such as last-of-many, moving next to itself, or a destination adjacent to the source are not exercised",
  [EDIT,"src/anchor.rs",PL,HOT],[("insert/unlink algorithms",EDIT),("destination dispatch","src/anchor.rs, src/node/plain.rs, src/node/hot.rs")],
  ["shape and node identity after every edit, compared with a reference model"],links)
p("C03","A refused edit changes nothing and reports the documented reason",
  "An edit that would give a root a sibling, put a node under itself or its own descendant, leave a tree empty, or needs data that is mutably borrowed is refused with the documented error (or documented panic for the panicking form). A refused edit leaves every hierarchy, tree membership, lock state and data exactly as before, and releases any data handed over to it.",
  ["inputs","histories","fault_sequences"],"all invalid operand combinations (ancestor, self, sibling of root, root of a multi-child tree, borrowed data at any position in the subtree) in any state",
  "only three refusals have a test, and none checks the state after the refusal",
  [EDIT,PL,HOT,"src/node.rs"],[("validity checks before modification",EDIT)],["returned error kind","full state before and after the refused edit"])
p("C04","Every node belongs to exactly one tree, and Tree handles keep tracking it",
  "At any time each node belongs to exactly one tree, and that tree's handle reports the current root of that very hierarchy even after the root was replaced or interrupted. Detached (or replaced) nodes with their subtree form a distinct new tree, moved subtrees belong to the destination tree entirely and at once, and tree identity and same-tree queries agree with this from every node handle kind.",
  ["histories","inputs"],"all edit histories, including detaching/moving subtrees with and without live handles to inner nodes, joining trees, and replacing or interrupting roots",
  "tests check tree identity on two or three nodes right after one edit; membership of nodes without live handles and of old Tree handles is not sampled",
  [MEM,TREE,EDIT,PL],[("membership rewrite of a subtree","src/node/edit.rs set_memberships_of_descendants_and_self"),("root replacement","src/tree.rs")],
  ["tree(), root(), is_root(), belongs_to(), belongs_to_same_tree(), Tree::root(), Tree::ptr_eq()"],
  [dict(name="membership",meaning="which tree a node belongs to, strong iff the node has live handles",where=MEM)])
p("C05","Any single live handle preserves its entire tree; weak ones preserve nothing",
  "As long as any one node handle (plain, frozen, hot), tree handle or iterator positioned in a tree is alive, all nodes of that tree, their data and their relations stay available, no matter how the other handles are dropped or the tree is edited. A weak node or tree reference upgrades successfully if and only if its target's tree is alive (for a node: the tree it currently belongs to), and weak references, grants and prohibitions alone keep nothing alive.",
  ["histories","schedules"],"all orders of acquiring, converting, cloning and dropping handles of all kinds, interleaved with edits that move nodes between trees",
  "tests keep most handles alive until the end; the drop order of mixed handles interleaved with detach/join is not explored",
  [MEM,INT,TREE,PL],[("strong/weak membership switching by handle count",MEM)],["NodeWeak::upgrade, TreeWeak::upgrade, navigation from the only remaining handle"])
p("C06","Dropping the last handle frees each node once, at once, and nothing leaks",
  "Each value associated with a node is dropped exactly once, exactly when the last handle that preserves its tree goes away, and never earlier. After all handles are gone no node or bookkeeping memory remains allocated, whatever the history of edits, clones, failed operations and handle conversions was.",
  ["histories","schedules"],"all histories of edits and handle drops, in every drop order",
  "tests drop two synthetic trees and only check that nothing crashes; neither payload drops nor memory balance is observed",
  [TREE,INT,MEM,EDIT],[("iterative teardown of the hierarchy","src/tree.rs Drop for TreeCore"),("weak parent and previous-sibling links",INT)],
  ["payload constructor/destructor ledger","allocator balance"])
p("C07","Edit grants and edit prohibitions exclude each other, counted exactly",
  "For each tree, a hierarchy edit grant (standalone or bundled in a hot node) can be acquired if and only if no prohibition (standalone or bundled in a frozen node) of that tree is alive, and vice versa, while any number of the same kind can be shared. Every way of acquiring, cloning, extracting, bundling, converting and dropping such locks keeps this exact, and while a prohibition is alive no operation changes the hierarchy of that tree.",
  ["histories","schedules"],"all interleavings of acquiring, cloning and releasing locks of all kinds on any nodes of several trees",
  "the tests cover the eight direct conflicts between two locks, no counting and no release orders",
  [LOCK,MEM,HOT,FR,PL],[("grant/prohibition counter per tree",LOCK),("aggregation of bundled locks per node","src/tree/lock.rs LockAggregatorForNode")],
  ["grant_hierarchy_edit, prohibit_hierarchy_edit, bundle_*, try_clone, extract_*"],
  [dict(name="lock count",meaning="positive: active grants, negative: active prohibitions",where=LOCK)])
p("C08","Locks follow their node or tree across moves, and foreign grants are rejected",
  "When nodes move to another tree (detach, move, replace), the locks bundled in their handles come along while standalone grants keep belonging to the tree they were issued for, so the set of locks that is in force on each tree is always exactly those of its nodes' handles plus its own standalone ones. A grant or prohibition is valid for a node if and only if the node currently belongs to the tree it was issued for, and using an invalid one panics without changing anything.",
  ["histories","inputs"],"all moves of subtrees containing several bundled handles, with standalone locks present on the source and the destination, and all uses of locks with nodes of other trees",
  "no test moves a locked node between trees or uses a stale grant after a move",
  [LOCK,MEM,EDIT,HOT],[("lock transfer on membership change","src/node/membership.rs set_tree_core"),("validity check","src/tree/lock.rs panic_if_invalid_for_node")],
  ["lock availability probes on every tree before and after moves","is_valid_for_node","panics"])
p("C09","Depth-first traversals visit exactly the subtree, in exact document order",
  "Forward, reverse, stable and depth-limited depth-first traversals of any subtree (rooted at the tree root or not) emit exactly one opening and one closing per node in pre/post-order (mirrored for reverse), restricted to the depth limit, with correct depths, and end there. Stepping single events forward and backward, starting from given events, and skipping to the close of the current node agree with that same sequence.",
  ["inputs","histories"],"all tree shapes, start nodes, start/end events, depth limits and node handle kinds",
  "the doc examples traverse one tree from its root, mostly forward",
  ["src/traverse/depth_first.rs",PL,FR,HOT],[("event successor/predecessor","src/traverse/depth_first.rs"),("termination at the start node","src/traverse/depth_first.rs")],
  ["the complete event sequence of each traverser, compared with the model"])
p("C10","Sibling, ancestor and breadth-first traversals are exact",
  "Traversals of children, siblings, preceding and following siblings (with or without the node itself, forward, reverse and stable) and of ancestors return exactly the specified nodes in the specified order, for first, middle, last, only children and roots. Both breadth-first traversals return exactly the nodes of the subtree at or below the start depth level by level with their depths for any start depth, agree with each other, and the non-allocating one does not allocate.",
  ["inputs","histories"],"all tree shapes, positions and start depths",
  "doc examples use one middle child of one tree; roots, single children, double-ended use and extreme start depths are not covered",
  ["src/traverse/siblings.rs","src/traverse/ancestors.rs","src/traverse/breadth_first.rs",FR,PL],[("sibling stepping","src/traverse/siblings.rs"),("level iteration","src/traverse/breadth_first.rs")],
  ["the complete item sequence of each traverser"])
p("C11","All iterators keep the iterator contracts under any usage pattern",
  "For every iterator of the crate: peeking shows exactly the item the next step returns, the size hint always brackets the number of remaining items, a finished iterator stays finished, and a clone continues independently from the same position. Taking items from both ends of a double-ended iterator in any interleaving returns each item exactly once, and skipping to the close of the current node consumes exactly up to that close.",
  ["schedules","inputs"],"all interleavings of next, next_back, peek, clone, size_hint and skip calls on all iterators over all tree shapes",
  "tests and examples only collect() or loop forward over one tree",
  ["src/traverse/depth_first.rs","src/traverse/siblings.rs","src/traverse/ancestors.rs","src/traverse/breadth_first.rs","src/serial.rs"],
  [("meeting of both ends","src/traverse/siblings.rs, src/traverse/depth_first.rs")],["call log of every iterator"])
p("C12","Serialising a subtree to events and building it back is lossless",
  "The event sequence produced from any subtree describes exactly that subtree (balanced, in order, limited to it, with consecutive closings merged), and building a tree from these events, from depth-first events, or from any equivalent splitting of the closings yields an equal but independent new tree for every target type (plain, frozen, hot node, tree). Data that is mutably borrowed yields an error for exactly that item rather than wrong or missing data.",
  ["inputs"],"all tree shapes and data, start nodes, and regroupings of closings",
  "round trip is tested for one tree of seven nodes",
  ["src/serial.rs",PL],[("close merging","src/serial.rs TreeSerializeIter"),("FromIterator impls","src/serial.rs")],["event sequences","rebuilt trees"])
p("C13","The tree builder accepts exactly valid event streams and never exceeds them",
  "For any finite stream of open/close events, in any batching, the builder accepts exactly the events that are valid for an ordered tree under construction, rejects each other one with the documented error without changing the tree or the builder state, and reports root availability, root closedness and the final node accordingly. A builder started from an existing node adds nodes only inside the subtree of that node, after its existing children, and is finished once that node is closed.",
  ["inputs","fault_sequences"],"all event streams, including malformed ones, arbitrary close counts, and starts from root, inner and leaf nodes",
  "two error cases are tested, and nothing checks state after an error or a start from a non-root node",
  ["src/serial.rs"],[("close level handling","src/serial.rs TreeBuilder::close")],["results of each call","resulting tree"])
p("C14","Cloning yields an equal, independent tree and leaves the source untouched",
  "Cloning a subtree or tree yields a brand-new tree with the same shape, order and cloned data and no locks, sharing no node with the source, and later changes on either side never affect the other. Clone-inserting puts such a copy of the source subtree, as it was before the call, at the destination even if the destination lies inside the source subtree, and a clone that fails because of borrowed data leaves no trace.",
  ["inputs","histories","fault_sequences"],"all source subtrees, destinations, and positions of mutably borrowed data",
  "one doc example per function; inner subtrees with following siblings, self-insertion and failures are not covered",
  [PL,EDIT,"src/serial.rs",TREE],[("clone through events","src/node/plain.rs try_clone_subtree"),("clone insertion",EDIT)],["source and clone compared with the model","payload ledger"])
p("C15","Equality means same shape and same data, for every pair of handle kinds",
  "Two nodes (of any handle kinds) or trees compare equal if and only if their subtrees have the same shape and pairwise equal data in order, regardless of tree membership, position in their trees, siblings, locks and history, also between different data types, and the result is symmetric (a node is always equal to itself). If the comparison needs data that is mutably borrowed, the fallible comparison returns an error instead of a result.",
  ["inputs"],"all pairs of subtrees (also nested in larger trees and in the same tree), near-miss pairs with the same pre-order data but different shape, and borrow positions",
  "one doc example of a few comparisons",
  [INT,PL,HOT,FR,TREE],[("event-wise comparison","src/node/internal.rs try_eq")],["==, !=, try_eq between all handle kinds"])
p("C16","Node data has exact borrow discipline, independent of the hierarchy",
  "All handles of a node share one value with dynamic borrow rules: any number of shared borrows or a single exclusive borrow, with errors exactly on conflict, and writes visible through every handle. Hierarchy edits, navigation, traversal, lock and lifetime operations (all that do not need the data) succeed while any data is borrowed, never read, modify, duplicate or exchange data, and data stays with its node across all moves.",
  ["histories","schedules"],"all interleavings of held shared/exclusive borrows on arbitrary nodes with all operations",
  "no test holds a borrow during other operations",
  [INT,PL,HOT,FR],[("per-node data cell","src/node/internal.rs NodeCore")],["borrow results","data identities and values"])
p("C17","Debug and pretty printing render exactly the subtree and never fail",
  "The pretty print of any node or tree shows each node of that subtree exactly once in pre-order, each starting its own line, with indentation and branch marks that determine the shape, with multi-line data kept inside its block, in display, debug and alternate forms; a failing writer makes it return an error. All debug formats of all handles work in every state (including mutably borrowed data, which is marked, and dropped targets of weak references) without panicking, changing anything or showing nodes outside the subtree.",
  ["inputs","histories"],"all shapes, positions, multi-line and empty data, borrow states and handle kinds",
  "eight fixed pretty-print examples on two trees",
  ["src/node/debug_print/pretty.rs","src/node/debug_print/debug.rs","src/node/debug_print.rs","src/tree/debug_print.rs",PL],[("indent writer","src/node/debug_print/pretty.rs")],["formatted output compared with a reference renderer"])
p("C18","Very deep and very wide trees are handled in bounded stack space",
  "Dropping, detaching, moving, cloning, comparing, traversing, serialising and building trees of any depth and width never overflows the stack: stack use does not grow with the size of the tree. This includes teardown started from any handle, from a detached part, and of trees whose shape mixes deep and wide parts.",
  ["inputs","configurations"],"depths and widths up to hundreds of thousands of nodes, all shapes, in small-stack threads",
  "two drop tests with the default stack size; other operations are not run on large trees",
  [TREE,EDIT,INT,"src/serial.rs"],[("iterative traversal and teardown","src/tree.rs Drop for TreeCore, src/node/internal.rs")],["process survival of small-stack threads","peak stack use"])
p("C19","User callbacks that re-enter, fail or panic cannot corrupt trees",
  "If user code run by the crate (destructors, clone, comparison, formatting, event sources of the associated data) navigates or edits trees, upgrades weak references, drops handles, or panics, then all trees remain well-formed with consistent membership and locks, data is still dropped exactly once, and no operation panics or aborts on its own. A weak reference used from a destructor upgrades to a usable node or to nothing.",
  ["fault_sequences","histories"],"all points where the crate calls user code, with re-entrant operations and panics injected at the k-th call",
  "no test uses data with behaviour",
  [TREE,MEM,EDIT,PL,INT],[("no internal borrow held while running user code","src/node/membership.rs, src/tree.rs")],["state audit after each injected re-entry or panic","ledger"])
p("C20","Traversals over trees that are being edited stay safe and terminate",
  "A non-stable traversal that is advanced while its tree is edited (including moving, detaching and dropping the nodes it is positioned at) never panics, only returns live nodes with their current tree intact, keeps what it is positioned at alive, and finishes within a bounded number of steps once edits stop. Edits that happen entirely in the part already passed do not change what remains to be returned.",
  ["schedules","histories"],"all interleavings of traversal steps and edits",
  "no test edits during a traversal",
  ["src/traverse/depth_first.rs","src/traverse/siblings.rs","src/traverse/ancestors.rs"],[("traversers hold strong references","src/traverse")],["items, step counts, audits"])
p("C21","Behaviour does not depend on build configuration",
  "The same program of public operations has the same observable results (returned values, errors, panics, shapes, traversal orders, printed output) with debug assertions and overflow checks on or off and with the std feature on or off. Internal assertions never fire for programs that respect the documented preconditions.",
  ["configurations","histories"],"all operation histories, in {debug, release} x {std, no_std}",
  "the tests run in a single configuration",
  ["src/lib.rs",EDIT,PL,INT,"src/node.rs"],[("debug assertions",EDIT),("std feature gate","src/lib.rs")],["trace digests of the same histories in differently built harnesses"])
p("C22","Tree literal macros build exactly the tree that is written",
  "For every nested tree literal accepted by the tree and node macros, including any nesting depth, optional trailing commas, empty child lists and arbitrary data expressions, the result is the tree with exactly the written data, order and nesting, each data expression is evaluated exactly once in written order, and the result is an unlocked new tree.",
  ["programs"],"all nested literals in the macro grammar",
  "about a dozen literals appear in doc examples",
  ["src/macros.rs"],[("token muncher","src/macros.rs tree_node!")],["literals compiled and compared with event-built trees"])
p("C23","Operations cost what is documented, however large the tree is",
  "The work of an operation is bounded by what it has to visit, not by the size of the rest of the tree. Constant whatever the size of the tree, of the subtree and the number of siblings: the number of children and the predicates about children, going to a neighbour, the first or last sibling or child, the root or the tree, operations on handles, weak references and locks, creating a node, and moving a subtree within its tree (besides one step for each ancestor of the destination). Linear in the nodes concerned: detaching and moving to another tree (the subtree), cloning, comparing, counting, serialising, building, dropping, and traversals that visit everything (in total). Only the non-allocating breadth-first traversal may take as many steps for each level as there are nodes.",
  ["inputs"],"all operations, tree shapes, sizes and positions of the node in the tree",
  "the tests use a dozen nodes and look at results, which are the same however long they took to obtain",
  [INT,EDIT,"src/node.rs","src/tree.rs",HOT,PL,FR,"src/traverse/depth_first.rs","src/traverse/breadth_first.rs"],[("cached number of children",INT),("first/last lookup through the cyclic link",INT),("teardown of a subtree","src/node.rs"),("insertion within the same tree",EDIT)],["instructions executed by an operation"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
