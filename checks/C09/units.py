prop = dict(
  title="BLinkTree: every inserted key is found, whatever splits happen meanwhile",
  statement="In the B-link tree an insert adds a pair exactly when its key is new and says so; an update changes the value of a stored key only; a search finds exactly the stored keys with their last value; fixed and range scans return exactly the stored pairs from the left key on, in key order, up to their limit. Splitting a leaf, an inner node or the root keeps every pair, separator and child in order, links the new node to the right of the old one and hands its separator to the right parent, also when that parent was split or replaced since the descent. Every latch taken is released.",
  quantifier=dict(over=["inputs", "schedules"], text="nodes of 8 keys: every content, fill level, position, rightmost or not; trees of 4-key nodes: several insertion orders, keys before, between and after the stored ones, a batch of splits by another thread at any point where no latch is held"),
  why_tests_cant="The example inserts 0..9999 in order with one thread: every insert goes to the rightmost node, no split happens in the middle of a node or level and nobody ever moves right along a sibling link.",
  anchors=dict(files=["BLinkTree/b_link_node.h", "BLinkTree/b_link_tree.h"], mechanism=[dict(name="NodeScan, LeafInsert, InnerInsert", where="b_link_node.h"), dict(name="Insert, Update, Search, ScanFixed, ScanRange", where="b_link_tree.h")], observe_at=["BLinkTree public operations"]))
level = "proof"
level_note = "Node operations: proof for every content of nodes with 8 keys and threshold 0.75. Tree operations: bounded (5 keys in 4-key nodes, real node code, latches replaced by a checking latch type, one interfering batch of inserts)."
explanation = "BLinkNode operations proved for every content; tree operations explored on small trees with a checking latch and an interfering writer"
contracts = ["BLinkNode::NodeScan, high_key, child", "BLinkNode::LeafInsert", "BLinkNode::InnerInsert", "BLinkTree::Insert, Update, Search, ScanFixed, ScanRange, ScanLeaf (bounded)"]
assumptions = ["the latch type gives mutual exclusion (template parameter; replaced by a checking latch)", "std::vector<Node *> behaves as a stack", "asserts compiled out (NDEBUG)", "key type is totally ordered"]
defaults = dict(inc=["@/BLinkTree"], cflags=["-fno-access-control", "-DNDEBUG"], timeout=150, solver="cadical", unwind=84)
units = [dict(name="leaf%d" % n, entry="harness_leaf", src="h.cpp", defs=["SN=%d" % n]) for n in range(0, 6)]
units += [dict(name="inner%d%s" % (n, "r" if r else ""), entry="harness_inner", src="h.cpp", defs=["SN=%d" % n, "RMOST=%d" % r]) for n in range(0, 6) for r in (0, 1) if n or r]
units += [dict(name="iins%d%s" % (n, "r" if r else ""), entry="harness_inner", src="h.cpp", defs=["SN=%d" % n, "RMOST=%d" % r, "SCANSTUB=1"], replace=[[r"BLinkNode<.*>::NodeScan\(", "stub_scan"]], ir_noinline=["::NodeScan"]) for n in range(0, 6) for r in (0, 1) if n or r]
def T(op, step, kk, base, at): return dict(name="tree%d_%d_%d_%d%s" % (op, step, kk, base, "" if at > 50 else "_%d" % at), entry="harness_tree", src="h2.cpp", kind="bounded", bound="nodes of 4 keys, 5 keys before the operation, one interfering batch of two inserts at one latch acquisition", defs=["PRE=5", "OP=%d" % op, "STEP=%d" % step, "KK=%d" % kk, "BASE=%d" % base, "AT=%d" % at]
   , replace=[[r"std::vector<BLinkNode<.*>::push_back\(", "stub_push"], [r"std::vector<BLinkNode<.*>::pop_back\(", "stub_pop"], [r"std::vector<BLinkNode<.*>::back\(", "stub_back"], [r"std::vector<BLinkNode<.*>::empty\(", "stub_empty"], [r"std::vector<BLinkNode<.*>::reserve\(", "stub_reserve"]], ir_noinline=["::push_back", "::pop_back", "::back", "::empty", "::reserve"])
units += [T(op, st, kk, 20, 99) for op in range(5) for st in (1, 2, 4) for kk in (5, 20, 25, 55)]
units += [T(op, 1, kk, b, a) for op in range(5) for kk, b in ((25, 22), (50, 44), (23, 22)) for a in range(4)]
