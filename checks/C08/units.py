prop = dict(
  title="BTreeOLC: every inserted key is found, in order, whatever splits happen",
  statement="In the optimistic B+-tree (both page layouts) a lookup reports a key exactly when it is stored, with the last value stored for it; an insert adds or replaces exactly one pair, in the leaf responsible for it; a split of a leaf, an inner node or the root keeps every pair and every child in order and hands the parent the separator between the halves; a scan returns stored values in key order up to its limit. Nodes are changed only while locked, and an operation whose reads were overtaken by a writer restarts and changes nothing on the strength of them; no lock is left behind.",
  quantifier=dict(over=["inputs", "schedules", "configurations"], text="every node content at reduced page sizes (4-6 slots), every fill level, both layouts, every full node on paths of up to three nodes, one interfering writer at any node and any read of a version word"),
  why_tests_cant="The example inserts integers in one order and looks them up again; a wrong separator, a stale read between two version checks or a value lost in a split of one shape only show for some orders and schedules.",
  anchors=dict(files=["BTreeOLC/BTreeOLC.h", "BTreeOLC/BTreeOLC_child_layout.h"], mechanism=[dict(name="BTreeLeaf / BTreeInner lowerBound, insert, split", where="BTreeOLC*.h"), dict(name="BTree::insert, lookup, scan, makeRoot", where="BTreeOLC*.h"), dict(name="OptLock read/upgrade/check-or-restart", where="BTreeOLC*.h struct OptLock")], observe_at=["BTree::insert, lookup, scan"]))
level = "proof"
level_note = "Node operations: proof for every content at page sizes of 76/96 bytes (hook VP_PAGE_SIZE; the code is generic in the page size). Tree walks: bounded to paths of at most three nodes and one interfering write, with node operations replaced by the contracts proved here."
explanation = "BTreeOLC node operations proved for every content; the walks checked against those contracts, with a writer interfering at each read of a version word"
contracts = ["BTreeLeaf::lowerBound, insert, split", "BTreeInner::lowerBound, insert, split", "BTree::makeRoot", "BTree::lookup, scan, insert (bounded)"]
assumptions = ["page size 76/96 instead of 4096 bytes", "sequentially consistent memory", "node pages are never freed (the code does not free them)", "std::atomic operations as compiled to LLVM atomics"]
defaults = dict(inc=["@/BTreeOLC"], cflags=["-fno-access-control"], timeout=150, solver="cadical", unwind=18)
units = []
for lay, pg in ((0, 76), (1, 96)):
    D = ["LAYOUT=%d" % lay, "VP_PAGE_SIZE=%d" % pg]
    IMX = (pg - 16) // 12
    units += [dict(name="leaf%d_%d" % (lay, n), entry="harness_leaf", src="h.cpp", defs=D + ["SN=%d" % n]) for n in range(0, 6)]
    units += [dict(name="inner%d_%d" % (lay, n), entry="harness_inner", src="h.cpp", defs=D + ["SN=%d" % n]) for n in range(1, IMX)]
    units += [dict(name="%s%d" % (x, lay), entry="harness_" + x, src="h.cpp", defs=D) for x in ("lsplit", "isplit", "makeroot")]

    RP = [[r"BTreeInner<.*>::lowerBound\(", "stub_lowi"], [r"BTreeLeaf<.*>::lowerBound\(", "stub_lowl"], [r"BTreeLeaf<.*>::insert\(", "stub_linsert"], [r"BTreeInner<.*>::insert\(", "stub_iinsert"], [r"BTreeLeaf<.*>::split\(", "stub_lsplit"], [r"BTreeInner<.*>::split\(", "stub_isplit"], [r"BTree<.*>::makeRoot\(", "stub_makeroot"], [r"BTree<.*>::yield", "stub_yield"]]
    def t(op, dep, full, right, tn, ta): return dict(name="%s%d_%d%s%s%s" % (op, lay, dep, "" if full < 0 else "f%d" % full, "r" if right else "", "" if ta < 0 else "_t%d_%d" % (tn, ta)), entry="harness_" + op, src="h2.cpp", kind="bounded", bound="tree paths of at most 3 nodes, one interfering write per operation", defs=D + ["DEP=%d" % dep, "FULL=%d" % full, "RIGHT=%d" % right, "TN=%d" % tn, "TA=%d" % ta], replace=RP, ir_noinline=["::lowerBound", "::insert", "::split", "::yield", "::makeRoot", "Tree::|BTree<"], unwind_rx=[["BTree<", 6]])
    units += [t(op, d, -1, 0, 0, -1) for op in ("lookup", "scan", "insert") for d in (0, 1, 2)]
    units += [t("insert", d, f, r, 0, -1) for d in (0, 1, 2) for f in range(d + 1) for r in (0, 1)]
    units += [t(op, 1, -1, 0, n, a) for op in ("lookup", "insert", "scan") for n in (0, 1) for a in range(9)]
    units += [t("insert", 1, f, 0, n, a) for f in (0, 1) for n in (0, 1) for a in range(8)]
