prop = dict(
  title="ARTOLC: inner nodes are exact maps; growing, shrinking and prefixes lose nothing",
  statement="Every ARTOLC inner node type (4, 16, 48, 256 children) behaves as a map from key byte to child: inserting, removing or replacing a child changes that key byte's child and no other, lookup and range enumeration report exactly the stored children, in ascending key order. When a node grows or shrinks, the replacement holds the same prefix and the same children plus or minus the changed one, is published in the parent while both nodes are locked, and the old node becomes obsolete and is retired exactly once; an attempt based on a stale version changes nothing and asks for a restart. Merging a compressed path keeps the stored prefix bytes and its length.",
  quantifier=dict(over=["inputs", "histories"], text="every node content of every type, every key byte, every child pointer, every stale or current version of node and parent"),
  why_tests_cant="The example inserts dense integers; node contents with particular byte patterns (sign-flipped order in 16-nodes, freed slots in 48-nodes, prefixes longer than 11 bytes) and stale versions never arise there.",
  anchors=dict(files=["ARTOLC/N.cpp", "ARTOLC/N4.cpp", "ARTOLC/N16.cpp", "ARTOLC/N48.cpp", "ARTOLC/N256.cpp"], mechanism=[dict(name="node operations", where="N4.cpp N16.cpp N48.cpp N256.cpp"), dict(name="insertGrow/removeAndShrink", where="N.cpp"), dict(name="addPrefixBefore/setPrefix", where="N.cpp")], observe_at=["N::getChild, N::getChildren, N::insertAndUnlock, N::removeAndUnlock"]))
level = "proof"
level_note = "Contracts per member function, all contents; getChildren of the 48/256 nodes is proved for windows of 3 key bytes anywhere, getAnyChild of 48/256 is bounded (8 key bytes)."
explanation = "one contract per node operation and type; grow/shrink proved against the contracts of copyTo/insert/remove/change"
contracts = ["N4/N16/N48/N256 insert, remove, change, getChild, getChildren, getAnyChild, getSecondChild, isFull, isUnderfull, copyTo", "N::insertAndUnlock, N::removeAndUnlock", "N::setPrefix, addPrefixBefore, isLeaf/setLeaf/getLeaf, type dispatch"]
assumptions = ["Epoche::markNodeForDeletion is a recorder (its reclamation is C32)", "operator new returns fresh memory", "48-node copyTo: children are distinct constants (copyTo never inspects them)"]
A = dict(src="h.cpp", inc=["@/ARTOLC"], cflags=["-fno-access-control"], timeout=100, solver="cadical", unwind=6, native_libs=["-ltbb"])
defaults = A
def nt(t, c): return ["NT=N%d" % t, "NTK=%d" % t, "SC=%d" % c]
units = [dict(name="%s%d_%d" % (op, t, c), entry="harness_" + op, defs=nt(t, c), unwind=t + 2) for t, cs in ((4, range(0, 5)), (16, range(0, 17))) for c in cs for op in ("insert", "remove", "access", "children")
  if not (op == "insert" and c == t) and not (op in ("remove","access") and c == 0) and not (t == 16 and c < 1 and op != "insert")]
for u in units:
    if u["name"] == "children16_16": u["timeout"] = 300
    if u["name"].split("_")[-1] in ("3", "4", "5", "6", "9", "10", "11", "12", "13", "14") and "16_" in u["name"]: u["tier"] = "thorough"   # quick: the ends and the middle

units += [dict(name="%s%d" % (op, t), entry="harness_" + op, src="h2.cpp", defs=["NT=N%d" % t, "NTK=%d" % t, "WIN=3", "LIM=8"], unwind={"insert": 50, "any": 258, "children": 5}.get(op, 4), timeout=200, **(dict(kind="bounded", bound="children only under the first 8 key bytes") if op == "any" else {})) for t in (48, 256) for op in ("insert", "remove", "access", "any", "children")]

INS = [[r"ART_OLC::N(4|16|48|256)::insert\(", "stub_ins"]]
NOI = [r"ART_OLC::N(4|16|48|256)::(insert|remove|change|copyTo)|::change\("]
units += [dict(name="copy%d_%d_%d" % (a, b, c), entry="harness_copy", src="h3.cpp", defs=["FROM=N%d" % a, "TO=N%d" % b, "FK=%d" % a, "SC=%d" % c], replace=INS, ir_noinline=NOI, unwind=258, flags=["--max-field-sensitivity-array-size", "256"] if a > 16 else [], timeout=200)
  for a, b, cs in ((4, 16, [4]), (4, 4, [0, 1, 2, 3]), (16, 48, [16]), (16, 4, [3]), (48, 256, [0]), (48, 16, [0]), (256, 48, [0])) for c in cs]
units += [dict(name="grow%d_%d" % (a, f), entry="harness_grow", src="h3.cpp", defs=["FROM=N%d" % a, "TO=N%d" % b, "FK=%d" % a, "FULL=%d" % f, "SC=0"], ir_noinline=NOI, replace=[[r"ART_OLC::N(4|16|48|256)::insert\(", "stub_ins2"], [r"ART_OLC::N(4|16|48|256)::copyTo<|void ART_OLC::N(4|16|48|256)::copyTo", "stub_copy"], [r"ART_OLC::N::change\(", "stub_change"]], unwind=258)
  for a, b in ((4, 16), (16, 48), (48, 256), (256, 256)) for f in (0, 1) if a < 256 or not f]
units += [dict(name="shrink%d_%d" % (a, f), entry="harness_shrink", src="h3.cpp", defs=["FROM=N%d" % a, "TO=N%d" % b, "FK=%d" % a, "FULL=%d" % f, "SC=0"], ir_noinline=NOI, replace=[[r"ART_OLC::N(4|16|48|256)::remove\(", "stub_rem2"], [r"ART_OLC::N(4|16|48|256)::copyTo<|void ART_OLC::N(4|16|48|256)::copyTo", "stub_copy"], [r"ART_OLC::N::change\(", "stub_change"]], unwind=258)
  for a, b in ((4, 4), (16, 4), (48, 16), (256, 48)) for f in (0, 1, 2) if a > 4 or f != 1]
units += [dict(name="prefix", src="h3.cpp", defs=["FROM=N4", "TO=N4", "FK=4", "SC=0"], unwind=14), dict(name="setprefix", src="h3.cpp", defs=["FROM=N4", "TO=N4", "FK=4", "SC=0"], unwind=14),
  dict(name="dispatch", src="h3.cpp", defs=["FROM=N4", "TO=N4", "FK=4", "SC=0"], ir_noinline=[r"ART_OLC::N(4|16|48|256)::"], replace=[[r"ART_OLC::N%d::%s\(" % (t, f), "stub_%s%d" % (f, t)] for t in (4, 16, 48, 256) for f in ("getChild", "change", "getAnyChild", "getChildren")], unwind=14)]
