prop = dict(
  title="OptiQL ART: lookup, insert, update and remove find the right place",
  statement="In the OptiQL ART a lookup returns a key's value exactly when the key is stored, also when compressed paths were only compared optimistically; an insert adds its key exactly when it is new and says so, an update replaces the value of a stored key only (expanding a contended leaf into a path of the same key), splitting a compressed path or a leaf without changing what any other key leads to; a remove deletes that key only, and folds a node left with one child into its parent with the joined path. Each holds whatever nodes the path visits, and also when a writer changes a node between the moment the walk reads its version and the moment it reads its content: the walk restarts and nothing is changed on the strength of a stale read. No lock is left behind.",
  quantifier=dict(over=["inputs", "schedules"], text="every path the key length allows, every split of it into compressed prefixes and branch bytes, every outcome at its end, one interfering writer at any node of the path and either read"),
  why_tests_cant="The example inserts dense integers: no optimistic matches, no path splits in the middle, no folding of inner nodes, and no writer timed between two reads of one step.",
  anchors=dict(files=["OptiQL/Tree.cpp"], mechanism=[dict(name="Tree::lookup/insert/update/remove", where="Tree.cpp"), dict(name="checkPrefix, checkPrefixPessimistic, checkPrefixCompare", where="Tree.cpp")], observe_at=["Tree::lookup, Tree::insert, Tree::update, Tree::remove"]))
level = "proof"
level_note = "The walks are bounded: key length 4 (all depths 0-3, every split into compressed paths); the rest is proved per unit (path comparison functions for key length 20, prefixes up to 17; tryExpand for key lengths 1, 2, 4, 8, 20). Node access goes through the contracts proved in C15. At most one interfering write per operation; range scans are not covered (see DESIGN.md)."
explanation = "the walks of Tree.cpp against contracts of node access and prefix comparison"
contracts = ["Tree::lookup, checkKey", "Tree::insert", "Tree::remove", "Tree::update, traverseToLeafEx, tryExpand", "checkPrefix / Pessimistic / Compare"]
assumptions = ["node operations and version words as contracted in C15", "walks: keys have length 4 (tryExpand: 1 to 20) and a leaf's key agrees with the path that leads to it", "the caller's removeNode has no effect on the tree", "the alternative builds (ART_OLC_UPGRADE, ART_OLC_ACQUIRE, ART_UPSERT, offset locks) are not covered; the repository builds OMCS_LOCK + IS_CONTEXTFUL", "real objects have addresses below 2^63"]
TR = [[r"N::isLeaf\(", "stub_isleaf"], [r"ART_OLC_OptiQL::N::getChild\(", "stub_child"]]
defaults = dict(inc=["@/OptiQL"], cflags=["-fno-access-control", "-DOMCS_LOCK", "-DIS_CONTEXTFUL"], timeout=200, solver="cadical", unwind=16, native_libs=["-ltbb"])
NI = [r"N::isLeaf\(|N::change\(|insertAndUnlock|removeAndUnlock|addPrefixBefore|getSecondChild|N4::insert|N::getChild\(|Tree::checkPrefix|ART_OLC_OptiQL::N::(writeUnlock|upgradeToWriteLockOrRestart|writeLockOrRestart)\(|Tree::tryExpand|Tree::traverseToLeaf|Tree::lookup|memcmp|bcmp"]
def walk(op, d, f, o, t, st, ex=[], sfx='', **kw): return dict(name="%s%d_%d%d%s" % (op, d, f, o, "" if t < 0 else "_%d%d" % (t, st)) + sfx, entry="harness_" + op, src="h1.cpp", defs=[op.upper(), "DEP=%d" % d, "FIN=%d" % f, "OPT=%d" % o, "TEAR=%d" % t, "SITE=%d" % st] + ex, ir_noinline=NI, unwind_rx=[["Tree::(lookup|remove|insert|traverse)", max(6 if op == 'insert' else 0, d + 2 if t < 0 else d + t + 3)]], **kw)
WALKS = [(d, f, o, -1, 0) for d in range(4) for f in range(3) for o in (0, 1)] + [(d, 2, 0, t, s) for d in range(3) for t in range(d + 1) for s in (0, 1) if t or s]
def paths(d): return [p for p in __import__("itertools").product((0,), *[range(4 - d)] * d) if sum(p) + d < 4]
def walks(op, ws, ex=[], sfx="", **kw): return [walk(op, *w, ex=ex + ["PL=" + ",".join(map(str, p)), "TORNRES=%d" % r], sfx="_p" + "".join(map(str, p[1:])) + sfx + ("r%d" % r if r else ""), **kw) for w in ws for p in paths(w[0]) for r in range(2 if w[3] >= 0 and w[4] == 0 else 1) if not (w[1] == 0 and p[-1] == 0) and not (w[2] and not sum(p))]
units = walks("lookup", WALKS, replace=TR + [[r"ART_OLC_OptiQL::Tree::checkPrefix\(", "stub_prefix"]])

RM = TR + [[r"ART_OLC_OptiQL::Tree::checkPrefix\(", "stub_prefix"], [r"ART_OLC_OptiQL::N::change\(", "stub_change"], [r"N::removeAndUnlock", "stub_remove"], [r"ART_OLC_OptiQL::N::writeUnlock\(", "stub_unlock"], [r"N::upgradeToWriteLockOrRestart\(", "stub_upgrade"], [r"N::writeLockOrRestart\(", "stub_lock"], [r"N::addPrefixBefore", "stub_addprefix"], [r"N::getSecondChild", "stub_second"]]
IN = TR + [[r"ART_OLC_OptiQL::Tree::checkPrefixPessimistic", "stub_pess"], [r"ART_OLC_OptiQL::N::change\(", "stub_change"], [r"N::insertAndUnlock", "stub_insert"], [r"ART_OLC_OptiQL::N::writeUnlock\(", "stub_unlock"], [r"N::upgradeToWriteLockOrRestart\(", "stub_upgrade"], [r"N::writeLockOrRestart\(", "stub_lock"]]
for c, s in ((2, 0), (2, 1), (3, 0)): units += walks("remove", [w for w in WALKS if not (w[1] < 2 and c + s != 2) and not w[2]], ex=["COUNT=%d" % c, "SIB=%d" % s], sfx="_c%d%d" % (c, s), replace=RM)
units += walks("insert", [w for w in WALKS if not w[2]], replace=IN)
units += [dict(name="%s%d" % (n, pl), entry="harness_" + n, src="h2.cpp", defs=["PLEN=%d" % pl], replace=[[r"N::getAnyChildTid", "stub_anytid"]], ir_noinline=["getAnyChildTid", "Tree::checkPrefix", "^loadk"], unwind=22) for n in ("optimistic", "pessimistic", "compare") for pl in (0, 1, 2, 14, 15, 16, 17)]

UP = TR + [[r"ART_OLC_OptiQL::Tree::checkPrefix\(", "stub_prefix"], [r"ART_OLC_OptiQL::N::change\(", "stub_change"], [r"Tree::tryExpand", "stub_expand"], [r"ART_OLC_OptiQL::N::writeUnlock\(", "stub_unlock"], [r"N::upgradeToWriteLockOrRestart\(", "stub_upgrade"], [r"N::writeLockOrRestart\(", "stub_lock"]]
units += walks("update", WALKS + [(3, 2, o, 3, 1) for o in (0, 1)], replace=UP)
units += [dict(name="expand%d_%d_%d" % (kl, lv, h), entry="harness_expand", src="h3.cpp", defs=["EKL=%d" % kl, "LV=%d" % lv, "HOT=%d" % h], replace=[[r"uniform_random_generator::next", "stub_next"], [r"ART_OLC_OptiQL::N::change\(", "stub_change"]], ir_noinline=["uniform_random_generator::next|N::change\\(|N4::insert|Tree::tryExpand"], unwind=26, random=300) for kl, lvs in ((1, (0,)), (2, (0, 1)), (4, range(4)), (8, (0, 2, 5, 6, 7)), (20, (0, 1, 2, 3, 18, 19))) for lv in lvs for h in (1024, 1023)]
for u in units:
    if u["src"] == "h1.cpp": u.update(kind="bounded", bound="keys of 4 bytes (paths of up to 4 nodes), at most one interfering write per operation")
