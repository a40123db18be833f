prop = dict(
  title="ARTOLC: lookups, inserts and removes find the right place on every path",
  statement="In ARTOLC a lookup returns a key's value exactly when the key is stored, also when compressed paths were only compared optimistically; an insert adds or replaces that key only, splitting a compressed path or a leaf without changing what any other key leads to; a remove deletes that key only, and folds a node left with one child into its parent with the joined path. Each holds whatever nodes the path visits, and also when a writer changes a node between the moment the walk reads its version and the moment it reads its content: the walk restarts and nothing is changed on the strength of a stale read. No lock is left behind.",
  quantifier=dict(over=["inputs", "schedules"], text="every path the key length allows, every split of it into compressed prefixes and branch bytes, every outcome at its end, one interfering writer at any node of the path and either read"),
  why_tests_cant="The example inserts dense integers: no optimistic matches, no path splits in the middle, no folding of inner nodes, and no writer timed between two reads of one step.",
  anchors=dict(files=["ARTOLC/Tree.cpp"], mechanism=[dict(name="Tree::lookup/insert/remove", where="Tree.cpp"), dict(name="checkPrefix, checkPrefixPessimistic, checkPrefixCompare", where="Tree.cpp")], observe_at=["Tree::lookup, Tree::insert, Tree::remove"]))
level = "proof"
level_note = "The walks are bounded: key length 4 (all depths 0-3, every split into compressed paths); the rest is proved per unit (path comparison functions for key length 16, prefixes up to 13). Node access goes through the contracts proved in C05. At most one interfering write per operation; range scans are not covered (see DESIGN.md)."
explanation = "the walks of Tree.cpp against contracts of node access and prefix comparison"
contracts = ["Tree::lookup, checkKey", "Tree::insert", "Tree::remove", "checkPrefix / Pessimistic / Compare"]
assumptions = ["node operations and version words as contracted in C05", "keys have length 4 and a leaf's key agrees with the path that leads to it", "epoch entry/exit have no effect on the tree", "real objects have addresses below 2^63"]
TR = [[r"N::isLeaf\(", "stub_isleaf"], [r"ART::Epoche::enterEpoche", "stub_enter"], [r"ART::Epoche::exitEpocheAndCleanup", "stub_exit"], [r"ART_OLC::N::getChild\(", "stub_child"], [r"ART_OLC::yield", "stub_yield"]]
defaults = dict(inc=["@/ARTOLC"], cflags=["-fno-access-control"], timeout=200, solver="cadical", unwind=13, native_libs=["-ltbb"])
NI = [r"N::isLeaf\(|N::change\(|insertAndUnlock|removeAndUnlock|markNode|addPrefixBefore|getSecondChild|N4::insert|N::getChild\(|Tree::checkPrefix|enterEpoche|exitEpoche|ART_OLC::yield|Tree::lookup|memcmp|bcmp"]
def walk(op, d, f, o, t, st, ex=[], sfx='', **kw): return dict(name="%s%d_%d%d%s" % (op, d, f, o, "" if t < 0 else "_%d%d" % (t, st)) + sfx, entry="harness_" + op, src="h1.cpp", defs=[op.upper(), "DEP=%d" % d, "FIN=%d" % f, "OPT=%d" % o, "TEAR=%d" % t, "SITE=%d" % st] + ex, ir_noinline=NI, unwind_rx=[["Tree::(lookup|remove|insert)", max(6 if op == 'insert' else 0, d + 2 if t < 0 else d + t + 3)]], **kw)
WALKS = [(d, f, o, -1, 0) for d in range(4) for f in range(3) for o in (0, 1)] + [(d, 2, 0, t, s) for d in range(3) for t in range(d + 1) for s in (0, 1) if t or s]
def paths(d): return [p for p in __import__("itertools").product((0,), *[range(4 - d)] * d) if sum(p) + d < 4]
def walks(op, ws, ex=[], sfx="", **kw): return [walk(op, *w, ex=ex + ["PL=" + ",".join(map(str, p)), "TORNRES=%d" % r], sfx="_p" + "".join(map(str, p[1:])) + sfx + ("r%d" % r if r else ""), **kw) for w in ws for p in paths(w[0]) for r in range(2 if w[3] >= 0 and w[4] == 0 else 1) if not (w[1] == 0 and p[-1] == 0) and not (w[2] and not sum(p))]
units = walks("lookup", WALKS, replace=TR + [[r"ART_OLC::Tree::checkPrefix\(", "stub_prefix"]])

RM = TR + [[r"ART_OLC::Tree::checkPrefix\(", "stub_prefix"], [r"ART_OLC::N::change\(", "stub_change"], [r"N::removeAndUnlock", "stub_remove"], [r"markNodeForDeletion", "stub_mark"], [r"N::addPrefixBefore", "stub_addprefix"], [r"N::getSecondChild", "stub_second"]]
IN = TR + [[r"ART_OLC::Tree::checkPrefixPessimistic", "stub_pess"], [r"ART_OLC::N::change\(", "stub_change"], [r"N::insertAndUnlock", "stub_insert"], [r"markNodeForDeletion", "stub_mark"]]
for c, s in ((2, 0), (2, 1), (3, 0)): units += walks("remove", [w for w in WALKS if not (w[1] < 2 and c + s != 2) and not w[2]], ex=["COUNT=%d" % c, "SIB=%d" % s], sfx="_c%d%d" % (c, s), replace=RM)
units += walks("insert", [w for w in WALKS if not w[2]], replace=IN)
units += [dict(name="%s%d" % (n, pl), entry="harness_" + n, src="h2.cpp", defs=["PLEN=%d" % pl], replace=[[r"N::getAnyChildTid", "stub_anytid"]], ir_noinline=["getAnyChildTid", "Tree::checkPrefix", "^loadk"], unwind=18) for n in ("optimistic", "pessimistic", "compare") for pl in (0, 1, 2, 10, 11, 12, 13)]
for u in units:
    if u["src"] == "h1.cpp": u.update(kind="bounded", bound="keys of 4 bytes (paths of up to 4 nodes), at most one interfering write per operation")
