hooks = dict(guard="VP_PAGE_SIZE, VP_WH_KPN", enable="checks compile BTreeOLC/*.h with -DVP_PAGE_SIZE=<bytes> (undefined: 4096) and wormhole/wh.c with -DVP_WH_KPN=<slots> (undefined: 128)", source_commits=["5f739c2", "a952e2a"])
na = []
def P(title, statement, over, text, why, files, mech):
    return dict(title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
na.append(dict(id="C30", prop=P("Concurrent histories of every index are linearizable",
  "For any interleaving of lookups, inserts, updates, removes and scans issued by any number of threads, every index returns results that some sequential order of the operations, consistent with real time, would return.",
  ["schedules", "histories"], "all interleavings of all operation histories, on the C++/x86 memory models",
  "The examples run a few sequential or lightly threaded workloads; a schedule that interleaves a reader between two writer steps is practically never hit.",
  ["ARTOLC/Tree.cpp", "BTreeOLC/BTreeOLC.h", "BLinkTree", "MassTree", "OptiQL", "wormhole/wh.c", "HOT"],
  [("optimistic lock coupling / version validation", "lock, unlock and check-or-restart call sites")]),
  reason="whole-history linearizability under arbitrary schedules is not expressible as function contracts for the installed deductive back ends (CBMC/IR contracts are per-call, sequentially consistent, with rely steps only at single atomic accesses); the per-word lock protocols and the sequential contracts it rests on are claimed separately"))
na.append(dict(id="C31", prop=P("Operations of every index terminate",
  "Every operation on every index completes in a finite number of steps once competing operations stop interfering; no restart loop, lock acquisition or wait can spin forever.",
  ["schedules", "histories"], "all schedules in which interference eventually stops",
  "A hang in a rare schedule never shows up in short example runs.",
  ["ARTOLC/Tree.cpp", "BTreeOLC/BTreeOLC.h", "MassTree", "wormhole/wh.c"], [("restart loops", "operation entry points")]),
  reason="liveness: partial-correctness contracts do not express it, and CBMC offers no termination argument for loops whose exit depends on other threads"))
na.append(dict(id="C32", prop=P("Reclaimed nodes are never accessed",
  "No thread ever reads or writes a node or record after the memory-reclamation scheme has freed it, and every removed node is eventually freed.",
  ["schedules", "histories"], "all schedules and all histories of removals",
  "Use-after-free through epochs needs a reader stalled across two epoch changes; no test does that.",
  ["ARTOLC/Epoche.cpp", "MassTree/kvthread.hh", "wormhole/lib.c", "HOT"], [("epochs / QSBR", "enter/exit epoch and garbage lists")]),
  reason="the guarantee quantifies over thread histories (which threads are inside which epoch at every free); it needs a whole-program ownership/permission logic for C++ (e.g. a concurrent separation logic verifier), none of which is installed for C/C++"))
