prop = dict(
  title="ARTOLC, BTreeOLC, OptiQL: node locks admit one writer, fail overlapped readers",
  statement="In ARTOLC, BTreeOLC and OptiQL a node's lock is granted to a writer only on a free node that is not obsolete and, when upgrading, only if its word is still exactly the version the writer read; while it is held no other writer gets it and no read lock is granted. Every write section makes each reader that started before it fail validation, and each unlock makes a version the node never had, keeps the node's type and marks the node obsolete exactly when asked to; an attempt that has to restart leaves no lock behind. In OptiQL's queue lock a release either frees the lock with its next version or hands it to exactly the successor queued behind it, and a queued writer enters only when handed over to.",
  quantifier=dict(over=["inputs", "schedules"], text="every lock word and version, every interference by other threads on the word, the queue node and the obsolete mark between the individual memory accesses of one operation"),
  why_tests_cant="The examples run few threads briefly and check only that keys are found; a lock granted to two writers or a stale version that validates needs interference between two particular instructions.",
  anchors=dict(files=["ARTOLC/N.cpp", "ARTOLC/N.h", "BTreeOLC/BTreeOLC.h", "BTreeOLC/BTreeOLC_child_layout.h", "OptiQL/latches/OMCSImpl.h", "OptiQL/latches/OMCS.h", "OptiQL/N.h"], mechanism=[dict(name="readLock/upgrade/check/unlock", where="ARTOLC/N.cpp, BTreeOLC struct OptLock"), dict(name="OMCSLock lock, try_lock, unlock, begin_read, validate_read", where="OptiQL/latches/OMCSImpl.h"), dict(name="N::*OrRestart, writeUnlock", where="OptiQL/N.h")], observe_at=["N, OptLock, OMCSLock lock methods"]))
level = "proof"
level_note = "Per-operation contracts over all words, with arbitrary rely steps of other threads before each atomic access; retry and waiting loops are cut inductively (every iteration starts from an arbitrary reachable word). Sequential consistency is assumed; version wrap (2^58 sections) is outside. OptiQL as built here: queue-node locks, no offsets, no opportunistic read."
explanation = "lock words of ARTOLC, BTreeOLC (both layouts) and OptiQL's queue lock, under interference"
contracts = ["readLockOrRestart, upgradeToWriteLockOrRestart, writeLockOrRestart, writeUnlock, writeUnlockObsolete, checkOrRestart, readUnlockOrRestart (ARTOLC, BTreeOLC, OptiQL)", "omcs_impl::OMCSLock lock, lock_begin, try_lock, unlock (with and without queue node), try_begin_read, begin_read, validate_read, get/make_qnode_ptr", "OptiQL N::setObsolete, isObsolete"]
assumptions = ["sequential consistency", "versions stay below 2^58 (ARTOLC, BTreeOLC) and 2^62 (OptiQL)", "other threads keep the queue protocol: only a waiter's predecessor grants it, a successor links itself after swapping itself in"]
defaults = dict(src="h.cpp", cflags=["-fno-access-control"], timeout=120, unwind=5, native_libs=["-ltbb"])
units = [dict(name="%s_%s" % (n, f), entry="harness_" + n, inc=["@/" + d], defs=["FL=%d" % k]) for k, f, d in ((0, "artolc", "ARTOLC"), (1, "btree", "BTreeOLC"), (2, "btreecl", "BTreeOLC")) for n in ("read", "upgrade", "wlock", "release", "check", "overlap")]
units += [dict(name=n, entry="harness_" + n, src="h2.cpp", inc=["@/OptiQL"], cflags=["-fno-access-control", "-DOMCS_LOCK", "-DIS_CONTEXTFUL"] , **(dict(defs=["IR_STUBS=1"], replace=[[r"OMCSLock::get_qnode_ptr\(", "stub_ptr"]], ir_noinline=["::get_qnode_ptr"]) if n != "ptr" else {})) for n in ("qlock", "qtry", "qunlock", "plock", "qread", "ptr", "nlock", "nread", "noverlap")]
