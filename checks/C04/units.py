prop = dict(
  title="MassTree: node operations keep exactly the stored keys, in order, reachable",
  statement="In MassTree, a leaf search reports exactly the stored keys. Inserting, updating or removing a key changes the stored value of that key and of no other. A split (of a leaf, and the separator insertion it causes in the parent) loses, duplicates or reorders nothing and leaves every key in the leaf that descent from the root, or from a stale root, or by moving right from a stale leaf, reaches for it. A get overlapped by an insert, remove or split of the leaf it is reading returns the right answer for that key, takes no lock, and a locked lookup reports the key's place in the state it locked. Leaf links stay consistent.",
  quantifier=dict(over=["inputs", "schedules"], text="every leaf/internode content (keys, permutation, values, versions), every key, every position; for lookups every torn search result a concurrent writer may cause before its version change shows"),
  why_tests_cant="The tests use integer keys in one pattern; a split that drops the middle key, a wrong position for one permutation, or a reader that accepts a torn search needs a particular leaf state or interleaving.",
  anchors=dict(files=["MassTree/masstree_struct.hh", "MassTree/masstree_insert.hh", "MassTree/masstree_remove.hh", "MassTree/masstree_split.hh", "MassTree/masstree_get.hh", "MassTree/masstree_tcursor.hh", "MassTree/ksearch.hh", "MassTree/btree_leaflink.hh"], mechanism=[dict(name="leaf search", where="ksearch.hh, masstree_struct.hh"), dict(name="split", where="masstree_split.hh"), dict(name="get / find_locked", where="masstree_get.hh, masstree_struct.hh"), dict(name="leaf links", where="btree_leaflink.hh")], observe_at=["basic_table::get, tcursor::find_insert/find_locked/finish"]))
level = "proof"
level_note = "Proved at the shipped widths (15 keys, 64-bit slices): the search in a leaf (quick tier: leaves of 0, 1, 2 and 15 keys; thorough: all), the separator search, the descent, the move right and the leaf links. Bounded: everything else, with the templates instantiated from /repo with leaf width 3-4, internode width 3 and 16-bit key slices (complete unwinding for those widths). Key suffixes, layer creation, removal of whole leaves and splits of a full parent are outside the contracts (their stubs are proved unreached)."
explanation = "leaf and internode operations under contract; find_locked, advance, link and separator search replaced at call sites by contracts proved in their own units"
contracts = ["lower/upper bound search", "find_insert + finish_insert/finish_update/finish_remove", "make_split / leaf::split_into / internode::split_into", "btree_leaflink::link_split/unlink", "reach_leaf / advance_to_key", "basic_table::get, tcursor::find_locked under torn searches"]
assumptions = ["bounded units use leaf_width 3-4, internode_width 3, 16-bit slices (the shipped 15/15/64 instantiate the same source)", "fences effective (sequential consistency)", "threadinfo allocation returns fresh memory"]
FL = r"^bool Masstree::tcursor<.*>::find_locked\(|tcursor<P>::find_locked"
NO = [[r"::assign_ksuf\(", "stub_no_ksuf"], [r"::make_new_layer\(", "stub_no_layer"], [r"internode<.*>::split_into\(", "stub_no_isplit"]]
RX = [[r"key_(upper|lower)_bound|key_find", 6],[r"::make\(|split_into|allocate|assign_init|assign\(", 8],[r"make_split", 2],[r"shift_(up|down|from)|emplace_back", 8],[r"locked_parent|make_new_layer|find_unlocked|reach_leaf|advance_to_key|stable|remove_leaf|redirect|assign_ksuf|link|finish", 2]]
RX3 = [["^harness|step_", 9], [r"advance_to_key|reach_leaf", 4]] + RX
defaults = dict(src="h.cpp", inc=["@/MassTree"], cflags=["-fno-access-control"], timeout=100, solver="cadical", unwind=8, ir_noinline=[r"::shift_(up|down|from)|emplace_back|::split_into|::link_split|::make\(|::assign_ksuf|make_new_layer|make_split|remove_leaf|key_upper_bound|key_lower_bound|key_find"], unwind_rx=RX)
NS = [[r"::make_split\(", "stub_no_split"]]
FIND1 = [dict(name="findl%d_%d_%d" % (i, pr, kn), entry="harness_find", src="h3.cpp", defs=["LOCKED=1", "VLW=3", "SI=%d" % i, "PR=%d" % pr, "KN=%d" % kn], unwind_rx=[["find_locked", 2]] + RX, replace=[[r"::reach_leaf\(", "stub_reach"], [r"::advance_to_key\(", "stub_advance"], [r"key_lower_bound_by<.*key_comparator<Masstree::key<.*>, Masstree::leaf", "stub_lower_l"]], ir_noinline=[r"::reach_leaf|::advance_to_key|key_lower_bound_by|remove_leaf|make_new_layer|make_split|find_locked|step_find"]) for i in range(3) for pr in (0, 1) if i + pr < 3 for kn in range(4)]
units = [dict(name="lower")] + [dict(name="remove%d" % n, entry="harness_remove", defs=["SN=%d" % n], replace=[[r"::remove_leaf\(", "stub_no_rm"]] if n > 1 else []) for n in range(1, 5)] + \
 [dict(name="insert%d" % n, entry="harness_insert", defs=["SN=%d" % n], replace=[[FL,"stub_find_locked"]]+NS+NO[:2]) for n in range(0, 4)] + \
 [dict(name="insertp%d" % n, entry="harness_insert", defs=["SN=%d" % n, "HASPREV"], replace=[[FL,"stub_find_locked"],[r"leaf<.*>::split_into\(", "stub_no_lsplit"]]+NO) for n in range(0, 4)] + \
 [dict(name="update%d" % n, entry="harness_update", defs=["SN=%d" % n], replace=[[FL,"stub_find_locked"]]+NS+NO[:2]) for n in range(1, 5)] + [
 dict(name="isplit", src="h2.cpp", defs=["LK=0"]),] + [dict(name="split%d_%d_%d" % (pn, lk, i), entry="harness_split", src="h2.cpp", defs=["VLW=3", "PN=%d" % pn, "SI=%d" % i, "LK=%d" % lk, "MOD=%d" % (lk & 1)],
   replace=[[FL,"stub_find_locked"],[r"::link_split\(.*leaf<P>\*, .*leaf<P>\*\)$","stub_link"]]+NO) for pn in (0, 1) for i in range(4) for lk in range(4) if pn or not lk & 1] + [dict(name="splitz_%d_%d" % (lk, i), entry="harness_split", src="h2.cpp", defs=["VLW=3", "NF=2", "PN=1", "SI=%d" % i, "LK=%d" % lk, "MOD=%d" % (lk >> 1)],
   replace=[[FL,"stub_find_locked"],[r"::link_split\(.*leaf<P>\*, .*leaf<P>\*\)$","stub_link"]]+NO) for i in range(3) for lk in (1, 3)] + [*[dict(name="reach%d_%d" % (n, t), entry="harness_reach", src="h3.cpp", defs=["RN=%d" % n, "RS=%d" % t], unwind_rx=[["^harness|step_", 9], ["reach_leaf", 3]]+RX, ir_noinline=["key_upper_bound_by", "reach_leaf"], replace=[["key_upper_bound_by", "stub_upper"]]) for n in range(0) for t in (0, 1)]] + \
 [dict(name="find%d" % lk, entry="harness_find", src="h3.cpp", defs=["LOCKED=%d" % lk, "VLW=3"], replace=[[r"::reach_leaf\(", "stub_reach"], [r"::advance_to_key\(", "stub_advance"], [r"key_lower_bound_by<.*" + ("tcursor" if not lk else "key_comparator<Masstree::key<.*>, Masstree::leaf"), "stub_lower_" + "ul"[lk]]], ir_noinline=[r"::reach_leaf|::advance_to_key|key_lower_bound_by|remove_leaf|make_new_layer|make_split"]) for lk in (0,)] + FIND1
# everything above runs at reduced widths; the functions below at the shipped ones (15 keys per node, 64-bit slices)
for u in units: u.update(kind="bounded", bound="leaf width 3 or 4, internode width 3, 16-bit slices instead of 15, 15, 64")
FW = ["VLW=15", "VIW=15", "IKT=uint64_t"]
RXF = [["^harness|step_|bound|anykey|canon|bytes|make_comparable", 18], [r"advance_to_key|reach_leaf", 4]] + RX
units += [dict(name="upper%d" % n, entry="harness_upper", src="h3.cpp", defs=FW + ["UN=%d" % n], unwind_rx=RXF, unwind=18) for n in range(4)]
units += [dict(name="upper%d_%d" % (n, k), entry="harness_upper", src="h3.cpp", defs=FW + ["UN=%d" % n, "UK=%d" % k], unwind_rx=RXF, unwind=18, random=20000) for n in range(4, 16) for k in range(n + 1)]
units += [dict(name=n, src="h3.cpp", defs=FW, unwind_rx=RXF, unwind=18) for n in ("link", "advance")]
units += [dict(name="reach%d_%d" % (n, t), entry="harness_reach", src="h3.cpp", defs=FW + ["RN=%d" % n, "RS=%d" % t], unwind=18, unwind_rx=[["^harness|step_|anykey|canon|bytes|make_comparable", 18], ["reach_leaf", 10]]+RX, ir_noinline=["key_upper_bound_by", "reach_leaf"], replace=[["key_upper_bound_by", "stub_upper"]]) for n in range(16) for t in (0, 1)]
RXL = [[r"key_(upper|lower)_bound|key_find", 6],[r"^harness|lower1|part|anyleaf|step|canon|leafinv|nd_perm|bytes|eq|cnt|val|cases|make_comparable", 18]]+RX
units += [dict(name="flower%d_%d" % (n, i), entry="harness_lower", defs=FW + ["SN=%d" % n, "UI=%d" % i], unwind_rx=RXL, unwind=18, timeout=100, random=20000, tier="both" if n in (0, 1, 2, 15) else "thorough") for n in range(16) for i in range(n + 1)]

for u in units:
    if u["name"].startswith("split1_") and u["name"] not in ("split1_0_0", "split1_1_2", "split1_2_3", "split1_3_1"): u["tier"] = "thorough"
