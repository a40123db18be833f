prop = dict(
  title="Wormhole: every stored key stays findable and in order through every change",
  statement="In a wormhole leaf, looking a key up by hash finds it exactly when it is stored; inserting or removing a key shifts other entries without losing, duplicating or hiding one, and the index in key order follows every shift. Puts, merges, gets, in-place accesses and removals change exactly the key they name, report success truly, free exactly the replaced pair, and release every lock. A full leaf is split between two keys that the new, shortest anchor tells apart, every key and the new one go to the right half in order, and a failed split is undone; two leaves are merged only when their keys fit. The trie over the anchors (children, smallest and largest child, first, last and left leaf of every prefix) stays exact through splits and merges, and the longest stored prefix of a key leads to the leaf whose range holds it; an operation only accepts a locked leaf that no newer map has split or merged. The two maps are switched so that each is changed only while no reader uses it. A scan visits every stored key from its start on once, in order, holding one leaf.",
  quantifier=dict(over=["inputs", "schedules", "histories"], text="leaves: every content (128 slots for the index arithmetic, 16 for the hash slots); trie nodes: every child set; keys up to 20 bytes for the prefix search; operations: every outcome of the steps below them; anchor histories: 18 sequences of splits and merges"),
  why_tests_cant="The stress test checks stored keys of one key set at the configured sizes; collisions that shift entries in both directions, cuts at the edge of a leaf, false positives in the prefix filter and failed allocations hardly occur in it.",
  anchors=dict(files=["wormhole/wh.c"], mechanism=[dict(name="wormleaf_*", where="wh.c leaf-read, leaf-write, leaf-split, leaf-merge"), dict(name="wormmeta_bm_*, wormmeta_split, wormmeta_merge", where="wh.c meta"), dict(name="wormhole_meta_lcp, wormhole_meta_down, wormhole_jump_leaf_*", where="wh.c jump")], observe_at=["wormhole_put, get, probe, del, merge, inp*, iter_*", "whunsafe_*"]))
level = "proof"
level_note = "Proof for every input: index arithmetic (shift, index search, binary search), insertion and removal bookkeeping, child bitmaps, choice of the leaf below a trie node, the operations and map switching around a leaf. Bounded: hash slots (16 instead of 128, hook VP_WH_KPN), cut choice and key moves (16 slots), merge sort (4+4 keys), prefix search (keys up to 20 bytes), trie histories (8 anchors), scans (3 leaves), locking attempts (3)."
explanation = "wh.c compiled for verification; leaf, trie-node and operation contracts discharged function by function; trie and scans on small instances"
contracts = ["wormleaf_insert_hs, pull_ih, match_hs, search_ih (bounded: 16 slots)", "wormleaf_shift_inc, shift_dec, search_is, search_ss, seek, seek_end, kv_at_is1", "wormleaf_insert_e13, insert, remove, remove_ih, remove_is, sync_sorted", "wormhole_split_cut_search1, cut_alen_check, split_leaf_move1, wormleaf_merge, sort_m2 (bounded)", "wormmeta_bm_set, test, gt, lt, clear, set_helper, clear_helper", "wormhole_meta_down; wormhole_meta_lcp (bounded)", "wormhole_put, merge, get, probe, inpr, inpw, del, del_try_merge, meta_leaf_merge, meta_merge, split_meta, split_insert, split_leaf, split_undo, whunsafe_put, merge, get, probe, inp, del, del_try_merge", "wormmeta_split, wormmeta_merge (bounded histories)", "wormhole_iter_seek, next, skip, peek, park; whunsafe_iter_* (bounded)"]
assumptions = ["kv_compare, kref_kv_compare, kref_kv_match, crc32c_* and kv_* helpers (kv.c, lib.c) meet their contracts", "rwlock, qsbr and slab allocator (lib.c) meet their contracts", "the hash table of trie nodes (wormhmap_get/set/del/replace/peek) is an exact map with false positives in peek only", "wormmeta_lmost_store keeps the pointer bits (pointer packing)", "memmove and qsort_r of libc", "range deletion (delr) is not covered"]
defaults = dict(inc=["@/wormhole"], cflags=["-D_GNU_SOURCE"], native_libs=["-lnuma", "-lm"], sanitize=False, random=2000, timeout=200, solver="cadical", unwind=34)
units = []
def U(n, src, kpn, **k): return dict(name=k.pop("name", n), entry="harness_" + n, src=src, defs=["VP_WH_KPN=%du" % kpn] + k.pop("defs", []), unwind=k.pop("unwind", kpn + 2), **k)
SH = [[r"^wormleaf_shift_inc$", "stub_shift_inc"], [r"^wormleaf_shift_dec$", "stub_shift_dec"]]
B16 = dict(kind="bounded", bound="leaves of 16 slots instead of 128")
units += [U(n, "h1.c", 16, replace=SH, **B16) for n in ("inserths", "pull")] + [U("inserths0", "h1.c", 16, replace=SH, **B16)]
units += [U("match", "h1.c", 16, replace=[[r"^wormhole_kref_kv_match$", "stub_match"]], **B16), U("searchih", "h1.c", 16, **B16)]
units += [U("shift", "h1.c", 128, name="shift_" + n, defs=["MOVESTUB", "INC=%d" % i]) for i, n in ((0, "dec"), (1, "inc"))] + [U("searchis", "h1.c", 128)]
def R(*p): return dict(replace=[["^%s$" % a, b] for a, b in p], ir_noinline=[a for a, b in p])
KV = ("wormleaf_kv_at_is", "stub_kvatis")
units += [U("searchss", "h2.c", 128, **R(KV)), U("kvatis1", "h2.c", 128, **R(KV)),
  U("seek", "h2.c", 128, **R(("wormleaf_match_hs", "stub_matchhs"), ("wormleaf_search_is", "stub_searchis"), ("wormleaf_search_ss", "stub_searchss"))),
  U("seekend", "h2.c", 128, **R(KV, ("wormleaf_seek", "stub_seek"))),
  U("cut", "h2.c", 16, **B16, **R(("wormleaf_kv_at_is1", "stub_kvatis1"), ("wormhole_split_cut_alen_check", "stub_alen"))),
  U("alen", "h2.c", 128, kind="bounded", bound="keys of at most 8 bytes"),
  U("inserte", "h2.c", 128, **R(("wormleaf_insert_hs", "stub_inserths"))),
  U("insert", "h2.c", 128, **R(("wormleaf_insert_e13", "stub_inserte"), ("wormleaf_kv_at_is", "stub_kvatis2"))),
  U("remove", "h2.c", 128, **R(("wormleaf_pull_ih", "stub_pull"))), U("remove", "h2.c", 128, name="removeis", defs=["VIASS"], **R(("wormleaf_pull_ih", "stub_pull"))),
  U("rmih", "h2.c", 128, **R(("wormleaf_remove", "stub_remove"), ("wormleaf_search_is", "stub_searchis2"))),
  U("sync", "h2.c", 128, **R(("wormleaf_sort_range", "stub_sortrange"), ("wormleaf_sort_m2", "stub_sortm2"))),
  U("bmset", "h2.c", 128, unwind=258), U("bmtest", "h2.c", 128), U("bmgl", "h2.c", 128),
  U("bmclear", "h2.c", 128, unwind=258, **R(("wormmeta_bm_gt", "stub_gt"), ("wormmeta_bm_lt", "stub_lt"))),
  U("sethelper", "h2.c", 128, **R(("wormmeta_expand", "stub_expand"), ("wormmeta_bm_set", "stub_bmset"))),
  U("clearhelper", "h2.c", 128, **R(("wormmeta_bm_clear", "stub_bmclear"), ("wormmeta_shrink", "stub_shrink"))),
  U("down", "h2.c", 128, **R(("wormhmap_get_kref1", "stub_kref1"), ("wormmeta_bm_lt", "stub_lt2")))]
IE = R(("wormleaf_insert_e13", "stub_inserte2"))
units += [U("move1", "h2.c", 16, name="move1_%d_%d" % (nk, i), defs=["NK=%d" % nk, "IS1=%d" % i], **IE, **B16) for nk in (5, 16) for i in (0, 1, 3, nk)]
units += [U("merge", "h2.c", 16, name="merge_%d" % nk, defs=["NK=%d" % nk], **IE, **B16) for nk in (0, 1, 5, 8)]
units += [U("sort", "h2.c", 16, name="sort_%d_%d" % (a, b), defs=["N1=%d" % a, "N2=%d" % b], kind="bounded", bound="at most 4 keys merged with 4", **R(("wormleaf_kv_at_ih", "stub_kvatih"))) for a in range(5) for b in range(5) if a + b]
units += [U("lcp", "h2.c", 128, name="lcp_%d" % n, defs=["LEN=%d" % n], kind="bounded", bound="keys of 1..20 bytes", unwind=24, **R(("wormhmap_peek", "stub_peek"), ("wormhmap_get_kref", "stub_get"), ("wormmeta_bm_test", "stub_bmtest"))) for n in (1, 2, 5, 8, 20)]
LK = [("wormleaf_unlock_write", "stub_unlockw"), ("wormleaf_unlock_read", "stub_unlockr"), ("wormleaf_lock_write", "stub_lockw"), ("wormleaf_lock_read", "stub_lockr")]
OPS = LK + [("wormhole_jump_leaf_write", "stub_jumpw"), ("wormhole_jump_leaf_read", "stub_jumpr"), ("wormhole_jump_leaf", "stub_jump"), ("wormleaf_match_hs", "stub_match_"), ("wormleaf_update", "stub_update"), ("wormleaf_insert", "stub_insert"), ("wormhole_split_insert", "stub_split"), ("whunsafe_split_insert", "stub_usplit"), ("wormleaf_kv_at_ih", "stub_kvih"), ("wormleaf_remove_ih", "stub_rm"), ("wormhole_del_try_merge", "stub_trymerge"), ("whunsafe_del_try_merge", "stub_utrymerge")]
for uns in (0, 1):
    S = "u" if uns else ""; DU = ["UNSAFE"] if uns else []
    units += [U(n, "h3.c", 128, name=n + S, defs=list(DU), **R(*OPS)) for n in ("put", "merge", "get", "inp", "del")]
    units += [U("trymerge", "h3.c", 128, name="trymerge" + S, defs=list(DU), **R(*(LK + [("wormhole_meta_leaf_merge", "stub_lmerge"), ("whunsafe_meta_leaf_merge", "stub_umerge")])))]
    units += [U("iter", "h3.c", 128, name="iter%s_%d_%x_%d_%d" % (S, op, nks, jl, sk), defs=DU + ["OP=%d" % op, "NKS=%d" % nks, "JL=%d" % jl, "SK=%d" % sk], kind="bounded", bound="three leaves of at most 3 keys", unwind=30, **R(*[("wormleaf_unlock_read", "stub_unlockr3"), ("wormleaf_lock_read", "stub_lockr3"), ("wormhole_jump_leaf_read", "stub_jr3"), ("wormhole_jump_leaf", "stub_j3"), ("wormhole_iter_leaf_sync_sorted", "stub_sync3"), ("wormleaf_seek", "stub_seek3"), ("wormleaf_kv_at_is", "stub_kvis3")])) for op in range(5 if not uns else 4) for nks, jl, sk in ((0x232, 0, 0), (0x232, 1, 1), (0x232, 0, 2), (0x202, 0, 1), (0x202, 0, 2), (0x102, 1, 0), (0x23, 1, 2), (0x300, 0, 0), (0, 0, 0))]
units += [U("jump", "h3.c", 128, kind="bounded", bound="at most 3 attempts to lock", unwind=6, **R(("wormleaf_unlock_write", "stub_unlockw"), ("wormleaf_unlock_read", "stub_unlockr"), ("wormhmap_load", "stub_hload"), ("wormhmap_version_load", "stub_hver"), ("wormhole_jump_leaf", "stub_jump2"), ("wormleaf_version_load", "stub_lver"), ("wormhole_qsbr_update_pause", "stub_qsbr")))]
units += [U("leafmerge", "h3.c", 128, **R(*(LK + [("wormleaf_merge", "stub_wlmerge"), ("wormhole_meta_merge", "stub_metamerge")])))]
SW = LK + [("wormhmap_load", "stub_hload2"), ("wormhmap_lock", "stub_hlock"), ("wormhmap_unlock", "stub_hunlock"), ("wormhmap_switch", "stub_hswitch"), ("wormhmap_version_load", "stub_hver2"), ("wormleaf_version_store", "stub_lvstore"), ("wormhmap_version_store", "stub_hvstore"), ("wormmeta_merge", "stub_wmerge"), ("wormmeta_split", "stub_wsplit"), ("wormhmap_store", "stub_hstore"), ("wormleaf_free", "stub_lfree"), ("wormhole_alloc_mkey", "stub_allocm"), ("wormhole_free_mkey", "stub_freem"), ("wormhole_slab_reserve", "stub_slab")]
units += [U("metamerge", "h3.c", 128, **R(*SW)), U("splitmeta", "h3.c", 128, **R(*SW)),
  U("splitinsert", "h3.c", 128, **R(*(LK + [("wormhole_split_leaf", "stub_spleaf"), ("wormhole_split_meta", "stub_spmeta"), ("wormleaf_split_undo", "stub_undo")]))),
  U("splitleaf", "h3.c", 128, **R(("wormleaf_sync_sorted", "stub_syncs"), ("wormleaf_search_ss", "stub_sss"), ("wormhole_split_cut_search1", "stub_cut1"), ("wormleaf_kv_at_is1", "stub_kvis1"), ("wormhole_split_alloc_anchor", "stub_anchor"), ("wormleaf_alloc", "stub_lalloc"), ("wormhole_free_akey", "stub_freea"), ("wormhole_split_leaf_move1", "stub_mv1"))),
  U("undo", "h3.c", 128, **R(("wormleaf_search_ih", "stub_sih"), ("wormleaf_remove_ih", "stub_rmih"), ("wormleaf_merge", "stub_lmg"), ("wormleaf_free", "stub_lf2")))]
H0 = ["1,2,3,4,5,6,7", "7,6,5,4,3,2,1", "4,1,6,5,2,7,3", "1,2,-2", "1,4,-1", "3,6,-3", "1,2,-1", "4,5,2,-5", "3,5,7,-7,-5", "2,4,-4,-2", "4,6,1,-4"]
H1 = ["1,2,5", "3,6,-3", "5,1,-1", "4,7,6", "5,3,1", "4,7,-7"]
units += [U("trie", "h4.c", 128, name="trie%d_%s" % (st, hh.replace(",", "_").replace("-", "d")), defs=["TRIE", "SET=%d" % st, "HIST=" + hh], kind="bounded", bound="8 anchors, histories of up to 7 splits or 5 splits and merges", unwind=300, fs=1600, **R(("wormmeta_lmost_store", "stub_lmstore"), ("wormhmap_get", "stub_hget"), ("wormhmap_set", "stub_hset"), ("wormhmap_del", "stub_hdel"), ("wormhmap_replace", "stub_hrep"), ("wormhole_free_mkey", "stub_freemk"))) for st, hs in ((0, H0), (1, H1)) for hh in hs]
