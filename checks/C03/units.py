prop = dict(
  title="MassTree: optimistic readers never validate across a node modification",
  statement="In MassTree, a reader that took a node's version before a modification began fails validation from the moment the modification is announced and, until a counter wraps after hundreds of thousands of modifications, for ever after it ends; a version handed to a reader never belongs to a node in mid-modification. Splits and deletions are additionally recognised as such. Locking succeeds only on an unlocked word, excludes every other locker, and by itself disturbs no reader and no other information kept in the word.",
  quantifier=dict(over=["inputs", "schedules"], text="every version word, every combination of modification marks, every interference by other threads on the word between the individual memory accesses of one lock/validate operation"),
  why_tests_cant="The tests run a handful of threads for a few seconds; a version that wrongly validates needs a reader to straddle a writer at one instruction, or a counter at a carry boundary.",
  anchors=dict(files=["MassTree/nodeversion.hh"], mechanism=[dict(name="lock/mark/unlock and stable/has_changed/has_split", where="nodeversion.hh class nodeversion")], observe_at=["nodeversion<P> public methods"]))
level = "proof"
level_note = "Per-operation contracts over all words, with arbitrary rely steps of other threads before each atomic access and in each spin; the spin loops are cut with an inductive word invariant. Memory ordering (fences) is not modelled: sequential consistency is assumed. Counter wrap after 2^25/64 (32-bit) modifications is outside the statement."
explanation = "version-word protocol: stable/lock/try_lock under interference, critical sections, flag frames, exactness of validation"
contracts = ["stable() result is clean", "lock()/try_lock(): single write, from unlocked", "has_changed after any marked section", "counter advance in [1, split step]"]
assumptions = ["compiler/CPU fences are effective (sequential consistency)"]
defaults = dict(src="h.cpp", inc=["@/MassTree"], timeout=120, unwind=5, functions=["nodeversion<"])
units = [dict(name="%s_%d" % (n, w), entry="harness_" + n, defs=["VT=%d" % w]) for w in (32, 64) for n in ("stable", "lock", "try_lock", "section", "plain", "pairs")]
