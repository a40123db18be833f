prop = dict(
  title="MassTree: slice-by-slice key order is byte-string order and keys reassemble",
  statement="Cutting a byte-string key into fixed-size slices preserves everything the tree relies on: slices and lengths compare exactly as the byte strings compare lexicographically, every slice holds exactly the key's own bytes, moving to the next slice and back is lossless, and unparsing returns the original bytes. No conversion depends on, or writes to, bytes outside the ones it is documented to touch.",
  quantifier=dict(over=["inputs"], text="all byte contents (including NULs and bytes over 127), all lengths around each slice boundary (0..24 for keys, 0..S+4 for slices), all three slice widths"),
  why_tests_cant="mttest uses decimal keys of a few lengths; ordering errors need particular byte values (NUL, >= 0x80) at particular boundary lengths.",
  anchors=dict(files=["MassTree/string_slice.hh", "MassTree/masstree_key.hh"], mechanism=[dict(name="slice construction and comparison", where="string_slice.hh"), dict(name="key shift/unshift/compare/unparse", where="masstree_key.hh")],
               observe_at=["Masstree::key<uint64_t>", "string_slice<T>"]))
level_note = "Every byte content symbolic, every length up to three slices enumerated; longer keys repeat the per-slice step proved here. Little-endian build configuration of /repo (config.h)."
level = "proof"
explanation = "slice and key operations against bytewise specifications"
contracts = ["make_comparable(s,len) == big-endian value of zero-padded prefix", "key::compare == lexicographic order up to one slice", "shift/unshift/unparse inverse laws"]
defaults = dict(src="h.cpp", inc=["@/MassTree"], timeout=200, unwind=70, fs=128)
units = [dict(name="%s_%s" % (n, t), entry="harness_" + n, defs=["ST=uint%s_t" % t], functions=["string_slice"]) for t in ("64", "32", "16") for n in ("make", "sloppy", "order", "equals")]
units += [dict(name="key_" + n, entry="harness_" + n, functions=["Masstree::key<"]) for n in ("key", "shift_by", "compare", "ctor", "store", "increment")]
