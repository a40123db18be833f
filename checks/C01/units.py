prop = dict(
  title="MassTree: slot bookkeeping of a border node is always a permutation",
  statement="Allocating, removing, rotating or exchanging an entry in a MassTree border node keeps its packed slot order a permutation of all slots: the documented entry moves to the documented position, every other entry keeps its relative order, the entry count changes by exactly one (or not at all), and no slot is ever duplicated or lost.",
  quantifier=dict(over=["inputs", "configurations"], text="every packed order word, every legal position and size, every node width in use (15) and the narrower template widths 14, 6, 3"),
  why_tests_cant="There are 15! orders times 16 sizes times positions; the mttest workloads walk a minute fraction, and a wrong mask at one position only surfaces as a lost key much later.",
  anchors=dict(files=["MassTree/kpermuter.hh"], mechanism=[dict(name="mask-and-shift slot operations", where="MassTree/kpermuter.hh class kpermuter")],
               observe_at=["kpermuter<W> public operations"]))
level_note = "Complete proof over all words/indices for each listed width; trusts clang's front end, the IR-to-C translator and CBMC. The only precondition is the documented one."
level = "proof"
explanation = "kpermuter<W> operations against their documented slot semantics, for every packed word (no bound): W=15 (the shipped leaf width), 14, 6 and 3"
contracts = ["q[j] == p[m(j)] for the documented index map m of each operation; size nibble; every m is a bijection (lemma units)"]
defaults = dict(inc=["@/MassTree"], timeout=200, unwind=40, functions=["kpermuter<"])
units = [dict(name="%s_w%d" % (n, w), entry="harness_" + n, src="h.cpp", defs=["PW=%d" % w], tier="both" if w > 6 else "thorough")
         for w in (15, 14, 6, 3) for n in "make insert_from_back insert_selected remove remove_to_back rotate exchange exchange_values size lemma".split()]
