#include "bt.hpp"
#ifndef SN
#define SN 2
#endif
extern "C" void harness_leaf() {   /* search, insert, upsert */
  int i = vp_nd_u8(); bool here = vp_nd_u8() & 1;
#ifdef VP_NATIVE
  i %= SN + 1;
#endif
  REQUIRES(i + here <= SN);
  for (int c = 0; c <= SN; c++) if (c == i) { Leaf l; fill(l, SN); K k = vp_nd_u32(), g = vp_nd_u32(); V v = vp_nd_u64();
#ifdef VP_NATIVE
    if (!vp_replaying()) { k = here ? key(l, c) : c < SN ? (c ? key(l, c - 1) + 1 : 0) : key(l, SN - (SN > 0)) + 1; g &= 127; }
#endif
    NEEDS(part(l, SN, k, c, here) && sorted(l)) int oc = cnt(l, g); V ov = look(l, g);
    if (SN) ENSURES((int)l.lowerBound(k) == c, "leaf search returns the number of smaller keys"); else ENSURES(!(l.lowerBound(k) < l.count), "leaf search in an empty leaf finds nothing"); 
    ENSURES(l.isFull() == (SN == LM), "isFull iff no entry is free");
    if (SN < LM || here) { 
#if SN < 5
      l.insert(k, v); ENSURES(cnt(l, k) == 1 && look(l, k) == v, "an inserted key is present once with its value"); if (g != k) ENSURES(cnt(l, g) == oc && look(l, g) == ov, "insert changes no other key"); ENSURES(sorted(l) && l.count == SN + !here, "insert keeps the leaf ordered and counted");
#endif
    }
    vp_cover("leaf"); return; }
}
extern "C" void harness_inner() {   /* separator search and insertion */
  int i = vp_nd_u8(); bool here = vp_nd_u8() & 1;
#ifdef VP_NATIVE
  i %= SN + 1;
#endif
  REQUIRES(i + here <= SN);
  for (int c = 0; c <= SN; c++) if (c == i) { Inner l; fill(l, SN); K k = vp_nd_u32(); NodeBase *nw = (NodeBase *)vp_nd_u64(); 
#ifdef VP_NATIVE
    if (!vp_replaying()) k = here ? l.keys[c] : c ? l.keys[c - 1] + 1 : 0;
#endif
    NEEDS(part(l, SN, k, c, here) && sorted(l)) 
    ENSURES((int)l.lowerBound(k) == c, "a key descends into the child whose range (lo, hi] holds it");
    ENSURES(l.isFull() == (SN == IM - 1), "isFull iff no separator fits");
    if (!here && SN < IM - 1) { NodeBase *oc[8]; K ok_[8]; for (int j = 0; j <= SN; j++) { oc[j] = l.children[j]; ok_[j] = l.keys[j]; }
      l.insert(k, nw); ENSURES(l.count == SN + 1, "a separator is counted"); for (int j = 0; j < SN + 1; j++) ENSURES(l.keys[j] == (j < c ? ok_[j] : j == c ? k : ok_[j - 1]), "separators stay in order"); for (int j = 0; j <= SN + 1; j++) ENSURES(l.children[j] == (j <= c ? oc[j] : j == c + 1 ? nw : oc[j - 1]), "the new child lies right of its separator, all others keep theirs"); }
    vp_cover("inner"); return; }
}
extern "C" void harness_lsplit() { Leaf l; fill(l, LM); NEEDS(sorted(l)) K ok_[8]; V ov[8]; for (int j = 0; j < LM; j++) { ok_[j] = key(l, j); ov[j] = val(l, j); } K sep = 0; 
  Leaf *r = l.split(sep); int n = l.count, m = r->count; ENSURES(n + m == LM && n > 0 && m > 0, "a split distributes all entries over two non-empty leaves"); for (int j = 0; j < LM; j++) { if (j < n) ENSURES(key(l, j) == ok_[j] && val(l, j) == ov[j], "a split loses, reorders or changes no entry"); else if (j - n < m) ENSURES(key(*r, j - n) == ok_[j] && val(*r, j - n) == ov[j], "a split loses, reorders or changes no entry"); }
  ENSURES(n > 0 && sep == ok_[n - 1], "the separator is the left leaf's greatest key, where descent sends it"); ENSURES(r->type == PageType::BTreeLeaf && !r->isLocked(r->typeVersionLockObsolete.load()) && !r->isObsolete(r->typeVersionLockObsolete.load()), "the new leaf is live and unlocked"); 
#ifdef VP_NATIVE
  delete r;
#endif
  vp_cover("lsplit"); }
extern "C" void harness_isplit() { for (int n0 = 3; n0 < IM; n0++) { Inner l; fill(l, n0); K ok_[10]; NodeBase *oc[10]; for (int j = 0; j < n0; j++) ok_[j] = l.keys[j]; for (int j = 0; j <= n0; j++) oc[j] = l.children[j]; K sep = 0;
  Inner *r = l.split(sep); int n = l.count, m = r->count; ENSURES(n + m + 1 == n0 && n >= 0 && m > 0, "a split keeps all separators but the one it hands up"); for (int j = 0; j < n0; j++) { K want = ok_[j]; if (j < n) ENSURES(l.keys[j] == want, "separators stay in order"); else if (j == n) ENSURES(sep == want, "the middle separator moves up"); else ENSURES(r->keys[j - n - 1] == want, "separators stay in order"); }
  for (int j = 0; j <= n0; j++) if (j <= n) ENSURES(l.children[j] == oc[j], "children keep their place"); else ENSURES(r->children[j - n - 1] == oc[j], "children keep their place");
  ENSURES(r->type == PageType::BTreeInner && !r->isLocked(r->typeVersionLockObsolete.load()) && !r->isObsolete(r->typeVersionLockObsolete.load()), "the new node is live and unlocked");
#ifdef VP_NATIVE
  delete r;
#endif
  } vp_cover("isplit"); }

extern "C" void harness_makeroot() { static Tree t; static Leaf a, b; K k = vp_nd_u32(); t.makeRoot(k, &a, &b); Inner *r = (Inner *)t.root.load();
  ENSURES(r->type == PageType::BTreeInner && r->count == 1 && r->keys[0] == k && r->children[0] == &a && r->children[1] == &b, "the new root separates its two children"); ENSURES(!(*(uint64_t *)&r->typeVersionLockObsolete & 3), "the new root is live and unlocked");
#ifdef VP_NATIVE
  delete r;
#endif
  vp_cover("makeroot"); }
