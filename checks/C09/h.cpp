/* BLinkNode operations for every content of a node of NS keys (split threshold 0.75). */
#include "bl.hpp"
void Latch::before() {}
#ifndef SN
#define SN 3
#endif
#ifndef RMOST
#define RMOST 1
#endif
#ifdef VP_NATIVE
#define NEEDS(c) if (!(c)) return;
static K rk(K x, int i) { return vp_replaying() ? x : (K)(16 + (i << 4 | (x & 7))); }
#else
#define NEEDS(c) REQUIRES(c);
static K rk(K x, int i) { return x; }
#endif
static Node *mk(bool leaf, int n) { Node *d = new Node(NS, leaf); d->item_cnt_ = n; for (int i = 0; i < n; i++) d->keys_[i] = rk(vp_nd_u32(), i); if (leaf) for (int i = 0; i < n; i++) d->values_[i] = vp_nd_u64(); else for (int i = 0; i <= n; i++) d->children_[i] = (Node *)(vp_nd_u64() | 1); return d; }
static bool part(Node *d, int n, K k, int i, bool here) { bool ok = true; for (int j = 0; j < n; j++) { K x = d->keys_[j]; ok &= j < i ? x < k : j == i && here ? x == k : k < x; } for (int j = 0; j + 1 < n; j++) ok &= d->keys_[j] < d->keys_[j + 1]; return ok; }
static K pick(Node *d, int c, bool here) { K k = vp_nd_u32();
#ifdef VP_NATIVE
  if (!vp_replaying()) k = here ? d->keys_[c] : c < SN ? (c ? d->keys_[c - 1] + 1 : 3) : SN ? d->keys_[SN - (SN > 0)] + 1 : k;
#endif
  return k; }
static int want; static const Node *wn;
extern "C" int stub_scan(Node *n, const K *k) { ENSURES(n == wn, "the node itself is searched"); return want; }
#ifdef SCANSTUB
#define DOINS 1
#else
#define DOINS 0
#endif
extern "C" void harness_leaf() { int i = vp_nd_u8(); bool here = vp_nd_u8() & 1;
#ifdef VP_NATIVE
  i %= SN + 1;
#endif
  NEEDS(i + here <= SN)
  for (int c = 0; c <= SN; c++) if (c == i) { Node *l = mk(true, SN), *sib = (Node *)vp_nd_u64(), *up = (Node *)vp_nd_u64(); l->sibling_ptr_ = sib; l->upper_level_ = up; K k = pick(l, c, here); V v = vp_nd_u64(); NEEDS(part(l, SN, k, c, here))
    K ok_[SN + 1]; V ov[SN + 1]; for (int j = 0; j < SN; j++) ok_[j] = l->keys_[j], ov[j] = l->values_[j];
    ENSURES(l->NodeScan(k) == c, "a leaf search returns the key's place"); if (SN) ENSURES(l->high_key() == ok_[SN - (SN > 0)], "the high key is the largest key of the node");
    if (!here) { Node *r = l->LeafInsert(k, v, c, 0.75); ENSURES((r != 0) == (SN + 1 >= NS * 3 / 4), "a leaf splits exactly when it reaches the split limit"); int n = l->item_cnt_, m = r ? r->item_cnt_ : 0; ENSURES(n > 0 && (!r || m > 0), "no half of a split is empty"); ENSURES(n + m == SN + 1, "insert adds exactly one pair");
      for (int j = 0; j <= SN; j++) { K wk = j < c ? ok_[j] : j == c ? k : ok_[j - 1]; V wv = j < c ? ov[j] : j == c ? v : ov[j - 1]; Node *d = j < n ? l : r; int p = j < n ? j : j - n; if (d) ENSURES(d->keys_[p] == wk && d->values_[p] == wv, "every pair is kept, in order, once"); else ENSURES(0, "every pair is kept, in order, once"); }
      if (r) { ENSURES(l->sibling_ptr_ == r && r->sibling_ptr_ == sib, "a new node is linked between the old one and its sibling"); ENSURES(r->upper_level_ == up && l->upper_level_ == up && r->is_leaf_ && r->node_size_ == NS, "a new node takes over the level"); } else ENSURES(l->sibling_ptr_ == sib && l->upper_level_ == up, "without a split the links stay"); }
    vp_cover("leaf"); return; } }
extern "C" void harness_inner() { int i = vp_nd_u8(); bool here = vp_nd_u8() & 1;
#ifdef VP_NATIVE
  i %= SN + 1;
#endif
  NEEDS(i + here <= SN)
  for (int c = 0; c <= SN; c++) if (c == i) { Node *l = mk(false, SN), *sib = RMOST ? 0 : (Node *)(vp_nd_u64() | 1), *up = (Node *)vp_nd_u64(); l->sibling_ptr_ = sib; l->upper_level_ = up; K k = pick(l, c, here); NEEDS(part(l, SN, k, c, here))
    K ok_[SN + 1]; Node *oc[SN + 2]; for (int j = 0; j < SN; j++) ok_[j] = l->keys_[j]; for (int j = 0; j <= SN; j++) oc[j] = l->children_[j]; Node *rn = (Node *)vp_nd_u64();
    if (!DOINS) ENSURES(l->NodeScan(k) == c, "an inner search returns the child responsible for the key");
    want = c; wn = l; if (DOINS && !here && (c < SN || RMOST)) { Node *left = SN ? oc[c] : (Node *)vp_nd_u64(); if (!SN) oc[0] = left; ENSURES(!SN || l->child(c) == left, "child returns the child at its place"); Node *r = l->InnerInsert(k, left, rn, 0.75);
      ENSURES((r != 0) == (SN + 1 >= NS * 3 / 4), "an inner node splits exactly when it reaches the split limit"); int n = l->item_cnt_, m = r ? r->item_cnt_ : 0; ENSURES(n > 0 && (!r || m > 0), "no half of a split is empty"); ENSURES(n + m == SN + 1, "insert adds exactly one separator");
      for (int j = 0; j <= SN + RMOST; j++) { Node *wc = j <= c ? oc[j] : j == c + 1 ? rn : oc[j - 1]; Node *d = j < n || !r ? l : r; int p = j < n || !r ? j : j - n; if (j <= SN) { K wk = j < c ? ok_[j] : j == c ? k : ok_[j - 1]; ENSURES(d->keys_[p] == wk, "every separator is kept, in order, once"); } ENSURES(d->children_[p] == wc, "every child keeps its place and the new one follows the node it was split from"); }
      if (r) { ENSURES(l->sibling_ptr_ == r && r->sibling_ptr_ == sib, "a new node is linked between the old one and its sibling"); ENSURES(r->upper_level_ == up && l->upper_level_ == up && !r->is_leaf_ && r->node_size_ == NS, "a new node takes over the level"); } else ENSURES(l->sibling_ptr_ == sib && l->upper_level_ == up, "without a split the links stay"); }
    vp_cover("inner"); return; } }
