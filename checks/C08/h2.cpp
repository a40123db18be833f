/* Walks of BTreeOLC: node operations by contract (proved in h.cpp), any content, one interfering writer. */
#include "bt.hpp"
#ifndef DEP
#define DEP 1
#endif
#ifndef FULL
#define FULL -1
#endif
#ifdef VP_NATIVE
static void native_run() { Tree t; std::map<K, V> m; int n = vp_nd_u8() % 80; for (int i = 0; i < n; i++) { K k = vp_nd_u8() * 3; V v = vp_nd_u64(); t.insert(k, v); m[k] = v; K q = vp_nd_u8() * 3; V r = 77; bool f = t.lookup(q, r); auto it = m.find(q); ENSURES(f == (it != m.end()), "lookup reports exactly the stored keys"); if (f) ENSURES(r == it->second, "lookup returns the last value stored"); 
  V out[64]; int range = vp_nd_u8() & 63; uint64_t c = t.scan(q, range, out); ENSURES(c <= (uint64_t)range, "a scan respects its limit"); auto jt = m.lower_bound(q); for (uint64_t j = 0; j < c; j++, ++jt) ENSURES(jt != m.end() && out[j] == jt->second, "a scan returns the values from the key on, in order"); }
  for (auto &e : m) { V r = 0; ENSURES(t.lookup(e.first, r) && r == e.second, "every inserted key stays"); } vp_cover("native"); }
extern "C" void harness_lookup() { native_run(); }
extern "C" void harness_insert() { native_run(); }
extern "C" void harness_scan() { native_run(); }
#else
static Inner in[3], in2; static Leaf lf, lf2; static Tree tr; static NodeBase *path[6]; static int np, pi; static K kk; static V vv; static int lpos; static bool here; static K gsep;
static int tn, ta, nacc; static uint64_t last_[3]; static int inserts, lsplits, isplits, pinserts; static bool gowright;
static int FULLNOW;
static int idx(const void *p) { for (int i = 0; i < DEP; i++) if (p == (void *)&in[i]) return i; if (p == (void *)&lf) return DEP; return -1; }
static NodeBase *nodeat(int i) { return i < DEP ? (NodeBase *)&in[i] : (NodeBase *)&lf; }
static uint64_t &word(int i) { return *(uint64_t *)&nodeat(i)->typeVersionLockObsolete; }
static bool lockedn(NodeBase *n) { return *(uint64_t *)&n->typeVersionLockObsolete & 2; }
extern "C" void vp_env(void *p) { int i = idx(p); if (i < 0) return; if (nacc == ta && !(word(tn) & 2)) { word(tn) += 4; } nacc++; last_[i] = word(i); }
static void point() { if (nacc == ta && !(word(tn) & 2)) word(tn) += 4; nacc++; }   /* a writer between the last version check and the search */
extern "C" void stub_yield(void *t, int) { pi = 0; }
static void walk_to(const void *n) { if (pi + 1 < np && path[pi] != n && path[pi + 1] == n) pi++; }
extern "C" unsigned stub_lowi(Inner *n, K k) { ENSURES(k == kk, "the walk searches for the given key"); walk_to(n); point(); ENSURES(pi < np && n == path[pi], "the walk follows the children of the nodes it searched"); int i = idx(n); if (i >= 0 && word(i) != last_[i]) return vp_nd_u8() & 3;
  ENSURES(n->count <= IM, "a node is searched within its bounds"); for (int j = 0; j < 4; j++) if (n->children[j] == path[pi + 1]) return j; return 0; }
extern "C" unsigned stub_lowl(Leaf *n, K k) { ENSURES(k == kk, "the walk searches for the given key"); walk_to(n); point(); ENSURES(pi == np - 1 && n == path[pi], "the walk ends at the leaf responsible for the key"); if (word(DEP) != last_[DEP]) return vp_nd_u8() & 3; return lpos; }
extern "C" void stub_linsert(Leaf *n, K k, V v) { walk_to(n); ENSURES(k == kk && v == vv, "the given pair is inserted"); ENSURES((NodeBase *)n == path[np - 1], "a pair is inserted into the leaf responsible for it"); ENSURES(lockedn(n), "a leaf is modified only while locked"); ENSURES(n->count < LM, "a pair is inserted only where there is room"); ENSURES(n != &lf || word(DEP) == last_[DEP] + 2, "nothing is inserted on the strength of a stale read"); inserts++; }
extern "C" Leaf *stub_lsplit(Leaf *n, K *sep) { ENSURES(n == &lf && lockedn(n) && n->count == LM, "only a full leaf is split, while locked"); ENSURES(!DEP || lockedn(&in[DEP - (DEP > 0)]), "a leaf is split only while its parent is locked"); lsplits++; *sep = gsep; n->count = 2; lf2.count = 2; lf2.type = PageType::BTreeLeaf; *(uint64_t *)&lf2.typeVersionLockObsolete = 4; FULLNOW = -1; if (gowright) path[np - 1] = &lf2; return &lf2; }
extern "C" Inner *stub_isplit(Inner *n, K *sep) { int i = idx(n); ENSURES(i == FULLNOW && lockedn(n) && n->count == IM - 1, "only a full node is split, while locked"); ENSURES(!i || lockedn(&in[i - (i > 0)]), "a node is split only while its parent is locked"); isplits++; *sep = gsep; n->count = 2; in2.count = 2; in2.type = PageType::BTreeInner; *(uint64_t *)&in2.typeVersionLockObsolete = 4; for (int j = 0; j < 4; j++) in2.children[j] = n->children[j]; FULLNOW = -1; if (gowright) path[i] = &in2; return &in2; }
extern "C" void stub_iinsert(Inner *n, K k, NodeBase *c) { ENSURES(k == gsep && c == (lsplits ? (NodeBase *)&lf2 : (NodeBase *)&in2), "the new node is linked into the parent under the separator"); ENSURES(lockedn(n), "a node is modified only while locked"); ENSURES(n->count < IM - 1, "a separator is inserted only where there is room"); pinserts++; n->children[3] = c; }
static Inner rootn; static int roots;
extern "C" void stub_makeroot(Tree *t, K k, NodeBase *l, NodeBase *r) { ENSURES(t == &tr && k == gsep, "the new root separates the two halves"); ENSURES(FULL == 0 && l == nodeat(0) && r == (DEP ? (NodeBase *)&in2 : (NodeBase *)&lf2), "a full root gets a new parent over its two halves"); ENSURES(lockedn(l), "the root is replaced only while locked"); roots++; rootn.type = PageType::BTreeInner; rootn.count = 1; *(uint64_t *)&rootn.typeVersionLockObsolete = 4; for (int j = 0; j < 4; j++) rootn.children[j] = 0; rootn.children[RIGHT] = path[0]; tr.root = &rootn; for (int j = 5; j > 0; j--) path[j] = path[j - 1]; path[0] = &rootn; np++; }
static void setup() {
  kk = vp_nd_u32(); vv = vp_nd_u64(); gsep = vp_nd_u32(); np = DEP + 1; pi = 0; nacc = 0; inserts = lsplits = isplits = pinserts = 0; gowright = RIGHT; FULLNOW = FULL; roots = 0;
  for (int i = 0; i <= DEP; i++) { path[i] = nodeat(i); word(i) = 4 * (3 + i); last_[i] = word(i); }
  for (int i = 0; i < DEP; i++) { in[i].type = PageType::BTreeInner; in[i].count = i == FULL ? IM - 1 : 2; for (int j = 0; j < 4; j++) in[i].children[j] = 0; in[i].children[i & 1] = nodeat(i + 1); }
  lf.type = PageType::BTreeLeaf; lf.count = FULL == DEP ? LM : 3; tr.root = nodeat(0);
  for (int j = 0; j < LM; j++) { key(lf, j) = vp_nd_u32(); val(lf, j) = vp_nd_u64(); }
  tn = TN; ta = TA; }
static void end(bool wrote) { for (int i = 0; i <= DEP; i++) ENSURES(!(word(i) & 3), "no lock is left behind"); ENSURES(!lockedn(&lf2) && !lockedn(&in2), "no lock is left behind"); }
extern "C" void harness_lookup() { setup(); lpos = vp_nd_u8() & 3; here = lpos < 3 && key(lf, lpos) == kk; V r = 0xdead; bool f = tr.lookup(kk, r);
  ENSURES(f == here, "lookup reports exactly the stored keys"); ENSURES(r == (here ? val(lf, lpos) : 0xdead) || !f, "lookup returns the stored value"); if (f) ENSURES(r == val(lf, lpos), "lookup returns the stored value"); end(false); ENSURES(!inserts && !lsplits && !isplits, "lookup changes nothing"); vp_cover("lookup"); }
extern "C" void harness_scan() { setup(); lpos = vp_nd_u8() & 3; int range = vp_nd_u8() & 7; V out[8]; for (int j = 0; j < 8; j++) out[j] = 0xdead; uint64_t c = tr.scan(kk, range, out);
  int want = 3 - lpos; if (range < want) want = range; ENSURES((int)c == want, "a scan returns the rest of the leaf up to its limit"); for (int j = 0; j < 3; j++) if (j < want) ENSURES(out[j] == val(lf, lpos + j), "a scan returns the stored values in order"); end(false); vp_cover("scan"); }
extern "C" void harness_insert() { setup(); uint64_t w = word(DEP); tr.insert(kk, vv); end(true); ENSURES(inserts == 1, "the pair is inserted exactly once"); ENSURES(lsplits == (FULL == DEP) && isplits == (FULL >= 0 && FULL < DEP), "exactly the full node is split"); ENSURES(pinserts == (FULL > 0), "a split below the root adds one separator to the parent");
  NodeBase *root = tr.root.load(); ENSURES(roots == (FULL == 0), "a full root, and only a full root, gets a new parent"); if (FULL == 0) ENSURES(root == &rootn, "the new root stays"); else ENSURES(root == nodeat(0), "the root stays");
  if (FULL >= 0) ENSURES(word(FULL) != 4ull * (3 + FULL), "readers of the split node restart"); if (!(RIGHT && FULL == DEP)) ENSURES(word(DEP) != w, "readers of the leaf restart"); vp_cover("insert"); }
#endif
