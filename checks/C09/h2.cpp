/* BLinkTree operations on whole trees: every order of a few keys, one interfering insert batch at any latch acquisition. */
#include "bl.hpp"
static Tree *tr; static int at, acq; static bool inenv; static void env(); static Latch *log_[64]; static int nlog; static int held() { int h = 0; for (int i = 0; i < nlog; i++) h += log_[i]->sh + log_[i]->ex; return h; }
void Latch::before() { if (inenv) return; if (acq++ == at && held() == 0) { inenv = true; env(); inenv = false; } for (int i = 0; i < nlog; i++) if (log_[i] == this) return; if (nlog < 64) log_[nlog++] = this; }
/* std::vector<Node *> as a stack (trusted): one per running operation */
static Node *stk[2][64]; static int sp[2]; static int opno[2], seenop[2];
static void fresh() { if (seenop[inenv] != opno[inenv]) { seenop[inenv] = opno[inenv]; sp[inenv] = 0; } }
extern "C" void stub_push(void *, Node *const *x) { fresh(); stk[inenv][sp[inenv]++] = *x; }
extern "C" Node **stub_back(void *) { fresh(); ENSURES(sp[inenv] > 0, "the path is not empty"); return &stk[inenv][sp[inenv] - 1]; }
extern "C" void stub_pop(void *) { fresh(); ENSURES(sp[inenv] > 0, "the path is not empty"); sp[inenv]--; }
extern "C" bool stub_empty(void *) { fresh(); return sp[inenv] == 0; }
extern "C" void stub_reserve(void *, size_t) {}
#ifndef PRE
#define PRE 3
#endif
#ifndef OP
#define OP 0
#endif
#ifndef KK
#define KK 25
#endif
#ifndef AT
#define AT 99
#endif
#ifndef BASE
#define BASE 20
#endif
#ifdef VP_NATIVE
static int pre, kk, base; static K prek[64]; static V val[2048]; static bool has[2048];
#else
enum { pre = PRE, kk = KK, base = BASE }; static K prek[16]; static V val[128]; static bool has[128];
#endif
static void put(K k, V v) { opno[inenv]++; bool r = tr->Insert(k, v); ENSURES(r == !has[k], "insert reports whether the key was new"); if (!has[k]) { has[k] = true; val[k] = v; } }
#ifdef VP_NATIVE
enum { TOP = 200 };
#else
enum { TOP = 80 };
#endif
static int envn; static V ev[3];
static void env() { for (int i = 0; i < envn; i++) { K k = base + 1 + i; opno[inenv]++; bool r = tr->Insert(k, ev[i]); ENSURES(r == !has[k], "insert reports whether the key was new"); if (!has[k]) { has[k] = true; val[k] = ev[i]; } } }
extern "C" void harness_tree() {
#ifdef VP_NATIVE
  pre = vp_nd_u8() % 40; int dom = pre * 4 + 8; for (int i = 0; i < pre; i++) prek[i] = vp_nd_u32() % dom; kk = vp_nd_u32() % dom; base = vp_nd_u32() % dom; at = vp_nd_u8() % 16; for (int i = 0; i < 2048; i++) has[i] = false; int op = vp_nd_u8() % 5; envn = vp_nd_u8() % 4; acq = 0; nlog = 0;
#else
  for (int i = 0; i < pre; i++) prek[i] = 10 + 10 * (i * STEP % PRE); at = 99; const int op = OP; envn = 2;
#endif
  for (int i = 0; i < 3; i++) ev[i] = vp_nd_u64();
  Tree t(4, 4, 0.75, 0.25, 0.75, 0.25); tr = &t; inenv = true; for (int i = 0; i < pre; i++) put(prek[i], vp_nd_u64()); inenv = false;
#ifndef VP_NATIVE
  at = AT; acq = 0; nlog = 0;
#endif
  V v = vp_nd_u64(), r = 0; opno[0]++; bool had = has[kk]; V hv = val[kk];
  if (op == 0) { bool f = t.Search(kk, r); ENSURES(f ? has[kk] && r == val[kk] : !had, "search reports exactly the stored keys with their values"); }
  else if (op == 1) { bool f = t.Insert(kk, v); ENSURES(f == (!had && !(has[kk])) || (f && !had && false), "insert reports whether the key was new"); if (f) has[kk] = true, val[kk] = v; }
  else if (op == 2) { bool f = t.Update(kk, v); ENSURES(f == had || (f && has[kk]), "update reports whether the key is stored"); if (f) val[kk] = v; }
  else { std::vector<std::pair<K, V>> o; o.reserve(64); if (op == 3) { bool f = t.ScanFixed(kk, 3, o); bool any = false; for (int g = kk; g < TOP; g++) any |= has[g]; ENSURES(f == any, "a scan says whether there is anything to return"); } else t.ScanRange(kk, kk + 21, o);
    int n = 0; for (int g = kk; g < TOP; g++) if (has[g] && (op == 3 ? n < 3 : g < kk + 21)) { ENSURES((int)o.size() > n && o[n].first == (K)g && o[n].second == val[g], "a scan returns exactly the stored pairs from the left key on, in order"); n++; } ENSURES((int)o.size() == n, "a scan returns exactly the stored pairs up to its limit"); }
  ENSURES(held() == 0, "no latch is left behind"); at = -1; inenv = true;
#ifdef VP_NATIVE
  for (int g = 0; g < 200; g++) { V x = 0; ENSURES(t.Search(g, x) == has[g] && (!has[g] || x == val[g]), "every stored key is found afterwards, and no other"); }
#else
  for (int i = 0; i < pre; i++) { V x = 0; ENSURES(t.Search(prek[i], x) && x == val[prek[i]], "every stored key is found afterwards"); }
  { V x = 0; bool f = t.Search(kk, x); ENSURES(f == has[kk] && (!f || x == val[kk]), "every stored key is found afterwards, and no other"); } for (int i = 0; i < 2; i++) { V x = 0; K k = base + 1 + i; bool f = t.Search(k, x); ENSURES(f == has[k] && (!f || x == val[k]), "every stored key is found afterwards, and no other"); }
#endif
  { std::vector<std::pair<K, V>> all; all.reserve(256); t.ScanLeaf(all); int n = 0; for (int g = 0; g < TOP; g++) if (has[g]) { ENSURES((int)all.size() > n && all[n].first == (K)g && all[n].second == val[g], "the leaf chain holds the stored pairs in key order"); n++; } ENSURES((int)all.size() == n, "the leaf chain holds nothing else"); } vp_cover("tree"); }
