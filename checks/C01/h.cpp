/* Contracts of MassTree/kpermuter.hh: each operation's postcondition is its documented one (taken from the
   class comments), plus "the W stored slots stay a permutation of 0..W-1" and the size nibble. */
#include "config.h"
#include "compiler.hh"
#include "kpermuter.hh"
#include "vp.h"
#ifndef PW
#define PW 15
#endif
typedef kpermuter<PW> P;
typedef P::value_type V;
static bool valid(const P &p) {
  unsigned seen = 0;
  for (int i = 0; i < PW; i++) { int e = p[i]; if (e >= PW) return false; seen |= 1u << e; }
  return seen == (1u << PW) - 1 && p.size() <= PW;
}
static V any_value() {
#ifdef VP_NATIVE
  int a[16]; for (int i = 0; i < PW; i++) a[i] = i;
  for (int i = 0; i < PW; i++) { int j = vp_nd_u8() % PW; int t = a[i]; a[i] = a[j]; a[j] = t; }
  V v = vp_nd_u8() % (PW + 1); for (int i = 0; i < PW; i++) v |= (V)a[i] << (4 * i + 4);
  return v;
#else
  return (V)vp_nd_u64();
#endif
}
#ifdef VP_NATIVE
/* replay: a counterexample supplies the packed word itself */
extern "C" int vp_replaying(void);
static V input() { if (vp_replaying()) return (V)vp_nd_u64(); return any_value(); }
#else
static V input() { return any_value(); }
#endif
/* Any word with a legal size: the slot postconditions below hold for every word, and each says
   q[j] == p[m(j)] for an index map m, so "q's slots are a permutation of 0..W-1 whenever p's are" is the
   lemma that every such m is a bijection (harness_lemma). */
static P anyp() { P p(input()); REQUIRES(p.size() <= PW); return p; }
static inline int m_insert(int j, int i) { return j < i ? j : j == i ? PW - 1 : j - 1; }
static inline int m_select(int j, int di, int si) { return j < di ? j : j == di ? si : j <= si ? j - 1 : j; }
static inline int m_remove(int j, int i, int n) { return j < i ? j : j < n - 1 ? j + 1 : j == n - 1 ? i : j; }
static inline int m_back(int j, int i) { return j < i ? j : j < PW - 1 ? j + 1 : i; }
static inline int m_rotate(int k, int i, int j) { return k < i ? k : k + j - i >= PW ? k + j - i - (PW - i) : k + j - i; }
static inline int m_exch(int k, int i, int j) { return k == i ? j : k == j ? i : k; }
static int idx(int lim) { int i = vp_nd_u8(); REQUIRES(i < lim); return i; }

/* case split on an index, so that every shift amount is a constant in its case */
#define CASES(c, i, lim) for (int c = 0; c < (lim); c++) if (c == (i))
extern "C" void harness_make() {
  P e = P::make_empty();
  ENSURES(valid(e), "make_empty yields a permutation"); ENSURES(e.size() == 0, "make_empty has size 0");
  /* elements are allocated in order 0,1,... (insert_from_back takes back()) */
  P q = e;
  for (int i = 0; i < PW; i++) { int x = q.insert_from_back(i); ENSURES(x == i, "make_empty allocates 0,1,2,..."); }
  int n = idx(PW + 1);
  P s = P::make_sorted(n);
  ENSURES(valid(s), "make_sorted yields a permutation"); ENSURES(s.size() == n, "make_sorted size");
  int i = idx(PW);
  if (i < n) ENSURES(s[i] == i, "make_sorted[i]==i");
  P t = s; int prev = n;
  for (int k = 0; k < PW; k++) if (t.size() < PW) { int x = t.insert_from_back(0); ENSURES(x == prev, "make_sorted allocates n, n+1, ..."); prev++; }
  vp_cover("make");
}
extern "C" void harness_insert_from_back() {
  P p = anyp(); int i0 = idx(PW); REQUIRES(p.size() < PW);
  CASES(i, i0, PW) {
    P q = p; int x = q.insert_from_back(i);
    ENSURES(q.size() == p.size() + 1, "size grows by one");
    ENSURES(q[i] == x, "new element at position i");
    ENSURES(x == p.back(), "element taken from the back");
    for (int j = 0; j < PW; j++) ENSURES(q[j] == p[m_insert(j, i)], "others keep order");
  }
  vp_cover("insert_from_back");
}
extern "C" void harness_insert_selected() {
  P p = anyp(); int di0 = idx(PW), si0 = idx(PW); REQUIRES(p.size() < PW && p.size() <= si0 && di0 <= si0);
  CASES(di, di0, PW) CASES(si, si0, PW) {
    P q = p; q.insert_selected(di, si);
    ENSURES(q.size() == p.size() + 1, "size grows by one");
    for (int j = 0; j < PW; j++) ENSURES(q[j] == p[m_select(j, di, si)], "selected slot moves to di, others keep order");
  }
  vp_cover("insert_selected");
}
extern "C" void harness_remove() {
  P p = anyp(); int i0 = idx(PW); REQUIRES(i0 < p.size());
  CASES(n, p.size(), PW + 1) CASES(i, i0, n) {
    P q = p; q.remove(i);
    ENSURES(q.size() == p.size() - 1, "size shrinks by one");
    for (int j = 0; j < PW; j++) ENSURES(q[j] == p[m_remove(j, i, n)], "removed slot becomes first free, others keep order");
  }
  vp_cover("remove");
}
extern "C" void harness_remove_to_back() {
  P p = anyp(); int i0 = idx(PW); REQUIRES(i0 < p.size());
  CASES(i, i0, PW) {
    P q = p; q.remove_to_back(i);
    ENSURES(q.size() == p.size() - 1, "size shrinks by one");
    for (int j = 0; j < PW; j++) ENSURES(q[j] == p[m_back(j, i)], "removed slot goes to the back, others keep order");
  }
  vp_cover("remove_to_back");
}
extern "C" void harness_rotate() {
  P p = anyp(); int i0 = idx(PW + 1), j0 = idx(PW + 1); REQUIRES(i0 <= j0 && j0 <= PW);
  CASES(i, i0, PW + 1) CASES(j, j0, PW + 1) {
    P q = p; q.rotate(i, j);
    ENSURES(q.size() == p.size(), "rotate keeps size");
    for (int k = 0; k < PW; k++) ENSURES(q[k] == p[m_rotate(k, i, j)], "rotate moves slots cyclically");
  }
  vp_cover("rotate");
}
extern "C" void harness_exchange() {
  P p = anyp(); int i0 = idx(PW), j0 = idx(PW);
  CASES(i, i0, PW) CASES(j, j0, PW) {
    P q = p; q.exchange(i, j);
    ENSURES(q.size() == p.size(), "exchange keeps size");
    for (int k = 0; k < PW; k++) ENSURES(q[k] == p[m_exch(k, i, j)], "exchange swaps exactly two slots");
  }
  vp_cover("exchange");
}
extern "C" void harness_size() {
  P p = anyp(); int n = idx(PW + 1);
  P q = p; q.set_size(n);
  ENSURES(q.size() == n && P::size(q.value()) == n, "set_size sets the size");
  for (int k = 0; k < PW; k++) ENSURES(q[k] == p[k], "set_size keeps every slot");
  ENSURES((q == p) == (p.size() == n), "equality is value equality");
  int i = idx(PW);
  ENSURES((int)(p.value_from(i) & 15) == p[i], "value_from(i) starts at slot i");
  ENSURES(P::width() == PW && p.back() == p[PW - 1], "width/back");
  vp_cover("size");
}

extern "C" void harness_lemma() {
  int i = idx(PW), j = idx(PW), n = idx(PW + 1), a = idx(PW), b = idx(PW); REQUIRES(a != b);
#define INJ(f, pre, lab) if (pre) { int x, y; { int k = a; x = f; } { int k = b; y = f; } ENSURES(x >= 0 && x < PW && x != y, lab " is a bijection of the slots"); }
  INJ(m_insert(k, i), true, "insert_from_back map") INJ(m_select(k, i, j), i <= j, "insert_selected map") INJ(m_remove(k, i, n), i < n, "remove map")
  INJ(m_back(k, i), true, "remove_to_back map") INJ(m_rotate(k, i, j), i <= j, "rotate map") INJ(m_exch(k, i, j), true, "exchange map")
  vp_cover("lemma");
}

extern "C" void harness_exchange_values() {
  P p = anyp(); int x = idx(PW), y = idx(PW);
  P r = p; r.exchange_values(x, y);
  ENSURES(r.size() == p.size(), "exchange_values keeps size");
  for (int k = 0; k < PW; k++) ENSURES(r[k] == (p[k] == x ? y : p[k] == y ? x : p[k]), "exchange_values swaps exactly two values");
  vp_cover("exchange_values");
}
