#include "art.hpp"
#ifndef NT
#define NT N4
#endif
#ifndef SC
#define SC 2
#endif
static const int CAP = Cap<NT>::v;
/* ---------- sorted nodes (N4, N16): count and position are split into cases, contents are arbitrary ---------- */
#if NTK == 4 || NTK == 16
static void anynode(NT &n, int c) { setup(n, 4, ty<NT>(), 0); n.count = c;
  for (int i = 0; i < CAP; i++) { n.keys[i] = vp_nd_u8(); if (i < c) { n.children[i] = tok(); 
#ifdef VP_NATIVE
    if (!vp_replaying()) kset(n, i, i * (250 / CAP) + (n.keys[i] & 7));
#endif
    } else n.children[i] = (N *)vp_nd_u64(); } }
static bool sorted(const NT &n, int c) { for (int i = 0; i + 1 < CAP; i++) if (i + 1 < c && !(kb(n, i) < kb(n, i + 1))) return false; return true; }
static bool part(const NT &n, int c, uint8_t k, int i, bool here) { bool ok = true; for (int j = 0; j < CAP; j++) if (j < c) { uint8_t x = kb(n, j); ok &= j < i ? x < k : j == i && here ? x == k : k < x; } return ok && (!here || i < c); }
extern "C" void harness_insert() {
  for (int i = 0; i <= SC; i++) { uint8_t w = vp_nd_u8() % (SC + 1); 
  if (w == i) { Box<NT> b; anynode(b.n, SC); uint8_t k = vp_nd_u8(), g = vp_nd_u8(); N *v = tok(); NEEDS(sorted(b.n, SC) && part(b.n, SC, k, i, false), )
  N *old = look(b.n, g);
  b.n.insert(k, v);
  ENSURES(look(b.n, g) == (g == k ? v : old), "insert adds the key and changes no other key");
  ENSURES((int)b.n.count == SC + 1 && sorted(b.n, SC + 1), "insert keeps the node ordered and counts the key"); vp_cover("insert"); return; } }
}
extern "C" void harness_remove() {
  for (int i = 0; i < SC; i++) { uint8_t w = vp_nd_u8() % SC;
  if (w == i) { Box<NT> b; anynode(b.n, SC); uint8_t k = vp_nd_u8(), g = vp_nd_u8(); 
#ifdef VP_NATIVE
  if (!vp_replaying()) k = kb(b.n, i);
#endif
  NEEDS(sorted(b.n, SC) && part(b.n, SC, k, i, true), )
  N *old = look(b.n, g);
  b.n.remove(k);
  ENSURES(look(b.n, g) == (g == k ? 0 : old), "remove deletes the key and changes no other key");
  ENSURES((int)b.n.count == SC - 1 && sorted(b.n, SC - 1), "remove keeps the node ordered and counts the key"); vp_cover("remove"); return; } }
}
extern "C" void harness_access() {
  Box<NT> b; anynode(b.n, SC); uint8_t k = vp_nd_u8(), g = vp_nd_u8(); NEEDS(sorted(b.n, SC), )
  N *old = look(b.n, g), *v = tok();
  ENSURES(b.n.getChild(g) == old, "getChild returns the stored child or null");
  N *a = b.n.getAnyChild(); if (SC) { bool in = false, leaf = false; for (int i = 0; i < SC; i++) { in |= b.n.children[i] == a; leaf |= N::isLeaf(b.n.children[i]); }
    ENSURES(in && a, "getAnyChild returns a stored child"); ENSURES(!leaf || N::isLeaf(a), "getAnyChild prefers a leaf"); }
#if NTK == 4
  if (SC) { auto s = b.n.getSecondChild(k); bool other = false; for (int i = 0; i < SC; i++) other |= kb(b.n, i) != k;
    if (other) ENSURES(std::get<1>(s) != k && std::get<0>(s) == look(b.n, std::get<1>(s)) && std::get<0>(s), "getSecondChild returns a child stored under another key"); else ENSURES(!std::get<0>(s), "getSecondChild returns null when there is no other child"); }
#endif
  ENSURES(b.n.isFull() == (SC == CAP), "isFull iff no slot is free"); ENSURES(!b.n.isUnderfull() || NTK == 4 || SC - 1 <= Cap<N4>::v, "an underfull node minus one key fits the smaller type"); 
  if (b.n.isUnderfull()) ENSURES(SC <= Cap<N4>::v, "an underfull node fits the smaller type");
  if (look(b.n, k)) { bool r = b.n.change(k, v); ENSURES(r && look(b.n, g) == (g == k ? v : old) && b.n.getCount() == SC, "change replaces the child of that key only"); vp_cover("change"); }
  vp_cover("access");
}
extern "C" void harness_children() {
  Box<NT> b; anynode(b.n, SC); uint8_t s = vp_nd_u8(), e = vp_nd_u8(), g = vp_nd_u8(), q = vp_nd_u8(); NEEDS(sorted(b.n, SC) && s <= e, )
  std::tuple<uint8_t, N *> out[CAP + 1], *o = out; uint32_t n = 77; 
  uint64_t v = b.n.getChildren(s, e, o, n);
  ENSURES(v == lockw(b.n) && o == out, "getChildren returns the version it read under"); ENSURES(n <= SC, "getChildren returns at most the stored children");
  int hits = 0; for (int i = 0; i < SC; i++) if (i < (int)n) { ENSURES(std::get<1>(out[i]) == look(b.n, std::get<0>(out[i])) && std::get<1>(out[i]), "getChildren returns stored children under their keys");
    if (i) ENSURES(std::get<0>(out[i - 1]) < std::get<0>(out[i]), "getChildren returns keys in ascending order"); hits += std::get<0>(out[i]) == g; }
  if (g >= s && g <= e && look(b.n, g)) ENSURES(hits == 1, "getChildren returns every child in the range");
  vp_cover("children");
}
#endif
