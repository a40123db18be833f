#include "art.hpp"
#ifndef NT
#define NT N48
#define NTK 48
#endif
#if NTK == 48 || NTK == 256
typedef NT X;
static void fill(X &n) { setup(n, 4, ty<X>(), 0);
#ifdef VP_IR
  n.count = vp_nd_u8();
  /* contents are arbitrary: the storage is left unwritten (non-deterministic) */
#else
  n.count = 0; int c = vp_nd_u8() % (NTK == 48 ? 49 : 200); 
#if NTK == 48
  memset(n.childIndex, 48, 256); memset(n.children, 0, sizeof n.children);
  for (int i = 0; i < c; i++) { uint8_t k = i * 5 + (vp_nd_u8() & 3); if (n.childIndex[k] == 48) { int s = (i * 11) % 48; n.childIndex[k] = s; n.children[s] = tok(); n.count++; } }
#else
  memset(n.children, 0, sizeof n.children); for (int i = 0; i < c; i++) { n.children[i] = tok(); n.count++; }
#endif
#endif
}
#if NTK == 48
/* representation invariant, instantiated at the ghost keys/slots the obligations mention */
static bool okkey(const X &n, uint8_t k) { return n.childIndex[k] == 48 || (n.childIndex[k] < 48 && n.children[n.childIndex[k]] != 0); }
static bool okpair(const X &n, uint8_t a, uint8_t b) { return a == b || n.childIndex[a] == 48 || n.childIndex[a] != n.childIndex[b]; }
static bool okkeys(const X &n, uint8_t a, uint8_t b, uint8_t c) { return okkey(n, a) && okkey(n, b) && okkey(n, c) && okpair(n, a, b) && okpair(n, a, c) && okpair(n, b, c); }
#else
static bool okkey(const X &n, uint8_t k) { return true; }
static bool okpair(const X &n, uint8_t a, uint8_t b) { return true; }
static bool okkeys(const X &n, uint8_t a, uint8_t b, uint8_t c) { return true; }
#endif
static const int SLOTS = NTK == 48 ? 48 : 256;
extern "C" void harness_insert() {
  Box<X> b; fill(b.n); X &n = b.n; uint8_t k = vp_nd_u8(), g = vp_nd_u8(), h = vp_nd_u8(), f = vp_nd_u8(), s = vp_nd_u8(); N *v = tok(); 
#ifdef VP_NATIVE
  if (!vp_replaying()) { for (f = 0; f < SLOTS - 1 && n.children[f]; f++); s %= SLOTS; }
#endif
  REQUIRES(okkeys(n, k, g, h));
  NEEDS(!look(n, k) && n.count < (NTK == 48 ? 48 : 256), )
#if NTK == 48
  REQUIRES(f < 48 && !n.children[f] && s < 48);   /* fewer than 48 keys: some slot is free */
#endif
  N *og = look(n, g), *os = n.children[s]; int c = n.count;
  n.insert(k, v);
  ENSURES(look(n, g) == (g == k ? v : og), "insert adds the key and changes no other key");
  ENSURES(okkeys(n, k, g, h), "insert keeps keys and slots one-to-one"); ENSURES(n.count == (uint8_t)(c + 1), "insert counts the key");
  ENSURES(n.children[s] == os || (!os && n.children[s] == v), "insert takes one free slot"); vp_cover("insert");
}
extern "C" void harness_remove() {
  Box<X> b; fill(b.n); X &n = b.n; uint8_t k = vp_nd_u8(), g = vp_nd_u8(), h = vp_nd_u8(), s = vp_nd_u8();
#ifdef VP_NATIVE
  s %= SLOTS;
#endif
  REQUIRES(okkeys(n, k, g, h));
  NEEDS(look(n, k), )
#if NTK == 48
  REQUIRES(s < 48); bool mine = s == n.childIndex[k];
#else
  bool mine = s == k;
#endif
  N *og = look(n, g), *os = n.children[s]; int c = n.count;
  n.remove(k);
  ENSURES(look(n, g) == (g == k ? 0 : og), "remove deletes the key and changes no other key");
  ENSURES(okkeys(n, k, g, h), "remove keeps keys and slots one-to-one"); ENSURES(n.count == (uint8_t)(c - 1), "remove uncounts the key");
  ENSURES(n.children[s] == (mine ? 0 : os), "remove frees exactly the key's slot"); vp_cover("remove");
}
extern "C" void harness_access() {
  Box<X> b; fill(b.n); X &n = b.n; uint8_t k = vp_nd_u8(), g = vp_nd_u8(); REQUIRES(okkeys(n, k, g, k)); N *og = look(n, g), *v = tok();
  ENSURES(n.getChild(g) == og, "getChild returns the stored child or null");
  ENSURES(NTK == 48 ? n.isFull() == (n.count == 48) : !n.isFull(), "isFull iff no slot is free");
  if (n.isUnderfull()) { ENSURES(n.count <= (NTK == 48 ? 16 : 48), "an underfull node fits the smaller type"); ENSURES(n.count > (NTK == 48 ? 4 : 16), "a shrunk node is of the right class"); }
  if (look(n, k)) { int c = n.count; n.change(k, v); ENSURES(look(n, g) == (g == k ? v : og) && n.count == c && okkeys(n, k, g, k), "change replaces the child of that key only"); vp_cover("change"); }
  vp_cover("access");
}
#ifndef LIM
#define LIM 256
#endif
extern "C" void harness_any() {
  Box<X> b; fill(b.n); X &n = b.n; uint8_t g = vp_nd_u8() % LIM; bool leaf = false, in = false, some = false;
#if NTK == 48
  for (int i = LIM; i < 256; i++) n.childIndex[i] = 48;
  for (int i = 0; i < LIM; i++) { n.childIndex[i] = vp_nd_u8() & 1 ? i : 48; n.children[i] = tok(); }
#else
  for (int i = LIM; i < 256; i++) n.children[i] = 0;
  for (int i = 0; i < LIM; i++) n.children[i] = vp_nd_u8() & 1 ? tok() : 0;
#endif
  N *a = n.getAnyChild();
  for (int i = 0; i < LIM; i++) { N *x = look(n, i); if (x) { some = true; leaf |= N::isLeaf(x); in |= x == a; } }
  ENSURES(some ? a && in : !a, "getAnyChild returns a stored child"); ENSURES(!leaf || N::isLeaf(a), "getAnyChild prefers a leaf"); vp_cover("any");
}
extern "C" void harness_children() {
  Box<X> b; fill(b.n); X &n = b.n; uint8_t s = vp_nd_u8(), e = vp_nd_u8(), g = vp_nd_u8();
  REQUIRES(s <= e && e - s < WIN);
#if NTK == 48
  for (int i = 0; i < WIN; i++) if (s + i < 256) REQUIRES(okkey(n, s + i));
#endif
  std::tuple<uint8_t, N *> out[WIN + 1], *o = out; uint32_t m = 77; uint64_t v = n.getChildren(s, e, o, m);
  ENSURES(v == lockw(n) && o == out, "getChildren returns the version it read under"); ENSURES(m <= WIN, "getChildren returns at most the stored children");
  int hits = 0; for (int i = 0; i < WIN; i++) if (i < (int)m) { uint8_t q = std::get<0>(out[i]); ENSURES(q >= s && q <= e && std::get<1>(out[i]) == look(n, q) && look(n, q), "getChildren returns stored children of the range under their keys");
    if (i) ENSURES(std::get<0>(out[i - 1]) < q, "getChildren returns keys in ascending order"); hits += q == g; }
  if (g >= s && g <= e && look(n, g)) ENSURES(hits == 1, "getChildren returns every child in the range");
  vp_cover("children");
}
#endif
