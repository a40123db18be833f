#include "art.hpp"
/* ---- copyTo: hands every (key, child) to the target's insert exactly once ---- */
static uint8_t g; static FROM *from; static void *target; static uint8_t seen[256]; static int calls, gcalls; static N *gval;
extern "C" void stub_ins(void *self, uint8_t k, N *c) { ENSURES(self == target, "copyTo fills the node it is given"); 
#if FK <= 16
  calls++; if (k == g) { gcalls++; gval = c; }
#elif FK == 48
  seen[k]++; ENSURES((uint64_t)c == (1ull << 63 | from->childIndex[k]), "copyTo hands over the child stored under the key");
#else
  seen[k]++; ENSURES(c == look(*from, k), "copyTo hands over the child stored under the key");
#endif
}
extern "C" void harness_copy() {
  Box<FROM> b; FROM &n = b.n; Box<TO> t; g = vp_nd_u8(); 
#if FK <= 16
  n.count = SC; for (int i = 0; i < FK; i++) { n.keys[i] = vp_nd_u8();
#ifdef VP_NATIVE
    n.keys[i] = FK == 16 ? (uint8_t)(i * 9) ^ 128 : i * 40;
#endif
    n.children[i] = tok(); }
  for (int i = 0; i + 1 < SC; i++) REQUIRES(kb(n, i) < kb(n, i + 1));
#else
  n.count = 0; for (int i = 0; i < FK; i++) n.children[i] = FK == 48 ? N::setLeaf(i) : vp_nd_u8() & 1 ? tok() : 0;   /* copyTo does not look at the children */
#if FK == 48
  for (int i = 0; i < 256; i++) { uint8_t c = vp_nd_u8();
#ifdef VP_NATIVE
    if (!vp_replaying()) { c = i % 5 ? 48 : i / 6; if (c < 48 && !n.children[c]) c = 48; }
#endif
    REQUIRES(c <= 48); n.childIndex[i] = c; if (c < 48) n.count++; }
#else
  for (int i = 0; i < 256; i++) if (n.children[i]) n.count++;
#endif
#endif
  N *want = look(n, g); 
#ifdef VP_NATIVE
  new (&t.n) TO(0, 0); int m = 0; for (int i = 0; i < 256; i++) m += look(n, i) != 0; if (m > Cap<TO>::v) return; n.copyTo(&t.n); ENSURES(look(t.n, g) == want, "the copy holds the same children"); ENSURES((int)t.n.count == m, "the copy counts its children");
#else
  from = &n; target = &t.n; 
#if FK <= 16
  calls = gcalls = 0; n.copyTo(&t.n); ENSURES(gcalls == (want != 0) && (!want || gval == want), "copyTo hands over every stored child exactly once under its key"); ENSURES(calls == SC, "copyTo hands over nothing else");
#else
  for (int i = 0; i < 256; i++) seen[i] = 0; n.copyTo(&t.n);
  for (int i = 0; i < 256; i++) ENSURES(seen[i] == (look(n, i) != 0), "copyTo hands over every stored child exactly once under its key");
#endif
#endif
  vp_cover("copy");
}
#ifdef FULL
/* ---- growing and shrinking: replace a node by a copy of another size ---- */
static int step; static FROM *src; static void *made; static N *val, *par; static uint8_t key, kpar;
extern "C" void stub_copy(FROM *self, TO *to) { ENSURES(self == src && to != (void *)src && step++ == 0, "the replacement is a copy of the node"); made = to; 
  ENSURES(to->getType() == ty<TO>() && to->count == 0, "the replacement starts empty and has its type"); ENSURES(to->typeVersionLockObsolete.load() % 4 == 0, "the replacement starts unlocked and live"); ENSURES(to->getPrefixLength() == src->getPrefixLength(), "the replacement keeps the prefix length");
  unsigned i = vp_nd_u8(); if (i < to->getPrefixLength() && i < maxStoredPrefixLength) ENSURES(to->getPrefix()[i] == src->getPrefix()[i], "the replacement keeps the prefix"); }
extern "C" void stub_ins2(void *self, uint8_t k, N *c) { ENSURES(k == key && c == val && step++ == (made ? 1 : 0) && self == (made ? made : src), "the new child is added once"); 
  if (!made) ENSURES(src->typeVersionLockObsolete.load() & 2, "a node is modified only while locked"); }
extern "C" void stub_rem2(void *self, uint8_t k) { ENSURES(k == key && step++ == (made ? 1 : 0) && self == (made ? made : src), "the child is removed once"); 
  if (!made) ENSURES(src->typeVersionLockObsolete.load() & 2, "a node is modified only while locked"); }
extern "C" bool stub_change(N *p, uint8_t k, N *c) { ENSURES(p == par && k == kpar && c == made && made && step++ == 2, "the parent is redirected to the finished replacement"); ENSURES((p->typeVersionLockObsolete.load() & 2) && (src->typeVersionLockObsolete.load() & 2), "nodes are replaced only while both are locked"); return true; }
static void step_restructure(bool insert) {
  Box<FROM> b; FROM &n = b.n; Box<N256> pb; N256 &p = pb.n; uint64_t pad[64]; ThreadInfo &ti = *(ThreadInfo *)pad;
  uint64_t w = vp_nd_u64() >> 2 << 2, pw = vp_nd_u64(), v = vp_nd_u64(), pv = vp_nd_u64(); w = (w & ~(3ull << 62)) | (uint64_t)ty<FROM>() << 62; pw = (pw & ~(3ull << 62)) | 3ull << 62; if (vp_nd_u8() & 1) w |= 2; if (vp_nd_u8() & 1) w |= 1;
#ifdef VP_NATIVE
  w &= ~3ull; pw &= ~3ull; if (vp_nd_u8() & 3) v = w; if (vp_nd_u8() & 3) pv = pw;
#endif
  REQUIRES(!(v & 3) && !(pv & 3));   /* versions handed in came from readLockOrRestart */
  n.typeVersionLockObsolete = w; p.typeVersionLockObsolete = pw; n.prefixCount = vp_nd_u8() & 15; for (unsigned i = 0; i < maxStoredPrefixLength; i++) n.prefix[i] = vp_nd_u8();
  n.count = insert ? (FULL ? Cap<FROM>::v : vp_nd_u8()) : vp_nd_u8(); key = vp_nd_u8(); kpar = vp_nd_u8(); val = tok(); src = &n; par = &p; made = 0; step = 0; ART::g_marks = 0;
  bool root = insert ? !FULL && (vp_nd_u8() & 1) : FULL == 2;
#ifdef VP_NATIVE
  n.count = 0; 
#if FK <= 16
  memset(n.keys, 0, sizeof n.keys);
#elif FK == 48
  memset(n.childIndex, 48, 256);
#endif
  memset(n.children, 0, sizeof n.children); memset(p.children, 0, sizeof p.children); p.count = 1; p.children[kpar] = &n;
  int m = insert ? FULL ? Cap<FROM>::v : Cap<FROM>::v / 2 : FULL == 1 ? (FK == 16 ? 3 : FK == 48 ? 12 : 37) : Cap<FROM>::v - 1; for (int i = 0; i < m; i++) n.insert(key + 1 + i, N::setLeaf(i));
  if (!insert) { if (FULL == 1) n.remove(key + 1); n.insert(key, N::setLeaf(7)); }
  N::change(&p, kpar, &n);
#else
  if (insert && !FULL) REQUIRES(!n.isFull());
  if (!insert && FULL == 1) REQUIRES(n.isUnderfull()); if (!insert && FULL == 0) REQUIRES(!n.isUnderfull());
#endif
  bool nr = false; 
  if (insert) N::insertAndUnlock(&n, v, root ? 0 : &p, pv, kpar, key, val, nr, ti); else N::removeAndUnlock(&n, v, key, root ? 0 : &p, pv, kpar, nr, ti);
  uint64_t w2 = n.typeVersionLockObsolete.load(), pw2 = p.typeVersionLockObsolete.load(); bool ok = v == w && (root || pv == pw);
  ENSURES(nr == !ok, "the operation restarts exactly when a version it relies on is stale");
  if (!ok) { ENSURES(w2 == w && (pw2 & 3) == (pw & 3), "a failed attempt leaves locks as they were");
#ifdef VP_IR
    ENSURES(step == 0, "a failed attempt changes nothing");
#else
    ENSURES((look(n, key) != 0) == !insert, "a failed attempt changes nothing");
#endif
    ENSURES(ART::g_marks == 0, "a failed attempt retires nothing"); }
  else if (insert ? FULL : FULL == 1) {
    ENSURES((w2 & 1) && !(w2 & 2), "the replaced node is obsolete and unlocked"); ENSURES(w2 != w, "readers of the replaced node restart"); ENSURES(pw2 != pw && !(pw2 & 3), "the parent is unlocked with a new version");
    ENSURES(ART::g_marks == 1 && ART::g_marked == &n, "the replaced node is retired once");
#ifdef VP_IR
    ENSURES(step == 3 && made, "copy, modify, publish");
#else
    N *q = p.getChild(kpar); ENSURES(q != &n, "copy, modify, publish"); ENSURES(N::getChild(key, q) == (insert ? val : 0), "the replacement holds the change");
    uint8_t o = vp_nd_u8(); if (o != key) ENSURES(N::getChild(o, q) == look(n, o), "the replacement holds every other child");
#endif
  } else { ENSURES(w2 != w && !(w2 & 3), "the node is unlocked with a new version"); ENSURES(pw2 == pw, "the parent is untouched"); ENSURES(ART::g_marks == 0, "nothing is retired");
#ifdef VP_IR
    ENSURES(step == 1 && !made, "the node is modified in place");
#else
    ENSURES(look(n, key) == (insert ? val : 0), "the node is modified in place");
#endif
  }
  vp_cover("restructure");
}
extern "C" void harness_grow() { step_restructure(true); }
extern "C" void harness_shrink() { step_restructure(false); }
#else
/* ---- compressed prefixes ---- */
extern "C" void harness_prefix() {
  Box<N4> a, b; uint8_t fa[40], fb[40]; unsigned la = vp_nd_u8() & 31, lb = vp_nd_u8() & 31; uint8_t key = vp_nd_u8();
  for (int i = 0; i < 11; i++) { a.n.prefix[i] = vp_nd_u8(); b.n.prefix[i] = vp_nd_u8(); } a.n.prefixCount = la; b.n.prefixCount = lb;
  uint8_t oa[11]; for (int i = 0; i < 11; i++) oa[i] = a.n.prefix[i];
  a.n.addPrefixBefore(&b.n, key);   /* a's prefix becomes b's prefix, key, a's prefix */
  ENSURES(a.n.getPrefixLength() == la + lb + 1 && a.n.hasPrefix(), "joined prefix length");
  for (unsigned i = 0; i < 11; i++) if (i < la + lb + 1) { uint8_t want = i < lb ? b.n.prefix[i] : i == lb ? key : oa[i - lb - 1]; ENSURES(a.n.getPrefix()[i] == want, "joined prefix bytes, as far as they are stored"); }
  ENSURES(b.n.getPrefixLength() == lb, "the upper node's prefix is unchanged"); vp_cover("prefix");
}
extern "C" void harness_setprefix() {
  Box<N4> a; uint8_t buf[40]; unsigned l = vp_nd_u8(); REQUIRES(l <= 40); for (int i = 0; i < 12; i++) buf[i] = vp_nd_u8(); 
  uint8_t save[12]; for (int i = 0; i < 12; i++) save[i] = buf[i];
  a.n.setPrefix(buf, l); ENSURES(a.n.getPrefixLength() == l && a.n.hasPrefix() == (l > 0), "prefix length is kept even when it exceeds the stored bytes");
  for (unsigned i = 0; i < 11; i++) if (i < l) ENSURES(a.n.getPrefix()[i] == save[i], "stored prefix bytes"); vp_cover("setprefix");
}
/* ---- dispatch on the node type ---- */
static int hit; static uint8_t dk; static N *dv; static uint8_t ds, de; 
#define STUBS(T) extern "C" N *stub_getChild##T(N##T *n, uint8_t k) { ENSURES(k == dk && n->getType() == ty<N##T>(), "dispatch passes the key to the node of that type"); hit++; return dv; } \
  extern "C" bool stub_change##T(N##T *n, uint8_t k, N *v) { ENSURES(k == dk && v == dv && n->getType() == ty<N##T>(), "dispatch passes key and child to the node of that type"); hit++; return true; } \
  extern "C" N *stub_getAnyChild##T(N##T *n) { ENSURES(n->getType() == ty<N##T>(), "dispatch calls the node of that type"); hit++; return dv; } \
  extern "C" uint64_t stub_getChildren##T(N##T *n, uint8_t s, uint8_t e, void *o, uint32_t *c) { ENSURES(n->getType() == ty<N##T>() && s == ds && e == de, "dispatch passes the range to the node of that type"); hit++; *c = 5; return 77; }
STUBS(4) STUBS(16) STUBS(48) STUBS(256)
extern "C" void harness_dispatch() {
#ifdef VP_IR
  Box<N256> b; N *n = &b.n; unsigned t = vp_nd_u8() & 3; b.n.typeVersionLockObsolete = (vp_nd_u64() >> 2) | (uint64_t)t << 62; dk = vp_nd_u8(); dv = tok(); ds = vp_nd_u8(); de = vp_nd_u8();
  hit = 0; ENSURES(N::getChild(dk, n) == dv && hit == 1, "getChild dispatches once"); hit = 0; ENSURES(N::change(n, dk, dv) && hit == 1, "change dispatches once"); hit = 0; ENSURES(N::getAnyChild(n) == dv && hit == 1, "getAnyChild dispatches once");
  uint32_t c = 0; hit = 0; ENSURES(N::getChildren(n, ds, de, (std::tuple<uint8_t, N *> *)0, c) == 77 && c == 5 && hit == 1, "getChildren dispatches once");
#endif
  TID x = vp_nd_u64() & ~(1ull << 63); N *l = N::setLeaf(x); ENSURES(N::isLeaf(l) && N::getLeaf(l) == x, "a leaf pointer encodes its TID"); 
  vp_cover("dispatch");
}
#endif
