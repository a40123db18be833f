/* Contracts of OptiQL/Tree.cpp: walking down. Node access goes through the contracts proved in C15;
   the path (any depth an 8-byte key allows) and everything on it is arbitrary. */
#include "tree.hpp"
#ifdef VP_NATIVE
extern "C" void harness_lookup() { native_run(); }
extern "C" void harness_insert() { native_run(); }
extern "C" void harness_remove() { native_run(); }
extern "C" void harness_update() { native_run(); }
#else
#ifndef DEP
#define DEP 2
#endif
#define L 4
enum { NOMATCH, NOCHILD, LEAF };
#ifndef TEAR
#define TEAR -1
#define SITE 0
#endif
#ifndef TORNRES
#define TORNRES 0
#endif
struct Plain : N { Plain() : N(NTypes::N256, 0, 0) {} };
static Box<Plain> nd[DEP + 1]; static int cur, torn; static Key *K; static TID tid; static uint8_t lk[L]; static bool opt; static unsigned plen[DEP + 1]; static unsigned lev;
#ifdef PL
 static const unsigned PLV[] = {PL};
#endif
static Box<Tree> tb; static Box<Plain> sib; static int loads, acts; static bool wild;
static const uint64_t LOCKED = 1ull << 63; static uint64_t &word(int i) { return *(uint64_t *)&nd[i].n.lock; }
/* a restart begins at the root; writers have finished by then */
static uint64_t w0[DEP + 1];
static void restarted() { if (wild) for (int i = 0; i <= DEP; i++) { ENSURES(!(word(i) & LOCKED) || (i == TEAR && i && !SITE), "no lock is kept across a restart"); w0[i] = word(i) = 4 * (7 * i + 5) + 1; } wild = false; cur = 0; lev = 0; }
static void loadkey(TID t, Key &k) { ENSURES(t == tid, "the key compared is the key of the leaf that was found"); loads++; k.len = L; k.data = k.stackKey; for (int i = 0; i < L; i++) k.stackKey[i] = lk[i]; }
/* a writer changes the node between our read of its version and our read of its content: what we read is arbitrary */
static bool tear(int i, int site) { if (torn == i && site == SITE) { torn = -1; if (i && !SITE) word(i) |= LOCKED; else word(i)++; wild = true; return true; } return false; }
/* checkPrefix / checkPrefixPessimistic on the path */
static int prefix_at(const N *n, unsigned &level) { if (n == &nd[0].n && !level) restarted(); int i = cur;
  if (wild) { ENSURES(0, "a walk does not go on from a node that changed under it"); return 1; }
  ENSURES(n == &nd[cur].n, "the walk follows the path of the key"); ENSURES(level == lev, "the walk keeps its place in the key");
  if (tear(i, 0)) { level += vp_nd_u8() & 1; return TORNRES; }
  if (i == DEP && FIN == NOMATCH) return 1; level += plen[i]; lev = level; return opt && plen[i] ? 2 : 0; }
extern "C" uint8_t stub_prefix(N *n, const Key &k, uint32_t &level) { ENSURES(&k == K, "walks with the given key"); int r = prefix_at(n, level);
  return r == 1 ? (uint8_t)Tree::CheckPrefixResult::NoMatch : r == 2 ? (uint8_t)Tree::CheckPrefixResult::OptimisticMatch : (uint8_t)Tree::CheckPrefixResult::Match; }
static int kind; static N *lastc;   /* what the last child read was: 0 nothing, 1 a leaf, 2 a node */
extern "C" N *stub_child(uint8_t b, const N *n) { int i = cur; ENSURES(n == &nd[cur].n, "a child is taken from the node the walk stands on");
  if (tear(i, 1) || wild) { kind = vp_nd_u8() % 3; return lastc = kind == 0 ? 0 : kind == 1 ? N::setLeaf(vp_nd_u64()) : (N *)&nd[DEP].n; }
  ENSURES(b == (*K)[lev], "the walk branches on the next byte of the key");
  if (i == DEP) { kind = FIN != NOCHILD; return lastc = FIN == NOCHILD ? 0 : N::setLeaf(tid); }
  cur = i + 1; lev++; kind = 2; return lastc = &nd[i + 1].n; }
#ifdef REMOVE
static N *second; static bool asked;
#define SECOND(n) if (asked) { ENSURES(n == second, "only a child just read is classified"); return !SIB; }
#else
#define SECOND(n)
#endif
/* isLeaf is the top bit of the pointer; objects never have it set */
extern "C" bool stub_isleaf(const N *n) { SECOND(n) ENSURES(n == lastc, "only a child just read is classified"); return kind == 1; }
static Key *mk() {
  static Box<Key> kb; K = &kb.n; kb.n.len = L; kb.n.data = kb.n.stackKey; for (int i = 0; i < L; i++) kb.n.stackKey[i] = vp_nd_u8(); tid = vp_nd_u64() >> 1; REQUIRES(tid != 0);
  unsigned at = 0; opt = OPT; torn = TEAR; wild = false; cur = 0; lev = 0; loads = 0; acts = 0;
  for (int i = 0; i < L; i++) lk[i] = vp_nd_u8();
  for (int i = 0; i <= DEP; i++) { 
#ifdef PL
    plen[i] = PLV[i];
#else
    plen[i] = vp_nd_u8() & 3; if (i == 0) plen[i] = 0;
#endif
    word(i) = 4 * (7 * i + 5); nd[i].n.prefixCount.value = 3u << 30;   /* versions are opaque to the walk: it only compares and increments them through N (the units of the node files) */
    /* the leaf's key agrees with the searched key on every byte the walk has really compared */
    for (unsigned j = 0; j < L; j++) { if (j >= at && j < at + plen[i] && !opt) REQUIRES(lk[j] == K->stackKey[j]); if (j == at + plen[i]) REQUIRES(lk[j] == K->stackKey[j]); }
    at += plen[i]; REQUIRES(at < L); at++; }
  *(N **)&tb.n.root = &nd[0].n; tb.n.loadKey = loadkey; return K; }
#ifdef LOOKUP
extern "C" void harness_lookup() {
  Key &k = *mk(); TID r = tb.n.lookup(k);
  bool same = true; for (int i = 0; i < L; i++) same &= lk[i] == k.stackKey[i];
  ENSURES(r == (FIN == LEAF && same ? tid : 0), "lookup returns the key's value, or 0 when the key is absent");
  vp_cover("lookup");
}
#endif

/* ---- shared by insert and remove: the restructuring steps, by contract ---- */
#if defined(INSERT) || defined(REMOVE) || defined(UPDATE)
static int changes, marks, prefixed; static N *ch_node, *ch_val; static uint8_t ch_key; static uint8_t second_key, bkey[DEP + 1]; static void *marked;
static unsigned blev[DEP + 1];   /* level of the branch byte of node i */
static bool locked(int i) { return word(i) >> 63; } static N *obs;
/* a node that left the tree is marked obsolete before readers can see it unlocked again */
static bool gone(N *n);
/* the lock by contract (the units of the node files): taking it succeeds only on the version read, releasing it makes a new version */
extern "C" void stub_upgrade(N *n, uint64_t &v, N::Lock::Context *q, bool &nr) { ENSURES(!(v >> 63), "a lock is taken on a version"); ENSURES(q != 0, "the lock gets a queue node"); uint64_t &w = *(uint64_t *)&n->lock; nr = w != v || n->isObsolete(); if (!nr) w |= LOCKED; }
extern "C" void stub_lock(N *n, N::Lock::Context *q, bool &nr) { uint64_t &w = *(uint64_t *)&n->lock; ENSURES(!(w >> 63), "no lock is taken twice"); w |= LOCKED; }
extern "C" void stub_unlock(N *n, N::Lock::Context *q) { uint64_t &w = *(uint64_t *)&n->lock; ENSURES(w >> 63, "only a held lock is released"); if (gone(n)) ENSURES(n->isObsolete(), "a node that was replaced is unlocked only when obsolete"); w = (w & ~LOCKED) + 1; }
static void drop(void *n) { marks++; marked = n; for (int i = 0; i <= DEP; i++) ENSURES(!locked(i) || n != &nd[i].n, "a node is retired only after it is unlocked"); }
extern "C" bool stub_change(N *n, uint8_t k, N *v) { ENSURES(!wild, "nothing is changed on the strength of a stale read"); int i = n == &nd[DEP].n ? DEP : DEP - 1; ENSURES(i >= 0 && n == &nd[i].n, "only the node or its parent is changed"); ENSURES(locked(i), "a child is replaced only while its node is locked"); changes++; ch_node = n; ch_key = k; ch_val = v; return true; }
extern "C" void stub_update(N *n, uint64_t v, N *p, uint64_t pv, uint8_t pk, uint8_t k, bool &nr, N *val) {
  ENSURES(n == &nd[cur].n, "the change is made at the end of the path"); if (word(cur) != v || (cur && word(cur - 1) != pv)) { nr = true; return; }
  ENSURES(!wild, "nothing is changed on the strength of a stale read"); ENSURES(cur == DEP, "the change is made at the end of the path"); ENSURES(p == (DEP ? &nd[DEP - (DEP > 0)].n : (N *)0), "the parent handed over is the parent"); if (DEP) ENSURES(pk == (*K)[blev[DEP - (DEP > 0)]], "the parent key handed over is the one the path used");
  ENSURES(k == (*K)[blev[DEP]], "the change is made under the key's byte"); word(cur)++; acts++; ch_val = val; }
extern "C" void stub_insert(N *n, uint64_t v, N *p, uint64_t pv, uint8_t pk, uint8_t k, N *val, bool *nr, N *&o) { stub_update(n, v, p, pv, pk, k, *nr, val); if (acts) o = obs; }
extern "C" void stub_remove(N *n, uint64_t v, uint8_t k, N *p, uint64_t pv, uint8_t pk, bool *nr, N *&o) { stub_update(n, v, p, pv, pk, k, *nr, 0); if (acts) o = obs; }
static void levels() { unsigned at = 0; for (int i = 0; i <= DEP; i++) { at += plen[i]; blev[i] = at; at++; w0[i] = word(i); nd[i].n.prefixCount.value = 3u << 30 | plen[i]; } tb.n.removeNode = drop; obs = vp_nd_u8() & 1 ? &nd[DEP].n : 0; changes = marks = prefixed = 0; }
static void quiet(int except) { for (int i = 0; i <= DEP; i++) { ENSURES(!locked(i), "no lock is left behind"); if (!(except >> i & 1)) ENSURES(!nd[i].n.isObsolete(), "no other node becomes obsolete"); } }
#endif
#ifdef REMOVE
extern "C" void stub_addprefix(N *self, N *n, uint8_t k) { ENSURES(self == second && n == &nd[DEP].n && k == second_key, "the remaining child takes over the removed node's path"); ENSURES(*(uint64_t *)&self->lock >> 63, "a prefix changes only while its node is locked"); prefixed++; }
/* std::tuple<N*, uint8_t> comes back through memory */
extern "C" void stub_second(std::tuple<N *, uint8_t> *out, N *n, uint8_t k) { ENSURES(n == &nd[DEP].n && k == (*K)[blev[DEP]], "asks for the child beside the removed one"); ENSURES(locked(DEP), "asks while locked"); asked = true; std::get<0>(*out) = second; std::get<1>(*out) = second_key; }
static bool gone(N *n) { return n == &nd[DEP].n && COUNT == 2 && DEP && changes; }
extern "C" void harness_remove() {
  Key &k = *mk(); levels(); TID t = vp_nd_u8() & 1 ? tid : vp_nd_u64() >> 1; nd[DEP].n.count = COUNT; 
  second = SIB ? (N *)&sib.n : N::setLeaf(vp_nd_u64()); second_key = vp_nd_u8(); uint64_t &sw = *(uint64_t *)&sib.n.lock; sw = 400; uint64_t sw0 = sw; 
  bool r = tb.n.remove(k, t);
  bool hit = FIN == LEAF && t == tid, coll = hit && COUNT == 2 && DEP; uint64_t pn = w0[DEP - (DEP > 0)], own = w0[DEP];
  quiet(coll ? 1 << DEP : 0); ENSURES(!(sw >> 63), "no lock is left behind");
  ENSURES(r == hit, "remove reports whether the key was stored with that value");
  if (!hit) ENSURES(!acts && !changes && !marks, "removing an absent key, or one with another value, changes nothing");
  else if (!coll) ENSURES(acts == 1 && !changes && marks == (obs != 0) && (!obs || marked == obs), "the key is removed from its node once, and a replaced node retired once");
  else { ENSURES(!acts && changes == 1 && ch_node == &nd[DEP - (DEP > 0)].n && ch_key == k[blev[DEP - (DEP > 0)]] && ch_val == second, "a node left with one child is replaced in its parent by that child"); ENSURES(nd[DEP].n.isObsolete(), "the emptied node becomes obsolete"); ENSURES(marks == 1 && marked == &nd[DEP].n, "the emptied node is retired once");
    ENSURES(prefixed == SIB, "an inner child takes over the compressed path"); ENSURES(word(DEP - (DEP > 0)) != pn && word(DEP) != own, "readers of the changed nodes restart"); if (SIB) ENSURES(sw != sw0, "readers of the child restart"); }
  vp_cover("remove");
}
#endif
#ifdef INSERT
static uint8_t nmk, rem[15], pfx[15]; static unsigned nml;
extern "C" uint8_t stub_pess(N *n, uint64_t v, const Key &k, uint32_t &level, uint8_t &nonMatchingKey, Prefix &nonMatchingPrefix, void *lk_, bool &nr) { ENSURES(&k == K, "walks with the given key"); 
  bool end = cur == DEP && !wild; unsigned l0 = level; int r = prefix_at(n, level); if (r == 1) { nonMatchingKey = nmk; for (int i = 0; i < 15; i++) nonMatchingPrefix[i] = rem[i]; if (!wild) level = l0 + nml; return (uint8_t)Tree::CheckPrefixPessimisticResult::NoMatch; }
  return (uint8_t)Tree::CheckPrefixPessimisticResult::Match; }
static bool gone(N *n) { return false; }
extern "C" void harness_insert() {
  Key &k = *mk(); levels(); TID t = vp_nd_u64() >> 1; nmk = vp_nd_u8(); nml = vp_nd_u8(); for (int i = 0; i < 15; i++) { rem[i] = vp_nd_u8(); pfx[i] = vp_nd_u8(); nd[DEP].n.prefix[i] = pfx[i]; }
  unsigned at = blev[DEP] - plen[DEP]; bool same = true; for (int i = 0; i < L; i++) same &= lk[i] == k.stackKey[i];
  if (FIN == NOMATCH) { REQUIRES(nml < plen[DEP] && nmk != k[at + nml]); }
  bool r = tb.n.insert(k, t); N *leaf = N::setLeaf(t);
  quiet(0); ENSURES(r == !(FIN == LEAF && same), "insert reports whether the key is new"); ENSURES(marks == (FIN == NOCHILD && obs) && (!marks || marked == obs), "insert retires exactly a node that was replaced by a larger one");
  if (FIN == NOCHILD) ENSURES(acts == 1 && !changes && ch_val == leaf, "a new key is added to its node once");
  else if (FIN == LEAF && same) ENSURES(!acts && !changes, "inserting a present key changes nothing");
  else if (FIN == LEAF) { ENSURES(!acts && changes == 1 && ch_node == &nd[DEP].n && ch_key == k[blev[DEP]], "the leaf is replaced in its node"); ENSURES(word(DEP) != w0[DEP], "readers of the node restart");
    { ENSURES(!((uint64_t)ch_val >> 63), "two keys in one place get a node of their own"); N4 *m = (N4 *)ch_val; unsigned d = 0; for (int i = L - 1; i >= 0; i--) if ((unsigned)i > blev[DEP] && lk[i] != k.stackKey[i]) d = i;
      ENSURES(m->getType() == NTypes::N4 && m->count == 2, "the new node holds both keys"); ENSURES(m->getPrefixLength() == d - blev[DEP] - 1, "the new node's prefix is what the keys share"); unsigned g = vp_nd_u8() & 3; if (g < m->getPrefixLength()) ENSURES(m->getPrefix()[g] == k[blev[DEP] + 1 + g], "the new node's prefix is what the keys share");
      int p = m->keys[0] == k[d] ? 0 : 1; ENSURES(m->keys[p] == k[d] && m->children[p] == leaf && m->keys[1 - p] == lk[d] && m->children[1 - p] == N::setLeaf(tid), "the new node holds both keys, each under its byte"); ENSURES(m->keys[0] < m->keys[1], "the new node is ordered"); } }
  else { ENSURES(!acts && changes == 1 && ch_node == &nd[DEP - (DEP > 0)].n && ch_key == k[blev[DEP - (DEP > 0)]] && !((uint64_t)ch_val >> 63), "a split path is re-attached to the parent"); N4 *m = (N4 *)ch_val; 
    ENSURES(m->getType() == NTypes::N4 && m->count == 2 && m->getPrefixLength() == nml, "the new node carries the shared part of the path"); unsigned g = vp_nd_u8() & 3; if (g < nml) ENSURES(m->getPrefix()[g] == pfx[g], "the new node carries the shared part of the path");
    int p = m->keys[0] == k[at + nml] ? 0 : 1; ENSURES(m->keys[p] == k[at + nml] && m->children[p] == leaf && m->keys[1 - p] == nmk && m->children[1 - p] == &nd[DEP].n, "the new node holds the key and the old subtree"); ENSURES(m->keys[0] < m->keys[1], "the new node is ordered");
    ENSURES(nd[DEP].n.getPrefixLength() == plen[DEP] - nml - 1, "the old node keeps the rest of the path"); unsigned h = vp_nd_u8() & 3; if (h < nd[DEP].n.getPrefixLength()) ENSURES(nd[DEP].n.getPrefix()[h] == rem[h], "the old node keeps the rest of the path");
    ENSURES(word(DEP - (DEP > 0)) != w0[DEP - (DEP > 0)] && word(DEP) != w0[DEP], "readers of the changed nodes restart"); }
  vp_cover("insert");
}
#endif
#ifdef UPDATE
static bool gone(N *n) { return false; } static int expands;
extern "C" void stub_expand(Tree *t, const Key &k, N *n, uint32_t level, N *v) { ENSURES(&k == K && n == &nd[DEP].n && locked(DEP) && level == blev[DEP] && v == ch_val && changes == 1, "a leaf is expanded only under its node's lock, at its place, with its new value"); expands++; }
extern "C" void harness_update() {
  Key &k = *mk(); levels(); TID t = vp_nd_u64() >> 1; 
  bool r = tb.n.update(k, t); bool same = true; for (int i = 0; i < L; i++) same &= lk[i] == k.stackKey[i]; bool hit = FIN == LEAF && same; uint64_t own = w0[DEP];
  quiet(0); ENSURES(!marks && !acts, "update retires nothing"); ENSURES(r == hit, "update reports whether the key is stored");
  if (hit) { ENSURES(changes == 1 && ch_node == &nd[DEP].n && ch_key == k[blev[DEP]] && ch_val == N::setLeaf(t), "update replaces the value of its key"); ENSURES(word(DEP) != own && expands <= 1, "readers of the node restart"); }
  else ENSURES(!changes && !expands, "updating an absent key changes nothing");
  vp_cover("update");
}
#endif
#endif
