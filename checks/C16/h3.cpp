/* Tree::tryExpand: a contended leaf becomes a path that leads exactly its own key to the same value */
#include "tree.hpp"
#ifdef VP_NATIVE
static int j0() { return LV; }
/* native search: contended leaves of the real tree, keys of this length */
extern "C" void harness_expand() {
  KL = EKL; int n = 2 + vp_nd_u8() % 6; for (int i = 0; i < 24; i++) { for (int j = 0; j < KL; j++) tab[i][j] = j <= LV ? 7 : vp_nd_u8(); tab[i][j0()] = 10 * i + (vp_nd_u8() & 7); }
  Tree t(loadk, drop); TID cur[24]; for (int i = 0; i < n; i++) { Key k; loadk(i, k); ENSURES(t.insert(k, i + 24), "insert reports whether the key was new"); cur[i] = i + 24; }
  for (int u = 0; u < 14000; u++) { int i = u & 7 ? 0 : u % n; Key k; loadk(i, k); cur[i] = i + 24 * (1 + u % 5); if (!cur[i]) cur[i] = 24; ENSURES(t.update(k, cur[i]), "update reports whether the key is stored"); }
  for (int i = 0; i < n; i++) { Key k; loadk(i, k); ENSURES(t.lookup(k) == cur[i], "every key keeps its value"); }
  vp_cover("native");
}
#else
static Box<Tree> tb; static Box<Key> kb; struct Plain : N { Plain() : N(NTypes::N256, 0, 0) {} }; static Box<Plain> pb; static int changes; static uint8_t ck; static N *cv; static uint32_t rnd;
extern "C" uint32_t stub_next(uniform_random_generator *g) { return rnd; }
extern "C" bool stub_change(N *n, uint8_t k, N *v) { ENSURES(n == &pb.n, "only the leaf's own node is changed"); changes++; ck = k; cv = v; return true; }
extern "C" void harness_expand() {
  Key &k = kb.n; k.len = EKL; k.data = k.stackKey; for (int i = 0; i < EKL; i++) k.stackKey[i] = vp_nd_u8(); rnd = vp_nd_u32(); pb.n.hotness = HOT; changes = 0; TID t = vp_nd_u64() >> 1; N *leaf = N::setLeaf(t); 
  *(uint64_t *)&pb.n.lock = 1ull << 63 | 4096;
  tb.n.tryExpand(k, &pb.n, LV, leaf);
  ENSURES(changes <= 1 && (LV < EKL - 1 || !changes), "a leaf under the last byte stays as it is");
  if (changes) {
    ENSURES(ck == k[LV] && !((uint64_t)cv >> 63), "the leaf is replaced under its own byte");
    N4 *a = (N4 *)cv; ENSURES(a->getType() == NTypes::N4 && a->count == 1, "the new path has one branch per node"); unsigned pl = a->getPrefixLength(), at = LV + 1;
    ENSURES(at + pl < EKL, "the path is not longer than the key"); unsigned g = vp_nd_u8() & 15; if (g < pl && g < 15) ENSURES(a->getPrefix()[g] == k[at + g], "the path spells the key"); at += pl;
    ENSURES(a->keys[0] == k[at], "the path spells the key"); N *c = a->children[0]; at++;
    if (LV + 3 <= EKL) { ENSURES(!((uint64_t)c >> 63) && c != leaf, "a path of two nodes"); N4 *b = (N4 *)c; ENSURES(b->getType() == NTypes::N4 && b->count == 1 && b->getPrefixLength() == 0 && at < EKL && b->keys[0] == k[at], "the path spells the key"); c = b->children[0]; at++; }
    ENSURES(at == EKL, "the path spells the whole key"); ENSURES(c == leaf, "the path leads to the value"); ENSURES(HOT >= 1024, "only a contended leaf is expanded"); }
  else ENSURES(!(HOT >= 1024 && rnd == 0 && LV < EKL - 1), "a contended leaf is expanded");
  vp_cover("expand");
}
#endif
