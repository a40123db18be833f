/* Contracts of the compressed-path comparisons of OptiQL/Tree.cpp (stored bytes limited to 15; the rest comes from a leaf's key) */
#include "tree.hpp"
#define L 20
static uint8_t fk[L]; static const N *node_; static Box<N256> nb; static int gets; static bool stale;
extern "C" TID stub_anytid(const N *n, bool *nr) { ENSURES(n == &nb.n, "the full path is taken from a leaf below this node"); gets++; if (stale) { *nr = true; return 0; } return 4711; }
static void loadk(TID t, Key &k) { ENSURES(t == 4711, "the full path is taken from a leaf below this node"); k.len = L; k.data = k.stackKey; for (int i = 0; i < L; i++) k.stackKey[i] = fk[i]; }
static Box<Key> kb; static Key *K; static unsigned lev, pl;
static void mk() { K = &kb.n; kb.n.len = L; kb.n.data = kb.n.stackKey; N256 &n = nb.n; pl = vp_nd_u8() & 31; lev = vp_nd_u8() & 3; *(uint64_t *)&n.lock = 44; REQUIRES(pl <= 17 && lev + pl < L); n.prefixCount.value = 3u << 30 | pl; gets = 0; stale = false;
#ifdef PLEN
  REQUIRES(pl == PLEN && lev == 1); pl = PLEN; lev = 1; n.prefixCount.value = 3u << 30 | PLEN;
#endif
  for (int i = 0; i < L; i++) { kb.n.stackKey[i] = vp_nd_u8(); fk[i] = vp_nd_u8(); } for (unsigned i = 0; i < 15; i++) { n.prefix[i] = vp_nd_u8(); if (i < pl) n.prefix[i] = fk[lev + i]; } }
static unsigned first() { for (unsigned i = 0; i < 17; i++) if (i < pl && fk[lev + i] != K->stackKey[lev + i]) return i; return pl; }
#ifdef VP_NATIVE
extern "C" void harness_optimistic() { mk(); vp_cover("x"); }
extern "C" void harness_pessimistic() { mk(); vp_cover("x"); }
extern "C" void harness_compare() { mk(); vp_cover("x"); }
#else
extern "C" void harness_optimistic() { mk(); unsigned level = lev; unsigned kl = vp_nd_u8() & 31; REQUIRES(kl <= L); kb.n.len = kl; auto r = Tree::checkPrefix(&nb.n, *K, level);
  bool fits = kl > lev + pl || !pl, eq = true; for (unsigned i = 0; i < 15; i++) if (i < pl && fk[lev + i] != K->stackKey[lev + i]) eq = false;
  ENSURES((r == Tree::CheckPrefixResult::NoMatch) == !(fits && eq), "an optimistic comparison rejects exactly on a stored byte that differs or a key too short"); if (fits && eq) { ENSURES(level == lev + pl, "a match moves past the whole path"); ENSURES((r == Tree::CheckPrefixResult::OptimisticMatch) == (pl > 15), "a match on stored bytes only is reported as optimistic"); }
  vp_cover("optimistic"); }
extern "C" void harness_pessimistic() { mk(); unsigned level = lev; uint8_t nk = 0; Prefix np; bool nr = false; stale = vp_nd_u8() & 1; bool moved = vp_nd_u8() & 1; unsigned m = first();
  auto r = Tree::checkPrefixPessimistic(&nb.n, moved ? 45 : 44, *K, level, nk, np, loadk, nr);
  if (moved) ENSURES(nr && !gets, "a node that changed is not compared"); else if (!stale) { ENSURES(!nr, "no restart without interference"); if (m == pl) ENSURES(r == Tree::CheckPrefixPessimisticResult::Match && level == lev + pl, "a full match moves past the whole path"); else { ENSURES(r == Tree::CheckPrefixPessimisticResult::NoMatch && level == lev + m && nk == fk[lev + m], "a mismatch is reported where the bytes first differ"); unsigned j = vp_nd_u8(); if (j < 15 && j < pl - m - 1) ENSURES(np[j] == fk[lev + m + 1 + j], "the rest of the path is preserved"); } }
  else ENSURES(nr == (gets > 0), "a leaf that cannot be read asks for a restart");
  vp_cover("pessimistic"); }
extern "C" void harness_compare() { mk(); unsigned level = lev; bool nr = false; uint8_t fill = vp_nd_u8(); unsigned kl = vp_nd_u8() & 31; REQUIRES(kl <= L); kb.n.len = kl; auto r = Tree::checkPrefixCompare(&nb.n, *K, fill, level, loadk, nr); int want = 0; for (unsigned i = 0; i < 17; i++) if (i < pl && !want) { uint8_t b = lev + i < kl ? K->stackKey[lev + i] : fill; want = fk[lev + i] < b ? -1 : fk[lev + i] > b; }
  ENSURES(r == (want < 0 ? Tree::PCCompareResults::Smaller : want > 0 ? Tree::PCCompareResults::Bigger : Tree::PCCompareResults::Equal), "a path compares with a key as its bytes do"); if (!want) ENSURES(level == lev + pl, "an equal path is passed entirely"); ENSURES(!nr, "no restart without interference"); vp_cover("compare"); }
#endif
