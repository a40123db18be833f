/* hash-ordered slots of a wormhole leaf: insertion, removal, search */
#include "leaf.h"
#ifdef VP_NATIVE
#define H(x) void x(void) { native_run(); }
H(harness_inserths) H(harness_pull) H(harness_match) H(harness_searchih) H(harness_shift) H(harness_searchis)
#else
void harness_inserths(void) { anyhs(&lf); REQUIRES(inv(&lf, WH_KPN)); u32 n = used(&lf); REQUIRES(n < WH_KPN); struct entry13 e; e.v64 = vp_nd_u64(); REQUIRES(e.e1 && e.e3); gs = vp_nd_u32(); REQUIRES(gs < WH_KPN && lf.hs[gs].e1); u64 old = lf.hs[gs].v64; shifts = 0;
  u32 r = wormleaf_insert_hs(&lf, e); ENSURES(r < WH_KPN, "there is a slot for every entry"); ENSURES(lf.hs[r & (WH_KPN - 1)].v64 == e.v64, "the new entry is stored"); ENSURES(inv(&lf, WH_KPN), "insert keeps the slots ordered by hash and reachable"); ENSURES(used(&lf) == n + 1, "insert adds exactly one entry"); ENSURES(gs != r && lf.hs[gs & (WH_KPN - 1)].v64 == old, "insert keeps every other entry, and moves its index with it"); ENSURES(shifts <= 1, "at most one shift"); vp_cover("inserths"); }
void harness_inserths0(void) { anyhs(&lf); REQUIRES(inv(&lf, WH_KPN)); REQUIRES(used(&lf) == 0); struct entry13 e; e.v64 = vp_nd_u64(); REQUIRES(e.e1 && e.e3); u32 r = wormleaf_insert_hs(&lf, e); ENSURES(r < WH_KPN && lf.hs[r & (WH_KPN - 1)].v64 == e.v64 && inv(&lf, WH_KPN) && used(&lf) == 1, "the first entry is stored at its home"); vp_cover("inserths0"); }
void harness_pull(void) { anyhs(&lf); u32 ih = vp_nd_u32(); REQUIRES(ih < WH_KPN && lf.hs[ih].e1); REQUIRES(inv(&lf, WH_KPN)); u32 n = used(&lf); gs = vp_nd_u32(); REQUIRES(gs < WH_KPN && gs != ih && lf.hs[gs].e1); u64 old = lf.hs[gs].v64; shifts = 0; lf.hs[ih].v64 = 0;
  wormleaf_pull_ih(&lf, ih); ENSURES(inv(&lf, WH_KPN), "removal keeps the slots ordered by hash and reachable"); ENSURES(used(&lf) == n - 1, "removal drops exactly one entry"); ENSURES(lf.hs[gs & (WH_KPN - 1)].v64 == old, "removal keeps every other entry, and moves its index with it"); vp_cover("pull"); }
static struct kref kr; static u64 target;
bool stub_match(const struct kref *const k, const struct kv *const c) { ENSURES(k == &kr && c, "a stored key is compared with the given one"); return ptr_to_u64(c) == target; }
void harness_match(void) { anyhs(&lf); REQUIRES(inv(&lf, WH_KPN)); kr.hash32 = vp_nd_u32(); target = vp_nd_u64(); u16 pk = wormhole_pkey(kr.hash32); ENSURES(pk != 0, "no key hashes to the empty mark"); u32 at = WH_KPN; REQUIRES(target > 0 && target <= WH_KPN); for (u32 i = 0; i < WH_KPN; i++) { REQUIRES(!lf.hs[i].e1 || (lf.hs[i].e3 > 0 && lf.hs[i].e3 <= WH_KPN)); if (lf.hs[i].e1 && lf.hs[i].e3 == target) { REQUIRES(at == WH_KPN && lf.hs[i].e1 == pk); at = i; } }
  ENSURES(wormleaf_match_hs(&lf, &kr) == at, "a key is found exactly when it is stored, at its slot"); vp_cover("match"); }
void harness_searchih(void) { anyhs(&lf); REQUIRES(inv(&lf, WH_KPN)); struct entry13 e; e.v64 = vp_nd_u64(); REQUIRES(e.e1 && e.e3); u32 at = WH_KPN; for (u32 i = 0; i < WH_KPN; i++) if (lf.hs[i].v64 == e.v64) { REQUIRES(at == WH_KPN); at = i; } ENSURES(wormleaf_search_ih(&lf, e) == at, "an entry is found exactly when it is stored"); vp_cover("searchih"); }
#ifdef MOVESTUB
static const void *md, *ms; static unsigned long mn; static int moves;
static void vp_move(void *d, const void *s, unsigned long n) { md = d; ms = s; mn = n; moves++; }
void harness_shift(void) { u32 from = vp_nd_u32(), nr = vp_nd_u32(), k = vp_nd_u32(); lf.nr_keys = vp_nd_u32(); REQUIRES(lf.nr_keys <= WH_KPN && k < lf.nr_keys && nr > 0 && from < WH_KPN && nr <= WH_KPN - from); for (u32 i = 0; i < WH_KPN; i++) { lf.ss[i] = vp_nd_u8(); REQUIRES(lf.ss[i] < WH_KPN); } u32 o = lf.ss[k]; moves = 0;
#if INC
  REQUIRES(from + nr < WH_KPN); wormleaf_shift_inc(&lf, from + 1, from, nr); ENSURES(md == &lf.hs[from + 1], "the entries move up by one"); u32 w = o >= from && o < from + nr ? o + 1 : o;
#else
  REQUIRES(from > 0); wormleaf_shift_dec(&lf, from - 1, from, nr); ENSURES(md == &lf.hs[from - 1], "the entries move down by one"); u32 w = o >= from && o < from + nr ? o - 1 : o;
#endif
  ENSURES(moves == 1 && ms == &lf.hs[from] && mn == nr * sizeof(lf.hs[0]), "exactly the given entries are moved"); ENSURES(lf.ss[k] == w, "the sorted index follows the entries that moved, and no others"); vp_cover("shift"); }
#endif
void harness_searchis(void) { u32 k = vp_nd_u32(); lf.nr_keys = vp_nd_u32(); REQUIRES(lf.nr_keys <= WH_KPN && k < lf.nr_keys); for (u32 i = 0; i < WH_KPN; i++) lf.ss[i] = vp_nd_u8(); for (u32 i = 0; i < WH_KPN; i++) REQUIRES(i >= k || lf.ss[i] != lf.ss[k]); ENSURES(wormleaf_search_is(&lf, lf.ss[k]) == k, "the sorted index of a slot is found"); vp_cover("searchis"); }
#endif
