/* wormhole: sorted index of a leaf, insertion/removal bookkeeping, split, merge, child bitmaps, prefix search */
#include "leaf.h"
#ifdef VP_NATIVE
#define H(x) void x(void) { native_run(); }
H(harness_searchss) H(harness_seek) H(harness_seekend) H(harness_kvatis1) H(harness_alen) H(harness_cut) H(harness_inserte) H(harness_insert) H(harness_remove) H(harness_rmih) H(harness_move1) H(harness_merge) H(harness_sort) H(harness_sync) H(harness_bmset) H(harness_bmtest) H(harness_bmgl) H(harness_bmclear) H(harness_sethelper) H(harness_clearhelper) H(harness_down) H(harness_lcp)
#else
/* keys: kv pointer &kvs[i] has rank 2i+2; a kref has rank krank */
static struct kref kr; static u32 krank;
static u32 rank(const struct kv *k) { return 2 * (u32)(k - kvs) + 2; }
int kref_kv_compare(const struct kref *const k, const struct kv *const c) { ENSURES(k == &kr && c, "a stored key is compared with the given one"); u32 r = rank(c); return krank < r ? -1 : krank > r; }
int kv_compare(const struct kv *const a, const struct kv *const b) { return a < b ? -1 : a > b; }
struct kv *stub_kvatis(const struct wormleaf *const l, const u32 i) { ENSURES(l == &lf && i < l->nr_keys, "only stored keys are looked at"); return &kvs[i]; }
void harness_searchss(void) { lf.nr_sorted = vp_nd_u32(); REQUIRES(lf.nr_sorted <= WH_KPN); lf.nr_keys = lf.nr_sorted; krank = 2 * (vp_nd_u32() & 255) + 1; u32 r = wormleaf_search_ss(&lf, &kr); u32 w = krank / 2 < lf.nr_sorted ? krank / 2 : lf.nr_sorted; ENSURES(r == w, "binary search finds the number of smaller keys"); vp_cover("searchss"); }
static u32 mret; static int srch; static u32 sret;
u32 stub_matchhs(const struct wormleaf *const l, const struct kref *const k) { ENSURES(l == &lf && k == &kr, "the key is looked up in the leaf"); return mret; }
u32 stub_searchis(const struct wormleaf *const l, const u8 ih) { ENSURES(l == &lf && ih == mret, "the index of the slot found is looked up"); srch |= 1; return sret; }
u32 stub_searchss(const struct wormleaf *const l, const struct kref *const k) { ENSURES(l == &lf && k == &kr && mret >= WH_KPN, "binary search only for keys that are not stored"); srch |= 2; return sret; }
void harness_seek(void) { lf.nr_keys = lf.nr_sorted = vp_nd_u32(); REQUIRES(lf.nr_keys <= WH_KPN); mret = vp_nd_u32(); sret = vp_nd_u32(); REQUIRES(mret <= WH_KPN); srch = 0; u32 r = wormleaf_seek(&lf, &kr); ENSURES(r == sret && srch == (mret < WH_KPN ? 1 : 2), "seek yields the position of the key, or of the first larger one"); vp_cover("seek"); }
u32 stub_seek(const struct wormleaf *const l, const struct kref *const k) { ENSURES(l == &lf && k == &kr, "the key is looked up in the leaf"); return krank / 2 < lf.nr_sorted + (krank & 1 ? 0 : 1) ? (krank & 1 ? krank / 2 : krank / 2 - 1) : lf.nr_sorted; }
void harness_seekend(void) { lf.nr_keys = lf.nr_sorted = vp_nd_u32(); REQUIRES(lf.nr_keys <= WH_KPN); krank = vp_nd_u32() & 511; REQUIRES(krank > 0); u32 r = wormleaf_seek_end(&lf, &kr); ENSURES(r <= lf.nr_sorted && (r == 0 || 2 * (r - 1) + 2 < krank) && (r == lf.nr_sorted || 2 * r + 2 >= krank), "seek yields the position of the key, or of the first larger one"); vp_cover("seekend"); }
void harness_kvatis1(void) { lf.nr_keys = lf.nr_sorted = vp_nd_u32(); REQUIRES(lf.nr_keys <= WH_KPN); u32 i = vp_nd_u32(), is1 = vp_nd_u32(); REQUIRES(i <= lf.nr_keys && is1 <= lf.nr_keys); const struct kv *nw = &kvs[WH_KPN + 1]; const struct kv *r = wormleaf_kv_at_is1(&lf, i, is1, nw); ENSURES(r == (i == is1 ? nw : &kvs[i < is1 ? i : i - 1]), "the leaf is read as if the new key were in its place"); vp_cover("kvatis1"); }
/* choosing the cut: cb[i] is the byte of the i-th key behind the common prefix (0: the key ends there) */
static u16 cb[WH_KPN + 1];
const struct kv *stub_kvatis1(const struct wormleaf *const l, const u32 i, const u32 is1, const struct kv *const k1) { ENSURES(l == &lf && i <= l->nr_keys && k1 == &kvs[WH_KPN + 1], "only stored keys are looked at"); return &kvs[i]; }
static u32 lcp0;
u32 kv_key_lcp(const struct kv *const a, const struct kv *const b) { return lcp0; }
bool stub_alen(const u32 alen, const struct kv *const a, const struct kv *const b) { ENSURES(alen == lcp0 + 1, "keys are compared right behind the common prefix"); return cb[a - kvs] != cb[b - kvs]; }
void harness_cut(void) { static struct wormleaf nx; lf.nr_keys = lf.nr_sorted = vp_nd_u32(); REQUIRES(lf.nr_keys <= WH_KPN); lf.next = vp_nd_u32() & 1 ? &nx : NULL; lcp0 = vp_nd_u32(); u32 l = vp_nd_u32(), h = vp_nd_u32(), is1 = vp_nd_u32(); REQUIRES(l < h && h <= lf.nr_keys && is1 <= lf.nr_keys && lcp0 < 0xfffffff0u); for (u32 i = 0; i <= WH_KPN; i++) { cb[i] = vp_nd_u16() & 0x1ff; if (i) REQUIRES(i <= l || i > h || cb[i] >= cb[i - 1]); } REQUIRES(cb[l] != cb[h]);
  u32 r = wormhole_split_cut_search1(&lf, l, h, is1, &kvs[WH_KPN + 1]); if (lcp0 + 1 > 65535) ENSURES(r == WH_KPN2, "an anchor that would be too long is refused"); else ENSURES(r > l && r <= h && cb[r - 1] != cb[r], "the cut lies between two keys that the shortest anchor tells apart"); vp_cover("cut"); }
static struct { struct kv k; u8 b[8]; } ka, kb;
void harness_alen(void) { for (u32 i = 0; i < 8; i++) { ka.k.kv[i] = vp_nd_u8(); kb.k.kv[i] = vp_nd_u8(); } ka.k.klen = vp_nd_u32(); kb.k.klen = vp_nd_u32(); REQUIRES(ka.k.klen <= 8 && kb.k.klen <= 8); u32 n = 0; while (n < 8 && n < ka.k.klen && n < kb.k.klen && ka.k.kv[n] == kb.k.kv[n]) n++; u32 alen = vp_nd_u32(); REQUIRES(alen > 0 && alen <= n + 1 && kb.k.klen >= alen && alen <= 8); bool r = wormhole_split_cut_alen_check(alen, &ka.k, &kb.k); ENSURES(r == (n < alen), "two keys are told apart by a prefix exactly when they differ within it"); vp_cover("alen"); }
/* bookkeeping of the sorted index around insertion and removal of a slot */
static u32 ihret; static u64 ins;
u32 stub_inserths(struct wormleaf *const l, const struct entry13 e) { ins = e.v64; return ihret; }
void harness_inserte(void) { lf.nr_keys = vp_nd_u32(); REQUIRES(lf.nr_keys < WH_KPN); for (u32 i = 0; i < WH_KPN; i++) lf.ss[i] = vp_nd_u8(); u32 k = vp_nd_u32(), n = lf.nr_keys, so = lf.nr_sorted = vp_nd_u32(); REQUIRES(so <= n && k < n); u8 o = lf.ss[k]; ihret = vp_nd_u32(); REQUIRES(ihret < WH_KPN); struct entry13 e; e.v64 = vp_nd_u64(); wormleaf_insert_e13(&lf, e); ENSURES(lf.nr_keys == n + 1 && lf.ss[n] == ihret && lf.ss[k] == o && ins == e.v64 && lf.nr_sorted == so, "a new entry is appended to the index"); vp_cover("inserte"); }
static int ie; static u64 iev;
void stub_inserte(struct wormleaf *const l, const struct entry13 e) { iev = e.v64; ie++; l->ss[l->nr_keys] = (u8)ihret; l->nr_keys++; }
void debug_assert_hash(void) {}
u32 kv_crc32c(const void *const p, u32 len) { return (u32)vp_nd_u32(); }
static struct kv newkv;
u64 kv_crc32c_extend(const u32 lo) { return newkv.hash; }
static const struct kv *lastkv;
struct kv *stub_kvatis2(const struct wormleaf *const l, const u32 i) { ENSURES(l == &lf && i + 2 == l->nr_keys, "the new key is compared with the last one"); return (struct kv *)lastkv; }
static u32 lastcmp;
void harness_insert(void) { u32 n = vp_nd_u32(), so = vp_nd_u32(); REQUIRES(so <= n && n < WH_KPN); lf.nr_keys = n; lf.nr_sorted = so; struct kv *nw = &kvs[4]; nw->hash = newkv.hash = vp_nd_u64(); bool larger = vp_nd_u8() & 1; lastkv = larger ? &kvs[3] : &kvs[5]; ihret = vp_nd_u32(); REQUIRES(ihret < WH_KPN); ie = 0; wormleaf_insert(&lf, nw);
  ENSURES(ie == 1 && iev == ((ptr_to_u64(nw) << 16) | wormhole_pkey((u32)nw->hash)), "the new key is stored under its hash"); ENSURES(lf.nr_keys == n + 1 && lf.nr_sorted <= n + 1, "one more key"); ENSURES(lf.nr_sorted == so || (so == n && lf.nr_sorted == n + 1 && (n == 0 || larger)), "keys count as sorted only where they are"); vp_cover("insert"); }
static u32 pih = WH_KPN; static int pulls;
void stub_pull(struct wormleaf *const l, const u32 ih) { ENSURES(l->hs[ih].v64 == 0, "the slot is emptied first"); pih = ih; pulls++; }
void harness_remove(void) { u32 n = vp_nd_u32(), so = vp_nd_u32(), ih = vp_nd_u32(), is = vp_nd_u32(), k = vp_nd_u32(), g = vp_nd_u32(); REQUIRES(n > 0 && n <= WH_KPN && so <= n && is < n && ih < WH_KPN && k < n && g < WH_KPN && g != ih); lf.nr_keys = n; lf.nr_sorted = so; for (u32 i = 0; i < WH_KPN; i++) { lf.ss[i] = vp_nd_u8(); REQUIRES(lf.ss[i] < WH_KPN); } lf.hs[ih].v64 = vp_nd_u64(); REQUIRES(lf.hs[ih].e3 > 0 && lf.hs[ih].e3 <= WH_KPN); lf.hs[g].v64 = vp_nd_u64(); u64 go = lf.hs[g].v64, v = lf.hs[ih].e3; u8 ok = lf.ss[k], last = lf.ss[n - 1]; pulls = 0;
#ifdef VIASS
  REQUIRES(lf.ss[is] == ih); struct kv *r = wormleaf_remove_is(&lf, is);
#else
  struct kv *r = wormleaf_remove(&lf, ih, is);
#endif
  ENSURES(r == u64_to_ptr(v), "the removed key is handed back"); ENSURES(pulls == 1 && pih == ih && lf.hs[ih].v64 == 0 && lf.hs[g].v64 == go, "exactly its slot is emptied"); ENSURES(lf.nr_keys == n - 1, "one key less"); if (k < n - 1) ENSURES(lf.ss[k] == (k == is ? last : ok), "every other key stays indexed"); ENSURES(lf.nr_sorted <= so && lf.nr_sorted <= is && lf.nr_sorted <= n - 1, "keys count as sorted only where they are"); vp_cover("remove"); }
static u32 rih, ris; struct kv *stub_remove(struct wormleaf *const l, const u32 ih, const u32 is) { rih = ih; ris = is; return &kvs[7]; }
u32 stub_searchis2(const struct wormleaf *const l, const u8 ih) { ENSURES(l == &lf && ih == mret, "the index of the slot is looked up"); return sret; }
void harness_rmih(void) { lf.nr_keys = vp_nd_u32(); mret = vp_nd_u32(); sret = vp_nd_u32(); REQUIRES(lf.nr_keys <= WH_KPN && mret < WH_KPN && sret < lf.nr_keys); struct kv *r = wormleaf_remove_ih(&lf, mret); ENSURES(r == &kvs[7] && rih == mret && ris == sret, "the slot and its index go together"); vp_cover("rmih"); }
/* split and merge move entries in key order */
static struct wormleaf l1, l2; static u64 seq1[2 * WH_KPN], seq2[2 * WH_KPN]; static u32 n1, n2;
void stub_inserte2(struct wormleaf *const l, const struct entry13 e) { if (l == &l1) { seq1[l->nr_keys] = e.v64; } else { ENSURES(l == &l2, "entries go to one of the two leaves"); seq2[l->nr_keys] = e.v64; } ENSURES(l->nr_keys < WH_KPN, "no leaf overflows"); l->nr_keys++; }
#define P(i) (((i) * 5 + 3) % WH_KPN)
static u64 sv[WH_KPN];
#if defined(NK)
#ifndef IS1
#define IS1 0
#endif
static u64 logical(u32 i, u32 is1, u64 nw) { return i == is1 ? nw : sv[i < is1 ? i : i - 1]; }
void harness_move1(void) { u32 is1 = IS1, cut = vp_nd_u32(); REQUIRES(cut > 0 && cut <= NK); for (u32 i = 0; i < WH_KPN; i++) { l1.ss[i] = P(i); l1.hs[P(i)].v64 = 0; } for (u32 i = 0; i < NK; i++) { sv[i] = vp_nd_u64(); l1.hs[P(i)].v64 = sv[i]; } l1.nr_keys = l1.nr_sorted = NK; l2.nr_keys = l2.nr_sorted = 0; struct kv *nw = &kvs[4]; nw->hash = vp_nd_u64(); u64 nv = (ptr_to_u64(nw) << 16) | wormhole_pkey((u32)nw->hash);
  wormhole_split_leaf_move1(&l1, &l2, cut, is1, nw); ENSURES(l1.nr_keys == cut && l2.nr_keys == NK + 1 - cut, "a split keeps every key and the new one"); ENSURES(l1.nr_sorted == cut && l2.nr_sorted == l2.nr_keys, "both halves are sorted"); for (u32 i = 0; i <= NK; i++) ENSURES((i < cut ? seq1[i] : seq2[i - cut]) == logical(i, is1, nv), "keys keep their order across the halves"); for (u32 i = 0; i < WH_KPN; i++) ENSURES(l1.hs[i].v64 == 0, "the left leaf is rebuilt from scratch"); vp_cover("move1"); }
void harness_merge(void) { l1.nr_keys = vp_nd_u32(); l1.nr_sorted = vp_nd_u32(); l2.nr_sorted = vp_nd_u32(); REQUIRES(l1.nr_keys + NK <= WH_KPN && l1.nr_keys <= WH_KPN && l1.nr_sorted <= l1.nr_keys && l2.nr_sorted <= NK); u32 a = l1.nr_keys, s1 = l1.nr_sorted; l2.nr_keys = NK; for (u32 i = 0; i < NK; i++) { l2.ss[i] = P(i); sv[i] = vp_nd_u64(); l2.hs[P(i)].v64 = sv[i]; } ENSURES(wormleaf_merge(&l1, &l2), "a merge succeeds"); ENSURES(l1.nr_keys == a + NK, "every key is moved"); for (u32 i = 0; i < NK; i++) ENSURES(seq1[a + i] == sv[i], "every key is moved, in order"); ENSURES(l1.nr_sorted == s1 || (s1 == a && l1.nr_sorted <= a + l2.nr_sorted), "keys count as sorted only where they are"); vp_cover("merge"); }
#endif
#ifdef N1
struct kv *stub_kvatih(const struct wormleaf *const l, const u32 ih) { return &kvs[ih]; }
void harness_sort(void) { for (u32 i = 0; i < N1 + N2; i++) { lf.ss[i] = vp_nd_u8(); REQUIRES(lf.ss[i] < WH_KPN); if (i && i != N1) REQUIRES(lf.ss[i] > lf.ss[i - 1]); } for (u32 i = 0; i < N1; i++) for (u32 j = N1; j < N1 + N2; j++) REQUIRES(lf.ss[i] != lf.ss[j]); u32 g = vp_nd_u32(); REQUIRES(g < N1 + N2); u8 v = lf.ss[g], past = lf.ss[N1 + N2] = vp_nd_u8(); lf.nr_keys = N1 + N2; wormleaf_sort_m2(&lf, N1, N2); bool in = false; for (u32 i = 0; i < N1 + N2; i++) { in |= lf.ss[i] == v; if (i) ENSURES(lf.ss[i] > lf.ss[i - 1], "merging leaves the keys in order"); } ENSURES(in && lf.ss[N1 + N2] == past, "merging loses no key"); vp_cover("sort"); }
#endif
static u32 sr0, srn, sm1, sm2; static int sstep;
void stub_sortrange(struct wormleaf *const l, const u32 i0, const u32 nr) { ENSURES(l == &lf && sstep == 0, "the unsorted keys are sorted first"); sr0 = i0; srn = nr; sstep = 1; }
void stub_sortm2(struct wormleaf *const l, const u32 a, const u32 b) { ENSURES(l == &lf && sstep == 1, "and then merged with the sorted ones"); sm1 = a; sm2 = b; sstep = 2; }
void harness_sync(void) { lf.nr_keys = vp_nd_u32(); lf.nr_sorted = vp_nd_u32(); REQUIRES(lf.nr_sorted <= lf.nr_keys && lf.nr_keys <= WH_KPN); u32 n = lf.nr_keys, s = lf.nr_sorted; sstep = 0; wormleaf_sync_sorted(&lf); ENSURES(lf.nr_sorted == n && lf.nr_keys == n, "all keys are sorted afterwards"); ENSURES(s == n ? sstep == 0 || (sstep == 2 && srn == 0) : (sstep == 2 && sr0 == s && srn == n - s && sm1 == s && sm2 == n - s), "exactly the unsorted keys are sorted and merged in"); vp_cover("sync"); }
/* child bitmap of a trie node */
static struct { struct wormmeta m; u64 more[4]; } mm; 
static u64 bm0[4];
#define M (&mm.m)
static u32 mn(const u64 *b) { for (u32 i = 0; i < 256; i++) if (b[i >> 6] >> (i & 63) & 1) return i; return WH_FO; }
static u32 mx(const u64 *b) { for (u32 i = 256; i-- > 0;) if (b[i >> 6] >> (i & 63) & 1) return i; return WH_FO; }
static u64 hi46;
static void anymeta(void) { M->l13.v64 = vp_nd_u64(); M->k13.v64 = vp_nd_u64(); M->r13.v64 = vp_nd_u64(); M->p13.v64 = vp_nd_u64(); for (u32 i = 0; i < 4; i++) bm0[i] = M->bitmap[i] = vp_nd_u64(); hi46 = M->l13.v64 >> 18; }
static void full(void) { REQUIRES(wormmeta_bitmin_load(M) == mn(M->bitmap) && wormmeta_bitmax_load(M) == mx(M->bitmap)); }
static bool bit(const u64 *b, u32 i) { return b[(i >> 6) & 3] >> (i & 63) & 1; }
static void after(u32 id, bool v) { u32 g = vp_nd_u8(); ENSURES(bit(M->bitmap, g) == (g == id ? v : bit(bm0, g)), "exactly that child's bit changes"); ENSURES(wormmeta_bitmin_load(M) == mn(M->bitmap) && wormmeta_bitmax_load(M) == mx(M->bitmap), "smallest and largest child stay exact"); ENSURES(M->l13.v64 >> 18 == hi46, "the leaf pointer next to them stays"); }
void harness_bmset(void) { anymeta(); full(); u32 id = vp_nd_u8(); wormmeta_bm_set(M, id); after(id, true); vp_cover("bmset"); }
void harness_bmtest(void) { anymeta(); u32 id = vp_nd_u8(), a = wormmeta_bitmin_load(M), b = wormmeta_bitmax_load(M); ENSURES(a == (M->l13.v64 & 511) && b == (M->l13.v64 >> 9 & 511), "the two bounds are kept apart"); bool r = wormmeta_bm_test(M, id); ENSURES(r == (a == b ? id == a : bit(bm0, id)), "a child is found exactly when it is there"); vp_cover("bmtest"); }
u32 stub_gt(const struct wormmeta *const m, const u32 id) { u32 r = WH_FO; for (u32 i = 256; i-- > 0;) if (i >= id && bit(m->bitmap, i)) r = i; return r; }
u32 stub_lt(const struct wormmeta *const m, const u32 id) { u32 r = WH_FO; for (u32 i = 0; i < 256; i++) if (i < id && bit(m->bitmap, i)) r = i; return r; }
void harness_bmgl(void) { anymeta(); u32 id = vp_nd_u8(); u32 r = wormmeta_bm_lt(M, id), g = vp_nd_u8(); ENSURES(r == WH_FO || (r < id && bit(bm0, r)), "a smaller child is one that is there"); if (g < id && bit(bm0, g)) ENSURES(r != WH_FO && r >= g, "the nearest smaller child is found"); r = wormmeta_bm_gt(M, id); if (!bit(bm0, id)) { ENSURES(r == WH_FO || (r > id && r < 256 && bit(bm0, r)), "a larger child is one that is there"); if (g > id && bit(bm0, g)) ENSURES(r <= g, "the nearest larger child is found"); } vp_cover("bmgl"); }
void harness_bmclear(void) { anymeta(); full(); REQUIRES(wormmeta_bitmin_load(M) < wormmeta_bitmax_load(M)); u32 id = vp_nd_u8(); REQUIRES(bit(bm0, id)); wormmeta_bm_clear(M, id); after(id, false); vp_cover("bmclear"); }
static int exps, sets, clrs, shr; static u32 sid; static struct wormmeta *xm;
struct wormmeta *stub_expand(struct wormhmap *const h, struct wormmeta *const m) { exps++; return xm; }
void stub_bmset(struct wormmeta *const m, const u32 id) { ENSURES(m == (exps ? xm : M), "the bit is set in the full node"); sid = id; sets++; }
void harness_sethelper(void) { static struct wormmeta m2; xm = &m2; anymeta(); u32 id = vp_nd_u8(), a = wormmeta_bitmin_load(M), b = wormmeta_bitmax_load(M); REQUIRES(a <= b && b <= WH_FO && (b < WH_FO || a == WH_FO)); exps = sets = 0; struct wormmeta *r = wormmeta_bm_set_helper(NULL, M, id); if (a < b) ENSURES(r == M && sets == 1 && sid == id && !exps, "a full node gets the bit"); else if (a == id) ENSURES(r == M && !exps && wormmeta_bitmin_load(M) == id && wormmeta_bitmax_load(M) == id, "an only child stays"); else if (a == WH_FO) ENSURES(r == M && !exps && wormmeta_bitmin_load(M) == id && wormmeta_bitmax_load(M) == id, "a first child is recorded"); else ENSURES(r == xm && exps == 1 && sets == 1 && sid == id, "a second child needs a full node"); ENSURES(M->l13.v64 >> 18 == hi46, "the leaf pointer next to them stays"); vp_cover("sethelper"); }
static u64 clrto;
void stub_bmclear(struct wormmeta *const m, const u32 id) { sid = id; clrs++; m->l13.v64 = (m->l13.v64 & ~0x3fffful) | clrto; }
struct wormmeta *stub_shrink(struct wormhmap *const h, struct wormmeta *const m) { shr++; return m; }
void harness_clearhelper(void) { anymeta(); u32 id = vp_nd_u8(), a = wormmeta_bitmin_load(M), b = wormmeta_bitmax_load(M); REQUIRES(a <= b && b < WH_FO && (a < b || a == id)); clrto = vp_nd_u32() & 0x3ffff; clrs = shr = 0; wormmeta_bm_clear_helper(NULL, M, id); if (a == b) ENSURES(!clrs && !shr && wormmeta_bitmin_load(M) == WH_FO && wormmeta_bitmax_load(M) == WH_FO, "the last child goes"); else { ENSURES(clrs == 1 && sid == id, "a child's bit is cleared"); ENSURES(shr == ((clrto & 511) == (clrto >> 9)), "a node with one child left is shrunk"); } ENSURES(M->l13.v64 >> 18 == hi46, "the leaf pointer next to them stays"); vp_cover("clearhelper"); }
/* the leaf a key belongs to */
static struct wormmeta cm; static struct kref lk; static u32 lt; static int k1;
struct wormmeta *stub_kref1(const struct wormhmap *const h, const struct kref *const k, const u8 cid) { ENSURES(k == &lk && cid == lt, "the nearest smaller child is followed"); k1++; return &cm; }
u32 stub_lt2(const struct wormmeta *const m, const u32 id) { ENSURES(m == M && id == lk.ptr[lk.len], "the child below the key's next byte"); return lt; }
void harness_down(void) { static u8 kb_[8]; for (u32 i = 0; i < 8; i++) kb_[i] = vp_nd_u8(); lk.ptr = kb_; lk.len = vp_nd_u32(); u32 klen = vp_nd_u32(); REQUIRES(lk.len <= klen && klen <= 8); anymeta(); M->r13.e3 = 5; M->p13.e3 = 6; cm.r13.e3 = 7; cm.p13.e3 = 8; lt = vp_nd_u8(); u32 a = wormmeta_bitmin_load(M), b = wormmeta_bitmax_load(M); REQUIRES(a <= b && b <= WH_FO && (b < WH_FO || a == WH_FO)); bool part = lk.len < klen; u32 id = part ? kb_[lk.len] : 0; if (part) { REQUIRES(id != a && id != b); REQUIRES(a >= id || lt >= a); REQUIRES(lt < id); } k1 = 0; struct wormleaf *r = wormhole_meta_down(NULL, &lk, M, klen);
  void *w = !part || id < a ? u64_to_ptr(6) : id > b ? u64_to_ptr(5) : u64_to_ptr(7); ENSURES((void *)r == w, "the leaf whose range holds the key is entered"); vp_cover("down"); }
#ifdef LEN
/* longest prefix: the trie holds exactly the prefixes of the key up to length L; hashes are modelled by the prefix they stand for */
static u8 key[LEN + 8]; static u32 L; static bool fp[LEN + 8]; static struct wormmeta pm[LEN + 8]; static struct kref sk;
static u32 crc(const u8 *p, u32 n, u32 lo) { u32 l = lo - KV_CRC32C_SEED; ENSURES(l <= LEN && p == key + l && n <= LEN - l, "the hash continues right behind the hashed prefix"); return lo + n; }
u32 crc32c_inc_x4(const u8 *p, u32 n, u32 c) { ENSURES(n % 4 == 0, "whole words"); return crc(p, n, c); }
u32 crc32c_inc_123(const u8 *p, u32 n, u32 c) { ENSURES(n < 4, "at most three bytes"); return crc(p, n, c); }
u32 crc32c_inc(const u8 *p, u32 n, u32 c) { return crc(p, n, c); }
u32 stub_u8(u32 c, u8 v) { u32 l = c - KV_CRC32C_SEED; ENSURES(l < LEN && v == key[l], "the hash continues right behind the hashed prefix"); return c + 1; }
u32 crc32c_u8(u32 c, u8 v) { return stub_u8(c, v); }
bool stub_peek(const struct wormhmap *const h, const u32 hash) { u32 l = hash - KV_CRC32C_SEED; return l <= L || fp[l]; }
struct wormmeta *stub_get(const struct wormhmap *const h, const struct kref *const k) { ENSURES(k == &sk && k->ptr == key && k->hash32 - KV_CRC32C_SEED == k->len, "a prefix is looked up under its own hash"); return k->len <= L ? &pm[k->len] : NULL; }
bool stub_bmtest(const struct wormmeta *const m, const u32 id) { u32 l = (u32)(m - pm); ENSURES(id == key[l], "the child for the key's next byte"); return l < L; }
void harness_lcp(void) { static struct wormhmap hm; for (u32 i = 0; i < LEN; i++) { key[i] = (u8)(i + 1); fp[i] = vp_nd_u8() & 1; } fp[LEN] = vp_nd_u8() & 1; u32 klen = LEN; L = vp_nd_u32(); hm.maxplen = vp_nd_u32(); REQUIRES(L <= klen && L <= hm.maxplen && hm.maxplen < 1000); sk.ptr = key; sk.len = klen; sk.hash32 = vp_nd_u32(); struct wormmeta *r = wormhole_meta_lcp(&hm, &sk, klen); ENSURES(r == &pm[L], "the longest prefix of the key in the trie is found"); ENSURES(sk.len == L && sk.hash32 == KV_CRC32C_SEED + L, "and the key carries its length and hash"); vp_cover("lcp"); }
#endif
#endif
