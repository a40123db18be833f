/* wormhole: the trie over the anchors, kept exact by leaf splits and merges (concrete histories of anchors) */
#include "leaf.h"
#ifdef VP_NATIVE
void harness_trie(void) { native_run(); }
#else
#define NA 8
static const char anchors[2][NA][8] = {{"", "a", "ab", "abc", "b", "bd", "c", "ca"}, {"", "mma", "mmab", "mmb", "mn", "m", "mmbba", "z"}};
#define A anchors[SET]
struct kb { struct kv k; u8 b[16]; };
static struct kb akey[NA], mkey[2 * NA], pbufk; static struct wormleaf lv[NA]; static u32 nmk;
#define NM 24
static struct wormmeta p1[NM]; static struct { struct wormmeta m; u64 b[4]; } p2[NM]; static u32 n1, n2; static struct wormmeta *tab[NM]; static u32 nt; static u8 dead1[NM], dead2[NM];
/* pointers are stored in 48-bit fields: leaf i is 64 (i + 1), key i is 64 (NA + 1 + i) */
void *t_ptr(const u64 v) { u64 i = v / 64; return !i ? NULL : i <= NA ? (void *)&lv[i - 1] : (void *)&mkey[i - NA - 1].k; }
static u64 leafid(const struct wormleaf *l) { return l ? 64 * (u64)(l - lv + 1) : 0; }
u64 t_id(const void *const p) { for (u32 i = 0; i < NA; i++) if (p == &lv[i]) return 64 * (i + 1); for (u32 i = 0; i < 2 * NA; i++) if (p == &mkey[i].k) return 64 * (NA + 1 + i); return 0; }
void stub_lmstore(struct wormmeta *const m, struct wormleaf *const l) { m->l13.v64 = (leafid(l) << 16) | (m->l13.v64 & 0x3fffful); wormmeta_lpath_store(m, l->anchor->klen == wormmeta_klen_load(m) ? l : l->prev); }
void *slab_alloc_unsafe(struct slab *const s) { return s == (struct slab *)&p1 ? (void *)&p1[n1++] : (void *)&p2[n2++].m; }
void slab_free_unsafe(struct slab *const s, void *const o) { bool ok = false; for (u32 i = 0; i < NM; i++) { if (s == (struct slab *)&p1 && o == &p1[i] && i < n1 && !dead1[i]) { dead1[i] = 1; ok = true; } if (s == (struct slab *)&p2 && o == &p2[i].m && i < n2 && !dead2[i]) { dead2[i] = 1; ok = true; } } ENSURES(ok, "a node goes back to where it came from"); }
static bool keyeq(const struct wormmeta *m, const u8 *k, u32 n) { if (wormmeta_klen_load(m) != n) return false; const u8 *q = wormmeta_keyref_load(m)->kv; for (u32 i = 0; i < n; i++) if (q[i] != k[i]) return false; return true; }
struct wormmeta *stub_hget(const struct wormhmap *const h, const struct kv *const k) { for (u32 i = 0; i < nt; i++) if (keyeq(tab[i], k->kv, k->klen)) return tab[i]; return NULL; }
bool stub_hset(struct wormhmap *const h, struct wormmeta *const m) { ENSURES(nt < NM, "room"); tab[nt++] = m; return true; }
bool stub_hdel(struct wormhmap *const h, const struct wormmeta *const m) { bool f = false; for (u32 i = 0; i < nt; i++) if (tab[i] == m) { tab[i] = tab[--nt]; f = true; break; } ENSURES(f, "only nodes of the map are dropped"); return f; }
bool stub_hrep(struct wormhmap *const h, const struct wormmeta *const o, struct wormmeta *const m) { bool f = false; for (u32 i = 0; i < nt; i++) if (tab[i] == o) { tab[i] = m; f = true; } ENSURES(f, "only nodes of the map are replaced"); return f; }
void stub_freemk(struct kv *const k) { ENSURES(k->refcnt == 0, "a key in use is not freed"); }
struct kv *kv_dup2_key(const struct kv *const f, struct kv *const t) { t->klen = f->klen; t->vlen = 0; t->refcnt = 0; for (u32 i = 0; i < f->klen; i++) t->kv[i] = f->kv[i]; return t; }
void kv_update_hash(struct kv *const k) {}
u32 crc32c_u8(u32 c, u8 v) { return c; }
u32 kv_key_lcp(const struct kv *const a, const struct kv *const b) { u32 n = 0; while (n < a->klen && n < b->klen && a->kv[n] == b->kv[n]) n++; return n; }
static bool in[NA]; static struct wormhmap hm;
static int acmp(u32 i, u32 j) { for (u32 k = 0; k < 8; k++) { u8 a = (u8)A[i][k], b = (u8)A[j][k]; if (a < b) return -1; if (a > b) return 1; } return 0; }
static bool haspfx(u32 i, const char *p, u32 n) { for (u32 k = 0; k < n; k++) if (A[i][k] != p[k]) return false; return true; }
static u32 len(u32 i) { u32 r = 0; for (u32 k = 0; k < 8; k++) if (A[i][k]) r = k + 1; return r; }
static struct wormleaf *prev_of(u32 i) { u32 b = NA; for (u32 j = 0; j < NA; j++) if (in[j] && acmp(j, i) < 0 && (b == NA || acmp(j, b) > 0)) b = j; return b == NA ? NULL : &lv[b]; }
static struct wormleaf *next_of(u32 i) { u32 b = NA; for (u32 j = 0; j < NA; j++) if (in[j] && acmp(j, i) > 0 && (b == NA || acmp(j, b) < 0)) b = j; return b == NA ? NULL : &lv[b]; }
static void check(void) { u32 cnt = 0; for (u32 i = 0; i < NA; i++) if (in[i]) for (u32 n = 0; n <= len(i); n++) { u32 lo = i, hi = i; bool first = true; u64 bm = 0; bool wide = false; u32 mnb = WH_FO, mxb = WH_FO; for (u32 j = 0; j < NA; j++) if (in[j] && haspfx(j, A[i], n)) { if (j < i) first = false; if (acmp(j, lo) < 0) lo = j; if (acmp(j, hi) > 0) hi = j; if (len(j) > n) { u32 b = (u8)A[j][n]; if (mnb == WH_FO || b < mnb) mnb = b; if (mxb == WH_FO || b > mxb) mxb = b; bm |= 1ul << (b & 63); } }
    if (!first) continue; cnt++; struct wormmeta *m = NULL; for (u32 t = 0; t < nt; t++) if (keyeq(tab[t], (const u8 *)A[i], n)) m = tab[t]; ENSURES(m, "every prefix of an anchor has a node"); if (!m) continue; ENSURES(wormmeta_lmost_load(m) == &lv[lo], "a node leads to the first leaf below it"); ENSURES(wormmeta_rmost_load(m) == &lv[hi], "a node leads to the last leaf below it"); ENSURES(wormmeta_lpath_load(m) == (len(lo) == n ? &lv[lo] : prev_of(lo)), "a node leads to the leaf left of its children"); ENSURES(wormmeta_bitmin_load(m) == mnb && wormmeta_bitmax_load(m) == mxb, "a node knows its smallest and largest child"); for (u32 b = 'a'; b <= 'z'; b++) ENSURES(wormmeta_bm_test(m, b) == (bool)(mnb != WH_FO && (bm >> (b & 63) & 1)), "a node knows exactly its children"); ENSURES(hm.maxplen >= n, "the longest prefix is known"); }
  ENSURES(nt == cnt, "no other node exists"); }
static void add(u32 i) { lv[i].anchor = &akey[i].k; lv[i].prev = prev_of(i); lv[i].next = next_of(i); if (lv[i].prev) lv[i].prev->next = &lv[i]; if (lv[i].next) lv[i].next->prev = &lv[i]; in[i] = true; struct kv *mk = &mkey[nmk++].k; kv_dup2_key(&akey[i].k, mk); u32 n = mk->klen; wormmeta_split(&hm, &lv[i], mk); ENSURES(mk->klen == n, "the key keeps its length"); }
static void drop(u32 i) { struct wormleaf *p = lv[i].prev, *n = lv[i].next; p->next = n; if (n) n->prev = p; in[i] = false; wormmeta_merge(&hm, &lv[i]); }
void harness_trie(void) { static const int8_t seqs[] = {HIST, 0};
  for (u32 i = 0; i < NA; i++) { akey[i].k.klen = len(i); for (u32 k = 0; k < len(i); k++) akey[i].k.kv[k] = (u8)A[i][k]; } hm.slab1 = (struct slab *)&p1; hm.slab2 = (struct slab *)&p2; hm.pbuf = &pbufk.k; lv[0].anchor = &akey[0].k; in[0] = true; struct kv *mk = &mkey[nmk++].k; mk->klen = 0; stub_hset(&hm, wormmeta_alloc(&hm, &lv[0], mk, 0, WH_FO)); check();
  for (u32 s = 0; s < sizeof(seqs); s++) { int op = seqs[s]; if (!op) break; if (op > 0) add(op); else drop(-op); check(); } vp_cover("trie"); }
#endif
