/* wormhole leaf functions; kv objects are opaque ids (id == rank in key order), slots of hs are (pkey, id) */
#ifdef VP_NATIVE
#include "wh_native.h"
#else
#ifdef MOVESTUB

#include <string.h>
#include <stdlib.h>
static void vp_move(void *d, const void *s, unsigned long n);
#define memmove vp_move
#endif
#include "wh.c"
#undef memmove
#include "vp.h"
static struct kv kvs[WH_KPN + 8];
#define ID(v) ((u64)(v))
struct entry13 entry13(const u16 e1, const u64 e3) { struct entry13 e; e.v64 = (e3 << 16) | e1; return e; }
#ifdef TRIE
void *t_ptr(const u64 v); u64 t_id(const void *const p);
void *u64_to_ptr(const u64 v) { return t_ptr(v); }
u64 ptr_to_u64(const void *const p) { return t_id(p); }
#else
void *u64_to_ptr(const u64 v) { return v ? &kvs[v - 1] : NULL; }
u64 ptr_to_u64(const void *const p) { return p ? (u64)((const struct kv *)p - kvs) + 1 : 0; }
#endif
void entry13_update_e3(struct entry13 *const e, const u64 e3) { *e = entry13(e->e1, e3); }
void debug_assert(const bool v) { ENSURES(v, "no internal assertion fails"); }
void debug_die(void) { ENSURES(0, "no internal assertion fails"); vp_assume(0); __builtin_unreachable(); }
void cpu_prefetch0(const void *const p) {}
static struct wormleaf lf __attribute__((aligned(64)));
/* sorted by hash, every entry reachable from its home slot without crossing an empty one */
static bool inv(const struct wormleaf *l, u32 hole) { u32 run = 0, le = 0; bool ok = true; for (u32 i = 0; i < WH_KPN; i++) { u32 e = i == hole ? 0 : l->hs[i].e1; if (!e && i != hole) { le = i + 1; ok &= l->hs[i].v64 == 0; } else if (e) { ok &= e >= run && l->hs[i].e3 != 0; run = e; u32 h = e / WH_HDIV; ok &= h > i || h >= le; } }
  u32 ne = WH_KPN; for (u32 i = WH_KPN; i-- > 0;) { u32 e = i == hole ? 1 : l->hs[i].e1; if (!e) ne = i; else if (i != hole) ok &= e / WH_HDIV < ne; } return ok; }
static u32 used(const struct wormleaf *l) { u32 n = 0; for (u32 i = 0; i < WH_KPN; i++) n += l->hs[i].e1 != 0; return n; }
static void anyhs(struct wormleaf *l) { for (u32 i = 0; i < WH_KPN; i++) l->hs[i].v64 = vp_nd_u64(); }
/* ghost slot followed through shifts */
static u32 gs; static int shifts;
void stub_shift_dec(struct wormleaf *const l, const u32 to, const u32 from, const u32 nr) { ENSURES(to == from - 1 && to < WH_KPN && nr > 0 && nr <= WH_KPN && from + nr <= WH_KPN, "entries are shifted by one, inside the leaf"); for (u32 j = 0; j + 1 < WH_KPN; j++) if (j >= to && j < to + nr) l->hs[j] = l->hs[j + 1]; if (gs >= from && gs < from + nr) gs--; shifts++; }
void stub_shift_inc(struct wormleaf *const l, const u32 to, const u32 from, const u32 nr) { ENSURES(to == from + 1 && nr > 0 && nr <= WH_KPN && to + nr <= WH_KPN, "entries are shifted by one, inside the leaf"); for (u32 j = WH_KPN - 1; j > 0; j--) if (j >= to && j < to + nr) l->hs[j] = l->hs[j - 1]; if (gs >= from && gs < from + nr) gs++; shifts++; }
#endif
