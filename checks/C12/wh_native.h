/* native search: random histories of the real index against a sorted array */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include "lib.c"
#include "kv.c"
#include "wh.c"
#include "vp.h"
struct nk { u8 k[24]; u32 n; u64 v; };
static struct nk nm[4096]; static u32 nn;
static int ncmp(const struct nk *a, const struct nk *b) { int c = memcmp(a->k, b->k, a->n < b->n ? a->n : b->n); return c ? c : (int)a->n - (int)b->n; }
static u32 nfind(const struct nk *k) { u32 l = 0, h = nn; while (l < h) { u32 m = (l + h) / 2; if (ncmp(&nm[m], k) < 0) l = m + 1; else h = m; } return l; }
static u64 nr_; static u32 rnd(u32 n) { nr_ = nr_ * 6364136223846793005ull + 1442695040888963407ull; return (u32)(nr_ >> 33) % n; }
static void native_run(void) { nr_ = vp_nd_u64(); struct wormhole *w = whunsafe_create(&kvmap_mm_dup); nn = 0; u32 steps = 600 + rnd(2500), al = 2 + rnd(20), ml = 1 + rnd(20), pre = rnd(3) ? 0 : rnd(ml), del = rnd(5); static struct { struct kv k; u8 b[64]; } out;
  for (u32 s = 0; s < steps; s++) { struct nk k; memset(&k, 0, sizeof(k)); k.n = pre + rnd(ml - pre + 1); for (u32 i = 0; i < k.n; i++) k.k[i] = i < pre ? 7 : (u8)(rnd(al) * 13); k.v = s; u32 p = nfind(&k); bool in = p < nn && !ncmp(&nm[p], &k); struct kref r; kref_ref_hash32(&r, k.k, k.n);
    u32 op = rnd(8); if (op < del) { bool d = whunsafe_del(w, &r); ENSURES(d == in, "a key can be deleted exactly when it is stored"); if (in) { memmove(&nm[p], &nm[p + 1], (nn - p - 1) * sizeof(k)); nn--; } }
    else if (op < 6) { struct kv *v = kv_create(k.k, k.n, &k.v, 8); ENSURES(whunsafe_put(w, v), "a key can be stored"); free(v); if (!in) { memmove(&nm[p + 1], &nm[p], (nn - p) * sizeof(k)); nn++; } nm[p] = k; }
    else { struct kv *v = whunsafe_get(w, &r, &out.k); ENSURES((v != NULL) == in, "a key is found exactly when it is stored"); if (in) ENSURES(*(u64 *)(v->kv + v->klen) == nm[p].v, "with its last value"); } 
    if (s % 500 == 499 || s + 1 == steps) { struct wormhole_iter *it = whunsafe_iter_create(w); u32 from = rnd(2) ? 0 : p; struct kref q; if (from) { from = nfind(&k); kref_ref_hash32(&q, k.k, k.n); } else kref_ref_hash32(&q, (u8 *)"", 0); whunsafe_iter_seek(it, &q); for (u32 i = from; i < nn; i++) { struct kv *v = whunsafe_iter_next(it, &out.k); ENSURES(v && v->klen == nm[i].n && !memcmp(v->kv, nm[i].k, nm[i].n), "a scan yields every stored key, in order"); } ENSURES(!whunsafe_iter_next(it, &out.k), "and nothing else"); whunsafe_iter_destroy(it); } }
  for (u32 i = 0; i < nn; i++) { struct kref r; kref_ref_hash32(&r, nm[i].k, nm[i].n); struct kv *v = whunsafe_get(w, &r, &out.k); ENSURES(v && *(u64 *)(v->kv + v->klen) == nm[i].v, "every stored key is found"); }
  wormhole_destroy(w); }
