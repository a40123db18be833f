/* wormhole: operations of the index around one leaf; locks are checked, everything below is replaced by the contracts proved for it */
#include "leaf.h"
#ifdef VP_NATIVE
#define H(x) void x(void) { native_run(); }
H(harness_put) H(harness_merge) H(harness_get) H(harness_inp) H(harness_del) H(harness_jump) H(harness_trymerge) H(harness_leafmerge) H(harness_metamerge) H(harness_splitinsert) H(harness_splitmeta) H(harness_splitleaf) H(harness_undo) H(harness_iter)
#else
static struct wormhole map; static struct wormref ref; static struct kref kr;
static struct wormleaf nx, pv; static int wl[4], rl[4];   /* locks held on lf, nx, pv */
static int who(const void *l) { return l == &lf ? 0 : l == &nx ? 1 : l == &pv ? 2 : 3; }
static void wlock(const void *l) { ENSURES(!wl[who(l)] && !rl[who(l)], "no leaf is locked twice"); wl[who(l)]++; }
static void wunlock(const void *l) { ENSURES(wl[who(l)] == 1, "only a held lock is released"); wl[who(l)]--; }
static void rlock(const void *l) { rl[who(l)]++; }
static void runlock(const void *l) { ENSURES(rl[who(l)] == 1, "only a held lock is released"); rl[who(l)]--; }
static bool nolocks(void) { return !wl[0] && !wl[1] && !wl[2] && !wl[3] && !rl[0] && !rl[1] && !rl[2] && !rl[3]; }
void stub_lockw(struct wormleaf *const l, struct wormref *const r) { wlock(l); }
void stub_lockr(struct wormleaf *const l, struct wormref *const r) { rlock(l); }
void stub_unlockw(struct wormleaf *const l) { wunlock(l); }
void stub_unlockr(struct wormleaf *const l) { runlock(l); }
struct wormleaf *stub_jumpw(struct wormref *const r, const struct kref *const k) { ENSURES(r == &ref, "own reference"); wlock(&lf); return &lf; }
struct wormleaf *stub_jumpr(struct wormref *const r, const struct kref *const k) { ENSURES(r == &ref && k == &kr, "own reference"); rlock(&lf); return &lf; }
struct wormleaf *stub_jump(const struct wormhmap *const h, const struct kref *const k) { ENSURES(h == map.hmap, "own map"); return &lf; }
static u32 im; static struct kv *stored, *old, *added; static int upd, inss, spl, frees, outs; static bool spr, unsafe; static struct kv *freed; static struct kv *inret;
struct kref kv_kref(const struct kv *const k) { struct kref r = {0}; ENSURES(k == inret, "the stored copy is looked up"); return r; }
void kref_ref_kv(struct kref *const r, const struct kv *const k) { ENSURES(k == inret, "the new key is looked up"); }
#define LOCKED (unsafe || wl[0] == 1)
u32 stub_match_(const struct wormleaf *const l, const struct kref *const k) { ENSURES(l == &lf && (unsafe || wl[0] || rl[0]), "the leaf is locked while it is searched"); return im; }
struct kv *stub_update(struct wormleaf *const l, const u32 ih, const struct kv *const n) { ENSURES(l == &lf && ih == im && LOCKED && n == inret, "the leaf is locked while it is changed"); upd++; return old; }
void stub_insert(struct wormleaf *const l, const struct kv *const n) { ENSURES(l == &lf && LOCKED && n == inret && l->nr_keys < WH_KPN, "a key is only inserted where there is room"); inss++; }
bool stub_split(struct wormref *const r, struct wormleaf *const l, struct kv *const n) { ENSURES(r == &ref && l == &lf && wl[0] == 1 && n == inret, "the leaf is locked while it is split"); wl[0] = 0; spl++; return spr; }
bool stub_usplit(struct wormhole *const m, struct wormleaf *const l, struct kv *const n) { ENSURES(m == &map && l == &lf && n == inret, "the leaf is split"); spl++; return spr; }
struct kv *stub_kvih(const struct wormleaf *const l, const u32 ih) { ENSURES(l == &lf && ih == im && im < WH_KPN && (unsafe || wl[0] || rl[0]), "the leaf is locked while it is read"); return old; }
static struct kv *fin(struct kv *k, void *p) { ENSURES(k == added && p == &map, "the given pair is stored"); return inret; }
static struct kv *fout(struct kv *k, struct kv *o) { ENSURES(k == old && o == &kvs[9] && (unsafe || rl[0] == 1), "the pair is copied out while it is locked"); outs++; return &kvs[10]; }
static void ffree(struct kv *k, void *p) { ENSURES(p == &map, "own allocator"); ENSURES(unsafe || !rl[0], "a pair is freed where no reader uses it"); frees++; freed = k; }
static void init(void) { ref.map = &map; map.mm.in = fin; map.mm.out = fout; map.mm.free = ffree; map.mm.priv = &map; old = &kvs[1]; added = &kvs[2]; inret = vp_nd_u8() & 1 ? &kvs[3] : NULL; im = vp_nd_u32(); REQUIRES(im <= WH_KPN); lf.nr_keys = vp_nd_u32(); REQUIRES(lf.nr_keys <= WH_KPN); REQUIRES(im == WH_KPN || lf.nr_keys > 0); spr = vp_nd_u8() & 1; for (int i = 0; i < 4; i++) wl[i] = rl[i] = 0; upd = inss = spl = frees = outs = 0; freed = NULL; }
static void put_ensures(bool r, bool tried) { if (!tried) { ENSURES(!upd && !inss && !spl && !frees, "nothing changes"); return; } bool full = lf.nr_keys >= WH_KPN; ENSURES(upd == (im < WH_KPN) && inss == (im >= WH_KPN && !full) && spl == (im >= WH_KPN && full), "a stored key is updated, a new one inserted, a full leaf split"); ENSURES(r == (spl ? spr : true), "success is reported truly"); ENSURES(upd ? frees == 1 && freed == old : spl && !spr ? frees == 1 && freed == inret : frees == 0, "exactly the replaced or refused pair is freed"); }
void harness_put(void) { init(); bool r;
#ifdef UNSAFE
  unsafe = true; r = whunsafe_put(&map, added);
#else
  r = wormhole_put(&ref, added);
#endif
  if (!inret) ENSURES(!r, "out of memory is reported"); put_ensures(r, inret != NULL); ENSURES(nolocks(), "no lock is left behind"); vp_cover("put"); }
static int ufc; static struct kv *ufr;
static struct kv *uf(struct kv *k, void *p) { ENSURES(p == &ufc && k == (im < WH_KPN ? old : NULL) && LOCKED, "the callback sees the stored pair, or none"); ufc++; return ufr; }
void harness_merge(void) { init(); bool r; ufc = 0; u32 c = vp_nd_u8(); ufr = c == 0 ? NULL : c == 1 ? old : added; REQUIRES(im < WH_KPN || ufr != old);
#ifdef UNSAFE
  unsafe = true; r = whunsafe_merge(&map, &kr, uf, &ufc);
#else
  r = wormhole_merge(&ref, &kr, uf, &ufc);
#endif
  ENSURES(ufc == 1, "the callback runs once"); bool tried = ufr == added; if (!tried) ENSURES(r, "nothing to store is no failure"); if (tried && !inret) ENSURES(!r, "out of memory is reported"); put_ensures(r, tried && inret != NULL); ENSURES(nolocks(), "no lock is left behind"); vp_cover("merge"); }
void harness_get(void) { init(); unsafe = false; struct kv *r; bool p;
#ifdef UNSAFE
  unsafe = true; r = whunsafe_get(&map, &kr, &kvs[9]); p = whunsafe_probe(&map, &kr);
#else
  r = wormhole_get(&ref, &kr, &kvs[9]); ENSURES(nolocks(), "no lock is left behind"); p = wormhole_probe(&ref, &kr);
#endif
  ENSURES(r == (im < WH_KPN ? &kvs[10] : NULL) && outs == (im < WH_KPN), "a value is returned exactly when the key is stored"); ENSURES(p == (im < WH_KPN), "a key is reported exactly when it is stored"); ENSURES(nolocks() && !frees, "no lock is left behind"); vp_cover("get"); }
static void inp(struct kv *k, void *p) { ENSURES(p == &ufc && k == (im < WH_KPN ? old : NULL) && (unsafe || wl[0] || rl[0]), "the callback sees the stored pair, or none, under the lock"); ufc++; if (!unsafe && spr) ENSURES(wl[0], "a writer holds the write lock"); }
void harness_inp(void) { init(); ufc = 0; bool r;
#ifdef UNSAFE
  unsafe = true; r = whunsafe_inp(&map, &kr, inp, &ufc);
#else
  r = spr ? wormhole_inpw(&ref, &kr, inp, &ufc) : wormhole_inpr(&ref, &kr, inp, &ufc);
#endif
  ENSURES(ufc == 1 && r == (im < WH_KPN) && nolocks(), "the callback runs once and no lock is left behind"); vp_cover("inp"); }
static int rem, trym;
struct kv *stub_rm(struct wormleaf *const l, const u32 ih) { ENSURES(l == &lf && ih == im && im < WH_KPN && LOCKED, "exactly the key found is removed, under the lock"); rem++; return old; }
void stub_trymerge(struct wormref *const r, struct wormleaf *const l) { ENSURES(r == &ref && l == &lf && wl[0] == 1 && rem == 1, "the leaf is still locked"); trym++; wl[0] = 0; }
void stub_utrymerge(struct wormhole *const m, struct wormleaf *const l) { ENSURES(m == &map && l == &lf && rem == 1, "after the removal"); trym++; }
void harness_del(void) { init(); rem = trym = 0; bool r;
#ifdef UNSAFE
  unsafe = true; r = whunsafe_del(&map, &kr);
#else
  r = wormhole_del(&ref, &kr);
#endif
  ENSURES(r == (im < WH_KPN) && rem == r && trym == r, "a key is removed exactly when it is stored"); ENSURES(r ? frees == 1 && freed == old : frees == 0, "exactly the removed pair is freed"); ENSURES(nolocks(), "no lock is left behind"); vp_cover("del"); }
/* finding and locking the leaf: a leaf changed by a newer map than the one used is not accepted */
static struct wormhmap hm[2]; static int ver_i; static u64 hv, lvh; static u32 tries; static bool jumped;
const u64 nd_lim = 1000;
struct wormhmap *stub_hload(struct wormhole *const m) { return &hm[vp_nd_u8() & 1]; }
u64 stub_hver(const struct wormhmap *const h) { u64 v = vp_nd_u64(); REQUIRES(v >= lvh && v < nd_lim); lvh = v; return v; }
static u64 used_v; void stub_qsbr(struct wormref *const r, const u64 v) { }
void qsbr_update(struct qsbr_ref *const q, const u64 v) { ENSURES(q == &ref.qref, "own reference"); used_v = v; }
struct wormleaf *stub_jump2(const struct wormhmap *const h, const struct kref *const k) { ENSURES((h == &hm[0] || h == &hm[1]) && k == &kr && nolocks(), "the leaf is looked up in the current map"); hv = lvh; jumped = true; return vp_nd_u8() & 1 ? &lf : &nx; }
static bool tryl(int i, int *l) { REQUIRES(++tries < 4); if (vp_nd_u8() & 1) { l[i]++; return true; } return false; }
static const rwlock *lkof(int i) { return i ? &nx.leaflock : &lf.leaflock; }
bool rwlock_trylock_read_nr(rwlock *const l, u16 n) { ENSURES(nolocks(), "one lock at a time"); return tryl(l == &nx.leaflock, rl); }
bool rwlock_trylock_write_nr(rwlock *const l, u16 n) { ENSURES(nolocks(), "one lock at a time"); return tryl(l == &nx.leaflock, wl); }
static u64 held_v;
u64 stub_lver(struct wormleaf *const l) { u64 v = vp_nd_u64(); REQUIRES(v < nd_lim); if (wl[who(l)] || rl[who(l)]) held_v = v; return v; }
void harness_jump(void) { init(); tries = 0; lvh = 0; jumped = false; struct wormleaf *r = spr ? wormhole_jump_leaf_write(&ref, &kr) : wormhole_jump_leaf_read(&ref, &kr); ENSURES(r == &lf || r == &nx, "a leaf is returned"); int w = who(r); ENSURES((spr ? wl[w] : rl[w]) == 1, "it is locked"); wl[w] = rl[w] = 0; ENSURES(nolocks(), "no other leaf is"); ENSURES(held_v <= hv, "it was not split or merged by a newer map than the one used"); vp_cover("jump"); }
/* merging two leaves */
static int mm_, lm; static struct wormleaf *ma, *mb; static bool mret_;
bool stub_lmerge(struct wormref *const r, struct wormleaf *const l) { ENSURES(l == &lf && wl[0] == 1 && wl[1] == 1, "both leaves are locked for a merge"); wl[0] = wl[1] = 0; lm++; return mret_; }
void stub_umerge(struct wormhole *const m, struct wormleaf *const a, struct wormleaf *const b) { ENSURES(a && b && a->next == b && a->nr_keys + b->nr_keys <= WH_KPN, "neighbours are merged where there is room"); lm++; }
static void links(void) { pv.next = &lf; lf.prev = &pv; lf.next = &nx; nx.prev = &lf; nx.next = NULL; pv.prev = NULL; if (vp_nd_u8() & 1) lf.prev = NULL; if (vp_nd_u8() & 1) lf.next = NULL; nx.nr_keys = vp_nd_u32(); pv.nr_keys = vp_nd_u32(); REQUIRES(nx.nr_keys <= WH_KPN && pv.nr_keys <= WH_KPN); }
void harness_trymerge(void) { init(); links(); lm = 0; bool had = lf.next != NULL; mret_ = vp_nd_u8() & 1;
#ifdef UNSAFE
  whunsafe_del_try_merge(&map, &lf);
#else
  wlock(&lf); wormhole_del_try_merge(&ref, &lf); ENSURES(!lm || had, "only leaves that exist are merged");
#endif
  ENSURES(lm <= 1 && nolocks(), "at most one merge, and no lock is left behind"); vp_cover("trymerge"); }
bool stub_wlmerge(struct wormleaf *const a, struct wormleaf *const b) { ENSURES(wl[0] == 1 && wl[1] == 1, "both leaves are locked for a merge"); ENSURES(a == &lf && b == &nx && a->nr_keys + b->nr_keys <= WH_KPN, "keys are moved where there is room"); ma = a; mb = b; mm_ = 1; return mret_; }
void stub_metamerge(struct wormref *const r, struct wormleaf *const a, struct wormleaf *const b, const bool u) { ENSURES(mm_ == 1 && a == &lf && b == &nx && u, "the right leaf is dropped after its keys moved"); mm_ = 2; wl[0] = wl[1] = 0; }
void harness_leafmerge(void) { init(); links(); REQUIRES(lf.next); wlock(&lf); wlock(&nx); mm_ = 0; mret_ = vp_nd_u8() & 1; bool r = wormhole_meta_leaf_merge(&ref, &lf); ENSURES(r == (lf.nr_keys + nx.nr_keys <= WH_KPN && mret_) && (mm_ == 2) == r, "two leaves are merged exactly when their keys fit"); ENSURES(nolocks(), "no lock is left behind"); vp_cover("leafmerge"); }
/* the two maps and the leaf list are switched over in order */
static int step, lockedm; static u64 vl, vn, vh1; static struct wormhmap *cur, *oth; static struct wormleaf nn;
struct wormhmap *stub_hload2(struct wormhole *const m) { return cur; }
void stub_hlock(struct wormhole *const m, struct wormref *const r) { ENSURES(!lockedm, "the map is locked once"); lockedm = 1; }
void stub_hunlock(struct wormhole *const m) { ENSURES(lockedm, "only a held lock is released"); lockedm = 0; }
struct wormhmap *stub_hswitch(struct wormhole *const m, struct wormhmap *const h) { ENSURES(h == cur, "the other map is prepared"); return oth; }
static u64 cv; u64 stub_hver2(const struct wormhmap *const h) { ENSURES(h == cur && lockedm, "versions continue"); return cv; }
static struct wormleaf *dl, *kl;
void stub_lvstore(struct wormleaf *const l, const u64 v) { ENSURES(v == cv + 1 && wl[who(l)], "locked leaves get the next version"); if (l == &lf) vl = v; else if (l == &nx) vn = v; }
void stub_hvstore(struct wormhmap *const h, const u64 v) { ENSURES(h == oth && v == cv + 1, "the new map gets the next version"); vh1 = v; }
static int m0, m1, waited, freedl;
#define UPD(h, l) ENSURES(lockedm, "the maps are changed under their lock"); if (h == oth) { ENSURES(!m1 && wl[0] && wl[1] && cur != oth && (vl == cv + 1 && vn == cv + 1), "the unused map is changed before it is published, with both leaves locked and marked"); m1++; } else { ENSURES(h == &hm[0] && m1 == 1 && waited == 1 && !m0, "the old map is changed after its readers left"); m0++; }
void stub_wmerge(struct wormhmap *const h, struct wormleaf *const l) { ENSURES(l == &nx, "the dropped leaf leaves the map"); UPD(h, l) }
static struct { struct kv k; u8 b[8]; } anc, mk; static bool mkused;
void stub_wsplit(struct wormhmap *const h, struct wormleaf *const l, struct kv *const k) { ENSURES(l == &nx, "the new leaf enters the map"); ENSURES(k == &mk.k, "under its anchor"); if (mkused) k->refcnt = 1; UPD(h, l) }
static int published, keep;
void stub_hstore(struct wormhole *const m, struct wormhmap *const h) { ENSURES(m == &map && h == oth && m1 == 1 && vh1 == cv + 1, "the new map is published when it is complete"); cur = h; oth = NULL; published++; }
void qsbr_wait(struct qsbr *const q, const u64 v) { ENSURES(published == 1 && v == cv + 1 && !wl[1] && wl[0] == keep, "readers of the old map are waited for, without holding leaves"); waited = 1; }
void stub_lfree(struct slab *const s, struct wormleaf *const l) { ENSURES(l == &nx && m0 == 1, "the leaf is freed when no map leads to it"); freedl++; }
static void sw(void) { cur = &hm[0]; oth = &hm[1]; lockedm = m0 = m1 = waited = freedl = published = 0; vl = vn = vh1 = 0; cv = vp_nd_u64(); REQUIRES(cv < nd_lim); nx.next = vp_nd_u8() & 1 ? &nn : NULL; nn.prev = &nx; nn.next = NULL; lf.next = &nx; nx.prev = &lf; lf.prev = &pv; }
void harness_metamerge(void) { init(); sw(); wlock(&lf); wlock(&nx); bool u = vp_nd_u8() & 1; struct wormleaf *n2 = nx.next; keep = !u; wormhole_meta_merge(&ref, &lf, &nx, u); ENSURES(lf.next == n2 && (!n2 || n2->prev == &lf) && lf.prev == &pv, "the leaf is taken out of the list"); ENSURES(m0 == 1 && m1 == 1 && published == 1 && freedl == 1 && !lockedm, "both maps follow, and the leaf is freed"); ENSURES(wl[0] == !u && !wl[1], "the locks are released as asked"); vp_cover("metamerge"); }
static bool allocok, slabok; static int mkfree;
struct kv *stub_allocm(const size_t n) { return allocok ? &mk.k : NULL; }
void stub_freem(struct kv *const k) { ENSURES(k == &mk.k && k->refcnt == 0, "a key in use is not freed"); mkfree++; }
bool stub_slab(struct wormhole *const m, const u32 n) { ENSURES(lockedm && n == anc.k.klen, "room is reserved for the new nodes"); return slabok; }
struct kv *kv_dup2_key(const struct kv *const f, struct kv *const t) { ENSURES(f == &anc.k && t == &mk.k, "the anchor is copied"); t->klen = f->klen; return t; }
void harness_splitmeta(void) { init(); sw(); lf.next = nx.next; if (lf.next) lf.next->prev = &lf; nx.anchor = &anc.k; anc.k.klen = vp_nd_u32(); REQUIRES(anc.k.klen <= 8); mk.k.refcnt = 0; keep = 0; mkused = vp_nd_u8() & 1; mkfree = 0; allocok = vp_nd_u8() & 1; slabok = vp_nd_u8() & 1; wlock(&lf); wlock(&nx); struct wormleaf *n2 = nx.next; bool r = wormhole_split_meta(&ref, &nx); ENSURES(r == (allocok && slabok), "out of memory is reported"); ENSURES(!lockedm, "the map lock is released");
  if (r) { ENSURES(lf.next == &nx && (!n2 || n2->prev == &nx), "the new leaf is linked behind the old one"); ENSURES(m0 == 1 && m1 == 1 && published == 1 && nolocks(), "both maps follow, and all locks are released"); ENSURES(mkfree == (mk.k.refcnt == 0), "the key is freed unless it is used"); } else { ENSURES(lf.next == n2 && (!n2 || n2->prev == &lf) && !published && !m0 && !m1, "nothing changed"); ENSURES(wl[0] == 1 && wl[1] == 1 && mkfree == allocok, "the leaves stay locked"); wl[0] = wl[1] = 0; } vp_cover("splitmeta"); }
/* splitting a leaf for an insert */
static bool slok, smok; static int undos;
struct wormleaf *stub_spleaf(struct wormhole *const m, struct wormleaf *const l, struct kv *const n) { ENSURES(m == &map && l == &lf && n == inret && wl[0], "the locked leaf is split"); return slok ? &nx : NULL; }
void rwlock_lock_write(rwlock *const l) { ENSURES(l == &nx.leaflock, "the new leaf is locked"); wlock(&nx); }
bool stub_spmeta(struct wormref *const r, struct wormleaf *const l) { ENSURES(r == &ref && l == &nx && wl[0] && wl[1], "both leaves are locked"); if (smok) wl[0] = wl[1] = 0; return smok; }
void stub_undo(struct wormhole *const m, struct wormleaf *const a, struct wormleaf *const b, struct kv *const n) { ENSURES(a == &lf && b == &nx && n == inret && wl[0], "the split is undone"); undos++; wl[1] = 0; }
void harness_splitinsert(void) { init(); inret = &kvs[3]; undos = 0; slok = vp_nd_u8() & 1; smok = vp_nd_u8() & 1; wlock(&lf); bool r = wormhole_split_insert(&ref, &lf, inret); ENSURES(r == (slok && smok) && undos == (slok && !smok), "a split that fails is undone"); ENSURES(nolocks(), "no lock is left behind"); vp_cover("splitinsert"); }
static u32 is1v, cutv; static bool ancok, lfok; static int synced, moved; static struct kv *ak, *bk;
void stub_syncs(struct wormleaf *const l) { ENSURES(l == &lf, "the leaf is sorted first"); synced = 1; l->nr_sorted = l->nr_keys; }
u32 stub_sss(const struct wormleaf *const l, const struct kref *const k) { ENSURES(l == &lf && synced, "the place of the new key is found in the sorted leaf"); return is1v; }
u32 stub_cut1(struct wormleaf *const l, u32 a, u32 h, const u32 is1, const struct kv *const n) { ENSURES(l == &lf && a == 0 && h == l->nr_keys && is1 == is1v && n == inret, "the cut is chosen among all keys"); return cutv; }
const struct kv *stub_kvis1(const struct wormleaf *const l, const u32 i, const u32 is1, const struct kv *const n) { ENSURES(i <= l->nr_keys && is1 == is1v && n == inret, "only stored keys are looked at"); return &kvs[i & 7]; }
static u32 ci1, ci2;
struct kv *stub_anchor(const struct kv *const a, const struct kv *const b) { ENSURES(a == &kvs[(cutv - 1) & 7] && b == &kvs[cutv & 7], "the anchor separates the last key on the left from the first on the right"); return ancok ? &anc.k : NULL; }
struct wormleaf *stub_lalloc(struct wormhole *const m, struct wormleaf *const p, struct wormleaf *const n, struct kv *const a) { ENSURES(m == &map && p == &lf && n == lf.next && a == &anc.k, "the new leaf goes behind the old one, with the anchor"); return lfok ? &nx : NULL; }
static int akfree; void stub_freea(struct kv *const a) { ENSURES(a == &anc.k, "the anchor is given back"); akfree++; }
void stub_mv1(struct wormleaf *const a, struct wormleaf *const b, const u32 cut, const u32 is1, const struct kv *const n) { ENSURES(a == &lf && b == &nx && cut == cutv && is1 == is1v && n == inret, "keys are moved at the cut"); moved++; }
void harness_splitleaf(void) { init(); inret = &kvs[3]; synced = moved = akfree = 0; REQUIRES(lf.nr_keys > 0); is1v = vp_nd_u32(); cutv = vp_nd_u32(); REQUIRES(is1v <= lf.nr_keys && ((cutv > 0 && cutv <= lf.nr_keys) || cutv == WH_KPN2)); ancok = vp_nd_u8() & 1; lfok = vp_nd_u8() & 1; lf.nr_sorted = 0; nx.nr_keys = nx.nr_sorted = 0; struct wormleaf *r = wormhole_split_leaf(&map, &lf, inret); ENSURES(r == (cutv != WH_KPN2 && ancok && lfok ? &nx : NULL) && moved == (r != NULL), "a leaf is split unless that is impossible"); ENSURES(akfree == (cutv != WH_KPN2 && ancok && !lfok), "an unused anchor is given back"); vp_cover("splitleaf"); }
static bool inl1; static int remd, mrg, fr; static u32 slot_;
u32 stub_sih(const struct wormleaf *const l, const struct entry13 e) { ENSURES(e.v64 == ((ptr_to_u64(&kvs[3]) << 16) | wormhole_pkey((u32)kvs[3].hash)), "the new key is looked for"); return (l == &lf) == inl1 ? slot_ : WH_KPN; }
struct kv *stub_rmih(struct wormleaf *const l, const u32 ih) { ENSURES(l == (inl1 ? &lf : &nx) && ih == slot_, "the new key is taken out where it is"); remd++; return &kvs[3]; }
bool stub_lmg(struct wormleaf *const a, struct wormleaf *const b) { ENSURES(a == &lf && b == &nx && remd == 1 && mrg == 0, "the keys go back"); mrg++; return true; }
void stub_lf2(struct slab *const s, struct wormleaf *const l) { ENSURES(l == &nx && mrg == 1, "the unused leaf is freed"); fr++; }
void harness_undo(void) { inl1 = vp_nd_u8() & 1; slot_ = vp_nd_u32(); REQUIRES(slot_ < WH_KPN); kvs[3].hash = vp_nd_u64(); remd = mrg = fr = 0; wormleaf_split_undo(&map, &lf, &nx, &kvs[3]); ENSURES(remd == 1 && mrg == 1 && fr == 1, "a failed split leaves everything as it was"); vp_cover("undo"); }
/* scans: three leaves, keys numbered 0.. in order */
static struct wormleaf lv3[3]; static u32 base[4]; static struct wormhole_iter it; static int held3[3];
static int w3(const struct wormleaf *l) { return l == &lv3[0] ? 0 : l == &lv3[1] ? 1 : 2; }
void stub_lockr3(struct wormleaf *const l, struct wormref *const r) { held3[w3(l)]++; }
void stub_unlockr3(struct wormleaf *const l) { ENSURES(held3[w3(l)] == 1, "only a held lock is released"); held3[w3(l)]--; }
static int jl; static u32 sk;
struct wormleaf *stub_jr3(struct wormref *const r, const struct kref *const k) { ENSURES(!held3[0] && !held3[1] && !held3[2], "the old leaf is released before the new one is looked up"); held3[jl]++; return &lv3[jl]; }
struct wormleaf *stub_j3(const struct wormhmap *const h, const struct kref *const k) { return &lv3[jl]; }
void stub_sync3(struct wormleaf *const l) { ENSURES(unsafe || held3[w3(l)] == 1, "a leaf is sorted under its lock"); l->nr_sorted = l->nr_keys; }
u32 stub_seek3(const struct wormleaf *const l, const struct kref *const k) { ENSURES(l == &lv3[jl] && l->nr_sorted == l->nr_keys, "the leaf is sorted when it is searched"); return sk; }
struct kv *stub_kvis3(const struct wormleaf *const l, const u32 i) { ENSURES(i < l->nr_keys && l->nr_sorted == l->nr_keys && (unsafe || held3[w3(l)] == 1), "only stored keys of a sorted, locked leaf are returned"); return &kvs[base[w3(l)] + i]; }
static struct kv *fout3(struct kv *k, struct kv *o) { return k; }
static bool at(u32 p) { return p >= base[3] ? it.leaf == NULL && !held3[0] && !held3[1] && !held3[2] : it.leaf && it.is < it.leaf->nr_keys && base[w3(it.leaf)] + it.is == p && (unsafe || (held3[0] + held3[1] + held3[2] == 1 && held3[w3(it.leaf)])); }
#ifdef OP
void harness_iter(void) { ref.map = &map; map.mm.out = fout3; it.map = &map; it.ref = &ref; u32 n = 0; for (int i = 0; i < 3; i++) { base[i] = n; lv3[i].nr_keys = (NKS >> (4 * i)) & 15; n += lv3[i].nr_keys; lv3[i].nr_sorted = 0; lv3[i].next = i < 2 ? &lv3[i + 1] : NULL; held3[i] = 0; } base[3] = n; 
#ifdef UNSAFE
  unsafe = true;
#define F(x) whunsafe_iter_##x
#else
#define F(x) wormhole_iter_##x
#endif
  u32 p; it.leaf = NULL; jl = JL; sk = SK; p = base[jl] + sk; F(seek)(&it, &kr); ENSURES(at(p), "a scan starts at the first key not smaller than the given one"); 
  if (OP == 0) { struct kv *r = F(next)(&it, &kvs[9]); ENSURES(r == (p < n ? &kvs[p] : NULL), "the next key is returned"); if (p < n) p++; }
  else if (OP == 1) { for (u32 k = 0; k <= n + 1; k++) { F(skip)(&it, k); p = base[jl] + sk + k; ENSURES(at(p < n ? p : n), "a skip passes exactly that many keys"); jl = JL; sk = SK; F(seek)(&it, &kr); } p = base[jl] + sk; }
  else if (OP == 2) { jl = 2; sk = lv3[2].nr_keys; F(seek)(&it, &kr); p = n; }
  else if (OP == 3) { jl = 0; sk = 0; F(seek)(&it, &kr); p = 0; struct kv *r = wormhole_iter_peek(&it, &kvs[9]); ENSURES(r == (n ? &kvs[0] : NULL), "the current key is returned"); }
  else { wormhole_iter_park(&it); p = n; }
  ENSURES(at(p < n ? p : n), "a scan visits every key once, in order, and holds one leaf"); ENSURES(wormhole_iter_valid(&it) == (p < n), "a scan ends behind the last key"); vp_cover("iter"); }
#endif
#endif
