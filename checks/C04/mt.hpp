/* shared set-up for MassTree tree-level contracts: the real masstree_*.hh, instantiated with 16-bit slices (a key of up
   to 2 bytes is one slice) and small node widths; only the allocator / thread context is a stand-in.
   Compiled with -fno-access-control. */
#include "config.h"
#include "compiler.hh"
#include "str.hh"
#include "kvthread.hh"
#include "masstree.hh"
#include "masstree_key.hh"
#include "masstree_struct.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_split.hh"
#include "masstree_remove.hh"
#include "vp.h"
using lcdf::Str;
extern "C" int vp_replaying(void);
#ifndef VLW
#define VLW 4
#endif
#define LW VLW
#ifdef VIW
#define IW VIW
#endif
#ifndef IW
#define IW 3
#endif
#ifndef IKT
#define IKT uint16_t
#endif
enum { ISZ = sizeof(IKT) };
#define CASES(c, i, lim) for (int c = 0; c < (lim); c++) if (c == (i))
struct Ti;
struct P : Masstree::nodeparams<LW, IW> {
  typedef uint64_t value_type; typedef Ti threadinfo_type; typedef IKT ikey_type;
  static constexpr bool prefetch = false;
#ifdef LINEAR
  static constexpr int bound_method = bound_method_linear;
#endif
};
typedef Masstree::leaf<P> Leaf; typedef Masstree::internode<P> Inode; typedef Masstree::node_base<P> Node;
typedef Masstree::tcursor<P> Cur; typedef Masstree::basic_table<P> Table; typedef Masstree::unlocked_tcursor<P> UCur;
typedef kpermuter<LW> Perm; typedef Masstree::key<IKT> Key; typedef Masstree::leafvalue<P> LV;
enum { LSZ = ((int)sizeof(Leaf) + 63) / 64 * 64 };
struct LeafBuf { LeafBuf() : l(LSZ, 0) {} Leaf l; };
struct InodeBuf { InodeBuf() : n(1) {} Inode n; };
#ifndef NLEAF
#define NLEAF 2
#endif
#ifndef NINODE
#define NINODE 2
#endif
/* fresh nodes handed out by the allocator contract: distinct, uninitialised, big enough */
struct Ti {
  struct mrcu_callback { virtual ~mrcu_callback() {} virtual void operator()(Ti &) = 0; };
  LeafBuf lb[NLEAF]; uint64_t pad0; InodeBuf ib[NINODE]; uint64_t pad1; int nl, ni, nfree, ncb; void *freed[4]; 
  struct fence_t { void operator()() const { relax_fence(); } template <typename N> void operator()(N) const { relax_fence(); } };
  fence_t lock_fence(int) { return fence_t(); } fence_t stable_fence() { return fence_t(); }
  void mark(int) {} uint64_t operation_timestamp() { return 0; }
  void *pool_allocate(size_t sz, int tag) {
    if (tag == memtag_masstree_leaf) { ENSURES(nl < NLEAF && sz <= LSZ, "allocation within the contract"); return &lb[nl++].l; }
    ENSURES(ni < NINODE && sz == sizeof(Inode), "allocation within the contract"); return &ib[ni++].n; }
  void *allocate(size_t sz, int) { ENSURES(0, "unexpected allocation"); return 0; }
  void pool_deallocate_rcu(void *p, size_t, int) { freed[nfree & 3] = p; nfree++; }
  void deallocate_rcu(void *p, size_t, int) {} void deallocate(void *, size_t, int) {} void pool_deallocate(void *, size_t, int) {}
  void rcu_register(mrcu_callback *) { ncb++; }
  Ti() : nl(0), ni(0), nfree(0), ncb(0) {}
};
/* keys of the harness: strings of 0..ISZ bytes, as (slice,length) with bytes beyond the length zero */
struct MK { IKT ik; int len; };
static IKT low(int len) { return len >= ISZ ? (IKT)0 : (IKT)((IKT)~(IKT)0 >> (8 * len)); }
static bool canon(MK k) { bool ok = false; for (int l = 0; l <= ISZ; l++) ok |= k.len == l && !(k.ik & low(l)); return ok; }
static bool eq(MK a, MK b) { return a.ik == b.ik && a.len == b.len; }
static bool lt(MK a, MK b) { return a.ik < b.ik || (a.ik == b.ik && a.len < b.len); }
static MK anykey0() { MK k; k.ik = (IKT)(ISZ == 2 ? vp_nd_u16() : vp_nd_u64()); k.len = vp_nd_u8();
#ifdef VP_NATIVE
  if (!vp_replaying()) { k.len %= ISZ + 1; k.ik &= (IKT)0x0303030303030303ull; k.ik &= ~low(k.len); }
#endif
  REQUIRES(k.len <= ISZ); return k; }
static MK anykey() { MK k = anykey0(); REQUIRES(canon(k)); return k; }
static void bytes(MK k, char *b) { for (int j = 0; j < ISZ; j++) b[j] = (char)(k.ik >> (8 * (ISZ - 1 - j))); }
static bool validperm(Perm p) { if (p.size() > LW) return false; bool ok = true; for (int i = 0; i < LW; i++) { int e = p[i]; ok &= e < LW; for (int j = 0; j < i; j++) ok &= p[j] != e; } return ok; }
static MK kat(const Leaf &l, int p) { MK k; k.ik = l.ikey0_[p]; k.len = l.keylenx_[p]; return k; }
/* representation invariant of a leaf that holds only single-slice keys */
static bool leafinv(const Leaf &l) {
  Perm p(l.permutation_); if (!validperm(p)) return false;
  int n = p.size();
  for (int i = 0; i < LW; i++) if (i < n && !canon(kat(l, p[i]))) return false;
  for (int i = 0; i + 1 < LW; i++) if (i + 1 < n && !lt(kat(l, p[i]), kat(l, p[i + 1]))) return false;
  return true;
}
/* abstract map of one leaf: number of entries with key g, and the value */
static int cnt(const Leaf &l, MK g) { Perm p(l.permutation_); int n = p.size(), c = 0; for (int i = 0; i < LW; i++) if (i < n && eq(kat(l, p[i]), g)) c++; return c; }
static uint64_t val(const Leaf &l, MK g) { Perm p(l.permutation_); int n = p.size(); uint64_t v = 0; for (int i = 0; i < LW; i++) if (i < n && eq(kat(l, p[i]), g)) v = l.lv_[p[i]].u_.v; return v; }
static void freshleaf(Leaf &l, bool root) {
  new (&l) Leaf(LSZ, 0); l.next_.ptr = 0; l.prev_ = 0; l.parent_ = 0;
  if (root) l.mark_root();
}
static void nd_perm(Leaf &l, int n) {
#ifdef VP_NATIVE
  if (!vp_replaying()) { int a[LW]; for (int i = 0; i < LW; i++) a[i] = i; for (int i = 0; i < LW; i++) { int j = vp_nd_u8() % LW; std::swap(a[i], a[j]); }
    uint64_t v = n >= 0 ? n : vp_nd_u8() % (LW + 1); for (int i = 0; i < LW; i++) v |= (uint64_t)a[i] << (4 * i + 4); l.permutation_ = v; return; }
#endif
  uint64_t w = vp_nd_u64(); if (n >= 0) w = (w & ~(uint64_t)15) | n;
  if (LW < 15) w &= ((uint64_t)1 << (4 * LW + 4)) - 1;
  l.permutation_ = (Perm::storage_type)w;
}
static void anyleaf(Leaf &l, bool root, int n = -1, bool sorted = true, int mod = 0) {
  freshleaf(l, root); nd_perm(l, n); l.modstate_ = mod;
  for (int i = 0; i < LW; i++) { MK k = anykey0(); l.ikey0_[i] = k.ik; l.keylenx_[i] = k.len; l.lv_[i].u_.v = vp_nd_u16(); }
#ifdef VP_NATIVE
  if (!vp_replaying()) { Perm p(l.permutation_); for (int i = 0; i < p.size(); i++) for (int j = i + 1; j < p.size(); j++) { int a = p[i], b = p[j];
    if (lt(kat(l, b), kat(l, a))) { std::swap(l.ikey0_[a], l.ikey0_[b]); std::swap(l.keylenx_[a], l.keylenx_[b]); } } }
#endif
  if (sorted) REQUIRES(leafinv(l)); else REQUIRES(validperm(Perm(l.permutation_)));
}
/* callees that the contract's precondition rules out: reaching one is a failed obligation */
extern "C" void stub_no_ksuf(Leaf *, int, const char *, int, bool, Ti *) { ENSURES(0, "a key without suffix never allocates suffix storage"); REQUIRES(0); }
extern "C" bool stub_no_layer(Cur *, Ti *) { ENSURES(0, "a key without suffix never creates a layer"); REQUIRES(0); return false; }
extern "C" int stub_no_isplit(Inode *, Inode *, int, IKT, Node *, IKT &, int) { ENSURES(0, "an internode with room is never split"); REQUIRES(0); return 0; }
extern "C" bool stub_no_split(Cur *, Ti *) { ENSURES(0, "a leaf with room is never split"); REQUIRES(0); return false; }
extern "C" bool stub_no_rm(Leaf *, Node *, const char *, int, Ti *) { ENSURES(0, "unexpected leaf removal"); REQUIRES(0); return false; }
/* contract of btree_leaflink::link_split (proved by unit link) */
extern "C" void stub_link(Leaf *n, Leaf *nr) { Leaf *next = n->next_.ptr; nr->prev_ = n; nr->next_.ptr = next; if (next) next->prev_ = nr; n->next_.ptr = nr; }
extern "C" int stub_no_lsplit(Leaf *, Leaf *, Cur *, IKT &, Ti *) { ENSURES(0, "a leaf with room is never split"); REQUIRES(0); return 0; }
