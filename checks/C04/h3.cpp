#include "mt.hpp"
static bool part(const Leaf &l, MK k, int i, bool present) { Perm p(l.permutation_); int n = p.size(); bool ok = i <= n;
  for (int j = 0; j < LW; j++) if (j < n) { MK x = kat(l, p[j]); if (j < i) ok &= lt(x, k); else if (j == i) ok &= present ? eq(x, k) : lt(k, x); else ok &= lt(k, x); }
  return ok && (!present || i < n); }
/* ---- leaf links ---- */
extern "C" void harness_link() {
  LeafBuf a, b, c; bool hn = vp_nd_u8() & 1; Leaf *nx = hn ? &c.l : 0;
  freshleaf(a.l, false); freshleaf(b.l, false); freshleaf(c.l, false); a.l.next_.ptr = nx; c.l.prev_ = &a.l;
  btree_leaflink<Leaf, true>::link_split(&a.l, &b.l);
  ENSURES(a.l.next_.ptr == &b.l && b.l.prev_ == &a.l && b.l.next_.ptr == nx && (!hn || c.l.prev_ == &b.l) && !a.l.prev_, "link_split inserts the new leaf to the right");
  if (vp_nd_u8() & 1) { btree_leaflink<Leaf, true>::unlink(&b.l); ENSURES(a.l.next_.ptr == nx && (!hn || c.l.prev_ == &a.l), "unlink restores the neighbours' links");
    ENSURES(b.l.prev_ == &a.l && b.l.safe_next() == nx, "an unlinked leaf still leads to its neighbours"); ENSURES((b.l.next_.x & 1) || !hn, "an unlinked leaf cannot be split into"); }
  vp_cover("link");
}
/* the separator search: contract used by the descent above */
static int g_kp; static const Inode *g_in;
extern "C" int stub_upper(const Key &ka, const Inode &in) { ENSURES(&in == g_in, "the descent searches the node it stands on"); return g_kp; }
/* ---- descent: root with n separators over n+1 leaves; start anywhere ---- */
static void step_reach(int n, int kp, int start) {
  LeafBuf lf[IW + 1]; uint64_t pad = 0; InodeBuf ib; Inode &in = ib.n; Ti ti; MK k = anykey(); char s[ISZ]; bytes(k, s); Key ka(s, k.len);
  in.nkeys_ = n; in.parent_ = 0; in.mark_root();
  for (int j = 0; j <= IW; j++) { freshleaf(lf[j].l, false); lf[j].l.parent_ = &in; in.child_[j] = &lf[j].l; }
  for (int j = 0; j < IW; j++) { in.ikey0_[j] = (IKT)(ISZ == 2 ? vp_nd_u16() : vp_nd_u64());
#ifdef VP_NATIVE
    if (!vp_replaying()) in.ikey0_[j] = ((IKT)j << (ISZ * 8 - 8)) | (in.ikey0_[j] & 0x81);
#endif
    if (j < n) { if (j + 1 < kp) REQUIRES(in.ikey0_[j] < k.ik); else if (j < kp) REQUIRES(in.ikey0_[j] <= k.ik); else REQUIRES(in.ikey0_[j] > k.ik); } }
  g_kp = kp; g_in = &in; Leaf::nodeversion_type v; Node *from = start ? (Node *)&lf[0].l : (Node *)&in;
  Leaf *r = from->reach_leaf(ka, v, ti);
  ENSURES(r == &lf[kp].l, "descent reaches the leaf whose range holds the key, from the root or from a stale root");
  ENSURES(v.version_value() == r->version_value(), "descent returns the leaf's current version");
  vp_cover("reach");
}
extern "C" void harness_reach() { int n = vp_nd_u8(), kp = vp_nd_u8(), st = vp_nd_u8() & 1;
#ifdef VP_NATIVE
  if (!vp_replaying()) { n %= IW + 1; kp %= n + 1; }
#endif
#ifdef RN
  REQUIRES(n == RN && kp <= RN && st == RS); CASES(k1, kp, RN + 1) step_reach(RN, k1, RS); return;
#endif
  REQUIRES(n <= IW && kp <= n); CASES(nn, n, IW + 1) CASES(kk, kp, IW + 1) if (kk <= nn) { if (st) step_reach(nn, kk, 1); else step_reach(nn, kk, 0); } }
static IKT anyik() { return (IKT)(ISZ == 2 ? vp_nd_u16() : vp_nd_u64()); }
static void step_upper(int n, int kp) {
  InodeBuf ib; Inode &in = ib.n; MK k = anykey(); char s[ISZ]; bytes(k, s); Key ka(s, k.len); in.nkeys_ = n; const IKT kk = ka.ikey(); ENSURES(kk == k.ik, "a key's first slice");
  for (int j = 0; j < IW; j++) { in.ikey0_[j] = anyik();
#ifdef VP_NATIVE
    if (!vp_replaying()) in.ikey0_[j] = ((IKT)j << (ISZ * 8 - 8)) | (in.ikey0_[j] & 0x81);
#endif
    if (j < n) { if (j + 1 < kp) REQUIRES(in.ikey0_[j] < kk); else if (j < kp) REQUIRES(in.ikey0_[j] <= kk); else REQUIRES(in.ikey0_[j] > kk); } }
  ENSURES(Inode::bound_type::upper(ka, in) == kp, "separator search counts the separators not above the key");
  vp_cover("upper");
}
#ifndef UN
#define UN 3
#endif
extern "C" void harness_upper() { int kp = vp_nd_u8();
#ifdef VP_NATIVE
  if (!vp_replaying()) kp %= UN + 1;
#endif
  REQUIRES(kp <= UN);
#ifdef UK
  REQUIRES(kp == UK); step_upper(UN, UK);
#else
  CASES(k1, kp, UN + 1) step_upper(UN, k1);
#endif
}
/* ---- moving right after a split ---- */
extern "C" void harness_advance() {
  LeafBuf a, b, c; Ti ti; MK k = anykey(); char s[ISZ]; bytes(k, s); Key ka(s, k.len);
  freshleaf(a.l, false); freshleaf(b.l, false); freshleaf(c.l, false); a.l.next_.ptr = &b.l; b.l.next_.ptr = &c.l; b.l.prev_ = &a.l; c.l.prev_ = &b.l;
  Leaf::nodeversion_type v; v.assign_version(a.l); IKT bb = (IKT)(ISZ == 2 ? vp_nd_u16() : vp_nd_u64()), cb = (IKT)(ISZ == 2 ? vp_nd_u16() : vp_nd_u64());
  a.l.permutation_ = Perm::make_sorted(1); MK last = anykey(); a.l.ikey0_[0] = last.ik; a.l.keylenx_[0] = last.len; b.l.ikey0_[0] = bb; c.l.ikey0_[0] = cb;
  REQUIRES(last.ik < bb && bb < cb);
  int what = vp_nd_u8() % 3;
  if (what == 1) { a.l.lock(); a.l.mark_insert(); a.l.unlock(); } else if (what == 2) { a.l.lock(); a.l.mark_split(); a.l.unlock(); }
  else REQUIRES(k.ik < bb);
  if (what == 1) REQUIRES(k.ik < bb);
  if (vp_nd_u8() & 1) { a.l.next_.x |= 1; }
  Leaf *r = a.l.advance_to_key(ka, v, ti);
  ENSURES(r == (k.ik < bb ? &a.l : k.ik < cb ? &b.l : &c.l), "after a split the reader moves right to the leaf responsible for the key");
  ENSURES(v.version_value() == r->version_value(), "the reader leaves with that leaf's current version");
  vp_cover("advance");
}
/* ---- lookups: validated optimistic reads ---- */
static Leaf *theleaf; static int g_i, g_e, tears, kind; static MK g_k; static Leaf::nodeversion_type *vslot;
extern "C" Leaf *stub_reach(const Node *root, const Key &ka, Leaf::nodeversion_type &v, Ti *ti) { ENSURES(root == theleaf, "lookups start at the root"); v.assign_version(*theleaf); ENSURES(!v.deleted(), "no lookup of a deleted leaf"); return theleaf; }
extern "C" Leaf *stub_advance(Leaf *n, const Key &ka, Leaf::nodeversion_type &v, Ti *ti) { ENSURES(n == theleaf, "moves on from the leaf it read"); v.assign_version(*theleaf); return theleaf; }
static Perm::storage_type finalperm; static void finalperm_install() { theleaf->permutation_ = finalperm; }
static key_indexed_position lower_contract() {
  key_indexed_position r(g_i, -1); if (g_e) r.p = Perm(theleaf->permutation_)[g_i];
  if (tears) {   /* a writer was at work while we searched: the position is garbage, and the writer has left its mark */
    tears = 0; r.i = vp_nd_u8() & 3; int q = vp_nd_u8(); REQUIRES(q <= LW); r.p = q == LW ? -1 : q;
    if (kind == 0) { theleaf->lock(); theleaf->mark_insert(); theleaf->unlock(); } else if (kind == 1) { theleaf->lock(); theleaf->mark_split(); theleaf->unlock(); theleaf->mark_root(); }
    else finalperm_install();
  }
  return r;
}
extern "C" key_indexed_position stub_lower_u(const Key &ka, const UCur &c) { return lower_contract(); }
extern "C" key_indexed_position stub_lower_l(const Key &ka, const Leaf &l) { ENSURES(&l == theleaf, "searches the leaf it reached"); return lower_contract(); }
#ifndef SN
#define SN 2
#endif
static void step_find(int i, bool present, int knd, bool locked) {
  LeafBuf b; Leaf &l = b.l; anyleaf(l, true, SN, false); Ti ti; Table t; t.root_ = &l; MK k = anykey(); char s[ISZ]; bytes(k, s); 
#ifdef VP_NATIVE
  { bool done = false; for (int q = 0; q <= SN && !done; q++) for (int pr = 0; pr < 2 && !done; pr++) if (part(l, k, q, pr)) { i = q; present = pr; done = true; } if (!done) return; }
#else
  REQUIRES(part(l, k, i, present));
#endif
  theleaf = &l; g_i = i; g_e = present; g_k = k; kind = knd; tears = 0; finalperm = l.permutation_;
  uint64_t want = present ? l.lv_[Perm(l.permutation_)[i]].u_.v : 0;
#ifdef VP_IR
  tears = knd < 3;
  if (knd == 2) { Perm::storage_type f = finalperm; l.permutation_ = (Perm::storage_type)vp_nd_u64(); REQUIRES(l.permutation_ != f && validperm(Perm(l.permutation_))); }
#endif
  if (!locked) { uint64_t v = 0xdead; bool f = t.get(Str(s, k.len), v, ti);
    ENSURES(f == present, "get finds exactly the stored keys, whatever writers did meanwhile"); ENSURES(v == (present ? want : 0xdead), "get returns the stored value, and leaves the output alone otherwise");
    ENSURES(!l.locked(), "get takes no lock"); }
  else { Cur c(t, s, k.len); bool f = c.find_locked(ti);
    ENSURES(f == present && (c.kx_.p >= 0) == present && c.kx_.i == i && c.n_ == &l, "find_locked reports the key's position in the state it locked"); if (present) ENSURES(c.value() == want, "find_locked exposes the stored value");
    ENSURES(l.locked(), "find_locked returns with the leaf locked"); l.unlock(); ENSURES(!l.locked() && l.permutation_ == finalperm, "looking up changes nothing"); }
  vp_cover("find");
}
#ifndef LOCKED
#define LOCKED 0
#endif
extern "C" void harness_find() { int i = vp_nd_u8(), pr = vp_nd_u8() & 1, kn = vp_nd_u8() & 3;
#ifdef VP_NATIVE
  if (!vp_replaying()) i %= SN + 1;
#endif
#ifdef KN
  REQUIRES(i == SI && pr == PR && kn == KN); step_find(SI, PR, KN, LOCKED); return;
#endif
  REQUIRES(i + pr <= SN); if (!LOCKED && kn == 2) return;
  CASES(ii, i, SN + 1) { if (pr) { if (ii < SN) CASES(kk, kn, 4) step_find(ii, true, kk, LOCKED); } else CASES(kk, kn, 4) step_find(ii, false, kk, LOCKED); } }
