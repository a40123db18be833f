#include "mt.hpp"
#define private_ok 1
#ifndef NF
#define NF LW
#endif
static bool part(const Leaf &l, MK k, int i, bool present) { Perm p(l.permutation_); int n = p.size(); bool ok = i <= n;
  for (int j = 0; j < LW; j++) if (j < n) { MK x = kat(l, p[j]); if (j < i) ok &= lt(x, k); else if (j == i) ok &= present ? eq(x, k) : lt(k, x); else ok &= lt(k, x); }
  return ok && (!present || i < n); }
extern "C" bool stub_find_locked(Cur *c, Ti *ti) { return c->state_; }
static void lockl(Leaf &l) {
#ifdef VP_IR
  l.lock(l);
#endif
}
/* ---- leaf split: every full leaf, every insertion position, with and without neighbours, under no parent / a parent with room ---- */
static void step_split(int i, bool hasprev, bool hasnext, int pn, int pk, int mod) {
  LeafBuf b, pb, nb; InodeBuf par; Ti ti; Table t; anyleaf(b.l, pn == 0, NF, true, mod); MK k = anykey(), g = anykey(); char s[ISZ]; bytes(k, s);
  freshleaf(pb.l, false); freshleaf(nb.l, false);
  b.l.prev_ = hasprev ? &pb.l : 0; b.l.next_.ptr = hasnext ? &nb.l : 0; if (hasprev) pb.l.next_.ptr = &b.l; if (hasnext) nb.l.prev_ = &b.l;
  Leaf::nodeversion_type pver; uint16_t pkey[IW + 1];
  if (pn) { par.n.nkeys_ = pn; par.n.height_ = 1; par.n.parent_ = 0; par.n.mark_root(); b.l.parent_ = &par.n;
    for (int j = 0; j <= IW; j++) { par.n.child_[j] = j == pk ? (Node *)&b.l : j < pk ? (Node *)&pb.l : (Node *)&nb.l; }
    for (int j = 0; j < IW; j++) { par.n.ikey0_[j] = pkey[j] = vp_nd_u16(); if (j && j < pn) REQUIRES(pkey[j - 1] < pkey[j]); }
    /* the leaf's keys (and the new one) lie between its separators */
    for (int j = 0; j < LW; j++) { if (NF == LW || j != Perm(b.l.permutation_)[LW - 1] || j == 0) { if (pk > 0) REQUIRES(b.l.ikey0_[j] >= pkey[pk - 1]); if (pk < pn) REQUIRES(b.l.ikey0_[j] < pkey[pk]); } }
    if (pk > 0) REQUIRES(k.ik >= pkey[pk - 1]); if (pk < pn) REQUIRES(k.ik < pkey[pk]);
    pver.assign_version(par.n); }
  t.root_ = pn ? (Node *)&par.n : (Node *)&b.l;
  if (NF < LW) REQUIRES(Perm(b.l.permutation_).back() == 0 && b.l.ikey0_[0] < k.ik);
  if (hasprev) REQUIRES(b.l.ikey0_[0] <= k.ik);       /* slot 0 of a non-first leaf holds its lower bound */
#ifdef VP_NATIVE
  bool e = false; if (!vp_replaying()) { int q = 0; Perm pp(b.l.permutation_); for (int j = 0; j < NF; j++) { MK x = kat(b.l, pp[j]); q += lt(x, k); e |= eq(x, k); } if (e) return; i = q; }
#endif
  REQUIRES(part(b.l, k, i, false));
  Cur c(t, s, k.len); uint64_t v = vp_nd_u16(); int c0 = cnt(b.l, g); uint64_t v0 = val(b.l, g); uint16_t lo = b.l.ikey0_[0];
  Leaf::nodeversion_type ver; ver.assign_version(b.l);
  c.n_ = &b.l; c.kx_.i = i; c.kx_.p = -1; c.state_ = 0; lockl(b.l);
  bool f = c.find_insert(ti); c.value() = v; c.finish(1, ti);
  Leaf &L = b.l, &R = ti.lb[0].l;
  ENSURES(!f && ti.nl == 1 && ti.nfree == 0, "a full leaf splits into exactly two");
  ENSURES(leafinv(L) && leafinv(R), "both halves are sorted and well-formed");
  ENSURES(L.size() >= 1 && R.size() >= 1 && L.size() + R.size() == NF + 1, "no entry is lost or duplicated by a split");
  if (eq(g, k)) ENSURES(cnt(L, g) + cnt(R, g) == 1 && (cnt(L, g) ? val(L, g) : val(R, g)) == v, "the inserted key maps to the inserted value");
  else { ENSURES(cnt(L, g) + cnt(R, g) == c0, "every other key is still present exactly once"); if (c0) ENSURES((cnt(L, g) ? val(L, g) : val(R, g)) == v0, "every other key keeps its value"); }
  uint16_t sep = R.ikey0_[0];
  if (cnt(L, g)) ENSURES(g.ik < sep, "the left half holds only keys below the separator");
  if (cnt(R, g)) ENSURES(g.ik >= sep, "the right half holds only keys from the separator on");
  if (hasprev) ENSURES(L.ikey0_[0] == lo, "a non-first leaf keeps its lower bound");
  ENSURES(L.safe_next() == &R && R.prev_ == &L && R.safe_next() == (hasnext ? &nb.l : (Leaf *)0) && L.prev_ == (hasprev ? &pb.l : (Leaf *)0) && L.next_.ptr == &R, "the new leaf is linked between its neighbours");
  if (hasnext) ENSURES(nb.l.prev_ == &R, "the right neighbour points back to the new leaf"); if (hasprev) ENSURES(pb.l.next_.ptr == &L, "the left neighbour is untouched");
  ENSURES(!L.locked() && !R.locked() && !L.splitting() && !R.splitting() && !L.inserting() && !R.inserting() && !L.is_root() && R.isleaf() && !L.deleted() && !R.deleted(), "both halves end unlocked and clean");
  ENSURES(L.has_changed(ver) && L.has_split(ver), "a reader of the left half notices the split");
  Inode *p = pn ? &par.n : &ti.ib[0].n;
  ENSURES(L.parent_ == p && R.parent_ == p, "both halves know their parent");
  ENSURES(ti.ni == (pn ? 0 : 1) && p->size() == pn + 1, "the parent gains exactly one separator");
  ENSURES(!p->locked() && !p->inserting() && !p->splitting() && p->is_root() && !p->isleaf(), "the parent ends unlocked and clean");
  if (!pn) ENSURES(p->parent_ == 0 && p->height_ == 1 && (t.fix_root(), t.fix_root()) == p, "a root leaf's split makes a new root");
  if (pn) ENSURES(p->has_changed(pver), "a reader of the parent notices the insertion");
  for (int j = 0; j <= IW; j++) if (j <= pn + 1) ENSURES(p->child_[j] == (j < pk ? (Node *)&pb.l : j == pk ? (Node *)&L : j == pk + 1 ? (Node *)&R : (Node *)&nb.l), "children stay in order around the new leaf");
  for (int j = 0; j < IW; j++) if (j < pn + 1) ENSURES(p->ikey0_[j] == (j < pk ? pkey[j] : j == pk ? sep : pkey[j - 1]), "separators stay in order around the new one");
  vp_cover("split");
}
#ifndef MOD
#define MOD 0
#endif
#ifndef PN
#define PN 0
#endif
extern "C" void harness_split() {
  int i = vp_nd_u8(), pk = vp_nd_u8(); bool a = vp_nd_u8() & 1, d = vp_nd_u8() & 1;
#ifdef VP_NATIVE
  if (!vp_replaying()) { i = 0; pk %= PN + 1; }
#endif
  REQUIRES(i <= NF && pk <= PN);
#if defined(SI) && defined(VP_IR)
  REQUIRES(i == SI); { const int ii = SI;
#else
  CASES(ii, i, LW + 1) {
#endif
  CASES(kk, pk, PN + 1) {
#ifdef VP_IR
    REQUIRES(a == (LK & 1) && d == (LK >> 1)); step_split(ii, LK & 1, LK >> 1, PN, kk, MOD);
#else
    step_split(ii, a, d, PN, kk, vp_nd_u8() & 1);
#endif
  }
  }
}
/* ---- internode split ---- */
extern "C" void harness_isplit();
static void step_isplit(int p, int st) {
  LeafBuf ch[IW + 2]; InodeBuf a, b; Node *cp[IW + 2]; uint16_t key[IW];
  Inode &L = a.n, &R = b.n;
  L.nkeys_ = IW; L.height_ = 0; L.parent_ = 0;
  for (int j = 0; j < IW + 2; j++) freshleaf(ch[j].l, false);
  for (int j = 0; j <= IW; j++) { L.child_[j] = &ch[j].l; ch[j].l.parent_ = &L; }
  for (int j = 0; j < IW; j++) { L.ikey0_[j] = key[j] = vp_nd_u16(); if (j) REQUIRES(key[j - 1] < key[j]); }
  uint16_t ka = vp_nd_u16(), sk = 0; if (p > 0) REQUIRES(key[p - 1] < ka); if (p < IW) REQUIRES(ka < key[p]);
  Node *val = &ch[IW + 1].l; ch[IW + 1].l.parent_ = &L;
  L.lock(L); L.mark_insert(); R.assign_version(L);
  int kp = L.split_into(&R, p, ka, val, sk, st);
  if (kp >= 0) { L.shift_up(kp + 1, kp, L.size() - kp); L.assign(kp, ka, val); ++L.nkeys_; }
  /* expected interleaving of old entries and the new one */
  int nl = L.size(), nr = R.size(); ENSURES(nl >= 0 && nr >= 0 && nl + nr == IW, "one separator moves up, none is lost");
  for (int j = 0; j <= IW; j++) {
    uint16_t ek = j < p ? key[j] : j == p ? ka : key[j - 1]; Node *ec = j < p ? L.child_[0] : 0; ec = j < p ? (Node *)&ch[j + 1].l : j == p ? val : (Node *)&ch[j].l;
    if (j < nl) ENSURES(L.ikey0_[j] == ek && L.child_[j + 1] == ec, "the left internode keeps the leading entries");
    else if (j == nl) ENSURES(sk == ek && R.child_[0] == ec, "the middle separator moves up");
    else ENSURES(R.ikey0_[j - nl - 1] == ek && R.child_[j - nl] == ec, "the right internode gets the trailing entries");
    ENSURES(((Leaf *)ec)->parent_ == (j < nl ? &L : &R), "every child knows its internode"); }
  ENSURES(L.child_[0] == &ch[0].l && ch[0].l.parent_ == &L, "the first child stays");
  ENSURES(L.splitting() && L.locked(), "the left internode is marked as splitting");
  vp_cover("isplit");
}
extern "C" void harness_isplit() { int p = vp_nd_u8(), st = vp_nd_u8();
#ifdef VP_NATIVE
  if (!vp_replaying()) { p %= IW + 1; st %= 3; }
#endif
  REQUIRES(p <= IW && st <= 2); if (st == 2) REQUIRES(p == IW); CASES(pp, p, IW + 1) { if (st == 2) step_isplit(pp, 2); else if (st) step_isplit(pp, 1); else step_isplit(pp, 0); } }
