#include "mt.hpp"
/* -------- contracts used in place of verified callees -------- */
/* a leaf partitioned by k at sorted position i: entries before i are smaller, entries from i on are not, and only
   entry i may be equal.  Every strictly sorted leaf is partitioned at exactly one i (lemma harness_part). */
static bool part(const Leaf &l, MK k, int i, bool present) { Perm p(l.permutation_); int n = p.size(); bool ok = i <= n;
  for (int j = 0; j < LW; j++) if (j < n) { MK x = kat(l, p[j]); if (j < i) ok &= lt(x, k); else if (j == i) ok &= present ? eq(x, k) : lt(k, x); else ok &= lt(k, x); }
  return ok && (!present || i < n); }
#ifdef VP_NATIVE
#define NEEDS(e, r) if (!(e)) return r;
#else
#define NEEDS(e, r) REQUIRES(e);
#endif
template <class F> static void cases(F f) { int n = vp_nd_u8(), i = vp_nd_u8();
#ifdef VP_IR
#ifdef SN
  REQUIRES(n == SN); n = SN;
#endif
#endif
#ifdef VP_NATIVE
  if (!vp_replaying()) { n %= LW + 1; i %= n + 1; }
#endif
  REQUIRES(n <= LW && i <= n);
#if defined(UI)
  REQUIRES(n == SN && i == UI); f(SN, UI);
#elif defined(VP_IR) && defined(SN)
  CASES(ii, i, SN + 1) f(SN, ii);
#else
  CASES(nn, n, LW + 1) CASES(ii, i, LW + 1) if (ii <= nn) f(nn, ii);
#endif
}
/* 1. the search inside a leaf: for every leaf, every key */
static void lower1(int n, int i) {
  LeafBuf b; anyleaf(b.l, true, n, false); MK k = anykey(); char s[ISZ]; bytes(k, s); Key ka(s, k.len); bool e = vp_nd_u8() & 1;
  NEEDS(part(b.l, k, i, e), )
#ifdef UI
  key_indexed_position r3 = Leaf::bound_type::lower(ka, b.l), r = r3, r2 = r3;
#else
  key_indexed_position r = key_bound_binary::lower(ka, b.l), r2 = key_bound_linear::lower(ka, b.l), r3 = Leaf::bound_type::lower(ka, b.l);
#endif
  ENSURES(r.i == i && r2.i == i && r3.i == i, "leaf search returns the number of smaller keys");
  ENSURES((r.p >= 0) == e && (r2.p >= 0) == e && (r3.p >= 0) == e, "leaf search reports a position exactly for present keys");
  if (e) { Perm p(b.l.permutation_); int q = p[i]; ENSURES(r.p == q && r2.p == q && r3.p == q, "leaf search reports the slot of the key"); }
  vp_cover("lower");
}
extern "C" void harness_lower() { cases(lower1); }
/* 2. update steps, from every state find_locked may leave behind */
static Leaf *at; static int st_state, st_i, st_p;
static bool setup(Cur &c, LeafBuf &b, MK k, int i, bool present) {
  Leaf &l = b.l; NEEDS(part(l, k, i, present), false)
  c.n_ = &l; c.kx_.i = i; Perm p(l.permutation_); c.kx_.p = present ? p[i] : -1; c.state_ = present;
#ifdef VP_IR
  l.lock(l);
#endif
  return true;
}
extern "C" bool stub_find_locked(Cur *c, Ti *ti) { return c->state_; }
static void step_insert(int n, int i, int mod) {
  LeafBuf b; anyleaf(b.l, true, n, true, mod); Ti ti; Table t; t.root_ = &b.l; MK k = anykey(), g = anykey(); char s[ISZ]; bytes(k, s); Cur c(t, s, k.len);
  uint64_t v = vp_nd_u16(); int c0 = cnt(b.l, g); uint64_t v0 = val(b.l, g); bool fin = vp_nd_u8() & 1;
#ifdef HASPREV
  LeafBuf pb; freshleaf(pb.l, false); b.l.prev_ = &pb.l; REQUIRES(b.l.ikey0_[0] <= k.ik); IKT lo = b.l.ikey0_[0]; if (n == LW - 1) REQUIRES(Perm(b.l.permutation_).back() != 0);
#endif
  if (!setup(c, b, k, i, false)) return;
  Leaf::nodeversion_type ver; ver.assign_version(b.l); bool wasrem = b.l.modstate_ != Leaf::modstate_insert;
  bool f = c.find_insert(ti);
  ENSURES(!f && !c.new_nodes_.size(), "an absent key is reported absent");
  ENSURES(b.l.size() == n && cnt(b.l, g) == c0 && val(b.l, g) == v0, "a prepared insert is not visible before finish");
  c.value() = v; if (fin) c.finish(1, ti); else c.finish(0, ti);
  ENSURES(leafinv(b.l), "insert keeps the leaf sorted and well-formed");
  ENSURES(b.l.size() == n + fin, "insert adds exactly one entry");
  if (fin) { ENSURES(cnt(b.l, k) == 1 && val(b.l, k) == v, "the inserted key maps to the inserted value"); }
  else ENSURES(cnt(b.l, k) == 0, "an abandoned insert leaves the key absent");
  if (!eq(g, k)) ENSURES(cnt(b.l, g) == c0 && val(b.l, g) == v0, "no other key is affected");
  ENSURES(!b.l.locked() && !b.l.inserting() && !b.l.splitting() && b.l.is_root() && !b.l.deleted(), "the leaf ends unlocked and clean");
#ifdef HASPREV
  ENSURES(b.l.ikey0_[0] == lo, "a non-first leaf keeps its lower bound");
#endif
  if (wasrem) ENSURES(b.l.has_changed(ver), "reusing a slot after removals invalidates concurrent readers");
  vp_cover("insert");
}
extern "C" void harness_insert() { bool mod = vp_nd_u8() & 1; cases([=](int n, int i) { if (n < LW) { if (mod) step_insert(n, i, 1); else step_insert(n, i, 0); } }); }
static void step_remove1(int n, int i, int mod) {
  LeafBuf b; anyleaf(b.l, true, n, true, mod); Ti ti; Table t; t.root_ = &b.l; MK k = anykey(), g = anykey(); char s[ISZ]; bytes(k, s); Cur c(t, s, k.len);
  int c0 = cnt(b.l, g); uint64_t v0 = val(b.l, g);
  if (!setup(c, b, k, i, true)) return;
  Leaf::nodeversion_type ver; ver.assign_version(b.l); bool wasins = b.l.modstate_ == Leaf::modstate_insert;
  c.finish(-1, ti);
  ENSURES(leafinv(b.l) && b.l.size() == n - 1, "remove keeps the leaf well-formed and drops one entry");
  ENSURES(cnt(b.l, k) == 0, "the removed key is gone");
  if (!eq(g, k)) ENSURES(cnt(b.l, g) == c0 && val(b.l, g) == v0, "no other key is affected");
  ENSURES(!b.l.locked() && b.l.is_root() && !b.l.deleted() && ti.nfree == 0, "the root leaf stays, unlocked");
  ENSURES(b.l.modstate_ == Leaf::modstate_remove, "the leaf remembers that a slot was freed");
  vp_cover("remove");
}
static void step_remove(int n, int i) { if (i >= n) return; if (vp_nd_u8() & 1) step_remove1(n, i, 1); else step_remove1(n, i, 0); }
extern "C" void harness_remove() { cases(step_remove); }
static void step_update1(int n, int i, int mod) {
  LeafBuf b; anyleaf(b.l, true, n, true, mod); Ti ti; Table t; t.root_ = &b.l; MK k = anykey(), g = anykey(); char s[ISZ]; bytes(k, s); Cur c(t, s, k.len); uint64_t v = vp_nd_u16();
  int c0 = cnt(b.l, g), fin = vp_nd_u8() & 1; uint64_t v0 = val(b.l, g), vk = val(b.l, k);
  if (!setup(c, b, k, i, true)) return;
  ENSURES(c.find_insert(ti), "a present key is reported present");
  ENSURES(c.value() == vk, "the present value is exposed"); c.value() = v; if (fin) c.finish(1, ti); else c.finish(0, ti);
  ENSURES(leafinv(b.l) && b.l.size() == n && cnt(b.l, k) == 1 && val(b.l, k) == v, "an update replaces the value in place");
  if (!eq(g, k)) ENSURES(cnt(b.l, g) == c0 && val(b.l, g) == v0, "no other key is affected");
  ENSURES(!b.l.locked() && b.l.is_root(), "the leaf ends unlocked");
  vp_cover("update");
}
static void step_update(int n, int i) { if (i >= n) return; if (vp_nd_u8() & 1) step_update1(n, i, 1); else step_update1(n, i, 0); }
extern "C" void harness_update() { cases(step_update); }
