/* Contracts of OptiQL's queue lock (latches/OMCSImpl.h), of its wrapper (OMCS.h) and of the node methods built on it (N.h).
   The word is a version when free; when held it names the last queued waiter.  Others interfere before every atomic access. */
#include <stdint.h>
#include <stddef.h>
#include <assert.h>
#include <algorithm>
#include <functional>
#include <tuple>
#include <atomic>
#include "N.cpp"
#include "vp.h"
using namespace ART_OLC_OptiQL;
typedef omcs_impl::OMCSLock OL; typedef omcs_impl::OMCSQNode Q;
union BoxN { N4 n; uint64_t raw[1]; BoxN() {} ~BoxN() {} };
static const uint64_t HELD = OL::kLockedBit;
static uint64_t &wd(OL &l) { return *(uint64_t *)&l.tail_; }
static uint64_t &wd(N &n) { return wd(n.lock.lock); }
static uint64_t &qv(Q &q) { return *(uint64_t *)&q.version_; }
static Q *&qn(Q &q) { return *(Q **)&q.next_; }
static bool held(uint64_t w) { return (w & HELD) != 0; }
static uint64_t anyver() { return vp_nd_u64() & (HELD / 2 - 1); }
static Q *self, *other, *succ; static OL *L_; static N *node;
#if IR_STUBS
extern "C" Q *stub_ptr(uint64_t w) { ENSURES(w == OL::make_qnode_ptr(other), "the predecessor is the waiter the word named"); return other; }
#endif
/* ghost state */
static bool on, mine, waiting, granted; static int stage, tw, sv, pn, k1, k2, ns; static uint64_t from, to, grant, atv, seenw[4]; static bool atn; static uint64_t sval;
static bool seen(uint64_t v) { bool r = false; for (int i = 0; i < 4; i++) if (i < ns && seenw[i] == v) r = true; return r; }
static bool seen_other(uint64_t v) { bool r = false; for (int i = 0; i < 4; i++) if (i < ns && seenw[i] != v) r = true; return r; }
static void note() { if (ns < 4) seenw[ns++] = wd(*L_); }
static bool contended;   /* may the word name another waiter? */
static uint64_t anyw() { if (contended && (vp_nd_u8() & 1)) return OL::make_qnode_ptr(other); return anyver(); }
#ifdef VP_IR
extern "C" void vp_env(void *p) { if (!on) return;
  if (p == (void *)&wd(*L_) && !mine) { if (vp_nd_u8() & 1) { wd(*L_) = anyw(); if (node && (vp_nd_u8() & 1)) node->setObsolete(); } REQUIRES(ns < 4); note(); return; }
  if (mine && stage == 0 && (vp_nd_u8() & 1)) { wd(*L_) = OL::make_qnode_ptr(succ); stage = 1; }
  if (mine && stage == 1 && (vp_nd_u8() & 1)) { qn(*self) = succ; stage = 2; }
  if (mine && p == (void *)&qn(*self)) REQUIRES(++k2 <= 3 );
  if (mine && waiting && !granted && p == (void *)&qv(*self)) { if (vp_nd_u8() & 1) { grant = anyver(); REQUIRES(grant != OL::kInvalidVersion); qv(*self) = grant; granted = true; } else REQUIRES(++k1 <= 1); }
}
extern "C" void vp_env_store(void *p) { if (on && p == (void *)&wd(*L_)) vp_env(p); }   /* also between a read and a later plain store */
extern "C" void vp_on_write(void *p, int n, uint64_t o, uint64_t v) { if (!on) return;
  if (p == (void *)&wd(*L_)) { tw++; from = o; to = v; if (!mine) { mine = true; waiting = held(o); atn = qn(*self) == 0; atv = qv(*self); stage = v == OL::make_qnode_ptr(self) ? 0 : 3; } else mine = false; }
  if (p == (void *)&qv(*succ)) { sv++; sval = v; mine = false; }
  if (p == (void *)&qn(*other)) pn++; }
#endif
struct Setup { Q a, b, c; Setup() { self = &a; other = &b; succ = &c; qn(a) = vp_nd_u8() & 1 ? other : succ; qv(a) = vp_nd_u64(); qn(b) = 0; qn(c) = 0; qv(c) = 0; } };
#define BEGIN(l) L_ = &(l); on = true; mine = waiting = granted = false; tw = sv = pn = k1 = k2 = ns = 0; stage = 3; begin_native();
static void begin_native() {
#ifdef VP_NATIVE
  note();
#endif
}
#define END on = false;
#ifdef VP_IR
#define IR(x) x
#else
#define IR(x)
#endif
static uint64_t me() { return OL::make_qnode_ptr(self); }

extern "C" void harness_qlock() {   /* lock(q), and lock_begin(q) */
  Setup s; OL l; contended = true; IR(wd(l) = anyw();)
#ifdef VP_NATIVE
  wd(l) = anyver(); 
#endif
  uint64_t w0 = wd(l); BEGIN(l) bool begin = vp_nd_u8() & 1, ret = false; if (begin) ret = l.lock_begin(self); else l.lock(self); END
#ifdef VP_IR
  ENSURES(tw == 1 && to == me(), "locking swaps itself into the word, once"); ENSURES(atn, "it is published with no successor");
  if (!held(from)) { ENSURES(qv(*self) == from + 1 && pn == 0, "a free lock is taken with the next version"); }
  else { ENSURES(atv == OL::kInvalidVersion, "it waits with no version set"); ENSURES(pn == 1 && qn(*other) == self, "a held lock is queued for behind its last waiter"); ENSURES(granted && qv(*self) == grant, "a queued writer enters only once its predecessor hands over, with the version handed over"); }
  if (begin) ENSURES(ret == held(from), "lock_begin reports whether it queued"); ENSURES(qn(*self) == (stage == 2 ? succ : 0), "a successor queued meanwhile is kept");
#else
  ENSURES(wd(l) == me() && qv(*self) == w0 + 1 && qn(*self) == 0, "a free lock is taken with the next version");
#endif
  vp_cover("qlock");
}
extern "C" void harness_qtry() {
  Setup s; OL l; contended = true; uint64_t w0 = anyver(); wd(l) = w0; uint64_t v = vp_nd_u8() & 1 ? w0 : anyver(); BEGIN(l) bool ok = l.try_lock(self, v); END
#ifdef VP_IR
  ENSURES(tw <= 1 && ok == (tw == 1), "try_lock reports whether it locked"); if (ok) { ENSURES(from == v && to == me(), "try_lock succeeds only from exactly the version given"); ENSURES(atn && atv == v + 1, "it is published with no successor and the next version"); }
#else
  ENSURES(wd(l) == (ok ? me() : w0), "try_lock reports whether it locked");
#endif
  if (!ok) ENSURES(seen_other(v), "an unchanged version can be locked"); vp_cover("qtry");
}
extern "C" void harness_qunlock() {   /* release, with the successor queueing up at any moment */
  Setup s; OL l; uint64_t v = anyver(); REQUIRES(v != 0); wd(l) = me(); qn(*self) = 0; qv(*self) = v; 
#ifndef NDEBUG
  self->set_omcs(&l);
#endif
  BEGIN(l) mine = true; stage = vp_nd_u8() % 3; if (stage) wd(l) = OL::make_qnode_ptr(succ);
#ifdef VP_NATIVE
  if (stage == 1) stage = 2;
#endif
  if (stage == 2) qn(*self) = succ; int st0 = stage; l.unlock(self); END
#ifdef VP_IR
  bool free_ = tw == 1 && sv == 0 && from == me() && to == v && stage == 0, hand = tw == 0 && sv == 1 && sval == v + 1 && stage == 2;
  ENSURES(free_ || hand, "release either frees the lock with its version, or hands the next version to the successor, never both or neither");
#else
  ENSURES(st0 ? qv(*succ) == v + 1 && wd(l) == OL::make_qnode_ptr(succ) : wd(l) == v && qv(*succ) == 0, "release frees the lock or hands it over");
#endif
  vp_cover("qunlock");
}
extern "C" void harness_plock() {   /* the lock without a queue node */
  Setup s; OL l; contended = true; IR(wd(l) = anyw();)
#ifdef VP_NATIVE
  wd(l) = anyver();
#endif
  uint64_t w0 = wd(l); BEGIN(l) uint64_t v; bool ok = true; bool t = vp_nd_u8() & 1; if (t) { v = vp_nd_u8() & 1 ? w0 & ~HELD : anyver(); ok = l.try_lock(v); } else v = l.lock(); END
#ifdef VP_IR
  ENSURES(tw == ok, "locking writes the word exactly once"); if (ok) ENSURES(from == v && !held(from) && held(to), "a lock is taken only from exactly the version it reports");
#endif
  if (ok) { ENSURES(held(wd(l)) && l.is_locked(), "the lock is held afterwards"); if (vp_nd_u8() & 1) l.unlock(); else l.unlock(v); ENSURES(wd(l) == v + 1 && !l.is_locked(), "unlocking frees the lock with the next version"); }
  else ENSURES(seen_other(v), "an unchanged version can be locked"); vp_cover("plock");
}
extern "C" void harness_qread() {
  Setup s; OL l; contended = true; IR(wd(l) = anyw();)
#ifdef VP_NATIVE
  wd(l) = anyver();
#endif
  uint64_t w0 = wd(l); BEGIN(l) int m = vp_nd_u8() % 3; 
  if (m == 0) { bool r = vp_nd_u8() & 1; uint64_t v = l.try_begin_read(r); END ENSURES(seen(v) && r == held(v), "a read starts exactly on a free lock, with its version"); }
  else if (m == 1) { uint64_t v = l.begin_read(); END ENSURES(seen(v) && !held(v), "a read starts only on a free lock, with its version"); }
  else { uint64_t v = vp_nd_u8() & 1 ? w0 & ~HELD : anyver(); bool ok = l.validate_read(v); END ENSURES(!ok || seen(v), "validation passes only if the word is the version read"); ENSURES(ok || seen_other(v), "an unchanged version validates"); }
  END ENSURES(tw == 0, "reading writes nothing"); vp_cover("qread");
}
extern "C" void harness_ptr() {
  Q a[2]; Q *p = a + (vp_nd_u8() & 1); uint64_t w = OL::make_qnode_ptr(p); ENSURES(held(w), "a queue word counts as held"); ENSURES(OL::get_qnode_ptr(w) == p, "a queue word names its node"); ENSURES(OL::make_qnode_ptr(a) != OL::make_qnode_ptr(a + 1), "different nodes give different words");
  uint64_t v = anyver(); ENSURES(OL::is_version(v) && !OL::is_version(w) && held(OL::make_locked_version(v)), "versions and queue words are told apart"); OL l; ENSURES(wd(l) == 0 && !l.is_locked(), "a fresh lock is free"); vp_cover("ptr");
}
/* ---- the node methods: the lock plus the obsolete mark, which only a lock holder sets ---- */
static void nset(N &n) { wd(n) = 0; n.prefixCount.value = vp_nd_u32(); node = &n; contended = false; }
extern "C" void harness_nlock() {
  Setup s; BoxN b; N &n = b.n; nset(n); contended = true; IR(wd(n) = anyw();)
#ifdef VP_NATIVE
  wd(n) = anyver();
#endif
  uint64_t w0 = wd(n); uint64_t v0 = vp_nd_u8() & 1 ? w0 & ~HELD : anyver(), v = v0; bool up = vp_nd_u8() & 1, r = false;
  BEGIN(n.lock.lock) if (up) n.upgradeToWriteLockOrRestart(v, self, r); else n.writeLockOrRestart(self, r); END
#ifdef VP_IR
  if (r) { if (!tw) ENSURES(up && seen_other(v0), "a restart without locking means the version was stale"); else { ENSURES(n.isObsolete(), "a restart after locking means the node is obsolete"); ENSURES(!mine, "a restart leaves no lock behind"); } }
  else { ENSURES(!n.isObsolete() && mine && tw == 1 && to == me(), "the lock is granted only on a live node, and held"); if (up) ENSURES(from == v0, "upgrading succeeds only from exactly the version read"); }
#else
  ENSURES(r ? !held(wd(n)) : wd(n) == me() && !n.isObsolete(), "the lock is held exactly when no restart is asked for");
#endif
  if (!r && wd(n) == me()) { uint64_t h = qv(*self); n.writeUnlock(self); ENSURES(wd(n) == h && !n.isLocked(), "unlocking frees the node with its version"); } node = 0; vp_cover("nlock");
}
extern "C" void harness_nread() {
  Setup s; BoxN b; N &n = b.n; nset(n); contended = true; IR(wd(n) = anyw();)
#ifdef VP_NATIVE
  wd(n) = anyver();
#endif
  uint64_t w0 = wd(n); bool ob0 = n.isObsolete(); BEGIN(n.lock.lock) int m = vp_nd_u8() % 3; bool r = false; uint64_t v = vp_nd_u8() & 1 ? w0 & ~HELD : anyver();
  if (m == 0) { uint64_t x = n.readLockOrRestart(r); END ENSURES(seen(x), "the version returned is a word the node had"); ENSURES(r || (!held(x) && !n.isObsolete()), "a read lock is never granted on a locked or obsolete node"); ENSURES(!r || held(x) || n.isObsolete(), "a free live node is readable"); }
  else { if (m == 1) n.checkOrRestart(v, r); else n.readUnlockOrRestart(v, r); END ENSURES(r || (seen(v) && !ob0), "validation passes only if the word is the version read and the node is live"); ENSURES(!r || seen_other(v) || n.isObsolete(), "an unchanged live node validates"); }
  END ENSURES(tw == 0, "reading writes nothing"); 
  uint32_t pl = n.getPrefixLength(); NTypes t = n.getType(); n.setObsolete(); ENSURES(n.isObsolete() && n.getPrefixLength() == pl && n.getType() == t, "marking a node obsolete changes nothing else"); node = 0; vp_cover("nread");
}
extern "C" void harness_noverlap() {   /* a reader, a writer anywhere in between, a second writer */
  Setup s; BoxN b; N &n = b.n; nset(n); n.prefixCount.value &= ~(1u << 29); wd(n) = anyver(); node = 0; bool r = false; uint64_t v = n.readLockOrRestart(r); ENSURES(!r, "a free live node is readable");
  bool wr = vp_nd_u8() & 1, fin = vp_nd_u8() & 1, ob = vp_nd_u8() & 1, try_ = vp_nd_u8() & 1;
  if (wr) { bool wl = false; uint64_t x = v; if (try_) n.upgradeToWriteLockOrRestart(x, self, wl); else n.writeLockOrRestart(self, wl); ENSURES(!wl, "a free node can be locked"); bool w2 = false; x = v; uint64_t h = wd(n); n.upgradeToWriteLockOrRestart(x, other, w2); ENSURES(w2 && wd(n) == h, "a second writer is kept out"); if (ob) n.setObsolete(); if (fin) n.writeUnlock(self); }
  uint64_t now = wd(n); bool c = false; n.checkOrRestart(v, c); ENSURES(c == wr, "a reader fails validation exactly when a writer came in between");
  uint64_t x = v; bool u = false; n.upgradeToWriteLockOrRestart(x, other, u); ENSURES(u == wr, "a stale version cannot be upgraded"); if (wr) ENSURES(wd(n) == now, "a failed upgrade leaves the word alone");
  if (wr && fin && ob) { bool a = false, d = false; n.readLockOrRestart(a); n.writeLockOrRestart(other, d); ENSURES(a && d && !n.isLocked(), "an obsolete node is never read or kept locked again"); }
  vp_cover("noverlap");
}
