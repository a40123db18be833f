/* Contracts of the optimistic lock words of ARTOLC (FL 0) and BTreeOLC (FL 1: both page layouts through BT).
   One word holds [node type,] version, lock bit, obsolete bit; its meaning is read through isLocked/isObsolete. */
#include <stdint.h>
#include <stddef.h>
#include <assert.h>
#include <algorithm>
#include <functional>
#include <tuple>
#include <atomic>
#if FL == 0
#include "N.cpp"
#include "vp.h"
using namespace ART_OLC;
namespace ART { Epoche &ThreadInfo::getEpoche() const { return epoche; } void Epoche::markNodeForDeletion(void *n, ThreadInfo &) {} }
typedef N4 L; static const uint64_t TYPE = 3ull << 62;
#else
#if FL == 1
#include "BTreeOLC.h"
#else
#include "BTreeOLC_child_layout.h"
#endif
#include "vp.h"
typedef btreeolc::OptLock L; static const uint64_t TYPE = 0;
#endif
union Box { L n; uint64_t raw[1]; Box() {} ~Box() {} };
static uint64_t &wd(L &n) { return *(uint64_t *)&n.typeVersionLockObsolete; }
static L *q_; /* any object to ask what a word means */
static bool locked(uint64_t w) { return q_->isLocked(w); }
static bool obs(uint64_t w) { return q_->isObsolete(w); }
/* every write of the word increases this (the version is in its upper part), so a word never comes back until the version wraps */
static uint64_t rank_(uint64_t w) { return w & ~TYPE; }
/* any word reachable under the protocol: never locked and obsolete at once; version below 2^58 */
static uint64_t anyw() { uint64_t w = vp_nd_u64() & (TYPE | ((1ull << 60) - 1)); return locked(w) && obs(w) ? w & ~1ull : w; }
/* ---- interference: while we do not hold the lock the word is anything other threads may have written ---- */
static L *shared; static bool mine; static int writes, ns; static uint64_t w_old, w_new, seenw[4];
static bool seen(uint64_t v) { bool r = false; for (int i = 0; i < 4; i++) if (i < ns && seenw[i] == v) r = true; return r; }
static bool seen_other(uint64_t v) { bool r = false; for (int i = 0; i < 4; i++) if (i < ns && seenw[i] != v) r = true; return r; }
static void note() { if (ns < 4) seenw[ns++] = wd(*shared); }
#ifdef VP_IR
extern "C" void vp_env(void *p) { if (shared && p == (void *)&wd(*shared) && !mine) { if (vp_nd_u8() & 1) wd(*shared) = anyw(); REQUIRES(ns < 4); note(); } }
extern "C" void vp_env_store(void *p) { vp_env(p); }
extern "C" void vp_on_write(void *p, int n, uint64_t o, uint64_t v) { if (shared && p == (void *)&wd(*shared)) { mine = true; writes++; w_old = o; w_new = v; } }
#endif
static void start(L &n) { shared = &n; mine = false; writes = 0; ns = 0; 
#ifdef VP_NATIVE
  note();
#endif
}
#ifdef VP_NATIVE
#define WROTE(b, n) (wd(n) != (b))
#define FROM(b) (b)
#define TO(n) wd(n)
#else
#define WROTE(b, n) (writes == 1)
#define FROM(b) w_old
#define TO(n) w_new
#endif
#define PROTO Box b; L &n = b.n; q_ = &n; uint64_t w0 = anyw(); wd(n) = w0;
#define SAMETYPE(a, c) (((a) & TYPE) == ((c) & TYPE))

extern "C" void harness_read() {
  PROTO bool r = false; start(n); uint64_t v = n.readLockOrRestart(r); shared = 0;
  ENSURES(writes == 0, "reading takes no lock"); ENSURES(seen(v), "the version returned is a word the node had");
  ENSURES(r || (!locked(v) && !obs(v)), "a read lock is never granted on a locked or obsolete node"); ENSURES(!r || locked(v) || obs(v), "a free node is readable"); vp_cover("read");
}
extern "C" void harness_upgrade() {
  PROTO uint64_t v = anyw(); if (vp_nd_u8() & 1) v = w0; v &= ~3ull; uint64_t v0 = v; bool r = false; start(n); n.upgradeToWriteLockOrRestart(v, r); shared = 0;
  ENSURES(writes <= 1, "upgrading writes the word at most once"); ENSURES(r == !WROTE(w0, n), "upgrading reports whether it locked");
  if (!r) { ENSURES(FROM(w0) == v0, "upgrading succeeds only from exactly the version read"); ENSURES(locked(TO(n)) && !obs(TO(n)) && SAMETYPE(TO(n), v0) && rank_(TO(n)) > rank_(v0), "upgrading sets the lock and nothing else"); ENSURES(wd(n) == TO(n), "the lock is held afterwards"); }
  else ENSURES(seen_other(v0), "an unchanged version can be upgraded"); vp_cover("upgrade");
}
extern "C" void harness_wlock() {
  PROTO bool r = false; start(n); n.writeLockOrRestart(r); shared = 0;
  ENSURES(writes <= 1, "locking writes the word at most once"); ENSURES(r == !WROTE(w0, n), "locking reports whether it locked");
  if (!r) { ENSURES(!locked(FROM(w0)) && !obs(FROM(w0)), "locking succeeds only on a free, live node"); ENSURES(locked(TO(n)) && !obs(TO(n)) && SAMETYPE(TO(n), FROM(w0)) && rank_(TO(n)) > rank_(FROM(w0)), "locking sets the lock and nothing else"); ENSURES(wd(n) == TO(n), "the lock is held afterwards"); } vp_cover("wlock");
}
extern "C" void harness_release() {
  PROTO w0 &= ~3ull; wd(n) = w0; bool r = false; uint64_t v = w0; n.upgradeToWriteLockOrRestart(v, r); ENSURES(!r, "a free node can be locked"); uint64_t lw = wd(n); ENSURES(v == lw, "the version handed back is the locked word");
  bool ob = vp_nd_u8() & 1; if (ob) n.writeUnlockObsolete(); else n.writeUnlock(); uint64_t u = wd(n);
  ENSURES(!locked(u), "unlocking releases the lock"); ENSURES(obs(u) == ob, "exactly the obsolete unlock marks the node obsolete"); ENSURES(SAMETYPE(u, w0), "unlocking keeps the node type"); ENSURES(rank_(u) > rank_(lw), "unlocking makes a version never seen before"); 
  ENSURES(rank_(u) - rank_(w0) <= 5, "one section uses up one version"); vp_cover("release");
}
extern "C" void harness_check() {
  PROTO uint64_t s = anyw(); if (vp_nd_u8() & 1) s = w0; bool r = false; start(n); if (vp_nd_u8() & 1) n.checkOrRestart(s, r); else n.readUnlockOrRestart(s, r); shared = 0;
  ENSURES(writes == 0, "validation writes nothing"); ENSURES(r || seen(s), "validation passes only if the word is the version read"); ENSURES(!r || seen_other(s), "an unchanged version validates"); vp_cover("check");
}
extern "C" void harness_overlap() {   /* a reader, a writer anywhere in between, a second writer */
  PROTO bool r = false; uint64_t v = n.readLockOrRestart(r); if (r) { bool r2 = false; n.writeLockOrRestart(r2); ENSURES(r2 && wd(n) == w0, "what cannot be read cannot be locked"); vp_cover("overlap"); return; }
  bool wr = vp_nd_u8() & 1, fin = vp_nd_u8() & 1, ob = vp_nd_u8() & 1; 
  if (wr) { bool wl = false; n.writeLockOrRestart(wl); ENSURES(!wl, "a free node can be locked"); bool w2 = false; uint64_t h = wd(n); n.writeLockOrRestart(w2); ENSURES(w2 && wd(n) == h, "a second writer is kept out"); if (fin) { if (ob) n.writeUnlockObsolete(); else n.writeUnlock(); } }
  uint64_t now = wd(n); bool c = false; n.checkOrRestart(v, c); ENSURES(c == wr, "a reader fails validation exactly when a writer came in between"); 
  uint64_t x = v; bool u = false; n.upgradeToWriteLockOrRestart(x, u); ENSURES(u == wr, "a stale version cannot be upgraded"); if (wr) ENSURES(wd(n) == now, "a failed upgrade leaves the word alone");
  if (wr && fin && ob) { bool a = false, d = false; n.readLockOrRestart(a); n.writeLockOrRestart(d); ENSURES(a && d && wd(n) == now, "an obsolete node is never read or locked again"); }
  vp_cover("overlap");
}
