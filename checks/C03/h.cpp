/* Contracts of MassTree/nodeversion.hh: the per-node version word protocol. */
#include "config.h"
#include "compiler.hh"
#include "nodeversion.hh"
#include "vp.h"
#ifndef VT
#define VT 32
#endif
#if VT == 32
typedef uint32_t W; typedef nodeversion_parameters<uint32_t> PP;
static W ndw() { return vp_nd_u32(); }
#else
typedef uint64_t W; typedef nodeversion_parameters<uint64_t> PP;
static W ndw() { return vp_nd_u64(); }
#endif
typedef nodeversion<PP> NV;
static void put(NV &n, W w) { __builtin_memcpy((void *)&n, &w, sizeof w); }
static W get(const NV &n) { return n.version_value(); }
/* What the word means, read off through the public accessors (not through bit positions): */
struct Abs { bool leaf, locked, ins, spl, del, root; };
static Abs abs_(const NV &n) { return Abs{n.isleaf(), n.locked(), n.inserting(), n.splitting(), n.deleted(), n.is_root()}; }
/* word invariant: a node is only dirty while it is locked; bits that carry nothing are zero */
static bool inv(const NV &n) { return !(get(n) & ((W)PP::unused1_bit | ((W)PP::lock_bit - 1))) && (n.locked() || !(n.inserting() || n.splitting())); }
/* change counter of an unlocked word: everything that is neither a flag nor unused, as a number */
static W counter(W w) { return (w & ~(W)(PP::isleaf_bit | PP::root_bit | PP::deleted_bit | PP::unused1_bit)) / (W)PP::vinsert_lowbit; }
static const W CRANGE = (W)PP::unused1_bit / (W)PP::vinsert_lowbit;
static NV anyv() { NV n; put(n, ndw()); REQUIRES(inv(n)); return n; }

/* ---- interference on the shared word while we do not hold its lock ---- */
static NV *shared; static bool mine, spun; static int writes; static W cas_old, cas_new;
static void interfere() { W w = ndw(); put(*shared, w); REQUIRES(inv(*shared)); }
#ifdef VP_IR
extern "C" void vp_env(void *p) { if (shared && !mine) interfere(); }
extern "C" void vp_on_write(void *p, int n, uint64_t o, uint64_t v) { if (shared) { mine = true; writes++; cas_old = (W)o; cas_new = (W)v; } }
#endif
struct Spin { void operator()() { if (shared && !mine) interfere(); spun = true; } void operator()(NV) { (*this)(); } };
/* loop contract of the spin loops: every iteration starts from an arbitrary word satisfying the invariant, so
   proving two iterations proves them all */
struct Spin2 { int *k; void operator()() { REQUIRES(++*k <= 2); Spin()(); } void operator()(NV) { (*this)(); } };

extern "C" void harness_stable() {
  NV n = anyv(); shared = &n; int k = 0, k2 = 0;
  NV s = n.stable(Spin2{&k});
  ENSURES(!s.inserting() && !s.splitting(), "stable() never returns a dirty version");
  NV s2 = n.stable_annotated(Spin2{&k2});
  ENSURES(!s2.inserting() && !s2.splitting(), "stable_annotated() never returns a dirty version");
  shared = 0; ENSURES(get(n) == get(s2), "stable() returns the word it read last"); ENSURES(!n.has_changed(s2) && !n.has_split(s2), "unchanged word validates");
  vp_cover("stable");
}
extern "C" void harness_lock() {
  NV n = anyv(); NV e; put(e, ndw()); REQUIRES(inv(e)); int k = 0; writes = 0; shared = &n; mine = false;
#ifdef VP_NATIVE
  REQUIRES(!n.locked());
#endif
  NV r = n.lock(e, Spin2{&k});
  shared = 0;
#ifdef VP_IR
  NV o, w; put(o, cas_old); put(w, cas_new);
  ENSURES(writes == 1, "lock() writes the word exactly once");
  ENSURES(!o.locked(), "lock() succeeds only on an unlocked word");
  ENSURES(!o.has_changed(w) && o.isleaf() == w.isleaf() && o.is_root() == w.is_root() && o.deleted() == w.deleted() && w.locked() && !w.inserting() && !w.splitting(), "lock() only sets the lock");
  ENSURES(get(r) == cas_new, "lock() returns the word it installed");
#endif
  ENSURES(get(n) == get(r) && r.locked() && !r.inserting() && !r.splitting(), "lock() returns the locked word");
  vp_cover("lock");
}
extern "C" void harness_try_lock() {
  NV n = anyv(); writes = 0; mine = false; shared = &n; W before = get(n);
  bool ok = n.try_lock(Spin());
  shared = 0;
#ifdef VP_IR
  NV o, w; put(o, cas_old); put(w, cas_new);
  ENSURES(ok == (writes == 1), "try_lock() reports whether it wrote");
  if (ok) ENSURES(!o.locked() && w.locked() && !o.has_changed(w) && get(n) == cas_new && o.is_root() == w.is_root(), "try_lock() succeeds only on an unlocked word and only sets the lock");
#else
  NV b; put(b, before); ENSURES(ok == !b.locked(), "try_lock() succeeds iff unlocked"); ENSURES(ok ? n.locked() && !n.has_changed(b) : get(n) == before, "try_lock() effect");
#endif
  vp_cover("try_lock");
}
/* one critical section: lock; any combination of marks; unlock.  A reader's version x taken at any point before the
   first mark must fail validation from the first mark on, for ever (short of counter wrap). */
extern "C" void harness_section() {
  NV n = anyv(); REQUIRES(!n.locked());
  NV x; put(x, get(n));                                 /* reader's stable version, taken before the writer locked ... */
  Abs a0 = abs_(n);
  NV cur = n.lock();
  if (vp_nd_u8() & 1) put(x, get(n));                   /* ... or just after */
  ENSURES(!n.has_changed(x), "the lock bit alone invalidates no reader");
  int how = vp_nd_u8() % 6; bool ins = false, spl = false, del = false;
  if (how == 0) { n.mark_insert(); ins = true; }
  else if (how == 1) { NV c = n.mark_insert(cur); ENSURES(get(c) == get(n), "mark_insert(v) returns the new word"); ins = true; }
  else if (how == 2) { n.mark_split(); spl = true; }
  else if (how == 3) { n.mark_change(true); spl = true; }
  else if (how == 4) { n.mark_change(false); ins = true; }
  else { NV d = n.mark_deleted(); ENSURES(get(d) == get(n), "mark_deleted returns the new word"); spl = del = true; }
  if (vp_nd_u8() & 1) { if (vp_nd_u8() & 1) { n.mark_split(); spl = true; } else { n.mark_insert(); ins = true; } }
  ENSURES(n.locked() && n.inserting() == ins && n.splitting() == spl && n.deleted() == (a0.del || del) && n.isleaf() == a0.leaf && n.is_root() == a0.root, "marks set exactly their flags");
  ENSURES(n.has_changed(x), "a reader overlapping a marked section fails validation");
  W c0 = counter(get(x)& ~(W)PP::lock_bit);
  if (vp_nd_u8() & 1) n.unlock(); else { NV c; put(c, get(n)); n.unlock(c); }
  ENSURES(!n.locked() && !n.inserting() && !n.splitting(), "unlock() leaves a clean word");
  ENSURES(n.isleaf() == a0.leaf && n.deleted() == (a0.del || del), "unlock() keeps leaf and deleted flags");
  ENSURES(n.is_root() == (a0.root && !spl), "unlock() drops the root flag exactly after a split");
  ENSURES(n.has_changed(x), "a reader overlapping a finished section fails validation");
  if (spl) ENSURES(n.has_split(x) && n.simple_has_split(x), "a split is seen as a split");
  W c1 = counter(get(n)); W d = (c1 - c0) & (CRANGE - 1);
  ENSURES(d >= 1 && d <= (W)PP::vsplit_lowbit / (W)PP::vinsert_lowbit, "the change counter advances by at least one and at most one split step (so no wrap within range/step sections)");
  if (ins && !spl) ENSURES(d == 1, "an insert advances the change counter by one");
  ENSURES(inv(n), "the word invariant is preserved (no carry into the flags)");
  vp_cover("section");
}
extern "C" void harness_plain() {
  NV n = anyv(); REQUIRES(!n.locked()); W w = get(n);
  n.lock(); if (vp_nd_u8() & 1) n.unlock(); else n.unlock(n);
  ENSURES(get(n) == w, "a section without marks leaves the word as it was");
  NV m = anyv(); Abs a = abs_(m); W mw = get(m); m.mark_root(); ENSURES(m.is_root(), "mark_root"); ENSURES(m.locked() == a.locked && m.isleaf() == a.leaf && m.deleted() == a.del && m.inserting() == a.ins && m.splitting() == a.spl, "mark_root changes only the root flag");
  NV q; put(q, mw); if (q.locked()) { q.mark_nonroot(); ENSURES(!q.is_root() && q.locked() && q.isleaf() == a.leaf && q.deleted() == a.del && q.inserting() == a.ins && q.splitting() == a.spl, "mark_nonroot changes only the root flag"); 
    NV c0, c1; W lo = (W)PP::root_bit; put(c0, mw & ~lo); put(c1, get(q) & ~lo); ENSURES(get(c0) == get(c1), "frame of mark_nonroot"); }
  NV t; put(t, mw); if (t.locked() && t.is_root()) { t.mark_deleted_tree(); ENSURES(t.deleted() && t.is_root() && t.inserting() == a.ins && t.splitting() == a.spl, "mark_deleted_tree only sets deleted"); }
  NV l(true), i(false); ENSURES(l.isleaf() && !i.isleaf() && !l.locked() && !i.locked() && !l.is_root() && !l.deleted() && inv(l) && inv(i), "fresh version words");
  NV z; z.assign_version(m); ENSURES(get(z) == get(m), "assign_version copies"); ENSURES((m.unlocked_version_value() & (W)(PP::lock_bit | PP::inserting_bit | PP::splitting_bit)) == 0, "unlocked_version_value has no lock state");
  vp_cover("plain");
}
extern "C" void harness_pairs() {
  /* validation is exact on stable words: equal words validate, words with different counters do not */
  NV a = anyv(), b = anyv(); REQUIRES(!a.inserting() && !a.splitting() && !b.inserting() && !b.splitting());
  NV x = a, y = b; W la = get(a) & ~(W)PP::lock_bit, lb = get(b) & ~(W)PP::lock_bit; 
  if (la == lb) ENSURES(!x.has_changed(y) && !x.has_split(y), "equal versions validate"); 
  if (counter(la) != counter(lb)) ENSURES(x.has_changed(y), "different change counters never validate");
  if (a.deleted() != b.deleted()) ENSURES(x.has_changed(y) && x.has_split(y), "a deletion never validates");
  vp_cover("pairs");
}
