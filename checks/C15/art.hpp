/* Contracts of the OptiQL ART inner nodes: a node is a finite map from key byte to child.
   The node classes and N.cpp are the real sources, included. */
#include <stdint.h>
#include <stddef.h>
#include <assert.h>
#include <algorithm>
#include <functional>
#include <tuple>
#include <atomic>
#include "N.cpp"
#include "vp.h"
extern "C" int vp_replaying(void);
using namespace ART_OLC_OptiQL;
/* the lock word (queue lock: bit 63 = held, else a version) and the word holding type, obsolete mark and prefix length */
static uint64_t &lockw(N &n) { return *(uint64_t *)&n.lock; }
static bool held(N &n) { return lockw(n) >> 63; }
static void setup(N &n, uint64_t w, NTypes t, uint32_t pl) { lockw(n) = w; n.prefixCount.value = (uint32_t)t << 30 | pl; }
#ifdef VP_NATIVE
#define NEEDS(c, r) if (!(c)) return r;
#else
#define NEEDS(c, r) REQUIRES(c);
#endif
#define CASES(c, i, lim) for (int c = 0; c < (lim); c++) if ((i) == c)
static N *tok() { uint64_t t = vp_nd_u64(); REQUIRES(t != 0);
  return (N *)t; }
/* storage for a node, constructed by hand so that every field is arbitrary */
template <class T> union Box { T n; uint64_t raw[1]; Box() {} ~Box() {} };
template <class T> static NTypes ty();
template <> NTypes ty<N4>() { return NTypes::N4; } template <> NTypes ty<N16>() { return NTypes::N16; }
template <> NTypes ty<N48>() { return NTypes::N48; } template <> NTypes ty<N256>() { return NTypes::N256; }
static uint8_t kb(const N4 &n, int i) { return n.keys[i]; }
static uint8_t kb(const N16 &n, int i) { return n.keys[i] ^ 128; }
static void kset(N4 &n, int i, uint8_t k) { n.keys[i] = k; }
static void kset(N16 &n, int i, uint8_t k) { n.keys[i] = k ^ 128; }
static const int cap4 = 4, cap16 = 16;
template <class T> struct Cap; template <> struct Cap<N4> { enum { v = 4 }; }; template <> struct Cap<N16> { enum { v = 16 }; }; template <> struct Cap<N48> { enum { v = 48 }; }; template <> struct Cap<N256> { enum { v = 256 }; };
/* the map a node stands for */
template <class T> static N *look(const T &n, uint8_t k) { for (int i = 0; i < Cap<T>::v; i++) if (i < (int)n.count && kb(n, i) == k) return n.children[i]; return 0; }
static N *look(const N48 &n, uint8_t k) { return n.childIndex[k] == 48 ? 0 : n.children[n.childIndex[k]]; }
static N *look(const N256 &n, uint8_t k) { return n.children[k]; }
