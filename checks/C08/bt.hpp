#include <stdint.h>
#include <stddef.h>
#include <assert.h>
#include <string.h>
#include <algorithm>
#include <utility>
#include <map>
#if LAYOUT == 0
#include "BTreeOLC.h"
#else
#include "BTreeOLC_child_layout.h"
#endif
#include "vp.h"
extern "C" int vp_replaying(void);
using namespace btreeolc;
typedef uint32_t K; typedef uint64_t V; typedef BTreeLeaf<K, V> Leaf; typedef BTreeInner<K> Inner; typedef BTree<K, V> Tree;
#if LAYOUT == 0
static K &key(Leaf &l, int i) { return l.keys[i]; } static V &val(Leaf &l, int i) { return l.payloads[i]; }
#else
static K &key(Leaf &l, int i) { return l.data[i].first; } static V &val(Leaf &l, int i) { return l.data[i].second; }
#endif
static const int LM = Leaf::maxEntries, IM = Inner::maxEntries;
#ifdef VP_NATIVE
#define NEEDS(c) if (!(c)) return;
static K rk(K x, int i) { return vp_replaying() ? x : (K)(i << 4 | (x & 7)); }
#else
#define NEEDS(c) REQUIRES(c);
static K rk(K x, int i) { return x; }
#endif
static void fill(Leaf &l, int n) { l.count = n; for (int i = 0; i < LM; i++) { key(l, i) = rk(vp_nd_u32(), i); val(l, i) = vp_nd_u64(); } }
static void fill(Inner &l, int n) { l.count = n; for (int i = 0; i < IM; i++) { l.keys[i] = rk(vp_nd_u32(), i); l.children[i] = (NodeBase *)vp_nd_u64(); } }
static bool part(Leaf &l, int n, K k, int i, bool here) { bool ok = true; for (int j = 0; j < LM; j++) if (j < n) { K x = key(l, j); ok &= j < i ? x < k : j == i && here ? x == k : k < x; } return ok; }
static bool part(Inner &l, int n, K k, int i, bool here) { bool ok = true; for (int j = 0; j < IM; j++) if (j < n) { K x = l.keys[j]; ok &= j < i ? x < k : j == i && here ? x == k : k < x; } return ok; }
static bool sorted(Leaf &l) { bool ok = true; for (int j = 0; j + 1 < LM; j++) if (j + 1 < l.count) ok &= key(l, j) < key(l, j + 1); return ok; }
static bool sorted(Inner &l) { bool ok = true; for (int j = 0; j + 1 < IM; j++) if (j + 1 < l.count) ok &= l.keys[j] < l.keys[j + 1]; return ok; }
static int cnt(Leaf &l, K g) { int c = 0; for (int j = 0; j < LM; j++) if (j < l.count) c += key(l, j) == g; return c; }
static V look(Leaf &l, K g) { V v = 0; for (int j = 0; j < LM; j++) if (j < l.count && key(l, j) == g) v = val(l, j); return v; }
