#include <stdint.h>
#include <stddef.h>
#include <assert.h>
#include <vector>
#include <memory>
#include <algorithm>
#include <map>
#include "vp.h"
extern "C" int vp_replaying(void);
struct Latch { int sh, ex; void before(); Latch() : sh(0), ex(0) {}
  void latch_shared() { before(); ENSURES(!ex, "a latch is not taken by a thread that would wait for itself"); sh++; } void unlatch_shared() { ENSURES(sh > 0, "only a held latch is released"); sh--; }
  void latch_exclusive() { before(); ENSURES(!ex && !sh, "a latch is not taken by a thread that would wait for itself"); ex++; } void unlatch_exclusive() { ENSURES(ex == 1, "only a held latch is released"); ex--; } };
#include "b_link_tree.h"
typedef uint32_t K; typedef uint64_t V; typedef BLinkNode<K, V, Latch> Node; typedef BLinkTree<K, V, Latch> Tree;
#ifndef NS
#define NS 8
#endif
