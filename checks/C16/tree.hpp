#include <stdint.h>
#include <stddef.h>
#include <assert.h>
#include <map>
#include <vector>
#include <functional>
#include <algorithm>
#include <tuple>
#include <atomic>
#include <emmintrin.h>
#include "Tree.cpp"
#include "vp.h"
extern "C" int vp_replaying(void);
using namespace ART_OLC_OptiQL;
template <class T> union Box { T n; uint64_t raw[1]; Box() {} ~Box() {} };
#ifdef VP_NATIVE
/* native search: the real tree against a map, on keys with long shared prefixes */
static uint8_t tab[24][24]; static int KL; 
static void loadk(TID t, Key &k) { k.set((const char *)tab[t % 24], KL); }
static void drop(void *) {}
static void native_run() {
  KL = vp_nd_u8() & 1 ? 8 : 20; int alpha = 1 + (vp_nd_u8() & 1);
  for (int i = 0; i < 24; i++) { for (int j = 0; j < KL; j++) { uint8_t x = vp_nd_u8(); tab[i][j] = (x & 15) ? 0 : x >> 4 & alpha ? 130 : 5; } if (i & 1) { memcpy(tab[i], tab[i - 1], KL); tab[i][vp_nd_u8() % KL] ^= 0x41; } }
  Tree t(loadk, drop); std::map<std::vector<uint8_t>, TID> m; int n = 8 + vp_nd_u8() % 40; 
  for (int i = 0; i < n; i++) { int x = vp_nd_u8() % 24; Key k; loadk(x, k); std::vector<uint8_t> kv(tab[x], tab[x] + KL); int op = vp_nd_u8() % 8;
    TID tid = x + 24 * (1 + (vp_nd_u8() & 3)); if (op < 4) { bool r = t.insert(k, tid); ENSURES(r == !m.count(kv), "insert reports whether the key was new"); if (r) m[kv] = tid; }
    else if (op == 7) { bool r = t.update(k, tid); ENSURES(r == m.count(kv), "update reports whether the key is stored"); if (r) m[kv] = tid; }
    else if (op < 6) { auto it = m.find(kv); bool r = t.remove(k, it == m.end() ? x + 240 : it->second); ENSURES(r == (it != m.end()), "remove reports whether the key was stored"); if (it != m.end()) m.erase(it); }
    for (int j = 0; j < 24; j++) { Key q; loadk(j, q); std::vector<uint8_t> qv(tab[j], tab[j] + KL); auto it = m.find(qv); TID r = t.lookup(q); ENSURES(r == (it == m.end() ? 0 : it->second), "the tree holds exactly the keys inserted and not removed"); } }
  vp_cover("native");
}
#endif
