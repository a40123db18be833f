/* prelude of every translated TU: fixed-width types, allocation, and models of the few libc / x86
   operations the translated code reaches.  Used by CBMC (goto-cc) and by the native cross-check. */
#ifndef VP_PRELUDE_H
#define VP_PRELUDE_H
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64;
typedef _Bool u1;
typedef unsigned char *vptr;
#ifdef VP_CBMC
#define VP_BITS(n) typedef unsigned __CPROVER_bitvector[n] u##n; typedef signed __CPROVER_bitvector[n] s##n;
#else
#define VP_BITS(n) typedef unsigned _BitInt(n) u##n; typedef signed _BitInt(n) s##n;
void __CPROVER_assert(_Bool, const char *); void __CPROVER_assume(_Bool);
#endif
#define VP_UNREACHABLE() do { __CPROVER_assert(0, "reached unreachable code"); __CPROVER_assume(0); } while (0)
#ifndef VP_TABLE
#define VP_P2I(p) ((u64)(p))
#define VP_I2P(i) ((vptr)(u64)(i))
#define vp_register(a,b,c) ((void)0)
#else
/* explicit address table (for code that packs pointers into fewer than 64 bits):
   registered objects get harness-chosen numeric addresses; other pointers keep CBMC's encoding. */
#ifndef VP_TABLE_N
#define VP_TABLE_N 8
#endif
static vptr vp_tb[VP_TABLE_N]; static u64 vp_ta[VP_TABLE_N], vp_ts[VP_TABLE_N]; static u32 vp_tn;
static void vp_register(vptr p, u64 addr, u64 size) { vp_tb[vp_tn] = p; vp_ta[vp_tn] = addr; vp_ts[vp_tn] = size; vp_tn++; }
static u64 vp_p2i(vptr p) {
  for (u32 i = 0; i < VP_TABLE_N; i++) if (i < vp_tn && __CPROVER_same_object(p, vp_tb[i])) return vp_ta[i] + (u64)(p - vp_tb[i]);
  return (u64)p; }
static vptr vp_i2p(u64 a) {
  for (u32 i = 0; i < VP_TABLE_N; i++) if (i < vp_tn && a - vp_ta[i] < vp_ts[i]) return vp_tb[i] + (a - vp_ta[i]);
  return (vptr)a; }
#define VP_P2I(p) vp_p2i(p)
#define VP_I2P(i) vp_i2p(i)
#endif
#define VP_PLT(a,b) ((u64)(a) < (u64)(b))
/* nondeterministic inputs: every value is recorded so that a counterexample can be replayed natively */
#ifdef VP_CBMC
u8 nondet_vp_u8(void); u16 nondet_vp_u16(void); u32 nondet_vp_u32(void); u64 nondet_vp_u64(void);
u8 vp_nd_u8(void) { u8 vp_input = nondet_vp_u8(); return vp_input; }
u16 vp_nd_u16(void) { u16 vp_input = nondet_vp_u16(); return vp_input; }
u32 vp_nd_u32(void) { u32 vp_input = nondet_vp_u32(); return vp_input; }
u64 vp_nd_u64(void) { u64 vp_input = nondet_vp_u64(); return vp_input; }
u1 nondet_vp_spur(void);
static u1 vp_spurious(void) { return nondet_vp_spur(); }
void *__CPROVER_allocate(__CPROVER_size_t, _Bool);
void *malloc(__CPROVER_size_t); void free(void *);
#define vp_new_T(T) ((vptr)malloc(sizeof(T)))
static vptr vp_new(u64 n) { return (vptr)malloc(n); }
static vptr vp_alloc(u64 n) { return (vptr)malloc(n); }
static vptr vp_calloc(u64 a, u64 b) { return (vptr)__CPROVER_allocate(a * b, 1); }
#ifdef VP_NOFREE
static void vp_free(vptr p) { }
#else
static void vp_free(vptr p) { free(p); }
#endif
#else
u8 vp_nd_u8(void); u16 vp_nd_u16(void); u32 vp_nd_u32(void); u64 vp_nd_u64(void);
void *malloc(unsigned long); void *calloc(unsigned long, unsigned long); void free(void *);
static u1 vp_spurious(void) { return 0; }
#define vp_new_T(T) ((vptr)malloc(sizeof(T)))
static vptr vp_new(u64 n) { return (vptr)malloc(n); }
static vptr vp_alloc(u64 n) { return (vptr)malloc(n); }
static vptr vp_calloc(u64 a, u64 b) { return (vptr)calloc(a, b); }
static void vp_free(vptr p) { free(p); }
#endif
static int vp_memcmp(vptr a, vptr b, u64 n) { for (u64 i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static void vp_memset(vptr a, u8 c, u64 n) { for (u64 i = 0; i < n; i++) a[i] = c; }
static u64 vp_strlen(vptr a) { u64 i = 0; while (a[i]) i++; return i; }
static u32 vp_ctpop64(u64 x) { x = x - ((x >> 1) & 0x5555555555555555ul); x = (x & 0x3333333333333333ul) + ((x >> 2) & 0x3333333333333333ul);
  x = (x + (x >> 4)) & 0x0f0f0f0f0f0f0f0ful; x += x >> 8; x += x >> 16; x += x >> 32; return (u32)(x & 0x7f); }
#define vp_ctpop32(x) vp_ctpop64((u64)(x))
#define vp_ctpop16(x) vp_ctpop64((u64)(x))
#define vp_ctpop8(x) vp_ctpop64((u64)(x))
static u32 vp_cttz64(u64 x) { if (x == 0) return 64; u32 n = 0; if (!(x & 0xfffffffful)) { n += 32; x >>= 32; } if (!(x & 0xffff)) { n += 16; x >>= 16; }
  if (!(x & 0xff)) { n += 8; x >>= 8; } if (!(x & 0xf)) { n += 4; x >>= 4; } if (!(x & 3)) { n += 2; x >>= 2; } if (!(x & 1)) n++; return n; }
static u32 vp_ctlz64(u64 x) { if (x == 0) return 64; u32 n = 0; if (!(x >> 32)) { n += 32; x <<= 32; } if (!(x >> 48)) { n += 16; x <<= 16; }
  if (!(x >> 56)) { n += 8; x <<= 8; } if (!(x >> 60)) { n += 4; x <<= 4; } if (!(x >> 62)) { n += 2; x <<= 2; } if (!(x >> 63)) n++; return n; }
static u32 vp_cttz32(u32 x) { return x ? vp_cttz64(x) : 32; }
static u32 vp_cttz16(u16 x) { return x ? vp_cttz64(x) : 16; }
static u32 vp_cttz8(u8 x) { return x ? vp_cttz64(x) : 8; }
static u32 vp_ctlz32(u32 x) { return x ? vp_ctlz64(x) - 32 : 32; }
static u32 vp_ctlz16(u16 x) { return x ? vp_ctlz64(x) - 48 : 16; }
static u32 vp_ctlz8(u8 x) { return x ? vp_ctlz64(x) - 56 : 8; }
static u16 vp_bswap16(u16 x) { return (u16)((x >> 8) | (x << 8)); }
static u32 vp_bswap32(u32 x) { return (x >> 24) | ((x >> 8) & 0xff00) | ((x << 8) & 0xff0000) | (x << 24); }
static u64 vp_bswap64(u64 x) { return ((u64)vp_bswap32((u32)x) << 32) | vp_bswap32((u32)(x >> 32)); }
static u64 vp_bitreverse64(u64 x) { u64 r = 0; for (u32 i = 0; i < 64; i++) r |= ((x >> i) & 1) << (63 - i); return r; }
static u64 vp_pext64(u64 s, u64 m) { u64 r = 0; u32 k = 0; for (u32 i = 0; i < 64; i++) if ((m >> i) & 1) { r |= ((s >> i) & 1) << k; k++; } return r; }
static u64 vp_pdep64(u64 s, u64 m) { u64 r = 0; u32 k = 0; for (u32 i = 0; i < 64; i++) if ((m >> i) & 1) { r |= ((s >> k) & 1) << i; k++; } return r; }
static u32 vp_pext32(u32 s, u32 m) { return (u32)vp_pext64(s, m); }
static u32 vp_pdep32(u32 s, u32 m) { return (u32)vp_pdep64(s, m); }
static u32 vp_crc32_8(u32 c, u8 d) { c ^= d; for (u32 k = 0; k < 8; k++) c = (c >> 1) ^ (0x82f63b78u & (0u - (c & 1))); return c; }
static u32 vp_crc32_16(u32 c, u16 d) { c = vp_crc32_8(c, (u8)d); return vp_crc32_8(c, (u8)(d >> 8)); }
static u32 vp_crc32_32(u32 c, u32 d) { c = vp_crc32_16(c, (u16)d); return vp_crc32_16(c, (u16)(d >> 16)); }
static u32 vp_crc32_64(u32 c, u64 d) { c = vp_crc32_32(c, (u32)d); return vp_crc32_32(c, (u32)(d >> 32)); }
#endif
