/* Contracts of MassTree/string_slice.hh and masstree_key.hh: key slices order and reassemble byte strings. */
#include "config.h"
#include "compiler.hh"
#include "str.hh"
#include "string_slice.hh"
#include "masstree_key.hh"
#include "vp.h"
using lcdf::Str;
#ifndef ST
#define ST uint64_t
#endif
typedef string_slice<ST> SL;
enum { S = (int)sizeof(ST), PAD = 16, MAXL = 3 * 8 };
typedef unsigned char uc;
#define CASES(c, i, lim) for (int c = 0; c < (lim); c++) if (c == (i))
static int anylen(int lim) { int l = vp_nd_u8(); REQUIRES(l <= lim); return l; }
static void fill(char *b, int n) { for (int i = 0; i < n; i++) b[i] = (char)vp_nd_u8(); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
/* spec: unsigned bytewise lexicographic order of byte strings */
static int lex(const char *a, int al, const char *b, int bl, int lim) {
  for (int i = 0; i < lim; i++) {
    if (i >= al || i >= bl) return i >= al ? (i >= bl ? 0 : -1) : 1;
    if ((uc)a[i] != (uc)b[i]) return (uc)a[i] < (uc)b[i] ? -1 : 1;
  }
  return 0;
}
/* spec: byte i of the zero-padded prefix, and the big-endian number it forms */
static ST be(const char *s, int len) { ST v = 0; for (int i = 0; i < S; i++) v = (ST)((v << 8) | (i < len ? (uc)s[i] : 0)); return v; }

extern "C" void harness_make() {
  int l0 = anylen(S + 4);
  CASES(l, l0, S + 5) {
    char *s = (char *)__builtin_malloc(l + 1);     /* exactly l readable bytes (one spare so that l==0 is legal) */
    fill(s, l);
    ST c = SL::make_comparable(s, l), m = SL::make(s, l);
    ENSURES(c == be(s, l), "make_comparable is the big-endian value of the zero-padded prefix");
    char t[S]; __builtin_memcpy(t, &m, S);
    for (int i = 0; i < S; i++) ENSURES(t[i] == (i < l ? s[i] : 0), "make holds the prefix bytes in memory order");
    char out[S + 4] = {0}; int n = SL::unparse_comparable(out, S + 4, c, l);
    ENSURES(n == (l < S ? l : S), "unparse_comparable(len) length");
    for (int i = 0; i < n && i < S; i++) ENSURES(out[i] == s[i], "unparse_comparable(len) inverts make_comparable");
    char out2[S + 4] = {0}; int n2 = SL::unparse_comparable(out2, S + 4, c);
    ENSURES(n2 <= n, "unparse_comparable length without trailing zeros");
    for (int i = 0; i < n && i < S; i++) ENSURES(i < n2 ? out2[i] == s[i] : s[i] == 0, "unparse_comparable drops only trailing zero bytes");
    if (n2 > 0) ENSURES(out2[n2 - 1] != 0, "unparse_comparable drops all trailing zero bytes");
    int bl = anylen(S); char out3[S + 1]; fill(out3, S + 1); char o = out3[S]; int n3 = SL::unparse_comparable(out3, bl, c, l);
    ENSURES(n3 == (n < bl ? n : bl), "unparse_comparable respects the buffer length"); ENSURES(out3[S] == o, "no write past the buffer");
  }
  vp_cover("make");
}
extern "C" void harness_sloppy() {
  char b[PAD + S + PAD]; fill(b, PAD + S + PAD); int l = anylen(S + 4);
  CASES(k, l, S + 5) {
    ENSURES(SL::make_sloppy(b + PAD, k) == SL::make(b + PAD, k), "make_sloppy equals make whatever surrounds the string");
    ENSURES(SL::make_comparable_sloppy(b + PAD, k) == be(b + PAD, k), "make_comparable_sloppy equals make_comparable");
  }
  int neg = -(int)(vp_nd_u32() >> 1);
  ENSURES(SL::make(b, neg) == 0 && SL::make_sloppy(b, neg) == 0, "a non-positive length gives 0");
  vp_cover("sloppy");
}
extern "C" void harness_order() {
  char a[S + 4], b[S + 4]; fill(a, S + 4); fill(b, S + 4); int al = anylen(S + 4), bl = anylen(S + 4);
  ST x = SL::make_comparable(a, al), y = SL::make_comparable(b, bl);
  int c = lex(a, al, b, bl, S + 4);
  ENSURES(!(x < y) || c < 0, "smaller slice => lexicographically smaller string");
  ENSURES(!(x > y) || c > 0, "larger slice => lexicographically larger string");
  vp_cover("order");
}
extern "C" void harness_equals() {
  char a[3 * PAD], b[3 * PAD]; fill(a, 3 * PAD); fill(b, 3 * PAD); int l = anylen(PAD);
  CASES(k, l, PAD + 1) {
    bool e = true; for (int i = 0; i < k; i++) e = e && a[PAD + i] == b[PAD + i];
    ENSURES(SL::equals_sloppy(a + PAD, b + PAD, k) == e, "equals_sloppy is equality of the first len bytes");
  }
  vp_cover("equals");
}
typedef Masstree::key<uint64_t> K;
struct Buf { char p[16]; char s[MAXL]; char q[16]; };
static void fillb(Buf &b) { fill(b.p, 16); fill(b.s, MAXL); fill(b.q, 16); }
static uint64_t be8(const char *s, int len) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = (v << 8) | (i < len ? (uc)s[i] : 0); return v; }
extern "C" void harness_key() {
  char b[16 + MAXL + 16]; fill(b, 16 + MAXL + 16); const char *s = b + 16;
  int l0 = anylen(MAXL);
  CASES(len, l0, MAXL + 1) {
    K k(s, len);
    ENSURES(k.ikey() == be8(s, len) && k.length() == len && k.has_suffix() == (len > 8) && k.empty() == (len == 0), "key(s,len): slice, length, suffix and emptiness");
    ENSURES(!k.is_shifted() && k.prefix_length() == 0, "a fresh key is not shifted");
    K j = k; int off = 0;
    for (int layer = 0; layer < 3; layer++) if (len - off > 8) {
      Str suf = j.suffix();
      ENSURES(suf.s == s + off + 8 && suf.len == len - off - 8 && j.suffix_length() == suf.len, "suffix is everything after the slice");
      j.shift(); off += 8;
      ENSURES(j.ikey() == be8(s + off, len - off) && j.length() == len - off, "shift() moves to the next slice");
      ENSURES(j.is_shifted() && j.prefix_length() == off && j.prefix_string().s == s && j.prefix_string().len == off, "prefix_string is what was shifted over");
      ENSURES(j.full_string().s == s && j.full_string().len == len, "full_string is unchanged by shift()");
    }
    K u = j; u.unshift_all();
    ENSURES(u.ikey() == k.ikey() && u.length() == len && !u.is_shifted() && u.full_string().s == s && u.full_string().len == len, "unshift_all undoes every shift()");
    if (off > 0) { K w = j; w.unshift();
      ENSURES(w.ikey() == be8(s + off - 8, 8) && w.length() == 9 && w.prefix_length() == off - 8, "unshift() steps back one slice"); }
    char out[MAXL + 1]; fill(out, MAXL + 1); char guard = out[MAXL];
    int n = k.unparse(out, MAXL);
    ENSURES(n == len, "unparse length");
    for (int i = 0; i < len; i++) ENSURES(out[i] == s[i], "unparse gives back the key bytes");
    ENSURES(out[MAXL] == guard, "unparse stays in the buffer");
  }
  vp_cover("key");
}
extern "C" void harness_shift_by() {
  char b[16 + MAXL + 16]; fill(b, 16 + MAXL + 16); const char *s = b + 16;
  int l0 = anylen(MAXL), d0 = anylen(8);
  CASES(len, l0, MAXL + 1) CASES(d, d0, 9) if (d <= len && len > 8) {
    K k(s, len); k.shift_by(d);
    ENSURES(k.ikey() == be8(s + d, len - d) && k.length() == len - d && k.prefix_length() == d, "shift_by(d) models the key from byte d on");
    k.unshift_all(); ENSURES(k.ikey() == be8(s, len) && k.length() == len, "unshift_all undoes shift_by");
  }
  vp_cover("shift_by");
}
extern "C" void harness_compare() {
  char a[12], b[12]; fill(a, 12); fill(b, 12); int al = anylen(12), bl = anylen(12);
  K x(a, al), y(b, bl);
  int c = x.compare(y), w = lex(a, al, b, bl, 12);
  if (al <= 8 || bl <= 8) ENSURES(sgn(c) == w, "compare is lexicographic order (at most one key longer than a slice)");
  else { int w8 = lex(a, 8, b, 8, 8); ENSURES(sgn(c) == w8, "compare of two long keys is the order of their first slices"); }
  ENSURES(sgn(x.compare(y.ikey(), bl > 8 ? 9 : bl)) == sgn(c), "only 'longer than a slice' matters beyond the slice");
  vp_cover("compare");
}
extern "C" void harness_ctor() {
  uint64_t v = vp_nd_u64(); K k(v);
  ENSURES(k.ikey() == v && k.length() >= 0 && k.length() <= 8, "key(ikey) value");
  for (int i = 0; i < 8; i++) if (i >= k.length()) ENSURES(((v >> (8 * (7 - i))) & 255) == 0, "key(ikey) length drops only zero bytes");
  if (k.length() > 0) ENSURES(((v >> (8 * (8 - k.length()))) & 255) != 0, "key(ikey) length drops all trailing zero bytes");
  char out[8]; fill(out, 8); int n = k.unparse(out, 8); ENSURES(n == k.length(), "unparse length of key(ikey)");
  for (int i = 0; i < 8; i++) if (i < n) ENSURES((uc)out[i] == ((v >> (8 * (7 - i))) & 255), "unparse of key(ikey) is big-endian");
  int len = (int)(vp_nd_u32() >> 1); K m(v, len);
  ENSURES(m.ikey() == v && m.length() == (len < 8 ? len : 8), "key(ikey,len)");
  char sb[8 + 12]; fill(sb, 20); int sl = anylen(12);
  K q(v, Str(sb + 8, sl)); ENSURES(q.ikey() == v && q.length() == 8 + sl && !q.is_shifted(), "key(ikey,suffix)");
  if (sl > 0) ENSURES(q.suffix().s == sb + 8 && q.suffix().len == sl, "key(ikey,suffix) keeps the suffix");
  vp_cover("ctor");
}
extern "C" void harness_store() {
  char b[16 + MAXL + 16]; fill(b, 16 + MAXL + 16); char *s = b + 16; char o[16 + MAXL + 16]; __builtin_memcpy(o, b, sizeof b);
  int len = 8 + anylen(8); K k(s, len); uint64_t v = vp_nd_u64();
  k.assign_store_ikey(v);
  ENSURES(k.ikey() == v && be8(s, 8) == v, "assign_store_ikey stores the slice big-endian into the key buffer");
  char sf[8]; fill(sf, 8); int sl0 = anylen(8);
  CASES(sl, sl0, 9) {
    int n = k.assign_store_suffix(Str(sf, sl)); ENSURES(n == 8 + sl, "assign_store_suffix returns the new length");
    for (int i = 0; i < MAXL; i++) if (i >= 8) ENSURES(s[i] == (i - 8 < sl ? sf[i - 8] : o[16 + i]), "assign_store_suffix writes exactly the suffix");
    k.assign_store_length(n); ENSURES(k.length() == n && k.full_string().len == n, "assign_store_length");
  }
  for (int i = 0; i < 16; i++) ENSURES(b[i] == o[i], "frame: bytes before the key");
  k.shift_clear(); ENSURES(k.ikey() == 0 && k.length() == 0 && k.prefix_length() == 8, "shift_clear starts an empty next slice");
  K r(s, len); r.shift_clear_reverse(); ENSURES(r.ikey() == ~0ul && r.length() == 9 && r.prefix_length() == 8, "shift_clear_reverse starts the greatest next slice");
  vp_cover("store");
}
extern "C" void harness_increment() {
  /* increment gives the next position in (slice, length) order: nothing fits strictly between */
  char a[12]; fill(a, 12); int al = anylen(12); K x(a, al), y = x;
  bool wrapped = y.increment();
  char c[12]; fill(c, 12); int cl = anylen(12); K z(c, cl);
  if (!wrapped) { ENSURES(x.compare(y.ikey(), y.length()) < 0, "increment moves forward");
    ENSURES(!(x.compare(z) < 0 && z.compare(y.ikey(), y.length()) < 0), "increment skips no key"); }
  else ENSURES(!(x.compare(z) < 0), "increment wraps only from the last slice");
  vp_cover("increment");
}
