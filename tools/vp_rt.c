/* native runtime for harnesses: replays recorded inputs, or draws seeded random ones */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
static uint64_t *in; static size_t nin, pin; static uint64_t rs; static int randmode; static uint64_t h = 1469598103934665603ull;
static jmp_buf jb; static int style; static uint64_t pool[8];
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
#define LOGN 4096
static uint64_t logv[LOGN]; static size_t nlog;
static uint64_t nd(int bits) {
  uint64_t v;
  if (!randmode) v = pin < nin ? in[pin++] : 0;
  else {
    uint64_t r = rnd();
    switch ((r >> 60) % (style + 2)) {
      case 0: v = (r >> 8) & 7; break;
      case 1: v = (r >> 8) & 0xff; break;
      case 2: v = (r >> 8) & 1 ? ~0ull - ((r >> 9) & 3) : 1ull << ((r >> 9) & 63); break;
      case 3: v = pool[(r >> 8) & 7]; break;
      default: v = rnd();
    }
    if (((r >> 40) & 7) == 0) pool[(r >> 43) & 7] = v;
  }
  if (bits < 64) v &= (1ull << bits) - 1;
  if (nlog < LOGN) logv[nlog++] = v;
  h = (h ^ v) * 1099511628211ull;
  return v;
}
uint8_t vp_nd_u8(void) { return (uint8_t)nd(8); }
uint16_t vp_nd_u16(void) { return (uint16_t)nd(16); }
uint32_t vp_nd_u32(void) { return (uint32_t)nd(32); }
uint64_t vp_nd_u64(void) { return nd(64); }
static long nassume, nassert, ncover;
void vp_assume(int c) { if (!c) { nassume++; longjmp(jb, 1); } }
void vp_cover(const char *l) { (void)l; ncover++; h = (h ^ 77) * 1099511628211ull; }
int vp_replaying(void) { return !randmode; }
static const char *outp;
static void dump(const char *why) {
  if (outp && randmode) { FILE *f = fopen(outp, "w"); if (f) { for (size_t i = 0; i < nlog; i++) fprintf(f, "%llu\n", (unsigned long long)logv[i]); fclose(f); } }
  printf("REPRODUCED %s\n", why); fflush(stdout);
}
void vp_assert(int c, const char *l) { nassert++; h = (h ^ (c ? 3 : 5)) * 1099511628211ull; if (!c) { dump(l); _exit(1); } }
void __CPROVER_assert(_Bool c, const char *l) { if (strncmp(l, "COVER ", 6) == 0) { vp_cover(l); return; } vp_assert(c, l); }
void __CPROVER_assume(_Bool c) { vp_assume(c); }
static void sig(int s) { char b[64]; snprintf(b, sizeof b, s == SIGALRM ? "hang (no result within the time limit)" : "crash: signal %d", s); dump(b); _exit(1); }
void HARNESS(void);
int main(int argc, char **argv) {
  signal(SIGSEGV, sig); signal(SIGABRT, sig); signal(SIGBUS, sig); signal(SIGFPE, sig); signal(SIGILL, sig); signal(SIGALRM, sig);
  if (argc > 2 && !strcmp(argv[1], "replay")) {
    FILE *f = fopen(argv[2], "r"); unsigned long long v; size_t cap = 0;
    if (!f) return 3;
    while (fscanf(f, "%llu", &v) == 1) { if (nin == cap) in = realloc(in, (cap = cap * 2 + 64) * 8); in[nin++] = v; }
    alarm(20);
    if (setjmp(jb) == 0) HARNESS(); else { printf("ASSUME-FALSE\n"); return 77; }
    printf("HELD\n"); return 0;
  }
  if (argc > 4 && !strcmp(argv[1], "random")) {
    randmode = 1; long n = atol(argv[3]); rs = strtoull(argv[2], 0, 10) * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
    outp = argc > 5 ? argv[5] : 0; int lim = atoi(argv[4]); alarm(lim);
    signal(SIGALRM, SIG_DFL);
    struct timeval_; long done = 0;
    for (long i = 0; i < n; i++) {
      style = (int)(rnd() % 5); for (int k = 0; k < 8; k++) pool[k] = rnd(); nlog = 0;
      signal(SIGALRM, i == 0 ? SIG_DFL : SIG_DFL);
      if (setjmp(jb) == 0) { HARNESS(); done++; }
      if ((i & 1023) == 0) { h ^= 0; }
    }
    printf("RANDOM runs=%ld completed=%ld assume_false=%ld asserts=%ld covers=%ld hash=%llx\n", n, done, nassume, nassert, ncover, (unsigned long long)h);
    return 0;
  }
  return 2;
}
