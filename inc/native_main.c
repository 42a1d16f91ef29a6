/* Native driver: replays a logged input sequence, or searches for a failing one. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <stdint.h>

void vt_harness (void);

static uint64_t *seq; static size_t nseq, pos;
static uint64_t log_[1 << 16]; static size_t nlog;
static int searching;
static jmp_buf discard;
static const char *savepath;
static uint64_t rs;

static uint64_t rnd (void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static uint64_t gen (void)
{
  uint64_t r = rnd ();
  switch (r % 9) {
  case 0: return rnd () % 4;
  case 1: return rnd () % 64;
  case 2: return rnd () % 1024;
  case 3: { uint64_t b = rnd () % 63; return (1ULL << b) + (int64_t) (rnd () % 3) - 1; }
  case 4: return -(int64_t) (rnd () % 64);
  case 5: if (nlog) return log_[rnd () % nlog] + (int64_t) (rnd () % 5) - 2; return rnd () % 100;
  case 6: if (nlog) return log_[nlog - 1]; return 0;
  case 7: return rnd () >> (rnd () % 64);
  default: return rnd () % 100000;
  }
}
static uint64_t put (uint64_t v) { if (nlog < sizeof log_ / sizeof *log_) log_[nlog++] = v; return v; }
static uint64_t raw (int *fresh)
{
  if (!searching) { *fresh = 0; return pos < nseq ? seq[pos++] : 0; }
  *fresh = 1; return gen ();
}
uint64_t vt_in (void) { int f; return put (raw (&f)); }
int64_t vt_range (int64_t lo, int64_t hi)
{
  int f; int64_t v = (int64_t) raw (&f);
  if (v < lo || v > hi) {
    uint64_t w = (uint64_t) hi - (uint64_t) lo + 1;
    if (f && rnd () % 3 == 0) v = (rnd () & 1) ? lo + (int64_t)(rnd () % (w < 4 && w ? w : 4)) : hi - (int64_t)(rnd () % (w < 4 && w ? w : 4));
    else v = (int64_t) ((uint64_t) lo + (w ? (uint64_t) v % w : (uint64_t) v));
    if (v < lo) v = lo; if (v > hi) v = hi;
  }
  return (int64_t) put ((uint64_t) v);
}
uint8_t vt_u8 (void) { int f; uint64_t v = raw (&f); return (uint8_t) put (v & 0xff); }
_Bool vt_bool (void) { int f; uint64_t v = raw (&f); return put (v & 1) != 0; }
void vt_assume_ (int c, const char *s) { if (!c) { if (!searching) fprintf (stderr, "discarded: %s\n", s); longjmp (discard, 1); } }
static void save (void)
{
  if (!savepath) return;
  FILE *f = fopen (savepath, "w"); if (!f) return;
  for (size_t i = 0; i < nlog; i++) fprintf (f, "%llu\n", (unsigned long long) log_[i]);
  fclose (f);
}
static void die (const char *m) { save (); printf ("FAILED: %s\n", m); fflush (stdout); _exit (3); }
void vt_check_ (int c, const char *msg) { if (!c) die (msg); }
static void on_sig (int s) { save (); char b[64]; int n = snprintf (b, sizeof b, "FAILED: signal %d\n", s); if (write (1, b, n)) {} _exit (3); }
void __asan_on_error (void) { save (); printf ("FAILED: sanitizer (address)\n"); fflush (stdout); }
void __ubsan_on_report (void) { save (); printf ("FAILED: sanitizer (undefined)\n"); fflush (stdout); }

int main (int argc, char **argv)
{
  signal (SIGABRT, on_sig); signal (SIGFPE, on_sig); signal (SIGALRM, on_sig);
  if (getenv ("VT_SEGV")) { signal (SIGSEGV, on_sig); signal (SIGBUS, on_sig); }
  savepath = getenv ("VT_SAVE");
  if (argc > 2 && !strcmp (argv[1], "replay")) {
    FILE *f = fopen (argv[2], "r"); if (!f) return 2;
    size_t cap = 1 << 16; seq = malloc (cap * 8); char ln[256];
    while (fgets (ln, sizeof ln, f)) { if (ln[0] == '#' || ln[0] == '\n') continue; if (nseq == cap) break;
      seq[nseq++] = strtoull (ln, 0, 10); }
    alarm (20);
    if (setjmp (discard)) { printf ("DISCARDED\n"); return 4; }
    vt_harness (); printf ("PASSED\n"); return 0;
  }
  searching = 1;
  double lim = argc > 2 ? atof (argv[2]) : 10; long long maxn = argc > 4 ? atoll (argv[4]) : (1LL << 60);
  rs = (argc > 3 ? strtoull (argv[3], 0, 10) : 1) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
  struct timespec a, b; clock_gettime (CLOCK_MONOTONIC, &a);
  volatile long long n = 0, ok = 0;
  for (;;) {
    if ((n & 63) == 0) { clock_gettime (CLOCK_MONOTONIC, &b); if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) * 1e-9 > lim || n >= maxn) break; }
    n++; nlog = 0;
    alarm (20);
    if (!setjmp (discard)) { vt_harness (); ok++; }
  }
  printf ("SEARCHED runs=%lld completed=%lld\n", (long long) n, (long long) ok);
  return 0;
}
