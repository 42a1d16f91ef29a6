/* Shared by P09-P11: the label code is the real libparted/labels/gpt.c, included so that its
   static functions can be called; everything outside it is a contract stub. */
#include "libparted/labels/gpt.c"
#include "vt.h"
#include "env.h"
#ifdef VT_NATIVE
extern int printf (const char *, ...);
#endif
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
# pragma CPROVER check disable "unsigned-overflow"
# pragma CPROVER check disable "conversion"
#endif
#ifndef SS
# define SS 512
#endif

static PedDevice dev;
static PedDisk disk;
static GPTDiskData gd;
static PedDeviceArchOps vt_noops;

static void put16 (uint8_t *p, uint16_t v) { p[0] = v; p[1] = v >> 8; }
static void put32 (uint8_t *p, uint32_t v) { put16 (p, v); put16 (p + 2, v >> 16); }
static void put64 (uint8_t *p, uint64_t v) { put32 (p, v); put32 (p + 4, v >> 32); }
static uint64_t get_le (const uint8_t *p, int n)
{ uint64_t v = 0; if (n == 8) v = (uint64_t) p[7] << 56 | (uint64_t) p[6] << 48 | (uint64_t) p[5] << 40 | (uint64_t) p[4] << 32;
  return v | (uint64_t) p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0]; }

/* arbitrary contents; only the byte at the ghost index is part of the recorded input */
static void vt_havoc (uint8_t *p, size_t n, size_t ghost)
{
#ifdef VT_CBMC
  __CPROVER_havoc_slice (p, n);
  uint8_t g = vt_u8 ();
  __CPROVER_assume (p[ghost] == g);
#else
  for (size_t i = 0; i < n; i++) p[i] = (uint8_t) (i * 7 + 1);
  p[ghost] = vt_u8 ();
#endif
}
/* what an access of N bytes at P needs */
static void access_r (const void *p, size_t n)
{
#ifdef VT_CBMC
  vt_check (__CPROVER_r_ok (p, n), "buffer holds the bytes read from it");
#else
  if (n) { volatile char c = ((const char *) p)[0]; c = ((const char *) p)[n - 1]; }
#endif
}
static void access_w (void *p, size_t n)
{
#ifdef VT_CBMC
  vt_check (__CPROVER_w_ok (p, n), "buffer has room for the bytes written to it");
#else
  if (n) { volatile char *c = p; c[0] = c[0]; c[n - 1] = c[n - 1]; }
#endif
}
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif
