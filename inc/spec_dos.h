/* Shared by P12 and P24: the real libparted/labels/dos.c; everything outside it is a contract stub. */
#include "libparted/labels/dos.c"
#include "vt.h"
#include "env.h"
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
# pragma CPROVER check disable "conversion"
#endif
#ifndef SS
# define SS 512
#endif
static PedDevice dev; static PedDisk disk; static DosDiskData dd;
static void put32 (uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static uint32_t get32 (const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t) p[3] << 24; }
static int same (const void *a, const void *b, int n)
{ const uint8_t *x = a, *y = b; int r = 1; for (int i = 0; i < n; i++) if (x[i] != y[i]) r = 0; return r; }
/* a partition as an entry, but for the CHS bytes 1-3 and 5-7 */
static void entry (uint8_t *e, int boot, int type, uint32_t start, uint32_t len)
{ memset (e, 0, 16); e[0] = boot ? 0x80 : 0; e[4] = type; put32 (e + 8, start); put32 (e + 12, len); }
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif
