#include "libparted/labels/pt-tools.c"
#include "vt.h"
#include "env.h"
#ifndef SS
# define SS 512
#endif
static PedDevice dev; static PedGeometry ge; static PedSector from, todo, done; static int failed; static const char *cbuf;
/* ghost: the sectors written so far are from .. from+done-1 */
int ped_device_write (PedDevice *d, const void *b, PedSector s, PedSector n)
{
  vt_check (d == &dev, "this device");
  vt_check (!failed, "nothing is written after a failure");
  vt_check (n >= 1 && n <= todo - done && s == from + done, "each requested sector once, in order, and no other");
  PedSector i = vt_range (0, 16383);
  vt_assume (i < n * SS);
  char c = ((const char *) b)[i];
  c |= ((const char *) b)[n * SS - 1];
#ifndef VT_UNBOUNDED        /* (the loop-contract instrumentation forgets the initial values of static data) */
  vt_check (c == 0, "writes zeroes only");
#endif
  done += n;
  if (vt_bool ()) { failed = 1; return 0; }
  return (int) vt_range (1, 2);
}
int ped_device_read (const PedDevice *d, void *b, PedSector s, PedSector n) { vt_unreachable ("reads nothing"); return 0; }
static void setup (void)
{
  dev.sector_size = SS; from = vt_range (0, 1LL << 50); todo = vt_range (0, NMAX); done = 0; failed = 0; 
}
void h_clear (void)
{
  setup ();
  int r = ptt_clear_sectors (&dev, from, todo);
  vt_check (!r == failed, "fails exactly when a write fails");
  vt_check (!r || done == todo, "success: every sector cleared");
  if (!r) vt_reach ("failed"); else if (done > 1) vt_reach ("cleared");
}
void h_geom (void)
{
  setup ();
  ge.dev = &dev; ge.start = vt_range (0, 1LL << 49); ge.length = vt_range (1, 1LL << 49); ge.end = ge.start + ge.length - 1;
  PedSector o = vt_range (0, 1LL << 49); from = ge.start + o;
  int r = ptt_geom_clear_sectors (&ge, o, todo);
  vt_check (!r == failed, "fails exactly when a write fails");
  vt_check (!r || done == todo, "success: every sector cleared");
  if (!r) vt_reach ("failed"); else if (done > 1) vt_reach ("cleared");
}
