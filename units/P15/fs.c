#include "libparted/fs/r/filesys.c"
#include "vt.h"
#include "env.h"
/* erasing file system signatures in a region */
static PedDevice dev; static PedGeometry g, ex; static int opens, cfail, fails_open; static PedSector w; static int hit; static PedSector gs, ge_;
int ped_device_open (PedDevice *d) { if (vt_bool ()) { fails_open = 1; return 0; } opens++; return 1; }
int ped_device_close (PedDevice *d) { opens--; return 1; }
int ptt_clear_sectors (PedDevice *d, PedSector s, PedSector n) { return 1; }
int ptt_geom_clear_sectors (PedGeometry *x, PedSector s, PedSector n)
{
  vt_check (x->dev == &dev && opens == 1 && !cfail, "on the open device, not after a failure");
  PedSector a = x->start + s, b = a + n - 1;
  vt_check (n >= 0 && (n == 0 || (a >= gs && b <= ge_ && b < dev.length)), "clears only sectors of the region");
  if (a <= w && w <= b) hit = 1;
  if (vt_bool ()) { cfail = 1; return 0; }
  return 1;
}
static void setup (void)
{
  dev.length = vt_range (1, 1LL << 50); g.dev = &dev; g.start = vt_range (0, 1LL << 50); g.length = vt_range (1, 1LL << 50); g.end = g.start + g.length - 1;
  vt_assume (g.end < dev.length);
  gs = g.start; ge_ = g.end; opens = cfail = fails_open = hit = 0; w = vt_range (0, 1LL << 50);
}
void h_clobber (void)
{
  setup ();
  PedGeometry k = g;
  int r = ped_file_system_clobber (&g);
  vt_check (!r == (fails_open || cfail) && opens == 0, "fails exactly when a step fails");
  vt_check (g.start == k.start && g.end == k.end && g.length == k.length, "the region stays");
  vt_check (!r || hit == (w >= gs && w <= ge_ && (g.length <= 5 || w < gs + 3 || w > ge_ - 2)), "clears exactly the first three and last two sectors");
  if (r && hit) vt_reach ("hit"); if (r && !hit) vt_reach ("kept"); if (!r) vt_reach ("failed");
}
/* what lies in the excluded region is never touched */
void h_exclude (void)
{
  setup ();
  ex.dev = &dev; ex.start = vt_range (0, 1LL << 50); ex.length = vt_range (1, 1LL << 50); ex.end = ex.start + ex.length - 1;
  vt_assume (ex.end < dev.length);
  int r = ped_file_system_clobber_exclude (&g, &ex);
  vt_check (!(hit && w >= ex.start && w <= ex.end), "never clears a sector of the excluded region");
  vt_check (!r == (fails_open || cfail) && opens == 0, "fails exactly when a step fails");
  if (r && hit && ex.start <= g.end && ex.start > g.start) vt_reach ("cut"); if (!r) vt_reach ("failed"); if (r && !hit) vt_reach ("kept");
}
