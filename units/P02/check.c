/* ped_geometry_check over a device whose bad sectors are arbitrary but fixed */
#include <config.h>
#include <parted/parted.h>
#include "env.h"
#include "spec_geom.h"
#include "vt_contracts.h"
#define N 3
static _Bool bad[N];
static PedSector base, off, cnt, glen;
static PedDevice dev0;
static char buf[1];
int ped_device_read (const PedDevice *d, void *b, PedSector s, PedSector c)
{
  vt_check (d == &dev0 && s >= base && s + c <= base + glen, "check stays in the region");
  vt_check (s >= base + off && s + c <= base + off + cnt, "check stays in the range to be checked");
  for (int i = 0; i < N; i++)
    if (i < c && bad[s - (base + off) + i]) return 0;
  return 1;
}
void ped_timer_reset (PedTimer *t) { }
void ped_timer_set_state_name (PedTimer *t, const char *n) { }
void ped_timer_update (PedTimer *t, float f) { }
void h_check (void)
{
  base = vt_range (0, 7); off = vt_range (1, 4); cnt = vt_range (0, N); glen = vt_range (1, 15);
  vt_assume (off + cnt <= glen);
  PedGeometry g = { .dev = &dev0, .start = base, .length = glen, .end = base + glen - 1 };
  for (int i = 0; i < N; i++) bad[i] = vt_bool ();
  PedSector gran = vt_range (1, N), bs = vt_range (1, N);
  vt_assume (bs % gran == 0 && off > 0);
  vt_reach ("harness");
  PedSector r = ped_geometry_check (&g, buf, bs, off, gran, cnt, NULL);
  if (r == 0) {
    vt_reach ("no bad sector");
    for (int i = 0; i < N; i++) vt_check (i >= cnt || !bad[i], "no error reported only if every sector is readable");
  } else {
    vt_reach ("bad sector");
    vt_check (r >= off && r < off + cnt && (r - off) % gran == 0, "reported position is in the range and on the granularity");
    _Bool hit = 0, before = 0;
    for (int i = 0; i < N; i++) {
      if (i < cnt && i >= r - off && i < r - off + gran) hit = hit || bad[i];
      if (i < cnt && i < r - off) before = before || bad[i];
    }
    vt_check (hit, "the reported group contains a bad sector");
    vt_check (!before, "no bad sector before the reported group");
  }
}
