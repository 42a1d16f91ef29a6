/* the limits are asked for by the public table functions */
#include "libparted/disk.c"
#include "vt.h"
#define VT_NO_ENV_EXC
#include "env.h"
static PedDevice dev; static PedDisk disk;  static PedPartition p, x, *ext;
static int asked, answer, throws, ignored; static PedSector ml, ms;
static bool s_check (const PedPartition *q) { vt_check (q == &p, "this partition"); asked++; return answer; }
static PedSector s_len (void) { return ml; }
static PedSector s_start (void) { return ms; }
static PedDiskOps ops = { .partition_check = s_check, .max_length = s_len, .max_start_sector = s_start };
static PedDiskType ty = { .ops = &ops };
PedExceptionOption ped_exception_throw (PedExceptionType t, PedExceptionOption o, const char *m, ...)
{ throws++; if (vt_bool ()) return PED_EXCEPTION_CANCEL; ignored++; return PED_EXCEPTION_IGNORE; }
PedPartition *ct_ext (const PedDisk *d) { return ext; }
int ct_check_ext (PedDisk *d, PedPartition *q) { return vt_bool (); }
int ped_geometry_test_inside (const PedGeometry *a, const PedGeometry *b) { return vt_bool (); }
void h_limits (void)
{
  disk.type = &ty; disk.dev = &dev; p.disk = &disk;
  ml = (PedSector) vt_in (); ms = (PedSector) vt_in ();
  vt_check (ped_disk_max_partition_length (&disk) == ml && ped_disk_max_partition_start_sector (&disk) == ms, "the label's own limits are reported");
  dev.length = vt_range (1, 1LL << 60); x.geom.start = 1; ext = &x;
  p.type = (PedPartitionType) vt_range (0, 15);
  vt_assume ((p.type & 3) != 3);
  if (!(p.type & PED_PARTITION_LOGICAL) && vt_bool ()) ext = 0;
  if (p.type == PED_PARTITION_EXTENDED) ext = &p;
  p.geom.start = vt_range (0, 1LL << 60); p.geom.end = vt_range (0, 1LL << 61);
  vt_assume (p.geom.start <= p.geom.end); p.geom.length = p.geom.end - p.geom.start + 1;
  asked = throws = ignored = 0; answer = vt_bool ();
  int r = _check_partition (&disk, &p);
  vt_check (!r || (p.type & PED_PARTITION_METADATA) || (asked == 1 && answer), "nothing but metadata is accepted without asking the label");
  vt_check (answer || !r || (p.type & PED_PARTITION_METADATA), "what the label refuses is refused");
  vt_check (!r || p.geom.end < dev.length || ignored, "a partition outside the device is accepted only on request");
  if (r && !(p.type & PED_PARTITION_METADATA)) vt_reach ("accepted");
  if (asked && !r) vt_reach ("refused by the label");
}
