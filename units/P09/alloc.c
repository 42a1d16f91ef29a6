#include "spec_gpt.h"
static int nmeta; static PedSector ms[4], me[4]; static int add_ok;
static PedPartition mp[4]; static PedConstraint *vt_con;
static PedDisk disk2; static GPTDiskData gd2;
void uuid_generate (unsigned char *u) { memset (u, 7, 16); }
PedDisk *_ped_disk_alloc (const PedDevice *d, const PedDiskType *t)
{ if (vt_bool ()) return 0; PedDisk *r = calloc (1, sizeof (PedDisk)); r->dev = (PedDevice *) d; r->type = t; return r; }
PedDisk *ped_disk_new_fresh (PedDevice *d, const PedDiskType *t)
{
  if (vt_bool ()) return 0;
  disk2.dev = d; disk2.type = t; disk2.disk_specific = &gd2;
  gd2.AlternateLBA = dev.length - 1; gd2.entry_count = 128; gd2.pmbr_boot = 0; memset (&gd2.uuid, 9, 16);
  return &disk2;
}
PedPartition *ped_partition_new (const PedDisk *d, PedPartitionType t, const PedFileSystemType *f, PedSector s, PedSector e)
{
  vt_check (d == &disk && t == PED_PARTITION_METADATA && s >= 0 && s <= e && e < dev.length, "metadata lies on the device");
  if (nmeta >= 4 || vt_bool ()) return 0;
  ms[nmeta] = s; me[nmeta] = e; mp[nmeta].geom.start = s; mp[nmeta].geom.end = e;
  return &mp[nmeta++];
}
PedConstraint *ped_constraint_exact (const PedGeometry *g) { return malloc (sizeof (PedConstraint)); }
void ped_constraint_destroy (PedConstraint *c) { free (c); }
int ped_disk_add_partition (PedDisk *d, PedPartition *p, const PedConstraint *c) { if (vt_bool ()) { add_ok = 0; return 0; } return 1; }
void ped_partition_destroy (PedPartition *p) { }
static PedSector pts (void) { return ((PedSector) gd.entry_count * 128 + dev.sector_size - 1) / dev.sector_size; }
static GPTDiskData *D (PedDisk *r) { return (GPTDiskData *) r->disk_specific; }
#define AP (16384 / SS)
#include "vt_contracts.h"
static void mkdev (void)
{
  dev.sector_size = SS;
  dev.length = vt_range (1, 1LL << 60);
  disk.dev = &dev; disk.disk_specific = &gd; nmeta = 0; add_ok = 1;
  gd.entry_count = (int) vt_range (1, 8192);
  gd.AlternateLBA = vt_range (1, 1LL << 60);
  gd.data_area.start = vt_range (0, 1LL << 60);
  gd.data_area.end = vt_range (0, 1LL << 60);
  gd.data_area.length = gd.data_area.end - gd.data_area.start + 1;
  gd.pmbr_boot = vt_bool ();
  vt_bytes (&gd.uuid, 16);
}
void h_alloc (void)
{
  mkdev ();
  PedDisk *r = vt_call (gpt_alloc) (&dev);
  if (r) vt_reach ("allocated");
  if (!r) vt_reach ("refused");
}
void h_meta (void)
{
  mkdev ();
  int r = vt_call (gpt_alloc_metadata) (&disk);
  if (r) vt_reach ("metadata");
  if (!r) vt_reach ("refused");
}
void h_dup (void)
{
  mkdev ();
  PedDisk *r = vt_call (gpt_duplicate) (&disk);
  if (r) vt_reach ("duplicated");
  if (!r) vt_reach ("refused");
}
