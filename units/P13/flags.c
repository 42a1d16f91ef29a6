#include "libparted/labels/dos.c"
#include "vt.h"
#include "env.h"
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
# pragma CPROVER check disable "conversion"
char *strstr (const char *h, const char *n)
{
  for (int i = 0; i < 20; i++) {
    int j = 0;
    while (j < 12 && n[j] && h[i + j] == n[j]) j++;
    if (!n[j]) return (char *) h + i;
    if (!h[i]) return 0;
  }
  return 0;
}
#endif
static PedDevice dev; static PedDisk disk; static DosDiskData dd;
/* the partition and three others of its table */
static PedPartition part, o1, o2, o3; static DosPartitionData pd, d1, d2, d3, pd0, e1, e2, e3; static PedPartition part0;
static int n_others, listed;
#define FS(i, n) static PedFileSystemType F##i = { .name = n };
FS (0, "fat16") FS (1, "fat32") FS (2, "ntfs") FS (3, "hpfs") FS (4, "udf") FS (5, "hfs") FS (6, "hfs+") FS (7, "sun-ufs") FS (8, "linux-swap(v1)") FS (9, "ext4") FS (10, "xfs") FS (11, "hfsx")
static const PedFileSystemType *fsp (int i)
{
  switch (i) {
    case 0: return &F0; case 1: return &F1; case 2: return &F2; case 3: return &F3; case 4: return &F4; case 5: return &F5;
    case 6: return &F6; case 7: return &F7; case 8: return &F8; case 9: return &F9; case 10: return &F10; case 11: return &F11;
  }
  return 0;
}
/* the type a file system is given by default */
static int deftype (const PedFileSystemType *f)
{
  if (f == &F0) return 0x06;
  if (f == &F1) return 0x0b;
  if (f == &F2 || f == &F3 || f == &F4) return 0x07;
  if (f == &F5 || f == &F6) return 0xaf;
  if (f == &F7) return 0xbf;
  if (f == &F8) return 0x82;
  return 0x83;
}
/* type ids of the flags that stand for one */
static int tyid (int flag)
{
  switch (flag) {
    case PED_PARTITION_BLS_BOOT: return 0xea;
    case PED_PARTITION_DIAG: return 0x12;
    case PED_PARTITION_ESP: return 0xef;
    case PED_PARTITION_IRST: return 0x84;
    case PED_PARTITION_LVM: return 0x8e;
    case PED_PARTITION_MSFT_RESERVED: return 0x27;
    case PED_PARTITION_PALO: return 0xf0;
    case PED_PARTITION_PREP: return 0x41;
    case PED_PARTITION_RAID: return 0xfd;
    case PED_PARTITION_SWAP: return 0x82;
  }
  return 0;
}
static int altid (int flag) { return flag == PED_PARTITION_DIAG ? 0xde : flag == PED_PARTITION_LVM ? 0xfe : tyid (flag); }
static int is_type_of (int flag, int id) { return tyid (flag) && (id == tyid (flag) || id == altid (flag)); }
static int fat_ntfs (int id) { return id == 1 || id == 4 || id == 6 || id == 7 || id == 0xb || id == 0xc || id == 0xe; }
static int can_hide (int id) { return fat_ntfs (id & ~0x10) || (id & ~0x10) == 5; }
static int is_ext (int id) { return id == 5 || id == 0xf || id == 0x85; }
static int hides (int id) { return (id & 0x10) && can_hide (id); }
static int lba_of (int id)
{ switch (id) { case 0x06: return 0x0e; case 0x16: return 0x1e; case 0x0b: return 0x0c; case 0x1b: return 0x1c; case 0x05: return 0x0f; } return 0; }
static int chs_of (int id)
{ switch (id) { case 0x0e: return 0x06; case 0x1e: return 0x16; case 0x0c: return 0x0b; case 0x1c: return 0x1b; case 0x0f: return 0x05; } return 0; }
static int available (int flag)
{
  int ext = part0.type == PED_PARTITION_EXTENDED;
  if (tyid (flag)) return !ext;
  if (flag == PED_PARTITION_HIDDEN) return can_hide (pd0.system) && !ext;
  if (flag == PED_PARTITION_LBA) return lba_of (pd0.system) || chs_of (pd0.system);
  return flag == PED_PARTITION_BOOT;
}
static int reads (int flag)
{
  if (tyid (flag)) return is_type_of (flag, pd.system);
  if (flag == PED_PARTITION_HIDDEN) return hides (pd.system);
  if (flag == PED_PARTITION_LBA) return !!chs_of (pd.system);
  if (flag == PED_PARTITION_BOOT) return pd.boot;
  return 0;
}
/* types a change of the file system type never replaces */
static int kept_type (int id)
{ return id == 0xf || id == 5 || id == 0x12 || id == 0x27 || id == 0x8e || id == 0x82 || id == 0xfd || id == 0xf0 || id == 0x41 || id == 0x84 || id == 0xef || id == 0xea; }
/* the type that follows when the type id of a flag is taken back */
static int back_to (void) { return part0.type & PED_PARTITION_EXTENDED ? 0xf : deftype (part0.fs_type); }
static int system_after (int flag, int state)
{
  int s = pd0.system;
  if (!available (flag)) return s;
  if (tyid (flag)) return state ? tyid (flag) : is_type_of (flag, s) ? back_to () : s;
  if (flag == PED_PARTITION_HIDDEN) return state ? s | 0x10 : s & ~0x10;
  if (flag == PED_PARTITION_LBA) return state ? (lba_of (s) ? lba_of (s) : s) : (chs_of (s) ? chs_of (s) : s);
  return s;
}
static int others_kept (int boot_too)
{ return d1.system == e1.system && d2.system == e2.system && d3.system == e3.system && d1.orig == e1.orig && d2.orig == e2.orig && d3.orig == e3.orig
    && (!boot_too || (d1.boot == e1.boot && d2.boot == e2.boot && d3.boot == e3.boot)); }
static int others_boot (void)
{ return (n_others > 0 && d1.boot) || (n_others > 1 && d2.boot) || (n_others > 2 && d3.boot); }
static int rest_kept (void)
{ return part.num == part0.num && part.type == part0.type && part.geom.start == part0.geom.start && part.geom.end == part0.geom.end
    && part.disk_specific == &pd && pd.orig == pd0.orig && part.fs_type == part0.fs_type; }
#include "vt_contracts.h"
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif
/* the walk of a table: every entry once (P08); one entry is free space */
PedPartition *ped_disk_next_partition (const PedDisk *d, const PedPartition *p)
{
  vt_check (d == &disk, "a walk of this disk");
  static PedPartition gap; gap.type = PED_PARTITION_FREESPACE; gap.disk = &disk; gap.disk_specific = 0;
  if (!p) return &gap;
  if (p == &gap) return n_others > 0 ? &o1 : &part;
  if (p == &o1) return &part;
  if (p == &part) return n_others > 1 ? &o2 : 0;
  if (p == &o2) return n_others > 2 ? &o3 : 0;
  return 0;
}
int ped_partition_is_active (const PedPartition *p)
{ return !(p->type & PED_PARTITION_FREESPACE || p->type & PED_PARTITION_METADATA); }
int ped_partition_set_system (PedPartition *p, const PedFileSystemType *f) { return msdos_partition_set_system (p, f); }
static void mkp (PedPartition *p, DosPartitionData *d)
{
  p->disk = &disk; p->disk_specific = d; p->type = (int) vt_range (0, 2); p->num = (int) vt_range (1, 64);
  p->fs_type = fsp ((int) vt_range (0, 12)); p->geom.start = vt_range (0, INT64_MAX); p->geom.end = vt_range (0, INT64_MAX);
  d->system = vt_u8 (); d->boot = vt_bool (); d->orig = 0;
}
static void mk (void)
{
  disk.dev = &dev; disk.disk_specific = &dd; n_others = (int) vt_range (0, 3);
  mkp (&part, &pd); mkp (&o1, &d1); mkp (&o2, &d2); mkp (&o3, &d3);
  /* an extended partition carries an extended type */
  vt_assume (part.type != PED_PARTITION_EXTENDED || is_ext (pd.system));
  pd0 = pd; e1 = d1; e2 = d2; e3 = d3; part0 = part;
}
void h_set_flag (void)
{
  mk ();
  int flag = (int) vt_range (0, 40), state = vt_bool ();
  int r = vt_call (msdos_partition_set_flag) (&part, flag, state);
  if (r && state) vt_reach ("set");
  if (r && !state) vt_reach ("cleared");
  if (!r) vt_reach ("unavailable");
}
void h_get_flag (void)
{
  mk ();
  int flag = (int) vt_range (0, 40);
  int r = vt_call (msdos_partition_get_flag) (&part, flag);
  if (r) vt_reach ("set"); else vt_reach ("clear");
}
void h_avail (void)
{
  mk ();
  int flag = (int) vt_range (0, 40);
  int r = vt_call (msdos_partition_is_flag_available) (&part, flag);
  if (r) vt_reach ("available"); else vt_reach ("not available");
}
/* lemma over the specification of msdos_partition_get_flag: two type flags never read as set together */
void h_exclusive (void)
{
  mk ();
  int f = (int) vt_range (0, 40), g = (int) vt_range (0, 40);
  vt_assume (f != g && tyid (f) && tyid (g));
  vt_check (!(msdos_partition_get_flag (&part, f) && msdos_partition_get_flag (&part, g)), "two type flags read as set together");
  vt_reach ("two flags");
}
void h_set_system (void)
{
  mk ();
  int r = vt_call (msdos_partition_set_system) (&part, fsp ((int) vt_range (0, 12)));
  vt_reach ("set");
}
void h_type_id (void)
{
  mk ();
  int r = vt_call (msdos_partition_set_type_id) (&part, vt_u8 ());
  vt_check (msdos_partition_get_type_id (&part) == pd.system, "type id read back");
  vt_reach ("set");
}
void h_disk_flag (void)
{
  disk.disk_specific = &dd; dd.cylinder_alignment = vt_bool ();
  int before = dd.cylinder_alignment, flag = (int) vt_range (0, 8), state = vt_bool ();
  int a = msdos_disk_is_flag_available (&disk, flag), r = msdos_disk_set_flag (&disk, flag, state);
  vt_check (!a == !(flag == PED_DISK_CYLINDER_ALIGNMENT) && !r == !a, "disk flags available");
  vt_check (!msdos_disk_get_flag (&disk, flag) == !(a && state), "disk flag reads as it was set");
  vt_check (a || dd.cylinder_alignment == before, "an unavailable disk flag changes nothing");
  vt_reach ("set");
}
