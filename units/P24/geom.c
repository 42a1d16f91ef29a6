#include "spec_dos.h"
/* guessing the BIOS geometry from arbitrary table entries and boot sectors; msdos_read around it */
static PedPartition pt; static DosPartitionData pd; static OrigState og; static PedCHSGeometry g0;
static int reads; static uint8_t *given;
int ped_geometry_read (const PedGeometry *g, void *b, PedSector o, PedSector c)
{
  reads++;
  vt_check (g == &pt.geom && o == 0 && c == 1 && b, "reads the first sector of the partition");
  /* the buffer holds the whole sector */
  for (int i = 0; i < SS; i += 511) ((volatile uint8_t *) b)[i] = 0;
  ((volatile uint8_t *) b)[SS - 1] = 0;
  if (vt_bool ()) return 0;
  for (int i = 0x18; i < 0x1c; i++) ((uint8_t *) b)[i] = vt_u8 ();
  given = b;
  return 1;
}
static void setup (void)
{
  memset (&dev, 0, sizeof dev); dev.sector_size = SS; dev.length = vt_range (1, 1LL << 40); disk.dev = &dev;
  pt.disk = &disk; pt.disk_specific = &pd; pd.orig = &og; reads = 0;
  vt_bytes (&og.raw_part, 16);
  og.geom.start = vt_range (0, 1LL << 33); og.geom.end = vt_range (0, 1LL << 33); 
  g0.cylinders = (int) vt_range (0, 1 << 30); g0.heads = (int) vt_range (1, 255); g0.sectors = (int) vt_range (1, 63);
}
/* a geometry that is reported explains both ends of the partition and fits the fields of the table */
void h_part (void)
{
  setup ();
  if (vt_bool ()) pd.orig = 0;
  PedCHSGeometry g = g0;
  int r = probe_partition_for_geom (&pt, &g);
  vt_check (r == 0 || r == 1, "yes or no");
  vt_check (r || (g.cylinders == g0.cylinders && g.heads == g0.heads && g.sectors == g0.sectors), "nothing is changed when there is no answer");
  vt_check (!r || (g.heads >= 1 && g.heads <= 255 && g.sectors >= 1 && g.sectors <= 63), "a geometry that the table can express");
  if (r) vt_reach ("found"); else vt_reach ("not found");
}
void h_fs (void)
{
  setup ();
  int k = (int) vt_range (0, 6);
  static PedFileSystemType fst[6] = { { .name = "ntfs" }, { .name = "fat16" }, { .name = "fat32" }, { .name = "ext2" }, { .name = "fat1" }, { .name = "" } };
  if (k < 6) pt.fs_type = k == 0 ? &fst[0] : k == 1 ? &fst[1] : k == 2 ? &fst[2] : k == 3 ? &fst[3] : k == 4 ? &fst[4] : &fst[5]; else pt.fs_type = 0;
  PedCHSGeometry g = g0;
  int r = probe_filesystem_for_geom (&pt, &g);
  vt_check (r == 0 || r == 1, "yes or no");
  vt_check (!reads || k < 3, "only Microsoft file systems tell the geometry");
  vt_check (!r || reads == 1, "an answer comes from the boot sector");
  vt_check (r || (g.cylinders == g0.cylinders && g.heads == g0.heads && g.sectors == g0.sectors), "nothing is changed when there is no answer");
  vt_check (!r || (g.heads >= 1 && g.heads <= 255 && g.sectors >= 1 && g.sectors <= 63), "a geometry that the table can express");
  if (r) vt_reach ("found"); else vt_reach ("not found");
}
/* the check agrees with what the entry says under that geometry */
void h_check (void)
{
  setup ();
  PedCHSGeometry g = g0;
  const uint8_t *e = (const uint8_t *) &og.raw_part;
  long long c = e[3] | (e[2] >> 6) << 8, h = e[1], s = (e[2] & 63) - 1, C = e[7] | (e[6] >> 6) << 8, H = e[5], S = (e[6] & 63) - 1;
  long long st = c > 1021 || s < 0 ? 0 : (c * g.heads + h) * g.sectors + s, en = C > 1021 || S < 0 ? 0 : (C * g.heads + H) * g.sectors + S;
  int r = partition_check_bios_geometry (&pt, &g);
  vt_check (!r == ((st && st != og.geom.start) || (en && en != og.geom.end)), "an address given in the entry and not saturated must name the same sector");
  if (r) vt_reach ("agrees"); else vt_reach ("disagrees");
}
/* ---- msdos_read ---- */
static int dels, tabs, oldtabs, checks, probes, ok; static int st;
int ped_disk_delete_all (PedDisk *d) { vt_check (d == &disk, "this disk"); dels++; st = 1; return 1; }
int ct_table (PedDisk *d, PedSector s, int e)
{
  vt_check (d == &disk && !s && !e, "starts with the first sector");
  vt_check (st == 1, "the old partitions are dropped first");
  vt_check (dd.ext_tables == 0, "the count of extended tables starts again");
  dd.ext_tables = (int) vt_range (0, 300);
  tabs++; st = 2;
  vt_check (tabs <= 2, "read at most twice");
  if (vt_bool ()) { ok = 0; return 0; }
  ok = 1;
  return 1;
}
/* contract: the guess depends on what is on the disk only */
static PedCHSGeometry guess; static int guessed;
int ct_check (const PedDisk *d, PedCHSGeometry *g) { vt_check (d == &disk && g == &dev.bios_geom && st == 2, "checks what has been read"); checks++; return vt_bool (); }
void ct_guess (const PedDisk *d, PedCHSGeometry *g)
{ vt_check (d == &disk && st == 2, "guesses from what has been read"); probes++; if (guessed) *g = guess; }
int vt_late_call (PedDisk *d, PedSector s, int e) { return 0; }
void h_read (void)
{
  setup (); dev.bios_geom = g0; disk.disk_specific = &dd; dd.ext_tables = (int) vt_range (0, 300);
  dels = tabs = checks = probes = ok = st = 0; guessed = vt_bool ();
  guess.cylinders = (int) vt_range (0, 1 << 30); guess.heads = (int) vt_range (1, 255); guess.sectors = (int) vt_range (1, 63);
  int r = msdos_read (&disk);
  int newg = probes && guessed && (guess.cylinders != g0.cylinders || guess.heads != g0.heads || guess.sectors != g0.sectors);
  vt_check (!r == !ok, "succeeds exactly when the last reading of the table did");
  vt_check (tabs == (newg ? 2 : 1) , "reads again exactly when the geometry turned out different");
  vt_check (dels == tabs, "drops the partitions before each reading");
  PedCHSGeometry w = newg ? guess : g0;
  vt_check (dev.bios_geom.cylinders == w.cylinders && dev.bios_geom.heads == w.heads && dev.bios_geom.sectors == w.sectors, "a guess is taken over");
  if (r && tabs == 2) vt_reach ("twice"); 
  if (r && tabs == 1 && checks) vt_reach ("once"); 
  if (!r) vt_reach ("failed");
}
