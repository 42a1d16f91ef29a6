#include "spec_dos.h"
static PedPartition part, fresh, p0; static DosPartitionData pd, fpd; static OrigState os; static DosRawPartition raw, raw0;
static PedGeometry geo; static PedCHSGeometry BG; static uint8_t chs_s[3], chs_e[3]; static PedSector off, cs, ce; static int oom_new, calls, chsn, probes, dpart;
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
# pragma CPROVER check disable "conversion"
#endif
static int entry_is (const DosRawPartition *r, int boot, int type, PedSector start, PedSector len)
{ uint8_t e[16]; entry (e, boot, type, (uint32_t) start, (uint32_t) len); const uint8_t *x = (const uint8_t *) r;
  return x[0] == e[0] && x[4] == e[4] && same (x + 8, e + 8, 8) && start >= 0 && start <= 0xffffffffLL && len <= 0xffffffffLL; }
static int chs_is (const DosRawPartition *r, const void *s, const void *e)
{ return same (&r->chs_start, s, 3) && same (&r->chs_end, e, 3); }
static const void *want_s (void) { return pd.orig && os.geom.start == part.geom.start ? (void *) &os.raw_part.chs_start : chs_s; }
static const void *want_e (void) { return pd.orig && os.geom.end == part.geom.end ? (void *) &os.raw_part.chs_end : chs_e; }
static int is_ext (int t) { return t == 5 || t == 0xf || t == 0x85; }
static const uint8_t *rb (void) { return (const uint8_t *) &raw0; }
static int all_kept (void) { return same (&part, &p0, sizeof part); }
#include "vt_contracts.h"
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif
/* geometry guess: any geometry (CHS values are hints only) */
void ct_probe (const PedPartition *p, PedCHSGeometry *g) { vt_check (p == &part, "geometry of this partition"); probes++; g->heads = 16; g->sectors = 63; g->cylinders = 5; }
void ct_chs (const PedDevice *d, const PedCHSGeometry *g, PedSector s, RawCHS *c)
{
  vt_check (s == cs || s == ce, "CHS of the first or last sector");
  if (s == cs && (void *) c == (void *) &raw.chs_start) memcpy (c, chs_s, 3);
  else { vt_check (s == ce, "CHS of the last sector"); memcpy (c, chs_e, 3); }
}
PedPartition *ped_partition_new (const PedDisk *d, PedPartitionType t, const PedFileSystemType *f, PedSector s, PedSector e)
{
  calls++; vt_check (d == &disk && f == 0, "a new partition of this disk");
  if (oom_new) return 0;
  memset (&fpd, 0, sizeof fpd); fpd.system = 0x83;
  fresh.disk = &disk; fresh.type = t; fresh.geom.start = s; fresh.geom.end = e; fresh.geom.length = (PedSector) ((uint64_t) e - (uint64_t) s + 1); fresh.disk_specific = &fpd; fresh.num = -1;
  return &fresh;
}
void ped_partition_destroy (PedPartition *p) { vt_check (p == &fresh, "destroys the partition it made"); dpart++; }
static void mk (void)
{
  memset (&dev, 0, sizeof dev); memset (&fresh, 0, sizeof fresh); calls = probes = dpart = 0; oom_new = vt_bool ();
  disk.dev = &dev; part.disk = &disk; part.disk_specific = &pd; part.type = (int) vt_range (0, 2);
  pd.system = vt_u8 (); pd.boot = vt_bool (); pd.orig = vt_bool () ? &os : 0;
  vt_bytes (chs_s, 3); vt_bytes (chs_e, 3); vt_bytes (&raw, 16); vt_bytes (&os.raw_part, 16);
  /* what ptt_partition_check lets pass (P14) */
  off = vt_range (0, 0xffffffffLL);
  part.geom.start = vt_range (0, 0xffffffffLL); vt_assume (part.geom.start >= off);
  part.geom.length = vt_range (1, 0xffffffffLL); part.geom.end = part.geom.start + part.geom.length - 1;
  os.geom.start = vt_range (0, 1LL << 33); os.geom.end = vt_range (0, 1LL << 33);
  cs = part.geom.start; ce = part.geom.end;
  geo = part.geom; geo.dev = &dev; raw0 = raw; p0 = part;
}
void h_fill (void)
{
  mk ();
  int r = vt_call (fill_raw_part) (&raw, &part, off);
  vt_reach ("filled");
}
void h_fill_ext (void)
{
  mk ();
  int r = vt_call (fill_ext_raw_part_geom) (&raw, &BG, &geo, off);
  vt_reach ("filled");
}
void h_is_ext (void)
{
  mk ();
  int r = vt_call (raw_part_is_extended) (&raw);
  if (r) vt_reach ("extended"); else vt_reach ("not extended");
}
void h_parse (void)
{
  mk (); vt_oom = 1;
  vt_assume (get32 (rb () + 12) != 0);
  PedPartition *r = vt_call (raw_part_parse) (&disk, &raw, off, vt_bool () ? PED_PARTITION_LOGICAL : 0);
  if (r) vt_reach ("parsed"); else vt_reach ("no memory");
  if (r) free (fpd.orig);
}
/* what is written comes back */
void h_round (void)
{
  mk (); vt_oom = 0; oom_new = 0;
  fill_raw_part (&raw, &part, off);
  PedPartition *r = raw_part_parse (&disk, &raw, off, part.type);
  vt_check (r == &fresh && fresh.geom.start == part.geom.start && fresh.geom.end == part.geom.end, "same sectors after a write and a read");
  vt_check (fpd.system == pd.system && !fpd.boot == !pd.boot, "same type and boot flag after a write and a read");
  vt_reach ("round"); free (fpd.orig);
}
