#include "spec_dos.h"
/* The device is described at one arbitrary byte: sector gs, offset go. */
static PedSector gs; static int go; static uint8_t held, held0;
static int nfail, nread, synced, mbr_writes, code0; static uint8_t sig[4], rnd[4];
static PedPartition P1, P2, P3, P4, L5, L6, M; static int present, ext_calls, sub_calls; static uint8_t E1[16], E2[16], E3[16], E4[16], EL[16], EX[16];
static PedPartition X; static int have5, have6;
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
# pragma CPROVER check disable "conversion"
#endif
static int fails (void) { if (vt_bool ()) { nfail++; return 1; } return 0; }
static uint8_t entry_byte (int o)
{ int i = (o - 446) / 16, j = (o - 446) % 16; const uint8_t *e = i == 0 ? E1 : i == 1 ? E2 : i == 2 ? E3 : E4; return present >> i & 1 ? e[j] : 0; }
/* sector 0 after a write */
static uint8_t exp_mbr (int o)
{
  if (o < 440) return code0 ? held0 : o < (int) sizeof MBR_BOOT_CODE ? (uint8_t) MBR_BOOT_CODE[o] : 0;
  if (o < 444) return sig[0] | sig[1] | sig[2] | sig[3] ? sig[o - 440] : rnd[o - 440];
  if (o >= 446 && o < 510) return entry_byte (o);
  return o == 510 ? 0x55 : o == 511 ? 0xaa : held0;
}
/* an extended table after a write: the first logical and the link to the next */
static uint8_t exp_ext (int o, int logical, int link)
{
  if (o >= 446 && o < 462) return logical ? EL[o - 446] : 0;
  if (o >= 462 && o < 478) return link ? EX[o - 462] : 0;
  if (o >= 478 && o < 510) return 0;
  return o == 510 ? 0x55 : o == 511 ? 0xaa : held0;
}
static PedSector mysec;
static int others_kept (void) { return gs == mysec || held == held0; }
static int in_table (PedSector s) { return s == mysec; }
#include "vt_contracts.h"
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif
static uint8_t sec0[SS];
int ptt_read_sector (PedDevice const *d, PedSector s, void **b)
{
  vt_check (d == &dev && s == mysec, "reads the table's own sector");
  nread++;
  if (fails ()) return 0;
  uint8_t *p = malloc (SS);
#ifdef VT_CBMC
  __CPROVER_havoc_slice (p, SS);
#else
  memset (p, 0x5c, SS);
#endif
  if (s == gs) p[go] = held0;
  if (s == 0) { p[0] = code0; memcpy (p + 440, sig, 4); }
  *b = p;
  return 1;
}
int ped_device_write (PedDevice *d, const void *b, PedSector s, PedSector n)
{
  vt_check (d == &dev && n == 1 && s == mysec, "writes the table's own sector only");
#ifdef VT_CBMC
  vt_check (__CPROVER_r_ok (b, SS), "a whole sector of data");
#endif
  mbr_writes++;
  if (s == gs) held = ((const uint8_t *) b)[go];
  return fails () ? 0 : 1;
}
int ped_device_sync (PedDevice *d) { vt_check (d == &dev && mbr_writes, "syncs after the write"); synced++; return !fails (); }
uint32_t generate_random_uint32 (void) { return get32 (rnd); }
PedPartition *ped_disk_get_partition (const PedDisk *d, int num)
{
  vt_check (d == &disk, "partition of this disk");
  switch (num) {
    case 1: return present & 1 ? &P1 : 0;
    case 2: return present & 2 ? &P2 : 0;
    case 3: return present & 4 ? &P3 : 0;
    case 4: return present & 8 ? &P4 : 0;
    case 5: return have5 ? &L5 : 0;
  }
  return num == L5.num + 1 && have6 ? &L6 : 0;
}
PedPartition *ped_disk_extended_partition (const PedDisk *d) { return &X; }
void ct_probe (const PedPartition *p, PedCHSGeometry *g) { g->heads = 16; g->sectors = 63; g->cylinders = 5; }
int ct_fill (DosRawPartition *r, const PedPartition *p, PedSector offset)
{
  if (p == &L5) { vt_check (offset == mysec, "a logical partition is relative to its own table"); memcpy (r, EL, 16); return 1; }
  vt_check (offset == 0, "a primary partition is relative to the disk");
  vt_check (p == &P1 || p == &P2 || p == &P3 || p == &P4, "a partition of the table");
  memcpy (r, p == &P1 ? E1 : p == &P2 ? E2 : p == &P3 ? E3 : E4, 16);
  return 1;
}
int ct_fill_ext (DosRawPartition *r, const PedCHSGeometry *b, const PedGeometry *g, PedSector offset)
{
  vt_check (offset == X.geom.start, "a link is relative to the extended partition");
  vt_check (g->start == M.geom.start && g->end == L6.geom.end && g->length == L6.geom.end - M.geom.start + 1, "a link covers the next table and its partition");
  memcpy (r, EX, 16);
  return 1;
}
/* the other tables: their own sectors, not this one */
int ct_exts (const PedDisk *d) { ext_calls++; vt_check (d == &disk, "this disk"); return !fails (); }
int ct_ext (const PedDisk *d, PedSector s, const PedPartition *l)
{
  sub_calls++;
  vt_check (d == &disk && s == M.geom.start && l == &L6, "the table in front of the next logical partition");
  return !fails ();
}
static PedGeometry gnew; static int gfail;
PedGeometry *ped_geometry_new (const PedDevice *d, PedSector s, PedSector l)
{ if (fails ()) return 0; PedGeometry *g = malloc (sizeof *g); g->dev = (PedDevice *) d; g->start = s; g->length = l; g->end = s + l - 1; return g; }
void ped_geometry_destroy (PedGeometry *g) { free (g); }
static void mk (void)
{
  memset (&dev, 0, sizeof dev);
  dev.sector_size = SS; dev.length = vt_range (1, 1LL << 40); disk.dev = &dev; disk.disk_specific = &dd;
  gs = vt_range (0, 1LL << 40); go = (int) vt_range (0, SS - 1); held = held0 = vt_u8 ();
  nfail = nread = synced = mbr_writes = ext_calls = sub_calls = 0; have5 = vt_bool (); have6 = vt_bool ();
  code0 = vt_u8 (); vt_bytes (sig, 4); vt_bytes (rnd, 4);
  if (gs == 0 && go == 0) code0 = held0;
  if (gs == 0 && go >= 440 && go < 444) sig[go - 440] = held0;
  present = (int) vt_range (0, 15);
  vt_bytes (E1, 16); vt_bytes (E2, 16); vt_bytes (E3, 16); vt_bytes (E4, 16); vt_bytes (EL, 16); vt_bytes (EX, 16);
  int x = (int) vt_range (0, 4);
  P1.type = x == 1 ? PED_PARTITION_EXTENDED : 0; P2.type = x == 2 ? PED_PARTITION_EXTENDED : 0; P3.type = x == 3 ? PED_PARTITION_EXTENDED : 0; P4.type = x == 4 ? PED_PARTITION_EXTENDED : 0;
  X.geom.start = vt_range (1, 1LL << 32); X.disk = &disk;
  L5.num = (int) vt_range (5, 63); L6.num = L5.num + 1; L5.disk = L6.disk = &disk; L6.prev = &M; M.geom.start = vt_range (1, 1LL << 32); L6.geom.end = vt_range (1, 1LL << 33); vt_assume (L6.geom.end >= M.geom.start);
}
static int has_ext (void)
{ return (present & 1 && P1.type) || (present & 2 && P2.type) || (present & 4 && P3.type) || (present & 8 && P4.type); }
void h_mbr (void)
{
  mk (); mysec = 0;
  int r = vt_call (msdos_write) (&disk);
  vt_check (ext_calls == 0 || has_ext (), "extended tables are written for an extended partition only");
  vt_check (!r || ext_calls == has_ext (), "extended tables are written once");
  if (r) vt_reach ("written"); else vt_reach ("failed");
}
int (*vt_late_fp) (const PedDisk *, PedSector, const PedPartition *) = write_ext_table;
int vt_late_call (const PedDisk *, PedSector, const PedPartition *);
/* the chain of extended tables by induction: the tables behind this one are the recursive call's */
void h_ext (void)
{
  mk (); mysec = vt_range (1, 1LL << 32); vt_assume (mysec != M.geom.start);
  int r = vt_late_call (&disk, mysec, &L5);
  vt_check (!r == !!nfail, "a failure is reported");
  vt_check (!r || (mbr_writes == 1 && sub_calls == have6), "this table and those behind it are written once");
  vt_check (!r || gs != mysec || held == exp_ext (go, 1, have6), "the table holds the logical partition and the link to the next one");
  vt_check (gs == mysec || held == held0, "no other sector is written");
  vt_check (r || mbr_writes || held == held0, "without a write the sector stays as it was");
  if (r && have6) vt_reach ("linked");
  if (r && !have6) vt_reach ("last");
  if (!r) vt_reach ("failed");
}
void h_empty (void)
{
  mk (); mysec = vt_range (1, 1LL << 32);
  int r = vt_call (write_empty_table) (&disk, mysec);
  if (r) vt_reach ("written"); else vt_reach ("failed");
}
static int e_ext, e_empty;
int ct_e_ext (const PedDisk *d, PedSector s, const PedPartition *l)
{ e_ext++; vt_check (d == &disk && s == X.geom.start && l == &L5, "the chain starts with partition 5 at the start of the extended partition"); return !fails (); }
int ct_e_empty (const PedDisk *d, PedSector s)
{ e_empty++; vt_check (d == &disk && s == X.geom.start, "an empty table at the start of the extended partition"); return !fails (); }
void h_exts (void)
{
  mk (); e_ext = e_empty = 0;
  int r = vt_call (write_extended_partitions) (&disk);
  vt_check (e_ext == have5 && e_empty == !have5, "a chain when there are logical partitions, else an empty table");
  vt_reach ("done");
}
