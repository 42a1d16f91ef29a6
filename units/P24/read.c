#include "spec_dos.h"
static uint8_t T[66];               /* bytes 446..511 of the table sector */
static PedSector sec; static int isext, nread, nfail, throws, ignored, nev, nexp, order_ok, dels, open_parts, read_ok;
static PedPartition pool[4]; static DosPartitionData pd[4]; static PedPartition X; static PedConstraint cpool[4]; static int npool, tables0;
enum { ADD = 1, SUB = 2 };
static struct { int k, type, num, i; PedSector s; } ev[8];
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
# pragma CPROVER check disable "conversion"
#endif
static int fails (void) { if (vt_bool ()) { nfail++; return 1; } return 0; }
static int ety (int i) { return T[16 * i + 4]; }
static uint32_t est (int i) { return get32 (T + 16 * i + 8); }
static uint32_t eln (int i) { return get32 (T + 16 * i + 12); }
static int is_ext (int t) { return t == 5 || t == 0xf || t == 0x85; }
static void expect (int k, int type, int num, int i, PedSector s)
{ ev[nexp].k = k; ev[nexp].type = type; ev[nexp].num = num; ev[nexp].i = i; ev[nexp].s = s; nexp++; }
static int magic (void) { return T[64] | T[65] << 8; }
/* an entry that points back at the table itself is reported and never followed */
static int self (int i) { return (isext ? sec : 0) + (PedSector) est (i) == sec; }
static int wanted (int i) { return ety (i) && eln (i) && !(isext && is_ext (ety (i))); }
static int n_self (void) { int n = 0; for (int i = 0; i < 4; i++) if (wanted (i) && self (i)) n++; return n; }
/* what a valid table describes, in order */
static void spec (void)
{
  nexp = 0;
  for (int i = 0; i < 4; i++)
    if (wanted (i) && !self (i)) {
      PedSector s = (isext ? sec : 0) + (PedSector) est (i);
      expect (ADD, isext ? PED_PARTITION_LOGICAL : is_ext (ety (i)) ? PED_PARTITION_EXTENDED : PED_PARTITION_NORMAL, i + 1, i, s);
      if (!isext && is_ext (ety (i))) expect (SUB, 0, 0, i, s);
    }
  if (isext)
    for (int i = 0; i < 4; i++)
      if (is_ext (ety (i)) && X.geom.start + (PedSector) est (i) != sec) expect (SUB, 0, 0, i, X.geom.start + (PedSector) est (i));
}
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif
int ptt_read_sector (PedDevice const *d, PedSector s, void **b)
{
  vt_check (d == &dev && s == sec && !nread, "reads the table's own sector once");
  nread++;
  if (fails ()) return 0;
  uint8_t *p = malloc (SS);
#ifdef VT_CBMC
  __CPROVER_havoc_slice (p, SS);
#endif
  memcpy (p + 446, T, 66);
  *b = p; read_ok = 1;
  return 1;
}
PedExceptionOption ped_exception_throw (PedExceptionType t, PedExceptionOption o, const char *m, ...)
{
  throws++; vt_check (o == PED_EXCEPTION_IGNORE_CANCEL, "may be ignored or cancelled");
  int a = (int) vt_range (0, 2);
  if (a == 0) { ignored++; return PED_EXCEPTION_IGNORE; }
  nfail++;
  return a == 1 ? PED_EXCEPTION_CANCEL : PED_EXCEPTION_UNHANDLED;
}
PedPartition *ct_parse (const PedDisk *d, const DosRawPartition *r, PedSector off, PedPartitionType type)
{
  vt_check (d == &disk && !nfail, "nothing is read after a failure");
  if (fails ()) return 0;
  vt_check (nev < nexp && ev[nev].k == ADD, "only the entries of the table are added, in order");
  int i = ev[nev].i;
  vt_check (same (r, T + 16 * i, 16) && off == (isext ? sec : 0) && (int) type == ev[nev].type, "an entry is read with its own type and offset");
  PedPartition *p = npool == 0 ? &pool[0] : npool == 1 ? &pool[1] : npool == 2 ? &pool[2] : &pool[3];
  p->disk_specific = npool == 0 ? &pd[0] : npool == 1 ? &pd[1] : npool == 2 ? &pd[2] : &pd[3];
  npool++;
  p->disk = &disk; p->type = type; p->num = -1; p->geom.start = ev[nev].s; p->geom.end = ev[nev].s + (PedSector) eln (i) - 1;
  p->geom.length = eln (i); p->geom.dev = &dev;
  return p;
}
PedFileSystemType *ped_file_system_probe (PedGeometry *g) { return 0; }
PedConstraint *ped_constraint_exact (const PedGeometry *g)
{ static PedGeometry a, b; PedConstraint *c = &cpool[0]; c->start_range = (PedGeometry *) g; return c; }
void ped_constraint_destroy (PedConstraint *c) { }
int ped_disk_add_partition (PedDisk *d, PedPartition *p, const PedConstraint *c)
{
  vt_check (d == &disk && nev < nexp && ev[nev].k == ADD && p->geom.start == ev[nev].s && p->type == ev[nev].type, "adds the partition just read");
  vt_check (c && c->start_range == &p->geom, "exactly where the table puts it");
  vt_check (isext ? p->num == -1 : p->num == ev[nev].num, "a primary partition bears the number of its entry");
  nev++;
  return !fails ();
}
PedPartition *ped_disk_extended_partition (const PedDisk *d) { return &X; }
int ped_disk_delete_all (PedDisk *d) { vt_check (d == &disk, "this disk"); dels++; return 1; }
/* the tables behind this one: by induction over the number of extended tables that may still be read */
int ct_sub (PedDisk *d, PedSector s, int ext)
{
  vt_check (d == &disk && ext && !nfail && nev < nexp && ev[nev].k == SUB && s == ev[nev].s, "follows the links of the table in order");
  vt_check (s != sec || !isext, "never follows a link to the table itself");
  nev++;
  return !fails ();
}
int (*vt_late_fp) (PedDisk *, PedSector, int) = read_table;
int vt_late_call (PedDisk *, PedSector, int);
void h_table (void)
{
  memset (&dev, 0, sizeof dev); dev.sector_size = SS; disk.dev = &dev; disk.disk_specific = &dd;
  nread = nfail = throws = ignored = nev = dels = npool = read_ok = 0;
  vt_bytes (T, 66);
  isext = ISEXT; sec = isext ? vt_range (1, 1LL << 33) : 0;
  X.type = PED_PARTITION_EXTENDED; X.geom.start = vt_range (1, 0xffffffffLL);
  tables0 = dd.ext_tables = (int) vt_range (0, 300);
  spec ();
  int r = vt_late_call (&disk, sec, isext);
  vt_check (!r == !!nfail, "fails exactly when reading, a partition or an answer fails");
  vt_check (r || dels == 1, "a failure removes every partition");
  vt_check (!r || !dels, "a success keeps the partitions");
  int limit = isext && !nread;
  vt_check (!limit || throws == 1, "giving up is reported");
  vt_check (!read_ok || !r || throws == ((!(isext && magic () == 0xf6f6) && magic () != 0xaa55) ? 1 : magic () == 0xaa55 ? n_self () : 0), "one question for a bad signature and one for each entry that points back at its table");
  vt_check (!r || limit || nev == (magic () == 0xaa55 ? nexp : 0), "every entry of a valid table is added and every link followed");
  vt_check (!isext ? dd.ext_tables == tables0 : dd.ext_tables == tables0 + 1, "every extended table read is counted");
  vt_check (!isext || tables0 < 100000 && (nread || limit), "reads or gives up");
  vt_check (!isext || tables0 < 256 || limit, "after 256 extended tables none is read");
  vt_check (!isext || tables0 >= 64 || !limit, "a chain of 64 tables is read");
  if (r && nev == nexp && nexp == (ISEXT ? 4 : 8)) vt_reach ("full table");
  if (r && magic () != 0xaa55) vt_reach ("ignored");
  if (!r) vt_reach ("failed");
#if ISEXT
  if (limit) vt_reach ("gives up");
#endif
}
