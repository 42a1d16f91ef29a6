#define VT_NO_ENV_EXC
#include "spec_gpt.h"
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
#endif
#define N PEN
static int nfix, nexc, committed, cleared, np, destroyed, add_fails, emptied, nfail, updreq;
static GuidPartitionTableHeader_t *pri, *bak, *used; static int hdr_ok;
static uint32_t pesize, penum; static uint8_t *arr;
static uint32_t crc; static int crc_bad;
static PedPartition P[N]; static GPTPartitionData D[N]; static int added[N]; static int ne;
static PedSector alt0; static uint32_t PECRC0;
PedExceptionOption ped_exception_throw (PedExceptionType t, PedExceptionOption o, const char *m, ...)
{
  int k = (int) vt_range (0, 7);
  nexc++;
  if (k == 7 || !(o & (1 << k))) return PED_EXCEPTION_UNHANDLED;
  if ((1 << k) == PED_EXCEPTION_FIX) nfix++;
  return (PedExceptionOption) (1 << k);
}
int ct_probe (const PedDevice *d) { return vt_bool (); }
static GuidPartitionTableHeader_t *mk (void)
{
  GuidPartitionTableHeader_t *h = calloc (1, sizeof *h);
  h->Reserved2 = malloc (SS - 92);
  h->AlternateLBA = (uint64_t) vt_range (2, 1LL << 60);
  h->LastUsableLBA = (uint64_t) vt_range (3, 1LL << 60);
  h->SizeOfPartitionEntry = pesize; h->NumberOfPartitionEntries = penum; h->PartitionEntryArrayCRC32 = (uint32_t) vt_in ();
  return h;
}
int ct_headers (PedDisk const *dk, GuidPartitionTableHeader_t **p, GuidPartitionTableHeader_t **b, PedSector *n)
{
  *p = *b = 0;
  if (vt_bool ()) *p = mk ();
  if (vt_bool ()) { *b = mk (); *n = gd.AlternateLBA; }
  pri = *p; bak = *b;
  hdr_ok = vt_bool ();
  return !hdr_ok;
}
int ct_parse (PedDisk *dk, const GuidPartitionTableHeader_t *g, int *update)
{
  vt_check (dk == &disk && hdr_ok && g && (g == pri || g == bak), "only a valid header is parsed");
  vt_check (g == pri || !pri, "the primary header wins when it is valid");
  used = (GuidPartitionTableHeader_t *) g;
  PECRC0 = g->PartitionEntryArrayCRC32; alt0 = gd.AlternateLBA;
  if (vt_bool ()) return 0;
  gd.entry_count = (int) penum;
  if (vt_bool ()) { nfix++; *update = 1; }
  return 1;
}
void *ct_array (PedDisk const *dk, GuidPartitionTableHeader_t const *g, size_t *bytes)
{
  vt_check (dk == &disk && g == used, "array of the header in use");
  *bytes = (size_t) pesize * penum;
  if (vt_bool ()) return 0;
  size_t sz = *bytes;
  arr = malloc (sz);
  return arr;
}
uint32_t __efi_crc32 (const void *b, unsigned long n, uint32_t seed)
{ access_r (b, n); vt_check (b == arr && n == (size_t) pesize * penum, "checksum of the whole array"); return crc; }
static int isu[N];
static int isused (int i) { return isu[i]; }
/* contract of guid_cmp: zero exactly for equal GUIDs; entry number ne is the one compared with the unused GUID */
int ct_guid (efi_guid_t l, efi_guid_t r)
{
  vt_check (ne < N && ((uint64_t *) &r)[0] == 0 && ((uint64_t *) &r)[1] == 0, "each entry is compared with the unused GUID once");
  isu[ne] = vt_bool ();
  return isu[ne++] ? 1 : 0;
}
/* contract of _parse_part_entry (unit in P11) */
static PedPartition T[N];
PedPartition *ct_entry (PedDisk *dk, GuidPartitionEntry_t *pte)
{
  int i = ne - 1;
  vt_check (i >= 0 && i < (int) penum && isu[i] && (uint8_t *) pte == arr + (size_t) i * pesize, "used entries are parsed in order");
  if (vt_bool ()) { nfail++; return 0; }
  P[i].geom.start = (PedSector) vt_in (); P[i].geom.end = (PedSector) vt_in ();
  T[i].geom = P[i].geom; T[i].num = -1;
  return &T[i];
}
PedFileSystemType *ped_file_system_probe (PedGeometry *g) { return 0; }
static PedConstraint con; static PedGeometry *cong;
PedConstraint *ped_constraint_exact (const PedGeometry *g) { cong = (PedGeometry *) g; return vt_bool () ? &con : 0; }
void ped_constraint_destroy (PedConstraint *c) { }
int ped_disk_add_partition (PedDisk *d, PedPartition *p, const PedConstraint *c)
{
  int i = (int) (p - T);
  vt_check (d == &disk && i >= 0 && i < N && p->num == i + 1 && cong == &p->geom, "entry i becomes partition number i+1 in its place");
  if (!c || vt_bool ()) { nfail++; return 0; }
  added[i]++; np++; emptied = 0;
  return 1;
}
void ped_partition_destroy (PedPartition *p) { destroyed++; }
int ped_disk_delete_all (PedDisk *d) { emptied = 1; np = 0; for (int i = 0; i < N; i++) added[i] = 0; return 1; }
int ped_disk_commit_to_dev (PedDisk *d) { committed++; return vt_bool (); }
int ptt_clear_sectors (PedDevice *d, PedSector s, PedSector n) { vt_check (pri && bak && s == (PedSector) pri->AlternateLBA && n == 1 && nfix == 1, "only the old backup header is cleared, on request"); cleared++; return 1; }
static int all_added (void)
{ if (ne != (int) penum) return 0; for (int i = 0; i < N && i < (int) penum; i++) if (added[i] != isused (i)) return 0; return 1; }
#include "vt_contracts.h"
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif
void h_read (void)
{
  nfix = nexc = committed = cleared = np = destroyed = nfail = emptied = ne = hdr_ok = 0; pri = bak = used = 0; arr = 0;
  for (int i = 0; i < N; i++) added[i] = 0;
  dev.sector_size = SS; dev.length = vt_range (2, 1LL << 60);
  disk.dev = &dev; disk.disk_specific = &gd;
  alt0 = gd.AlternateLBA = vt_range (2, 1LL << 60);
  penum = PEN;
  pesize = PES;
  crc = (uint32_t) vt_in ();
  int r = vt_call (gpt_read) (&disk);
  if (r) vt_reach ("read");
  if (r && committed) vt_reach ("written back");
  if (!r) vt_reach ("rejected");
}
