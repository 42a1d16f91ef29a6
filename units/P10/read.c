#include "spec_gpt.h"
#include <parted/exception.h>
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
#endif
static GuidPartitionTableHeader_t H, H0;   /* the header under inspection and its original */
static uint8_t rsv[SS - 92];
static GuidPartitionTableHeader_t *hdr;
static int nreads, nfail, noomem; static PedSector rs[8], rc[8];
static void *abuf;
static uint32_t crc_pe, crc_h; static int ghost_h;

#define HSIZE H0.HeaderSize
#define HCRC H0.HeaderCRC32
#define MYLBA H0.MyLBA
#define ALT ((PedSector) H0.AlternateLBA)
#define FIRST ((PedSector) H0.FirstUsableLBA)
#define LAST ((PedSector) H0.LastUsableLBA)
#define PELBA ((PedSector) H0.PartitionEntryLBA)
#define PENUM H0.NumberOfPartitionEntries
#define PESIZE H0.SizeOfPartitionEntry
#define PECRC H0.PartitionEntryArrayCRC32
static size_t pe_bytes (void) { return (size_t) PESIZE * PENUM; }
static uint8_t raw (int i) { return i < 92 ? ((uint8_t *) &H0)[i] : rsv[i - 92]; }

/* allocations beyond 2^40 bytes fail, smaller ones succeed */
void *ped_malloc (size_t n)
{ if (n > (1ULL << 40)) { noomem = 1; return 0; }
#ifdef VT_NATIVE
  if (n > (1ULL << 26)) { noomem = 1; return 0; }
#endif
  return malloc (n ? n : 1); }

int ped_device_read (const PedDevice *d, void *buf, PedSector start, PedSector count)
{
  vt_check (d == &dev && count >= 0, "read on the probed device");
  access_w (buf, (size_t) count * SS);
  if (nreads < 8) { rs[nreads] = start; rc[nreads] = count; }
  nreads++; abuf = buf;
  if (vt_bool ()) { nfail++; return 0; }
#ifdef VT_NATIVE
  memset (buf, 1, (size_t) count * SS);
#endif
  return 1;
}
static int array_read (void)
{ for (int i = 0; i < nreads && i < 8; i++) if (rs[i] == PELBA && (uint64_t) rc[i] * SS >= pe_bytes () && (uint64_t) rc[i] * SS - pe_bytes () < SS) return 1; return 0; }

uint32_t __efi_crc32 (const void *buf, unsigned long len, uint32_t seed)
{
  vt_check (seed == 0xffffffffu, "checksum starts from all ones");
  access_r (buf, len);
  if (buf == abuf)
    { vt_check (len == pe_bytes (), "array checksum covers exactly the entry array"); return crc_pe; }
  vt_check (len == HSIZE, "header checksum covers HeaderSize bytes");
  vt_check (ghost_h >= HSIZE || ((const uint8_t *) buf)[ghost_h] == (ghost_h >= 16 && ghost_h < 20 ? 0 : raw (ghost_h)),
            "header checksum covers the header bytes with the checksum field zero");
  return crc_h;
}
static int consistent (PedSector my_lba)
{
  return H0.Signature == 0x5452415020494645ULL && HSIZE >= 92 && HSIZE <= SS && PESIZE % 8 == 0 && PESIZE >= 128 && PESIZE <= (UINT32_MAX >> 4)
    && MYLBA == (uint64_t) my_lba && (my_lba == 1 || ALT == 1) && ALT != my_lba
    && (crc_pe ^ 0xffffffffu) == PECRC && FIRST >= 3 && LAST >= FIRST && (crc_h ^ 0xffffffffu) == HCRC;
}
static int header_kept (void)
{ return ghost_h < 92 ? ((uint8_t *) hdr)[ghost_h] == raw (ghost_h) : hdr->Reserved2[ghost_h - 92] == raw (ghost_h); }
static int ncleared; static PedSector cleared; static int nfix;
int ptt_clear_sectors (PedDevice *d, PedSector start, PedSector count)
{ vt_check (d == &dev && count == 1, "one sector is cleared"); ncleared++; cleared = start; return vt_bool (); }
#ifdef VT_OWN_EXC
/* the answer is the fixed choice, or an option that was offered */
static int exc_type[4], nexc;
PedExceptionOption ped_exception_throw (PedExceptionType t, PedExceptionOption o, const char *m, ...)
{
  static const PedExceptionOption all[] = { PED_EXCEPTION_FIX, PED_EXCEPTION_YES, PED_EXCEPTION_NO, PED_EXCEPTION_OK, PED_EXCEPTION_RETRY, PED_EXCEPTION_IGNORE, PED_EXCEPTION_CANCEL };
  int k = (int) vt_range (0, 7);
  nexc++;
  if (k == 7 || !(o & all[k])) return PED_EXCEPTION_UNHANDLED;
  if (all[k] == PED_EXCEPTION_FIX) nfix++;
  return all[k];
}
void ped_exception_catch (void) { }
void ped_exception_fetch_all (void) { }
void ped_exception_leave_all (void) { }
#endif
static int64_t ent_sectors (void)
{ size_t b = pe_bytes (); if (b < 16384) b = 16384; return ped_div_round_up (b, SS); }
#ifdef VT_CBMC
# define FR (H0.FirstUsableLBA)
#endif
static int upd; static PedSector old_alt;
/* contract of _header_is_valid (unit of that name): an arbitrary verdict about the header it is shown;
   what it is shown and where is recorded */
static int nv; static PedSector v_lba[4]; static uint8_t v_byte[4]; static int v_ok[4]; static GuidPartitionTableHeader_t *v_h[4];
static PedSector v_read[4];
int ct_valid (PedDisk const *dk, GuidPartitionTableHeader_t *g, PedSector lba)
{
  vt_check (dk == &disk && nv < 4, "header of this disk");
  access_r (g, 100); access_r (g->Reserved2, SS - 92);
  v_lba[nv] = lba; v_h[nv] = g; v_read[nv] = nreads ? rs[(nreads - 1) & 7] : -1;
  v_ok[nv] = vt_bool () && g->AlternateLBA != (uint64_t) lba && (lba == 1 || g->AlternateLBA == 1) && g->SizeOfPartitionEntry >= 128;
  return v_ok[nv++];
}
int ptt_read_sector (PedDevice const *d, PedSector n, void **buf)
{
  void *b = ped_malloc (SS);
  if (!b) return 0;
  if (!ped_device_read (d, b, n, 1)) { free (b); return 0; }
#ifdef VT_NATIVE
  if (vt_bool ()) put64 ((uint8_t *) b + 32, 1 + vt_u8 ());
#endif
  *buf = b;
  return 1;
}
static GuidPartitionTableHeader_t *pri, *bak; static PedSector bak_lba;
#include "vt_contracts.h"
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif

static void mkdev (void)
{
  nreads = nfail = noomem = ncleared = nfix = upd = nv = 0; abuf = 0;
  dev.sector_size = SS;
  dev.length = vt_range (1, 1LL << 60);
  disk.dev = &dev; disk.disk_specific = &gd;
}
static void mkraw (void)
{
  ghost_h = (int) vt_range (0, SS - 1);
  H.Signature = vt_in (); H.Revision = (uint32_t) vt_in (); H.HeaderSize = (uint32_t) vt_in (); H.HeaderCRC32 = (uint32_t) vt_in ();
  H.Reserved1 = (uint32_t) vt_in (); H.MyLBA = vt_in (); H.AlternateLBA = vt_in (); H.FirstUsableLBA = vt_in (); H.LastUsableLBA = vt_in ();
  vt_bytes (&H.DiskGUID, 16);
  H.PartitionEntryLBA = vt_in (); H.NumberOfPartitionEntries = (uint32_t) vt_in (); H.SizeOfPartitionEntry = (uint32_t) vt_in ();
  H.PartitionEntryArrayCRC32 = (uint32_t) vt_in ();
  crc_pe = (uint32_t) vt_in (); crc_h = (uint32_t) vt_in ();
#ifdef VT_NATIVE
  if (vt_bool ()) H.Signature = 0x5452415020494645ULL;
  if (vt_bool ()) H.HeaderSize = 92;
  if (vt_bool ()) H.SizeOfPartitionEntry = 128 << (H.SizeOfPartitionEntry % 22);
  if (vt_bool ()) H.NumberOfPartitionEntries %= 300;
  if (vt_bool ()) H.MyLBA = 1;
  if (vt_bool ()) { H.FirstUsableLBA %= 100; H.LastUsableLBA = H.FirstUsableLBA + H.LastUsableLBA % 100; }
  if (vt_bool ()) { H.HeaderCRC32 = ~crc_h; H.PartitionEntryArrayCRC32 = ~crc_pe; }
#endif
  vt_havoc (rsv, sizeof rsv, ghost_h < 92 ? 0 : ghost_h - 92);
  H.Reserved2 = rsv;
  H0 = H;
  hdr = &H;
}
void h_valid (void)
{
  mkdev (); mkraw ();
  PedSector lba = vt_bool () ? 1 : vt_range (1, 1LL << 60);
  int r = vt_call (_header_is_valid) (&disk, hdr, lba);
  if (r) vt_reach ("accepted");
  if (!r) vt_reach ("rejected");
}

void h_parse (void)
{
  mkdev (); mkraw ();
  gd.AlternateLBA = old_alt = vt_range (2, 1LL << 60);
  gd.entry_count = 128;
  int r = vt_call (_parse_header) (&disk, &H, &upd);
  if (r) vt_reach ("accepted");
  if (r && nfix) vt_reach ("grown");
  if (!r) vt_reach ("rejected");
}
void h_headers (void)
{
  mkdev ();
  gd.pmbr_boot = 0;
  int r = vt_call (gpt_read_headers) (&disk, &pri, &bak, &bak_lba);
  if (r) vt_reach ("unreadable");
  if (!r && pri && bak) vt_reach ("both");
  if (!r && !pri && bak) vt_reach ("backup only");
}
void h_max (void)
{
  mkdev ();
  int n = -1;
  bool r = vt_call (gpt_get_max_supported_partition_count) (&disk, &n);
  if (r) vt_reach ("known");
  if (!r) vt_reach ("unknown");
}
void h_probe (void)
{
  mkdev ();
  int r = vt_call (gpt_probe) (&dev);
  if (r) vt_reach ("gpt");
  if (!r) vt_reach ("not gpt");
}
