#include "spec_gpt.h"
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
#endif
#ifndef EC
# define EC gd.entry_count
#endif
/* The device is described at one arbitrary ghost byte (gs, go): what it holds after the call. */
static PedSector gs; static int go;
static int nomem; static int wrote; static uint8_t held;
static int nfail, synced, sync_ok, read_fail, writes_after_sync;
static uint8_t s0[SS];
static PedPartition pa, pb; static GPTPartitionData da, db; static int nparts;
static uint32_t crc_pe, crc_h[2];
static size_t ghost_pe; static int ghost_h;
static uint8_t eh[2][92], ee[2][128];

static PedSector pts (void) { return ((PedSector) EC * 128 + SS - 1) / SS; }
static int fails (void) { if (vt_bool ()) { nfail++; return 1; } return 0; }

static uint8_t exp_array (size_t j)
{
  size_t n = j / 128;
  if (nparts > 0 && pa.type == 0 && (size_t) (pa.num - 1) == n) return ee[0][j % 128];
  if (nparts > 1 && pb.type == 0 && (size_t) (pb.num - 1) == n) return ee[1][j % 128];
  return 0;
}
static uint8_t exp_mbr (int o)
{
  PedSector l = dev.length - 1;
  uint32_t sz = l > 0xffffffffLL ? 0xffffffffu : (uint32_t) l;
  uint8_t r[16] = { gd.pmbr_boot ? 0x80 : 0, 0, 2, 0, 0xee, 0xff, 0xff, 0xff, 1, 0, 0, 0 };
  put32 (r + 12, sz);
  if (o >= 446 && o < 462) return r[o - 446];
  if (o >= 462 && o < 510) return 0;
  if (o == 510) return 0x55;
  if (o == 511) return 0xaa;
  return s0[o];
}
static void exp_header (int alt, uint8_t *h)
{
  static const uint8_t sig[8] = { 'E', 'F', 'I', ' ', 'P', 'A', 'R', 'T' };
  for (int i = 0; i < 8; i++) h[i] = sig[i];
  put32 (h + 8, 0x00010000);
  put32 (h + 12, 92);
  put32 (h + 16, 0);
  put32 (h + 20, 0);
  put64 (h + 24, alt ? gd.AlternateLBA : 1);
  put64 (h + 32, alt ? 1 : gd.AlternateLBA);
  put64 (h + 40, gd.data_area.start);
  put64 (h + 48, gd.data_area.end);
  memcpy (h + 56, &gd.uuid, 16);
  put64 (h + 72, alt ? gd.AlternateLBA - pts () : 2);
  put32 (h + 80, EC);
  put32 (h + 84, 128);
  put32 (h + 88, ~crc_pe);
}
static int in_label (PedSector s)
{
  return (s >= 0 && s < 2 + pts ()) || (s >= gd.AlternateLBA - pts () && s <= gd.AlternateLBA);
}
static uint8_t expected (PedSector s, int o)
{
  if (s == 0) return exp_mbr (o);
  if (s == 1 || s == gd.AlternateLBA)
    {
      int alt = s != 1;
      if (o >= 16 && o < 20) return (uint8_t) (~crc_h[alt] >> (8 * (o - 16)));
      return o < 92 ? eh[alt][o] : 0;
    }
  return exp_array ((size_t) (s < 2 + pts () ? s - 2 : s - (gd.AlternateLBA - pts ())) * SS + o);
}
static void exp_entry (PedPartition *p, GPTPartitionData *d, uint8_t *e)
{
  memcpy (e, &d->type, 16);
  memcpy (e + 16, &d->uuid, 16);
  put64 (e + 32, p->geom.start);
  put64 (e + 40, p->geom.end);
  memcpy (e + 48, &d->attributes, 8);
  memcpy (e + 56, d->name, 72);
}

int ped_device_write (PedDevice *d, const void *buf, PedSector start, PedSector count)
{
  vt_check (d == &dev && count >= 1 && start >= 0 && start <= dev.length - count, "write lies on the device");
  access_r (buf, (size_t) count * SS);
  if (synced) writes_after_sync = 1;
  if (fails ()) return 0;
  if (gs >= start && gs < start + count)
    { wrote = 1; held = ((const uint8_t *) buf)[(gs - start) * SS + go]; }
  return 1;
}
int ped_device_read (const PedDevice *d, void *buf, PedSector start, PedSector count)
{ vt_check (d == &dev && start == 0 && count == 1, "only the first sector is read"); access_w (buf, SS);
  if (vt_bool ()) { read_fail = 1; return 0; } memcpy (buf, s0, SS); return 1; }
int ped_device_sync (PedDevice *d) { synced = 1; writes_after_sync = 0; sync_ok = vt_bool (); return sync_ok; }
int ptt_read_sector (PedDevice const *d, PedSector n, void **buf)
{
  char *b = ped_malloc (SS);
  if (!b) { read_fail = 1; return 0; }
  if (!ped_device_read (d, b, n, 1)) { free (b); return 0; }
  *buf = b;
  return 1;
}
PedPartition *ped_disk_next_partition (const PedDisk *d, const PedPartition *p)
{ if (!p) return nparts > 0 ? &pa : 0; if (p == &pa) return nparts > 1 ? &pb : 0; return 0; }

uint32_t __efi_crc32 (const void *buf, unsigned long len, uint32_t seed)
{
  const uint8_t *b = buf;
  vt_check (seed == 0xffffffffu, "checksum starts from all ones");
  access_r (buf, len);
  if (len == (unsigned long) EC * 128)
    { vt_check (b[ghost_pe] == exp_array (ghost_pe), "array checksum covers the entries as written"); return crc_pe; }
  vt_check (len == 92, "header checksum covers the header");
  int alt = get_le (b + 24, 8) != 1;
  vt_check (b[ghost_h] == eh[alt][ghost_h], "header checksum covers the header as written");
  return crc_h[alt];
}

static int contents_ok (void) { return !in_label (gs) ? !wrote : wrote && held == expected (gs, go); }
/* contract of _write_pmbr (unit _write_pmbr): the first sector holds exp_mbr afterwards */
int ct_write_pmbr (PedDevice *d, bool boot)
{
  vt_check (d == &dev && boot == !!gd.pmbr_boot, "protective MBR for this device and flag");
  if (vt_bool ()) { read_fail = 1; return 0; }
  if (synced) writes_after_sync = 1;
  if (fails ()) return 0;
  if (gs == 0) { wrote = 1; held = exp_mbr (go); }
  return 1;
}
/* contract of _partition_generate_part_entry (unit of that name): the entry's 128 bytes are
   the encoding; only the ghost byte of the array is ever looked at */
void ct_gen_entry (PedPartition *part, GuidPartitionEntry_t *pte)
{
  uint8_t *q = (uint8_t *) pte;
  vt_check (part == &pa || part == &pb, "entry of a partition of the table");
  access_w (pte, 128);
#ifdef VT_CBMC
  size_t off = __CPROVER_POINTER_OFFSET (q);
  vt_check (off % 128 == 0, "entries are 128 bytes apart");
  if (ghost_pe >= off && ghost_pe < off + 128)
    q[ghost_pe - off] = ee[part == &pb][ghost_pe - off];
#else
  memcpy (pte, ee[part == &pb], 128);
#endif
}
/* contract of pth_get_raw (unit of that name), at the ghost byte */
uint8_t *ct_get_raw (const PedDevice *d, const GuidPartitionTableHeader_t *pth)
{
  access_r (pth, 100); access_r (pth->Reserved2, SS - 92);
  uint8_t *raw = ped_malloc (SS);
  if (!raw) { nomem = 1; return 0; }
#ifdef VT_CBMC
  memcpy (raw, pth, 92);
  if (go >= 92) raw[go] = pth->Reserved2[go - 92];
#else
  memcpy (raw, pth, 92); memcpy (raw + 92, pth->Reserved2, SS - 92);
#endif
  return raw;
}
/* contract of pth_new_zeroed (unit of that name): every byte zero, seen at the ghost byte */
GuidPartitionTableHeader_t *ct_new_zeroed (const PedDevice *d)
{
  GuidPartitionTableHeader_t *h = malloc (sizeof *h);
  memset (h, 0, 92);
  h->Reserved2 = malloc (SS - 92);
#ifdef VT_CBMC
  if (go >= 92) h->Reserved2[go - 92] = 0;
#else
  memset (h->Reserved2, 0, SS - 92);
#endif
  return h;
}
#include "vt_contracts.h"

void h_write (void)
{
  nomem = wrote = nfail = synced = sync_ok = read_fail = writes_after_sync = 0;
  dev.sector_size = SS;
  dev.length = vt_range (1, 1LL << 60);
  disk.dev = &dev; disk.disk_specific = &gd;
#ifdef EC_CONST
  gd.entry_count = EC_CONST;
#else
  gd.entry_count = (int) vt_range (1, 8192);
#endif
  gd.AlternateLBA = vt_range (1, 1LL << 60);
  gd.data_area.start = vt_range (1, 1LL << 60);
  gd.data_area.end = vt_range (1, 1LL << 60);
  gd.data_area.length = gd.data_area.end - gd.data_area.start + 1;
  gd.pmbr_boot = vt_bool ();
  vt_bytes (&gd.uuid, 16);
  nparts = (int) vt_range (0, 2);
  PedPartition *pp[2] = { &pa, &pb };
  GPTPartitionData *dd[2] = { &da, &db };
  for (int i = 0; i < 2; i++)
    {
      pp[i]->disk = &disk; pp[i]->disk_specific = dd[i];
      pp[i]->type = vt_bool () ? 0 : vt_bool () ? PED_PARTITION_METADATA : PED_PARTITION_FREESPACE;
      pp[i]->num = (int) vt_range (1, 8192);
      pp[i]->geom.start = vt_range (0, 1LL << 60);
      pp[i]->geom.end = vt_range (0, 1LL << 60);
      vt_bytes (dd[i], sizeof (GPTPartitionData) - 16);
      vt_bytes (&dd[i]->attributes, 8);
      exp_entry (pp[i], dd[i], ee[i]);
    }
  crc_pe = (uint32_t) vt_in (); crc_h[0] = (uint32_t) vt_in (); crc_h[1] = (uint32_t) vt_in ();
  ghost_pe = (size_t) vt_range (0, 8192 * 128 - 1);
  vt_assume (ghost_pe < (size_t) EC * 128);
  ghost_h = (int) vt_range (0, 91);
  gs = vt_range (0, 1LL << 60);
#ifdef VT_NATIVE
  if (vt_bool ()) gs = gs % (2 + pts ());
#endif
  go = (int) vt_range (0, SS - 1);
  vt_havoc (s0, SS, go);
  if (in_label (gs) && gs != 0 && gs != 1 && gs != gd.AlternateLBA)
    {
      size_t j = (size_t) (gs < 2 + pts () ? gs - 2 : gs - (gd.AlternateLBA - pts ())) * SS + go;
      vt_assume (j >= (size_t) EC * 128 || j == ghost_pe);
    }
  exp_header (0, eh[0]); exp_header (1, eh[1]);
  int r = vt_call (gpt_write) (&disk);
  if (r) vt_reach ("written");
  if (!r) vt_reach ("failed");
}

void h_pmbr (void)
{
  nomem = wrote = nfail = synced = read_fail = writes_after_sync = 0;
  dev.sector_size = SS;
  dev.length = vt_range (1, 1LL << 60);
  gd.pmbr_boot = vt_bool ();
  gs = 0; go = (int) vt_range (0, SS - 1);
  vt_havoc (s0, SS, go);
  int r = vt_call (_write_pmbr) (&dev, gd.pmbr_boot);
  if (r) vt_reach ("written");
  if (!r) vt_reach ("failed");
}
void h_entry (void)
{
  static GuidPartitionEntry_t e[3];
  pa.disk_specific = &da;
  pa.geom.start = vt_range (0, 1LL << 60);
  pa.geom.end = vt_range (0, 1LL << 60);
  vt_bytes (&da, sizeof (GPTPartitionData) - 16);
  vt_bytes (&da.attributes, 8);
  vt_bytes (e, sizeof e);
  exp_entry (&pa, &da, ee[0]);
  go = (int) vt_range (0, 383);
  held = ((uint8_t *) e)[go];
  gs = (PedSector) (uintptr_t) e;
  vt_call (_partition_generate_part_entry) (&pa, &e[1]);
  vt_reach ("encoded");
}

void h_raw (void)
{
  dev.sector_size = SS;
  go = (int) vt_range (0, SS - 1);
  GuidPartitionTableHeader_t *h = malloc (sizeof *h);
  uint8_t *r2 = malloc (SS - 92);
  vt_bytes (h, 92);
  vt_havoc (r2, SS - 92, go >= 92 ? go - 92 : 0);
  h->Reserved2 = r2;
  held = go < 92 ? ((uint8_t *) h)[go] : r2[go - 92];
  vt_oom = 1;
  uint8_t *r = vt_call (pth_get_raw) (&dev, h);
  if (r) vt_reach ("raw");
  if (!r) vt_reach ("no memory");
}

void h_zeroed (void)
{
  dev.sector_size = SS;
  go = (int) vt_range (0, SS - 1);
  GuidPartitionTableHeader_t *h = vt_call (pth_new_zeroed) (&dev);
  vt_reach ("new");
}
