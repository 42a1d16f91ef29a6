#include "spec_gpt.h"
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
#endif
/* on-disk byte order of the published partition type GUIDs */
#define G(a, b, c, d0, d1, e0, e1, e2, e3, e4, e5) { (a) & 255, (a) >> 8 & 255, (a) >> 16 & 255, (a) >> 24 & 255, (b) & 255, (b) >> 8, (c) & 255, (c) >> 8, d0, d1, e0, e1, e2, e3, e4, e5 }
static const uint8_t G_ESP[16] = G (0xC12A7328u, 0xF81F, 0x11D2, 0xBA, 0x4B, 0x00, 0xA0, 0xC9, 0x3E, 0xC9, 0x3B);
static const uint8_t G_BOOT[16] = G (0xC12A7328u, 0xF81F, 0x11D2, 0xBA, 0x4B, 0x00, 0xA0, 0xC9, 0x3E, 0xC9, 0x3B);
static const uint8_t G_BIOS_GRUB[16] = G (0x21686148u, 0x6449, 0x6E6F, 0x74, 0x4E, 0x65, 0x65, 0x64, 0x45, 0x46, 0x49);
static const uint8_t G_MSFT_RESERVED[16] = G (0xE3C9E316u, 0x0B5C, 0x4DB8, 0x81, 0x7D, 0xF9, 0x2D, 0xF0, 0x02, 0x15, 0xAE);
static const uint8_t G_DIAG[16] = G (0xDE94BBA4u, 0x06D1, 0x4D40, 0xA1, 0x6A, 0xBF, 0xD5, 0x01, 0x79, 0xD6, 0xAC);
static const uint8_t G_MSFT_DATA[16] = G (0xEBD0A0A2u, 0xB9E5, 0x4433, 0x87, 0xC0, 0x68, 0xB6, 0xB7, 0x26, 0x99, 0xC7);
static const uint8_t G_RAID[16] = G (0xA19D880Fu, 0x05FC, 0x4D3B, 0xA0, 0x06, 0x74, 0x3F, 0x0F, 0x84, 0x91, 0x1E);
static const uint8_t G_SWAP[16] = G (0x0657FD6Du, 0xA4AB, 0x43C4, 0x84, 0xE5, 0x09, 0x33, 0xC8, 0x4B, 0x4F, 0x4F);
static const uint8_t G_LVM[16] = G (0xE6D6D379u, 0xF507, 0x44C2, 0xA2, 0x3C, 0x23, 0x8F, 0x2A, 0x3D, 0xF9, 0x28);
static const uint8_t G_HPSERVICE[16] = G (0xE2A1E728u, 0x32E3, 0x11D6, 0xA6, 0x82, 0x7B, 0x03, 0xA0, 0x00, 0x00, 0x00);
static const uint8_t G_APPLE_TV_RECOVERY[16] = G (0x5265636Fu, 0x7665, 0x11AA, 0xAA, 0x11, 0x00, 0x30, 0x65, 0x43, 0xEC, 0xAC);
static const uint8_t G_PREP[16] = G (0x9E1A2D38u, 0xC612, 0x4316, 0xAA, 0x26, 0x8B, 0x49, 0x52, 0x1E, 0x5A, 0x8B);
static const uint8_t G_IRST[16] = G (0xD3BFE2DEu, 0x3DAF, 0x11DF, 0xBA, 0x40, 0xE3, 0xA5, 0x56, 0xD8, 0x95, 0x93);
static const uint8_t G_CHROMEOS_KERNEL[16] = G (0xFE3A2A5Du, 0x4F32, 0x41A7, 0xB7, 0x25, 0xAC, 0xCC, 0x32, 0x85, 0xA3, 0x09);
static const uint8_t G_BLS_BOOT[16] = G (0xBC13C2FFu, 0x59E6, 0x4262, 0xA3, 0x52, 0xB2, 0x75, 0xFD, 0x6F, 0x71, 0x72);
static const uint8_t G_LINUX_HOME[16] = G (0x933AC7E1u, 0x2EB4, 0x4F13, 0xB8, 0x44, 0x0E, 0x14, 0xE2, 0xAE, 0xF9, 0x15);
static int tyflag (int i)
{
  switch (i) {
    case 0: return PED_PARTITION_ESP;
    case 1: return PED_PARTITION_BOOT;
    case 2: return PED_PARTITION_BIOS_GRUB;
    case 3: return PED_PARTITION_MSFT_RESERVED;
    case 4: return PED_PARTITION_DIAG;
    case 5: return PED_PARTITION_MSFT_DATA;
    case 6: return PED_PARTITION_RAID;
    case 7: return PED_PARTITION_SWAP;
    case 8: return PED_PARTITION_LVM;
    case 9: return PED_PARTITION_HPSERVICE;
    case 10: return PED_PARTITION_APPLE_TV_RECOVERY;
    case 11: return PED_PARTITION_PREP;
    case 12: return PED_PARTITION_IRST;
    case 13: return PED_PARTITION_CHROMEOS_KERNEL;
    case 14: return PED_PARTITION_BLS_BOOT;
    case 15: return PED_PARTITION_LINUX_HOME;
  }
  return -1;
}
static const uint8_t *tyguid (int i)
{
  switch (i) {
    case 0: return G_ESP;
    case 1: return G_BOOT;
    case 2: return G_BIOS_GRUB;
    case 3: return G_MSFT_RESERVED;
    case 4: return G_DIAG;
    case 5: return G_MSFT_DATA;
    case 6: return G_RAID;
    case 7: return G_SWAP;
    case 8: return G_LVM;
    case 9: return G_HPSERVICE;
    case 10: return G_APPLE_TV_RECOVERY;
    case 11: return G_PREP;
    case 12: return G_IRST;
    case 13: return G_CHROMEOS_KERNEL;
    case 14: return G_BLS_BOOT;
    case 15: return G_LINUX_HOME;
  }
  return G_ESP;
}
#define NTY 16
#ifdef VT_CBMC
char *strstr (const char *h, const char *n)
{
  for (int i = 0; i < 20; i++) {
    int j = 0;
    while (j < 12 && n[j] && h[i + j] == n[j]) j++;
    if (!n[j]) return (char *) h + i;
    if (!h[i]) return 0;
  }
  return 0;
}
#endif
static const uint8_t T_LINUX[16] = G (0x0FC63DAFu, 0x8483, 0x4772, 0x8E, 0x79, 0x3D, 0x69, 0xD8, 0x47, 0x7D, 0xE4);
static const uint8_t T_HFS[16] = G (0x48465300u, 0x0000, 0x11AA, 0xAA, 0x11, 0x00, 0x30, 0x65, 0x43, 0xEC, 0xAC);

static PedPartition part, part0; static GPTPartitionData pd, pd0;
static PedFileSystemType F0 = { .name = "fat16" };
static PedFileSystemType F1 = { .name = "fat32" };
static PedFileSystemType F2 = { .name = "ntfs" };
static PedFileSystemType F3 = { .name = "udf" };
static PedFileSystemType F4 = { .name = "hfs" };
static PedFileSystemType F5 = { .name = "hfs+" };
static PedFileSystemType F6 = { .name = "hfsx" };
static PedFileSystemType F7 = { .name = "linux-swap(v1)" };
static PedFileSystemType F8 = { .name = "linux-swap(old)" };
static PedFileSystemType F9 = { .name = "ext4" };
static PedFileSystemType F10 = { .name = "xfs" };
static PedFileSystemType F11 = { .name = "swsusp" };
static const PedFileSystemType *fsp (int i)
{
  switch (i) {
    case 0: return &F0;
    case 1: return &F1;
    case 2: return &F2;
    case 3: return &F3;
    case 4: return &F4;
    case 5: return &F5;
    case 6: return &F6;
    case 7: return &F7;
    case 8: return &F8;
    case 9: return &F9;
    case 10: return &F10;
    case 11: return &F11;
  }
  return 0;
}
/* default type of each of these */
static const uint8_t *deftype (const PedFileSystemType *f)
{
  if (!f) return T_LINUX;
  if (f == &F0 || f == &F1 || f == &F2 || f == &F3) return G_MSFT_DATA;
  if (f == &F4 || f == &F5 || f == &F6) return T_HFS;
  if (f == &F7 || f == &F8) return G_SWAP;
  return T_LINUX;
}
static int tyidx (int flag) { for (int i = 0; i < NTY; i++) if (tyflag (i) == flag) return i; return -1; }
static int attrbit (int flag)
{ return flag == PED_PARTITION_HIDDEN ? 0 : flag == PED_PARTITION_LEGACY_BOOT ? 2 : flag == PED_PARTITION_NO_AUTOMOUNT ? 63 : -1; }
static int same16 (const void *a, const void *b)
{ const uint8_t *x = a, *y = b; int r = 1; for (int i = 0; i < 16; i++) if (x[i] != y[i]) r = 0; return r; }
static uint64_t attr (const GPTPartitionData *d) { return get_le ((const uint8_t *) &d->attributes, 8); }
static int is_type (const uint8_t *g) { return same16 (&pd.type, g); }
static int was_type (const uint8_t *g) { return same16 (&pd0.type, g); }
/* everything but the type and the attributes is as before */
static int rest_kept (void)
{
  for (int i = 0; i < 37; i++) if (pd.name[i] != pd0.name[i]) return 0;
  return same16 (&pd.uuid, &pd0.uuid) && pd.translated_name == pd0.translated_name && part.geom.start == part0.geom.start
    && part.geom.end == part0.geom.end && part.num == part0.num && part.type == part0.type && part.disk_specific == &pd;
}
static int type_kept (void) { return same16 (&pd.type, &pd0.type); }
static int reads (int flag)
{
  int t = tyidx (flag), b = attrbit (flag);
  return t >= 0 ? is_type (tyguid (t)) : b >= 0 ? (int) (attr (&pd) >> b & 1) : 0;
}
static int available (int flag) { return tyidx (flag) >= 0 || attrbit (flag) >= 0; }
static uint64_t abit (int flag) { return 1ULL << (attrbit (flag) < 0 ? 0 : attrbit (flag)); }
static const uint8_t *tg (int flag) { return tyguid (tyidx (flag)); }
/* types that a change of the file system type never replaces */
static int kept_type (void)
{ int r = 0; for (int i = 0; i < NTY; i++) if (tyflag (i) != PED_PARTITION_LINUX_HOME && was_type (tyguid (i))) r = 1; return r; }
static uint8_t u16[16];
static int swapped (const uint8_t *a, const uint8_t *b)
{ static const int m[16] = { 3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15 }; int r = 1;
  for (int i = 0; i < 16; i++) if (a[i] != b[m[i]]) r = 0; return r; }
#include "vt_contracts.h"
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif

static void mkpart (void)
{
  disk.dev = &dev; disk.disk_specific = &gd;
  part.disk = &disk; part.disk_specific = &pd; part.type = 0;
  part.num = (int) vt_range (1, 128);
  part.geom.start = vt_range (0, 1LL << 60); part.geom.end = vt_range (0, 1LL << 60);
  int f = (int) vt_range (0, 12);
  part.fs_type = fsp (f);
  vt_bytes (&pd.type, 16);
  int k = (int) vt_range (0, NTY);
  if (k < NTY) memcpy (&pd.type, tyguid (k), 16);
  vt_bytes (&pd.uuid, 16); vt_bytes (pd.name, 74); vt_bytes (&pd.attributes, 8);
  pd.translated_name = 0;
  pd0 = pd; part0 = part;
}
void h_set_flag (void)
{
  mkpart ();
  int flag = (int) vt_range (0, 40), state = vt_bool ();
  int r = vt_call (gpt_partition_set_flag) (&part, flag, state);
  if (r && state) vt_reach ("set");
  if (r && !state) vt_reach ("cleared");
  if (!r) vt_reach ("unavailable");
}
void h_get_flag (void)
{
  mkpart ();
  int flag = (int) vt_range (0, 40);
  int r = vt_call (gpt_partition_get_flag) (&part, flag);
  if (r) vt_reach ("set");
  if (!r) vt_reach ("clear");
}
void h_avail (void)
{
  mkpart ();
  int flag = (int) vt_range (0, 40);
  int r = vt_call (gpt_partition_is_flag_available) (&part, flag);
  vt_reach ("answered");
}
void h_set_system (void)
{
  mkpart ();
  int f = (int) vt_range (0, 12);
  vt_call (gpt_partition_set_system) (&part, fsp (f));
  vt_reach ("set");
}
void h_set_uuid (void)
{
  mkpart ();
  vt_bytes (u16, 16);
  vt_call (gpt_partition_set_type_uuid) (&part, u16);
  vt_reach ("set");
}
void h_get_type (void)
{
  mkpart ();
  uint8_t *r = vt_call (gpt_partition_get_type_uuid) (&part);
  vt_reach ("got");
}
void h_get_uuid (void)
{
  mkpart ();
  uint8_t *r = vt_call (gpt_partition_get_uuid) (&part);
  vt_reach ("got");
}
