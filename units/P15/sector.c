#include "libparted/labels/pt-tools.c"
#include "vt.h"
#include "env.h"
#ifndef SS
# define SS 512
#endif
static PedDevice dev; static PedDisk disk; static int calls, ok; static uint8_t src[64]; static int len; static uint8_t *rb; static PedSector rs, rn; static uint8_t probe_v; static int probe_i;
int ped_device_write (PedDevice *d, const void *b, PedSector s, PedSector n)
{
  vt_check (d == &dev && s == 0 && n == 1 && !calls, "the first sector, once");
  calls++;
  for (int i = 0; i < SS; i++) vt_check (((const uint8_t *) b)[i] == (i < len ? src[i] : 0), "the bytes given, then zeroes");
  ok = vt_bool ();
  return ok;
}
int ped_device_read (const PedDevice *d, void *b, PedSector s, PedSector n)
{
  vt_check (d == &dev && s == rs && n == rn && !calls, "exactly the sectors asked for, once");
  calls++; rb = b;
  ok = vt_bool ();
  /* the whole buffer belongs to the caller */
  ((volatile uint8_t *) b)[0] = 1; ((volatile uint8_t *) b)[n * SS - 1] = 1;
  ((volatile uint8_t *) b)[probe_i] = probe_v;
  return ok;
}
void h_write (void)
{
  dev.sector_size = SS; disk.dev = &dev; calls = 0; ok = 0; vt_oom = 1;
  vt_bytes (src, 64); len = (int) vt_range (0, 64);
  int r = ptt_write_sector (&disk, src, len);
  vt_check (!r == !(calls && ok), "success exactly when the device write succeeded");
  if (r) vt_reach ("written"); else if (!calls) vt_reach ("no memory"); else vt_reach ("failed");
}
void h_read (void)
{
  dev.sector_size = SS; calls = 0; ok = 0; vt_oom = 0;
  rs = vt_range (0, 1LL << 50); rn = vt_range (1, 1024); probe_v = vt_u8 (); probe_i = (int) vt_range (0, 1024 * SS - 1); vt_assume (probe_i < rn * SS);
  void *keep = &disk, *b = keep;
  int one = vt_bool ();
  if (one) rn = 1;
  vt_assume (probe_i < rn * SS);
  int r = one ? ptt_read_sector (&dev, rs, &b) : ptt_read_sectors (&dev, rs, rn, &b);
  vt_check (calls == 1 && !r == !ok, "success exactly when the device read succeeded");
  vt_check (r ? b == rb : b == keep, "the new buffer, or nothing is changed");
  if (r) { vt_check (((uint8_t *) b)[probe_i] == probe_v, "the bytes read"); free (b); vt_reach ("read"); }
  else vt_reach ("failed");
}
