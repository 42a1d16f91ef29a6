/* every label name resolves to its own limits; other names have none */
#include "libparted/labels/pt-tools.c"
#include "vt.h"
#include "env.h"
int ped_device_write (PedDevice *d, const void *b, PedSector s, PedSector n) { return 0; }
int ped_device_read (const PedDevice *d, void *b, PedSector s, PedSector n) { return 0; }
static PedPartition p;
void h_lookup (void)
{
  static const char *const known[] = { "dasd", "dvh", "gpt", "mac", "msdos", "sun", "bsd", "loop", "pc98", "amiga", "atari" };
  char nm[8]; int l = 0, is = 0;
  for (int i = 0; i < 7; i++) nm[i] = (char) vt_u8 ();
  nm[7] = 0;
  while (nm[l]) l++;
  for (int k = 0; k < 11; k++) { int e = 1; for (int i = 0; i < 8; i++) { if (nm[i] != known[k][i]) { e = 0; break; } if (!nm[i]) break; } is |= e; }
  PedSector a = 7, b = 7;
  int ra = ptt_partition_max_start_sector (nm, &a), rb = ptt_partition_max_length (nm, &b);
  vt_check (ra == (is ? 0 : -1) && rb == ra, "limits are known for exactly the label types");
  vt_check (is || (a == 7 && b == 7), "nothing is stored without a limit");
  p.geom.start = (PedSector) vt_in (); p.geom.length = (PedSector) vt_in ();
  int r = ptt_partition_max_start_len (nm, &p);
  vt_check (is || r == 1, "no limit is imposed without knowing one");
  vt_check (!is || !r == !((uint64_t) p.geom.start <= (uint64_t) a && (uint64_t) p.geom.length <= (uint64_t) b), "the check imposes the reported limits");
  if (is) vt_reach ("known"); else vt_reach ("unknown");
}
