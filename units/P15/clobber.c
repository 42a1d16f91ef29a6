#include "libparted/disk.c"
#include "vt.h"
#include "env.h"
/* wiping old signatures before a new label is written; the commit around it */
static PedDevice dev; static PedDisk disk; static int opens, fails_open, is_gpt, clears, cfail, probes; static PedSector L, N, w; static int hit; static int log_, os_ok;
static int t_probe (const PedDevice *d) { vt_check (d == &dev && opens > 0 && !clears, "looks for a GPT first, on the open device"); probes++; return is_gpt; }
static int t_other (const PedDevice *d) { vt_unreachable ("only the GPT is looked for"); return 0; }
static int d_write (const PedDisk *d);
static PedDiskOps og = { .probe = t_probe }, oo = { .probe = t_other }, od = { .write = d_write }, on = { .write = 0 };
static PedDiskType tg = { .name = "gpt", .ops = &og }, t1 = { .name = "gpu", .ops = &oo }, t2 = { .name = "loop", .ops = &oo }, td = { .name = "new", .ops = &od }, tn = { .name = "none", .ops = &on };
int ped_device_open (PedDevice *d) { if (vt_bool ()) { fails_open = 1; return 0; } opens++; return 1; }
int ped_device_close (PedDevice *d) { vt_check (opens > 0, "closes what it opened"); opens--; return 1; }
int ptt_clear_sectors (PedDevice *d, PedSector s, PedSector n)
{
  clears++;
  vt_check (d == &dev && opens > 0 && !cfail, "on the open device, not after a failure");
  vt_check (s >= (is_gpt ? 1 : 0) && n >= 0 && s + n <= L, "stays on the device and off the protective boot sector");
  vt_check (n == 0 || s + n <= is_gpt + N || s >= L - N, "clears only the areas at both ends");
  if (s <= w && w < s + n) hit++;
  if (vt_bool ()) { cfail = 1; return 0; }
  return 1;
}
static void types (void) { ped_disk_type_register (&t1); ped_disk_type_register (&tg); ped_disk_type_register (&t2); }
static void setup (void)
{
  dev.sector_size = vt_range (1, 32) * 512; L = dev.length = vt_range (1, 1LL << 60); is_gpt = vt_bool ();
  vt_assume (!is_gpt || L >= 2);
  N = 9 * 1024 / dev.sector_size + 1;
  w = vt_range (0, 1LL << 60); vt_assume (w < L);
  opens = fails_open = clears = cfail = probes = hit = log_ = os_ok = 0;
}
void h_clobber (void)
{
  types (); setup ();
  int r = ped_disk_clobber (&dev);
  vt_check (!r == (fails_open || cfail), "fails exactly when the device cannot be opened or cleared");
  vt_check (opens == 0, "the device is closed again");
  vt_check (!r || hit || !(w >= is_gpt && (w < is_gpt + 1 + 8 * 1024 / dev.sector_size || w == L - 1)), "the first 8 KiB and the last sector are cleared");
  vt_check (!(is_gpt && hit && w == 0), "the boot code in front of a GPT stays");
  if (r && hit) vt_reach ("cleared"); if (r && !hit) vt_reach ("kept"); if (!r) vt_reach ("failed"); if (r && is_gpt && L == 2) vt_reach ("tiny");
}
/* ---- committing ---- */
enum { CLOB = 1, WRITE, OS };
static int d_write (const PedDisk *d)
{
  vt_check (d == &disk && opens > 0 && (log_ == 0 || log_ == CLOB), "the label is written once, to an open device, after wiping");
  log_ = WRITE; if (vt_bool ()) { cfail = 1; return 0; } return 1;
}
int ct_clobber (PedDevice *d)
{
  vt_check (d == &dev && opens > 0 && log_ == 0, "wipes before the label is written");
  log_ = CLOB; if (vt_bool ()) { cfail = 1; return 0; } return 1;
}
static int s_commit (PedDisk *d)
{
  vt_check (d == &disk && opens > 0 && log_ == (WRITE) && !cfail, "the system learns of a table that has been written");
  log_ = OS; if (vt_bool ()) { cfail = 1; return 0; } return 1;
}
static PedDiskArchOps ao = { .disk_commit = s_commit };
static PedArchitecture arch = { .disk_ops = &ao };
const PedArchitecture *ped_architecture = &arch;
void h_commit (void)
{
  setup (); int ro = vt_bool (), both = vt_bool (), need = (int) vt_range (0, 2);
  disk.dev = &dev; disk.type = ro ? &tn : &td; disk.update_mode = 0; disk.needs_clobber = need;
  int r = both ? ped_disk_commit (&disk) : ped_disk_commit_to_dev (&disk);
  vt_check (!r == (ro || fails_open || cfail), "fails exactly when a step fails");
  vt_check (!r || log_ == (both ? OS : WRITE), "success: every step was taken");
  vt_check (opens == 0, "the device is closed again");
  vt_check (!r || !disk.needs_clobber, "wiped only once");
  vt_check (!need || disk.needs_clobber || log_ >= CLOB, "not forgotten before it was done");
  vt_check (!(cfail && log_ == CLOB) || disk.needs_clobber == need, "still to be done after a failure");
  if (r && need) vt_reach ("wiped"); if (r && !need) vt_reach ("kept"); if (!r && log_) vt_reach ("failed");
}
