#include <config.h>
#include <parted/parted.h>
#include "vt.h"
#include "env.h"
static PedDevice dev; static PedDisk disk; static PedPartition part, part0;
static PedFileSystemType F;
static int avail, answer, calls, setcalls, a_flag, a_state; static const PedPartition *a_part; static const PedFileSystemType *a_fs;
static int dpush;
#include "vt_contracts.h"
static int op_avail (const PedPartition *p, PedPartitionFlag f) { calls++; vt_check (p == &part && (int) f == a_flag, "asks about the flag given"); return avail; }
static int op_set (PedPartition *p, PedPartitionFlag f, int s) { setcalls++; vt_check (p == &part && (int) f == a_flag && s == a_state && avail, "forwards an available flag with its state"); return answer; }
static int op_get (const PedPartition *p, PedPartitionFlag f) { calls++; vt_check (p == &part && (int) f == a_flag, "forwards the flag"); return answer; }
static int op_sys (PedPartition *p, const PedFileSystemType *f) { setcalls++; vt_check (p == &part && f == a_fs, "forwards the file system"); return answer; }
static int d_avail (const PedDisk *d, PedDiskFlag f) { vt_check (d == &disk && (int) f == a_flag, "asks about the flag given"); return avail; }
static int d_set (PedDisk *d, PedDiskFlag f, int s) { setcalls++; vt_check (d == &disk && (int) f == a_flag && s == a_state && avail, "forwards an available flag with its state"); return answer; }
static int d_get (const PedDisk *d, PedDiskFlag f) { setcalls++; vt_check (d == &disk && (int) f == a_flag && avail, "forwards an available flag"); return answer; }
static int d_meta (PedDisk *d) { return 1; }
static PedDiskOps ops = { .partition_is_flag_available = op_avail, .partition_set_flag = op_set, .partition_get_flag = op_get, .partition_set_system = op_sys,
  .disk_is_flag_available = d_avail, .disk_set_flag = d_set, .disk_get_flag = d_get, .alloc_metadata = d_meta };
static const PedDiskType type = { .name = "label", .ops = &ops };
static void mk (void)
{
  disk.dev = &dev; disk.type = &type; disk.part_list = 0; disk.update_mode = 0; dev.length = 1000; part.disk = &disk; part.type = (int) vt_range (0, 2); part.num = (int) vt_range (1, 9);
  avail = vt_bool (); answer = vt_bool (); calls = setcalls = 0; a_flag = (int) vt_range (0, 40); a_state = vt_bool (); a_fs = vt_bool () ? &F : 0; part0 = part;
}
void h_set (void) { mk (); int r = vt_call (ped_partition_set_flag) (&part, a_flag, a_state); if (avail) vt_reach ("available"); else vt_reach ("not available"); }
void h_get (void) { mk (); int r = vt_call (ped_partition_get_flag) (&part, a_flag); vt_reach ("got"); }
void h_avail (void) { mk (); int r = vt_call (ped_partition_is_flag_available) (&part, a_flag); vt_reach ("got"); }
void h_sys (void) { mk (); int r = vt_call (ped_partition_set_system) (&part, a_fs); vt_reach ("set"); }
void h_dset (void) { mk (); disk.update_mode = 1; int r = vt_call (ped_disk_set_flag) (&disk, a_flag, a_state); if (avail) vt_reach ("available"); else vt_reach ("not available"); }
void h_dget (void) { mk (); int r = vt_call (ped_disk_get_flag) (&disk, a_flag); vt_reach ("got"); }
