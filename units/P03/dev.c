#include <config.h>
#include <parted/parted.h>
#include "env.h"
#include "spec_geom.h"
#include "architecture.h"
static struct { int calls; char kind; const PedDevice *dev; const void *buf; PedSector start, count; long long ret; } ops;
#include "vt_contracts.h"
static int rec (char kind, const PedDevice *d, const void *b, PedSector s, PedSector c)
{
  ops.calls++; ops.kind = kind; ops.dev = d; ops.buf = b; ops.start = s; ops.count = c;
  ops.ret = vt_bool () ? 1 : vt_bool () ? 7 : 0;
  return ops.ret;
}
static int d_open (PedDevice *d) { return rec ('o', d, 0, 0, 0); }
static int d_ropen (PedDevice *d) { return rec ('O', d, 0, 0, 0); }
static int d_close (PedDevice *d) { return rec ('c', d, 0, 0, 0); }
static int d_rclose (PedDevice *d) { return rec ('C', d, 0, 0, 0); }
static int d_read (const PedDevice *d, void *b, PedSector s, PedSector c) { return rec ('r', d, b, s, c); }
static int d_write (PedDevice *d, const void *b, PedSector s, PedSector c) { return rec ('w', d, b, s, c); }
static int d_sync (PedDevice *d) { return rec ('s', d, 0, 0, 0); }
static int d_fsync (PedDevice *d) { return rec ('f', d, 0, 0, 0); }
static PedSector d_check (PedDevice *d, void *b, PedSector s, PedSector c) { return rec ('k', d, b, s, c); }
static int d_busy (PedDevice *d) { return rec ('b', d, 0, 0, 0); }
static PedDeviceArchOps vops = { .open = d_open, .refresh_open = d_ropen, .close = d_close, .refresh_close = d_rclose,
  .read = d_read, .write = d_write, .sync = d_sync, .sync_fast = d_fsync, .check = d_check, .is_busy = d_busy };
static PedArchitecture varch = { .dev_ops = &vops };
const PedArchitecture *ped_architecture;
static PedDevice dev0;
static char buf[1];
static void mk (void)
{
  memset (&ops, 0, sizeof ops);
  ped_architecture = &varch;
  dev0.open_count = vt_range (0, 1 << 30); dev0.external_mode = vt_range (0, 1);
  vt_reach ("harness");
}
#define H(f, args) void h_##f (void) { mk (); if (vt_call (f) args) vt_reach ("success"); else vt_reach ("failure"); }
H (ped_device_open, (&dev0))
H (ped_device_close, (&dev0))
H (ped_device_begin_external_access, (&dev0))
H (ped_device_end_external_access, (&dev0))
H (ped_device_read, (&dev0, buf, vt_in (), vt_in ()))
H (ped_device_write, (&dev0, buf, vt_in (), vt_in ()))
H (ped_device_check, (&dev0, buf, vt_in (), vt_in ()))
H (ped_device_sync, (&dev0))
H (ped_device_sync_fast, (&dev0))
