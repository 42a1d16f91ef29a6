#define VT_NO_ENV_MALLOC
#define VT_NO_ENV_EXC
#include <config.h>
#include <parted/parted.h>
#include "env.h"
#include "spec_geom.h"
static _Bool vt_alloc_failed;
static int vt_ignored;
static struct { int calls; char kind; const PedDevice *dev; const void *buf; PedSector start, count; int ret; _Bool fits; } ops;
static long long vt_ss;

/* the access lies inside the region */
#define FITS (geom->start + offset + count - 1 <= geom->end)
#include "vt_contracts.h"

/* the device layer below: records the access, returns an arbitrary status.  read_alloc's buffer
   must be large enough for the transfer. */
static int dev_op (char kind, const PedDevice *d, const void *b, PedSector s, PedSector c)
{
  ops.calls++; ops.kind = kind; ops.dev = d; ops.buf = b; ops.start = s; ops.count = c;
#ifdef VT_CBMC
  ops.fits = vt_ss == 0 || __CPROVER_rw_ok (b, c * vt_ss);
#else
  ops.fits = 1;
  if (vt_ss) memset ((void *) b, 0x5a, c * vt_ss);
#endif
  ops.ret = vt_bool ();
  return ops.ret;
}
int ped_device_read (const PedDevice *d, void *b, PedSector s, PedSector c) { return dev_op ('r', d, b, s, c); }
int ped_device_write (PedDevice *d, const void *b, PedSector s, PedSector c) { return dev_op ('w', d, b, s, c); }
int ped_device_sync (PedDevice *d) { return dev_op ('s', d, 0, 0, 0); }
int ped_device_sync_fast (PedDevice *d) { return dev_op ('f', d, 0, 0, 0); }
/* the answer to an offered choice is fixed in advance, so that the contract can talk about it */
PedExceptionOption ped_exception_throw (PedExceptionType t, PedExceptionOption o, const char *m, ...)
{ return (o & vt_ignored) ? vt_ignored : PED_EXCEPTION_UNHANDLED; }
void ped_exception_catch (void) { }
void ped_exception_fetch_all (void) { }
void ped_exception_leave_all (void) { }
void *ped_malloc (size_t n)
{ if (vt_bool ()) { vt_alloc_failed = 1; return NULL; } return malloc (n); }

static PedDevice dev0, dev1;
static char path[] = "/dev/x";
static PedGeometry mk_geom (void)
{
  PedGeometry g;
  dev0.path = dev1.path = path;
  dev0.sector_size = dev1.sector_size = 512LL << vt_range (0, 7);
  g.dev = vt_bool () ? &dev1 : &dev0;
  g.start = vt_range (0, SECMAX);
  g.length = vt_range (1, SECMAX);
  g.end = g.start + g.length - 1;
  memset (&ops, 0, sizeof ops); vt_alloc_failed = 0; vt_ss = 0;
  vt_ignored = vt_bool () ? PED_EXCEPTION_IGNORE : vt_bool () ? PED_EXCEPTION_CANCEL : PED_EXCEPTION_UNHANDLED;
  vt_reach ("harness");
  return g;
}
static char buf[1];
void h_ped_geometry_read (void)
{ PedGeometry g = mk_geom (); PedSector o = vt_range (0, SECMAX), c = vt_range (0, SECMAX);
  int r = vt_call (ped_geometry_read) (&g, buf, o, c); if (r) vt_reach ("success"); else vt_reach ("failure"); }
void h_ped_geometry_write (void)
{ PedGeometry g = mk_geom (); PedSector o = vt_range (0, SECMAX), c = vt_range (0, SECMAX);
  int r = vt_call (ped_geometry_write) (&g, buf, o, c); if (r) vt_reach ("success"); else vt_reach ("failure"); }
void h_ped_geometry_read_alloc (void)
{ PedGeometry g = mk_geom (); void *p = NULL; PedSector o = vt_range (0, SECMAX), c = vt_range (0, 1 << 20);
#ifdef VT_NATIVE
  if (c > 64) c = 64;
#endif
  vt_ss = g.dev->sector_size;
  int r = vt_call (ped_geometry_read_alloc) (&g, &p, o, c); if (r) vt_reach ("success"); else vt_reach ("failure");
#ifdef VT_NATIVE
  free (p);
#endif
}
void h_ped_geometry_sync (void) { PedGeometry g = mk_geom (); if (vt_call (ped_geometry_sync) (&g)) vt_reach ("success"); else vt_reach ("failure"); }
void h_ped_geometry_sync_fast (void) { PedGeometry g = mk_geom (); if (vt_call (ped_geometry_sync_fast) (&g)) vt_reach ("success"); else vt_reach ("failure"); }
