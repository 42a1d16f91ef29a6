#define VT_NO_ENV_MALLOC
#include <config.h>
#include <parted/parted.h>
#include "env.h"
#include "spec_geom.h"
static _Bool vt_alloc_failed;
static PedSector vt_probe;   /* an arbitrary sector: universally quantified */

#include "vt_contracts.h"

static PedDevice dev0, dev1;
static PedDevice *pick_dev (void) { return vt_bool () ? &dev1 : &dev0; }
static PedGeometry mk_geom (void)
{
  PedGeometry g;
  g.dev = pick_dev ();
  g.start = vt_range (0, SECMAX);
  g.length = vt_range (1, SECMAX);
  g.end = g.start + g.length - 1;
  return g;
}
static void begin (void) { vt_alloc_failed = 0; vt_probe = (PedSector) vt_in (); vt_reach ("harness"); }
/* ped_malloc may fail; ghost flag records it */
void *ped_malloc (size_t n)
{ if (vt_bool ()) { vt_alloc_failed = 1; return NULL; } return malloc (n); }

void h_ped_geometry_set (void)
{ PedGeometry g = mk_geom (); begin (); int r = vt_call (ped_geometry_set) (&g, vt_in (), vt_in ()); if (r) vt_reach ("success"); else vt_reach ("failure"); }
void h_ped_geometry_init (void)
{ PedGeometry g = mk_geom (); begin (); int r = vt_call (ped_geometry_init) (&g, pick_dev (), vt_in (), vt_in ()); if (r) vt_reach ("success"); else vt_reach ("failure"); }
void h_ped_geometry_set_start (void)
{ PedGeometry g = mk_geom (); begin (); int r = vt_call (ped_geometry_set_start) (&g, vt_in ()); if (r) vt_reach ("success"); else vt_reach ("failure"); }
void h_ped_geometry_set_end (void)
{ PedGeometry g = mk_geom (); begin (); int r = vt_call (ped_geometry_set_end) (&g, vt_in ()); if (r) vt_reach ("success"); else vt_reach ("failure"); }
void h_ped_geometry_new (void)
{ begin (); PedGeometry *r = vt_call (ped_geometry_new) (pick_dev (), vt_in (), vt_in ()); if (r) vt_reach ("success"); else vt_reach ("failure"); }
void h_ped_geometry_duplicate (void)
{ PedGeometry g = mk_geom (); begin (); PedGeometry *r = vt_call (ped_geometry_duplicate) (&g); if (r) vt_reach ("success"); else vt_reach ("failure"); }
#define TWO PedGeometry a = mk_geom (), b = mk_geom (); const PedGeometry *pa = &a, *pb = vt_bool () ? &a : &b; begin ()
void h_ped_geometry_intersect (void)
{ TWO; if (vt_bool ()) pa = NULL; if (vt_bool ()) pb = NULL; PedGeometry *r = vt_call (ped_geometry_intersect) (pa, pb); if (r) vt_reach ("success"); else vt_reach ("failure"); }
void h_ped_geometry_test_overlap (void) { TWO; if (vt_call (ped_geometry_test_overlap) (pa, pb)) vt_reach ("yes"); else vt_reach ("no"); }
void h_ped_geometry_test_inside (void) { TWO; if (vt_call (ped_geometry_test_inside) (pa, pb)) vt_reach ("yes"); else vt_reach ("no"); }
void h_ped_geometry_test_equal (void) { TWO; if (vt_call (ped_geometry_test_equal) (pa, pb)) vt_reach ("yes"); else vt_reach ("no"); }
void h_ped_geometry_test_sector_inside (void) { TWO; if (vt_call (ped_geometry_test_sector_inside) (pa, vt_in ())) vt_reach ("yes"); else vt_reach ("no"); }
void h_ped_geometry_map (void) { TWO; if (vt_call (ped_geometry_map) (pa, pb, vt_in ()) >= 0) vt_reach ("yes"); else vt_reach ("no"); }
