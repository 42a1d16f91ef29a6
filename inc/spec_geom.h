/* executable specification of regions */
#ifndef SPEC_GEOM_H
#define SPEC_GEOM_H
#define SECMAX (1LL << 60)
#ifdef VT_CBMC
# define vt_rw(p, n) __CPROVER_rw_ok ((p), (n))
# define vt_r(p, n) __CPROVER_r_ok ((p), (n))
#else
# define vt_rw(p, n) ((p) != NULL)
# define vt_r(p, n) ((p) != NULL)
#endif
static int wf_geom (const PedGeometry *g)
{ return g->dev != NULL && g->start >= 0 && g->start <= SECMAX && g->length >= 1 && g->length <= SECMAX && g->end == g->start + g->length - 1; }
static int is_region (PedGeometry g, const PedDevice *dev, PedSector start, PedSector length)
{ return g.dev == dev && g.start == start && g.length == length && g.end == start + length - 1; }
static int same_geom (PedGeometry a, PedGeometry b)
{ return a.dev == b.dev && a.start == b.start && a.length == b.length && a.end == b.end; }
static int in_geom (const PedGeometry *g, PedSector s) { return s >= g->start && s <= g->end; }
#endif
