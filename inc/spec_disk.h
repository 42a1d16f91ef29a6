/* executable specification of partition tables: a bounded arbitrary table, its consistency,
   snapshots.  Included after "libparted/disk.c".  */
#ifndef SPEC_DISK_H
#define SPEC_DISK_H
/* shape of the table (constants, one verification run per shape): SH_P primaries of which number
   SH_E is the extended one (-1: none) holding SH_L logicals */
#define NPRI 3
#define NLOG 3
#define NUMMAX 3
#define LSTMAX (SH_P * 2 + 2)
#define LOGMAX (SH_L * 2 + 2)
#ifdef VT_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "bounds"
#endif
static PedDevice dv;
static PedDisk dk;
static PedPartition P0, P1, P2, L0, L1, L2;
#define PP(i) ((i) == 0 ? &P0 : (i) == 1 ? &P1 : &P2)
#define LL(i) ((i) == 0 ? &L0 : (i) == 1 ? &L1 : &L2)
enum { npri = SH_P, nlog = SH_L, ext = SH_E };      /* ext: index of the extended partition or -1 */

/* ---- contracts of the constraint functions used here (proved by P06): start range, end range and
   size bounds; alignment is abstracted (satisfied by every region) */
static PedGeometry slot_g[8]; static PedConstraint slot_c[4];
static PedConstraint *mk_slot (PedConstraint *c, PedGeometry *sr, PedGeometry *er, PedSector s0, PedSector s1, PedSector e0, PedSector e1, PedSector mn, PedSector mx)
{
  sr->dev = er->dev = &dv; sr->start = s0; sr->end = s1; sr->length = s1 - s0 + 1; er->start = e0; er->end = e1; er->length = e1 - e0 + 1;
  c->start_align = c->end_align = 0; c->start_range = sr; c->end_range = er; c->min_size = mn; c->max_size = mx;
  return c;
}
PedConstraint *ped_constraint_new_from_max (const PedGeometry *g)
{ return mk_slot (&slot_c[0], &slot_g[0], &slot_g[1], g->start, g->end, g->start, g->end, 1, g->length); }
PedConstraint *ped_constraint_any (const PedDevice *d)
{ return mk_slot (&slot_c[2], &slot_g[4], &slot_g[5], 0, d->length - 1, 0, d->length - 1, 1, d->length); }
PedConstraint *ped_constraint_exact (const PedGeometry *g)
{ return mk_slot (&slot_c[3], &slot_g[6], &slot_g[7], g->start, g->start, g->end, g->end, 1, LLONG_MAX); }
PedConstraint *ped_constraint_intersect (const PedConstraint *a, const PedConstraint *b)
{
  if (!a || !b) return 0;
  PedSector s0 = PED_MAX (a->start_range->start, b->start_range->start), s1 = PED_MIN (a->start_range->end, b->start_range->end);
  PedSector e0 = PED_MAX (a->end_range->start, b->end_range->start), e1 = PED_MIN (a->end_range->end, b->end_range->end);
  if (s0 > s1 || e0 > e1) return 0;
  return mk_slot (&slot_c[1], &slot_g[2], &slot_g[3], s0, s1, e0, e1, PED_MAX (a->min_size, b->min_size), PED_MIN (a->max_size, b->max_size));
}
void ped_constraint_destroy (PedConstraint *c) { }
PedGeometry *ped_constraint_solve_nearest (const PedConstraint *c, const PedGeometry *g) { vt_unreachable ("label aligns through its operation"); return 0; }
PedAlignment *ped_alignment_duplicate (const PedAlignment *a) { return 0; }
const PedAlignment *ped_alignment_any;

/* ---- label operations (arbitrary label) */
static int lab_max_primary, aligned_called;
static PedPartition *destroyed; static int ndestroyed;
static int op_align (PedPartition *p, const PedConstraint *c)
{
  aligned_called++;
  if (!c || !vt_bool ()) return 0;
  PedSector s = vt_range (0, SECMAX), e = vt_range (0, SECMAX);
  vt_assume (s <= e && s >= c->start_range->start && s <= c->start_range->end && e >= c->end_range->start && e <= c->end_range->end);
  vt_assume (e - s + 1 >= c->min_size && e - s + 1 <= c->max_size);
  p->geom.start = s; p->geom.end = e; p->geom.length = e - s + 1;
  return 1;
}
static int op_enumerate (PedPartition *p)
{
  if (p->num == -1) { if (!vt_bool ()) return 0; p->num = vt_range (1, NUMMAX); }
  return 1;
}
static int op_alloc_metadata (PedDisk *d) { return 1; }
static int op_max_primary (const PedDisk *d) { return lab_max_primary; }
static _Bool op_check (const PedPartition *p) { return vt_bool (); }
static int op_set_system (PedPartition *p, const PedFileSystemType *t) { return 1; }
#ifndef OWN_PARTITION_NEW
static PedPartition *op_new (const PedDisk *d, PedPartitionType t, const PedFileSystemType *f, PedSector s, PedSector e)
{ return _ped_partition_alloc (d, t, f, s, e); }
#endif
static void op_destroy (PedPartition *p) { destroyed = p; ndestroyed++; }
static PedDiskOps dops = { .partition_align = op_align, .partition_enumerate = op_enumerate, .alloc_metadata = op_alloc_metadata,
    .get_max_primary_partition_count = op_max_primary, .partition_check = op_check, .partition_set_system = op_set_system,
    .partition_new = op_new, .partition_destroy = op_destroy };
static PedDiskType dty = { .name = "label", .ops = &dops };

static int prev_ok (PedPartition *p, PedPartition *prev) { return p->prev == prev; }
static int reg_ok (PedPartition *p)
{ return p->disk == &dk && p->geom.dev == &dv && p->geom.start >= 0 && p->geom.start <= p->geom.end && p->geom.length == p->geom.end - p->geom.start + 1; }
static PedPartition *lst_ext (void)
{
  PedPartition *w = dk.part_list, *r = 0;
  for (int i = 0; i < LSTMAX && w; i++, w = w->next) if (w->type == PED_PARTITION_EXTENDED && !r) r = w;
  return r;
}
static int contains (PedPartition *p)
{
  PedPartition *w = dk.part_list; int r = 0;
  for (int i = 0; i < LSTMAX && w; i++, w = w->next) r |= w == p;
  PedPartition *e = lst_ext ();
  w = e ? e->part_list : 0;
  for (int i = 0; i < LOGMAX && w; i++, w = w->next) r |= w == p;
  return r;
}
/* the consistency invariant: on the device, sorted, disjoint, well linked, one extended at most,
   logicals inside it.  n = maximum list length considered */
static int table_ok (void)
{
  PedPartition *w = dk.part_list, *pv = 0; PedPartition *e = 0; PedSector last = -1; int i;
  for (i = 0; i < LSTMAX && w; i++, pv = w, w = w->next) {
    if (!prev_ok (w, pv) || !reg_ok (w) || w->geom.start <= last || w->geom.end >= dv.length || (w->type & PED_PARTITION_LOGICAL)) return 0;
    last = w->geom.end;
    if (w->type == PED_PARTITION_EXTENDED) { if (e) return 0; e = w; }
  }
  if (w) return 0;
  if (!e) return 1;
  w = e->part_list; pv = 0; last = e->geom.start - 1;
  for (i = 0; i < LOGMAX && w; i++, pv = w, w = w->next) {
    if (!prev_ok (w, pv) || !reg_ok (w) || w->geom.start <= last || w->geom.end > e->geom.end || !(w->type & PED_PARTITION_LOGICAL)) return 0;
    last = w->geom.end;
  }
  return !w;
}
static int primaries (void)
{
  PedPartition *w = dk.part_list; int n = 0;
  for (int i = 0; i < LSTMAX && w; i++, w = w->next) n += ped_partition_is_active (w) ? 1 : 0;
  return n;
}
/* snapshot: the table as it was */
static struct { PedGeometry pg[NPRI], lgm[NLOG]; int mode; } old;
static void snap (void)
{
  old.mode = dk.update_mode;
  for (int i = 0; i < npri; i++) old.pg[i] = PP (i)->geom;
  for (int i = 0; i < nlog; i++) old.lgm[i] = LL (i)->geom;
}
static int geoms_same (PedPartition *except)
{
  for (int i = 0; i < npri; i++) if (PP (i) != except && !same_geom (PP (i)->geom, old.pg[i])) return 0;
  for (int i = 0; i < nlog; i++) if (LL (i) != except && !same_geom (LL (i)->geom, old.lgm[i])) return 0;
  return 1;
}
static int all_listed (PedPartition *except)
{
  for (int i = 0; i < npri; i++) if (PP (i) != except && !contains (PP (i))) return 0;
  for (int i = 0; i < nlog; i++) if (LL (i) != except && !contains (LL (i))) return 0;
  return 1;
}
static int list_len (void)
{
  PedPartition *w = dk.part_list; int n = 0;
  for (int i = 0; i < LSTMAX && w; i++, w = w->next) n++;
  PedPartition *e = lst_ext ();
  w = e ? e->part_list : 0;
  for (int i = 0; i < LOGMAX && w; i++, w = w->next) n++;
  return n;
}
/* exactly the old table: same order, same regions */
static int unchanged (void)
{
  PedPartition *w = dk.part_list;
  for (int i = 0; i < npri; i++) { if (w != PP (i)) return 0; w = w->next; }
  if (w) return 0;
  if (ext >= 0) {
    w = PP (ext)->part_list;
    for (int i = 0; i < nlog; i++) { if (w != LL (i)) return 0; w = w->next; }
    if (w) return 0;
  }
  return geoms_same (0) && table_ok () && dk.update_mode == old.mode;
}
static void mk_part (PedPartition *p, PedPartitionType t, PedSector lo, PedSector hi)
{
  PedSector s = vt_range (0, SECMAX), e = vt_range (0, SECMAX);
  vt_assume (s <= e && s >= lo && e <= hi);
  p->disk = &dk; p->geom.dev = &dv; p->geom.start = s; p->geom.end = e; p->geom.length = e - s + 1;
  p->type = t; p->num = vt_range (1, NUMMAX); p->part_list = 0; p->fs_type = 0; p->prev = p->next = 0;
}
/* an arbitrary consistent table in update mode, up to NPRI primaries and NLOG logicals */
static void mk_table (int mode)
{
  dv.length = vt_range (1, SECMAX);
  dty.features = vt_bool () ? PED_DISK_TYPE_EXTENDED : 0;
  dk.dev = &dv; dk.type = &dty; dk.update_mode = mode; dk.needs_clobber = vt_range (0, 1); dk.part_list = 0;
  lab_max_primary = vt_range (0, NPRI + 2);
  ndestroyed = 0; aligned_called = 0;
  if (ext >= 0) vt_assume (dty.features);
  for (int i = 0; i < npri; i++) {
    mk_part (PP (i), i == ext ? PED_PARTITION_EXTENDED : PED_PARTITION_NORMAL, i ? PP (i - 1)->geom.end + 1 : 0, dv.length - 1);
    if (i) { PP (i)->prev = PP (i - 1); PP (i - 1)->next = PP (i); } else dk.part_list = PP (0);
  }
  for (int i = 0; i < nlog; i++) {
    mk_part (LL (i), PED_PARTITION_LOGICAL, i ? LL (i - 1)->geom.end + 1 : PP (ext)->geom.start, PP (ext)->geom.end);
    if (i) { LL (i)->prev = LL (i - 1); LL (i - 1)->next = LL (i); } else PP (ext)->part_list = LL (0);
  }
  vt_assume (primaries () <= lab_max_primary);
  snap ();
}
#ifdef PICK
static PedPartition *pick (void) { return PICK < 3 ? PP (PICK) : LL (PICK - 3); }
#endif
/* an arbitrary constraint of ranges and sizes (alignment abstract) */
static PedGeometry cr1, cr2; static PedConstraint cc_;
static PedConstraint *mk_constraint (void)
{
  if (vt_bool ()) return 0;
  cr1.dev = cr2.dev = &dv;
  cr1.start = vt_range (0, SECMAX); cr1.length = vt_range (1, SECMAX); cr1.end = cr1.start + cr1.length - 1;
  cr2.start = vt_range (0, SECMAX); cr2.length = vt_range (1, SECMAX); cr2.end = cr2.start + cr2.length - 1;
  cc_.start_align = cc_.end_align = 0; cc_.start_range = &cr1; cc_.end_range = &cr2;
  cc_.min_size = vt_range (1, SECMAX); cc_.max_size = vt_range (1, SECMAX);
  return &cc_;
}
static int satisfies (PedGeometry g, const PedConstraint *c)
{ return !c || (in_geom (c->start_range, g.start) && in_geom (c->end_range, g.end) && g.length >= c->min_size && g.length <= c->max_size); }
#ifdef VT_CBMC
#pragma CPROVER check pop
#endif
#endif
