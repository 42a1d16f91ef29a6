#include <config.h>
#include <parted/parted.h>
#define VT_EXC_UNHANDLED
#include "env.h"
#include "spec_geom.h"
#include "libparted/disk.c"
#include "spec_disk.h"
const PedArchitecture *ped_architecture;
static PedSector sect; static int number;
#ifdef VT_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#endif
/* the walk order as specified: primaries in list order, the extended one followed by its logicals */
#define MAXW (2 * (SH_P + SH_L) + 3)
static PedPartition *order[MAXW]; static int norder;
static int spec_order (void)
{
  PedPartition *w = dk.part_list; norder = 0;
  for (int i = 0; i < LSTMAX && w; i++, w = w->next) {
    if (norder >= MAXW) return 0;
    order[norder++] = w;
    if (w->type == PED_PARTITION_EXTENDED) {
      PedPartition *l = w->part_list;
      for (int j = 0; j < LOGMAX && l; j++, l = l->next) { if (norder >= MAXW) return 0; order[norder++] = l; }
      if (l) return 0;
    }
  }
  return !w;
}
static int listed_now (PedPartition *p) { return contains (p); }
/* tiling: free areas fill exactly the gaps */
static int tiled_dev (void)
{
  PedPartition *w = dk.part_list; PedSector at = 0; int lastfree = 0;
  for (int i = 0; i < LSTMAX && w; i++, w = w->next) {
    if (w->geom.start != at) return 0;
    at = w->geom.end + 1;
    int f = (w->type & PED_PARTITION_FREESPACE) != 0;
    if ((f && (lastfree || w->type != PED_PARTITION_FREESPACE || w->num != -1))) return 0;
    lastfree = f;
  }
  return !w && at == dv.length;
}
static int tiled_ext (void)
{
  if (ext < 0) return 1;
  PedPartition *e = PP (ext), *w = e->part_list; PedSector at = -1; int lastfree = 0;
  for (int i = 0; i < LOGMAX && w; i++, w = w->next) {
    if (at == -1 ? (w->geom.start != e->geom.start && w->geom.start != e->geom.start + 1) : w->geom.start != at) return 0;
    at = w->geom.end + 1;
    int f = (w->type & PED_PARTITION_FREESPACE) != 0;
    if ((f && (lastfree || w->type != (PED_PARTITION_FREESPACE | PED_PARTITION_LOGICAL)))) return 0;
    lastfree = f;
  }
  return !w && (at == e->geom.end + 1 || (at == -1 && e->geom.length == 1));
}
static int has (PedPartition *p, int bits) { return (p->type & bits) != 0; }
/* exactly the entries of type BITS were removed, the others are in place and in order, each removed one destroyed once */
static int removed_exactly (int bits)
{
  PedPartition *w = dk.part_list, *pv = 0; int gone = 0;
  for (int i = 0; i < npri; i++) if (has (PP (i), bits)) gone++; else { if (w != PP (i) || w->prev != pv) return 0; pv = w; w = w->next; }
  if (w) return 0;
  if (ext >= 0) {
    w = PP (ext)->part_list; pv = 0;
    for (int i = 0; i < nlog; i++) if (has (LL (i), bits)) gone++; else { if (w != LL (i) || w->prev != pv) return 0; pv = w; w = w->next; }
    if (w) return 0;
  }
  return gone == ndestroyed;
}
/* arbitrary roles */
static void roles (int freetoo)
{
  for (int i = 0; i < npri; i++) if (i != ext && vt_bool ()) { PP (i)->type = vt_bool () ? PED_PARTITION_METADATA : freetoo == 1 ? PED_PARTITION_FREESPACE : PED_PARTITION_PROTECTED; if (freetoo == 1) PP (i)->num = -1; }
  for (int i = 0; i < nlog; i++) if (vt_bool ()) { LL (i)->type = PED_PARTITION_LOGICAL | (vt_bool () ? PED_PARTITION_METADATA : freetoo == 1 ? PED_PARTITION_FREESPACE : 0); if (freetoo == 1) LL (i)->num = -1; }
}
static PedPartition *spec_by_sector (PedSector s)
{
  for (int i = 0; i < norder; i++) if (order[i]->type != PED_PARTITION_EXTENDED && in_geom (&order[i]->geom, s)) return order[i];
  return 0;
}
static PedPartition *spec_by_num (int n)
{
  for (int i = 0; i < norder; i++) if (!(order[i]->type & PED_PARTITION_FREESPACE) && order[i]->num == n) return order[i];
  return 0;
}
static int active (PedPartition *p) { return !(p->type & (PED_PARTITION_FREESPACE | PED_PARTITION_METADATA)); }
static int spec_primaries (void) { int n = 0; for (int i = 0; i < norder; i++) n += active (order[i]) && !(order[i]->type & PED_PARTITION_LOGICAL); return n; }
static int spec_lastnum (void) { int n = -1; for (int i = 0; i < norder; i++) if (order[i]->num > n) n = order[i]->num; return n; }
static PedPartition *spec_ext (void) { return ext >= 0 ? PP (ext) : 0; }
/* the successor in walk order */
static PedPartition *spec_next (const PedPartition *p)
{
  if (!p) return norder ? order[0] : 0;
  for (int i = 0; i + 1 < norder; i++) if (order[i] == p) return order[i + 1];
  return 0;
}
#ifdef VT_CBMC
#pragma CPROVER check pop
#endif
static int seq, ok_seq; /* order of the steps of entering/leaving update mode */
#include "vt_contracts.h"
int ct_enumerate (PedDisk *d) { return 1; }
int ct_alloc_ext (PedDisk *d) { return 1; }                       /* contract: touches only the list of logicals (unit alloc_ext) */
int ct_remove_free (PedDisk *d) { seq = seq * 10 + 1; ok_seq &= d->update_mode == 0; return 1; }
int ct_nofree (PedDisk *d) { return 1; }                          /* contract of _disk_remove_freespace on a list without free areas */
int ct_remove_meta (PedDisk *d) { seq = seq * 10 + 2; ok_seq &= d->update_mode >= 1; return 1; }
int ct_alloc_free (PedDisk *d) { seq = seq * 10 + 3; ok_seq &= d->update_mode == 0; return 1; }
int ct_alloc_meta (PedDisk *d) { seq = seq * 10 + 4; ok_seq &= d->update_mode >= 1; return 1; }
int ct_push (PedDisk *d) { vt_check (d->update_mode >= 1, "push: contract used in nested mode"); d->update_mode++; return 1; }
int ct_pop (PedDisk *d) { vt_check (d->update_mode >= 2, "pop: contract used in nested mode"); d->update_mode--; return 1; }
/* contract of ped_disk_delete_partition on a childless entry (P07): unlinked and destroyed */
int ct_delete (PedDisk *d, PedPartition *p)
{ vt_check (d->update_mode >= 1 && !p->part_list, "delete: contract precondition"); _disk_raw_remove (d, p); op_destroy (p); return 1; }
/* contract of ped_disk_extended_partition (unit walk) */
PedPartition *ct_ext (const PedDisk *d) { return spec_ext (); }
void h_alloc_ext (void) { mk_table (0); roles (0); vt_call (_alloc_extended_freespace) (&dk); vt_reach ("returns"); }
void h_alloc (void) { mk_table (0); roles (0); vt_call (_disk_alloc_freespace) (&dk); vt_reach ("returns"); }
void h_rm_free (void) { mk_table (0); roles (1); vt_call (_disk_remove_freespace) (&dk); vt_reach ("returns"); }
void h_rm_meta (void) { mk_table (1); roles (2); vt_call (_disk_remove_metadata) (&dk); vt_reach ("returns"); }
void h_mode (void)
{
  mk_table (1); seq = 0; ok_seq = 1;
  dk.update_mode = vt_range (0, 5);
  vt_call (_disk_push_update_mode) (&dk);
  seq = 0;
  vt_call (_disk_pop_update_mode) (&dk); vt_reach ("returns");
}
void h_walk (void)
{
  mk_table (1); roles (1); dk.update_mode = vt_bool ();
  PedPartition *p = 0;
  spec_order ();
  for (int i = 0; i <= norder; i++) p = vt_call (ped_disk_next_partition) (&dk, p);
  vt_check (p == 0, "the walk ends after the last entry");
  sect = vt_range (-1, SECMAX); number = vt_range (-1, NUMMAX + 1);
  vt_call (ped_disk_get_partition_by_sector) (&dk, sect);
  vt_call (ped_disk_get_partition) (&dk, number);
  vt_call (ped_disk_get_primary_partition_count) (&dk);
  vt_call (ped_disk_get_last_partition_num) (&dk);
  vt_call (ped_disk_extended_partition) (&dk);
  vt_reach ("returns");
}
