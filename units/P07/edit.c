#include <config.h>
#include <parted/parted.h>
#define VT_EXC_UNHANDLED
#include "env.h"
#include "spec_geom.h"
#include "libparted/disk.c"
#include "spec_disk.h"
const PedArchitecture *ped_architecture;
static PedPartition nw; static PedConstraint *con;
#include "vt_contracts.h"
#ifdef VT_CBMC
/* contracts of the update-mode functions for nested use (proved in units push/pop) */
int ct_push (PedDisk *d) { vt_check (d->update_mode >= 1, "push: contract used in nested mode"); d->update_mode++; return 1; }
int ct_pop (PedDisk *d) { vt_check (d->update_mode >= 2, "pop: contract used in nested mode"); vt_check (table_ok (), "pop requires a consistent table"); d->update_mode--; return 1; }
int ct_enumerate (PedDisk *d) { return 1; }
#endif
static void done (int r) { vt_reach ("returns"); }
#ifdef NEWTYPE
void h_add (void)
{
  mk_table (1);
  PedPartitionType t = NEWTYPE;
  mk_part (&nw, t, 0, SECMAX); nw.num = -1;
  con = mk_constraint ();
#ifdef READING
  dk.needs_clobber = 2; con = ped_constraint_exact (&nw.geom);   /* as every label reader does */
#endif
  done (vt_call (ped_disk_add_partition) (&dk, &nw, con));
}
#endif
#ifdef PICK
void h_remove (void) { mk_table (1); PedPartition *p = pick (); vt_assume (!p->part_list); done (vt_call (ped_disk_remove_partition) (&dk, p)); }
void h_set_geom (void)
{
  mk_table (1); con = mk_constraint (); PedPartition *p = pick ();
  done (vt_call (ped_disk_set_partition_geom) (&dk, p, con, vt_range (-4, SECMAX), vt_range (-4, SECMAX)));
}
void h_maximize (void) { mk_table (1); con = mk_constraint (); PedPartition *p = pick (); done (vt_call (ped_disk_maximize_partition) (&dk, p, con)); }
#endif
void h_minimize (void) { mk_table (1); done (vt_call (ped_disk_minimize_extended_partition) (&dk)); }
#ifdef PICK
void h_delete (void) { mk_table (1); PedPartition *p = pick (); done (vt_call (ped_disk_delete_partition) (&dk, p)); }
#endif
void h_delete_all (void) { mk_table (1); vt_call (ped_disk_delete_all) (&dk); vt_reach ("success"); }
