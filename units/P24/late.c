/* Linked after the recursive calls of read_table have been replaced by its contract. */
#include <config.h>
#include <parted/parted.h>
extern int (*vt_late_fp) (PedDisk *, PedSector, int);
int vt_late_call (PedDisk *d, PedSector s, int e) { return vt_late_fp (d, s, e); }
