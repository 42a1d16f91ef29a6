/* Linked after the recursive calls of write_ext_table have been replaced by its contract. */
#include <config.h>
#include <parted/parted.h>
extern int (*vt_late_fp) (const PedDisk *, PedSector, const PedPartition *);
int vt_late_call (const PedDisk *d, PedSector s, const PedPartition *p) { return vt_late_fp (d, s, p); }
