/* the limits of one label type: LABEL_FILE is the real libparted/labels/X.c, linked with the real pt-tools.c */
#include LABEL_FILE
#include "vt.h"
#define VT_NO_ENV_EXC
#include "env.h"
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
static int throws;
PedExceptionOption ped_exception_throw (PedExceptionType t, PedExceptionOption o, const char *m, ...)
{ throws++; vt_check (o == PED_EXCEPTION_CANCEL, "a limit cannot be ignored"); return vt_bool () ? PED_EXCEPTION_CANCEL : PED_EXCEPTION_UNHANDLED; }
int ped_device_write (PedDevice *d, const void *b, PedSector s, PedSector n) { vt_unreachable ("a limit check writes nothing"); return 0; }
int ped_device_read (const PedDevice *d, void *b, PedSector s, PedSector n) { vt_unreachable ("a limit check reads nothing"); return 0; }
/* what the format can record; -1 is "no limit" */
#define M32 0xffffffffULL
static const unsigned long long MAXSTART = MS, MAXLEN = ML;
static PedDevice dev; static PedDisk disk; static PedPartition p;
void h_check (void)
{
  disk.dev = &dev; p.disk = &disk; p.geom.dev = &dev; throws = 0;
  p.geom.start = (PedSector) vt_in (); p.geom.end = (PedSector) vt_in (); p.geom.length = (PedSector) vt_in ();
  p.type = (PedPartitionType) vt_range (0, 2); p.num = (int) vt_range (-1, 100);
  vt_assume (p.geom.start >= 0 && p.geom.length >= 0 && p.geom.length <= 1LL << 62);
  int r = CAT (LABEL, _disk_ops).partition_check (&p);
  int ok = (unsigned long long) p.geom.start <= MAXSTART && (unsigned long long) p.geom.length <= MAXLEN;
  vt_check (!r == !ok, "a partition is accepted exactly when the format can record its start and length");
  vt_check (throws == !ok, "a refusal is reported");
  vt_check (CAT (LABEL, _disk_ops).max_length () == (PedSector) MAXLEN, "the reported maximum length is the limit");
  vt_check (CAT (LABEL, _disk_ops).max_start_sector () == (PedSector) MAXSTART, "the reported maximum start is the limit");
  vt_reach ("checked");
  if (ok) vt_reach ("accepted");
#if MS != ~0ULL
  if (!ok && p.geom.length == 1) vt_reach ("start refused");
  if (!ok && p.geom.start == 0) vt_reach ("length refused");
#endif
}
