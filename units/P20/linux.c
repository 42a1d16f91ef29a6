#include <config.h>
#include <sys/types.h>
#include <unistd.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#ifdef VT_CBMC
/* the operating system and the C library, replaced by their contracts */
ssize_t v_read (int fd, void *b, size_t n);
ssize_t v_write (int fd, const void *b, size_t n);
off_t v_lseek (int fd, off_t o, int w);
int v_posix_memalign (void **p, size_t a, size_t n);
void *v_memcpy (void *d, const void *s, size_t n);
void v_free (void *p);
int v_fsync (int fd);
int v_ioctl (int fd, unsigned long rq, void *p);
# define read(a, b, c) v_read (a, b, c)
# define write(a, b, c) v_write (a, b, c)
# define pread(a, b, c, d) (v_lseek (a, d, SEEK_SET), v_read (a, b, c))
# define lseek(a, b, c) v_lseek (a, b, c)
# define posix_memalign(a, b, c) v_posix_memalign (a, b, c)
# define memcpy(a, b, c) v_memcpy (a, b, c)
# define free(a) v_free (a)
# define fsync(a) v_fsync (a)
# define strerror(a) ((char *) "error")
# define V1(a, b, c, ...) c
# define ioctl(a, ...) v_ioctl (a, V1 (a, __VA_ARGS__, 0), V2 (__VA_ARGS__, 0))
# define V2(a, b, ...) ((void *) (b))
# undef V1
# define V1(a, b, ...) b
#endif
#include <parted/parted.h>
/* dfcc appends a parameter to every function, which a variadic one would not see */
PedExceptionOption v_throw (PedExceptionType t, PedExceptionOption o);
#define ped_exception_throw(t, o, ...) v_throw (t, o)
#include "libparted/arch/linux.c"
#undef ped_exception_throw
#undef read
#undef write
#undef pread
#undef lseek
#undef posix_memalign
#undef memcpy
#undef free
#undef fsync
#undef strerror
#undef ioctl
#include "vt.h"
#define VT_NO_ENV_EXC
#include "env.h"
#ifndef FALLBACK
# define MAXOPS 0x7fffffffu
#endif
static PedDevice dev; static LinuxSpecific spec;
/* ghost state.  The user's buffer U has T bytes; file byte P0 + k belongs to U[k].
   A read puts bytes [dpos, dpos + dlen) of the file at offset doff of the staging buffer D; copying moves them on.
   got: U[0 .. got) holds the right bytes.  done: bytes [P0, P0 + done) of the file were written with the right bytes. */
static char *U, *D; static size_t T, Dsize; static long long P0, fpos; static long long dpos; static size_t dlen, got, done;
static int dlive, ignored, wrote, synced, flushed, throws, wrong, lasterr, rw;
static int fdv;
#ifdef VT_CBMC
off_t v_lseek (int fd, off_t o, int w)
{
  vt_check (fd == fdv && w == SEEK_SET, "the device's file, absolute position");
  if (vt_bool ()) return -1;
  fpos = o;
  return o;
}
int v_posix_memalign (void **p, size_t a, size_t n)
{
  vt_check (!dlive && a >= sizeof (void *) && (a & (a - 1)) == 0, "one staging buffer, a proper alignment");
  if (vt_bool ()) return ENOMEM;
  D = malloc (n); Dsize = n; dlive = 1; dlen = 0; *p = D;
  return 0;
}
void v_free (void *p) { vt_check (dlive && (char *) p == D, "the staging buffer is released once"); dlive = 0; }
void *v_memcpy (void *d, const void *s, size_t n)
{
  if (!rw)
    {
      vt_check (dlive && __CPROVER_same_object (d, U) && __CPROVER_same_object (s, D), "from the staging buffer to the user's");
      size_t o = (size_t) __CPROVER_POINTER_OFFSET (d), q = (size_t) __CPROVER_POINTER_OFFSET (s);
      vt_check (o <= T && n <= T - o, "inside the user's buffer");
      vt_check (q <= dlen && n <= dlen - q, "only bytes that were read");
      vt_check (dpos + (long long) q == P0 + (long long) o, "every byte goes to its own place");
      if (o == got) got += n; else if (o > got) wrong = 1;
    }
  else
    {
      vt_check (dlive && __CPROVER_same_object (d, D) && __CPROVER_same_object (s, U), "from the user's buffer to the staging buffer");
      size_t o = (size_t) __CPROVER_POINTER_OFFSET (d), q = (size_t) __CPROVER_POINTER_OFFSET (s);
      vt_check (o <= Dsize && n <= Dsize - o && q <= T && n <= T - q, "inside both buffers");
      vt_check (o == 0, "one block"); dpos = P0 + (long long) q; dlen = n;
    }
  return d;
}
ssize_t v_read (int fd, void *b, size_t n)
{
  vt_check (fd == fdv && !rw, "reads the device's file");
  vt_check (dlive && __CPROVER_same_object (b, D), "into the staging buffer");
  size_t o = (size_t) __CPROVER_POINTER_OFFSET (b);
  vt_check (o == 0 && n <= Dsize, "inside the staging buffer");
  ssize_t r = (ssize_t) vt_in ();
  vt_assume (r >= -1 && (r < 0 || (size_t) r <= n));
  if (r > 0) { dpos = fpos; dlen = (size_t) r; fpos += r; }
  lasterr = r < 0;
  return r;
}
ssize_t v_write (int fd, const void *b, size_t n)
{
  vt_check (fd == fdv && rw && !dev.read_only, "writes the device's file, which is not read-only");
  vt_check (dlive && __CPROVER_same_object (b, D), "from the staging buffer");
  size_t o = (size_t) __CPROVER_POINTER_OFFSET (b);
  vt_check (o <= dlen && n <= dlen - o, "only bytes of the user's");
  vt_check (fpos == dpos + (long long) o, "every byte goes to its own place");
  vt_check (fpos >= P0 && fpos + (long long) n <= P0 + (long long) T, "only the sectors asked for");
  ssize_t r = (ssize_t) vt_in ();
  vt_assume (r >= -1 && (r < 0 || (size_t) r <= n));
  wrote = 1;
  if (r > 0) { if (fpos == P0 + (long long) done) done += r; fpos += r; }
  lasterr = r < 0;
  return r;
}
int v_fsync (int fd) { vt_check (fd == fdv && !dev.read_only, "syncs the device's file"); if (vt_bool ()) return -1; synced = 1; return 0; }
int v_ioctl (int fd, unsigned long rq, void *p)
{
  struct blkdev_ioctl_param *q = p;
  vt_check (fd == fdv && rq == (rw ? BLKSETLASTSECT : BLKGETLASTSECT), "the last odd sector");
  vt_check (q->content_length == (size_t) dev.sector_size && __CPROVER_same_object (q->block_contents, U)
            && (size_t) __CPROVER_POINTER_OFFSET (q->block_contents) == T - dev.sector_size, "the last sector's part of the buffer");
  vt_check (!rw || !dev.read_only, "a read-only device is not written");
  if (vt_bool ()) return -1;
  if (rw) { if (done == T - dev.sector_size) done = T; } else if (got == T - dev.sector_size) got = T;
  return 0;
}
#endif
PedExceptionOption v_throw (PedExceptionType t, PedExceptionOption o)
{
  int a = (int) vt_range (0, 3);
  if (throws < 9) throws++;
  if (a == 0) return PED_EXCEPTION_UNHANDLED;
  if (a == 1 && (o & PED_EXCEPTION_IGNORE)) { ignored = 1; return PED_EXCEPTION_IGNORE; }
  if (a == 2 && (o & PED_EXCEPTION_RETRY)) return PED_EXCEPTION_RETRY;
  return o & PED_EXCEPTION_CANCEL ? PED_EXCEPTION_CANCEL : PED_EXCEPTION_UNHANDLED;
}
void ped_exception_catch (void) { }
static int kver; int ct_version (void) { return kver; }
void ct_flush (PedDevice *d) { flushed = 1; }
/* the sectors before the last odd one (old kernels) */
int ct_dev_read (const PedDevice *d, void *b, PedSector s, PedSector c)
{ vt_check (d == &dev && b == (void *) U && s * dev.sector_size == P0 && (size_t) (c * dev.sector_size) == T - dev.sector_size, "all sectors but the last"); if (vt_bool ()) return 0; got = T - dev.sector_size; return 1; }
int ct_dev_write (PedDevice *d, const void *b, PedSector s, PedSector c)
{ vt_check (!dev.read_only && d == &dev && b == (const void *) U && s * dev.sector_size == P0 && (size_t) (c * dev.sector_size) == T - dev.sector_size, "all sectors but the last"); if (vt_bool ()) return 0; done = T - dev.sector_size; return 1; }
int ct_last_read (const PedDevice *d, void *b)
{
  vt_check (d == &dev && b == (void *) (U + (T - dev.sector_size)), "the last sector's part of the buffer");
  int a = (int) vt_range (0, 2);
  if (a == 0) return 0;
  if (a == 1) ignored = 1; else if (got == T - dev.sector_size) got = T;
  return 1;
}
int ct_last_write (PedDevice *d, const void *b)
{
  vt_check (!dev.read_only && d == &dev && b == (const void *) (U + (T - dev.sector_size)), "the last sector's part of the buffer");
  int a = (int) vt_range (0, 2);
  if (a == 0) return 0;
  if (a == 1) ignored = 1; else if (done == T - dev.sector_size) done = T;
  return 1;
}
static PedSector start, count;
static void setup (int w)
{
  memset (&dev, 0, sizeof dev); dev.arch_specific = &spec; dev.path = (char *) "d";
  fdv = (int) vt_range (0, 1000); spec.fd = fdv; rw = w;
  dev.type = vt_bool () ? PED_DEVICE_FILE : PED_DEVICE_SCSI; dev.read_only = vt_bool ();
  int k = (int) vt_range (0, 3); dev.sector_size = 512ll << k; dev.phys_sector_size = dev.sector_size;
  dev.length = (PedSector) vt_range (1, 1ll << 50);
  count = (PedSector) vt_range (0, 1 << 30); start = (PedSector) vt_range (0, 1ll << 50);
  vt_assume (start + count <= dev.length);
  T = (size_t) (count << (9 + k)); P0 = start << (9 + k);
  U = malloc (T); vt_assume (U != 0);
  kver = vt_bool () ? KERNEL_VERSION (2, 4, 20) : KERNEL_VERSION (6, 1, 0);
  vt_assume (count >= 1 || kver > KERNEL_VERSION (2, 6, 0));
  D = 0; Dsize = 0; fpos = vt_range (0, 1ll << 60); dpos = 0; dlen = got = done = 0; dlive = ignored = wrote = synced = flushed = throws = wrong = lasterr = 0;
}
void h_read (void)
{
  setup (0);
  int r = linux_read (&dev, U, start, count);
  vt_check (!r || ignored || (got == T && !wrong), "success means every byte is in its place, unless the user ignored an error");
  vt_check (!wrote && !dlive, "nothing written, nothing leaked");
  if (r && !ignored) vt_reach ("success"); if (!r) vt_reach ("failure");
}
void h_write (void)
{
  setup (1);
  int r = linux_write (&dev, U, start, count);
  vt_check (!r || ignored || done == T, "success means every byte was written, unless the user ignored an error");
  vt_check (!dlive, "nothing leaked");
  vt_check (!dev.read_only || (!wrote && throws == 1 && (r == 0 || ignored)), "a read-only device is refused");
  vt_check (!wrote || dev.dirty, "the device needs a flush");
  if (r && !ignored) vt_reach ("success"); if (!r) vt_reach ("failure");
}
void h_check (void)
{
  setup (0);
  PedSector r = linux_check (&dev, U, start, count);
  vt_check (r >= 0 && r <= count && (size_t) (r * dev.sector_size) <= got && !wrong, "the sectors reported good were read, in order");
  vt_check (!wrote && !dlive, "nothing written, nothing leaked");
  if (r == count && r > 0) vt_reach ("all"); if (r < count) vt_reach ("bad");
}
void h_sync (void)
{
  setup (1);
  int fast = vt_bool (), r = fast ? linux_sync_fast (&dev) : linux_sync (&dev);
  vt_check (!r || dev.read_only || synced || ignored, "success means the data is on the disk");
  vt_check (!r || dev.read_only || fast || flushed, "and the caches were flushed");
  if (r) vt_reach ("success"); else vt_reach ("failure");
}
void h_seek (void)
{
  setup (0);
  int r = _device_seek (&dev, start);
  vt_check (!r || fpos == P0, "the position of the sector");
  vt_reach ("seek");
}
void h_last (void)
{
  int w = vt_bool ();
  setup (w); vt_assume (count >= 1 && !dev.read_only);
  got = done = T - dev.sector_size;
  int r = w ? _write_lastoddsector (&dev, U + got) : _read_lastoddsector (&dev, U + got);
  vt_check (!r || ignored || (w ? done : got) == T, "success means the last sector was transferred, unless the user ignored an error");
  if (r) vt_reach ("success"); else vt_reach ("failure");
}
