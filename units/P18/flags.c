#include <config.h>
#include <strings.h>
#ifdef VT_CBMC
# include <libintl.h>
# define strcasecmp v_strcasecmp
# undef dgettext
# define dgettext v_dgettext
static int nls;
/* a translation: some text that is nobody's name, or the original */
static char *v_dgettext (const char *dom, const char *m) { return nls ? (char *) "\x80" : (char *) m; }
int v_strcasecmp (const char *a, const char *b);
#endif
#include "libparted/disk.c"
#undef strcasecmp
#undef dgettext
#include "vt.h"
#define VT_NO_ENV_EXC
#include "env.h"
#define MAX 32
#ifndef VT_CBMC
static int nls;
#endif
static int throws; static const char *in;
static int up (unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int same (const char *a, const char *b)
{ for (int i = 0; i < MAX; i++) { if (up (a[i]) != up (b[i])) return 0; if (!a[i]) return 1; } return 0; }
#ifdef VT_CBMC
int v_strcasecmp (const char *a, const char *b)
{
  for (int i = 0; i < MAX; i++) { int x = up (a[i]), y = up (b[i]); if (x != y) return x - y; if (!x) return 0; }
  vt_check (0, "names are shorter than 32 characters"); return 1;
}
#endif
PedExceptionOption ped_exception_throw (PedExceptionType t, PedExceptionOption o, const char *m, ...) { throws++; return PED_EXCEPTION_CANCEL; }
static char buf[MAX];
static void name (void)
{
  for (int i = 0; i < MAX; i++) buf[i] = (char) vt_u8 ();
  buf[MAX - 1] = 0;
}
static void setup (void) { throws = 0; nls = vt_bool (); }
static int text (const char *s)
{ if (!s || !*s) return 0; for (int i = 0; i < MAX; i++) { if (!s[i]) return 1; if ((unsigned char) s[i] <= ' ' || (unsigned char) s[i] >= 127) return 0; } return 0; }
/* ---- partition flags: the members of the enumeration are 1 .. NO_AUTOMOUNT ---- */
#define NP 22
void h_flag (void)
{
  setup ();
  PedPartitionFlag f = (PedPartitionFlag) vt_range (1, NP), g = (PedPartitionFlag) vt_range (1, NP);
  const char *a = ped_partition_flag_get_name (f), *b = ped_partition_flag_get_name (g);
  vt_check (throws == 0 && text (a) && text (b), "every flag has a printable name");
  vt_check (f == g || !same (a, b), "no two flags share a name");
  vt_check (same (a, ped_partition_flag_get_name (f)), "the same name every time");
  vt_check (ped_partition_flag_get_by_name (a) == f, "the name leads back to the flag");
  vt_check (throws == 0, "nothing reported");
  vt_reach ();
}
void h_flag_name (void)
{
  setup (); name (); in = buf;
  int want = 0;
  for (int f = 1; f <= NP; f++) { const char *n = ped_partition_flag_get_name ((PedPartitionFlag) f); if (n && same (n, buf)) want = f; }
  vt_assume (up (buf[0]) != 0x80);
  vt_check (ped_partition_flag_get_by_name (buf) == (PedPartitionFlag) want, "a name finds its flag, anything else finds none");
  vt_reach ();
}
void h_flag_next (void)
{
  setup ();
  int seen[NP + 1] = { 0 }, n = 0; PedPartitionFlag f = (PedPartitionFlag) 0;
  for (int i = 0; i <= NP; i++)
    {
      f = ped_partition_flag_next (f);
      if (!f) break;
      vt_check (f >= 1 && f <= NP && !seen[f], "a flag not visited yet");
      seen[f] = 1; n++;
    }
  vt_check (f == 0 && n == NP, "every flag visited once, then the end");
  PedPartitionFlag u = (PedPartitionFlag) vt_range (NP + 1, 1 << 30);
  vt_check (ped_partition_flag_get_name (u) == 0 && throws == 1, "no name for what is not a flag");
  vt_reach ();
}
#define ND 2
void h_dflag (void)
{
  setup ();
  PedDiskFlag f = (PedDiskFlag) vt_range (1, ND), g = (PedDiskFlag) vt_range (1, ND);
  const char *a = ped_disk_flag_get_name (f), *b = ped_disk_flag_get_name (g);
  vt_check (throws == 0 && text (a) && text (b), "every flag has a printable name");
  vt_check (f == g || !same (a, b), "no two flags share a name");
  vt_check (ped_disk_flag_get_by_name (a) == f, "the name leads back to the flag");
  name ();
  vt_assume (up (buf[0]) != 0x80);
  int want = 0;
  for (int i = 1; i <= ND; i++) if (same (ped_disk_flag_get_name ((PedDiskFlag) i), buf)) want = i;
  vt_check (ped_disk_flag_get_by_name (buf) == (PedDiskFlag) want && throws == 0, "a name finds its flag, anything else finds none");
  int seen[ND + 1] = { 0 }, n = 0; PedDiskFlag d = (PedDiskFlag) 0;
  for (int i = 0; i <= ND; i++)
    {
      d = ped_disk_flag_next (d);
      if (!d) break;
      vt_check (d >= 1 && d <= ND && !seen[d], "a flag not visited yet");
      seen[d] = 1; n++;
    }
  vt_check (d == 0 && n == ND, "every flag visited once, then the end");
  vt_check (ped_disk_flag_get_name ((PedDiskFlag) vt_range (ND + 1, 1 << 30)) == 0 && throws == 1, "no name for what is not a flag");
  vt_reach ();
}
/* the printed partition type */
void h_type (void)
{
  setup ();
  int t = (int) vt_range (0, 31);
  const char *n = ped_partition_type_get_name ((PedPartitionType) t);
  const char *w = t & PED_PARTITION_METADATA ? "metadata" : t & PED_PARTITION_FREESPACE ? "free" : t & PED_PARTITION_EXTENDED ? "extended" : t & PED_PARTITION_LOGICAL ? "logical" : "primary";
  vt_check (same (n, w), "the name of the partition's kind");
  vt_reach ();
}
