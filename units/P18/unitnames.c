#include <config.h>
#include <strings.h>
#ifdef VT_CBMC
# include <libintl.h>
# define strcasecmp v_strcasecmp
int v_strcasecmp (const char *a, const char *b);
#endif
#include "libparted/unit.c"
#undef strcasecmp
#include "vt.h"
#include "env.h"
#define MAX 16
static int up (unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int same (const char *a, const char *b)
{ for (int i = 0; i < MAX; i++) { if (up (a[i]) != up (b[i])) return 0; if (!a[i]) return 1; } return 0; }
#ifdef VT_CBMC
int v_strcasecmp (const char *a, const char *b)
{
  for (int i = 0; i < MAX; i++) { int x = up (a[i]), y = up (b[i]); if (x != y) return x - y; if (!x) return 0; }
  vt_check (0, "names are shorter than 16 characters"); return 1;
}
#endif
static int text (const char *s)
{ if (!s || !*s) return 0; for (int i = 0; i < MAX; i++) { if (!s[i]) return 1; if ((unsigned char) s[i] <= ' ' || (unsigned char) s[i] >= 127) return 0; } return 0; }
/* the documented name of each unit */
static const struct { PedUnit u; const char *n; } doc[] = {
  { PED_UNIT_SECTOR, "s" }, { PED_UNIT_BYTE, "B" }, { PED_UNIT_KILOBYTE, "kB" }, { PED_UNIT_MEGABYTE, "MB" }, { PED_UNIT_GIGABYTE, "GB" }, { PED_UNIT_TERABYTE, "TB" },
  { PED_UNIT_COMPACT, "compact" }, { PED_UNIT_CYLINDER, "cyl" }, { PED_UNIT_CHS, "chs" }, { PED_UNIT_PERCENT, "%" },
  { PED_UNIT_KIBIBYTE, "kiB" }, { PED_UNIT_MEBIBYTE, "MiB" }, { PED_UNIT_GIBIBYTE, "GiB" }, { PED_UNIT_TEBIBYTE, "TiB" } };
#define NU ((int) (sizeof doc / sizeof doc[0]))
void h_unit (void)
{
  int i = (int) vt_range (0, NU - 1), j = (int) vt_range (0, NU - 1);
  vt_check (PED_UNIT_LAST - PED_UNIT_FIRST + 1 == NU && PED_UNIT_FIRST == 0, "all units");
  const char *a = ped_unit_get_name (doc[i].u), *b = ped_unit_get_name (doc[j].u);
  vt_check (text (a) && same (a, doc[i].n), "the documented name");
  vt_check (i == j || !same (a, b), "no two units share a name");
  vt_check (ped_unit_get_by_name (a) == doc[i].u, "the name leads back to the unit");
  vt_reach ();
}
void h_unit_name (void)
{
  static char buf[MAX];
  for (int i = 0; i < MAX; i++) buf[i] = (char) vt_u8 ();
  buf[MAX - 1] = 0;
  int want = -1;
  for (int i = 0; i < NU; i++) if (same (doc[i].n, buf)) want = doc[i].u;
  vt_check ((int) ped_unit_get_by_name (buf) == want, "a name finds its unit, anything else finds none");
  vt_reach ();
}
