#include <config.h>
#ifdef VT_CBMC
# define __NO_CTYPE 1
# define sscanf v_sscanf
# define snprintf v_snprintf
#endif
#include <stdio.h>
#include <stdarg.h>
#ifdef VT_CBMC
int v_sscanf (const char *b, const char *f, ...);
int v_snprintf (char *b, size_t n, const char *f, ...);
#endif
#include "libparted/unit.c"
#undef sscanf
#undef snprintf
#include "vt.h"
#define VT_NO_ENV_EXC
#include "env.h"
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "conversion"
#endif
#ifndef N
# define N 7
#endif
static PedDevice dev; static int throws, scans, geos; static PedGeometry G;
static double num; static int nread, ci, hi, si; static long long fmt[3]; static int nfmt; static const char *fname;
PedExceptionOption ped_exception_throw (PedExceptionType t, PedExceptionOption o, const char *m, ...)
{ throws++; vt_check (o == PED_EXCEPTION_CANCEL, "cannot be ignored"); return PED_EXCEPTION_CANCEL; }
PedGeometry *ped_geometry_new (const PedDevice *d, PedSector s, PedSector l)
{
  geos++;
  vt_check (d == &dev && s >= 0 && l >= 1 && s + l - 1 < dev.length, "a range on the device");
  if (vt_bool ()) return 0;
  G.dev = (PedDevice *) d; G.start = s; G.length = l; G.end = s + l - 1;
  return &G;
}
static void setup (void)
{
  throws = scans = geos = nfmt = 0; 
  dev.path = "d"; dev.length = vt_range (1, 1LL << 50); dev.sector_size = vt_range (1, 8) * 512;
  dev.bios_geom.heads = (int) vt_range (1, 255); dev.bios_geom.sectors = (int) vt_range (1, 63); dev.bios_geom.cylinders = (int) vt_range (0, 1 << 30);
}
/* the size of every unit is what its name says */
void h_size (void)
{
  setup ();
  int u = (int) vt_range (PED_UNIT_FIRST, PED_UNIT_LAST);
  static const long long k = 1000, m = 1000000, g = 1000000000LL, t = 1000000000000LL;
  long long ss = dev.sector_size, w = 0;
  switch (u) {
  case PED_UNIT_SECTOR: case PED_UNIT_CHS: w = ss; break;
  case PED_UNIT_BYTE: w = 1; break;
  case PED_UNIT_KILOBYTE: w = k; break; case PED_UNIT_MEGABYTE: w = m; break; case PED_UNIT_GIGABYTE: w = g; break; case PED_UNIT_TERABYTE: w = t; break;
  case PED_UNIT_KIBIBYTE: w = 1LL << 10; break; case PED_UNIT_MEBIBYTE: w = 1LL << 20; break; case PED_UNIT_GIBIBYTE: w = 1LL << 30; break; case PED_UNIT_TEBIBYTE: w = 1LL << 40; break;
  case PED_UNIT_CYLINDER: w = (long long) dev.bios_geom.heads * dev.bios_geom.sectors * ss; break;
  case PED_UNIT_PERCENT: w = dev.length * ss / 100; break;
  }
  long long r = ped_unit_get_size (&dev, u);
  vt_check (r == w, "the size its name says");
  vt_check (throws == (u == PED_UNIT_COMPACT), "only the automatic unit has no size");
  ped_unit_set_default (u); vt_check ((int) ped_unit_get_default () == u, "the default unit that was set");
  vt_reach ("size");
}
/* suffix letters */
void h_suffix (void)
{
  char s[4]; for (int i = 0; i < 3; i++) s[i] = (char) vt_u8 (); s[3] = 0;
  int u = (int) vt_range (PED_UNIT_FIRST, PED_UNIT_LAST), d = (int) vt_range (PED_UNIT_FIRST, PED_UNIT_LAST);
  default_unit = d;
  int dflt = u != PED_UNIT_COMPACT ? u : d != PED_UNIT_COMPACT ? d : PED_UNIT_MEGABYTE, w = dflt;
  char a = s[0] >= 'A' && s[0] <= 'Z' ? s[0] + 32 : s[0], b = s[1] >= 'A' && s[1] <= 'Z' ? s[1] + 32 : s[1];
  if (a && b == 'i') w = a == 'k' ? PED_UNIT_KIBIBYTE : a == 'm' ? PED_UNIT_MEBIBYTE : a == 'g' ? PED_UNIT_GIBIBYTE : a == 't' ? PED_UNIT_TEBIBYTE : dflt;
  else w = a == 's' ? PED_UNIT_SECTOR : a == 'b' ? PED_UNIT_BYTE : a == 'k' ? PED_UNIT_KILOBYTE : a == 'm' ? PED_UNIT_MEGABYTE : a == 'g' ? PED_UNIT_GIGABYTE : a == 't' ? PED_UNIT_TERABYTE
    : a == 'c' ? PED_UNIT_CYLINDER : a == '%' ? PED_UNIT_PERCENT : dflt;
  int r = parse_unit_suffix (s, u);
  vt_check (r == w, "the unit the suffix names, else the suggested one, else the default, else megabytes");
  vt_check (r != PED_UNIT_COMPACT, "never the automatic unit");
  if (w != dflt) vt_reach ("named"); else vt_reach ("default");
}
static int sp (char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dg (char c) { return c >= '0' && c <= '9'; }
static int pu (char c) { return (c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126); }
/* the text helpers, on every string of up to N characters of ASCII */
void h_text (void)
{
  char s[N + 1], t[N + 1], c[N + 1]; int n = 0, m = 0, p = 0;
  for (int i = 0; i < N; i++) { s[i] = (char) (vt_u8 () & 127); c[i] = s[i]; }
  s[N] = c[N] = 0;
  while (s[n]) n++;
  for (int i = 0; i < N; i++) t[i] = 0;
  for (int i = 0; i < n; i++) { if (!sp (s[i])) t[m++] = s[i]; p += pu (s[i]); }
  t[m] = 0;
  vt_check (!is_chs (s) == (p != 2), "a location with two punctuation characters is a CHS one");
  int f = 0; while (f < n && (dg (s[f]) || s[f] == ',' || s[f] == '.' || s[f] == '-')) f++;
  vt_check (find_suffix (s) == s + f, "the suffix begins after the number");
  strip_string (s);
  for (int i = 0; i <= m; i++) vt_check (s[i] == t[i], "every space and nothing else is removed");
  if (m < n - 1) vt_reach ("spaces"); if (p == 2) vt_reach ("chs"); if (f > 1 && f < n) vt_reach ("suffix");
}
void h_punct (void)
{
  char s[N + 1], c[N + 1]; 
  for (int i = 0; i < N; i++) { s[i] = (char) (vt_u8 () & 127); c[i] = s[i]; }
  s[N] = c[N] = 0;
  remove_punct (s);
  int e = 0;
  for (int i = 0; i <= N; i++) { if (!c[i]) e = 1; vt_check (s[i] == (!e && pu (c[i]) ? ' ' : c[i]), "punctuation becomes spaces"); }
  vt_reach ("done");
}
/* a range around a sector */
void h_radius (void)
{
  setup ();
  PedSector s = vt_range (-(1LL << 61) * 2 + 1, 1LL << 62), r = vt_range (0, 1LL << 50);
  vt_assume (s >= -(1LL << 62));
  PedGeometry *g = geometry_from_centre_radius (&dev, s, r);
  int out = s + r < 0 || s - r > dev.length - 1;
  vt_check (!out || (!g && !geos), "nothing when no sector of the range lies on the device");
  vt_check (out || geos == 1, "else a range");
  vt_check (!g || (G.start == (s - r < 0 ? 0 : s - r) && G.end == (s + r > dev.length - 1 ? dev.length - 1 : s + r)), "exactly the part of the range that lies on the device");
  PedSector c = clip (&dev, s);
  vt_check (c == (s < 0 ? 0 : s >= dev.length ? dev.length - 1 : s), "clipped to the device");
  if (g && s < 0) vt_reach ("before"); if (out) vt_reach ("outside"); if (g && s >= dev.length) vt_reach ("behind");
}
#ifdef VT_CBMC
int v_sscanf (const char *b, const char *f, ...)
{
  va_list a; va_start (a, f); scans++;
  if (f[1] == 'l') { *va_arg (a, double *) = num; }
  else { int *c = va_arg (a, int *), *h = va_arg (a, int *), *s = va_arg (a, int *); if (nread >= 1) *c = ci; if (nread >= 2) *h = hi; if (nread >= 3) *s = si; }
  va_end (a);
  return nread;
}
int v_snprintf (char *b, size_t n, const char *f, ...)
{
  va_list a; va_start (a, f); nfmt++;
  vt_check (n == 100, "fits the buffer"); b[0] = 'x'; b[1] = 0;
  if (f[0] == '%' && f[1] == 'l' && f[4] == 's' - 's' + '%' ) { fmt[0] = va_arg (a, long long); fname = va_arg (a, const char *); }
  else if (f[0] == '%' && f[1] == 'l') { fmt[0] = va_arg (a, long long); fmt[1] = va_arg (a, long long); fmt[2] = va_arg (a, long long); }
  else { num = va_arg (a, double); nread = va_arg (a, int); fname = va_arg (a, const char *); }
  va_end (a);
  return 1;
}
#endif
/* cylinder, head, sector */
void h_chs (void)
{
  setup ();
  nread = (int) vt_range (-1, 3); ci = (int) vt_range (INT32_MIN, INT32_MAX); hi = (int) vt_range (INT32_MIN, INT32_MAX); si = (int) vt_range (INT32_MIN, INT32_MAX);
  PedSector sec = 77; PedGeometry *g = (PedGeometry *) &dev; int wr = vt_bool ();
  int r = parse_chs ("1,2,3", &dev, &sec, wr ? &g : 0);
  int ok = nread == 3 && ci >= 0 && hi >= 0 && si >= 0 && hi < dev.bios_geom.heads && si < dev.bios_geom.sectors;
  PedSector w = ok ? (PedSector) ci * (dev.bios_geom.heads * dev.bios_geom.sectors) + hi * dev.bios_geom.sectors + si : 0;
  ok = ok && w < dev.length;
  vt_check (!r || ok, "what is not on the device is refused");
  vt_check (!ok || r || (wr && geos == 1), "what is on the device is accepted");
  vt_check (r ? sec == w : sec == 0 || (ok && wr), "the sector with that address");
  vt_check (!wr || (r ? g == &G && G.start == w && G.length == 1 : g == 0), "the range is that sector");
  vt_check (throws == !ok, "a refusal is reported");
  if (r) vt_reach ("accepted"); if (!ok && nread == 3) vt_reach ("refused"); if (nread < 3) vt_reach ("syntax");
}
/* ---- a location with a unit ---- */
static int chs_v, chs_calls, unit_v, usize_calls; static long long usize; static PedSector rad; static PedSector ctr; static int crok, crn;
int ct_is_chs (const char *s) { return chs_v; }
int ct_parse_chs (const char *s, const PedDevice *d, PedSector *sec, PedGeometry **r) { chs_calls++; *sec = 5; return vt_bool (); }
void ct_strip (char *s) { }
static char *cp;
char *ct_find (const char *s) { cp = (char *) s + 1; return cp; }
PedUnit ct_suffix (const char *s, PedUnit u) { vt_check (s == cp && *s, "the suffix of the text"); return unit_v; }
long long ct_size (const PedDevice *d, PedUnit u) { usize_calls++; vt_check (d == &dev && (int) u == unit_v, "the size of the unit named"); return usize; }
PedGeometry *ct_radius (const PedDevice *d, PedSector s, PedSector r)
{
  crn++; ctr = s; rad = r;
  vt_check (d == &dev && s > -(1LL << 62) - 1 && s < (1LL << 62) + (1LL << 53) && r >= 0, "a position the arithmetic can hold");
  crok = vt_bool ();
  return crok ? &G : 0;
}
void h_parse (void)
{
  setup (); chs_calls = usize_calls = crn = 0; crok = 0;
  chs_v = vt_bool (); unit_v = (int) vt_range (PED_UNIT_FIRST, PED_UNIT_LAST); vt_assume (unit_v != PED_UNIT_COMPACT);
  usize = unit_v == PED_UNIT_PERCENT ? vt_range (0, 1LL << 55) : vt_range (1, 1LL << 45);
  union { uint64_t u; double d; } x; x.u = vt_in (); num = x.d; vt_assume (num == num);
  nread = vt_bool (); int neg = vt_bool (); vt_assume (neg ? num <= 0 : num >= 0);
  vt_oom = vt_bool ();
  PedSector sec = 77; PedGeometry *g = (PedGeometry *) &dev; int wr = vt_bool ();
  int r = ped_unit_parse_custom (neg ? "-1s" : "1s", &dev, 0, &sec, wr ? &g : 0);
  if (chs_v) { vt_check (chs_calls == 1 && !scans && !throws, "a CHS location"); return; }
  vt_check (!chs_calls, "not a CHS location");
  if (!scans) { vt_check (!r && sec == 0 && (!wr || !g), "no memory"); return; }
  double pos = num * usize / dev.sector_size;
  int frac = num > 0 && num < 1, huge = !(pos > -0x1p62 && pos < 0x1p62);
  long long S = 0;
  if (nread == 1 && !frac && !huge) { S = pos; if (neg) S += dev.length; }
  vt_check (nread == 1 || (!r && throws == 1), "what is no number is refused");
  vt_check (!frac || !r, "fractions of a unit are refused");
  vt_check (!(r && huge), "a value too large for any device is refused");
  int good = nread == 1 && !frac && !huge;
  vt_check (!good || crn == wr, "asks for a range when one is wanted");
  vt_check (!good || r == (!wr || crok), "accepted exactly when the range lies on the device");
  vt_check (!(good && wr) || ctr == S, "the sector that holds the position; negative numbers count from the end");
  int iec = unit_v == PED_UNIT_KIBIBYTE || unit_v == PED_UNIT_MEBIBYTE || unit_v == PED_UNIT_GIBIBYTE || unit_v == PED_UNIT_TEBIBYTE;
  vt_check (!crn || !iec || rad == 0, "binary units name one sector");
  vt_check (!r || sec == (S < 0 ? 0 : S >= dev.length ? dev.length - 1 : S), "the sector, on the device");
  vt_check (r || (sec == 0 && (!wr || !g)), "nothing is returned on failure");
  vt_check (!(r && wr) || g == &G, "and its range");
  vt_check (throws == !r, "a refusal is reported");
  if (r && neg) vt_reach ("from the end"); if (r && wr) vt_reach ("range"); if (!r && huge && nread) vt_reach ("too large"); if (!r && frac) vt_reach ("fraction");
}
/* the radius of other units is half a unit */
void h_unit_radius (void)
{
  setup (); chs_v = 0; crn = usize_calls = 0; unit_v = vt_bool () ? PED_UNIT_MEGABYTE : PED_UNIT_CYLINDER; usize = vt_range (1, 1LL << 45); num = 0; nread = 1; vt_oom = 0;
  dev.sector_size = 512;
  PedSector sec; PedGeometry *g;
  ped_unit_parse_custom ("0s", &dev, 0, &sec, &g);
  PedSector w = (usize + 511) / 512 / 2 - 1;
  vt_check (crn == 1 && rad == (w < 0 ? 0 : w), "half a unit to either side");
  vt_reach ("radius");
}
/* printing */
void h_format (void)
{
  setup (); vt_oom = 1; nread = -1; fname = 0;
  dev.sector_size = 512; dev.bios_geom.heads = 255; dev.bios_geom.sectors = 63;
  PedSector s = vt_range (0, 1LL << 17); int k = (int) vt_range (0, 3), u = k == 0 ? PED_UNIT_SECTOR : k == 1 ? PED_UNIT_BYTE : k == 2 ? PED_UNIT_CYLINDER : PED_UNIT_CHS;
  char *r = ped_unit_format_custom (&dev, s, u);
  vt_check (nfmt == 1, "formatted once");
  if (k < 3) vt_check (fmt[0] == (k == 0 ? s : k == 1 ? s * 512 : s / (255 * 63)) && fname == unit_names[u], "whole units, rounded down, with the unit's name");
  else vt_check (fmt[0] == s / 63 / 255 && fmt[1] == s / 63 % 255 && fmt[2] == s % 63, "the CHS address of the sector");
  if (r) vt_reach ("formatted");
}
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif
