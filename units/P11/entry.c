#include "spec_gpt.h"
#include <langinfo.h>
static PedPartition part, fresh; static GPTPartitionData pd, fpd, pd0; static GuidPartitionEntry_t pte, pte0;
static char text[48]; static int len, newfail, throws; static size_t gi;
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
# pragma CPROVER check disable "conversion"
# pragma CPROVER check disable "unsigned-overflow"
#endif
static int same (const void *a, const void *b, int n)
{ const uint8_t *x = a, *y = b; int r = 1; for (int i = 0; i < n; i++) if (x[i] != y[i]) r = 0; return r; }
static int holds (const PedPartition *p, const GPTPartitionData *d, const uint8_t *e)
{
  int r = p->geom.start == (int64_t) get_le (e + 32, 8) && p->geom.end == (int64_t) get_le (e + 40, 8)
    && same (&d->type, e, 16) && same (&d->uuid, e + 16, 16) && same (&d->attributes, e + 48, 8);
  for (int i = 0; i < 36; i++) if (d->name[i] != (e[56 + 2 * i] | e[57 + 2 * i] << 8)) r = 0;
  return r && d->name[36] == 0;
}
static int kept (void)
{ int r = same (&pd.type, &pd0.type, 16) && same (&pd.uuid, &pd0.uuid, 16) && same (&pd.attributes, &pd0.attributes, 8);
  return r && pd.name[36] == 0; }
static int name_is (void)
{ int r = 1; for (int i = 0; i < 36; i++) if (i < len && pd.name[i] != (uint8_t) text[i]) r = 0;
  return r && (len >= 36 || pd.name[len] == 0); }
static int text_is (const char *s)
{ int r = 1; for (int i = 0; i < 48; i++) { if (i <= len && s[i] != text[i]) r = 0; if (i == len) break; } return r; }
static int name_text_is (const char *s)
{ int i; for (i = 0; i < 36 && pd0.name[i]; i++) if ((uint8_t) s[i] != pd0.name[i]) return 0; return s[i] == 0; }
static int zeros (const void *p, int n) { const uint8_t *x = p; int r = 1; for (int i = 0; i < n; i++) if (x[i]) r = 0; return r; }
/* UCS-2LE <-> ASCII, at most the room given */
#ifdef VT_CBMC
static iconv_t tr; static int to_ucs;
iconv_t iconv_open (const char *to, const char *from) { to_ucs = to[0] == 'U' && to[1] == 'C'; return (iconv_t) &tr; }
int iconv_close (iconv_t c) { return 0; }
char *nl_langinfo (nl_item i) { return "ASCII"; }
size_t iconv (iconv_t c, char **in, size_t *il, char **out, size_t *ol)
{
  if (to_ucs)
    while (*il) {
      if (*ol < 2) return -1;
      (*out)[0] = (*in)[0]; (*out)[1] = 0;
      *in += 1; *il -= 1; *out += 2; *ol -= 2;
    }
  else
    while (*il) {
      if (*ol < 1) return -1;
      if ((*in)[1] || (*in)[0] < 0) return -1;
      (*out)[0] = (*in)[0];
      *in += 2; *il -= 2; *out += 1; *ol -= 1;
    }
  return 0;
}
#endif
char *xstrdup (const char *s)
{
  char *r = malloc (48);
  for (int i = 0; i < 48; i++) { r[i] = s[i]; if (!s[i]) return r; }
  vt_check (0, "string longer than a partition name"); return r;
}
static PedPartitionType at; static PedSector as, ae; static const PedFileSystemType *af;
static int pfree;
#include "vt_contracts.h"
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif
PedExceptionOption ped_exception_throw (PedExceptionType t, PedExceptionOption o, const char *m, ...)
{ throws++; return vt_bool () ? PED_EXCEPTION_UNHANDLED : o; }
PedPartition *ped_partition_new (const PedDisk *d, PedPartitionType t, const PedFileSystemType *f, PedSector s, PedSector e)
{
  vt_check (d == &disk && t == 0, "a new normal partition of this disk");
  if (newfail) return NULL;
  fresh.geom.start = s; fresh.geom.end = e; fresh.geom.length = (PedSector) ((uint64_t) e - (uint64_t) s + 1); fresh.type = t; fresh.disk = (PedDisk *) d;
  fresh.disk_specific = &fpd;
  return &fresh;
}
PedPartition *_ped_partition_alloc (const PedDisk *d, PedPartitionType t, const PedFileSystemType *f, PedSector s, PedSector e)
{
  at = t; as = s; ae = e; af = f;
  if (newfail) return NULL;
  PedPartition *p = malloc (sizeof *p);
  memset (p, 0, sizeof *p);
  p->num = -1; p->disk = (PedDisk *) d; p->type = t; p->fs_type = f; p->geom.start = s; p->geom.end = e; p->geom.length = (PedSector) ((uint64_t) e - (uint64_t) s + 1);
  return p;
}
void _ped_partition_free (PedPartition *p) { pfree++; free (p); }
void uuid_generate (uuid_t u) { vt_bytes (u, 16); }
static void reset (void)
{ memset (&fresh, 0, sizeof fresh); throws = pfree = 0; newfail = vt_bool ();
  disk.dev = &dev; disk.disk_specific = &gd; part.disk = &disk; part.disk_specific = &pd; part.type = 0;
  part.geom.start = vt_range (0, INT64_MAX); part.geom.end = vt_range (0, INT64_MAX); part.num = (int) vt_range (-1, 1000);
  vt_bytes (&pd.type, 16); vt_bytes (&pd.uuid, 16); vt_bytes (&pd.attributes, 8); vt_bytes (pd.name, 72); pd.name[36] = 0; pd.translated_name = 0;
  vt_bytes (&fpd.type, 16); vt_bytes (&fpd.attributes, 8); fpd.name[36] = 7; pd0 = pd; }
void h_parse (void)
{
  reset ();
  vt_bytes (&pte, 128); pte0 = pte;
  PedPartition *r = vt_call (_parse_part_entry) (&disk, &pte);
  if (r) vt_reach ("parsed"); else vt_reach ("no memory");
}
void h_gen (void)
{
  reset (); vt_bytes (&pte, 128);
  vt_call (_partition_generate_part_entry) (&part, &pte);
  vt_reach ("encoded");
}
/* what is written comes back, in one lemma over the two functions themselves */
void h_round (void)
{
  reset (); newfail = 0; vt_bytes (&pte, 128);
  _partition_generate_part_entry (&part, &pte);
  PedPartition *r = _parse_part_entry (&disk, &pte);
  vt_check (r == &fresh && fresh.geom.start == part.geom.start && fresh.geom.end == part.geom.end, "same sectors after a write and a read");
  vt_check (same (&fpd.type, &pd.type, 16) && same (&fpd.uuid, &pd.uuid, 16) && same (&fpd.attributes, &pd.attributes, 8) && same (fpd.name, pd.name, 74), "same type, GUID, attributes and name after a write and a read");
  vt_check (fpd.translated_name == 0, "the name is translated afresh");
  vt_reach ("round");
}
void h_new (void)
{
  reset ();
  int t = vt_bool () ? 0 : (int) vt_range (0, 15); static PedFileSystemType f; static PedDisk *dp = &disk;
  vt_oom = 1;
  PedPartition *r = vt_call (gpt_partition_new) (dp, t, vt_bool () ? &f : 0, part.geom.start, part.geom.end);
  if (r && t == 0) vt_reach ("normal");
  if (r && t) vt_reach ("free or metadata");
  if (!r) vt_reach ("no memory");
}
void h_pdup (void)
{
  reset (); static PedFileSystemType f;
  part.type = vt_bool () ? 0 : (int) vt_range (0, 15); part.fs_type = vt_bool () ? &f : 0;
  len = (int) vt_range (0, 40);
  for (int i = 0; i < 48; i++) { uint8_t c = vt_u8 (); vt_assume (c < 128); text[i] = i < len ? c : 0; vt_assume (i >= len || c); }
  if (vt_bool ()) pd.translated_name = text;
  pd0 = pd; vt_oom = 1;
  PedPartition *r = vt_call (gpt_partition_duplicate) (&part);
  if (r && part.type == 0 && pd.translated_name) vt_reach ("named");
  if (r && part.type) vt_reach ("free or metadata");
  if (!r) vt_reach ("no memory");
}
void h_set_name (void)
{
  reset ();
  len = (int) vt_range (0, 40);
  for (int i = 0; i < 48; i++) { uint8_t c = vt_u8 (); vt_assume (c < 128); text[i] = i < len ? c : 0; vt_assume (i >= len || c); }
  pd0 = pd;
  vt_call (gpt_partition_set_name) (&part, text);
  if (throws) vt_reach ("too long");
  if (!throws && len == 35) vt_reach ("longest");
  free (pd.translated_name); pd.translated_name = 0;
}
void h_get_name (void)
{
  reset ();
  for (int i = 0; i < 36; i++) vt_assume (pd.name[i] < 128);
  if (vt_bool ()) {
    len = (int) vt_range (0, 40);
    for (int i = 0; i < 48; i++) { uint8_t c = vt_u8 (); vt_assume (c < 128); text[i] = i < len ? c : 0; vt_assume (i >= len || c); }
    pd.translated_name = text;
  }
  pd0 = pd;
  const char *r = vt_call (gpt_partition_get_name) (&part);
  if (pd0.translated_name) vt_reach ("known"); else vt_reach ("translated");
}
/* a name of up to 36 characters survives a write and a read */
void h_name_round (void)
{
  reset ();
  len = (int) vt_range (0, 36);
  for (int i = 0; i < 48; i++) { uint8_t c = vt_u8 (); vt_assume (c < 128); text[i] = i < len ? c : 0; vt_assume (i >= len || c); }
  gpt_partition_set_name (&part, text);
  _partition_generate_part_entry (&part, &pte);
  newfail = 0;
  _parse_part_entry (&disk, &pte);
  const char *r = gpt_partition_get_name (&fresh);
  vt_check (text_is (r), "the name read back is the name that was set");
  vt_reach ("round");
}
