#include <config.h>
#include <stdio.h>
#include <stdint.h>
#include <inttypes.h>
#include <ctype.h>
#include <c-ctype.h>
#include <parted/parted.h>
#ifdef VT_CBMC
int v_fputc (int c, FILE *f);
int v_fputs (const char *s, FILE *f);
int v_fprintf (FILE *f, const char *m, uint64_t v);
# undef fputc
# undef fputs
# undef fprintf
# define fputc(c, f) v_fputc (c, f)
# define fputs(s, f) v_fputs (s, f)
# define fprintf(f, m, v) v_fprintf (f, m, (uint64_t) (v))
# undef toupper
# undef tolower
# define toupper(c) v_case (c)
# define tolower(c) v_case (c)
int v_case (int c);
#endif
#include "parted/jsonwrt.c"
#undef fputc
#undef fputs
#undef fprintf
#undef toupper
#undef tolower
#include "vt.h"
#include "env.h"
static FILE *out;
/* ---------------- strings: a JSON string decoder reads what is written ---------------- */
static int S; enum { OUT, IN, ESC, U1, U2, U3, U4, BAD };
static char *data; static size_t cnt, LEN; static int dir, hex, strings, mode;
static void emit (unsigned char b)
{
  if (cnt > LEN || b == 0) { S = BAD; return; }
  unsigned char w = (unsigned char) data[cnt];
  if (w <= 127) { if (dir == 1 && w >= 'a' && w <= 'z') w -= 32; if (dir == -1 && w >= 'A' && w <= 'Z') w += 32; }
  if (b != w && (dir == 0 || w <= 127)) S = BAD; else S = IN;
  cnt++;
}
static int hv (unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void sfeed (unsigned char c)
{
  if (S == OUT) { if (c == '"' && !strings) { S = IN; strings = 1; } else S = BAD; }
  else if (S == IN) { if (c == '"') S = OUT; else if (c == '\\') S = ESC; else if (c < 32) S = BAD; else emit (c); }
  else if (S == ESC)
    {
      if (c == 'u') { S = U1; hex = 0; }
      else { int d = c == 'n' ? 10 : c == 't' ? 9 : c == 'r' ? 13 : c == 'b' ? 8 : c == 'f' ? 12 : c == '"' || c == '\\' || c == '/' ? c : 0; if (d) emit ((unsigned char) d); else S = BAD; }
    }
  else if (S >= U1 && S <= U4)
    { int h = hv (c); if (h < 0) S = BAD; else { hex = hex * 16 + h; if (S == U4) { if (hex < 128) emit ((unsigned char) hex); else S = BAD; } else S++; } }
}
/* ---------------- structure: a JSON parser reads what is written ----------------
   top: innermost open thing; depth: how many are open; pos: what may come next */
enum { NONE, OBJ, ARR }; enum { FIRST, AFTER, COMMA, COLON, VAL, END, WRONG };
static int top, depth, pos, pushed, popped, under;
static void value (void)
{
  if (pos == VAL || ((pos == FIRST || pos == COMMA) && top == ARR)) pos = depth ? AFTER : END;
  else pos = WRONG;
}
static void pfeed (unsigned char c)
{
  if (c == ' ' || c == '\n') return;
  if (c == ',') { pos = pos == AFTER ? COMMA : WRONG; return; }
  if (c == ':') { pos = pos == COLON ? VAL : WRONG; return; }
  if (c == '{' || c == '[')
    { value (); if (pos == WRONG) return; top = c == '{' ? OBJ : ARR; pushed++; depth++; pos = FIRST; return; }
  if (c == '}' || c == ']')
    {
      if ((pos != FIRST && pos != AFTER) || top != (c == '}' ? OBJ : ARR) || depth < 1 || popped) { pos = WRONG; return; }
      popped++; depth--; top = depth ? under : NONE; pos = depth ? AFTER : END; return;
    }
  pos = WRONG;
}
#ifdef VT_CBMC
int v_case (int c) { vt_check (c >= -1 && c <= 255, "a character"); return (int) vt_range (c > 127 ? 128 : 0, c > 127 ? 255 : 127); }
int v_fputc (int c, FILE *f) { vt_check (f == out, "the output"); if (mode) pfeed ((unsigned char) c); else sfeed ((unsigned char) c); return c; }
int v_fputs (const char *s, FILE *f)
{
  vt_check (f == out, "the output");
  if (mode && s[0] == 'n' && s[1] == 'u' && s[2] == 'l' && s[3] == 'l' && !s[4]) { value (); return 1; }
  if (mode && s[0] == 't' && s[1] == 'r' && s[2] == 'u' && s[3] == 'e' && !s[4]) { value (); return 1; }
  if (mode && s[0] == 'f' && s[1] == 'a' && s[2] == 'l' && s[3] == 's' && s[4] == 'e' && !s[5]) { value (); return 1; }
# define F(i) if (!s[i]) return 1; if (mode) pfeed ((unsigned char) s[i]); else sfeed ((unsigned char) s[i]);
  F (0) F (1) F (2) F (3) F (4) F (5) F (6) F (7)
  vt_check (0, "short constant text");
  return 1;
}
static char dig (int v) { return v < 10 ? '0' + v : 'a' + v - 10; }
int v_fprintf (FILE *f, const char *m, uint64_t v)
{
  vt_check (f == out, "the output");
  if (mode) { vt_check (m[0] == '%' && m[1] == 'l' && m[2] == 'u' && !m[3], "an unsigned number"); value (); return 1; }
  vt_check (m[0] == '\\' && m[1] == 'u' && m[2] == '0' && m[3] == '0' && m[4] == '%' && m[5] == '0' && m[6] == '2' && m[7] == 'x' && !m[8] && v <= 255, "a two digit code");
  sfeed ('\\'); sfeed ('u'); sfeed ('0'); sfeed ('0'); sfeed (dig ((int) v / 16)); sfeed (dig ((int) v % 16));
  return 1;
}
#endif
#ifndef MAXLEN
# define MAXLEN (1ul << 40)
#endif
void h_string (void)
{
  mode = 0; S = OUT; strings = 0; cnt = 0; hex = 0; dir = (int) vt_range (-1, 1);
  LEN = (size_t) vt_range (0, MAXLEN); data = malloc (LEN + 1); vt_assume (data != 0);
  data[LEN] = 0;
  fputs_quoted_case_json (data, out, dir);
  vt_check (S == OUT && strings == 1, "one complete string literal");
  vt_check (cnt <= LEN && data[cnt] == 0, "which decodes to the whole text");
  vt_reach ("done");
}
/* ---- one operation from any consistent state ---- */
static struct ul_jsonwrt fmt; static int qcalls; static const char *qdata; static int qdir;
void ct_quoted (const char *d, FILE *f, int di)
{
  qcalls++; qdata = d; qdir = di; vt_check (f == out && d, "a text");
  if ((pos == FIRST || pos == COMMA) && top == OBJ) pos = COLON; else value ();
}
void ct_indent (struct ul_jsonwrt *f) { }
static int inv (void) { return depth == fmt.indent && fmt.out == out && (fmt.after_close ? pos == AFTER : depth ? pos == FIRST : pos == VAL); }
static const char *nm;
static void state (void)
{
  mode = 1; pushed = popped = qcalls = 0; qdata = 0; static char o_; out = (FILE *) &o_;
  depth = (int) vt_range (0, 1 << 20); top = depth ? (int) vt_range (OBJ, ARR) : NONE; under = (int) vt_range (OBJ, ARR);
  fmt.out = out; fmt.indent = depth; fmt.after_close = depth && vt_bool ();
  pos = fmt.after_close ? AFTER : depth ? FIRST : VAL;
  nm = top == OBJ ? "n" : 0;
}
void h_init (void)
{
  mode = 1; fmt.after_close = vt_bool (); fmt.indent = (int) vt_range (0, 99); static char o_; out = (FILE *) &o_; depth = 0; top = NONE; pos = VAL;
  ul_jsonwrt_init (&fmt, out, 0);
  vt_check (inv (), "a new document");
  vt_reach ("init");
}
void h_open (void)
{
  state ();
  int d0 = depth, t = vt_bool () ? UL_JSON_OBJECT : UL_JSON_ARRAY;
  ul_jsonwrt_open (&fmt, nm, t);
  vt_check (pos == FIRST && pushed == 1 && !popped && depth == d0 + 1 && top == (t == UL_JSON_OBJECT ? OBJ : ARR), "one thing opened where one may stand");
  vt_check (inv () && !fmt.after_close, "consistent");
  vt_check (qcalls == (nm != 0) && qdata == nm, "under its name");
  if (t == UL_JSON_ARRAY) vt_reach ("array"); else vt_reach ("object");
}
void h_close (void)
{
  state (); vt_assume (depth >= 1);
  int d0 = depth;
  ul_jsonwrt_close (&fmt, top == OBJ ? UL_JSON_OBJECT : UL_JSON_ARRAY);
  vt_check (popped == 1 && !pushed && depth == d0 - 1, "the innermost open thing is closed with its own bracket");
  vt_check (depth == fmt.indent && (depth ? pos == AFTER : pos == END) && fmt.after_close, "consistent");
  if (depth) vt_reach ("inner"); else vt_reach ("root");
}
void h_value (void)
{
  state (); vt_assume (depth >= 1);
  int d0 = depth, t0 = top, k = (int) vt_range (0, 5);
  const char *v = vt_bool () ? "v" : 0;
  if (k == 0) ul_jsonwrt_value_s (&fmt, nm, v);
  else if (k == 1) ul_jsonwrt_value_u64 (&fmt, nm, (uint64_t) vt_in ());
  else if (k == 2) ul_jsonwrt_value_boolean (&fmt, nm, vt_bool ());
  else if (k == 3) ul_jsonwrt_value_null (&fmt, nm);
  else if (k == 4) ul_jsonwrt_value_raw (&fmt, nm, vt_bool () ? "null" : 0);
  else { ul_jsonwrt_value_open (&fmt, nm); vt_check (pos == (nm ? VAL : pos == COMMA ? COMMA : FIRST), "a place for a value"); value (); ul_jsonwrt_value_close (&fmt); }
  vt_check (pos == AFTER && !pushed && !popped && depth == d0 && top == t0, "one member added");
  vt_check (inv () && fmt.after_close, "consistent");
  vt_check (k != 0 || !v || qdata == v, "the text itself"); vt_check (k != 0 || !v || qdir == 0, "the text unchanged");
  vt_check (qcalls == (nm != 0) + (k == 0 && v), "name and text");
  vt_reach ("value");
}
static int gp;
void h_indent (void)
{
  state ();
  gp = pos;
  ul_jsonwrt_indent (&fmt);
  vt_check (pos == gp && !pushed && !popped && !qcalls, "only white space");
  vt_reach ("indent");
}
