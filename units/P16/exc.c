#include <config.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#ifdef VT_CBMC
/* trusted output functions */
# undef fprintf
# undef fputs
# undef vfprintf
# undef vsnprintf
static int v_fprintf (FILE *f, const char *m, ...) { return 0; }
static int v_fputs (const char *m, FILE *f) { return 0; }
static int v_vfprintf (FILE *f, const char *m, va_list a) { return 0; }
static int v_vsnprintf (char *b, size_t n, const char *m, va_list a);
# define fprintf v_fprintf
# define fputs v_fputs
# define vfprintf v_vfprintf
# define vsnprintf v_vsnprintf
# define malloc v_malloc
void *v_malloc (size_t n);
#endif
#include "libparted/exception.c"
#ifdef VT_CBMC
# undef malloc
#endif
#include "vt.h"
#define VT_NO_ENV_EXC
#define VT_NO_ENV_MALLOC
#include "env.h"
static int len, oom, nomem, calls, answer; static PedException *seen; static PedExceptionType seen_t; static PedExceptionOption seen_o; static int fetching;
#ifdef VT_CBMC
void *v_malloc (size_t n) { if (oom && vt_bool ()) { nomem = 1; return 0; } return malloc (n); }
/* formats a message of len characters: returns the full length, stores at most n bytes */
static int v_vsnprintf (char *b, size_t n, const char *m, va_list a)
{ vt_check (n >= 1, "room for the terminator"); b[0] = 0; if ((size_t) len < n) b[len] = 0; else b[n - 1] = 0; return len; }
#endif
static PedExceptionOption my_handler (PedException *e)
{
  calls++;
  vt_check (e && e == ex && e->message && ped_exception == 1, "the handler sees the pending exception");
  vt_check (!fetching, "no handler while exceptions are fetched");
  seen_t = e->type; seen_o = e->options;
  return answer;
}
static int own;
/* any state between two operations: a pending exception owns its storage; the fetch level is not negative */
static void state (void)
{
  calls = 0; nomem = 0; oom = 0; ex = 0; ped_exception = vt_bool ();
  ex_fetch_count = (int) vt_range (0, 1 << 30); fetching = ex_fetch_count > 0; len = (int) vt_range (0, 1025);
  if (ped_exception) { ex = malloc (sizeof *ex); ex->type = (PedExceptionType) vt_range (1, 6); ex->options = (PedExceptionOption) vt_range (0, 127); ex->message = malloc (4); ex->message[0] = 0; }
  own = vt_bool ();
  ped_exception_set_handler (own ? my_handler : 0);
  answer = (int) vt_range (0, 127);
  vt_check (ped_exception_get_handler () == (own ? my_handler : default_handler), "the handler that was set, or the default one");
}
static int inv (void) { return ex_fetch_count >= 0 && (ped_exception == 0 || (ped_exception == 1 && ex && ex->message)); }
static int single (int o) { return o == PED_EXCEPTION_OK || o == PED_EXCEPTION_CANCEL || o == PED_EXCEPTION_IGNORE; }
static void after (int r, int t, int o, int lvl)
{
  if (nomem) { vt_check (r == PED_EXCEPTION_UNHANDLED && !calls, "no memory: unhandled"); return; }
  if (lvl) {
    vt_check (r == PED_EXCEPTION_UNHANDLED && !calls, "while fetching every exception is unhandled and no handler runs");
    vt_check (ped_exception == 1 && ex && (int) ex->type == t && (int) ex->options == o, "and stays pending for the fetching caller");
  } else {
    vt_check (own ? calls == 1 && r == answer && (int) seen_t == t && (int) seen_o == o : r == (single (o) ? o : PED_EXCEPTION_UNHANDLED), "the answer is the handler's; without a handler the single choice or unhandled");
    vt_check (ped_exception == 0 && !ex, "a handled exception is resolved");
  }
}
void h_throw (void)
{
  state (); oom = vt_bool ();
  int t = (int) vt_range (1, 6), o = (int) vt_range (0, 127), lvl = ex_fetch_count;
  int r = ped_exception_throw ((PedExceptionType) t, (PedExceptionOption) o, "x");
  after (r, t, o, lvl);
  vt_check (ex_fetch_count == lvl, "the fetch level is unchanged");
  vt_check (inv (), "consistent state");
  vt_check (ped_exception_get_handler () == (own ? my_handler : default_handler), "the handler stays");
  if (nomem) vt_reach ("no memory");
  if (!nomem && !lvl && own) vt_reach ("handled");
  if (!nomem && !lvl && !own && r) vt_reach ("single choice");
  if (lvl && len > 1010 && !nomem) vt_reach ("long message");
}
void h_rethrow (void)
{
  state (); vt_assume (ped_exception);
  int t = ex->type, o = ex->options, lvl = ex_fetch_count;
  int r = ped_exception_rethrow ();
  after (r, t, o, lvl);
  vt_check (inv () && ex_fetch_count == lvl, "consistent state");
  if (lvl) vt_reach ("fetching"); else vt_reach ("handled");
}
void h_ops (void)
{
  state ();
  int lvl = ex_fetch_count, p = ped_exception, k = (int) vt_range (0, 2);
  if (k == 0) { ped_exception_catch (); vt_check (ped_exception == 0 && (!p || !ex) && ex_fetch_count == lvl, "catching resolves the pending exception"); vt_reach ("catch"); }
  if (k == 1) { ped_exception_fetch_all (); vt_check (ex_fetch_count == lvl + 1 && ped_exception == p, "one level deeper"); vt_reach ("fetch"); }
  if (k == 2) { vt_assume (lvl > 0); ped_exception_leave_all (); vt_check (ex_fetch_count == lvl - 1 && ped_exception == p, "one level up"); vt_reach ("leave"); }
  vt_check (inv () && !calls, "consistent state, no handler");
}
void h_names (void)
{
  static const char *const on[] = { "Fix", "Yes", "No", "OK", "Retry", "Ignore", "Cancel" };
  static const char *const tn[] = { "Information", "Warning", "Error", "Fatal", "Bug", "No Implementation" };
  int i = (int) vt_range (0, 6), j = (int) vt_range (0, 5);
  const char *a = ped_exception_get_option_string ((PedExceptionOption) (1 << i)), *b = ped_exception_get_type_string ((PedExceptionType) (j + 1));
  for (int k = 0; k < 20; k++) { vt_check (a[k] == on[i][k], "the option's name"); if (!a[k] || !on[i][k]) break; }
  for (int k = 0; k < 20; k++) { vt_check (b[k] == tn[j][k], "the type's name"); if (!b[k] || !tn[j][k]) break; }
  vt_reach ("named");
}
