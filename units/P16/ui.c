#include "parted/ui.c"
#include "vt.h"
#include "env.h"
/* how the parted program answers exceptions */
static int printed, isatty_v, asked, getex; static PedException e; static int expect_o, ans;
void ct_text (PedException *x) { printed++; }
void h_next (void)
{
  int o = (int) vt_range (0, 127), c = 0; int k = (int) vt_range (-1, 6);
  if (k >= 0) c = 1 << k;
  int w = 0;
  for (int i = 0; i < 7; i++) if (!w && (1 << i) > c && (o & (1 << i))) w = 1 << i;
  vt_check ((int) option_get_next ((PedExceptionOption) o, (PedExceptionOption) c) == w, "the next offered choice, or none");
  if (w) vt_reach ("next"); else vt_reach ("none");
}
PedExceptionOption ct_next (PedExceptionOption o, PedExceptionOption c)
{
  for (int i = 0; i < 7; i++) if ((1 << i) > (int) c && ((int) o & (1 << i))) return (PedExceptionOption) (1 << i);
  return 0;
}
PedExceptionOption ct_get (const char *prompt, PedExceptionOption o)
{
  getex++; vt_check ((int) o == expect_o, "asks for the offered choices");
  ans = (int) vt_range (0, 127); vt_assume ((ans & o) == ans && (ans & (ans - 1)) == 0);
  return ans;
}
int isatty (int fd) { return isatty_v; }
void h_handler (void)
{
  e.type = (PedExceptionType) vt_range (1, 6); e.options = expect_o = (int) vt_range (1, 127); e.message = "m";
  opt_script_mode = vt_bool (); opt_fix_mode = vt_bool (); pretend_input_tty = vt_bool (); isatty_v = vt_bool (); printed = getex = 0; got_ctrl_c = 1;
  int one = (expect_o & (expect_o - 1)) == 0, tty = isatty_v || pretend_input_tty;
  int r = exception_handler (&e);
  vt_check (r == 0 || ((r & expect_o) == r && (r & (r - 1)) == 0), "unhandled or exactly one of the choices offered");
  vt_check (printed == 1, "the message is shown");
  vt_check (!one || r == expect_o, "a single choice is taken");
  vt_check (one || !opt_script_mode || r == ((opt_fix_mode && (expect_o & PED_EXCEPTION_FIX)) ? PED_EXCEPTION_FIX : 0), "a script never decides except to fix when told to");
  vt_check (getex == (!one && !opt_script_mode && tty), "asks exactly when there is a choice and a user");
  vt_check (!getex || r == ans, "and takes the user's answer");
  if (one) vt_reach ("one"); else if (getex) vt_reach ("asked"); else if (r) vt_reach ("fix"); else vt_reach ("unhandled");
}
/* command_line_get_ex_opt: the word comes from the list of the choices offered */
static const char *lst[14]; static int nl, destroyed, flushed, none; static StrList node;
StrList *ct_app (StrList *l, const char *s) { vt_check (nl < 14, "few choices"); lst[nl++] = s; return &node; }
void ct_destroy (StrList *l) { vt_check (l == &node, "the list of choices"); destroyed++; }
void ct_flush (void) { flushed++; }
char *ct_word (const char *p, const char *d, const StrList *l, int multi)
{
  asked++; vt_check (l == &node && nl >= 2 && multi && !d, "asks for one of the choices offered");
  if (vt_bool ()) { none = 1; return 0; }
  int i = (int) vt_range (0, 13); vt_assume (i < nl);
  const char *s = i == 0 ? lst[0] : i == 1 ? lst[1] : i == 2 ? lst[2] : i == 3 ? lst[3] : i == 4 ? lst[4] : i == 5 ? lst[5] : i == 6 ? lst[6] : i == 7 ? lst[7] : i == 8 ? lst[8] : i == 9 ? lst[9] : i == 10 ? lst[10] : i == 11 ? lst[11] : i == 12 ? lst[12] : lst[13];
  char *c = malloc (8); int k = 0;
  for (; k < 7 && s[k]; k++) c[k] = s[k];
  c[k] = 0;
  ans = 0;
  for (int b = 0; b < 7; b++) if (c[0] == (b == 0 ? 'F' : b == 1 ? 'Y' : b == 2 ? 'N' : b == 3 ? 'O' : b == 4 ? 'R' : b == 5 ? 'I' : 'C')) ans = 1 << b;
  return c;
}
void h_get (void)
{
  int o = (int) vt_range (1, 127); nl = destroyed = flushed = none = asked = 0;
  int r = command_line_get_ex_opt ("", (PedExceptionOption) o);
  vt_check (asked == 1 && flushed == 1, "asks once, ignoring words typed ahead");
  vt_check (r == (none ? 0 : ans) && (r & o) == r, "the choice the user named, one of those offered");
  if (r) vt_reach ("chosen"); else vt_reach ("none");
}
