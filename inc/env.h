/* Trusted environment of the functions under contract (identical C text in the verifier
   build and in the native replay build). */
#ifndef VT_ENV_H
#define VT_ENV_H
#include "vt.h"
#include <stdlib.h>
#include <string.h>

/* an abort inside the library is a failed obligation */
#ifndef VT_NO_ENV_ASSERT
void __attribute__ ((__noreturn__))
ped_assert (const char *c, const char *f, int l, const char *fn)
{
# ifdef VT_NATIVE
  extern int printf (const char *, ...); printf ("PED_ASSERT (%s) at %s:%d\n", c, f, l);
# endif
  vt_unreachable ("library assertion violated (abort)");
  while (1);
}
#endif
#ifndef VT_NO_ENV_DEBUG
void ped_debug (const int level, const char *file, int line, const char *fn, const char *msg, ...) { }
#endif

/* ped_exception_throw: returns UNHANDLED or exactly one of the options offered (this contract
   is itself proved for the real function by property P17) */
#ifndef VT_NO_ENV_EXC
PedExceptionOption
ped_exception_throw (PedExceptionType t, PedExceptionOption o, const char *m, ...)
{
# ifdef VT_EXC_UNHANDLED
  return PED_EXCEPTION_UNHANDLED;
# else
  uint8_t b = vt_u8 ();
  if (b >= 8) return PED_EXCEPTION_UNHANDLED;
  if (!(o & (1 << b))) return PED_EXCEPTION_UNHANDLED;
  return (PedExceptionOption) (1 << b);
# endif
}
void ped_exception_catch (void) { }
void ped_exception_fetch_all (void) { }
void ped_exception_leave_all (void) { }
#endif

#ifndef VT_NO_ENV_MALLOC
/* ped_malloc/ped_calloc: fresh memory or NULL */
static int vt_oom;   /* set by a harness: allocation may fail */
void *ped_malloc (size_t n)
{ if (vt_oom && vt_bool ()) return NULL; return malloc (n ? n : 1); }
void *ped_calloc (size_t n)
{ if (vt_oom && vt_bool ()) return NULL; return calloc (1, n ? n : 1); }
#endif

#ifdef VT_CBMC
char *gettext (const char *m) { return (char *) m; }
char *dgettext (const char *d, const char *m) { return (char *) m; }
char *dcgettext (const char *d, const char *m, int c) { return (char *) m; }
#endif
#endif
