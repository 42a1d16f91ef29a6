/* Harness vocabulary shared by the verifier build (goto-cc/cbmc, -DVT_CBMC) and
   the native replay build (cc, -DVT_NATIVE).  A harness draws every input through
   vt_* so a verifier counterexample is a sequence of numbers the native build
   can be fed.  */
#ifndef VT_H
#define VT_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#ifdef VT_CBMC
uint64_t nondet_u64 (void);
static inline uint64_t vt_in (void)
{ uint64_t v = nondet_u64 (); __CPROVER_input ("vt", v); return v; }
static inline int64_t vt_range (int64_t lo, int64_t hi)
{ int64_t v = (int64_t) nondet_u64 (); __CPROVER_assume (v >= lo && v <= hi);
  __CPROVER_input ("vt", v); return v; }
static inline uint8_t vt_u8 (void)
{ uint64_t v = nondet_u64 () & 0xff; __CPROVER_input ("vt", v); return (uint8_t) v; }
static inline _Bool vt_bool (void)
{ uint64_t v = nondet_u64 () & 1; __CPROVER_input ("vt", v); return v != 0; }
# define vt_assume(c) __CPROVER_assume (c)
# define vt_check(c, msg) __CPROVER_assert ((c), "VT:" msg)
/* must be reachable: shows the preconditions in front of it are satisfiable */
# define vt_reach(msg) __CPROVER_assert (0, "REACH:" msg)
# ifdef VT_WRAP
#  define vt_call(f) VTC_##f
# else
#  define vt_call(f) f
# endif
# define vt_unreachable(msg) do { __CPROVER_assert (0, "VT:" msg); __CPROVER_assume (0); } while (0)
#else
uint64_t vt_in (void);
int64_t vt_range (int64_t lo, int64_t hi);
uint8_t vt_u8 (void);
_Bool vt_bool (void);
void vt_assume_ (int c, const char *s);
void vt_check_ (int c, const char *msg);
# define vt_assume(c) vt_assume_ (!!(c), #c)
# define vt_check(c, msg) vt_check_ (!!(c), msg)
# define vt_reach(msg) do { } while (0)
# define vt_call(f) VTC_##f
# define vt_unreachable(msg) do { vt_check_ (0, msg); vt_assume_ (0, "unreachable"); } while (0)
#endif

#define IMPL(a, b) (!(a) || (b))
#define IFF(a, b) (!(a) == !(b))

/* fill an object with arbitrary bytes / a byte array with logged bytes */
static inline void vt_bytes (void *p, size_t n)
{ unsigned char *c = p; for (size_t i = 0; i < n; i++) c[i] = vt_u8 (); }
#endif
