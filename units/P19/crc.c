#include <config.h>
#include "libparted/labels/efi_crc32.c"
#include <parted/parted.h>
#include "vt.h"
#include "env.h"
/* ghost: crc (k) is the standard CRC-32 register (reflected polynomial 0xEDB88320, one shift per bit) after the first k bytes;
   its defining equations are crc (0) = seed and crc (k + 1) = shift8 (crc (k), byte k) */
static uint32_t shift8 (uint32_t c, unsigned char b)
{
  for (int j = 0; j < 8; j++) { uint32_t low = (c ^ (uint32_t) (b >> j)) & 1; c = c >> 1; if (low) c ^= 0xEDB88320u; }
  return c;
}
static const unsigned char *data; static unsigned long total; static uint32_t first;
#ifdef VT_CBMC
uint32_t crc[__CPROVER_constant_infinity_uint];
#endif
#ifndef MAXLEN
# define MAXLEN (1ul << 40)
#endif
void h_crc (void)
{
  total = vt_range (0, MAXLEN); first = (uint32_t) vt_in ();
  unsigned char *b = malloc (total);
  vt_assume (b != 0);
  data = b;
  vt_reach ();
#if defined VT_CBMC && !defined FALLBACK
/* one bit, eight bits */
# define S1(c, b, j) (((c) >> 1) ^ ((((c) ^ ((uint32_t) (b) >> (j))) & 1) * 0xEDB88320u))
# define EIGHT(c, b) S1 (S1 (S1 (S1 (S1 (S1 (S1 (S1 (c, b, 0), b, 1), b, 2), b, 3), b, 4), b, 5), b, 6), b, 7)
  vt_assume (crc[0] == first);
  __CPROVER_assume (__CPROVER_forall { unsigned long k; (k < total) ==> crc[k + 1] == EIGHT (crc[k], data[k]) });
#endif
#ifndef VT_CBMC
  vt_bytes (b, total);
#endif
  uint32_t r = __efi_crc32 (b, total, first);
#if defined VT_CBMC && !defined FALLBACK
  vt_check (r == crc[total], "the CRC-32 of exactly the given bytes");
#else
  uint32_t c = first;
  for (unsigned long i = 0; i < total; i++) c = shift8 (c, b[i]);
  vt_check (c == r, "the CRC-32 of exactly the given bytes");
#endif
}
/* one byte, all registers: the table */
void h_byte (void)
{
  unsigned char b = vt_u8 (); uint32_t c = (uint32_t) vt_in ();
  vt_check (__efi_crc32 (&b, 1, c) == shift8 (c, b), "one byte");
  vt_check (__efi_crc32 (&b, 0, c) == c, "no byte");
  vt_reach ();
}
