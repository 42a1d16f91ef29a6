#include <config.h>
#include "libparted/labels/gpt.c"
#include "vt.h"
#include "env.h"
static const void *cb; static unsigned long cl; static uint32_t cs, cr; static int calls;
uint32_t ct_crc (const void *b, unsigned long l, uint32_t s) { calls++; cb = b; cl = l; cs = s; return cr; }
/* the checksum of a GPT field: seeded with all ones and complemented, over exactly the given bytes */
void h_wrap (void)
{
  static char b[1]; unsigned long l = (unsigned long) vt_in ();
  calls = 0; cr = (uint32_t) vt_in ();
  uint32_t r = efi_crc32 (b, l);
  vt_check (calls == 1 && cb == b && cl == l && cs == 0xffffffffu && r == (uint32_t) ~cr, "seeded with all ones, complemented");
  vt_reach ();
}
/* the check value of CRC-32/ISO-HDLC */
void h_value (void)
{
  vt_check (efi_crc32 ("123456789", 9) == 0xCBF43926u, "the published check value");
  vt_check (efi_crc32 ("", 0) == 0, "nothing");
  vt_reach ();
}
