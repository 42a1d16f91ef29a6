#include "spec_dos.h"
static PedCHSGeometry G = { 0, 1, 1 }; static RawCHS out;
static int64_t wc; static int wh, ws;
#ifdef VT_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "signed-overflow"
# pragma CPROVER check disable "conversion"
#endif
static int byte (int i) { return i == 0 ? out.head : i == 1 ? out.sector : out.cylinder; }
#include "vt_contracts.h"
#ifdef VT_CBMC
# pragma CPROVER check pop
#endif
/* the sector given by cylinder wc, head wh and sector ws */
static PedSector mk (void)
{
  memset (&dev, 0, sizeof dev);
  G.heads = HEADS; G.sectors = SECTS; G.cylinders = (int) vt_range (0, 1 << 20);
  dev.bios_geom = G;
  wc = vt_range (0, CMAX); wh = (int) vt_range (0, HEADS - 1); ws = (int) vt_range (0, SECTS - 1);
  vt_bytes (&out, 3);
  return (wc * HEADS + wh) * SECTS + ws;
}
void h_to (void)
{
  PedSector s = mk ();
  vt_call (sector_to_chs) (&dev, vt_bool () ? &G : 0, s, &out);
  if (wc > 1021) vt_reach ("too far"); else vt_reach ("fits");
}
void h_from (void)
{
  mk ();
  PedSector r = vt_call (chs_to_sector) (&dev, &G, &out);
  if (r) vt_reach ("known"); else vt_reach ("unknown");
}
void h_round (void)
{
  PedSector s = mk ();
  sector_to_chs (&dev, &G, s, &out);
  PedSector r = chs_to_sector (&dev, &G, &out);
  vt_check (r == (wc <= 1021 ? s : 0), "a sector in reach of CHS reads back, one beyond reads as unknown");
  vt_reach ("round");
}
