/* escape coded values: the writer's bits decode to the same value and length.
 * The bit writer is replaced by a recorder of (value, width) pairs; the reader
 * replays them (the bit-level round trip of each pair is its own contract). */
#include "vc.h"
#include "ia_core_coder_bitbuffer.h"
VOID ia_core_coder_read_escape_value(ia_bit_buf_struct *b, UWORD32 *v, UWORD32 n1, UWORD32 n2, UWORD32 n3);
static uint32_t wv[8];
static int wn[8], nw, nr;
UWORD8 vc_put(ia_write_bit_buf_struct *p, UWORD32 v, UWORD8 n)
{
  if (n == 0) return 0;
  wv[nw] = (uint32_t)(v & (((uint64_t)1 << n) - 1));
  wn[nw++] = n;
  return n;
}
WORD32 vc_get(ia_bit_buf_struct *p, WORD n)
{
  if (n == 0) return 0;
  VC_ASSERT(nr < nw && wn[nr] == n, "the reader asks for the field the writer wrote");
  return (WORD32)wv[nr++];
}
void harness_escape_rt(void)
{
  ia_write_bit_buf_struct w;
  ia_bit_buf_struct r;
  int n1 = vc_range(1, 16), n2 = vc_range(1, 16), n3 = vc_range(0, 16);
  uint64_t e1 = (1u << n1) - 1, e2 = (1u << n2) - 1, e3 = (1u << n3) - 1;
  uint32_t v = vc_u32();
  VC_ASSUME(v <= e1 + e2 + e3);
  int bits = impeghd_write_escape_value(&w, v, n1, n2, n3);
  int sum = 0;
  for (int i = 0; i < nw; i++) sum += wn[i];
  VC_ASSERT(bits == sum, "the escape writer reports the bits it wrote");
  UWORD32 got = vc_u32();
  ia_core_coder_read_escape_value(&r, &got, n1, n2, n3);
  VC_ASSERT(got == v, "an escape coded value reads back unchanged");
  VC_ASSERT(nr == nw, "the reader consumes all parts the writer wrote");
  if (nw == 3) VC_REACH("three parts");
}
