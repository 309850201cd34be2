/* Contract of the escape coded value reader, over the bit reader's contract. */
#include "vc.h"
#include "ia_core_coder_bitbuffer.h"
VOID ia_core_coder_read_escape_value(ia_bit_buf_struct *b, UWORD32 *v, UWORD32 n1, UWORD32 n2, UWORD32 n3);
/* escape coded values: prefix of n1 bits, all-ones continues with n2, then n3 */
void harness_escape(void)
{
  ia_bit_buf_struct b;
  int n1 = vc_range(1, 31), n2 = vc_range(1, 31), n3 = vc_range(1, 32);
  vc_bitbuf_init(&b);
  UWORD32 got = vc_u32();
  ia_core_coder_read_escape_value(&b, &got, n1, n2, n3);
  uint32_t e1 = (1u << n1) - 1, e2 = (1u << n2) - 1;
  int used = n1, k = 1;
  uint32_t want = vc_seq_v[0];
  if (vc_seq_v[0] == e1)
  {
    want += vc_seq_v[1];
    used += n2;
    k = 2;
    if (vc_seq_v[1] == e2)
    {
      want += vc_seq_v[2];
      used += n3;
      k = 3;
      VC_REACH("escape third level");
    }
  }
  VC_ASSERT(vc_seq_cnt == k, "an escape value reads exactly the parts it announces");
  VC_ASSERT(vc_seq_n[0] == n1 && (k < 2 || vc_seq_n[1] == n2) && (k < 3 || vc_seq_n[2] == n3),
            "each part has its announced width");
  VC_ASSERT(got == want, "escape coded value is the sum of its parts");
  VC_ASSERT(b.cnt_bits == vc_bits0 - used, "an escape value consumes exactly its own bits");
}
