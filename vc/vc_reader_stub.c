/* The bit reader's contract, used at its call sites (the reader itself is
 * verified against this contract by property P01):
 *   requires 0 <= n <= 32
 *   n == 0              : returns 0, nothing changes
 *   n >  cnt_bits       : error exit
 *   otherwise           : cnt_bits' = cnt_bits - n, result in [0, 2^n) */
#include "vc.h"
#include "ia_core_coder_bitbuffer.h"
#include "impeghd_error_codes.h"
uint64_t nondet_vc_u64(void);
uint64_t vc_rd_n, vc_rd_v;
uint32_t vc_seq_v[VC_SEQ];
int vc_seq_n[VC_SEQ], vc_seq_cnt;
#ifndef VC_RD_MAX
#define VC_RD_MAX 32
#endif
#ifdef VC_HOOK
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v);
#else
#define vc_rd_hook(b, n, v) (void)0
#endif
#ifdef VC_FORCE
int64_t vc_force(int idx, int n);
static int vc_rd_idx;
#endif
static uint32_t vc_rd(ia_bit_buf_struct *b, int n)
{
  __CPROVER_assert(n >= 0 && n <= VC_RD_MAX, "bit reader precondition 0<=n<=32");
  if (n == 0)
    return 0;
  if (b->cnt_bits < n)
    longjmp(*b->xmpeghd_jmp_buf, IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES);
  b->cnt_bits -= n;
  uint64_t v = nondet_vc_u64();
  v &= ((uint64_t)1 << n) - 1;
#ifdef VC_FORCE
  {
    int64_t f = vc_force(vc_rd_idx++, n);
    if (f >= 0)
      v = (uint64_t)f;
  }
#endif
  vc_rd_n = (uint64_t)n;
  vc_rd_v = v;
  if (vc_seq_cnt < VC_SEQ)
  {
    vc_seq_n[vc_seq_cnt] = n;
    vc_seq_v[vc_seq_cnt++] = (uint32_t)v;
  }
  vc_rd_hook(b, n, (uint32_t)v);
  return (uint32_t)v;
}
WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *b, WORD n) { return (WORD32)vc_rd(b, n); }
UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *b) { return vc_rd(b, 32); }
WORD32 ia_core_coder_skip_bits_buf(ia_bit_buf_struct *b, WORD n)
{
  __CPROVER_assert(n >= 0, "skip count is not negative");
  if (b->cnt_bits < n)
    longjmp(*b->xmpeghd_jmp_buf, IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES);
  b->cnt_bits -= n;
  vc_rd_n = (uint64_t)n;
  vc_rd_v = 0;
  return n;
}
