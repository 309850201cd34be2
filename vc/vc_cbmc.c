/* CBMC side of vc.h: inputs, and the model of setjmp/longjmp. */
#include "vc.h"
#include "ia_core_coder_bitbuffer.h"
#include "impeghd_error_codes.h"
uint64_t nondet_vc_u64(void);
uint64_t vc_log;
int vc_shortage_ok = 1;
int32_t vc_bits0;
static jmp_buf vc_jb;

uint64_t vc_in(void)
{
  uint64_t v = nondet_vc_u64();
  vc_log = v;
  return v;
}
void vc_havoc(void *p, size_t n) { __CPROVER_havoc_slice(p, n); }

void vc_bitbuf_init(struct ia_bit_buf_struct *b)
{
  static unsigned char dummy[8];
  int32_t cnt = vc_range(0, 1 << 27);
  b->cnt_bits = cnt;
  vc_bits0 = cnt;
  b->ptr_bit_buf_base = dummy;
  b->ptr_bit_buf_end = dummy + 7;
  b->ptr_read_next = dummy;
  b->bit_pos = 7;
  b->size = cnt;
  b->max_size = cnt;
  b->xmpeghd_jmp_buf = &vc_jb;
}

/* An error exit: control goes back to the API-level setjmp with this code. */
void longjmp(jmp_buf env, int v)
{
  __CPROVER_assert(v == IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES,
                   "error exit reports insufficient input");
  __CPROVER_assert(vc_shortage_ok, "error exit only when input is short");
  __CPROVER_assume(0);
}
int _setjmp(jmp_buf env) { return 0; }
