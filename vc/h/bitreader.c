/* Contracts of the bit reader.  State: buffer of `bytes` bytes (any length), `pos`
 * bits consumed, `cnt` bits still readable, cnt <= 8*bytes - pos. */
#include "vc.h"
#include "ia_core_coder_bitbuffer.h"
VOID ia_core_coder_read_escape_value(ia_bit_buf_struct *b, UWORD32 *v, UWORD32 n1, UWORD32 n2, UWORD32 n3);
#define VC_BYTES (1 << 27)
#ifdef VC_NATIVE
extern jmp_buf vc_jb;
#define jb vc_jb
#else
static jmp_buf jb;
#endif
static unsigned char *base;
static uint8_t fill[16];
static uint32_t bytes, pos;
static ia_bit_buf_struct b, old;

static void mk(int nfill)
{
  bytes = (uint32_t)vc_range(1, VC_BYTES);
  base = malloc(bytes);
  VC_ASSUME(base != 0);
  pos = (uint32_t)vc_range(0, VC_BYTES * 8 - 1);
  VC_ASSUME(pos <= bytes * 8);
  for (int i = 0; i < nfill; i++)
  {
    fill[i] = vc_u8();
    if (pos / 8 + i < bytes)
      base[pos / 8 + i] = fill[i];
    else
      fill[i] = 0;
  }
  int32_t cnt = vc_range(0, VC_BYTES * 8 - 1);
  VC_ASSUME((uint32_t)cnt <= bytes * 8 - pos);
  vc_havoc(&b, sizeof b);
  b.ptr_bit_buf_base = base;
  b.ptr_bit_buf_end = base + bytes - 1;
  b.ptr_read_next = base + pos / 8;
  b.bit_pos = 7 - (int)(pos & 7);
  b.cnt_bits = cnt;
  b.size = b.max_size = (int32_t)(bytes * 8 - 1 + 1);
  b.xmpeghd_jmp_buf = &jb;
  old = b;
}
/* the n bits that follow the read position, most significant bit first */
static uint32_t spec(int n)
{
  uint64_t acc = 0;
  for (int i = 0; i < 5; i++)
    acc = (acc << 8) | fill[i];
  return (uint32_t)((acc >> (40 - (int)(pos & 7) - n)) & (((uint64_t)1 << n) - 1));
}
static void frame(int n)
{
  uint32_t np = pos + (uint32_t)n;
  VC_ASSERT(b.cnt_bits == old.cnt_bits - n, "the read consumes exactly the requested bits");
  VC_ASSERT(b.ptr_read_next == base + np / 8 && b.bit_pos == 7 - (int)(np & 7),
            "read position advances by exactly the requested bits");
  VC_ASSERT(b.ptr_bit_buf_base == old.ptr_bit_buf_base && b.ptr_bit_buf_end == old.ptr_bit_buf_end &&
            b.size == old.size && b.max_size == old.max_size && b.xmpeghd_jmp_buf == old.xmpeghd_jmp_buf,
            "the read leaves the buffer description alone");
  for (int i = 0; i < 5; i++)
    VC_ASSERT(pos / 8 + i >= bytes || base[pos / 8 + i] == fill[i], "the read leaves the data alone");
}
void harness_read(void)
{
  int n = vc_range(0, 32);
  mk(5);
  vc_shortage_ok = n > 0 && b.cnt_bits < n;
  uint32_t r = (uint32_t)ia_core_coder_read_bits_buf(&b, n);
  VC_ASSERT(n == 0 || old.cnt_bits >= n, "a read past the end does not return");
  VC_ASSERT(r == (n ? spec(n) : 0), "read returns the next bits, MSB first");
  frame(n);
  if (n == 31 && (pos & 7) == 3) VC_REACH("read 31 unaligned");
}
void harness_read32(void)
{
  mk(5);
  vc_shortage_ok = b.cnt_bits < 32;
  uint32_t r = ia_core_coder_read_bits_buf_32(&b);
  VC_ASSERT(old.cnt_bits >= 32, "a read past the end does not return");
  VC_ASSERT(r == spec(32), "32-bit read returns the next bits, MSB first");
  frame(32);
  if ((pos & 7) == 3) VC_REACH("read32 unaligned");
}
void harness_show(void)
{
  int n = vc_range(0, 32);
  mk(5);
  vc_shortage_ok = n > 0 && b.cnt_bits < n;
  uint32_t r = (uint32_t)ia_core_coder_show_bits_buf(&b, n);
  VC_ASSERT(n == 0 || old.cnt_bits >= n, "a look-ahead past the end does not return");
  VC_ASSERT(r == (n ? spec(n) : 0), "look-ahead returns the next bits, MSB first");
  frame(0);
  if (n == 31 && (pos & 7) == 3) VC_REACH("show 31 unaligned");
}
void harness_skip(void)
{
  mk(5);
  int n = vc_range(0, VC_BYTES * 8 - 1);
  vc_shortage_ok = b.cnt_bits < n;
  int r = ia_core_coder_skip_bits_buf(&b, n);
  VC_ASSERT(old.cnt_bits >= n, "a skip past the end does not return");
  VC_ASSERT(r == n, "skip reports the number of bits skipped");
  frame(n);
  if (n == 12345 % (VC_BYTES * 4)) VC_REACH("skip");
}
void harness_create(void)
{
  bytes = (uint32_t)vc_range(1, VC_BYTES);
  base = malloc(bytes);
  VC_ASSUME(base != 0);
  vc_havoc(&b, sizeof b);
  old = b;
  ia_core_coder_create_init_bit_buf(&b, base, (int32_t)bytes);
  VC_ASSERT(b.cnt_bits == (int32_t)(bytes * 8) && b.size == b.cnt_bits && b.max_size == b.cnt_bits,
            "every bit of the new buffer is readable");
  VC_ASSERT(b.ptr_read_next == base && b.ptr_bit_buf_base == base && b.bit_pos == 7,
            "reading starts at the first bit");
  VC_ASSERT(b.ptr_bit_buf_end == base + bytes - 1, "the end is the last byte");
  VC_ASSERT(b.xmpeghd_jmp_buf == old.xmpeghd_jmp_buf, "the error exit is kept");
  VC_REACH("create");
}
/* histories: after any two operations the position is the sum of what was consumed */
void harness_pair(void)
{
  int n1 = vc_range(0, 24), n2 = vc_range(1, 8);
  mk(5);
  vc_shortage_ok = b.cnt_bits < n1 + n2;
  uint32_t look = (uint32_t)ia_core_coder_show_bits_buf(&b, n1 + n2);
  uint32_t a = (uint32_t)ia_core_coder_read_bits_buf(&b, n1);
  uint32_t c = (uint32_t)ia_core_coder_read_bits_buf(&b, n2);
  VC_ASSERT(look == (uint32_t)(((uint64_t)a << n2) | c), "look-ahead, split reads and joint reads agree");
  frame(n1 + n2);
  VC_REACH("pair");
}
