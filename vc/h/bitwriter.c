/* Contracts of the bit writer and the escape coded value writer. */
#include "vc.h"
#include "ia_core_coder_bitbuffer.h"
VOID ia_core_coder_read_escape_value(ia_bit_buf_struct *b, UWORD32 *v, UWORD32 n1, UWORD32 n2, UWORD32 n3);
#define VC_BYTES (1 << 20)
static unsigned char *base;
static uint8_t fill[16];
static uint32_t bytes, pos;
static ia_write_bit_buf_struct b, old;
static jmp_buf jb;

static void mk(int nfill)
{
  bytes = (uint32_t)vc_range(1, VC_BYTES);
  base = malloc(bytes);
  VC_ASSUME(base != 0);
  pos = (uint32_t)vc_range(0, VC_BYTES * 8 - 1);
  VC_ASSUME(pos < bytes * 8);
  for (int i = 0; i < nfill; i++)
  {
    fill[i] = vc_u8();
    if (pos / 8 + i < bytes)
      base[pos / 8 + i] = fill[i];
  }
  vc_havoc(&b, sizeof b);
  b.ptr_bit_buf_base = base;
  b.ptr_bit_buf_end = base + bytes - 1;
  b.ptr_write_next = base + pos / 8;
  b.ptr_read_next = base;
  b.write_position = 7 - (int)(pos & 7);
  b.cnt_bits = vc_range(0, VC_BYTES * 8);
  old = b;
}
/* one write: the addressed bits take the value, every other bit keeps its value */
void harness_write(void)
{
  int n = vc_range(0, 32);
  uint32_t v = vc_u32();
  mk(6);
  VC_ASSUME(pos + n <= bytes * 8);
  uint8_t before = 0;
  uint32_t k = (uint32_t)vc_range(0, VC_BYTES - 1); /* any other byte of the buffer */
  VC_ASSUME(k < bytes && (k < pos / 8 || k > pos / 8 + 4));
  before = base[k];
  int r = impeghd_write_bits_buf(&b, v, (UWORD8)n);
  uint64_t acc = 0, got = 0;
  for (int i = 0; i < 5; i++)
  {
    acc = (acc << 8) | (pos / 8 + i < bytes ? fill[i] : 0);
    got = (got << 8) | (pos / 8 + i < bytes ? base[pos / 8 + i] : 0);
  }
  int sh = 40 - (int)(pos & 7) - n;
  uint64_t m = n ? ((((uint64_t)1 << n) - 1) << sh) : 0;
  uint64_t want = (acc & ~m) | (n ? (((uint64_t)v << sh) & m) : 0);
  VC_ASSERT(got == want, "the written field holds the low bits of the value and its neighbours are kept");
  VC_ASSERT(base[k] == before, "bytes outside the written field are kept");
  VC_ASSERT(r == n, "the writer reports the number of bits written");
  VC_ASSERT(b.cnt_bits == old.cnt_bits + n, "the bit count grows by the bits written");
  uint32_t np = pos + (uint32_t)n;
  VC_ASSERT(b.write_position == 7 - (int)(np & 7), "bit position advances");
  VC_ASSERT(b.ptr_write_next == (np == bytes * 8 ? base : base + np / 8), "byte position advances");
  VC_ASSERT(b.ptr_bit_buf_base == old.ptr_bit_buf_base && b.ptr_bit_buf_end == old.ptr_bit_buf_end,
            "the write leaves the buffer description alone");
  if (n == 31 && (pos & 7) == 3) VC_REACH("write 31 unaligned");
}
/* any number of writes never leaves the buffer (it wraps): one step from any state keeps the invariant */
void harness_inside(void)
{
  int n = vc_range(0, 32);
  uint32_t v = vc_u32();
  mk(0);
  impeghd_write_bits_buf(&b, v, (UWORD8)n);
  VC_ASSERT(b.ptr_write_next >= base && b.ptr_write_next <= base + bytes - 1, "write position stays inside the buffer");
  VC_ASSERT(b.write_position >= 0 && b.write_position <= 7, "bit position stays inside a byte");
  VC_REACH("inside");
}
void harness_create(void)
{
  bytes = (uint32_t)vc_range(1, VC_BYTES);
  base = malloc(bytes);
  VC_ASSUME(base != 0);
  vc_havoc(&b, sizeof b);
  int r = impeghd_create_write_bit_buffer(&b, base, bytes, 1);
  VC_ASSERT(r == 0 && b.ptr_write_next == base && b.write_position == 7 && b.cnt_bits == 0 &&
            b.ptr_bit_buf_base == base && b.ptr_bit_buf_end == base + bytes - 1, "writing starts empty at the first bit");
  VC_REACH("create");
}
/* what was written reads back */
void harness_roundtrip(void)
{
  int n1 = vc_range(0, 24), n2 = vc_range(0, 24);
  uint32_t v1 = vc_u32(), v2 = vc_u32();
  VC_ASSUME((uint64_t)v1 < ((uint64_t)1 << n1) && (uint64_t)v2 < ((uint64_t)1 << n2));
  base = calloc(16, 1);
  VC_ASSUME(base != 0);
  int lead = vc_range(0, 7);
  impeghd_create_write_bit_buffer(&b, base, 16, 1);
  impeghd_write_bits_buf(&b, 0x55, (UWORD8)lead);
  impeghd_write_bits_buf(&b, v1, (UWORD8)n1);
  impeghd_write_bits_buf(&b, v2, (UWORD8)n2);
  ia_bit_buf_struct r;
  vc_havoc(&r, sizeof r);
  ia_core_coder_create_init_bit_buf(&r, base, 16);
  r.xmpeghd_jmp_buf = &jb;
  vc_shortage_ok = 0;
  ia_core_coder_skip_bits_buf(&r, lead);
  VC_ASSERT((uint32_t)ia_core_coder_read_bits_buf(&r, n1) == v1, "first value reads back");
  VC_ASSERT((uint32_t)ia_core_coder_read_bits_buf(&r, n2) == v2, "second value reads back");
  VC_ASSERT(128 - r.cnt_bits == b.cnt_bits, "reading consumes what writing produced");
  VC_REACH("roundtrip");
}
