/* Contract of the algebraic vector dequantiser: every decoded vector is a point of the RE8 lattice. */
#include "vc.h"
VOID ia_core_coder_rotated_gosset_mtx_dec(WORD32 qn, WORD32 cb, WORD32 *kv, WORD32 *b);
VOID ia_core_coder_search_voronoi(WORD32 *x, WORD32 *y, WORD32 count, WORD32 *r1, WORD32 *r2);
static int re8(const WORD32 *b)
{
  int64_t s = 0;
  int par = b[0] & 1, ok = 1;
  for (int i = 0; i < 8; i++) { s += b[i]; ok &= (b[i] & 1) == par; }
  return ok && (s & 3) == 0;
}
#ifndef COUNT
#define COUNT 1
#define QODD 0
#define CB 0
#endif
#ifndef QN
#define QN 2
#endif
static WORD32 kv[8], kv0[8], b[8], b2[8];
void harness_base(void)
{
  for (int i = 0; i < 8; i++) { kv[i] = kv0[i] = vc_i32(); b[i] = vc_i32(); }
#ifdef CBHI
  int cb = (CBHI << 12) | vc_range(0, 4095);
#else
  int cb = vc_range(0, (1 << (4 * QN)) - 1);
#endif
  ia_core_coder_rotated_gosset_mtx_dec(QN, cb, kv, b);
  int64_t e = 0;
  for (int i = 0; i < 8; i++)
  {
    VC_ASSERT(kv[i] == kv0[i], "the extension index is only read");
    VC_ASSERT(b[i] >= -32 && b[i] <= 32, "base codebook coordinates are small");
    e += b[i] * b[i];
  }
#ifdef BASE
  VC_ASSERT(re8(b), "every base codevector is a lattice point");
#endif
  VC_REACH("base");
}
/* nearest lattice point search */
void harness_voronoi(void)
{
  WORD32 x[8], x0[8], y[8], r1[8], r2[8];
  int count = vc_range(1, 10);
  for (int i = 0; i < 8; i++)
  {
    x[i] = x0[i] = vc_range(-(1 << 20), 1 << 20);
    r1[i] = r2[i] = vc_range(0, (1 << count) - 1);
  }
  ia_core_coder_search_voronoi(x, y, count, r1, r2);
  VC_ASSERT(re8(y), "the search returns a lattice point");
  int k = vc_range(0, 7);
  VC_ASSERT(x[k] == x0[k], "the searched point is only read");
  VC_ASSERT(y[k] - x0[k] <= 4 && y[k] - x0[k] >= -4, "the lattice point is next to the searched one");
  VC_REACH("voronoi");
}
/* extended codebooks: m * base + voronoi offset */
void harness_ext(void)
{
  int count = COUNT, qn = 3 + QODD + 2 * count - 0;
  for (int i = 0; i < 8; i++) kv[i] = vc_range(0, (1 << count) - 1);
  /* a fixed base codevector isolates the extension */
  ia_core_coder_rotated_gosset_mtx_dec(qn, CB, kv, b);
  ia_core_coder_rotated_gosset_mtx_dec(3 + QODD, CB, kv, b2);
  VC_ASSERT(re8(b), "every extended codevector is a lattice point");
  /* the extension point is congruent to the index combination modulo the scaled lattice */
  int k = vc_range(0, 7);
  int lin = k == 0 ? kv[7] + 4 * kv[0] + 2 * (kv[1] + kv[2] + kv[3] + kv[4] + kv[5] + kv[6]) : k == 7 ? kv[7] : kv[7] + 2 * kv[k];
  int r = b[k] - b2[k] * (1 << count) - lin;
  VC_ASSERT((r & ((1 << count) - 1)) == 0, "the extension selects the coset of its index");
  if (r != 0) VC_REACH("ext");
}
