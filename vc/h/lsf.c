/* Contract of the LSF dequantiser: spectral frequencies ordered with the minimum gap. */
#include "vc.h"
#include "ia_core_coder_cnst.h"
#include "impeghd_intrinsics_flt.h"
#include "ia_core_coder_acelp_com.h"
#include "ia_core_coder_acelp_info.h"
#ifndef IDX0
#define IDX0 0
#endif
#ifndef LIM
#define LIM 100
#endif
double vc_sqrt(double x) { (void)x; return (double)vc_f32(); }
float vc_sqrtf(float x) { (void)x; return vc_f32(); }
static int kv_ok = 1, calls;
static WORD32 arr_lo, *arr;
VOID vc_gosset(WORD32 qn, WORD32 cb, WORD32 *kv, WORD32 *b)
{
  (void)qn; (void)cb;
  calls++;
  for (int i = 0; i < 8; i++) b[i] = vc_range(-LIM, LIM);
  if (qn > 0) arr_lo += kv[7] & 0; /* the extension index must be readable */
}
WORD32 ia_core_coder_avq_first_approx_rel(FLOAT32 *lsf, WORD32 *indx, WORD32 mode);
void harness_rel(void)
{
  static FLOAT32 lsf[16], l0[16];
  static WORD32 idx[20];
  int mode = vc_range(1, 3);
  for (int i = 0; i < 16; i++) { 
#ifdef GEN
    lsf[i] = l0[i] = vc_f32(); VC_ASSUME(VC_FINITE(lsf[i]) && lsf[i] >= 50.0f && lsf[i] <= 100000.0f);
#else
    lsf[i] = l0[i] = 400.0f * (i + 1) - (i & 1 ? 100.0f : 0.0f);
#endif
  }
  idx[0] = vc_range(0, 100);
  idx[1] = vc_range(0, 100);
  int pos = ia_core_coder_avq_first_approx_rel(lsf, idx, mode);
  VC_ASSERT(pos == 2 + (idx[0] > 0 ? 9 : 0) + (idx[1] > 0 ? 9 : 0), "exactly the indices of this filter are consumed");
  VC_ASSERT(calls == 2, "two lattice vectors make up one filter");
  int k = vc_range(1, 15);
  VC_ASSERT(lsf[0] >= 50.0f, "the lowest frequency keeps its distance from zero");
  VC_ASSERT(lsf[k] >= lsf[k - 1] + 50.0f, "frequencies are ordered with the minimum gap");
  if (lsf[15] > 3000.0f && pos == 20) VC_REACH("rel");
}

VOID ia_core_coder_alg_vec_dequant(ia_td_frame_data_struct *f, WORD32 first, FLOAT32 *lsf, WORD32 *mod, WORD32 num_div);
void harness_abs(void)
{
  static ia_td_frame_data_struct f;
  static FLOAT32 lsf[5 * 16 + 1];
  WORD32 mod[4] = {3, 3, 3, 3};
  int nd = vc_range(0, 1) ? 4 : 2;
  f.lpc_first_approx_idx[0] = IDX0;
  f.lpc_first_approx_idx[1] = vc_range(0, 100);
  f.lpc_first_approx_idx[2] = vc_range(0, 100);
  lsf[80] = 7.0f;
  ia_core_coder_alg_vec_dequant(&f, 0, lsf, mod, nd);
  float *l = lsf + nd * 16;
  int k = vc_range(1, 15), z = vc_range(0, 80);
  VC_ASSERT(l[0] >= 50.0f, "the lowest frequency keeps its distance from zero");
  VC_ASSERT(l[k] >= l[k - 1] + 50.0f, "frequencies are ordered with the minimum gap");
  if (z < nd * 16 || z >= nd * 16 + 16) VC_ASSERT(lsf[z] == (z == 80 ? 7.0f : 0.0f), "the other filters are left alone");
  if (nd == 4) VC_REACH("abs");
}

/* which filter starts from which: contracts of the two first approximations */
#ifdef SEL
static WORD32 *ibase;
static FLOAT32 *lbase, want_lsf[80];
static int ncall, seq_n, seq_o[6], seq_p[6], seq_m[6]; /* expected decodings: filter, index position, mode (0: absolute) */
static void expect(FLOAT32 *l, WORD32 *ix, int mode)
{
  VC_ASSERT(ncall < seq_n, "only transmitted filters are decoded");
  VC_ASSERT(l == lbase + 16 * seq_o[ncall] && ix == ibase + seq_p[ncall], "each filter is decoded from its own indices");
  VC_ASSERT(mode == seq_m[ncall], "each filter is decoded in its transmitted mode");
  ncall++;
}
WORD32 stub_abs(FLOAT32 *l, WORD32 *ix)
{
  expect(l, ix, 0);
  for (int i = 0; i < 16; i++) l[i] = (FLOAT32)(1000 * ncall + i);
  return 3;
}
WORD32 stub_rel(FLOAT32 *l, WORD32 *ix, WORD32 mode)
{
  expect(l, ix, mode);
  for (int i = 0; i < 16; i++) l[i] += (FLOAT32)(1000 * ncall);
  return 7;
}
#ifndef ND
#define ND 4
#endif
static void one(int first, int m0, int m2, int k0, int k2, int k1, int k3)
{
  static ia_td_frame_data_struct f;
  static FLOAT32 lsf[80];
  WORD32 mod[4] = {m0, m0, m2, m2};
  int order[5], kind[5], n = 0, call = 0;
  lbase = lsf, ibase = f.lpc_first_approx_idx;
  for (int i = 0; i < 80; i++) lsf[i] = want_lsf[i] = (FLOAT32)(i & 15) + 20.0f * (i >> 4);
  order[n] = ND, kind[n++] = 0;
  if (first) order[n] = 0, kind[n++] = k0;
  if (m0 < 3 && ND == 4) order[n] = 2, kind[n++] = k2;
  if (m0 < 2) order[n] = 1, kind[n++] = k1;
  if (m2 < 2 && ND == 4) order[n] = 3, kind[n++] = k3;
  /* the coded indices: mode, then the filter's codebook numbers */
  int p = 3;
  for (int j = 1; j < n; j++)
  {
    f.lpc_first_approx_idx[p++] = kind[j];
    if (order[j] == 1 && kind[j] == 1) continue;
    p += kind[j] == 0 ? 3 : 7;
  }
  ncall = 0;
  seq_n = 0;
  p = 0;
  for (int j = 0; j < n; j++)
  {
    int o = order[j], k = kind[j], pred = -1, mid = 0, mode = 0;
    if (j) p++;
    if (o == 0 && k == 1) pred = ND, mode = 3;
    if (o == 2 && k == 1) pred = 4, mode = 3;
    if (o == 1 && k == 2) pred = 2, mode = 2;
    if (o == 1 && k == 1) mid = 1;
    if (o == 3 && k == 3) pred = 4, mode = 2;
    if (o == 3 && k == 2) pred = 2, mode = 2;
    if (o == 3 && k == 1) mid = 1, mode = 1;
    int coded = !(o == 1 && k == 1);
    for (int i = 0; i < 16; i++)
    {
      float v;
      if (mid) v = 0.5f * (want_lsf[16 * (o - 1) + i] + want_lsf[16 * (o + 1) + i]);
      else if (pred >= 0) v = want_lsf[16 * pred + i];
      else v = (float)i;
      if (coded) v += (float)(1000 * (call + 1));
      want_lsf[16 * o + i] = v;
    }
    if (coded)
    {
      seq_o[seq_n] = o, seq_p[seq_n] = p, seq_m[seq_n] = mode, seq_n++;
      p += k == 0 ? 3 : 7;
      call++;
    }
  }
  ia_core_coder_alg_vec_dequant(&f, first, lsf, mod, ND);
  VC_ASSERT(ncall == call, "every transmitted filter is decoded");
  for (int i = 0; i < 80; i++) VC_ASSERT(lsf[i] == want_lsf[i], "each filter starts from its specified predecessor, the others are left alone");
}
void harness_sel(void)
{
  for (int first = FIRST; first <= FIRST; first++)
    for (int k0 = K0; k0 <= K0; k0++)
      for (int m0 = 0; m0 < 4; m0++)
        for (int m2 = 0; m2 < 4; m2++)
        {
          if (ND == 2 && m2) continue;
          for (int k2 = 0; k2 <= (m0 < 3 && ND == 4); k2++)
            for (int k1 = 0; k1 <= (m0 < 2 ? 2 : 0); k1++)
              for (int k3 = 0; k3 <= (m2 < 2 && ND == 4 ? 3 : 0); k3++)
                one(first, m0, m2, k0, k2, k1, k3);
        }
  VC_REACH("every mode");
}
#endif
