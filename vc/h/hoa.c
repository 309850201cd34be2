/* Contracts of the HOA configuration and frame readers. */
#include "vc.h"
#ifdef CONF
#include "impeghd_hoa_config.c"
#else
#include "impeghd_hoa_frame.c"
#endif
#include "impeghd_hoa_common_functions.c"
static ia_bit_buf_struct B;
static int pos;
static uint32_t nx(int n)
{
  if (n == 0) return 0;
  VC_ASSERT(pos < VC_SEQ && vc_seq_n[pos] == n, "the field has the width the syntax gives it");
  return vc_seq_v[pos++];
}
/* smallest w with 2^w >= v (v <= 1 << 9) */
static int clog2(int v)
{
  return v <= 1 ? 0 : v <= 2 ? 1 : v <= 4 ? 2 : v <= 8 ? 3 : v <= 16 ? 4 : v <= 32 ? 5 : v <= 64 ? 6 : v <= 128 ? 7 : 8;
}
#ifdef FORCE
static const int64_t forced[] = FORCE;
int64_t vc_force(int i, int n)
{
  return i < (int)(sizeof forced / sizeof *forced) ? forced[i] : -1;
}
#endif
void harness_log2(void)
{
  int v = vc_range(-5, 256);
  VC_ASSERT(impeghd_hoa_get_ceil_log2(v) == clog2(v), "smallest width that counts to the value");
  VC_REACH("checked");
}
#ifdef CONF
/* square root: assumed correct to the next integer */
double stub_sqrt(double x)
{
  int n = (int)x;
  double r = vc_f64();
  int k = n >= 25 ? 5 : n >= 16 ? 4 : n >= 9 ? 3 : n >= 4 ? 2 : n >= 1 ? 1 : 0;
  VC_ASSUME(k * k == n ? r == (double)k : r > (double)k && r < (double)(k + 1));
  return r;
}
static const int stime[8] = {0, 64, 128, 256, 384, 512, 768, 1024};
void harness_config(void)
{
  vc_bitbuf_init(&B);
  static ia_hoa_config_struct C;
  vc_havoc(&C, offsetof(ia_hoa_config_struct, matrix));
  int nt = vc_range(1, 24), isq = nt >= 16 ? 4 : nt >= 9 ? 3 : nt >= 4 ? 2 : 1;
  int fl = vc_range(0, 1) ? 1024 : 768;
  C.num_transport_ch = nt, C.core_coder_frame_length = fl;
  IA_ERRORCODE r = impeghd_fill_config(&B, &C);
  VC_ASSERT((int)C.num_transport_ch == nt && C.core_coder_frame_length == fl, "the transport is kept");
  int o = nx(3);
  if (o == 7) o += nx(5);
  if (o > 6) { VC_ASSERT(r != 0, "an order above 6 is refused"); return; }
  int nc = (o + 1) * (o + 1);
  VC_ASSERT(C.order == o && (int)C.num_coeffs == nc, "order as transmitted");
  VC_ASSERT(C.is_screen_relative == (WORD32)nx(1), "screen flag as transmitted");
  VC_ASSERT(C.uses_nfc == (WORD32)nx(1), "near field flag as transmitted");
  if (C.uses_nfc)
  {
    union { float f; uint8_t b[4]; } u;
    u.f = C.nfc_ref_distance;
    for (int i = 0; i < 4; i++) { uint32_t b = nx(8); if (C.nfc_ref_distance == C.nfc_ref_distance) VC_ASSERT(u.b[i] == b, "reference distance as transmitted"); }
  }
  else VC_ASSERT(C.nfc_ref_distance == 0, "no reference distance");
  int m = nx(3);
  if (m == 7) m += nx(5);
  m--;
  if (m > o || m > isq - 1) { VC_ASSERT(r != 0, "an ambience order above the order or the transport is refused"); return; }
  int ma = (m + 1) * (m + 1), add = nt > ma ? nt - ma : 0;
  if (add > MAX_HOA_CHANNELS) { VC_ASSERT(r != 0, "more additional channels than the decoder holds are refused"); return; }
  VC_ASSERT(C.min_amb_order == m && C.min_coeffs_for_amb == ma && (int)C.num_addnl_coders == add && C.num_layers == 1, "ambience order and channels");
  VC_ASSERT(C.is_single_layer == (WORD32)nx(1), "layer flag as transmitted");
  int t = nx(3);
  int me = nx(1), vl = nx(2);
  if (vl == 3) { VC_ASSERT(r != 0, "the reserved vector length is refused"); return; }
  int g = nx(3), fi = nx(2);
  if (fi == 3 || fl != 1024) { VC_ASSERT(r != 0, "another frame length is refused"); return; }
  VC_ASSERT(C.coded_spat_interpolation_time == t && C.spat_interpolation_time == stime[t] && C.spat_interpolation_method == me, "interpolation as transmitted");
  VC_ASSERT(C.coded_v_vec_length == vl && C.max_gain_corr_amp_exp == g && C.frame_length_indicator == fi && C.frame_length == 1024, "vector length and gain range as transmitted");
  int mo = o;
  if (m < o)
  {
    mo = m + (int)nx(clog2(o - m + 1));
    if (mo > o) { VC_ASSERT(r != 0, "a transmitted order above the order is refused"); return; }
  }
  int mc = (mo + 1) * (mo + 1);
  VC_ASSERT(C.max_order_to_be_transmitted == mo && C.max_num_of_coeffs_to_be_transmitted == mc && C.max_num_add_active_amb_coeffs == mc - ma, "transmitted order");
  int vq = clog2(clog2(nc + 1)), ve = nx(vq);
  if (ve > 7) { VC_ASSERT(r != 0, "too wide a codebook count is refused"); return; }
  VC_ASSERT(C.vq_conf_bits == vq && C.num_v_vec_vq_elements_bits == ve, "codebook count width as transmitted");
  if (m == 1 && nx(1)) { VC_ASSERT(r != 0, "phase shift decorrelation is refused in this profile"); return; }
  VC_ASSERT(m != 1 || C.use_phase_shift_decorr == 0, "no phase shift decorrelation");
  int pd = nx(2) + 1, bs = nx(4) + 1;
  if (nx(2)) { VC_ASSERT(r != 0, "subband prediction is refused"); return; }
  if (nx(2)) { VC_ASSERT(r != 0, "parametric subbands are refused"); return; }
  VC_ASSERT(r == 0, "a valid configuration is accepted");
  VC_ASSERT((int)C.pred_dir_sigs == pd && C.num_bits_per_sf == bs && C.pred_subbands_idx == 0 && C.par_subband_table_idx == 0, "prediction as transmitted");
  int w = clog2(nc);
  VC_ASSERT(C.amb_asign_m_bits == clog2(mc - ma) && C.active_pred_ids_bits == w && C.index_length == w, "index widths count to what they index");
  VC_ASSERT(C.gain_corr_prev_amp_exp_bits == clog2(clog2(3 * nc / 2) + g + 1), "gain width counts to the largest exponent");
  int k = 0;
  for (int i = 1; i <= 8; i++) if (k == i - 1 && i * w + clog2(i) < nc) k = i;
  VC_ASSERT(C.num_active_pred_ids_bits == clog2(k > 1 ? k : 1), "prediction count width");
  int off = vl ? ma + 1 : 1;
  VC_ASSERT((int)C.idx_offset == off && C.v_vec_length_used == nc - off + 1, "coded part of a vector");
  VC_ASSERT(C.v_vec_length_used >= 0 && C.v_vec_length_used <= 49, "vectors fit the tables");
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  VC_REACH("accepted");
}
#endif

#ifdef NA
static ia_hoa_config_struct C;
static ia_hoa_frame_struct F, G;
static int nvec, vch[NA + 1], vix[NA + 1], bad;
IA_ERRORCODE stub_vvec(ia_bit_buf_struct *b, ia_hoa_frame_struct *f, WORD32 ch, WORD32 ix)
{
  VC_ASSERT(f == &F && b == &B && nvec < NA, "one vector for every vector channel");
  VC_ASSERT(f->prev_sgn_val_size[ix] == f->sgn_val_size[ix], "signs of the previous frame");
  vch[nvec] = ch, vix[nvec++] = ix;
  return bad == nvec ? -1 : 0;
}
static int zeros;
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v)
{
  zeros = n == 1 && v == 0 ? zeros + 1 : 0;
  VC_ASSUME(zeros <= ZMAX);
}
static int ones(void)
{
  int c = 1;
  for (int i = 0; i < ZMAX + 1 && !nx(1); i++) c++;
  return c;
}
void harness_frame(void)
{
  vc_bitbuf_init(&B);
  vc_havoc(&F, sizeof F);
  F.ptr_config_data = &C;
  int nc = (ORD + 1) * (ORD + 1);
  C.num_coeffs = nc, C.order = ORD, C.num_transport_ch = NT, C.num_addnl_coders = NA;
  C.min_coeffs_for_amb = vc_range(0, nc), C.max_num_add_active_amb_coeffs = vc_range(0, 49);
  VC_ASSUME(C.min_coeffs_for_amb + C.max_num_add_active_amb_coeffs <= nc);
  C.amb_asign_m_bits = clog2(C.max_num_add_active_amb_coeffs);
  C.coded_v_vec_length = vc_range(0, 2), C.is_single_layer = PRED ? 1 : vc_range(0, 1);
  C.gain_corr_prev_amp_exp_bits = vc_range(0, 4), C.num_v_vec_vq_elements_bits = vc_range(0, 7);
  C.num_active_pred_ids_bits = 1, C.active_pred_ids_bits = clog2(nc), C.pred_dir_sigs = PRED, C.num_bits_per_sf = vc_range(1, 16);
  for (int i = 0; i < NA; i++) VC_ASSUME(F.amb_coeff_idx[i] >= 0 && F.amb_coeff_idx[i] <= nc && F.amb_coeff_transition_state[i] <= 2);
  bad = vc_range(0, NA);
  G = F;
  IA_ERRORCODE r = impeghd_hoa_frame(&B, &F);
  int ind = nx(1), nv = 0, nd = 0, dir[NA + 1], vec[NA + 1], amb[50] = {0}, fade[50] = {0};
  VC_ASSERT(F.hoa_independency_flag == ind, "independence as transmitted");
  for (int i = 0; i < NT; i++)
  {
    int t = 3;
    if (i < NA)
    {
      t = nx(2);
      VC_ASSERT(F.channel_type[i] == t, "channel type as transmitted");
      if (t == 2)
      {
        int st, ix = G.amb_coeff_idx[i], rd = ind;
        if (ind) st = nx(2);
        else if (!nx(1)) st = 0;
        else if (G.amb_coeff_transition_state[i] <= 1) st = 2;
        else st = 1, rd = 1;
        if (st == 3) { VC_ASSERT(r != 0, "the reserved transition is refused"); return; }
        if (rd)
        {
          ix = nx(C.amb_asign_m_bits);
          if (ix >= C.max_num_add_active_amb_coeffs) { VC_ASSERT(r != 0, "a coefficient that is not transmitted is refused"); return; }
          ix += 1 + C.min_coeffs_for_amb;
        }
        VC_ASSERT((int)F.amb_coeff_transition_state[i] == st && F.amb_coeff_idx[i] == ix && ix >= 0 && ix <= nc, "ambience coefficient and its transition");
        if (C.coded_v_vec_length == 1 && st == 1) fade[ix] = 1;
        if (C.coded_v_vec_length == 1 && st == 0) amb[ix] = 1;
      }
      else if (t == 1)
      {
        int nq, keep = 0, nw = 0;
        if (ind)
        {
          if (C.coded_v_vec_length == 1) nw = nx(1);
          nq = nx(4);
          if (nq < 4) { VC_ASSERT(r != 0, "an independent vector has a quantiser"); return; }
        }
        else
        {
          nw = C.coded_v_vec_length == 1 && G.prev_channel_type[i] != 1;
          int a = nx(1), b = nx(1);
          keep = !a && !b;
          nq = keep ? G.prev_n_bits_q[i] : 8 * a + 4 * b + (int)nx(2);
        }
        VC_ASSERT((int)F.new_vec_channels[i] == nw && (int)F.n_bits_q[i] == nq, "vector quantiser as transmitted");
        if (keep)
          VC_ASSERT((int)F.num_vvec_indices[i] == G.prev_num_vvec_indices[i] && F.codebk_idx[i] == G.prev_codebk_idx[i] && F.cb_flag[i] == G.prev_cb_flag[i] && F.p_flag[i] == G.prev_p_flag[i], "a kept vector keeps the previous frame's coding");
        else if (nq == 4)
        {
          VC_ASSERT(F.codebk_idx[i] == (WORD32)nx(3), "codebook as transmitted");
          VC_ASSERT((int)F.num_vvec_indices[i] == 1 + (int)nx(C.num_v_vec_vq_elements_bits), "number of codebook vectors as transmitted");
        }
        else if (nq >= 6)
        {
          int pf = ind ? 0 : (int)nx(1);
          VC_ASSERT(F.p_flag[i] == pf && F.cb_flag[i] == (WORD32)nx(1), "prediction and codebook flags as transmitted");
        }
        vec[nv++] = i;
      }
      else if (t == 0)
      {
        uint32_t d = nx(10);
        if (d > 900) { VC_ASSERT(r != 0, "a direction outside the grid is refused"); return; }
        VC_ASSERT(F.active_dirs_ids[i] == d, "direction as transmitted");
        dir[nd++] = i;
      }
    }
    if (ind || i < NA)
    {
      int w = ind ? (int)nx(C.gain_corr_prev_amp_exp_bits) - clog2(3 * nc / 2) : 0;
      VC_ASSERT(F.gain_corr_prev_amp_exp[i] == w, "previous gain as transmitted");
    }
    int c = ones();
    if (c > HOA_MAX_CODED_GAIN) { VC_ASSERT(r != 0, "a gain out of range is refused"); return; }
    VC_ASSERT(F.coded_gain_correction_exp[i] == c && F.gain_correction_exception[i] == (WORD32)nx(1), "gain as transmitted");
  }
  VC_ASSERT((int)F.num_of_vec_sigs == nv && F.num_of_dir_sigs == nd, "signals counted");
  for (int i = 0; i < nv; i++) VC_ASSERT(F.vec_sig_channel_ids[i] == vec[i] + 1, "vector channels in order");
  for (int i = 0; i < nd; i++) VC_ASSERT(F.dir_sig_channel_ids[i] == dir[i] + 1, "direction channels in order");
  for (int i = 0; i <= nc; i++) VC_ASSERT((int)F.non_transitional_add_hoa_channels[i] == amb[i] && (int)F.fade_in_add_hoa_channels[i] == fade[i], "ambience channels of this frame only");
  for (int i = 0; i < NA; i++) if (F.channel_type[i] != 1) VC_ASSERT(F.new_vec_channels[i] == 0, "new vectors of this frame only");
  for (int i = 0; i < NA; i++)
    if (i < nv)
    {
      VC_ASSERT(nvec > i && vch[i] == vec[i] && vix[i] == i, "every vector channel has its vector read in order");
      if (bad == i + 1) { VC_ASSERT(r != 0, "an error of a vector is reported"); return; }
    }
  VC_ASSERT(nvec == nv, "no other vector is read");
#if PRED
  if (nd)
  {
    int np = 0, w = clog2(nd + 1), act[17] = {0};
    VC_ASSERT(F.ps_prediction_active == (WORD32)nx(1), "prediction flag as transmitted");
    if (F.ps_prediction_active)
    {
      VC_ASSERT(F.kind_of_coded_pred_ids == (WORD32)nx(1), "kind of prediction list as transmitted");
      if (F.kind_of_coded_pred_ids)
      {
        np = nx(1) + 1;
        for (int i = 0; i < 2; i++)
          if (i < np)
          {
            int p = nx(C.active_pred_ids_bits);
            if (p >= nc) { VC_ASSERT(r != 0, "a coefficient outside the order is refused"); return; }
            act[p] = 1;
          }
      }
      else
        for (int i = 0; i < nc; i++) act[i] = nx(1), np += act[i];
      VC_ASSERT(F.num_active_pred == np, "number of predictions");
      for (int i = 0; i < nc; i++) VC_ASSERT(F.active_pred[i] == act[i], "predictions as transmitted");
      for (int i = 0; i < nc * PRED; i++)
        if (i < np * PRED)
        {
          int d = nx(w);
          if (d > nd) { VC_ASSERT(r != 0, "a direction that does not exist is refused"); return; }
          VC_ASSERT(F.pred_dir_sig_ids[i] == (d ? dir[d - 1] + 1 : 0), "predicting direction as transmitted");
        }
    }
  }
#endif
  VC_ASSERT(r == 0, "a valid frame is accepted");
  for (int i = 0; i < NA; i++)
  {
    VC_ASSERT(F.prev_channel_type[i] == F.channel_type[i] && F.prev_n_bits_q[i] == (WORD32)F.n_bits_q[i] && F.prev_num_vvec_indices[i] == (WORD32)F.num_vvec_indices[i] && F.prev_codebk_idx[i] == F.codebk_idx[i] && F.prev_p_flag[i] == F.p_flag[i] && F.prev_cb_flag[i] == F.cb_flag[i], "this frame's coding is remembered");
    if (i < nv) VC_ASSERT(F.prev_sgn_val_size[i] == F.sgn_val_size[i], "this frame's signs are remembered");
  }
#if !PRED
  if (!(C.is_single_layer && nd)) VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
#endif
  VC_REACH("accepted");
}
#endif
#ifdef NQ
static ia_hoa_config_struct C;
static ia_hoa_frame_struct F, G;
static int hq[8], hx[8], hv[8], nh;
UWORD16 stub_huff(ia_bit_buf_struct *b, WORD32 n, WORD32 x)
{
  VC_ASSERT(b == &B && n == NQ && x >= 1 && x <= 5 && nh < 8, "a code book of the table");
  hx[nh] = x;
  return hv[nh++] = vc_range(0, NQ - 1);
}
#ifdef VQ
#define CUT(f) VC_ASSUME((int)F.num_vvec_indices[CH] == VQ)
#else
#define CUT(f) (void)0
#endif
#define CH 2
#define IX 1
void harness_vvec(void)
{
  vc_bitbuf_init(&B);
  vc_havoc(&F, sizeof F);
  F.ptr_config_data = &C;
  int nc = (ORD + 1) * (ORD + 1);
  C.num_coeffs = nc, C.order = ORD;
  C.idx_offset = nc + 1 - VL, C.v_vec_length_used = VL;
  F.n_bits_q[CH] = NQ;
  VC_ASSUME(F.sgn_val_size[IX] >= 0 && F.sgn_val_size[IX] <= 128 && F.codebk_idx[CH] >= 0 && F.codebk_idx[CH] <= 7);
  VC_ASSUME((F.cb_flag[CH] == 0 || F.cb_flag[CH] == 1) && (F.p_flag[CH] == 0 || F.p_flag[CH] == 1));
#if NQ != 4
  VC_ASSUME(F.sgn_val_size[IX] >= VL - 1);
#else
  VC_ASSUME(F.sgn_val_size[IX] >= VQ - 1);
#endif
  CUT(F);
  G = F;
  IA_ERRORCODE r = impeghd_hoa_frame_v_vector_data(&B, &F, CH, IX);
  VC_ASSERT(F.v_vec_length_used == VL, "vector length");
#if NQ == 4
  static const int wid[8] = {10, 6, 6, 6, -1, -1, -1, -1};
  int cb = G.codebk_idx[CH], w = cb == 0 ? 10 : cb <= 3 ? 6 : clog2(nc);
  int lim = cb == 0 ? 900 : cb <= 2 ? 34 : cb == 3 ? 64 : cb == 7 ? ORD == 4 ? 32 : nc : 1024, ok = 1;
  if (VQ > 1) VC_ASSERT(F.weight_idx[CH] == (WORD32)nx(8), "weight as transmitted");
  for (int j = 0; j < VQ; j++)
  {
    int v = (int)nx(w) + 1;
    VC_ASSERT(F.sgn_val[IX][j] == (UWORD8)nx(1), "sign as transmitted");
    VC_ASSERT((int)F.vvec_idx[j] == v, "codebook vector as transmitted");
    if (v > lim) ok = 0;
  }
  VC_ASSERT(ok == (r == 0), "exactly the vectors of the code book are accepted");
  if (!ok) return;
  VC_ASSERT(F.sgn_val_size[IX] == VQ, "number of signs");
#else
  VC_ASSERT(r == 0, "accepted");
#endif
  int q = 0;
  for (int k = 0; k < VL; k++)
  {
    int c = nc + 1 - VL + k, none = G.non_transitional_add_hoa_channels[c] != 0 || (G.new_vec_channels[CH] == 1 && G.fade_in_add_hoa_channels[c] == 1);
#if NQ == 4
    VC_ASSERT(F.additional_info[IX][k] == !none, "coefficients the ambience carries are left out");
#elif NQ == 5
    int v = none ? 128 : (int)nx(8);
    VC_ASSERT(F.c_8bit_quantizer_word[IX][k] == v, "uniform value as transmitted");
#elif NQ >= 6
    VC_ASSERT(F.element_bitmask[CH][k] == !none, "coefficients the ambience carries are left out");
    if (none) VC_ASSERT(F.decoded_huffmann_word[CH][k] == 0 && F.additional_value[CH][k] == 0, "a coefficient left out is zero");
    else
    {
      int book = G.cb_flag[CH] ? c >= 10 ? 3 : c >= 5 ? 2 : 1 : G.p_flag[CH] ? 4 : 5;
      VC_ASSERT(q < nh && hx[q] == book && F.decoded_huffmann_word[CH][k] == hv[q], "value of the coefficient's code book");
      if (hv[q] > 0) VC_ASSERT(F.sgn_val[IX][k] == (UWORD8)nx(1), "sign as transmitted");
      if (hv[q] > 0) VC_ASSERT((int)F.additional_value[CH][k] == (hv[q] > 1 ? (int)nx(hv[q] - 1) : 0), "additional value as transmitted");
      q++;
    }
#endif
  }
#if NQ >= 6
  VC_ASSERT(q == nh && F.sgn_val_size[IX] == VL, "one code word for every coded coefficient");
#endif
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  VC_REACH("accepted");
}
#endif
#ifdef HQ
void harness_huff(void)
{
  vc_bitbuf_init(&B);
  int x = HX, s = impeghd_hoa_huffman_decode(&B, HQ, x), w = 0, n = vc_seq_cnt, hit = 0;
  for (int i = 0; i < 15; i++) if (i < n) w = 2 * w + (int)nx(1);
  VC_ASSERT(n <= 15 && s >= 0 && s < HQ, "a value of the code book");
  for (int l = 0; l < HQ; l++)
    if (ia_hoa_frame_huffman_table[HQ - 6][x - 1][l].symbol == s && ia_hoa_frame_huffman_table[HQ - 6][x - 1][l].len == n && ia_hoa_frame_huffman_table[HQ - 6][x - 1][l].code_word == w) hit = 1;
  VC_ASSERT(hit, "exactly the code word of the value is read");
  VC_REACH("decoded");
}
#endif
