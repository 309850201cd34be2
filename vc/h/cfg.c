/* Contracts of the stream configuration. */
#include "vc.h"
#ifdef DA
/* The configuration structure without the members this function never touches: CBMC copies the whole
   object on every path merge. A use of a dropped member does not compile. */
#include <math.h>
#include <string.h>
#include <impeghd_type_def.h>
#include "impd_drc_common.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impd_drc_struct.h"
#include "impeghd_3d_vec_struct_def.h"
#include "impeghd_cicp_defines.h"
#include "impeghd_cicp_struct_def.h"
#include "impeghd_cicp_2_geometry.h"
#include "impeghd_cicp_2_geometry_rom.h"
#include "impeghd_intrinsics_flt.h"
#include "ia_core_coder_bitbuffer.h"
#include "ia_core_coder_defines.h"
#include <ia_core_coder_interface.h>
#include <ia_core_coder_info.h>
#include "ia_core_coder_rom.h"
#include "ia_core_coder_dec.h"
#include "ia_core_coder_channelinfo.h"
#include "ia_core_coder_channel.h"
#include "ia_core_coder_cnst.h"
#include <ia_core_coder_constants.h>
#include "impeghd_memory_standards.h"
#include "impeghd_config_params.h"
#include "impeghd_error_codes.h"
#include "impeghd_mhas_parse.h"
#include "impeghd_hoa_common_values.h"
#include "impeghd_hoa_matrix_struct.h"
#include "impeghd_hoa_matrix.h"
typedef struct { int dropped; } vc_dropped;
#define ia_drc_config vc_dropped
#define ia_drc_params_bs_dec_struct vc_dropped
#define ia_drc_loudness_info_set_struct vc_dropped
#define ia_hoa_matrix_struct vc_dropped
#include "ia_core_coder_config.h"
#undef ia_drc_config
#undef ia_drc_params_bs_dec_struct
#undef ia_drc_loudness_info_set_struct
#undef ia_hoa_matrix_struct
#define ia_mae_audio_scene_info vc_dropped
#include "ia_core_coder_struct.h"
#undef ia_mae_audio_scene_info
#include "impeghd_cicp_2_geometry_rom.c"
#include "ia_core_coder_rom.c"
#endif
#include "ia_core_coder_init_config.c"
#include "ia_core_coder_bitbuffer.h"
static ia_bit_buf_struct B;
static int pos;
static uint32_t nx(int n)
{
  VC_ASSERT(pos < VC_SEQ && vc_seq_n[pos] == n, "the field has the width the syntax gives it");
  return vc_seq_v[pos++];
}
#define ESC(a, b, c) nx(10000 * (a) + 100 * (b) + (c))
#ifdef FORCE
static const int64_t forced[] = FORCE;
int64_t vc_force(int i, int n)
{
  return i < (int)(sizeof forced / sizeof *forced) ? forced[i] : -1;
}
#endif
#ifdef VC_HOOK
static int nread;
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v)
{
  VC_ASSUME(++nread <= RD_CUT);
}
#endif
/* contract of the escape reader, proved by P02 */
#ifndef ESC_CUT
#define ESC_CUT(k, v) 1
#endif
static int nesc;
VOID stub_escape(ia_bit_buf_struct *b, UWORD32 *val, UWORD32 n1, UWORD32 n2, UWORD32 n3)
{
  uint32_t m1 = (1u << n1) - 1, m2 = (1u << n2) - 1, m3 = n3 ? (1u << n3) - 1 : 0, v = vc_u32();
  VC_ASSUME(v <= m1 + m2 + m3);
#ifdef ESC_FORCE
  static const int64_t ef[] = ESC_FORCE;
  if (nesc < (int)(sizeof ef / sizeof *ef) && ef[nesc] >= 0) v = (uint32_t)ef[nesc];
#endif
  VC_ASSUME(ESC_CUT(nesc, v));
  int k = v < m1 ? n1 : v < m1 + m2 ? n1 + n2 : n1 + n2 + n3;
  VC_ASSUME(b->cnt_bits >= k);
  b->cnt_bits -= k;
  nesc++;
  if (vc_seq_cnt < VC_SEQ) vc_seq_n[vc_seq_cnt] = 10000 * n1 + 100 * n2 + n3, vc_seq_v[vc_seq_cnt++] = v;
  *val = v;
}
static int eqesc(uint32_t v, int n1, int n2)
{
  uint32_t m1 = (1u << n1) - 1, m2 = (1u << n2) - 1;
  return v < m1 ? n1 : v < m1 + m2 ? n1 + n2 : -1;
}

#ifdef NO
void harness_prod_metadata(void)
{
  vc_bitbuf_init(&B);
  static ia_usac_config_struct *u;
  u = malloc(sizeof *u);
  VC_ASSUME(u != NULL);
  u->signals_3d.num_obj_based_groups = NO, u->signals_3d.num_ch_based_groups = NC;
  IA_ERRORCODE r = impeghd_prod_metadata_config(&B, u);
  ia_prod_meta_data_struct *p = &u->str_prod_metat_data;
  VC_ASSERT(r == 0, "accepted");
  VC_ASSERT(p->has_reference_distance == (WORD32)nx(1), "reference distance flag as transmitted");
  VC_ASSERT(p->bs_reference_distance == (p->has_reference_distance ? (WORD32)nx(7) : 57), "reference distance as transmitted, 57 by default");
  for (int i = 0; i < NO; i++) VC_ASSERT(p->has_object_distance[i] == (WORD32)nx(1), "object distance flag of every object group");
  for (int i = 0; i < NC; i++) VC_ASSERT(p->direct_head_phone[i] == (WORD32)nx(1), "headphone flag of every channel group");
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  if (p->has_reference_distance) VC_REACH("reference distance");
}
#endif

#ifdef TY
/* content readers of the extension elements: consume any number of bits, may refuse */
static int used, content_err, ncontent;
static int content(void)
{
  used = vc_range(0, 20000);
  VC_ASSUME(B.cnt_bits >= used);
  B.cnt_bits -= used;
  ncontent++;
  return content_err = vc_range(0, 1) ? (int)IA_MPEGH_OAM_INIT_FATAL_UNSUPPORTED_NUM_OBJS : 0;
}
static ia_usac_config_struct *U;
IA_ERRORCODE stub_prod(ia_bit_buf_struct *b, ia_usac_config_struct *u) { VC_ASSERT(b == &B && u == U, "the configuration's own"); return content(); }
IA_ERRORCODE stub_enh(ia_enh_oam_config_struct *c, ia_bit_buf_struct *b, WORD32 n)
{
  VC_ASSERT(b == &B && c == &U->enh_obj_md_cfg, "the configuration's own");
  VC_ASSERT(n == (WORD32)U->signals_3d.num_audio_obj && n <= 24, "as many objects as the tables hold");
  return content();
}
IA_ERRORCODE stub_oam(ia_oam_dec_config_struct *c, ia_bit_buf_struct *b, WORD32 fl, WORD32 n)
{
  VC_ASSERT(b == &B && c == &U->obj_md_cfg && fl == 1024, "the configuration's own");
  VC_ASSERT(n == (WORD32)U->signals_3d.num_audio_obj && n <= 24, "as many objects as the tables hold");
  return content();
}
IA_ERRORCODE stub_hoa(ia_bit_buf_struct *b, ia_hoa_config_struct *c)
{
  VC_ASSERT(b == &B && c == &U->str_usac_dec_config.str_hoa_config && c->core_coder_frame_length == 1024, "the configuration's own");
  return content();
}
#define ISLEN(k, v) ((k) != 1 || (v) <= 6 || (v) >= 1530)
void harness_ext_element(void)
{
  vc_bitbuf_init(&B);
  U = malloc(sizeof *U);
  VC_ASSUME(U != NULL);
  U->signals_3d.num_audio_obj = vc_range(0, 400);
  U->enh_obj_md_present = 0;
  static ia_usac_dec_element_config_struct E;
  static UWORD8 pay[MAX_EXT_ELE_PAYLOAD];
  WORD32 plen = vc_i32(), pre = 0, type = -5;
  int idx = vc_range(0, 49), bits0 = B.cnt_bits;
  IA_ERRORCODE r = ia_core_coder_ext_element_config(&B, &E, pay, &plen, &pre, &type, U, 1024, idx);
  uint32_t t = ESC(4, 8, 16), len = ESC(4, 8, 16);
  VC_ASSERT(type == (WORD32)t, "element type as transmitted");
  if (len >= 1536) { VC_ASSERT(r != 0, "an element longer than the tables hold is refused"); return; }
  uint32_t flag = nx(1), dl = 0;
  if (flag) dl = ESC(8, 16, 0) + 1;
  uint32_t frag = nx(1);
  VC_ASSERT(E.usac_ext_eleme_def_len == dl && E.usac_ext_elem_pld_frag == frag, "default length and fragmentation as transmitted");
  int head = 2 + eqesc(t, 4, 8) + (len < 15 ? 4 : len < 270 ? 12 : 28) + (flag ? (dl - 1 < 255 ? 8 : 24) : 0);
  int objs = (t == 5 || t == 13) && U->signals_3d.num_audio_obj > 24;
  int refuse = 0;
  if (t == 5 || t == 7 || t == 13 || t == 14)
  {
    VC_ASSERT(objs ? ncontent == 0 : ncontent == 1, "the content is read once, never for more objects than the tables hold");
    refuse = objs || content_err || used > (int)len * 8;
  }
  else
    VC_ASSERT(ncontent == 0, "no other content");
  if (t == 4 || t == 9) refuse = frag || (t == 9 && len == 0);
  if (t == 3) refuse = idx != 0 || frag || flag || len;
  if (t == 0) refuse = frag || len;
  if (t != 0 && t != 3 && t != 4 && t != 5 && t != 7 && t != 9 && t != 13 && t != 14 && r) { VC_ASSERT((bits0 - head) / 8 < (int)len, "an unknown element is only refused when it is longer than the input"); return; }
  VC_ASSERT((r != 0) == refuse, "refused exactly when the profile or the content does not allow it");
  if (r) {
#if TY != 1 && TY != 200
    VC_REACH("refused");
#endif
    return;
  }
  VC_ASSERT(bits0 - B.cnt_bits == head + (int)len * 8, "the element ends at its announced length");
  VC_ASSERT(plen == (t == 4 || t == 5 || t == 7 || t == 9 ? (WORD32)len : 0), "payload length as announced");
  VC_ASSERT(pre == (t == 3), "pre-roll flag");
  VC_ASSERT(U->enh_obj_md_present == (t == 13), "enhanced object metadata flag");
  if (t == 4 || t == 9)
    for (int i = 0; i < 6; i++) if (i < (int)len) VC_ASSERT(pay[i] == nx(8), "payload byte as transmitted");
  if (TY == 0 || TY == 3 || len == 5) VC_REACH("accepted");

}
#endif

#ifdef ELC
/* element list: contracts of the two element readers */
static int next, ext_err, ncpe, next_at[ELC], cpe_at[ELC], cpe_err;
static ia_usac_config_struct *U;
IA_ERRORCODE stub_ext(ia_bit_buf_struct *b, ia_usac_dec_element_config_struct *e, UWORD8 *pay, WORD32 *plen, WORD32 *pre, WORD32 *ty, ia_usac_config_struct *u, WORD32 ccfl, WORD32 idx)
{
  ia_usac_decoder_config_struct *d = &U->str_usac_dec_config;
  VC_ASSERT(idx >= 0 && idx < ELC && e == &d->str_usac_element_config[idx] && pay == d->usac_ext_ele_payload_buf[idx] && plen == &d->usac_ext_ele_payload_len[idx] && pre == &d->preroll_flag &&
            ty == &d->ia_ext_ele_payload_type[idx] && u == U && ccfl == 1024, "the element's own tables");
  next_at[next++] = idx;
  *plen = vc_range(0, 1535);
  ext_err = vc_range(0, 1);
  return ext_err;
}
IA_ERRORCODE stub_cpe(ia_bit_buf_struct *b, ia_usac_dec_element_config_struct *e, WORD32 sbr, WORD32 *noc, ia_signals_3d *s)
{
  ia_usac_decoder_config_struct *d = &U->str_usac_dec_config;
  int idx = e - d->str_usac_element_config;
  VC_ASSERT(idx >= 0 && idx < ELC && sbr == 0 && noc == d->num_output_chns && s == &U->signals_3d, "the element's own tables");
  cpe_at[ncpe++] = idx;
  cpe_err = vc_range(0, 1);
  return cpe_err;
}
VOID stub_map(WORD32 *noc, WORD32 i, WORD32 c, WORD32 *index) { VC_ASSERT(noc == U->str_usac_dec_config.num_output_chns && i == 0 && c == 0, "no shift"); *index = 0; }
void harness_elements(void)
{
  vc_bitbuf_init(&B);
  U = malloc(sizeof *U);
  VC_ASSUME(U != NULL);
  ia_usac_decoder_config_struct *d = &U->str_usac_dec_config;
  IA_ERRORCODE r = ia_core_coder_decoder_config(&B, U);
  uint32_t n = ESC(4, 8, 16) + 1;
  VC_ASSERT(d->num_elements == n && d->preroll_flag == 0, "as many elements as transmitted");
  if (n > 50) { VC_ASSERT(r != 0 && vc_seq_cnt == 1, "more elements than the tables hold are refused"); VC_REACH("too many"); return; }
  VC_ASSERT(d->ele_length_present == (WORD32)nx(1), "element length flag as transmitted");
  int ne = 0, nc = 0;
  for (uint32_t i = 0; i < ELC; i++)
  {
    if (i >= n) break;
    uint32_t t = nx(2);
    ia_usac_dec_element_config_struct *e = &d->str_usac_element_config[i];
    VC_ASSERT(d->usac_element_type[i] == t, "element type as transmitted");
    if (t == 3)
    {
      VC_ASSERT(ne < next && next_at[ne++] == (int)i, "extension elements are read at their place");
      if (ne == next && ext_err) { VC_ASSERT(r != 0, "a refused element is reported"); return; }
      VC_ASSERT(d->usac_ext_ele_payload_present[i] == (d->usac_ext_ele_payload_len[i] > 0), "payload flag");
    }
    else if (t == 1)
    {
      VC_ASSERT(nc < ncpe && cpe_at[nc++] == (int)i, "channel pairs are read at their place");
      if (nc == ncpe && cpe_err) { VC_ASSERT(r != 0, "a refused element is reported"); return; }
    }
    else if (t == 2)
      VC_ASSERT(e->noise_filling == 0 && e->tw_mdct == 0 && e->stereo_config_index == 0, "low frequency elements use no tools");
    else
    {
      ia_usac_igf_init_config_struct *g = &e->str_usac_ele_igf_init_config;
      uint32_t tw = nx(1);
      VC_ASSERT(e->tw_mdct == tw, "flag as transmitted");
      if (tw) { VC_ASSERT(r != 0, "time warping is refused"); VC_REACH("time warping"); return; }
      VC_ASSERT(e->full_band_lpd == nx(1), "flag as transmitted");
      VC_ASSERT(e->noise_filling == nx(1), "flag as transmitted");
      VC_ASSERT(e->enhanced_noise_filling == nx(1), "flag as transmitted");
      VC_ASSERT(e->stereo_config_index == 0, "single channel");
      if (e->enhanced_noise_filling)
      {
        VC_ASSERT(g->igf_use_enf == (WORD8)nx(1), "flag as transmitted");
        VC_ASSERT(g->igf_use_high_resolution == (WORD8)nx(1), "flag as transmitted");
        VC_ASSERT(g->igf_use_whitening == (WORD8)nx(1), "flag as transmitted");
        VC_ASSERT(g->igf_after_tns_synth == (WORD8)nx(1), "flag as transmitted");
        VC_ASSERT(g->igf_start_index == (WORD8)nx(5), "index as transmitted");
        VC_ASSERT(g->igf_stop_index == (WORD8)nx(4), "index as transmitted");
        VC_ASSERT(g->igf_independent_tilling == 1, "single channels tile independently");
      }
    }
  }
  VC_ASSERT(r == 0 && vc_seq_cnt == pos && ne == next && nc == ncpe, "nothing else is read");
  if (n == ELC) VC_REACH("accepted");
}
#endif
/* next free output channel */
#ifdef KMAP
void harness_map(void)
{
  static WORD32 noc[50];
  int k = KMAP, sh = vc_range(0, 1), sc = vc_range(0, 15);
  for (int i = 0; i < 50; i++) noc[i] = i < k ? i : -1;
  WORD32 ix = -1;
  ia_core_coder_map_ele_to_channel(noc, sh, sc, &ix);
  VC_ASSERT(ix == k, "the next free output");
  for (int i = 0; i < 50; i++) VC_ASSERT(noc[i] == (i < k ? i : i > k ? -1 : sh ? k + sc + 1 : k), "outputs are numbered in order, shifted by the transmitted distance");
  VC_REACH("mapped");
}
#endif
#ifdef CPE
static int nmap, map_sh[2], map_sc[2];
static WORD32 NOC[50];
VOID stub_map2(WORD32 *noc, WORD32 i, WORD32 c, WORD32 *index)
{
  VC_ASSERT(noc == NOC && nmap < 2, "two channels");
  map_sh[nmap] = i, map_sc[nmap] = c;
  *index = nmap++;
  noc[*index] = vc_range(0, 40);
}
void harness_cpe(void)
{
  vc_bitbuf_init(&B);
  static ia_usac_dec_element_config_struct E;
  ia_signals_3d *SP = malloc(sizeof *SP);
  VC_ASSUME(SP != NULL);
#define S (*SP)
  int a = NCH / 3, h = NCH - 2 * a, c = a, n = NCH;
  S.num_saoc_transport_ch = 0, S.num_audio_obj = a, S.num_hoa_transport_ch = h, S.num_ch = c;
  IA_ERRORCODE r = ia_core_coder_cpe_config(&B, &E, 0, NOC, &S);
  ia_usac_igf_init_config_struct *g = &E.str_usac_ele_igf_init_config;
  int nb = n > 8 ? 4 : n > 4 ? 3 : n > 2 ? 2 : 1;
  VC_ASSERT(E.tw_mdct == nx(1), "flag as transmitted");
  if (E.tw_mdct) { VC_ASSERT(r != 0, "time warping is refused"); return; }
  VC_ASSERT(E.full_band_lpd == nx(1), "flag as transmitted");
  VC_ASSERT(E.noise_filling == nx(1), "flag as transmitted");
  VC_ASSERT(E.enhanced_noise_filling == nx(1), "flag as transmitted");
  if (E.enhanced_noise_filling)
  {
    VC_ASSERT(g->igf_use_enf == (WORD8)nx(1), "flag as transmitted");
    VC_ASSERT(g->igf_use_high_resolution == (WORD8)nx(1), "flag as transmitted");
    VC_ASSERT(g->igf_use_whitening == (WORD8)nx(1), "flag as transmitted");
    VC_ASSERT(g->igf_after_tns_synth == (WORD8)nx(1), "flag as transmitted");
    VC_ASSERT(g->igf_start_index == (WORD8)nx(5), "index as transmitted");
    VC_ASSERT(g->igf_stop_index == (WORD8)nx(4), "index as transmitted");
    VC_ASSERT(g->igf_independent_tilling == (WORD8)nx(1), "flag as transmitted");
  }
  if (nx(2)) { VC_ASSERT(r != 0, "quad channel elements are refused"); VC_REACH("quad"); return; }
  uint32_t sh = nx(1), sc = sh ? nx(nb) : 0;
  VC_ASSERT(nmap == 2 && map_sh[0] == 0 && map_sc[0] == 0 && map_sh[1] == (int)sh && map_sc[1] == (int)sc, "both channels get an output, the second shifted as transmitted");
  if ((int)sc > NOC[1]) { VC_ASSERT(r != 0, "a shift beyond its group is refused"); return; }
  VC_ASSERT(r == 0 && E.lpd_stereo_index == nx(1) && pos == vc_seq_cnt, "nothing else is read");
  if (sh && E.enhanced_noise_filling) VC_REACH("shifted");
#undef S
}
#endif
void harness_sig_group(void)
{
  vc_bitbuf_init(&B);
  static ia_signals_3d S;
  static const int counts[] = {1, 2, 15, 16};
  for (int q = 0; q < 4; q++)
  {
    S.num_sig_group = counts[q];
    pos = vc_seq_cnt = 0;
    impeghd_sig_group_info(&B, &S);
    for (int i = 0; i < counts[q]; i++)
    {
      VC_ASSERT(S.group_priority[i] == nx(3), "priority of every group as transmitted");
      VC_ASSERT(S.fixed_position[i] == nx(1), "position flag of every group as transmitted");
    }
    VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  }
  VC_REACH("groups");
}
void harness_compat(void)
{
  vc_bitbuf_init(&B);
  static ia_struct_compatible_profile_config C;
  vc_havoc(&C, sizeof C);
  impeghd_compatible_profile_level_set(&B, &C);
  uint32_t n = nx(4), lc = 0x0f, bp = 0x14;
  VC_ASSERT(C.bsnum_compatible_sets == n, "count as transmitted");
  VC_ASSERT(C.reserved == nx(4), "reserved bits");
  for (uint32_t i = 0; i < 16; i++)
  {
    if (i > n) break;
    uint32_t v = nx(8);
    VC_ASSERT(C.compatible_set_indication[i] == v, "every set as transmitted");
    if (v >= 0x0b && v < lc) lc = v;
    if (v >= 0x10 && v < bp) bp = v;
  }
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  VC_ASSERT(C.compat_lc_lvl == lc && C.compat_bp_lvl == bp, "the lowest compatible level of either profile");
  if (n == 15 && lc == 0x0c) VC_REACH("sixteen sets");
}
#ifdef DMX
void harness_dmx(void)
{
  vc_bitbuf_init(&B);
  static ia_usac_ext_cfg_dmx_cfg D;
  int lay = vc_range(0, 20);
  IA_ERRORCODE r = impeghd_parse_dmx_ext_config(&B, lay, &D);
  uint32_t t = nx(2), id = 0;
  VC_ASSERT(D.dmx_config_type == t, "type as transmitted");
#if DMX == 9
  VC_REACH("refused");
#endif
  if (t == 3) { VC_ASSERT(r != 0, "a reserved type is refused"); return; }
  if (t != 1)
  {
    VC_ASSERT(D.passive_dmx_flag == nx(1), "passive flag as transmitted");
    if (!D.passive_dmx_flag && nx(3)) { VC_ASSERT(r != 0, "phase alignment is refused"); return; }
    VC_ASSERT(D.immersive_downmix_flag == nx(1), "immersive flag as transmitted");
  }
  if (t)
  {
    uint32_t n = nx(5);
    VC_ASSERT(D.downmix_id_count == n, "count as transmitted");
    if (n > 6) { VC_ASSERT(r != 0, "more matrices than the tables hold are refused"); return; }
    for (uint32_t i = 0; i < n && i < DMX; i++)
    {
      ia_usac_ext_cfg_dmx_mtx *m = &D.dmx_matrix[i];
      uint32_t mid = nx(7), mt = nx(2);
      if (mid == 0 || mid == 127) { VC_ASSERT(r != 0, "reserved identifiers are refused"); return; }
      VC_ASSERT((uint8_t)m->dmx_id == mid && m->dmx_type == (WORD32)mt, "identifier and type as transmitted");
      if (mt > 1) { VC_ASSERT(r != 0, "reserved types are refused"); return; }
      uint32_t l = nx(6);
      VC_ASSERT(m->cicp_spk_layout_idx == (WORD32)l, "layout as transmitted");
      if (mt)
      {
        uint32_t mc = ESC(1, 3, 0) + 1;
        VC_ASSERT(m->downmix_mtx_count == (WORD32)mc, "matrix count as transmitted");
        if (mc > 8) { VC_ASSERT(r != 0, "more matrices than the tables hold are refused"); return; }
        for (uint32_t k = 0; k < mc && k < 2; k++)
        {
          uint32_t g = ESC(1, 4, 4);
          if (g >= 16) { VC_ASSERT(r != 0, "more groups than the tables hold are refused"); return; }
          VC_ASSERT(m->num_assigned_group_ids[k] == (WORD32)g + 1, "group count as transmitted");
          for (uint32_t q = 0; q <= g && q < 2; q++) VC_ASSERT(m->signal_group_id[k][q] == (WORD32)nx(5), "group as transmitted");
          uint32_t len = ESC(8, 8, 12);
          if (len > 2048) { VC_ASSERT(r != 0, "a matrix larger than its table is refused"); return; }
          VC_ASSERT(m->dmx_matrix_len_bits[k] == (WORD32)len, "matrix length as transmitted");
          for (uint32_t q = 0; q < len / 8 && q < 3; q++) VC_ASSERT((uint8_t)m->downmix_matrix[k][q] == nx(8), "matrix byte as transmitted");
          if (len % 8) VC_ASSERT((uint8_t)m->downmix_matrix[k][len / 8] == (uint8_t)(nx(len % 8) << (8 - len % 8)), "last bits of the matrix, left aligned");
        }
      }
      if (l > 20) { VC_ASSERT(r != 0, "a layout that does not exist is refused"); return; }
      if ((int)l == lay) id = mid;
    }
  }
  VC_ASSERT(r == 0 && pos == vc_seq_cnt && D.dmx_id == id, "the matrix of the target layout is selected");
#if DMX != 9
  VC_REACH("accepted");
#endif
}
#endif

#ifdef XN
/* configuration extensions: contracts of the content readers */
static int used[XN + 1], cerr[XN + 1], ctype[XN + 1], nc;
static ia_usac_decoder_config_struct *D;
static ia_signals_3d *SG;
static ia_mae_audio_scene_info *ASI;
static int LAY;
static int content(int ty)
{
  VC_ASSERT(nc < XN, "one content per extension");
  int u = vc_range(0, 20000);
  VC_ASSUME(B.cnt_bits >= u);
  B.cnt_bits -= u;
  used[nc] = u, ctype[nc] = ty;
  return cerr[nc++] = (ty == 6 || ty == 7) ? 0 : vc_range(0, 1);
}
IA_ERRORCODE stub_hoamat(ia_bit_buf_struct *b, WORD32 n, WORD32 id, pWORD32 pres, WORD32 *mi, FLOAT32 *m, ia_hoa_matrix_struct *d)
{
  VC_ASSERT(n == (WORD32)D->str_hoa_config.num_coeffs && id == D->cicp_idx && id <= 24, "the configuration's own");
  return content(4);
}
IA_ERRORCODE stub_dmx(ia_bit_buf_struct *b, WORD32 lay, ia_usac_ext_cfg_dmx_cfg *d) { VC_ASSERT(lay == LAY && d == &D->dmx_cfg, "the configuration's own"); return content(1); }
IA_ERRORCODE stub_asi(ia_mae_audio_scene_info *a, ia_bit_buf_struct *b) { VC_ASSERT(a == ASI, "the configuration's own"); return content(3); }
VOID stub_sig(ia_bit_buf_struct *b, ia_signals_3d *s) { VC_ASSERT(s == SG, "the configuration's own"); content(6); }
IA_ERRORCODE stub_compat(ia_bit_buf_struct *b, ia_struct_compatible_profile_config *c) { VC_ASSERT(c == &D->str_compatible_profile_config, "the configuration's own"); return content(7); }
void harness_extensions(void)
{
  vc_bitbuf_init(&B);
  D = malloc(sizeof *D), SG = malloc(sizeof *SG), ASI = malloc(sizeof *ASI);
  VC_ASSUME(D && SG && ASI);
  LAY = vc_range(0, 20);
  D->cicp_idx = LAY;
  ASI->num_switch_groups = vc_range(0, 3), D->ele_length_present = vc_range(0, 1);
  D->hoa_matrix_ext_config_present = D->loudness_ext_config_present = D->compat_profile_cfg_present = 0, SG->signal_grp_info_present = 0;
  int bits0 = B.cnt_bits;
  IA_ERRORCODE r = ia_core_coder_config_extension(&B, D, SG, ASI, LAY);
  uint32_t n = ESC(2, 4, 8) + 1;
#if XN == 0
  VC_REACH("too many");
#endif
  if (n > 5) { VC_ASSERT(r != 0 && vc_seq_cnt == 1, "more extensions than the tables hold are refused"); return; }
  VC_ASSERT(D->num_config_extensions == n, "as many extensions as transmitted");
  int bits = n - 1 < 3 ? 2 : 6, c = 0, seen = 0;
  for (uint32_t j = 0; j < XN; j++)
  {
    if (j >= n) break;
    uint32_t t = ESC(4, 8, 16), len = ESC(4, 8, 16);
    VC_ASSERT(D->usac_cfg_ext_info_type[j] == (WORD32)t, "type as transmitted");
    if (len > 1536) { VC_ASSERT(r != 0, "an extension longer than the tables hold is refused"); return; }
    bits += eqesc(t, 4, 8) + (len < 15 ? 4 : len < 270 ? 12 : 28);
    if (t == 3 && ASI->num_switch_groups > 0 && D->ele_length_present != 1) { VC_ASSERT(r != 0, "switch groups need element lengths"); return; }
    if (t == 1 || t == 3 || t == 4 || t == 6 || t == 7)
    {
      VC_ASSERT(c < nc && ctype[c] == (int)t, "the content is read");
      c++;
      if (cerr[c - 1]) { VC_ASSERT(r != 0, "refused content is reported"); return; }
      if (used[c - 1] > (int)len * 8) { VC_ASSERT(r != 0, "content longer than announced is refused"); return; }
    }
    else if (t == 0)
    {
      for (uint32_t i = 0; i < 3; i++) if (i < len && nx(8) != 0xa5) { VC_ASSERT(r != 0, "a wrong fill byte is refused"); return; }
    }
    else if (t == 2)
    {
      for (uint32_t i = 0; i < 3; i++) if (i < len) VC_ASSERT(D->usac_cfg_ext_info_buf[j][i] == nx(8), "loudness bytes as transmitted");
    }
    else if (r && c == nc) { return; }
    int has = t == 1 || t == 2 || t == 4;
    VC_ASSERT(D->usac_cfg_ext_info_present[j] == has && D->usac_cfg_ext_info_len[j] == (has ? (WORD32)len : 0), "length as announced");
    bits += len * 8;
    if (t == 1) VC_ASSERT(D->downmix_ext_config_idx == (WORD32)j || seen & 2, "downmix index");
    if (t == 2) VC_ASSERT(D->loudness_ext_config_idx == (WORD32)j || seen & 4, "loudness index");
    if (t < 8) seen |= 1 << t;
  }
  VC_ASSERT(r == 0, "accepted");
  VC_ASSERT(bits0 - B.cnt_bits == bits, "every extension ends at its announced length");
  VC_ASSERT(D->downmix_ext_config_present == !!(seen & 2) && D->loudness_ext_config_present == !!(seen & 4) && D->hoa_matrix_ext_config_present == !!(seen & 16) &&
            SG->signal_grp_info_present == !!(seen & 64) && D->compat_profile_cfg_present == !!(seen & 128), "present flags");
#if XN
  if (n == XN) VC_REACH("accepted");
#endif
}
#endif
#ifdef DA
/* the configuration itself: contracts of the readers it calls */
static ia_usac_config_struct *U;
static ia_mpegh_dec_state_struct *ST;
static ia_audio_specific_config_struct *AC;
static char ASI[1];
static int nel, el_err, next, ext_err, ext_lay, ext_compat, ext_lc, ext_bp, nflex, flex_err, el_type[2], el_nf[2], el_enf[2], el_pay[2], el_n, ext_present;
IA_ERRORCODE stub_elements(ia_bit_buf_struct *b, ia_usac_config_struct *u)
{
  VC_ASSERT(b == &B && u == U && pos >= 0, "the configuration's own");
  VC_ASSERT(!u->enh_obj_md_present && !u->str_usac_dec_config.downmix_ext_config_present && !u->str_usac_dec_config.loudness_ext_config_present && !u->str_usac_dec_config.hoa_matrix_ext_config_present &&
            !u->str_usac_dec_config.compat_profile_cfg_present && !u->signals_3d.signal_grp_info_present, "nothing of an earlier configuration stays present");
  nel++;
  el_err = vc_range(0, 1);
  el_n = vc_range(0, 2);
  u->str_usac_dec_config.num_elements = el_n;
  for (int i = 0; i < 2; i++)
  {
    ia_usac_decoder_config_struct *d = &u->str_usac_dec_config;
    d->usac_element_type[i] = el_type[i] = vc_range(0, 3);
    d->str_usac_element_config[i].noise_filling = el_nf[i] = vc_range(0, 1);
    d->str_usac_element_config[i].enhanced_noise_filling = el_enf[i] = vc_range(0, 1);
    d->ia_ext_ele_payload_type[i] = el_pay[i] = vc_range(0, 14);
  }
  return el_err;
}
IA_ERRORCODE stub_extensions(ia_bit_buf_struct *b, ia_usac_decoder_config_struct *d, ia_signals_3d *s, VOID *asi, WORD32 lay)
{
  VC_ASSERT(b == &B && d == &U->str_usac_dec_config && s == &U->signals_3d && asi == ASI && d->cicp_idx == lay, "the configuration's own");
  next++;
  ext_lay = lay;
  ext_err = vc_range(0, 1);
  d->downmix_ext_config_present = vc_range(0, 1), d->hoa_matrix_ext_config_present = vc_range(0, 1);
  d->compat_profile_cfg_present = ext_compat = vc_range(0, 1);
  if (ext_compat)
  {
    /* contract of the profile set reader */
    d->str_compatible_profile_config.compat_lc_lvl = ext_lc = vc_range(0x0b, 0x0f);
    d->str_compatible_profile_config.compat_bp_lvl = ext_bp = vc_range(0x10, 0x14);
  }
  return ext_err;
}
IA_ERRORCODE stub_flex(VOID *b, ia_flex_spk_data_str *f, WORD32 n)
{
  VC_ASSERT(b == &B && n >= 1 && n <= 24, "no more loudspeakers than the tables hold");
  VC_ASSERT(f == &AC->ref_spk_layout.str_flex_spk || (f >= &U->signals_3d.audio_ch_layout[0].str_flex_spk && f <= &U->signals_3d.audio_ch_layout[15].str_flex_spk), "the layout's own");
  nflex++;
  return flex_err = vc_range(0, 1);
}
static const int rate[32] = {0, 0, 0, 48000, 44100, 32000, 24000, 22050, 16000}, ls[21] = {0, 1, 2, 3, 4, 5, 6, 8, 0, 3, 4, 7, 8, 24, 8, 12, 10, 12, 14, 12, 14};
#ifndef SPK_CUT
#define SPK_CUT 2
#endif
void harness_da(void)
{
  vc_bitbuf_init(&B);
  ST = malloc(sizeof *ST), AC = malloc(sizeof *AC);
  VC_ASSUME(ST && AC);
  ST->p_config = malloc(sizeof *ST->p_config);
  VC_ASSUME(ST->p_config);
  ST->ia_audio_specific_config = AC;
  U = &AC->str_usac_config;
  ST->p_config->ui_cicp_layout_idx = vc_range(0, 20);
  /* layout of an earlier configuration */
  AC->ref_spk_layout.cicp_spk_layout_idx = vc_range(0, 20);
  for (int i = 0; i < GRP % 17; i++) VC_ASSUME(U->signals_3d.audio_ch_layout[i].cicp_spk_layout_idx >= 0 && U->signals_3d.audio_ch_layout[i].cicp_spk_layout_idx <= 20);
  ia_usac_decoder_config_struct *d = &U->str_usac_dec_config;
  IA_ERRORCODE r = ia_core_coder_mpegh_3da_config(&B, ST, ASI);
  uint32_t prof = nx(8), si = nx(5), sf;
#ifdef RES
  VC_REACH("reserved");
#endif
  if (si != 31 && si > 8) { VC_ASSERT(r != 0, "a reserved sampling rate is refused"); return; }
  sf = si == 31 ? nx(24) : (uint32_t)rate[si];
  if (sf == 0 || sf > 48000) { VC_ASSERT(r != 0, "an unsupported sampling rate is refused"); return; }
  VC_ASSERT(ST->p_config->ui_samp_freq == sf && AC->sampling_frequency == sf && U->usac_sampling_frequency == sf, "sampling rate as transmitted");
  for (int i = 3; i < 9; i++) if (sf == (uint32_t)rate[i]) VC_ASSERT(AC->samp_frequency_index == (UINT32)i, "sampling rate index");
  uint32_t fl = nx(3);
  VC_ASSERT(U->core_sbr_framelength_index == fl, "frame length index as transmitted");
  if (fl > 4) { VC_ASSERT(r != 0, "an unsupported frame length is refused"); return; }
  uint32_t rdc = nx(1), lt = nx(2);
  ia_speaker_config_3d *L = &AC->ref_spk_layout;
  VC_ASSERT(U->receiver_delay_compensation == rdc && L->spk_layout_type == (WORD32)lt, "delay compensation and layout type as transmitted");
  int nfl = 0, refch;
  if (lt == 0)
  {
    uint32_t l = nx(6);
    if (l < 1 || l > 20) { VC_ASSERT(r != 0, "a reference layout that does not exist is refused"); return; }
    VC_ASSERT(L->cicp_spk_layout_idx == (WORD32)l, "reference layout as transmitted");
    refch = ls[l];
  }
  else
  {
    uint32_t n = ESC(5, 8, 16) + 1;
    if (n > 24) { VC_ASSERT(r != 0, "more loudspeakers than the tables hold are refused"); return; }
    VC_ASSERT(L->num_speakers == (WORD32)n, "loudspeaker count as transmitted");
    refch = n;
    if (lt == 2)
    {
      VC_ASSERT(nflex >= 1, "the loudspeakers are read");
      nfl = 1;
      if (nflex == 1 && flex_err) { VC_ASSERT(r != 0, "refused loudspeakers are reported"); return; }
      if (n > 20) { VC_ASSERT(r != 0, "unsupported layouts are refused"); return; }
    }
    if (lt == 1)
      for (uint32_t i = 0; i < n && i < SPK_CUT; i++)
      {
        uint32_t s = nx(7);
        if (s > 42) { VC_ASSERT(r != 0, "a loudspeaker that does not exist is refused"); return; }
        VC_ASSERT(L->cicp_spk_idx[i] == (WORD32)s, "loudspeaker as transmitted");
      }
  }
  uint32_t ng = nx(5) + 1;
  if (ng > 16) {
    VC_ASSERT(r != 0, "more groups than the tables hold are refused");
#if GRP == 17 && !defined(RES)
    VC_REACH("too many groups");
#endif
    return;
  }
  ia_signals_3d *s = &U->signals_3d;
  VC_ASSERT(s->num_sig_group == ng, "group count as transmitted");
  if (lt == 3 && ng != 1) { VC_ASSERT(r != 0, "a contribution layout has one group"); return; }
  int ch = 0, ob = 0, ho = 0, nch = 0, nob = 0, nho = 0, ty[17], lay = 0, mixed = 0;
  for (uint32_t i = 0; i < GRP % 17; i++)
  {
    if (i >= ng) break;
    uint32_t t = nx(3), n = ESC(5, 8, 16) + 1;
    VC_ASSERT(s->group_type[i] == t && s->num_sig[i] == n, "type and signal count of every group as transmitted");
    ty[i] = t;
    if (i && ty[i] != ty[i - 1]) mixed = 1;
    if (t > 3) { VC_ASSERT(r != 0, "a reserved group type is refused"); return; }
    if (t == 3 || t == 1)
    {
      if (n > 24) { VC_ASSERT(r != 0, "more signals than the tables hold are refused"); return; }
      if (t == 3) nho++, ho += n; else nob++, ob += n;
    }
    else if (t == 2)
    {
      nx(1);
    }
    else
    {
      nch++, ch += n;
      if (n > 24 || ch > 24) { VC_ASSERT(r != 0, "more channels than the tables hold are refused"); return; }
      uint32_t df = nx(1);
      VC_ASSERT(s->differs_from_ref_layout[i] == df, "layout flag as transmitted");
      if (df)
      {
        ia_speaker_config_3d *a = &s->audio_ch_layout[lay];
        uint32_t at = nx(2);
        VC_ASSERT(a->spk_layout_type == (WORD32)at, "layout type of the group as transmitted");
        if (at == 0)
        {
          uint32_t l = nx(6);
          if (l > 20) { VC_ASSERT(r != 0, "a group layout that does not exist is refused"); return; }
          VC_ASSERT(a->cicp_spk_layout_idx == (WORD32)l, "layout of the group as transmitted");
        }
        else
        {
          uint32_t m = ESC(5, 8, 16) + 1;
          if (m > 24) { VC_ASSERT(r != 0, "more loudspeakers than the tables hold are refused"); return; }
          VC_ASSERT(a->num_speakers == (WORD32)m, "loudspeaker count of the group as transmitted");
          if (at == 2)
          {
            VC_ASSERT(nflex > nfl, "the loudspeakers are read");
            nfl++;
            if (nflex == nfl && flex_err) { VC_ASSERT(r != 0, "refused loudspeakers are reported"); return; }
          }
          if (at == 1)
            for (uint32_t k = 0; k < m && k < SPK_CUT; k++)
            {
              uint32_t v = nx(7);
              if (v > 42) { VC_ASSERT(r != 0, "a loudspeaker that does not exist is refused"); return; }
              VC_ASSERT(a->cicp_spk_idx[k] == (WORD32)v, "loudspeaker of the group as transmitted");
            }
        }
        int al = a->cicp_spk_layout_idx, rl = L->cicp_spk_layout_idx;
        if (ls[al] != ch && ls[al] > ls[rl]) { VC_ASSERT(r != 0, "a group layout larger than the reference layout is refused"); return; }
      }
      lay++;
    }
  }
  if (mixed && !rdc) { VC_ASSERT(r != 0, "groups of different types need delay compensation"); return; }
  VC_ASSERT((int)s->num_ch == ch && (int)s->num_audio_obj == ob && (int)s->num_hoa_transport_ch == ho && s->num_saoc_transport_ch == 0, "signals of every kind counted");
  VC_ASSERT(s->num_ch_based_groups == nch && s->num_obj_based_groups == nob && s->num_hoa_based_groups == nho, "groups of every kind counted");
  VC_ASSERT((int)U->num_out_channels == ch && (int)ST->ch_config == ch && (int)AC->channel_configuration == ch, "channel count");
  if (nho) VC_ASSERT(ST->p_config->hoa_data_present == 1 && d->str_hoa_config.num_transport_ch == ho && d->str_hoa_config.core_coder_frame_length == 1024, "transport channels");
  if (nob) VC_ASSERT(ST->p_config->oam_data_present == 1, "objects");
  if (nch) VC_ASSERT(ST->p_config->ch_data_present == 1, "channels");
  VC_ASSERT(nel == 1 && nflex == nfl, "the elements are read once");
  if (el_err) { VC_ASSERT(r != 0, "refused elements are reported"); return; }
  int tot = ch + ob + ho;
  if (tot > 16 || refch > 16)
    for (int i = 0; i < 2; i++)
      if (i < el_n && (el_type[i] == 0 ? el_nf[i] || el_enf[i] : el_type[i] == 3 ? el_pay[i] == 9 : 1)) { VC_ASSERT(r != 0, "large configurations use no tools the profile forbids"); return; }
  uint32_t cfg = nx(1);
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  VC_ASSERT(next == (int)cfg, "the extensions are read when transmitted");
  if (cfg)
  {
    int own = ST->p_config->ui_cicp_layout_idx;
    VC_ASSERT(ext_lay == (own ? own : L->cicp_spk_layout_idx), "extensions are read for the target layout");
    if (ext_err) { VC_ASSERT(r != 0, "refused extensions are reported"); return; }
  }
  if (prof < 0x0b) { VC_ASSERT(r != 0, "a profile that is not supported is refused"); return; }
  if (cfg && ext_compat) prof = ext_bp <= 0x12 ? ext_bp : ext_lc <= 0x0d ? ext_lc : prof;
  int lim = prof == 0x0b || prof == 0x10 ? 5 : prof == 0x0c || prof == 0x11 ? 9 : prof == 0x0d || prof == 0x12 ? (nho || nch ? 16 : 24) : -1;
  VC_ASSERT((r == 0) == (tot <= lim && refch <= lim), "accepted exactly within the limits of the level");
  if (r == 0) VC_ASSERT((int)d->mpegh_profile_lvl == (int)prof, "the level in force");
#if GRP < 17
  if (r == 0) VC_REACH("accepted");
  if (r == 0 && cfg && ext_compat && lt == LT) VC_REACH("extended");
#endif
}
#endif
