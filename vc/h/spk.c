/* Contracts of the loudspeaker layouts. */
#include "impeghd_type_def.h"
#include "impeghd_cicp_defines.h"
#include "impeghd_cicp_struct_def.h"
#include "impeghd_cicp_2_geometry_rom.c"
#include "ia_core_coder_init_config.c"
#include "impeghd_cicp_2_geometry.c"
#include "vc.h"
#if defined(CFGT) && CFGT
#define VC_REACH_N VC_REACH
#else
#define VC_REACH_N(x)
#endif
typedef struct { int16_t az, el; uint8_t lfe; } P;
/* ISO/IEC 23001-8 positions, written down here independently of the ROM tables */
#define ML(a) {a, 0, 0}
#define MR(a) {-(a), 0, 0}
#define UL(a) {a, 35, 0}
#define UR(a) {-(a), 35, 0}
#define MC {0, 0, 0}
#define MB {180, 0, 0}
#define UC {0, 35, 0}
#define UB {180, 35, 0}
#define TC {0, 90, 0}
#define LL {45, -15, 0}
#define LR {-45, -15, 0}
#define LC {0, -15, 0}
#define F1 {0, 0, 1}
#define F2 {45, -15, 1}
#define F3 {-45, -15, 1}
#ifndef LO
#define LO 1
#define HI 20
#endif
static const P lay[21][24] = {
  {{0}}, {MC}, {ML(30), MR(30)}, {ML(30), MR(30), MC}, {ML(30), MR(30), MC, MB}, {ML(30), MR(30), MC, ML(110), MR(110)},
  {ML(30), MR(30), MC, F1, ML(110), MR(110)}, {ML(30), MR(30), MC, F1, ML(110), MR(110), ML(60), MR(60)}, {{0}},
  {ML(30), MR(30), MB}, {ML(30), MR(30), ML(110), MR(110)}, {ML(30), MR(30), MC, F1, ML(110), MR(110), MB},
  {ML(30), MR(30), MC, F1, ML(110), MR(110), ML(135), MR(135)},
  {ML(60), MR(60), MC, F2, ML(135), MR(135), ML(30), MR(30), MB, F3, ML(90), MR(90), UL(45), UR(45), UC, TC, UL(135), UR(135), UL(90), UR(90), UB, LC, LL, LR},
  {ML(30), MR(30), MC, F1, ML(110), MR(110), UL(30), UR(30)},
  {ML(30), MR(30), MC, F2, ML(135), MR(135), F3, ML(90), MR(90), UL(45), UR(45), UB},
  {ML(30), MR(30), MC, F1, ML(110), MR(110), UL(30), UR(30), UL(110), UR(110)},
  {ML(30), MR(30), MC, F1, ML(110), MR(110), UL(30), UR(30), UC, UL(110), UR(110), TC},
  {ML(30), MR(30), MC, F1, ML(110), MR(110), ML(150), MR(150), UL(30), UR(30), UC, UL(110), UR(110), TC},
  {ML(30), MR(30), MC, F1, ML(135), MR(135), ML(90), MR(90), UL(30), UR(30), UL(135), UR(135)},
  {ML(30), MR(30), MC, F1, ML(135), MR(135), ML(90), MR(90), UL(45), UR(45), UL(135), UR(135), ML(60), MR(60)}};
static const uint8_t nls[21] = {0, 1, 2, 3, 4, 5, 6, 8, 0, 3, 4, 7, 8, 24, 8, 12, 10, 12, 14, 12, 14};
static const uint8_t nlfe[21] = {0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 1, 2, 1, 2, 1, 1, 1, 1, 1};
/* the loudspeakers by index, CH_* order; 11 and 12 are unused */
static const P spk[43] = {ML(30), MR(30), MC, F1, ML(110), MR(110), ML(22), MR(22), ML(135), MR(135), MB, {0, 0, 0}, {0, 0, 0}, ML(90), MR(90), ML(60), MR(60), UL(30), UR(30), UC,
  UL(135), UR(135), UB, UL(90), UR(90), TC, F2, LL, LR, LC, UL(110), UR(110), UL(45), UR(45), ML(45), MR(45), F3, ML(60), MR(60), ML(30), MR(30), ML(150), MR(150)};
static int pos;
static uint32_t nx(int n)
{
  VC_ASSERT(pos < VC_SEQ && vc_seq_n[pos] == n, "the field has the width the syntax gives it");
  return vc_seq_v[pos++];
}
#ifdef VC_HOOK
static int nread;
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v)
{
  nread++;
#ifdef RD_CUT
  VC_ASSUME(nread <= RD_CUT);
#endif
}
#endif
#ifdef VC_FORCE
int64_t vc_force(int i, int n)
{
#ifdef PREC
  return i == 0 ? PREC : -1;
#else
  return i == 0 ? CFGT : -1;
#endif
}
#endif
void harness_layout(void)
{
  const ia_cicp_ls_geo_str *g[CICP_MAX_NUM_LS];
  const WORD32 *names = NULL;
  WORD32 nch = -1, nl = -1;
  for (int idx = LO; idx <= HI; idx++)
  {
    if (idx == 8) continue;
    IA_ERRORCODE r = impeghd_cicpidx_2_ls_geometry(idx, g, &nch, &nl, &names);
    VC_ASSERT(r == 0 && nch == nls[idx], "as many loudspeakers as the layout has");
    VC_ASSERT(nl == nlfe[idx], "as many LFE channels as the layout has");
    for (int k = 0; k < nls[idx]; k++)
    {
      VC_ASSERT(names[k] >= 0 && names[k] < CICP_MAX_CH && g[k] == &ia_cicp_ls_geo_tbls[names[k]], "the loudspeaker's own table entry");
      VC_ASSERT(g[k]->ls_azimuth == lay[idx][k].az && g[k]->ls_elevation == lay[idx][k].el && g[k]->lfe_flag == lay[idx][k].lfe, "every loudspeaker at its position");
    }
  }
  VC_REACH("all layouts");
}
void harness_no_layout(void)
{
  int32_t idx = vc_i32();
  VC_ASSUME(idx < 1 || idx > 20 || idx == 8);
  const ia_cicp_ls_geo_str *g[CICP_MAX_NUM_LS];
  const WORD32 *names = NULL;
  WORD32 nch = -1, nl = -1;
  VC_ASSERT(impeghd_cicpidx_2_ls_geometry(idx, g, &nch, &nl, &names) == IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX, "an index without a layout is refused");
  ia_ch_geometry c[CICP2GEOMETRY_MAX_LOUDSPEAKERS];
  VC_ASSERT(impeghd_fill_ls_geom_frm_cicp_spk_idx(idx, c, &nch, &nl) == IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX, "an index without a layout is refused");
  if (idx < 0) VC_REACH("negative index");
}
void harness_fill_geom(void)
{
  static ia_ch_geometry g[CICP2GEOMETRY_MAX_LOUDSPEAKERS];
  for (int idx = LO; idx <= HI; idx++)
  {
    if (idx == 8) continue;
    WORD32 nch = -1, nl = -1;
    IA_ERRORCODE r = impeghd_fill_ls_geom_frm_cicp_spk_idx(idx, g, &nch, &nl);
    VC_ASSERT(r == 0 && nch == nls[idx] - nlfe[idx] && nl == nlfe[idx], "channels and LFE channels of the layout");
    for (int k = 0; k < nls[idx]; k++)
      VC_ASSERT(g[k].az == lay[idx][k].az && g[k].el == lay[idx][k].el && g[k].lfe == lay[idx][k].lfe && g[k].loudspeaker_type == CICP2GEOMETRY_LOUDSPEAKER_KNOWN &&
                    g[k].screen_relative == (idx == 20 && k >= 12), "every loudspeaker at its position");
  }
  VC_REACH("all layouts");
}
/* loudspeaker table: every index its position, regions around the position */
void harness_spk_table(void)
{
  int k = vc_range(0, 42);
  VC_ASSERT(ia_cicp_ls_geo_tbls[k].ls_azimuth == spk[k].az && ia_cicp_ls_geo_tbls[k].ls_elevation == spk[k].el && ia_cicp_ls_geo_tbls[k].lfe_flag == spk[k].lfe, "every loudspeaker index its position");
  VC_ASSERT(ia_cicp_ls_geo_tbls[k].screen_rel_flag == (k >= 37 && k <= 40), "screen-relative loudspeakers");
  VC_REACH("table");
}
void harness_degrees(void)
{
  int prec = vc_range(0, 1), dir = vc_range(0, 1), i = vc_range(0, 180);
  int d = prec ? i : 5 * i;
  VC_ASSERT(impeghd_azi_idx_degree(i, dir, prec) == (dir ? -d : d), "azimuth: one or five degrees per step, signed by the direction");
  VC_ASSERT(impeghd_elev_idx_degree(i, dir, prec) == (dir ? -d : d), "elevation: one or five degrees per step, signed by the direction");
  VC_REACH("degrees");
}
/* one description read from the stream: 0 ok, else refused; fills d */
static int descr(int prec, ia_flex_spk_cfg_str *d)
{
  d->is_cicp_spk_idx = nx(1);
  if (d->is_cicp_spk_idx)
  {
    d->cicp_spk_idx = nx(7);
    return d->cicp_spk_idx > 42;
  }
  d->el_class = nx(2);
  d->el_angle_idx = 0, d->el_direction = 0, d->az_direction = 0;
  if (d->el_class == 3)
  {
    d->el_angle_idx = nx(prec ? 7 : 5);
    if (d->el_angle_idx > (prec ? 90 : 18)) return 1;
    if (d->el_angle_idx) d->el_direction = nx(1);
    if (d->el_direction) d->el_angle_idx = -d->el_angle_idx;
  }
  d->az_angle_idx = nx(prec ? 8 : 6);
  if (d->az_angle_idx > (prec ? 180 : 36)) return 1;
  if (d->az_angle_idx != 0 && d->az_angle_idx != (prec ? 180 : 36)) d->az_direction = nx(1);
  d->is_lfe = nx(1);
  return 0;
}
static int same(const ia_flex_spk_cfg_str *a, const ia_flex_spk_cfg_str *d)
{
  if (a->is_cicp_spk_idx != d->is_cicp_spk_idx) return 0;
  if (d->is_cicp_spk_idx) return a->cicp_spk_idx == d->cicp_spk_idx;
  return a->el_class == d->el_class && a->el_angle_idx == d->el_angle_idx && a->el_direction == d->el_direction && a->az_angle_idx == d->az_angle_idx &&
         a->az_direction == d->az_direction && a->is_lfe == d->is_lfe;
}
void harness_spk_description(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  ia_flex_spk_cfg_str s, d;
  vc_havoc(&s, sizeof s);
  int prec = vc_range(0, 1);
  IA_ERRORCODE r = impeghd_spk_description(&b, &s, prec);
  int bad = descr(prec, &d);
  VC_ASSERT((r != 0) == bad, "refused exactly when an angle or index is out of range");
  if (bad) { VC_REACH("refused"); return; }
  VC_ASSERT(same(&s, &d), "the description as transmitted, zero directions where none is transmitted");
  VC_ASSERT(vc_seq_cnt == pos, "nothing else is read");
  if (!s.is_cicp_spk_idx && s.el_angle_idx == -90) VC_REACH("straight down");
}
#ifndef KIND
#define KIND 0
#endif
void harness_mirrored(void)
{
  for (int k = 0; k <= 42; k++)
  {
    int m = impeghd_cicp_mirrored_spk_idx(k);
    VC_ASSERT(m >= 0 && m <= 42 && spk[m].az == (spk[k].az == 180 ? 180 : -spk[k].az) && spk[m].el == spk[k].el && spk[m].lfe == spk[k].lfe, "the loudspeaker at the mirrored position");
    VC_ASSERT((m >= 37 && m <= 40) == (k >= 37 && k <= 40), "a screen loudspeaker mirrors to a screen loudspeaker");
  }
  VC_REACH("mirrored");
}
#ifdef CFG2
/* contract of impeghd_spk_description, proved by spk_description */
static int calls;
static ia_flex_spk_cfg_str given[CFG2 + 1];
static int refused;
IA_ERRORCODE stub_spk_description(VOID *h, ia_flex_spk_cfg_str *d, WORD32 prec)
{
  VC_ASSERT(prec == (int)vc_seq_v[0], "the precision transmitted for the layout");
  refused = (calls >= CFG2) | (vc_u8() == 0);
  if (refused) return IA_MPEGH_DEC_INIT_FATAL_INVALID_AZ_ANG_IDX;
  d->is_cicp_spk_idx = calls ? 1 - KIND : KIND;
  if (d->is_cicp_spk_idx)
    d->cicp_spk_idx = vc_range(0, 42);
  else
  {
    d->az_angle_idx = vc_range(0, prec ? 180 : 36);
    d->el_angle_idx = vc_range(-90, 90);
    d->az_direction = d->az_angle_idx == 0 || d->az_angle_idx == (prec ? 180 : 36) ? 0 : vc_range(0, 1);
    d->is_lfe = vc_range(0, 1);
  }
  given[calls++] = *d;
  return 0;
}
/* contract of impeghd_cicp_mirrored_spk_idx, proved by mirrored */
static int mir[CFG2 + 1], mir_of[CFG2 + 1], nmir;
UWORD16 stub_mirrored(UWORD16 k)
{
  VC_ASSERT(nmir <= CFG2, "one search per pair");
  mir_of[nmir] = k;
  return mir[nmir++] = vc_range(0, 42);
}
void harness_flexispk_config(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  static ia_flex_spk_data_str S;
  ia_flex_spk_data_str *s = &S;
  IA_ERRORCODE r = impeghd_flexispk_config(&b, s, CFG2);
  int prec = nx(1), i = 0, bad = 0, c = 0, pairs = 0, cm = 0;
  while (i < CFG2)
  {
    if (c >= calls) { VC_ASSERT(refused, "every loudspeaker has its description"); bad = 1; break; }
    ia_flex_spk_cfg_str *d = &given[c++];
    int az = d->is_cicp_spk_idx ? spk[d->cicp_spk_idx].az : (d->az_direction ? -1 : 1) * (prec ? 1 : 5) * d->az_angle_idx;
    ia_flex_spk_cfg_str *e = &s->str_flex_spk_descr[i];
    VC_ASSERT(e->is_cicp_spk_idx == d->is_cicp_spk_idx && (d->is_cicp_spk_idx ? e->cicp_spk_idx == d->cicp_spk_idx : e->az_angle_idx == az && e->el_angle_idx == d->el_angle_idx && e->is_lfe == d->is_lfe),
              "every loudspeaker at its transmitted position");
    i++;
    if (az != 0 && az != 180 && nx(1))
    {
      if (i >= CFG2) { bad = 1; break; }
      e = &s->str_flex_spk_descr[i];
      VC_ASSERT(e->is_cicp_spk_idx == d->is_cicp_spk_idx && (d->is_cicp_spk_idx ? cm < nmir && mir_of[cm] == d->cicp_spk_idx && e->cicp_spk_idx == mir[cm]
                : e->az_angle_idx == -az && e->el_angle_idx == d->el_angle_idx && e->is_lfe == d->is_lfe), "the symmetric loudspeaker is the mirrored one");
      i++, pairs++, cm += d->is_cicp_spk_idx;
    }
  }
  VC_ASSERT((r != 0) == bad, "refused exactly when a description is refused or a pair has no room");
  if (bad) { VC_REACH("refused"); return; }
  VC_ASSERT(vc_seq_cnt == pos && c == calls, "nothing else is read");
  if (pairs == 1) VC_REACH("a pair");
}
#endif
#ifdef GEO
/* geometry and counts of valid descriptions */
void harness_geom(void)
{
  static ia_interface_speaker_config_3d S;
  ia_interface_speaker_config_3d *s = &S;
  static ia_ch_geometry g[CICP2GEOMETRY_MAX_LOUDSPEAKERS];
  s->spk_layout_type = GEO;
  s->num_speakers = 24;
  int lfe = 0, bad = 0;
  for (int i = 0; i < 24; i++)
  {
    s->cicp_spk_idx[i] = vc_range(0, 127);
    ia_flex_spk_cfg_str *d = &s->str_flex_spk_data.str_flex_spk_descr[i];
    d->is_cicp_spk_idx = vc_range(0, 1), d->cicp_spk_idx = vc_range(0, 127), d->az_angle_idx = vc_range(-180, 180), d->el_angle_idx = vc_range(-90, 90), d->is_lfe = vc_range(0, 1);
    int l = GEO == 1 ? s->cicp_spk_idx[i] : d->is_cicp_spk_idx ? d->cicp_spk_idx : -1;
    if (l > 42) bad = 1;
    else lfe += l < 0 ? d->is_lfe : spk[l].lfe;
  }
  WORD32 nch = vc_i32(), nl = vc_i32();
  IA_ERRORCODE r = impeghd_get_geom_frm_spk_cfg(s, g, &nch, &nl);
  VC_ASSERT((r != 0) == bad, "refused exactly when a loudspeaker does not exist");
  if (bad) { VC_REACH("refused"); return; }
  VC_ASSERT(nl == lfe && nch == 24 - lfe, "loudspeaker counts");
  for (int k = 0; k < 24; k++)
  {
    ia_flex_spk_cfg_str *d = &s->str_flex_spk_data.str_flex_spk_descr[k];
    int l = GEO == 1 ? s->cicp_spk_idx[k] : d->is_cicp_spk_idx ? d->cicp_spk_idx : -1;
    VC_ASSERT(g[k].cicp_loudspeaker_idx == l, "the loudspeaker index");
    if (l >= 0)
      VC_ASSERT(g[k].az == spk[l].az && g[k].el == spk[l].el && g[k].lfe == spk[l].lfe, "the loudspeaker's position");
    else
      VC_ASSERT(g[k].az == d->az_angle_idx && g[k].el == d->el_angle_idx && g[k].lfe == d->is_lfe, "the described position");
  }
  if (lfe == 2) VC_REACH("two LFEs");
}
#endif
#ifdef CFGT
/* contract of impeghd_flexispk_config and impeghd_get_geom_frm_spk_cfg */
static int flex_n = -1, flex_bad, geo_n = -1, geo_bad, geo_ch, geo_lfe;
IA_ERRORCODE stub_flexispk_config(VOID *h, ia_flex_spk_data_str *d, WORD32 n)
{
  flex_n = n;
  return flex_bad = vc_range(0, 1) ? IA_MPEGH_DEC_INIT_FATAL_INVALID_AZ_ANG_IDX : 0;
}
IA_ERRORCODE stub_get_geom(ia_interface_speaker_config_3d *s, ia_ch_geometry *g, WORD32 *nch, WORD32 *nl)
{
  VC_ASSERT(g == s->geometry && nch == &s->num_ch && nl == &s->num_lfes, "into the configuration");
  geo_n = s->num_speakers;
  geo_bad = vc_range(0, 1) ? IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX : 0;
  if (!geo_bad)
  {
    geo_ch = vc_range(0, 24), geo_lfe = vc_range(0, 24);
    if (CFGT) VC_ASSUME(geo_ch + geo_lfe == geo_n);
    *nch = geo_ch, *nl = geo_lfe;
  }
  return geo_bad;
}
void harness_config(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  static ia_interface_speaker_config_3d S;
  ia_interface_speaker_config_3d *s = &S;
  IA_ERRORCODE r = impeghd_speaker_config_3d(&b, s);
  uint32_t t = nx(2);
  VC_ASSERT(s->spk_layout_type == (WORD32)t, "layout type as transmitted");
  if (t == 0)
    VC_ASSERT(s->cicp_spk_layout_idx == (WORD32)nx(6), "layout index as transmitted");
  else if (t < 3)
  {
    uint32_t n = nx(5);
    if (n == 31) { n += nx(8); if (n == 31 + 255) n += nx(16); }
    if (n + 1 > 24)
    {
      VC_ASSERT(r == IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED && s->num_speakers == 0, "too many loudspeakers are refused");
      if (n == 31) VC_REACH_N("escaped count");
      return;
    }
    if (t == 1)
    {
      for (uint32_t i = 0; i < 24; i++) if (i <= n) VC_ASSERT(s->cicp_spk_idx[i] == (WORD32)nx(7), "loudspeaker as transmitted");
    }
    else
    {
      VC_ASSERT(flex_n == (int)n + 1, "as many descriptions as announced");
      if (flex_bad) { VC_ASSERT(r == flex_bad, "a refused description is reported"); return; }
    }
    VC_ASSERT(geo_n == (int)n + 1, "geometry of all loudspeakers");
  }
  if (t == 3) return;
  VC_ASSERT(r == geo_bad, "an impossible geometry is reported");
  if (!r) VC_ASSERT(s->num_speakers == (UWORD32)(geo_ch + geo_lfe), "as many loudspeakers as channels and LFE channels");
  if (!r && geo_lfe == 1) VC_REACH("accepted");
}
#endif
