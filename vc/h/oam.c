/* Contracts of the object metadata decoder. */
#include "vc.h"
#include "impeghd_oam_dec.c"
#include "impeghd_oam_dec_ld.c"
static ia_bit_buf_struct B;
static int pos;
static uint32_t nx(int n)
{
  VC_ASSERT(pos < VC_SEQ && vc_seq_n[pos] == n, "the field has the width the syntax gives it");
  return vc_seq_v[pos++];
}
static int sx(int n)
{
  int v = (int)nx(n);
  return v >= 1 << (n - 1) ? v - (1 << n) : v;
}
#ifdef FORCE
static const int64_t forced[] = FORCE;
int64_t vc_force(int i, int n)
{
  return i < (int)(sizeof forced / sizeof *forced) ? forced[i] : -1;
}
#endif
#ifdef CFG
void harness_cfg(void)
{
  vc_bitbuf_init(&B);
  static ia_oam_dec_config_struct C;
  vc_havoc(&C, sizeof C);
  int fl = CFG == 1 ? 256 : 1024, want = 0;
  IA_ERRORCODE r = impeghd_obj_md_cfg(&C, &B, fl, CFG);
  VC_ASSERT(C.ld_md_coding_present == (FLAG)nx(1), "coding flag as transmitted");
  uint32_t core = nx(1);
  if (core) want = fl;
  else
  {
    want = ((int)nx(6) + 1) * 64;
    if ((want != 256 && want != 512 && want != 1024) || want > fl) { VC_ASSERT(r != 0, "an unsupported frame length is refused"); return; }
  }
  VC_ASSERT(r == 0 && C.frame_length == want && C.cc_frame_length == fl, "frame length as transmitted");
  int any = 0;
  if (nx(1))
    for (int i = 0; i < CFG; i++)
    {
      uint32_t f = nx(1);
      VC_ASSERT(C.is_screen_rel_obj[i] == (FLAG)f, "screen flag of every object as transmitted");
      any |= f;
    }
  else
    for (int i = 0; i < 24; i++) VC_ASSERT(C.is_screen_rel_obj[i] == 0, "no screen related objects");
  VC_ASSERT(C.screen_rel_objs_present == any, "screen related objects");
  VC_ASSERT(C.dyn_obj_priority_present == (FLAG)nx(1), "priority flag as transmitted");
  VC_ASSERT(C.uniform_spread_present == (FLAG)nx(1), "spread flag as transmitted");
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  VC_REACH("accepted");
}
#endif
#ifdef ENH
void harness_enh_cfg(void)
{
  vc_bitbuf_init(&B);
  static ia_enh_oam_config_struct C;
  vc_havoc(&C, sizeof C);
  IA_ERRORCODE r = impeghd_enh_obj_md_config(&C, &B, ENH);
  VC_ASSERT(C.has_diffuseness == (WORD8)nx(1), "diffuseness flag as transmitted");
  if (C.has_diffuseness) VC_ASSERT(C.has_common_group_diffuseness == (WORD8)nx(1), "common diffuseness flag as transmitted");
  VC_ASSERT(C.has_excluded_sectors == (WORD8)nx(1), "sector flag as transmitted");
  int com = C.has_excluded_sectors ? (int)nx(1) : 0, pre = 0;
  VC_ASSERT(C.has_common_group_excluded_sectors == com, "common sector flag as transmitted");
  if (com) pre = nx(1);
  VC_ASSERT(C.has_closest_speaker_condition == (WORD8)nx(1), "closest loudspeaker flag as transmitted");
  if (C.has_closest_speaker_condition) VC_ASSERT(C.closest_spk_thr_angle == (WORD8)nx(7), "threshold angle as transmitted");
  int w = 0, wo = 0, gt = 0;
  for (int i = 0; i < ENH; i++)
  {
    uint32_t d = nx(1);
    VC_ASSERT(C.has_divergence[i] == (WORD8)d, "divergence flag of every object as transmitted");
    if (d)
    {
      uint32_t a = nx(6);
      VC_ASSERT(C.divergence_az_range[i] == (WORD8)a, "divergence range of every object as transmitted");
      w++;
      gt += a > 0;
    }
    else wo++;
    VC_ASSERT(C.use_only_predefined_sectors[i] == (WORD8)(com ? pre : (int)nx(1)), "sector kind of every object as transmitted");
  }
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  VC_ASSERT((r != 0) == (2 * w + ENH > 24 || wo + 3 * gt > 16), "more objects than the level allows are refused");
  if (ENH > 5 ? r != 0 : r == 0) VC_REACH("read");
}
#endif
#ifdef VC_HOOK
/* bound: four-bit fields (sector counts and indices) up to SEC */
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v) { VC_ASSUME(n != 4 || v <= SEC); }
#endif
#ifdef FRM
static float lim(float v, float a, float b) { return v < a ? a : v > b ? b : v; }
static ia_enh_obj_md_frame_str F, O;
static ia_enh_oam_config_struct C;
static void kept(int o)
{
  VC_ASSERT(F.num_exclusion_sectors[o] == O.num_exclusion_sectors[o], "kept sectors are those of the previous frame");
  for (int s = 0; s < SEC; s++)
    if (s < O.num_exclusion_sectors[o])
    {
      VC_ASSERT(F.exclude_sector_index[o][s] == O.exclude_sector_index[o][s] && F.use_predefined_sector[o][s] == O.use_predefined_sector[o][s], "kept sectors are those of the previous frame");
      VC_ASSERT(F.exclude_sector_min_az[o][s] == O.exclude_sector_min_az[o][s] && F.exclude_sector_max_az[o][s] == O.exclude_sector_max_az[o][s] &&
                F.exclude_sector_min_ele[o][s] == O.exclude_sector_min_ele[o][s] && F.exclude_sector_max_ele[o][s] == O.exclude_sector_max_ele[o][s], "kept sectors are those of the previous frame");
    }
}
static void sectors(int o, int indep)
{
  int keep = indep ? 0 : (int)nx(1);
  VC_ASSERT(F.keep_exclusion[o] == keep, "keep flag as transmitted, clear in independent frames");
  if (keep) { kept(o); return; }
  int n = nx(4);
  VC_ASSERT(F.num_exclusion_sectors[o] == n, "sector count as transmitted");
  for (int s = 0; s < SEC; s++)
  {
    if (s >= n) break;
    int p = C.use_only_predefined_sectors[o] == 1 ? 1 : (int)nx(1);
    VC_ASSERT(F.use_predefined_sector[o][s] == p, "sector kind as transmitted");
    if (p) VC_ASSERT(F.exclude_sector_index[o][s] == (WORD32)nx(4), "sector index as transmitted");
    else
    {
      VC_ASSERT(F.exclude_sector_min_az[o][s] == lim(3.0f * ((float)nx(7) - 63.0f), -180, 180), "sector azimuth, limited to the circle");
      VC_ASSERT(F.exclude_sector_max_az[o][s] == lim(3.0f * ((float)nx(7) - 63.0f), -180, 180), "sector azimuth, limited to the circle");
      VC_ASSERT(F.exclude_sector_min_ele[o][s] == lim(6.0f * ((float)nx(5) - 15.0f), -90, 90), "sector elevation, limited to the sphere");
      VC_ASSERT(F.exclude_sector_max_ele[o][s] == lim(6.0f * ((float)nx(5) - 15.0f), -90, 90), "sector elevation, limited to the sphere");
    }
  }
}
static void diffuse(int o, int indep)
{
  int keep = indep ? 0 : (int)nx(1);
  VC_ASSERT(F.keep_diffuseness[o] == keep, "keep flag as transmitted, clear in independent frames");
  VC_ASSERT(F.diffuseness[o] == (keep ? O.diffuseness[o] : (float)nx(7) / 127.0f), "diffuseness as transmitted or kept");
}
void harness_frame(void)
{
  vc_bitbuf_init(&B);
  vc_havoc(&C, sizeof C);
  vc_havoc(&F, sizeof F);
  F.p_enh_obj_md_cfg = &C;
  /* contract of the configuration reader: flags */
  C.has_diffuseness = DIVERG ? vc_range(0, 1) : 0, C.has_common_group_diffuseness = vc_range(0, 1), C.has_common_group_excluded_sectors = COM;
  for (int o = 0; o < FRM; o++)
  {
    C.has_divergence[o] = DIVERG ? vc_range(0, 1) : 0, C.use_only_predefined_sectors[o] = vc_range(0, 1);
    F.num_exclusion_sectors[o] = vc_range(0, SEC);
    F.diffuseness[o] = F.divergence[o] = 0.5f;
    for (int s = 0; s < 15; s++) F.exclude_sector_min_az[o][s] = F.exclude_sector_max_az[o][s] = F.exclude_sector_min_ele[o][s] = F.exclude_sector_max_ele[o][s] = 30.0f;
  }
  O = F;
  int indep = vc_range(0, 1);
  IA_ERRORCODE r = impeghd_enh_obj_md_frame(&F, &B, FRM, indep);
  VC_ASSERT(r == 0, "accepted");
  if (C.has_common_group_excluded_sectors) sectors(0, indep);
  if (C.has_diffuseness && C.has_common_group_diffuseness) diffuse(0, indep);
  for (int o = 0; o < FRM; o++)
  {
    VC_ASSERT(F.closest_spkr_playout[o] == (WORD32)nx(1), "closest loudspeaker flag as transmitted");
    if (C.has_divergence[o])
    {
      int keep = indep ? 0 : (int)nx(1);
      VC_ASSERT(F.keep_divergence[o] == keep, "keep flag as transmitted, clear in independent frames");
      VC_ASSERT(F.divergence[o] == (keep ? O.divergence[o] : (float)nx(7) / 127.0f), "divergence as transmitted or kept");
    }
    if (C.has_diffuseness && !C.has_common_group_diffuseness) diffuse(o, indep);
    if (!C.has_common_group_excluded_sectors) sectors(o, indep);
  }
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  VC_REACH("read");
}
#endif
#ifndef ABSO
#define ABSO 0
#endif
#ifdef LD
static ia_oam_dec_state_struct T, P;
static ia_oam_dec_config_struct G;
static void setup(int nobj, int sub)
{
  vc_bitbuf_init(&B);
  vc_havoc(&T, sizeof T);
  vc_havoc(&G, sizeof G);
  T.p_obj_md_cfg = &G;
  T.num_objects = nobj, T.sub_frame_number = sub;
  G.uniform_spread_present = vc_range(0, 1), G.dyn_obj_priority_present = vc_range(0, 1), G.frame_length = 256;
  T.azimuth_fixed = vc_range(0, 1), T.elevation_fixed = vc_range(0, 1), T.radius_fixed = vc_range(0, 1), T.gain_fixed = vc_range(0, 1), T.spread_fixed = vc_range(0, 1), T.dynamic_obj_priority_fixed = vc_range(0, 1);
}
#define ALL(M) M(azimuth) M(elevation) M(radius) M(gain) M(spread_width) M(spread_height) M(spread_depth) M(dyn_obj_priority)
/* the slots of all other objects and sub frames stay */
static void frame_rest(int a, int b)
{
  int k = vc_range(0, 95);
#define REST(f) if (k < a || k >= b) VC_ASSERT(T.f[k] == P.f[k], "other sub frames and objects keep their values");
  ALL(REST)
#undef REST
}
#define DELTA(f, fixed, bits) do { int d_ = 0; if (!(fixed) && nx(1)) d_ = sx((bits) + 1 < nb ? (bits) + 1 : nb); VC_ASSERT(T.f[o] == P.f[o] + d_, "difference added as transmitted"); } while (0)
void harness_single(void)
{
  int o = LD;
  setup(24, 2);
#define SANE(f) VC_ASSUME(T.f[o] > -1000000 && T.f[o] < 1000000);
  ALL(SANE)
  P = T;
  int abs = ABSO;
  IA_ERRORCODE r = impeghd_single_dyn_obj_md(&T, &B, abs, o);
  VC_ASSERT(r == 0, "accepted");
  if (abs)
  {
    VC_ASSERT(T.azimuth[o] == (T.azimuth_fixed ? 0 : sx(8)), "azimuth as transmitted");
    VC_ASSERT(T.elevation[o] == (T.elevation_fixed ? 0 : sx(6)), "elevation as transmitted");
    VC_ASSERT(T.radius[o] == (T.radius_fixed ? 0 : (int)nx(4)), "radius as transmitted");
    VC_ASSERT(T.gain[o] == (T.gain_fixed ? 0 : sx(7)), "gain as transmitted");
    VC_ASSERT(T.spread_width[o] == (T.spread_fixed ? 0 : (int)nx(7)), "spread width as transmitted");
    if (T.spread_fixed || !G.uniform_spread_present)
    {
      VC_ASSERT(T.spread_height[o] == (T.spread_fixed ? 0 : (int)nx(5)), "spread height as transmitted");
      VC_ASSERT(T.spread_depth[o] == (T.spread_fixed ? 0 : (int)nx(4)), "spread depth as transmitted");
    }
    else VC_ASSERT(T.spread_height[o] == P.spread_height[o] && T.spread_depth[o] == P.spread_depth[o], "uniform spread");
    if (G.dyn_obj_priority_present) VC_ASSERT(T.dyn_obj_priority[o] == (T.dynamic_obj_priority_fixed ? 0 : (int)nx(3)), "priority as transmitted");
    else VC_ASSERT(T.dyn_obj_priority[o] == P.dyn_obj_priority[o], "no priority");
  }
  else
  {
    int nb = nx(3) + 2;
    DELTA(azimuth, T.azimuth_fixed, 99);
    DELTA(elevation, T.elevation_fixed, 6);
    DELTA(radius, T.radius_fixed, 4);
    DELTA(gain, T.gain_fixed, 7);
    if (T.spread_fixed) VC_ASSERT(T.spread_width[o] == 0 && T.spread_height[o] == 0 && T.spread_depth[o] == 0, "fixed spread");
    else
    {
      DELTA(spread_width, 0, 7);
      DELTA(spread_height, G.uniform_spread_present, 5);
      DELTA(spread_depth, G.uniform_spread_present, 4);
    }
    DELTA(dyn_obj_priority, !G.dyn_obj_priority_present, 3);
  }
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  frame_rest(o, o + 1);
  if (G.dyn_obj_priority_present && !T.spread_fixed && !G.uniform_spread_present) VC_REACH("read");
}
/* one value of an intra frame: fixed or common values count for every object */
#define INTRA(f, bits, S) do { int fix_ = (int)nx(1), com_ = fix_ || nx(1), v_ = com_ ? S(bits) : 0; \
    for (int i_ = a; i_ < a + LD; i_++) { if (!com_) v_ = S(bits); VC_ASSERT(T.f[i_] == v_, #f " of every object as transmitted"); } VC_ASSERT(T.f##_fixed == fix_, "fixed flag as transmitted"); } while (0)
#define NX(b) ((int)nx(b))
#define dyn_obj_priority_fixed dynamic_obj_priority_fixed
void harness_intra(void)
{
  setup(LD, SUB);
  P = T;
  int a = (SUB - 1) * LD;
  IA_ERRORCODE r = impeghd_ic_obj_md_ld_dec(&T, &B);
  VC_ASSERT(r == 0, "accepted");
  if (LD == 1)
  {
    VC_ASSERT(T.azimuth[a] == sx(8) && T.elevation[a] == sx(6) && T.radius[a] == NX(4) && T.gain[a] == sx(7) && T.spread_width[a] == NX(7), "one object as transmitted");
    if (!G.uniform_spread_present) VC_ASSERT(T.spread_height[a] == NX(5) && T.spread_depth[a] == NX(4), "spread as transmitted");
    if (G.dyn_obj_priority_present) VC_ASSERT(T.dyn_obj_priority[a] == NX(3), "priority as transmitted");
    VC_ASSERT(!T.azimuth_fixed && !T.elevation_fixed && !T.radius_fixed && !T.gain_fixed && !T.spread_fixed && !T.dynamic_obj_priority_fixed, "nothing is fixed");
  }
  else if (LD > 1)
  {
    INTRA(azimuth, 8, sx);
    INTRA(elevation, 6, sx);
    INTRA(radius, 4, NX);
    INTRA(gain, 7, sx);
    int fix = nx(1), com = fix || nx(1), w = 0, h = 0, d = 0;
    VC_ASSERT(T.spread_fixed == fix, "fixed flag as transmitted");
    for (int i = a; i < a + LD; i++)
    {
      if (i == a || !com)
      {
        w = NX(7);
        if (!G.uniform_spread_present) h = NX(5), d = NX(4);
      }
      VC_ASSERT(T.spread_width[i] == w, "spread width of every object as transmitted");
      if (!G.uniform_spread_present) VC_ASSERT(T.spread_height[i] == h && T.spread_depth[i] == d, "spread of every object as transmitted");
    }
    if (G.dyn_obj_priority_present) INTRA(dyn_obj_priority, 3, NX);
  }
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  frame_rest(a, a + (LD ? LD : 1));
  VC_REACH("read");
}
#undef dyn_obj_priority_fixed
/* descaling and limits; pow is any positive function here, its accuracy is libm's */
static float in(float v, float a, float b) { return v >= a && v <= b; }
double stub_pow(double x, double y)
{
  VC_ASSERT(x == 2.0 || x == 10.0, "power of two or ten");
  float v = vc_f32();
  VC_ASSUME(v > 0 && v < 1e30f);
  return v;
}
void harness_descale(void)
{
  setup(LD, SUB);
  int a = (SUB - 1) * LD;
  impeghd_obj_md_descale_limit(&T);
  for (int i = a; i < a + LD; i++)
  {
    float az = T.azimuth[i] * 1.5f, el = T.elevation[i] * 3.0f;
    VC_ASSERT(T.azimuth_descaled[i] == (az < -180 ? -180 : az > 180 ? 180 : az), "azimuth in degrees, limited to the circle");
    VC_ASSERT(T.elevation_descaled[i] == (el < -90 ? -90 : el > 90 ? 90 : el), "elevation in degrees, limited to the sphere");
    VC_ASSERT(in(T.radius_descaled[i], 0.5f, 16.0f), "radius limited");
    VC_ASSERT(in(T.gain_descaled[i], 0.004f, 5.957f), "gain limited");
    float w = T.spread_width[i] * 1.5f, h = T.spread_height[i] * 3.0f, d = T.dyn_obj_priority[i];
    VC_ASSERT(T.spread_width_descaled[i] == (w < 0 ? 0 : w > 180 ? 180 : w), "spread width in degrees, limited");
    VC_ASSERT(T.dyn_obj_priority_descaled[i] == (d < 0 ? 0 : d > 7 ? 7 : d), "priority limited");
    if (!G.uniform_spread_present)
    {
      VC_ASSERT(T.spread_height_descaled[i] == (h < 0 ? 0 : h > 90 ? 90 : h), "spread height in degrees, limited");
      VC_ASSERT(in(T.spread_depth_descaled[i], 0.0f, 15.5f), "spread depth limited");
    }
  }
  VC_REACH("descaled");
}
/* the frame: contracts of the readers above */
static int nsingle, nintra, ndesc, last = -1, absflag;
IA_ERRORCODE stub_single(ia_oam_dec_state_struct *s, ia_bit_buf_struct *b, WORD32 abs, WORD32 o)
{
  VC_ASSERT(s == &T && b == &B && o > last && o >= (SUB - 1) * LD && o < SUB * LD, "every object of the sub frame once");
  last = o, absflag = abs, nsingle++;
  return 0;
}
IA_ERRORCODE stub_intra(ia_oam_dec_state_struct *s, ia_bit_buf_struct *b) { VC_ASSERT(s == &T && b == &B, "own state"); nintra++; return 0; }
IA_ERRORCODE stub_descale(ia_oam_dec_state_struct *s) { VC_ASSERT(s == &T, "own state"); ndesc++; return 0; }
void harness_lowdelay(void)
{
  setup(LD, SUB);
  for (int i = 0; i < LD; i++) T.sample[i] = 1000 + i;
  G.ld_md_coding_present = vc_range(0, 1);
  P = T;
  IA_ERRORCODE r = impeghd_obj_md_dec(&T, &B);
  if (!G.ld_md_coding_present) { VC_ASSERT(r != 0 && vc_seq_cnt == 0, "other codings are refused"); return; }
  VC_ASSERT(r == 0 && ndesc == 1, "values are limited after every frame");
  if (nx(1)) VC_ASSERT(nintra == 1 && nsingle == 0, "intra frame");
  else
  {
    int ab = nx(1), n = 0, k = (SUB - 1) * LD;
    for (int i = 0; i < LD; i++)
    {
      int f = nx(1);
      VC_ASSERT(T.has_obj_md[k + i] == f, "metadata flag of every object as transmitted");
      n += f;
    }
    VC_ASSERT(nsingle == n && (n == 0 || absflag == ab) && nintra == 0, "every object with metadata is read");
  }
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  for (int i = 0; i < LD; i++) VC_ASSERT(T.sample[i] == P.sample[i] + 256, "sample position moves on by one metadata frame");
  VC_REACH("read");
}
#endif
