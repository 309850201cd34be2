/* Contracts of the user interaction readers: element interaction, scene
 * displacement, local setup. */
#include "vc.h"
#include "impeghd_ele_interaction_intrfc.c"
#ifdef OTHER
#define REFUSED VC_REACH("refused")
#define ACCEPTED (void)0
#else
#define REFUSED (void)0
#define ACCEPTED VC_REACH("accepted")
#endif
static ia_bit_buf_struct B;
static int pos;
static uint32_t nx(int n)
{
  VC_ASSERT(pos < VC_SEQ && vc_seq_n[pos] == n, "the field has the width the syntax gives it");
  return vc_seq_v[pos++];
}
#ifdef FORCE
static const int64_t forced[] = FORCE;
int64_t vc_force(int i, int n)
{
  return i < (int)(sizeof forced / sizeof *forced) ? forced[i] : -1;
}
#endif
#ifdef EI
/* EI groups of interaction; the scene has NGRP groups and NPRE presets, or none (ASI 0) */
static ia_ele_intrctn E;
static ia_mae_audio_scene_info A;
void harness_interaction(void)
{
  vc_bitbuf_init(&B);
  A.asi_present = ASI, A.num_groups = NGRP, A.num_group_presets = NPRE;
  int sc = ASI;
  for (int i = 0; i < NGRP; i++)
  {
    A.group_definition[i].group_id = vc_range(0, 127);
    A.group_definition[i].allow_pos_interact = vc_range(0, 1);
    A.group_definition[i].allow_gain_interact = vc_range(0, 1);
    for (int k = 0; k < i; k++) VC_ASSUME(A.group_definition[i].group_id != A.group_definition[k].group_id);
  }
  for (int i = 0; i < NPRE; i++) A.group_presets_definition[i].group_id = vc_range(0, 31);
  vc_havoc(&E, sizeof E);
  IA_ERRORCODE r = impeghd_ele_interaction(&B, &E, &A);
  int len = nx(8);
  VC_ASSERT(E.ei_intrctn_sign_data_len == len, "signature length as transmitted");
  if (len)
  {
    VC_ASSERT(E.ei_intrctn_sign_data_type == nx(8), "signature type as transmitted");
    for (int i = 0; i < SIGN; i++) if (i < len) VC_ASSERT(E.ei_intrctn_sign_data[i] == nx(8), "signature as transmitted");
  }
  int mode = nx(1);
  VC_ASSERT(E.ei_intrctn_mode == mode, "mode as transmitted");
  if (sc && NPRE && !mode) { VC_ASSERT(r != 0, "a scene with presets needs the preset mode"); return; }
  int ng = nx(7);
  VC_ASSERT(E.ei_num_groups == ng, "number of groups as transmitted");
  if (sc && ng != NGRP) { VC_ASSERT(r != 0, "another number of groups than the scene's is refused"); REFUSED; return; }
  if (mode)
  {
    int p = nx(5), ok = 0;
    VC_ASSERT(E.ei_group_preset_id == p, "preset as transmitted");
    for (int i = 0; i < NPRE; i++) if (A.group_presets_definition[i].group_id == p) ok = 1;
    if (sc && !ok) { VC_ASSERT(r != 0, "a preset the scene does not have is refused"); return; }
  }
  for (int i = 0; i < EI; i++)
  {
    int id = nx(7), d = -1;
    VC_ASSERT(E.ei_grp_id[i] == id, "group as transmitted");
    for (int k = 0; k < NGRP; k++) if (A.group_definition[k].group_id == id) d = k;
    if (sc && d < 0) { VC_ASSERT(r != 0, "a group the scene does not have is refused"); return; }
    int on = nx(1), wire = nx(1);
    VC_ASSERT(E.ei_on_off[i] == on && E.ei_route_to_wire[i] == wire, "switch and route as transmitted");
    VC_ASSERT(E.route_to_wire_id[i] == (wire ? (int)nx(16) : -1), "wire as transmitted, none otherwise");
    if (on)
    {
      int cp = nx(1);
      VC_ASSERT(E.ei_change_pos[i] == cp, "position flag as transmitted");
      if (sc && !cp) for (int k = 0; k < NGRP; k++) if (k == d && A.group_definition[k].allow_pos_interact == 1) { VC_ASSERT(r != 0, "a group whose position may be changed carries one"); return; }
      if (cp)
      {
        VC_ASSERT(E.ei_az_offset[i] == nx(8), "azimuth offset as transmitted");
        VC_ASSERT(E.ei_el_offset[i] == nx(6), "elevation offset as transmitted");
        VC_ASSERT(E.ei_dist_fact[i] == nx(4), "distance factor as transmitted");
      }
      int cg = nx(1);
      VC_ASSERT(E.ei_change_gain[i] == cg, "gain flag as transmitted");
      if (sc && !cg) for (int k = 0; k < NGRP; k++) if (k == d && A.group_definition[k].allow_gain_interact == 1) { VC_ASSERT(r != 0, "a group whose gain may be changed carries one"); return; }
      if (cg) VC_ASSERT(E.ei_gain[i] == nx(7), "gain as transmitted");
    }
  }
  int z = nx(1);
  VC_ASSERT(E.has_zoom_area_sz == z, "zoom flag as transmitted");
  if (z)
  {
    VC_ASSERT(E.zoom_az_center == (WORD32)nx(10), "zoom centre as transmitted");
    VC_ASSERT(E.zoom_az == (WORD32)nx(10), "zoom width as transmitted");
    VC_ASSERT(E.zoom_el_center == (WORD32)nx(9), "zoom centre elevation as transmitted");
    VC_ASSERT(E.zoom_el == (WORD32)nx(10), "zoom height as transmitted");
  }
  VC_ASSERT(r == 0 && E.ei_data_present == 1, "a valid interaction is accepted");
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  ACCEPTED;
}
#endif
#ifdef SD
void harness_displacement(void)
{
  static ia_scene_disp_data D;
  vc_havoc(&D, sizeof D);
  vc_bitbuf_init(&D.sd_buf);
  IA_ERRORCODE r = impeghd_scene_displacement_data(&D);
  VC_ASSERT(r == 0 && D.scene_dspl_data_present == 1, "data present");
  VC_ASSERT(D.sd_yaw == nx(9) && D.sd_pitch == nx(9) && D.sd_roll == nx(9), "rotation as transmitted");
  VC_ASSERT(D.sd_azimuth == nx(8) && D.sd_elevation == nx(6) && D.sd_radius == nx(4), "displacement as transmitted");
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  VC_REACH("read");
}
#endif
#ifdef LS
static ia_local_setup_struct L, M;
static ia_signals_3d SG;
static int bad, called;
#ifdef VC_HOOK
/* the number of wires is fixed when it is read */
static int n16;
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v)
{
  if (n == 16 && ++n16 == 2) VC_ASSUME(v == NW || v > 48);
}
#endif
IA_ERRORCODE stub_spk(VOID *b, ia_interface_speaker_config_3d *c)
{
  VC_ASSERT(b == (VOID *)&B && c == &L.spk_config && vc_seq_cnt == 2 && !called, "the loudspeaker description is read into the setup");
  called = 1;
  c->spk_layout_type = LT;
  return bad ? -1 : 0;
}
IA_ERRORCODE stub_brir(ia_binaural_renderer *p, ia_bit_buf_struct *b)
{
  VC_ASSERT(b == &B && p == L.pstr_binaural_renderer && vc_seq_cnt == 1 && !called, "the impulse responses are read into the renderer");
  called = 1;
  return bad ? -1 : 0;
}
static float clampf(float v, float m) { return v > m ? m : v < -m ? -m : v; }
void harness_setup(void)
{
  vc_bitbuf_init(&B);
  vc_havoc(&L, sizeof L);
  for (int i = 0; i < NLS; i++)
  {
    VC_ASSUME(L.spk_config.str_flex_spk_data.str_flex_spk_descr[i].az_angle_idx >= 0 && L.spk_config.str_flex_spk_data.str_flex_spk_descr[i].az_angle_idx <= 255);
    VC_ASSUME(L.spk_config.str_flex_spk_data.str_flex_spk_descr[i].el_angle_idx >= 0 && L.spk_config.str_flex_spk_data.str_flex_spk_descr[i].el_angle_idx <= 255);
  }
  VC_ASSUME(L.spk_config.str_flex_spk_data.angular_precision == 1 || L.spk_config.str_flex_spk_data.angular_precision == 5);
  SG.num_audio_obj = vc_range(0, 24), SG.num_ch = vc_range(0, 24);
  bad = vc_range(0, 1);
  M = L;
  IA_ERRORCODE r = impeghd_3da_local_setup_information(&B, &L, SG);
  int rt = nx(1);
  VC_ASSERT((int)L.ren_type == rt && L.enable_ele_int == 1 && L.is_brir_rendering == rt, "rendering as transmitted");
  if (!rt)
  {
    int n = nx(16);
    if (n > 24) { VC_ASSERT(r != 0, "more loudspeakers than the setup holds are refused"); REFUSED; return; }
    VC_ASSERT(called, "the loudspeakers are described");
    if (bad) { VC_ASSERT(r != 0, "an error of the loudspeaker description is reported"); return; }
    int dist = nx(1), cal = nx(1);
    VC_ASSERT(L.use_tracking_mode == nx(1), "tracking as transmitted");
    VC_ASSERT(L.ptr_spk_dist == (dist ? L.loud_spk_dist : (WORD32 *)0) && L.ptr_spk_gain == (cal ? L.loud_spk_calibration_gain : (FLOAT32 *)0), "distances and gains present as transmitted");
    for (int i = 0; i < NLS; i++)
    {
      if (LT <= 1)
      {
        int k = nx(1);
        VC_ASSERT(L.has_knwn_pos[i] == k, "known position as transmitted");
        if (k)
        {
          float az = (float)((int)nx(9) - 256);
          if (!dist || 1) VC_ASSERT(r != 0 || L.loud_spk_azimuth[i] == clampf(az, 180), "azimuth as transmitted within half a turn");
          int el = (int)nx(8) - 128;
          VC_ASSERT(r != 0 || L.loud_spk_elevation[i] == (el > 90 ? 90 : el < -90 ? -90 : el), "elevation as transmitted within a quarter turn");
        }
      }
      if (dist)
      {
        int d = nx(10);
        if (!d) { VC_ASSERT(r != 0, "no distance is zero"); return; }
        VC_ASSERT(L.loud_spk_dist[i] == d, "distance as transmitted");
      }
      if (cal) { float g = ((float)nx(7) - 64) * 0.5f; VC_ASSERT(r != 0 || L.loud_spk_calibration_gain[i] == (g > 31.5f ? 31.5f : g < -32.f ? -32.f : g), "calibration gain as transmitted, in half decibels"); }
      if (LT == 2)
      {
        ia_flex_spk_cfg_str *d = &M.spk_config.str_flex_spk_data.str_flex_spk_descr[i];
        int p = M.spk_config.str_flex_spk_data.angular_precision;
        float a = (float)(d->az_angle_idx * p), e = (float)(d->el_angle_idx * p);
        if (d->az_direction == 0 || d->az_direction == 1) VC_ASSERT(r != 0 || L.spk_config.str_flex_spk_data.azimuth[i] == (d->az_direction ? -a : a), "flexible azimuth in degrees");
        if (d->el_direction == 0 || d->el_direction == 1) VC_ASSERT(r != 0 || L.spk_config.str_flex_spk_data.elevation[i] == (d->el_direction ? -e : e), "flexible elevation in degrees");
      }
    }
    VC_ASSERT(L.ext_dist_compensation == (WORD32)nx(1) && (int)L.num_spk == n, "compensation as transmitted");
  }
  else
  {
    VC_ASSERT(called, "the impulse responses are read");
    if (bad) { VC_ASSERT(r != 0, "an error of the impulse responses is reported"); return; }
  }
  int w = nx(16);
  if (w > (int)SG.num_audio_obj + (int)SG.num_ch) { VC_ASSERT(r != 0, "more wires than signals are refused"); return; }
  for (int i = 0; i < NW; i++) VC_ASSERT(L.wire_id[i] == nx(16), "wire as transmitted");
  int s = nx(1);
  VC_ASSERT(L.has_local_screen_size_info == s, "screen flag as transmitted");
  if (s)
  {
    if (nx(1)) VC_ASSERT(L.lcl_scrn_sz_az == (WORD32)nx(9), "screen width as transmitted");
    else
    {
      VC_ASSERT(L.lcl_scrn_sz_left_az == (WORD32)nx(10), "left screen edge as transmitted");
      VC_ASSERT(L.lcl_scrn_sz_right_az == (WORD32)nx(10), "right screen edge as transmitted");
    }
    int e = nx(1);
    VC_ASSERT(L.has_lcl_scrn_elevation_info == e, "screen elevation flag as transmitted");
    if (e)
    {
      VC_ASSERT(L.lcl_scrn_sz_top_el == (WORD32)nx(9), "upper screen edge as transmitted");
      VC_ASSERT(L.lcl_scrn_sz_bottom_el == (WORD32)nx(9), "lower screen edge as transmitted");
    }
  }
  VC_ASSERT(r == 0, "a valid setup is accepted");
  VC_ASSERT(pos == vc_seq_cnt, "nothing else is read");
  ACCEPTED;
}
#endif
