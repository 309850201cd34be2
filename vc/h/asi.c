/* Contracts of the audio-scene-information parsers. */
#include "impeghd_mhas_parse.c"
#include "vc.h"

/* sequential view of the values the reader handed out */
#ifdef NOFIELDS
#define FIELDS 0
#define REACHN VC_REACH
#else
#define FIELDS 1
#define REACHN(x) (void)0
#endif
static int pos;
static uint32_t nx(int n)
{
  VC_ASSERT(pos < VC_SEQ && vc_seq_n[pos] == n, "the field has the width the syntax gives it");
  return vc_seq_v[pos++];
}

static ia_mae_group_def gd[MAX_NUM_GROUPS];
void harness_groups(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  vc_havoc(gd, sizeof gd);
  int n = NG;
  IA_ERRORCODE e = impeghd_mae_asi_group_def(gd, &b, n);
  int i = vc_range(0, NG - 1), j = vc_range(0, NG - 1);
  if (e == 0)
  {
    if (i < j && j < n)
      VC_ASSERT(gd[i].group_id != gd[j].group_id, "accepted groups have distinct ids");
    if (i < n)
      VC_ASSERT((int)gd[i].group_num_members >= 1 && (int)gd[i].group_num_members <= MAX_GROUP_NUM_MEMBERS,
                "a group has 1 to 128 members");
    if (FIELDS && n > 0)
    {
      ia_mae_group_def *g = &gd[0];
      VC_ASSERT((uint32_t)g->group_id == nx(7), "group id as transmitted");
      VC_ASSERT((uint32_t)g->allow_on_off == nx(1) && (uint32_t)g->default_on_off == nx(1), "on/off flags as transmitted");
      uint32_t p = nx(1);
      VC_ASSERT((uint32_t)g->allow_pos_interact == p, "position flag as transmitted");
      if (p)
        VC_ASSERT((uint32_t)g->min_az_offset == nx(7) && (uint32_t)g->max_az_offset == nx(7) && (uint32_t)g->min_el_offset == nx(5) &&
                      (uint32_t)g->max_el_offset == nx(5) && (uint32_t)g->min_dist_factor == nx(4) && (uint32_t)g->max_dist_factor == nx(4),
                  "position limits as transmitted");
      uint32_t q = nx(1);
      VC_ASSERT((uint32_t)g->allow_gain_interact == q, "gain flag as transmitted");
      if (q)
        VC_ASSERT((uint32_t)g->min_gain == nx(6) && (uint32_t)g->max_gain == nx(5), "gain limits as transmitted");
      uint32_t m = nx(7) + 1;
      VC_ASSERT((uint32_t)g->group_num_members == m, "member count as transmitted");
      if (nx(1))
      {
        VC_ASSERT((uint32_t)g->start_id == nx(7), "start id as transmitted");
#ifndef NOFIELDS
        if (m == 128) VC_REACH("largest group");
#endif
      }
      else
        VC_ASSERT((uint32_t)g->metadata_ele_id[0] == nx(7), "first member id as transmitted");
    }
#ifdef NOFIELDS
    if (n == NG) VC_REACH("accepted");
#endif
  }
  else
  {
    VC_ASSERT(e == IA_MPEGH_DEC_INIT_FATAL_INVALID_GRP_ID, "groups are refused only for a repeated id");
    if (NG > 1) REACHN("repeated id");
  }
}
/* the member loop, over its whole range, for one group */
void harness_members(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  vc_havoc(gd, sizeof gd);
  int32_t c0 = b.cnt_bits;
  IA_ERRORCODE e = impeghd_mae_asi_group_def(gd, &b, 1);
  int32_t hdr = 7 + 1 + 1 + 1 + (gd[0].allow_pos_interact ? 32 : 0) + 1 + (gd[0].allow_gain_interact ? 11 : 0) + 7 + 1;
  VC_ASSERT(e == 0, "one group is always accepted");
  VC_ASSERT(c0 - b.cnt_bits == hdr + 7 * (gd[0].has_conjunct_members ? 1 : (int)gd[0].group_num_members), "every member id is read");
  if (!gd[0].has_conjunct_members && (int)gd[0].group_num_members == 7) VC_REACH("members listed");
  if (gd[0].has_conjunct_members && gd[0].group_num_members == 128) VC_REACH("128 members");
}

static ia_mae_switch_group_def sg[MAX_NUM_SWITCH_GROUPS];
void harness_switch(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  vc_havoc(sg, sizeof sg);
  int n = NG;
  IA_ERRORCODE e = impeghd_mae_asi_switch_group_def(sg, &b, n);
  int i = vc_range(0, NG - 1), j = vc_range(0, NG - 1);
  if (e == 0)
  {
    if (i < j && j < n)
      VC_ASSERT(sg[i].group_id != sg[j].group_id, "accepted switch groups have distinct ids");
    if (i < n)
      VC_ASSERT(sg[i].group_num_members >= 1 && sg[i].group_num_members <= MAX_SWITCH_GROUP_NUM_MEMBERS, "1 to 32 members");
    if (FIELDS && n > 0)
    {
      VC_ASSERT((uint32_t)sg[0].group_id == nx(5), "switch group id as transmitted");
      uint32_t a = nx(1);
      VC_ASSERT((uint32_t)sg[0].allow_on_off == a, "flag as transmitted");
      if (a)
        VC_ASSERT((uint32_t)sg[0].default_on_off == nx(1), "default as transmitted");
      VC_ASSERT((uint32_t)sg[0].group_num_members == nx(5) + 1, "member count as transmitted");
      VC_ASSERT((uint32_t)sg[0].member_id[0] == nx(7), "member as transmitted");
#ifndef NOFIELDS
      if (sg[0].group_num_members == 2) VC_REACH("switch group");
#endif
      if (sg[0].group_num_members == 1)
        VC_ASSERT((uint32_t)sg[0].default_group_id == nx(7), "default member as transmitted");
    }
#ifdef NOFIELDS
    if (n == NG) VC_REACH("accepted");
#endif
  }
  else
  {
    VC_ASSERT(e == IA_MPEGH_DEC_INIT_FATAL_INVALID_GRP_ID, "refused only for a repeated id");
    if (NG > 1) REACHN("repeated id");
  }
}

/* presets: the group a condition refers to must allow what the preset changes */
static int find_group(const ia_mae_group_def *g, int n, int id)
{
  for (int i = 0; i < n; i++)
    if (g[i].group_id == id)
      return i;
  return -1;
}
static ia_mae_audio_scene_info *asi_p;
#define asi (*asi_p)
static void groups_pre(int n)
{
  asi_p = malloc(sizeof *asi_p);
  /* what a successful group definition leaves behind */
  asi.num_groups = (WORD8)n;
  for (int i = 0; i < MAX_NUM_GROUPS; i++)
  {
    asi.group_definition[i].group_id = (WORD8)vc_range(0, 127);
    asi.group_definition[i].allow_gain_interact = (WORD8)vc_range(0, 1);
    asi.group_definition[i].allow_pos_interact = (WORD8)vc_range(0, 1);
  }
}
void harness_presets(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  groups_pre(vc_range(0, MAX_NUM_GROUPS));
  int n = NG;
  ia_mae_group_presets_def *pd = asi.group_presets_definition;
  IA_ERRORCODE e = impeghd_mae_asi_group_presets_def(pd, asi.group_definition, &b, n);
  int i = vc_range(0, NG - 1), j = vc_range(0, NG - 1);
  if (e == 0)
  {
    if (i < j && j < n)
      VC_ASSERT(pd[i].group_id != pd[j].group_id, "accepted presets have distinct ids");
    if (i < n)
      VC_ASSERT(pd[i].num_conditions >= 1 && pd[i].num_conditions <= MAX_GROUP_PRESET_NUM_CONDITIONS, "1 to 16 conditions");
    if (FIELDS && n > 0)
    {
      VC_ASSERT((uint32_t)pd[0].group_id == nx(5) && (uint32_t)pd[0].preset_kind == nx(5) && (uint32_t)pd[0].num_conditions == nx(4) + 1,
                "preset header as transmitted");
      VC_ASSERT((uint32_t)pd[0].reference_id[0] == nx(7), "reference as transmitted");
      uint32_t on = nx(1);
      VC_ASSERT((uint32_t)pd[0].cond_on_off[0] == on, "condition on/off as transmitted");
      if (on)
      {
        VC_ASSERT((uint32_t)pd[0].disable_gain_interact[0] == nx(1), "as transmitted");
        uint32_t g = nx(1);
        VC_ASSERT((uint32_t)pd[0].gain_flag[0] == g, "as transmitted");
        if (g)
          VC_ASSERT((uint32_t)pd[0].gain[0] == nx(8), "gain as transmitted");
        VC_ASSERT((uint32_t)pd[0].disable_pos_interact[0] == nx(1), "as transmitted");
        uint32_t p = nx(1);
        VC_ASSERT((uint32_t)pd[0].position_interact[0] == p, "as transmitted");
        if (p)
          VC_ASSERT((uint8_t)pd[0].azimuth_offset[0] == nx(8) && (uint32_t)pd[0].elevation_offset[0] == nx(6) &&
                        (uint32_t)pd[0].dist_factor[0] == nx(4), "position change as transmitted");
        VC_ASSERT(!g || asi.group_definition[0].allow_gain_interact, "a gain change needs a group that allows it");
        VC_ASSERT(!p || asi.group_definition[0].allow_pos_interact, "a position change needs a group that allows it");
#ifndef NOFIELDS
        if (g && p) VC_REACH("full condition");
#endif
      }
    }
#ifdef NOFIELDS
    if (n == NG) VC_REACH("accepted");
#endif
  }
  else
  {
    VC_ASSERT(e == IA_MPEGH_DEC_INIT_FATAL_INVALID_GRP_ID || e == IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_CONFIG_FAIL,
              "refused for a repeated id or a forbidden change");
    if (e == IA_MPEGH_DEC_INIT_FATAL_INVALID_GRP_ID) REACHN("repeated id");
    if (e == IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_CONFIG_FAIL) VC_REACH("forbidden change");
  }
}
/* a preset refers to groups by id; the permission that counts is that group's */
void harness_preset_ref(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  groups_pre(2);
  VC_ASSUME(asi.group_definition[0].group_id != asi.group_definition[1].group_id);
  ia_mae_group_presets_def *pd = asi.group_presets_definition;
  IA_ERRORCODE e = impeghd_mae_asi_group_presets_def(pd, asi.group_definition, &b, 1);
  if (e == 0 && pd[0].num_conditions == 1 && pd[0].cond_on_off[0] && pd[0].gain_flag[0])
  {
    int g = find_group(asi.group_definition, 2, pd[0].reference_id[0]);
    VC_REACH("gain change accepted");
    VC_ASSERT(g < 0 || asi.group_definition[g].allow_gain_interact, "the referenced group allows the gain change");
  }
}
void harness_preset_ext(void)
{
  ia_bit_buf_struct b;
  static ia_mae_group_presets_ext_def x;
  vc_bitbuf_init(&b);
  groups_pre(MAX_NUM_GROUPS);
  int n = NG;
  asi.num_group_presets = (WORD8)n;
  for (int i = 0; i < MAX_NUM_GROUPS_PRESETS; i++)
    asi.group_presets_definition[i].num_conditions = (WORD8)vc_range(1, MAX_GROUP_PRESET_NUM_CONDITIONS);
  IA_ERRORCODE e = impeghd_mae_asi_group_presets_def_ext(&x, asi.group_definition, &b, n, PRESET_COND);
  if (e == 0 && n == NG) VC_REACH("accepted");
  VC_ASSERT(e == 0 || e == IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_EXT_CONFIG_FAIL || e == IA_MPEGH_DEC_INIT_FATAL_INVALID_NUM_DM_ID_GRP_PR_EXT,
            "refused for a forbidden change or too many downmix ids");
}

/* description blocks */
static ia_description_data *dd_p;
#define dd (*dd_p)
static int blk_limit, first7 = 1, reads;
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v)
{
#ifdef RD_CUT
  reads++;
#ifndef VC_NATIVE
  VC_ASSUME(reads <= RD_CUT);
#endif
#endif
#ifdef DESC
  if (n == 24)
    first7 = -1;
  else if (n == 8 && first7 == -1)
  {
    first7 = -2;
#ifdef DESC_SHORT
    VC_ASSUME(v < 2);
#endif
  }
#endif
}
int64_t vc_force(int i, int n) { return i == 0 ? NBLK - 1 : i == 2 ? 0 : -1; }
void harness_descr(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  int w = vc_range(0, 1) ? 5 : 7;
  dd_p = malloc(sizeof *dd_p);
  IA_ERRORCODE e = impeghd_mae_parse_description_data(&dd, &b, w);
  int32_t used = vc_bits0 - b.cnt_bits;
#ifdef DESC_SHORT
  if (e == 0)
  {
    int k = vc_range(0, 127);
    VC_ASSERT(dd.num_descr_blks == nx(7) + 1, "block count as transmitted");
    if (k < dd.num_descr_blks)
      VC_ASSERT(dd.num_descr_languages[k] >= 1 && dd.num_descr_languages[k] <= MAX_NUM_DESCR_LANGUAGES, "1 to 4 languages");
    VC_ASSERT((uint32_t)dd.grp_id[0] == nx(w) && (uint32_t)dd.num_descr_languages[0] == nx(4) + 1, "block header as transmitted");
    VC_ASSERT((uint32_t)dd.descr_language[0][0] == nx(24) && (uint32_t)dd.descr_data_length[0][0] == nx(8) + 1, "text header as transmitted");
    VC_ASSERT((uint8_t)dd.descr_data[0][0][0] == nx(8), "first byte as transmitted");
    if (dd.num_descr_blks == NBLK) VC_REACH("many blocks");
  }
#else
  if (e == 0 && dd.num_descr_blks == 1 && dd.num_descr_languages[0] == 1)
  {
    VC_ASSERT(used == 7 + w + 4 + 24 + 8 + 8 * ((int)vc_seq_v[4] + 1), "every byte of the text is consumed");
    int k = vc_range(0, 8);
    if (k <= (int)vc_seq_v[4])
      VC_ASSERT((uint8_t)dd.descr_data[0][0][k] == (uint8_t)vc_seq_v[5 + k], "text bytes as transmitted");
    if (dd.descr_data_length[0][0] == 6) VC_REACH("text");
  }
#endif
}

#ifdef WHICH
/* the remaining small data sets: bounds and values */
void harness_small(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
#if WHICH == 0
  ia_content_data *cp = malloc(sizeof *cp);
#define c (*cp)
  impeghd_mae_parse_content_data(&c, &b);
  VC_ASSERT(c.num_data_blks >= 0 && c.num_data_blks < MAX_NUM_CONTENT_DATA_BLOCKS, "content blocks in capacity");
  VC_ASSERT(c.num_data_blks == (int)nx(7) && c.data_grp_id[0] == (int)nx(7) && c.content_kind[0] == (int)nx(4), "content block as transmitted");
  if (c.num_data_blks == 3) VC_REACH("blocks");
#elif WHICH == 1
  ia_composite_pair_data *cp = malloc(sizeof *cp);
#define c (*cp)
  impeghd_mae_parse_composite_pair(&c, &b);
  VC_ASSERT(c.num_pairs == (int)nx(7), "pair count as transmitted");
  int k = vc_range(0, 2);
  if (k < c.num_pairs)
    VC_ASSERT(c.ele_id[k][0] == (int)vc_seq_v[1 + 2 * k] && c.ele_id[k][1] == (int)vc_seq_v[2 + 2 * k], "pair as transmitted");
  if (c.num_pairs == 5) VC_REACH("pairs");
#elif WHICH == 2
  ia_production_screen_size_ext_data *cp = malloc(sizeof *cp);
#define c (*cp)
  impeghd_mae_parse_prod_screen_sz_data_ext(&c, &b);
  VC_ASSERT(c.num_preset_prod_screens >= 0 && c.num_preset_prod_screens <= MAX_NUM_PRESET_PROD_SCREENS, "screens in capacity");
  uint32_t o = nx(1);
  VC_ASSERT(c.overwrite_prod_screen_size_data == (int)o, "as transmitted");
  if (o)
    VC_ASSERT(c.default_screen_sz_left_az == (int)nx(10) && c.default_screen_sz_right_az == (int)nx(10), "as transmitted");
  VC_ASSERT(c.num_preset_prod_screens == (int)nx(5), "as transmitted");
  if (c.num_preset_prod_screens > 0)
  {
    VC_ASSERT(c.screen_grp_preset_id[0] == (int)nx(5), "as transmitted");
    if (nx(1))
    {
      if (nx(1))
        VC_ASSERT(c.screen_sz_left_az[0] == (int)nx(9), "centred screen as transmitted");
      else
        VC_ASSERT(c.screen_sz_left_az[0] == (int)nx(10) && c.screen_sz_right_az[0] == (int)nx(10), "screen edges as transmitted");
      VC_ASSERT(c.screen_sz_top_el[0] == (int)nx(9) && c.screen_sz_bot_el[0] == (int)nx(9), "screen elevation as transmitted");
    }
  }
  if (c.num_preset_prod_screens == 2) VC_REACH("screens");
#elif WHICH == 3
  static ia_production_screen_size_data c;
  impeghd_mae_parse_prod_screen_sz_data(&c, &b);
  if (nx(1))
  {
    VC_ASSERT(c.screen_size_az == (int)nx(9) && c.screen_size_el == (int)nx(9) && c.screen_size_bot_el == (int)nx(9), "screen as transmitted");
    VC_REACH("screen");
  }
#elif WHICH == 4
  static ia_drc_user_interface_info c;
  impeghd_mae_parse_drc_user_interface_info(&c, &b);
  if (nx(2) == 0)
  {
    uint32_t m = nx(3);
    VC_ASSERT(c.num_tgt_loudness_cnd == (int)m && c.tgt_loudness_value[0] == -63, "loudness conditions");
    if (m)
    {
      VC_ASSERT(c.tgt_loudness_value[1] == (int)nx(6), "target loudness as transmitted");
      VC_ASSERT((uint32_t)c.set_effect_available[0] == nx(16), "available effects as transmitted");
      VC_REACH("condition");
    }
  }
#elif WHICH == 5
  asi_p = malloc(sizeof *asi_p);
  asi.num_groups = (WORD8)vc_range(0, 3);
  asi.num_group_presets = (WORD8)vc_range(0, 2);
  impeghd_mae_parse_loudness_comp_data(&asi, &b);
  if (nx(1) && asi.num_groups > 0)
  {
    VC_ASSERT((uint8_t)asi.loud_comp_data.group_loudness[0] == nx(8), "group loudness as transmitted");
    if (asi.num_groups == 3) VC_REACH("full");
  }
#endif
}
#endif
