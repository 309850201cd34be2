/* Contract of the audio scene information as a whole and of its data-set loop. */
#include "impeghd_mhas_parse.c"
#include "vc.h"
static ia_mae_audio_scene_info asi;
/* the data-set loop: next set starts where the length of this one says */
static int hdr_no, sub_called[10];
static int32_t at_start, set_type, set_len, sub_used;
static void sub(ia_bit_buf_struct *b, int kind)
{
  int32_t n = vc_range(0, 1 << 20);
  VC_ASSUME(n <= b->cnt_bits);
  b->cnt_bits -= n;
  sub_used = n;
  VC_ASSERT(kind == set_type, "a data set goes to the parser of its type");
  VC_ASSERT(!sub_called[kind], "a data set type is parsed at most once");
  sub_called[kind] = 1;
}
static IA_ERRORCODE sub_e(ia_bit_buf_struct *b, int kind) { sub(b, kind); return vc_range(0, 1) ? IA_MPEGH_DEC_INIT_FATAL_INVALID_GRP_ID : 0; }
VOID vc_ld(ia_mae_audio_scene_info *a, ia_bit_buf_struct *b) { sub(b, ID_MAE_LOUDNESS_COMPENSATION); }
VOID vc_se(ia_production_screen_size_ext_data *a, ia_bit_buf_struct *b) { sub(b, ID_MAE_SCREEN_SIZE_EXTENSION); }
VOID vc_sc(ia_production_screen_size_data *a, ia_bit_buf_struct *b) { sub(b, ID_MAE_SCREEN_SIZE); }
VOID vc_ui(ia_drc_user_interface_info *a, ia_bit_buf_struct *b) { sub(b, ID_MAE_DRC_UI_INFO); }
VOID vc_cp(ia_composite_pair_data *a, ia_bit_buf_struct *b) { sub(b, ID_MAE_GROUP_COMPOSITE); }
VOID vc_ct(ia_content_data *a, ia_bit_buf_struct *b) { sub(b, ID_MAE_GROUP_CONTENT); }
IA_ERRORCODE vc_dd(ia_description_data *d, ia_bit_buf_struct *b, WORD32 w)
{
  VC_ASSERT(d == &asi.group_desc_data ? (w == 7 && set_type == ID_MAE_GROUP_DESCRIPTION)
            : d == &asi.switch_group_desc_data ? (w == 5 && set_type == ID_MAE_SWITCHGROUP_DESCRIPTION)
                                               : (w == 5 && set_type == ID_MAE_GROUP_PRESET_DESCRIPTION && d == &asi.preset_desc_data),
            "description goes to its own table with its id width");
  return sub_e(b, set_type);
}
#ifdef DATA
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v)
{
  if (n == 16) { set_len = (int32_t)v; at_start = b->cnt_bits; sub_used = 0;
    if (set_type > 9) VC_ASSUME(v <= 3); }
  if (n != 4) return;
  hdr_no++;
  if (hdr_no > 2)
  {
    int32_t used = at_start - (b->cnt_bits + 4);
    VC_ASSERT(used == set_len * 8 || (sub_used > set_len * 8 && used == sub_used), "the next data set starts where this one's length says");
    if (set_len > 40000) VC_REACH("long data set");
  }
  set_type = (int32_t)v;
}

int64_t vc_force(int i, int n) { return i == 0 ? 2 : -1; }
void harness_datasets(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  IA_ERRORCODE e = impeghd_mae_asi_data_parse(&asi, &b);
  VC_ASSERT(asi.mae_data.num_data_sets >= 0 && asi.mae_data.num_data_sets <= MAX_MAE_NUM_DATASETS, "data sets in capacity");
  if (e == 0)
  {
    int32_t used = at_start - b.cnt_bits;
    VC_ASSERT(used == set_len * 8 || (sub_used > set_len * 8 && used == sub_used), "the section ends where the last data set's length says");
  }
  if (e == IA_MPEGH_DEC_INIT_FATAL_ASI_PARSE_FAIL) VC_REACH("repeated type");
  VC_ASSERT(e == 0 || e == IA_MPEGH_DEC_INIT_FATAL_ASI_PARSE_FAIL || e == IA_MPEGH_DEC_INIT_FATAL_INVALID_GRP_ID, "errors are those of the data sets");
}
#else
/* whole: every section is parsed with a count that fits its table */
static int seen;
static IA_ERRORCODE sect_err;
static IA_ERRORCODE sect(int want)
{
  VC_ASSERT(seen == want && sect_err == 0, "sections in order, none after an error");
  seen++;
  sect_err = vc_range(0, 1) ? IA_MPEGH_DEC_INIT_FATAL_INVALID_GRP_ID : 0;
  return sect_err;
}
static int c_g, c_s, c_p;
IA_ERRORCODE vc_gd(ia_mae_group_def *g, ia_bit_buf_struct *b, WORD32 n)
{
  VC_ASSERT(g == asi.group_definition && n >= 0 && n <= MAX_NUM_GROUPS, "group count fits");
  c_g = n;
  return sect(0);
}
IA_ERRORCODE vc_sg(ia_mae_switch_group_def *g, ia_bit_buf_struct *b, WORD32 n)
{
  VC_ASSERT(g == asi.switch_group_definition && n >= 0 && n <= MAX_NUM_SWITCH_GROUPS, "switch group count fits");
  c_s = n;
  return sect(1);
}
IA_ERRORCODE vc_pd(ia_mae_group_presets_def *g, ia_mae_group_def *gr, ia_bit_buf_struct *b, WORD32 n)
{
  VC_ASSERT(g == asi.group_presets_definition && gr == asi.group_definition && n >= 0 && n <= MAX_NUM_GROUPS_PRESETS, "preset count fits");
  c_p = n;
  return sect(2);
}
IA_ERRORCODE vc_da(ia_mae_audio_scene_info *a, ia_bit_buf_struct *b)
{
  VC_ASSERT(a == &asi, "data sets belong to this scene");
  return sect(3);
}
void harness_whole(void)
{
  ia_bit_buf_struct b;
  int32_t id0 = vc_i32();
  vc_bitbuf_init(&b);
  asi.asi_id = id0;
  IA_ERRORCODE e = impeghd_mae_asi_parse(&asi, &b);
  int p = 0;
  uint32_t main = vc_seq_v[p++];
  if (!main)
  {
    VC_ASSERT(e == 0 && seen == 0 && asi.mae_id_offset == (int)vc_seq_v[1] + 1 && asi.mae_id_max_avail == (int)vc_seq_v[2], "side stream: offset and last id");
    VC_REACH("side stream");
    return;
  }
  uint32_t has_id = vc_seq_v[p++];
  if (has_id)
    VC_ASSERT(asi.asi_id == (int)vc_seq_v[p++], "scene id as transmitted");
  else
    VC_ASSERT(asi.asi_id == id0, "scene id kept");
  uint32_t ng = vc_seq_v[p++];
  VC_ASSERT(asi.num_groups >= 0 && asi.num_groups <= MAX_NUM_GROUPS, "group count in capacity whatever happens");
  if (ng > MAX_NUM_GROUPS)
  {
    VC_ASSERT(e == IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUP && seen == 0, "too many groups are refused");
    VC_REACH("too many groups");
    return;
  }
  VC_ASSERT(seen >= 1 && c_g == (int)ng && asi.num_groups == (int)ng, "groups parsed");
  if (seen == 1 && e == sect_err && sect_err) { VC_REACH("group error"); return; }
  uint32_t ns = vc_seq_v[p++];
  VC_ASSERT(asi.num_switch_groups >= 0 && asi.num_switch_groups <= MAX_NUM_SWITCH_GROUPS, "switch groups in capacity");
  if (ns > MAX_NUM_SWITCH_GROUPS)
  {
    VC_ASSERT(e == IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_SWITCH_GROUPS && seen == 1, "too many switch groups are refused");
    return;
  }
  VC_ASSERT(seen >= 2 && c_s == (int)ns && asi.num_switch_groups == (int)ns, "switch groups parsed");
  if (seen == 2 && e == sect_err && sect_err) return;
  uint32_t np = vc_seq_v[p++];
  VC_ASSERT(asi.num_group_presets >= 0 && asi.num_group_presets <= MAX_NUM_GROUPS_PRESETS, "presets in capacity");
  if (np > MAX_NUM_GROUPS_PRESETS)
  {
    VC_ASSERT(e == IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUPS_PRESETS && seen == 2, "too many presets are refused");
    return;
  }
  VC_ASSERT(seen >= 3 && c_p == (int)np && asi.num_group_presets == (int)np, "presets parsed");
  if (seen == 3 && e == sect_err && sect_err) return;
  VC_ASSERT(seen == 4 && e == sect_err, "data sets parsed, their error reported");
  if (e == 0)
  {
    VC_ASSERT(asi.mae_id_offset == 0 && asi.mae_id_max_avail == (int)vc_seq_v[p], "main stream: last id");
    VC_REACH("main stream");
  }
}
#endif
