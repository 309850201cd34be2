PROP = dict(
  title="Audio scene information: tables within capacity, saying what was transmitted",
  statement="Parsing audio scene information never leaves more groups, switch groups, presets, conditions, members, data sets, description blocks, languages or screens than the decoder's tables hold: larger announcements are refused. Accepted groups, switch groups and presets have distinct ids, a preset with a gain or position change its group forbids is refused, each data set type occurs once, every field holds the transmitted value, and after each data set the reader stands where that set's length says.",
  over=["inputs"], all="every bit stream",
  why="The test streams carry one small scene at most; limits, duplicates and long texts never occur in them.",
  files=["decoder/impeghd_mhas_parse.c", "decoder/impeghd_mhas_parse.h"],
  mech=[("scene parser", "decoder/impeghd_mhas_parse.c:impeghd_mae_asi_parse"), ("data sets", "decoder/impeghd_mhas_parse.c:impeghd_mae_asi_data_parse")],
  note="Group/switch-group/preset tables are explored with up to 3 entries (bounded); counts at the table limits, the member loop and the small data sets are proofs.")
F = ["--no-array-field-sensitivity", "--sat-solver", "cadical"]
S = dict(harness="h/asi.c", reader="stub")
REP = {"impeghd_mae_parse_loudness_comp_data": "vc_ld", "impeghd_mae_parse_prod_screen_sz_data_ext": "vc_se", "impeghd_mae_parse_prod_screen_sz_data": "vc_sc",
       "impeghd_mae_parse_drc_user_interface_info": "vc_ui", "impeghd_mae_parse_composite_pair": "vc_cp", "impeghd_mae_parse_content_data": "vc_ct",
       "impeghd_mae_parse_description_data": "vc_dd"}
B3 = dict(level="bounded", bound="up to 3 table entries")
def small(i, n, f, uw, cut):
    return dict(S, name="small_" + n, entry="harness_small", functions=[f], defs=["WHICH=%d" % i, "NG=2", "PRESET_COND=1", "NBLK=1", "VC_SEQ=%d" % (12 if i == 2 else 8)] + (["VC_HOOK", "RD_CUT=%d" % cut] if cut else []),
                unwind=uw, flags=F, what=n, **(dict(level="bounded", bound="first %d fields" % cut) if cut else {}))
def tab(n, f, ng, cut, uw, seq, more=[], **k):
    return dict(dict(S, name=n, functions=[f], defs=["NG=%d" % ng, "VC_SEQ=%d" % seq, "PRESET_COND=1", "NBLK=1", "VC_HOOK", "RD_CUT=%d" % cut] + more, unwind=uw, flags=F, what=n,
                level="bounded", bound="up to %d entries, first %d fields" % (ng, cut)), **k)
UNITS = [
  tab("groups", "impeghd_mae_asi_group_def", 2, 16, 14, 1, more=["NOFIELDS"]),
  tab("group_fields", "impeghd_mae_asi_group_def", 1, 17, 14, 17, entry="harness_groups"),
  tab("members", "impeghd_mae_asi_group_def", 1, 20, 17, 1),
  tab("switch", "impeghd_mae_asi_switch_group_def", 2, 13, 12, 1, more=["NOFIELDS"]),
  tab("switch_fields", "impeghd_mae_asi_switch_group_def", 1, 9, 9, 9, entry="harness_switch"),
  tab("presets", "impeghd_mae_asi_group_presets_def", 2, 14, 8, 1, more=["NOFIELDS"]),
  tab("preset_fields", "impeghd_mae_asi_group_presets_def", 1, 14, 8, 14, entry="harness_presets"),
  small(0, "content", "impeghd_mae_parse_content_data", 10, 24),
  small(1, "pairs", "impeghd_mae_parse_composite_pair", 10, 16),
  small(2, "screen_ext", "impeghd_mae_parse_prod_screen_sz_data_ext", 8, 20),
  small(3, "screen", "impeghd_mae_parse_prod_screen_sz_data", 4, 0),
  small(4, "drc_ui", "impeghd_mae_parse_drc_user_interface_info", 9, 0),
  small(5, "loudness", "impeghd_mae_parse_loudness_comp_data", 5, 0),
  tab("descr_long", "impeghd_mae_parse_description_data", 1, 14, 11, 14, more=["DESC", "VC_FORCE"], entry="harness_descr", bound="one block, one language, first 14 fields", flags=F[:1]),
  dict(name="datasets", harness="h/asidata.c", reader="stub", defs=["VC_HOOK", "VC_FORCE", "DATA", "VC_SEQ=1"], functions=["impeghd_mae_asi_data_parse"], replace=REP, native=False, unwind=5, flags=F, what="data-set loop, two sets from an arbitrary position", level="bounded", bound="two data sets; unknown types of up to 3 bytes"),
  dict(name="whole", harness="h/asidata.c", reader="stub", functions=["impeghd_mae_asi_parse"], native=False, unwind=4, flags=F, what="sections and counts",
       replace={"impeghd_mae_asi_group_def": "vc_gd", "impeghd_mae_asi_switch_group_def": "vc_sg", "impeghd_mae_asi_group_presets_def": "vc_pd", "impeghd_mae_asi_data_parse": "vc_da"}),
]
