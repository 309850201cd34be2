PROP = dict(
  title="Stream configuration: fields kept, limits refused, extensions skipped exactly",
  statement="A configuration packet is read field for field: signal groups, elements, tool flags, extension and configuration-extension contents are stored as transmitted. More groups, elements, extensions, downmix matrices, objects or payload bytes than the tables hold, reserved values, tools outside the profile and unsupported profile levels, sampling rates or layouts are refused. Every extension ends at its announced length: shorter content is skipped, longer content is refused, and an error of any content is reported.",
  over=["inputs"], all="every configuration packet",
  why="The two smoke tests read one configuration; no test has extensions, several groups, limits or malformed configurations.",
  files=["decoder/ia_core_coder_init_config.c"],
  mech=[("configuration", "decoder/ia_core_coder_init_config.c:ia_core_coder_mpegh_3da_config"), ("elements", "decoder/ia_core_coder_init_config.c:ia_core_coder_decoder_config"),
        ("extension elements", "decoder/ia_core_coder_init_config.c:ia_core_coder_ext_element_config"), ("extensions", "decoder/ia_core_coder_init_config.c:ia_core_coder_config_extension"),
        ("downmix matrices", "decoder/ia_core_coder_init_config.c:impeghd_parse_dmx_ext_config")],
  note="One contract per reader, callers use the contracts of the readers they call. Element lists are followed for 3 elements, extensions for 2, copied payloads for 6 bytes, downmix lists for 2 matrices (bounded).")
C = "ia_core_coder_"
ESCS = {"ia_core_coder_read_escape_value": "stub_escape"}
S = dict(harness="h/cfg.c", reader="stub", native=False)
NF = ["--no-array-field-sensitivity", "--sat-solver", "cadical"]
UNITS = [
  dict(S, name="sig_group", functions=["impeghd_sig_group_info"], unwind=18, defs=["VC_SEQ=40"], what="signal group information"),
  dict(S, name="compat", functions=["impeghd_compatible_profile_level_set"], unwind=18, defs=["VC_SEQ=20"], what="compatible profile levels"),
  dict(S, name="elements", functions=[C + "decoder_config"], unwind=5, defs=["ELC=3", "VC_SEQ=48", "ESC_CUT(k,v)=((v)<3||(v)>=50)"], flags=NF, level="bounded", bound="three elements",
       replace=dict(ESCS, **{C + "ext_element_config": "stub_ext", C + "cpe_config": "stub_cpe", C + "map_ele_to_channel": "stub_map"}), what="element list"),
]
for k in (0, 1, 7, 23):
  UNITS.append(dict(S, name="map%d" % k, entry="harness_map", functions=[C + "map_ele_to_channel"], unwind=52, defs=["KMAP=%d" % k], what="output %d" % k))
for no, nc in ((0, 1), (3, 2), (16, 0)):
  UNITS.append(dict(S, name="prod%d_%d" % (no, nc), entry="harness_prod_metadata", functions=["impeghd_prod_metadata_config"], unwind=34, defs=["NO=%d" % no, "NC=%d" % nc, "VC_SEQ=40"], flags=NF, what="production metadata, %d object and %d channel groups" % (no, nc)))
EX = {"impeghd_prod_metadata_config": "stub_prod", "impeghd_enh_obj_md_config": "stub_enh", "impeghd_obj_md_cfg": "stub_oam", "impeghd_fill_config": "stub_hoa"}
for t in (0, 1, 3, 4, 5, 7, 9, 13, 14, 200):
  UNITS.append(dict(S, name="ext_element%d" % t, entry="harness_ext_element", functions=[C + "ext_element_config"], unwind=8, defs=["TY=%d" % t, "ESC_FORCE={%d}" % t, "ESC_CUT(k,v)=((k)!=1||(v)<=6||(v)>=1536)" if t in (4, 9) else "ESC_CUT(k,v)=1"], flags=NF, replace=dict(ESCS, **EX), what="extension element of type %d" % t,
    **(dict(level="bounded", bound="payloads of up to 6 bytes") if t in (4, 9) else {})))
CUT = "ESC_CUT(k,v)=(n1==8?(v)<=20||(v)>2048:n2==3?(v)<=1||(v)>7:(v)<=1||(v)>=16)"
for nm, f, n in (("plain", "{0}", 0), ("one", "{1,1,-1,-1}", 1), ("two", "{1,2,-1,0,-1,-1,-1}", 2), ("both", "{2,1,-1,1}", 1), ("res", "{3}", 9), ("many", "{1,7}", 9)):
  UNITS.append(dict(S, name="dmx_" + nm, entry="harness_dmx", functions=["impeghd_parse_dmx_ext_config"], unwind=5, defs=["VC_FORCE", "DMX=%d" % n, "FORCE=" + f, "VC_SEQ=32", CUT], replace=ESCS, level="bounded", bound="two matrices of up to 20 bits", what="downmix matrices", flags=["--sat-solver", "cadical"]))
XS = {"impeghd_hoa_matrix": "stub_hoamat", "impeghd_parse_dmx_ext_config": "stub_dmx", "impeghd_mae_asi_parse": "stub_asi", "impeghd_sig_group_info": "stub_sig", "impeghd_compatible_profile_level_set": "stub_compat"}
XC = "ESC_CUT(k,v)=((k)%2==1||(k)==0||(v)<3||(v)>1536)"
for t in (0, 1, 2, 3, 4, 6, 7, 200):
  bt = t in (0, 2, 200)
  UNITS.append(dict(S, name="extension%d" % t, entry="harness_extensions", functions=[C + "config_extension"], unwind=6, defs=["XN=1", "ESC_FORCE={0,%d}" % t] + ([XC] if bt else []), flags=NF, replace=dict(ESCS, **XS), what="configuration extension of type %d" % t,
    **(dict(level="bounded", bound="extensions of up to 2 bytes or longer than 1536 bytes") if bt else {})))
for t, u in ((1, 2), (2, 7), (7, 1), (6, 4)):
  UNITS.append(dict(S, name="extension%d_%d" % (t, u), entry="harness_extensions", functions=[C + "config_extension"], unwind=6, defs=["XN=2", "ESC_FORCE={1,%d,-1,%d}" % (t, u), XC], flags=NF, replace=dict(ESCS, **XS), what="configuration extensions of types %d and %d" % (t, u), level="bounded", bound="extensions of up to 2 bytes or longer than 1536 bytes"))
UNITS.append(dict(S, name="extensions_many", entry="harness_extensions", functions=[C + "config_extension"], unwind=6, defs=["XN=0", "ESC_CUT(k,v)=((v)>=5)"], flags=NF, replace=dict(ESCS, **XS), what="too many configuration extensions"))
for n in (1, 2, 3, 4, 5, 8, 9, 16):
  UNITS.append(dict(S, name="cpe%d" % n, entry="harness_cpe", functions=[C + "cpe_config"], unwind=4, defs=["CPE", "NCH=%d" % n], flags=NF, replace={C + "map_ele_to_channel": "stub_map2"}, what="channel pair element, %d channels" % n))
DS = {C + "decoder_config": "stub_elements", C + "config_extension": "stub_extensions", "impeghd_flexispk_config": "stub_flex"}
def da(nm, grp, lt, force, cut, what, **k):
  UNITS.append(dict(S, name="config_" + nm, entry="harness_da", functions=[C + "mpegh_3da_config"], unwind=k.pop("unwind", 18), defs=["DA", "GRP=%d" % grp, "LT=" + str(lt).split()[0]] + (["RES"] if "RES" in str(lt) else []) + ["VC_FORCE", "FORCE={%s}" % force, "VC_SEQ=40", "ESC_CUT(k,v)=" + cut],
    flags=k.pop("fl", NF), replace=dict(ESCS, **DS), what=what, **k))
#           prof si fl rdc lt lay groups
for t in range(4):
  da("one%d" % t, 1, 0, "-1,%d,-1,-1,0,-1,0,%d%s" % ((3, 8, 4, 6)[t], t, ",0" if t == 0 else ""), "1", "one group of type %d" % t)
for si in (0, 1, 2, 7, 9, 16, 30, 31):
  da("rate%d" % si, 17, "0 -DRES" if si in (0, 1, 2, 9, 16, 30) else 0, "-1,%d,-1,-1,0,-1,16" % si if si < 31 else "-1,31,-1,-1,-1,0,-1,16", "1", "sampling rate index %d" % si)
da("many", 17, 0, "-1,4,-1,-1,0,-1,16", "1", "too many groups")
da("flex", 1, 2, "-1,3,-1,-1,2,0,1", "1", "flexible loudspeakers")
da("contribution", 1, 3, "-1,3,-1,-1,3,-1,0,0", "1", "contribution layout")
da("group_spk", 1, 0, "-1,3,-1,-1,0,-1,0,0,1,1", "((k)==0||(v)<2||(v)>=24)", "loudspeaker list of a group", level="bounded", bound="two loudspeakers")
da("group_flex", 1, 0, "-1,3,-1,-1,0,-1,0,0,1,2", "1", "flexible loudspeakers of a group")
da("group_layout", 1, 0, "-1,3,-1,-1,0,-1,0,0,1,0", "1", "layout of a group")
da("two", 2, 0, "13,3,0,-1,0,6,1,1,3", "1", "object and HOA groups", unwind=18, fl=["--max-field-sensitivity-array-size", "32", "--sat-solver", "cadical"])

da("two_ch", 2, 0, "13,3,0,1,0,6,1,0,0,0,0", "1", "two channel groups", unwind=18, fl=["--max-field-sensitivity-array-size", "32", "--sat-solver", "cadical"])
da("spk1", 1, 1, "-1,3,-1,-1,1,-1,-1,0,1", "((k)>0||(v)==1)", "loudspeaker list", level="bounded", bound="two loudspeakers")
