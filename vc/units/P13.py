PROP = dict(
  title="Loudspeaker layouts: only real ones, every loudspeaker at its position",
  statement="A loudspeaker layout index selects exactly the loudspeakers, positions and LFE channels ISO/IEC 23001-8 lists for it, and any index without a layout is refused. Transmitted loudspeaker descriptions keep their azimuth, elevation, direction and LFE flag, angles or loudspeaker indices outside the allowed range and more loudspeakers than the tables hold are refused, a symmetric pair gets the mirrored position, and the channel and LFE counts always match the loudspeakers.",
  over=["inputs"], all="every layout index, every loudspeaker configuration in a stream",
  why="The tests decode mono streams only; no test has flexible loudspeaker descriptions, pairs or reserved indices.",
  files=["decoder/impeghd_cicp_2_geometry.c", "decoder/impeghd_cicp_2_geometry_rom.c", "decoder/ia_core_coder_init_config.c"],
  mech=[("layouts", "decoder/impeghd_cicp_2_geometry.c:impeghd_cicpidx_2_ls_geometry"), ("descriptions", "decoder/ia_core_coder_init_config.c:impeghd_spk_description"),
        ("flexible layouts", "decoder/ia_core_coder_init_config.c:impeghd_flexispk_config"), ("configuration", "decoder/ia_core_coder_init_config.c:impeghd_speaker_config_3d")],
  note="Layouts, table, angles and single descriptions are proofs; lists are followed for 24 loudspeakers, flexible layouts for 3 descriptions.")
S = dict(harness="h/spk.c", reader="stub")
F = ["--no-array-field-sensitivity", "--sat-solver", "cadical"]
L, FG, SD, SC = "impeghd_cicpidx_2_ls_geometry", "impeghd_fill_ls_geom_frm_cicp_spk_idx", "impeghd_spk_description", "impeghd_speaker_config_3d"
UNITS = [
  dict(S, name="no_layout", functions=[L, FG], unwind=26, what="indices without a layout"),
  dict(S, name="spk_table", functions=["ia_cicp_ls_geo_tbls (table)"], unwind=2, what="loudspeaker table"),
  dict(S, name="mirrored", functions=["impeghd_cicp_mirrored_spk_idx"], unwind=46, what="mirrored loudspeakers"),
  dict(S, name="degrees", functions=["impeghd_azi_idx_degree", "impeghd_elev_idx_degree"], unwind=2, what="angles"),
  dict(S, name="spk_description", functions=[SD, "impeghd_elev_idx_degree", "impeghd_azi_idx_degree"], unwind=33, what="one description"),
]
for t in (1, 2):
  UNITS.append(dict(S, name="geom%d" % t, entry="harness_geom", functions=["impeghd_get_geom_frm_spk_cfg"], defs=["GEO=%d" % t], unwind=46, flags=["--sat-solver", "cadical"], what="geometry of 24 loudspeakers, layout type %d" % t))
for t in (0, 1, 2):
  UNITS.append(dict(S, name="config%d" % t, entry="harness_config", functions=[SC], defs=["VC_FORCE", "CFGT=%d" % t, "VC_SEQ=30"], unwind=46, flags=["--sat-solver", "cadical"], native=False,
       replace={"impeghd_flexispk_config": "stub_flexispk_config", "impeghd_get_geom_frm_spk_cfg": "stub_get_geom"}, what="configuration of type %d" % t))
for lo, hi in ((1, 10), (11, 13), (14, 17), (18, 20)):
  UNITS.append(dict(S, name="layout%d" % lo, entry="harness_layout", functions=[L], unwind=26, defs=["LO=%d" % lo, "HI=%d" % hi], what="layouts %d to %d" % (lo, hi)))
  UNITS.append(dict(S, name="fill_geom%d" % lo, entry="harness_fill_geom", functions=[FG, L], unwind=26, defs=["LO=%d" % lo, "HI=%d" % hi], what="geometry of layouts %d to %d" % (lo, hi)))
for k in range(4):
  UNITS.append(dict(S, name="flexispk_%d" % k, entry="harness_flexispk_config", functions=["impeghd_flexispk_config"], defs=["VC_FORCE", "CFG2=3", "VC_SEQ=5", "PREC=%d" % (k & 1), "KIND=%d" % (k >> 1)], unwind=5, flags=["--sat-solver", "cadical"], native=False,
       replace={"impeghd_spk_description": "stub_spk_description", "impeghd_cicp_mirrored_spk_idx": "stub_mirrored"}, what="descriptions with pairs, first loudspeaker given by " + ("its index" if k & 2 else "angles"), level="bounded", bound="three loudspeakers"))
