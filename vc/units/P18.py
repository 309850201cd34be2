PROP = dict(
  title="User interaction: groups, zoom, scene displacement and local setup",
  statement="Element interaction, scene displacement and local setup data are read field for field. An interaction is accepted only if its groups and preset are those of the audio scene, every group that may be moved or changed in gain carries the change, and the number of groups is the scene's; errors are always reported. A local setup with more than 24 loudspeakers, a zero distance or more wires than signals is refused; loudspeaker angles and gains arrive in degrees and half decibels within their ranges.",
  over=["inputs"], all="every interaction, displacement and setup",
  why="The tests use none of these interfaces.",
  files=["decoder/impeghd_ele_interaction_intrfc.c"],
  mech=[("element interaction", "decoder/impeghd_ele_interaction_intrfc.c:impeghd_ele_interaction"), ("group interaction", "decoder/impeghd_ele_interaction_intrfc.c:impeghd_ei_grp_intrctvty_status"), ("scene displacement", "decoder/impeghd_ele_interaction_intrfc.c:impeghd_scene_displacement_data"), ("local setup", "decoder/impeghd_ele_interaction_intrfc.c:impeghd_3da_local_setup_information")],
  note="Followed for up to 3 groups and presets, 2 loudspeakers, 2 wires and signatures of 2 bytes (bounded). The loudspeaker description is P13's contract; impulse responses are assumed read or refused.")
S = dict(harness="h/ei.c", reader="stub")
AF = ["--max-field-sensitivity-array-size", "128", "--sat-solver", "cadical"]
UNITS = [dict(S, name="displacement", entry="harness_displacement", functions=["impeghd_scene_displacement_data"], unwind=4, defs=["SD"], flags=AF, what="scene displacement")]
#          groups asi scene presets sign
for k, (g, a, ng, npr, sg) in enumerate(((2, 1, 2, 0, 0), (1, 1, 1, 2, 0), (2, 1, 2, 1, 0), (2, 0, 0, 0, 2))):
  f = "{%s,-1,%d}" % ("0" if sg == 0 else "2,-1,-1,-1", g)
  UNITS.append(dict(S, name="interaction%d" % k, entry="harness_interaction", functions=["impeghd_ele_interaction", "impeghd_ele_interaction_data", "impeghd_ei_grp_intrctvty_status", "impeghd_lcl_zoom_area_size"], unwind=5, defs=["EI=%d" % g, "ASI=%d" % a, "NGRP=%d" % ng, "NPRE=%d" % npr, "SIGN=%d" % sg, "VC_FORCE", "FORCE=" + f, "VC_SEQ=48"], flags=AF, what="interaction of %d groups" % g, level="bounded", bound="%d groups, %d presets" % (g, npr)))
UNITS.append(dict(S, name="interaction_other", entry="harness_interaction", functions=["impeghd_ele_interaction"], unwind=5, defs=["EI=0", "ASI=1", "NGRP=2", "NPRE=1", "SIGN=0", "VC_FORCE", "FORCE={0,-1,3}", "VC_SEQ=48", "OTHER"], flags=AF, what="another number of groups"))
R = {"impeghd_speaker_config_3d": "stub_spk", "impeghd_read_brir_info": "stub_brir"}
for lt, n, w in ((0, 2, 0), (1, 1, 2), (2, 2, 1), (0, 0, 2)):
  UNITS.append(dict(S, name="setup%d_%d" % (lt, n), entry="harness_setup", functions=["impeghd_3da_local_setup_information", "impeghd_loud_spk_ren", "impeghd_loud_spk_inv_quant", "impeghd_lcl_scrn_sz_info"], unwind=5, defs=["LS", "LT=%d" % lt, "NLS=%d" % n, "NW=%d" % w, "VC_FORCE", "FORCE={0,%d}" % n, "VC_HOOK", "VC_SEQ=40"], flags=AF, replace=R, native=False, what="setup of %d loudspeakers" % n, level="bounded", bound="%d loudspeakers, %d wires" % (n, w)))
UNITS.append(dict(S, name="setup_many", entry="harness_setup", functions=["impeghd_loud_spk_ren"], unwind=5, defs=["LS", "LT=0", "NLS=0", "NW=0", "VC_FORCE", "OTHER", "FORCE={0,25}", "VC_HOOK", "VC_SEQ=40"], flags=AF, replace=R, native=False, what="too many loudspeakers"))
UNITS.append(dict(S, name="setup_brir", entry="harness_setup", functions=["impeghd_3da_local_setup_information"], unwind=5, defs=["LS", "LT=0", "NLS=0", "NW=1", "VC_FORCE", "FORCE={1,1}", "VC_SEQ=40"], flags=AF, replace=R, native=False, what="binaural setup"))
