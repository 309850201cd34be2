PROP = dict(
  title="Object metadata: every value as transmitted, limited to its range",
  statement="Object metadata is read field for field: screen, priority and spread flags and the metadata frame length (256, 512 or 1024 samples, others refused), the enhanced configuration with its object limits, and for every object and sub frame position, gain, spread and priority, intra, absolute or as a difference. Values reach the renderer within azimuth +-180, elevation +-90, radius 0.5 to 16, gain 0.004 to 5.957, spread 180/90/15.5 and priority 0 to 7 in every sub frame; other sub frames and objects keep their values; values an enhanced frame keeps are those of the previous frame and independent frames keep none.",
  over=["inputs", "histories"], all="every metadata payload and previous frame",
  why="The tests have no objects: no metadata is ever read by them.",
  files=["decoder/impeghd_oam_dec.c", "decoder/impeghd_oam_dec_ld.c"],
  mech=[("configuration", "decoder/impeghd_oam_dec.c:impeghd_obj_md_cfg"), ("enhanced configuration", "decoder/impeghd_oam_dec.c:impeghd_enh_obj_md_config"), ("enhanced frame", "decoder/impeghd_oam_dec.c:impeghd_enh_obj_md_frame"),
        ("objects", "decoder/impeghd_oam_dec_ld.c:impeghd_single_dyn_obj_md"), ("intra frames", "decoder/impeghd_oam_dec_ld.c:impeghd_ic_obj_md_ld_dec"), ("ranges", "decoder/impeghd_oam_dec_ld.c:impeghd_limit_range_ld_obj_md")],
  note="pow is an assumed contract (any positive result). Per-object loops are followed for up to 3 and 24 objects, per-object sectors for 3.")
S = dict(harness="h/oam.c", reader="stub")
NF = ["--no-array-field-sensitivity", "--sat-solver", "cadical"]
AF = ["--sat-solver", "cadical"]
UNITS = []
for n in (0, 1, 3, 24):
  UNITS.append(dict(S, name="cfg%d" % n, entry="harness_cfg", functions=["impeghd_obj_md_cfg"], unwind=26, defs=["CFG=%d" % n, "VC_SEQ=40"], flags=AF, what="configuration of %d objects" % n))
for n in (0, 1, 3, 6):
  UNITS.append(dict(S, name="enh_cfg%d" % n, entry="harness_enh_cfg", functions=["impeghd_enh_obj_md_config"], unwind=26, defs=["ENH=%d" % n, "VC_SEQ=80"], flags=AF, what="enhanced configuration of %d objects" % n))
for n, c, sec, d in ((1, 1, 2, "DIVERG=2"), (1, 0, 2, "DIVERG=2"), (2, 1, 0, "DIVERG=2"), (2, 0, 1, "DIVERG=0")):
  UNITS.append(dict(S, name="enh_frame%d_%d" % (n, c), entry="harness_frame", functions=["impeghd_enh_obj_md_frame"], unwind=17, defs=["FRM=%d" % n, "COM=%d" % c, "SEC=%d" % sec, d, "VC_HOOK", "VC_SEQ=%d" % (24 if n == 1 else 32)], flags=NF, what="enhanced frame, %s sectors" % ("common" if c else "per-object"), level="bounded", bound="two objects, two sectors"))
for o in (0, 30):
  for ab in (0, 1):
    UNITS.append(dict(S, name="single%d_%d" % (o, ab), entry="harness_single", functions=["impeghd_single_dyn_obj_md", "impeghd_oam_read_sign_param"], unwind=26, defs=["LD=%d" % o, "SUB=1", "ABSO=%d" % ab, "VC_SEQ=20"], flags=AF, what="one object, %s" % ("absolute" if ab else "differential")))
for n, s in ((1, 1), (1, 3), (2, 1), (3, 4)):
  UNITS.append(dict(S, name="intra%d_%d" % (n, s), entry="harness_intra", functions=["impeghd_ic_obj_md_ld_dec", "impeghd_ic_oam_ld_signed_param_dec", "impeghd_ic_oam_ld_unsigned_param_dec"], unwind=26, defs=["LD=%d" % n, "SUB=%d" % s, "VC_SEQ=40"], flags=AF, what="intra frame of %d objects in sub frame %d" % (n, s)))
  UNITS.append(dict(S, name="descale%d_%d" % (n, s), entry="harness_descale", functions=["impeghd_obj_md_descale_limit", "impeghd_descale_ld_obj_md", "impeghd_limit_range_ld_obj_md"], unwind=26, defs=["LD=%d" % n, "SUB=%d" % s, "VC_SEQ=4"], flags=AF, replace={"pow": "stub_pow"}, what="ranges of %d objects in sub frame %d" % (n, s)))
for n, s in ((0, 1), (2, 2), (24, 4)):
  UNITS.append(dict(S, name="frame%d_%d" % (n, s), entry="harness_lowdelay", functions=["impeghd_obj_md_dec", "impeghd_obj_md_low_delay_dec"], native=False, unwind=26, defs=["LD=%d" % n, "SUB=%d" % s, "VC_SEQ=40"], flags=AF,
    replace={"impeghd_single_dyn_obj_md": "stub_single", "impeghd_ic_obj_md_ld_dec": "stub_intra", "impeghd_obj_md_descale_limit": "stub_descale"}, what="metadata frame of %d objects in sub frame %d" % (n, s)))
