PROP = dict(
  title="HOA configuration and side information as transmitted, out of range refused",
  statement="The HOA configuration is read field for field; orders above 6, ambience or transmitted orders above the order or the transport, more than 16 additional channels, reserved values and tools outside the profile are refused, and every derived width counts to what it indexes. In every frame, channel types, ambience coefficients with their transitions, directions, vector coding, code book vectors, gains and predictions are as transmitted; a kept vector keeps the previous frame's coding; coefficients, directions, code book vectors and gains out of range are refused; every code word read is exactly the one of the value returned.",
  over=["inputs", "histories"], all="every configuration and frame",
  why="The tests have no HOA signals: none of this code runs in them.",
  files=["decoder/impeghd_hoa_config.c", "decoder/impeghd_hoa_frame.c"],
  mech=[("configuration", "decoder/impeghd_hoa_config.c:impeghd_fill_config"), ("frame", "decoder/impeghd_hoa_frame.c:impeghd_hoa_frame"), ("vectors", "decoder/impeghd_hoa_frame.c:impeghd_hoa_frame_v_vector_data")],
  note="sqrt is an assumed contract (right to the next integer). Frames are followed for up to 2 channels and orders 1 to 4, vectors for 4 coefficients and 3 code book vectors. Gains of predictions are not claimed.")
S = dict(harness="h/hoa.c", reader="stub")
AF = ["--sat-solver", "cadical"]
UNITS = [
  dict(S, name="log2", entry="harness_log2", functions=["impeghd_hoa_get_ceil_log2"], unwind=10, defs=["CONF"], what="widths"),
  dict(S, name="config", entry="harness_config", functions=["impeghd_fill_config", "impeghd_hoa_v_vec_len_and_coeff_calc"], unwind=10, defs=["CONF", "VC_SEQ=32"], flags=AF, replace={"sqrt": "stub_sqrt"}, sources=["impeghd_hoa_rom.c"], native=False, what="configuration"),
]

NF = ["--no-array-field-sensitivity", "--sat-solver", "cadical"]
ST = {"impeghd_hoa_frame_v_vector_data": "stub_vvec"}
for i in (0, 1):
  for t in range(4):
    UNITS.append(dict(S, name="frame%d_%d" % (i, t), entry="harness_frame", functions=["impeghd_hoa_frame"], unwind=10, defs=["NA=1", "NT=2", "ORD=1", "PRED=0", "ZMAX=4", "VC_HOOK", "VC_FORCE", "FORCE={%d,%d}" % (i, t), "VC_SEQ=24"], flags=NF, replace=ST, native=False, what="frame side information", level="bounded", bound="two channels, gains up to 4"))
UNITS.append(dict(S, name="two", entry="harness_frame", functions=["impeghd_hoa_frame"], unwind=10, defs=["NA=2", "NT=2", "ORD=1", "PRED=0", "ZMAX=3", "VC_HOOK", "VC_FORCE", "FORCE={0,1,0,0,1,0,1,0,0,1,0}", "VC_SEQ=24"], flags=NF, replace=ST, native=False, what="two vector channels", level="bounded", bound="two channels"))
for na in (0, 1):
  f = "{1,%s-1,0%s" % ("3," if na else "", ",0" * 62)
  UNITS.append(dict(S, name="gain%d" % na, entry="harness_frame", functions=["impeghd_hoa_frame"], unwind=70, defs=["NA=%d" % na, "NT=1", "ORD=1", "PRED=0", "ZMAX=66", "VC_HOOK", "VC_FORCE", "FORCE=" + f + "}", "VC_SEQ=80"], flags=AF, replace=ST, native=False, what="largest gain"))
for p, i in ((1, 0), (1, 1), (2, 1)):
  UNITS.append(dict(S, name="pred%d_%d" % (p, i), entry="harness_frame", functions=["impeghd_hoa_frame"], unwind=10, defs=["NA=2", "NT=2", "ORD=1", "PRED=%d" % p, "ZMAX=6", "VC_HOOK", "VC_FORCE", "FORCE={0,0,-1,1,0,0,-1,1,0,1,%d}" % i, "VC_SEQ=32"], flags=NF, replace=ST, native=False, what="prediction of two directions", level="bounded", bound="two channels, order 1"))
H = {"impeghd_hoa_huffman_decode": "stub_huff"}
for n, v, o in ((1, 3, 2), (3, 3, 2), (1, 2, 4)):
  UNITS.append(dict(S, name="vq%d_%d" % (n, o), entry="harness_vvec", functions=["impeghd_hoa_frame_v_vector_data"], unwind=10, defs=["NQ=4", "VQ=%d" % n, "VL=%d" % v, "ORD=%d" % o, "VC_SEQ=16"], flags=["--max-field-sensitivity-array-size", "128", "--sat-solver", "cadical"], native=False, what="%d codebook vectors" % n, level="bounded", bound="%d coefficients" % v))
for q, o in ((0, 1), (5, 2), (6, 1), (10, 2), (15, 3)):
  UNITS.append(dict(S, name="vec%d" % q, entry="harness_vvec", functions=["impeghd_hoa_frame_v_vector_data", "impeghd_hoa_get_sub_idx"], unwind=10, defs=["NQ=%d" % q, "VL=4", "ORD=%d" % o, "VC_SEQ=24"], flags=["--max-field-sensitivity-array-size", "128", "--sat-solver", "cadical"], replace=H if q > 5 else {}, native=False, what="vector of %d bits" % q, level="bounded", bound="4 coefficients"))
for q in range(6, 16):
  for x in range(1, 6):
    UNITS.append(dict(S, name="huff%d_%d" % (q, x), entry="harness_huff", functions=["impeghd_hoa_huffman_decode"], unwind=17, defs=["HQ=%d" % q, "HX=%d" % x, "VC_SEQ=20"], flags="--no-array-field-sensitivity --sat-solver cadical".split(), sources=["impeghd_hoa_rom.c"], native=False, what="code book %d of %d bits" % (x, q)))
