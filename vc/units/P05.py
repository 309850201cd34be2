PROP = dict(
  title="Earcon and PCM packets: within the tables, values as transmitted",
  statement="Earcon and PCM packets never fill a table past its end: more earcons or PCM signals than the decoder holds, or more samples per frame than its sample table, are refused before anything is stored out of place. Accepted earcon positions, gains, texts and PCM settings are the transmitted values, explicit frame sizes are used as sizes, every PCM sample is sign-extended, scaled to 16-bit range and put at its own signal and instant, and a data packet leaves the PCM configuration alone.",
  over=["inputs", "histories"], all="every bit stream, every PCM configuration left by earlier packets",
  why="No test stream contains an earcon or a PCM packet.",
  files=["decoder/impeghd_mhas_parse.c", "decoder/impeghd_mhas_parse.h"],
  mech=[("earcons", "decoder/impeghd_mhas_parse.c:impeghd_econ_config_info"), ("PCM configuration", "decoder/impeghd_mhas_parse.c:impeghd_pcm_data_config"),
        ("PCM samples", "decoder/impeghd_mhas_parse.c:impeghd_pcm_data_payload")],
  note="Limits and configuration are proofs; sample loops are followed for whole frames of fixed sizes (24 x 1, 3 x 24, 10 x 3, 3 x 2) and the first samples of any frame.")
F = ["--no-array-field-sensitivity", "--sat-solver", "cadical"]
S = dict(harness="h/econ.c", reader="stub", unity=True, sources=["ia_core_coder_rom.c"])
E, C, P = ["impeghd_econ_config_info"], ["impeghd_pcm_data_config"], ["impeghd_pcm_data_payload"]
UNITS = [
  dict(S, name="econ_fields", functions=E, defs=["PART_E", "VC_HOOK", "RD_CUT=14", "CAP_FIRST=16", "VC_SEQ=14"], unwind=4, flags=F, what="first earcon and the limit", level="bounded", bound="first 14 fields; the limit for every count"),
  dict(S, name="econ_full", functions=E, defs=["PART_E", "VC_FORCE", "ECON_ALL", "VC_SEQ=130"], unwind=18, flags=["--sat-solver","cadical"], what="16 earcons without text", level="bounded", bound="speaker positions, no gain, no text"),
  dict(S, name="econ_text", functions=E, defs=["PART_E", "VC_FORCE", "ECON_TXT=2", "VC_SEQ=17"], unwind=4, flags=F, what="two texts", level="bounded", bound="two languages with two characters"),
  dict(S, name="pcm_config", functions=C, defs=["PART_C", "VC_SEQ=40"], unwind=26, flags=F, what="PCM configuration"),
]
for w in (16, 24, 32):
  UNITS.append(dict(S, name="pcm_data%d" % w, entry="harness_pcm_data", functions=P, defs=["PART_P", "VC_HOOK", "RD_CUT=%d" % (8 if w == 32 else 5), "PCM_BITS=%d" % w, "VC_SEQ=10"], unwind=10, flags=F, what="%d-bit data: limits and first sample" % w,
      level="bounded", bound="first reads"))
for w, n, s, i in ((16, 1, 24, 6), (16, 24, 3, 5), (24, 3, 10, 6), (32, 2, 3, 5)):
  UNITS.append(dict(S, name="pcm_frame%d_%d_%d" % (w, n, i), entry="harness_pcm_frame", functions=P, defs=["PART_P", "VC_FORCE", "PCM_BITS=%d" % w, "PCM_N=%d" % n, "PCM_SIZE=%d" % s, "PCM_IDX=%d" % i, "VC_SEQ=%d" % (2 + n + n * s * (4 if w == 32 else 1))], unwind=30, flags=F, what="%d x %d samples of %d bits" % (s, n, w),
      level="bounded", bound="one frame shape, sample values fixed"))
