PROP = dict(
  title="MHAS packet walk: header values, packet stepping, config packet cache",
  statement="Whatever bytes arrive, the MHAS layer reads packet type, label and length as the escaped values the format defines, accepts a sync packet only if it is the single byte 0xA5, and for every packet it does not hand over leaves the reader exactly behind that packet. It stops at the first configuration, frame or PCM packet with the reader at the right bit; an error in a packet's payload is reported, not lost. A configuration packet larger than the decoder's cache is refused rather than written past it.",
  over=["inputs", "histories"], all="every byte stream, any number of packets (induction over the packet loop)",
  why="The test streams contain only sync, config and frame packets with short headers.",
  files=["decoder/impeghd_mhas_parse.c", "decoder/ia_core_coder_headerdecode.c", "decoder/ia_core_coder_decode_main.c"],
  mech=[("packet loop", "decoder/impeghd_mhas_parse.c:impeghd_mhas_parse"), ("header decode", "decoder/ia_core_coder_headerdecode.c:ia_core_coder_headerdecode")],
  note="Payload parsers are replaced by their contracts (they consume any number of bits and succeed or fail); an over-long payload is accepted as the code does.")
R = {"impeghd_mae_asi_parse": "vc_asi", "impeghd_econ_config_info": "vc_econ", "impeghd_pcm_data_config": "vc_pcmc",
     "impeghd_pcm_data_payload": "vc_pcmd", "impd_drc_mpegh3da_parse_loudness_info_set": "vc_loud"}
UNITS = [
  dict(name="walk", harness="h/mhas.c", sources=["impeghd_mhas_parse.c"], functions=["impeghd_mhas_parse"], reader="stub", defs=["VC_HOOK", "VC_SEQ=24"], replace=R, unwind=4,
       flags=["--no-array-field-sensitivity", "--sat-solver", "cadical"], what="one packet from an arbitrary position; the next header starts at its end (inductive step)"),
]
UNITS.append(dict(name="cfgcache", harness="h/cfgcache.c", functions=["ia_core_coder_headerdecode"], reader="stub",
  sources=["ia_core_coder_headerdecode.c", "ia_core_coder_common_initfuncs.c"], replace={"impeghd_mhas_parse": "vc_walk", "impegh_3daudio_config_dec": "vc_cfgdec"},
  defs=["VC_HOOK"], unwind=20, level="bounded", bound="copy loop followed for 18 bytes; the size test for every length", flags=["--no-array-field-sensitivity"], what="configuration packet caching"))
