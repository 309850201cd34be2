PROP = dict(
  title="PCM output is saturated, truncated little-endian audio in the announced layout",
  statement="Every finite decoded sample becomes, at 16, 24 or 32 bits, the truncated scaled value or, when it exceeds full scale, the clipped full-scale value of the same sign, stored little-endian. Samples of all channels are interleaved in channel-map order, the start-up delay is removed exactly once, the reported byte count is exactly what was written, and nothing is written beyond it.",
  over=["inputs", "configurations", "histories"], all="every finite sample value, bit depth, channel map, remaining start-up delay and frame",
  why="Tests compare one stream at one bit depth; overload, other depths, channel maps and delay/frame combinations are unbounded.",
  files=["decoder/ia_core_coder_decode_main.c", "decoder/ia_core_coder_cnst.h"],
  mech=[("conversion of float samples to the output buffer", "decoder/ia_core_coder_decode_main.c:ia_core_coder_samples_sat")],
  note="The value contract is a proof over all finite floats at each depth; the layout contract (interleave, map, delay, byte count) is bounded to 3 channels x 3 samples per call and counted as bounded.")
UNITS = []
for bits in (16, 24, 32):
    UNITS.append(dict(name="value%d" % bits, entry="harness_value", harness="h/pcm.c", functions=["ia_core_coder_samples_sat"],
                what="%d-bit output value for every finite sample" % bits,
                defs=["PCMBITS=%d" % bits], unwind=10, timeout=200))
    UNITS.append(dict(name="layout%d" % bits, entry="harness_layout", harness="h/pcm.c", functions=["ia_core_coder_samples_sat"],
                what="%d-bit output layout: any delay, any channel permutation, up to 3 channels x 3 samples per call" % bits,
                defs=["PCMBITS=%d" % bits], unwind=5, timeout=200, level="bounded", bound="<=3 channels, <=3 samples per call"))
