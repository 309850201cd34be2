PROP = dict(
  title="Output resampling: exact ratio, announced length, seamless across frames",
  statement="For every pair of stream and requested output rates, resampling is set up with a ratio that maps one rate exactly to the other, or the request is reported as unsupported and the output stays at the stream rate; the output frame length always follows that ratio. Resampling a frame writes exactly the announced number of samples, leaves the input alone, and the result does not depend on where frame boundaries fall.",
  over=["inputs", "configurations", "histories"], all="every pair of rates; every frame content and every state left by earlier frames",
  why="The tests never enable resampling; rate pairs and frame histories are unbounded.",
  files=["decoder/impeghd_api.c", "decoder/impeghd_resampler.c"],
  mech=[("ratio selection", "decoder/impeghd_api.c:impeghd_resampler_get_sampling_ratio"), ("resampler", "decoder/impeghd_resampler.c:impeghd_resample")],
  note="Ratio selection is a proof over all 32-bit rate pairs. The resampler's memory, frame and history contract is bounded to frames of 64 samples; independence of frame boundaries is bounded to unit pulses at chosen positions.")
UNITS = [
  dict(name="ratio", harness="h/rate.c", functions=["impeghd_resampler_get_sampling_ratio"], unwind=4,
       what="every pair of 32-bit rates"),
]
for up, down in ((2, 1), (3, 1), (3, 2)):
    UNITS.append(dict(name="resamp_%d_%d" % (up, down), entry="harness_resamp", harness="h/resamp.c", sources=["impeghd_resampler.c", "impeghd_resampler_rom.c", "ia_core_coder_basic_ops.c"],
       functions=["impeghd_resample"], defs=["UP=%d" % up, "DOWN=%d" % down, "LEN=64"], flags=["--max-field-sensitivity-array-size", "400"], timeout=200, level="bounded", bound="frames of 64 samples (the decoder uses 1024)", what="memory, frame, history at %d:%d" % (up, down)))
    for pos in (44, 63, 64):
        UNITS.append(dict(name="stream_%d_%d_%d" % (up, down, pos), entry="harness_stream", harness="h/resamp.c", sources=["impeghd_resampler.c", "impeghd_resampler_rom.c", "ia_core_coder_basic_ops.c"],
       functions=["impeghd_resample"], defs=["UP=%d" % up, "DOWN=%d" % down, "LEN=64", "POS=%d" % pos], flags=["--max-field-sensitivity-array-size", "1000"], timeout=300, tier="quick" if pos == 63 else "thorough", level="bounded",
       bound="two frames of 64 samples, one unit pulse (the filter is linear)", what="independence of frame boundaries at %d:%d, pulse at sample %d" % (up, down, pos)))
