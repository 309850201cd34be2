PROP = dict(
  title="Peak limiter: never above threshold, never amplifies, transparent below it",
  statement="No sample leaving the peak limiter exceeds its threshold, its gain stays between zero and one, and it is the same for all channels of a sample period. Audio that stays below the threshold comes out bit-exact, delayed by the look-ahead, and every channel's sample returns to its own place in its own channel.",
  over=["inputs", "histories"], all="every finite sample value, every limiter state satisfying its invariant (so every number of frames), every look-ahead and channel count within the stated bounds",
  why="The tests compare a quiet mono stream; overload, gain states and long histories are never reached.",
  files=["decoder/impeghd_peak_limiter.c", "decoder/ia_core_coder_decode_main.c"],
  mech=[("limiter step", "decoder/impeghd_peak_limiter.c:impeghd_peak_limiter_process"), ("interleaving wrapper", "decoder/ia_core_coder_decode_main.c:impegh_dec_peak_limiter")],
  note="Inductive: one sample period from any state satisfying the invariant, which is re-established. Threshold, delay line and window positions are proved for every look-ahead up to 240 samples with one channel; several channels, peak tracking, transparency and gain range are bounded as stated per unit.")
S=["impeghd_peak_limiter.c"]
UNITS=[
 dict(name="window", level="bounded", bound="look-ahead 1..4 samples, 1..2 channels", what="peak tracking", harness="h/limiter.c", sources=S, functions=["impeghd_peak_limiter_process"], unwind=12, timeout=300),
 dict(name="transparent", level="bounded", bound="look-ahead 1..4 samples, 1..2 channels", what="bit exact delay below the threshold", harness="h/limiter.c", sources=S, functions=["impeghd_peak_limiter_process"], unwind=12, timeout=300),
 dict(name="common", level="bounded", bound="look-ahead 2, 2 channels, one gain state", what="one gain for all channels", harness="h/limiter.c", sources=S, functions=["impeghd_peak_limiter_process"], defs=["A=2"], flags=["--sat-solver","cadical"], unwind=12, timeout=300),
 dict(name="range", level="bounded", bound="look-ahead 1, one channel (the gain computation sees only the window peak)", what="gain in 0..1 from every state", harness="h/limiter.c", sources=S, functions=["impeghd_peak_limiter_process"], defs=["A=1","C=1"], unwind=12, timeout=300, flags=["--sat-solver","cadical"]),
]
for am, cm in ((2, 4), (240, 1)):
    UNITS.append(dict(name="full_%d_%d" % (am, cm), entry="harness_full", harness="h/limiter.c", sources=S, functions=["impeghd_peak_limiter_process"],
                 defs=["AM=%d" % am, "CM=%d" % cm], unwind=245, timeout=250, level="proof" if am == 240 else "bounded", bound="" if am == 240 else "look-ahead 1..2, 1..4 channels",
                 tier="quick" if am == 240 else "thorough", what="threshold, delay line and window positions for any look-ahead up to %d samples and up to %d channel(s)" % (am, cm)))
UNITS.append(dict(name="wrap", level="bounded", bound="3 channels x 3 samples", what="interleaving around the limiter", flags=["--no-array-field-sensitivity"], harness="h/plwrap.c", functions=["impegh_dec_peak_limiter"], unwind=10, replace={"impeghd_peak_limiter_process": "vc_limiter"}, timeout=200))
