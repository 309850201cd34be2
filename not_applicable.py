def E(id, title, statement, over, all, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=all), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
NA = [
 dict(entry=E("P90", "Decoded and rendered audio equals the standard's floating-point reference",
   "For every valid stream the decoded samples equal the ones prescribed by the MPEG-H 3D audio standard within its conformance tolerance.",
   ["inputs"], "every valid stream",
   "The tests decode a handful of streams; conformance quantifies over all of them.",
   ["decoder/ia_core_coder_imdct.c", "decoder/impeghd_fft.c", "decoder/impeghd_format_conv_init.c", "decoder/impeghd_hoa_renderer.c"],
   [("transforms and renderers", "decoder/ia_core_coder_imdct.c")]),
   reason="needs real-analysis error bounds over long chains of floating-point transforms (FFT/IMDCT/filter banks/HOA matrices): no installed contract verifier (frama-c has no WP here, CBMC only bit-blasts floats) can discharge them, and no reference decoder is available as an oracle"),
]
