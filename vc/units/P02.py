PROP = dict(
  title="Bit writer output reads back exactly and never leaves its buffer",
  statement="Writing a value with n bits (0 to 32) at any bit position puts exactly those bits, most significant first, at that position, leaves all earlier bits and bytes unchanged and advances the position by n, so that a following read of n bits returns the value; escape-coded values written with given field widths read back equal. The writer's position always stays inside its buffer.",
  over=["inputs", "histories"], all="every value, width, bit position, buffer size and sequence of writes",
  why="No test exercises the external renderer metadata writer at all; positions, widths and wrap-around are unbounded.",
  files=["decoder/ia_core_coder_bitbuffer.c", "decoder/impeghd_ext_rend_intrfc_util.c", "decoder/ia_core_coder_init_config.c"],
  mech=[("bit writes", "decoder/ia_core_coder_bitbuffer.c:impeghd_write_bits_buf"), ("escape writer", "decoder/ia_core_coder_init_config.c:impeghd_write_escape_value")],
  note="Proof for every value, width and position (one symbolic call from any state satisfying the writer invariant, preserved by the call); read-back composed with the real reader.")
SRC = ["ia_core_coder_bitbuffer.c", "ia_core_coder_common_initfuncs.c"]
H = "h/bitwriter.c"
def U(name, fn, what, **k):
    return dict(dict(name=name, harness=H, sources=SRC, functions=fn, what=what, unwind=8, timeout=250), **k)
UNITS = [
    U("write", ["impeghd_write_bits_buf"], "value, neighbours, position of a write of 0..32 bits into a buffer of any size"),
    U("inside", ["impeghd_write_bits_buf"], "the writer's invariant: position inside the buffer, for any number of writes"),
    U("create", ["impeghd_create_write_bit_buffer"], "initial state"),
    U("roundtrip", ["impeghd_write_bits_buf", "ia_core_coder_read_bits_buf", "ia_core_coder_skip_bits_buf"], "write then read"),
    U("escape_rt", ["impeghd_write_escape_value", "ia_core_coder_read_escape_value"], "escape coded value round trip",
      harness="h/escwriter.c", sources=["ia_core_coder_bitbuffer.c", "ia_core_coder_init_config.c"], 
      replace={"impeghd_write_bits_buf": "vc_put", "ia_core_coder_read_bits_buf": "vc_get"}),
]
