PROP = dict(
  title="Bit reader returns exactly the stream's bits, in order, and never reads past it",
  statement="Reading n bits (0 to 32) returns, most significant bit first, exactly the next n bits of the stream and advances the position by n; looking ahead returns the same bits and advances nothing, and escape-coded values decode to the sum of their fields. A request for more bits than remain is reported as running out of data, and no byte outside the stream buffer is ever read.",
  over=["inputs", "histories"], all="every stream content and size, every bit position, every request width, any sequence of requests",
  why="A smoke test decodes one stream; alignments, widths, ends of buffer and sequences of reads are unbounded.",
  files=["decoder/ia_core_coder_bitbuffer.c", "decoder/ia_core_coder_init_config.c"],
  mech=[("bit reads of 0..32 bits", "decoder/ia_core_coder_bitbuffer.c:ia_core_coder_read_bits_buf"), ("look-ahead", "decoder/ia_core_coder_bitbuffer.c:ia_core_coder_show_bits_buf"),
        ("skip", "decoder/ia_core_coder_bitbuffer.c:ia_core_coder_skip_bits_buf"), ("escape coding", "decoder/ia_core_coder_init_config.c:ia_core_coder_read_escape_value")],
  note="Proof for every position, width 0..32, buffer content and number of remaining bits (one symbolic call from any state satisfying the reader invariant, which each call preserves). Trusts CBMC; longjmp is modelled as leaving the call.")
SRC = ["ia_core_coder_bitbuffer.c", "ia_core_coder_common_initfuncs.c"]
H = "h/bitreader.c"
def U(name, fn, what, **k):
    return dict(name=name, harness=H, sources=SRC, functions=fn, what=what, unwind=8, timeout=200, **k)
UNITS = [
    U("read", ["ia_core_coder_read_bits_buf"], "value, position, bounds, shortage of a read of 0..32 bits"),
    U("read32", ["ia_core_coder_read_bits_buf_32"], "value, position, bounds, shortage of a 32-bit read"),
    U("show", ["ia_core_coder_show_bits_buf"], "look-ahead of 0..32 bits"),
    U("skip", ["ia_core_coder_skip_bits_buf"], "skip of any number of bits"),
    U("create", ["ia_core_coder_create_init_bit_buf", "ia_core_coder_create_bit_buf"], "initial state"),
    U("pair", ["ia_core_coder_read_bits_buf", "ia_core_coder_show_bits_buf"], "composition of reads"),
]
UNITS.append(dict(name="escape", harness="h/escape.c", sources=["ia_core_coder_init_config.c"], reader="stub",
                  functions=["ia_core_coder_read_escape_value"], what="escape coded value", unwind=8))
