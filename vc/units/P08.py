PROP = dict(
  title="Fixed-point arithmetic saturates: it never wraps around",
  statement="Every saturating fixed-point operation (addition, subtraction, negation, absolute value, shifts, products and multiply-accumulates) returns the exact mathematical result when it fits and the nearest representable limit when it does not. Normalisation never overflows and uses all headroom, and the rounded integer square root is the nearest integer.",
  over=["inputs"], all="every operand value of every operation, every shift amount in the type's range",
  why="Overflow corners of two 32-bit operands cannot be sampled; the test streams never overflow.",
  files=["decoder/ia_core_coder_basic_ops32.h", "decoder/ia_core_coder_basic_ops40.h"],
  mech=[("32-bit saturating operations", "decoder/ia_core_coder_basic_ops32.h"), ("64-bit saturating operations", "decoder/ia_core_coder_basic_ops40.h")],
  note="Left shifts of negative values are taken as the two's complement operation every supported compiler performs. Proof over all operand values against 128-bit mathematics; only the square root is bounded (arguments below 65536).")
T=dict(no_checks=["--undefined-shift-check"], harness="h/sat.c", unwind=36, timeout=200)
UNITS=[
 dict(name="addsub", functions=["ia_core_coder_add32_sat","ia_core_coder_sub32_sat","ia_core_coder_add32_sat3","ia_core_coder_negate32_sat","ia_core_coder_abs32_sat","ia_core_coder_min32","ia_core_coder_max32"], **T),
 dict(name="add64", functions=["ia_core_coder_add64_sat","ia_core_coder_sub64_sat","ia_core_coder_sat64_32"], **T),
 dict(name="shift", functions=["ia_core_coder_shl32_sat","ia_core_coder_shl32_dir_sat","shr32_dir_sat"], **T),
 dict(name="norm", functions=["ia_core_coder_norm32"], **T),
 dict(flags=["--cvc5"], name="mul", functions=["ia_core_coder_mul32_sh_sat"], **T),
 dict(flags=["--cvc5"], name="mul16", functions=["ia_core_coder_mult16x16in32_shl_sat","ia_core_coder_mac16x16in32_sat","ia_core_coder_mac16x16in32_shl_sat","msu16x16in32_shl_sat"], **T),
 dict(name="sqrt", functions=["ia_core_coder_rounded_sqrt64"], level="bounded", bound="arguments below 65536", **T),
]
