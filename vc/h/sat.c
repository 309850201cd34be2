/* Contracts of the saturating fixed-point primitives. */
#include "vc.h"
#include "ia_core_coder_constants.h"
#include "ia_core_coder_basic_ops32.h"
#include "ia_core_coder_basic_ops40.h"
static int32_t clamp32(__int128 v) { return v > 2147483647 ? 2147483647 : v < -2147483647 - 1 ? -2147483647 - 1 : (int32_t)v; }
static int64_t clamp64(__int128 v) { const int64_t M = 0x7fffffffffffffffLL; return v > M ? M : v < -M - 1 ? -M - 1 : (int64_t)v; }
void harness_addsub(void)
{
  int32_t a = vc_i32(), b = vc_i32(), c = vc_i32();
  VC_ASSERT(ia_core_coder_add32_sat(a, b) == clamp32((__int128)a + b), "saturating addition");
  VC_ASSERT(ia_core_coder_sub32_sat(a, b) == clamp32((__int128)a - b), "saturating subtraction");
  VC_ASSERT(ia_core_coder_add32_sat3(a, b, c) == clamp32((__int128)a + b + c), "saturating three-operand addition");
  VC_ASSERT(ia_core_coder_negate32_sat(a) == clamp32(-(__int128)a), "saturating negation");
  VC_ASSERT(ia_core_coder_abs32_sat(a) == clamp32(a < 0 ? -(__int128)a : a), "saturating absolute value");
  VC_ASSERT(ia_core_coder_min32(a, b) == (a < b ? a : b) && ia_core_coder_max32(a, b) == (a > b ? a : b), "minimum and maximum");
  VC_REACH("addsub");
}
void harness_add64(void)
{
  int64_t a = (int64_t)vc_in(), b = (int64_t)vc_in();
  VC_ASSERT(ia_core_coder_add64_sat(a, b) == clamp64((__int128)a + b), "saturating 64-bit addition");
  VC_ASSERT(ia_core_coder_sub64_sat(a, b) == clamp64((__int128)a - b), "saturating 64-bit subtraction");
  VC_ASSERT(ia_core_coder_sat64_32(a) == clamp32(a), "saturation of 64 to 32 bits");
  VC_REACH("add64");
}
void harness_shift(void)
{
  int32_t a = vc_i32();
  int s = vc_range(0, 31), d = vc_range(-31, 31);
  VC_ASSERT(ia_core_coder_shl32_sat(a, s) == clamp32((__int128)a * ((__int128)1 << s)), "saturating left shift");
  VC_ASSERT(ia_core_coder_shl32_dir_sat(a, d) == (d < 0 ? a >> -d : clamp32((__int128)a * ((__int128)1 << d))), "saturating two-way shift");
  VC_ASSERT(shr32_dir_sat(a, d) == (d >= 0 ? a >> d : clamp32((__int128)a * ((__int128)1 << -d))), "saturating two-way right shift");
  VC_REACH("shift");
}
void harness_norm(void)
{
  int32_t a = vc_i32();
  int n = ia_core_coder_norm32(a);
  VC_ASSERT(n >= 0 && n <= 31, "headroom is 0..31");
  if (a != 0 && a != -1) VC_ASSERT((int64_t)a * ((int64_t)1 << n) <= 2147483647 && (int64_t)a * ((int64_t)1 << n) >= -2147483648LL, "normalising does not overflow");
  if (a > 0) VC_ASSERT((int64_t)a * ((int64_t)1 << n) >= 0x40000000, "normalising uses all headroom");
  VC_REACH("norm");
}
void harness_mul(void)
{
  int32_t a = vc_i32(), b = vc_i32();
  int s = vc_range(0, 62);
  int64_t p = (int64_t)a * (int64_t)b; /* exact */
  VC_ASSERT(ia_core_coder_mul32_sh_sat(a, b, s) == clamp32(p >> s), "saturating shifted product");
  VC_REACH("mul");
}
void harness_mul16(void)
{
  int32_t acc = vc_i32();
  int16_t a = vc_i16(), b = vc_i16();
  int64_t p = (int32_t)a * (int32_t)b; /* exact */
  VC_ASSERT(ia_core_coder_mult16x16in32_shl_sat(a, b) == clamp32(2 * p), "saturating fractional product");
  VC_ASSERT(ia_core_coder_mac16x16in32_sat(acc, a, b) == clamp32(acc + p), "saturating multiply-accumulate");
  VC_ASSERT(ia_core_coder_mac16x16in32_shl_sat(acc, a, b) == clamp32((int64_t)acc + clamp32(2 * p)), "saturating fractional multiply-accumulate");
  VC_ASSERT(msu16x16in32_shl_sat(acc, a, b) == clamp32((__int128)acc - clamp32(2 * p)), "saturating fractional multiply-subtract");
  VC_REACH("mul16");
}
void harness_sqrt(void)
{
  int64_t x = vc_in() & 0xffff, r = ia_core_coder_rounded_sqrt64(x);
  VC_ASSERT(r >= 0 && r * r - r < x + 1 && (x == 0 || x <= r * r + r), "rounded square root");
  VC_REACH("sqrt");
}
