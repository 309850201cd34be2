/* Contract of the PCM output conversion (static function of the real file). */
#include "ia_core_coder_decode_main.c"
#include "vc.h"
#ifndef NS
#define NS 3
#endif
#ifndef NC
#define NC 3
#endif
static FLOAT32 s[NC][NS];
static FLOAT32 *ptrs[NC];
static WORD8 out[NC * NS * 4 + 8];

/* value contract: one sample of any finite value -> saturated, truncated, little endian */
void harness_value(void)
{
  const int bits = PCMBITS, B = bits / 8;
  WORD32 map[1] = {0}, delay = 0, obytes = vc_i32();
  FLOAT32 x = vc_f32();
  FLOAT32 *p = &x;
  VC_ASSUME(VC_FINITE(x));
  static WORD8 o[8];
  for (int i = 0; i < 8; i++) o[i] = 0x5a;
  ia_core_coder_samples_sat(o, 1, bits, &p, map, &delay, &obytes, 1);
  uint32_t w = 0;
  for (int b = 0; b < B; b++) w |= (uint32_t)(uint8_t)o[b] << (8 * b);
  int32_t v = bits == 32 ? (int32_t)w : (int32_t)(w << (32 - bits)) >> (32 - bits);
  VC_ASSERT(obytes == B, "one sample takes the announced size");
  for (int i = B; i < 8; i++) VC_ASSERT(o[i] == 0x5a, "nothing is written past the sample");
  /* full scale in sample units: 32768 */
  const float k = bits == 16 ? 1.0f : bits == 24 ? 256.0f : 65536.0f;
  const float top = bits == 16 ? 32767.0f : bits == 24 ? 8388607.0f : 2147483520.0f;
  const float bot = bits == 16 ? -32768.0f : bits == 24 ? -8388608.0f : -2147483648.0f;
  float y = x * k;
  if (y >= top) VC_ASSERT(v >= (int32_t)top, "overload clips to positive full scale");
  else if (y <= bot) VC_ASSERT(v <= (bits == 32 ? -2147483520 : (int32_t)bot), "overload clips to negative full scale");
  else VC_ASSERT(v == (int32_t)y, "in-range sample is the truncated scaled value");
  VC_REACH("value");
}
/* layout contract: interleaving, channel map, start-up delay, byte count, frame.
 * Sample (c,i) carries the distinct value 100*c+i+1 so that its place is identified. */
void harness_layout(void)
{
  const int bits = PCMBITS, B = bits / 8;
  WORD32 map[NC], map0[NC], delay, delay0, obytes = vc_i32();
  int nch = vc_range(1, NC), ns = vc_range(0, NS);
  delay = delay0 = vc_range(0, 1 << 20);
  int ident = vc_range(0, 1);
  for (int c = 0; c < NC; c++)
  {
    map[c] = ident ? -1 : vc_range(0, NC - 1);
    if (c < nch)
    {
      VC_ASSUME(ident || map[c] < nch);
      for (int d = 0; d < c; d++)
        VC_ASSUME(ident || map[d] != map[c]);
    }
    map0[c] = ident ? c : map[c];
    ptrs[c] = s[c];
    for (int i = 0; i < NS; i++)
      s[c][i] = (float)(100 * c + i + 1) / (bits == 16 ? 1.0f : bits == 24 ? 256.0f : 65536.0f);
  }
  memset(out, 0x5a, sizeof out);
  ia_core_coder_samples_sat(out, ns, bits, ptrs, map, &delay, &obytes, nch);
  int emit = delay0 <= ns ? ns - delay0 : 0;
  VC_ASSERT(obytes == emit * nch * B, "byte count covers exactly the emitted samples");
  VC_ASSERT(delay == (delay0 <= ns ? 0 : delay0 - ns), "remaining start-up delay shrinks by the samples dropped");
  int ch = vc_range(0, NC - 1), i = vc_range(0, NS - 1); /* any sample */
  if (ch < nch && i >= delay0 && i < ns)
  {
    int k = ((i - delay0) * nch + map0[ch]) * B;
    int32_t want = 100 * ch + i + 1;
    for (int b = 0; b < B; b++)
      VC_ASSERT((uint8_t)out[k + b] == (uint8_t)(want >> (8 * b)), "each sample lands at its interleaved, mapped place");
    if (nch == NC && emit == 2 && !ident) VC_REACH("mapped");
  }
  int g = vc_range(0, (int)sizeof out - 1);
  if (g >= obytes) VC_ASSERT(out[g] == 0x5a, "nothing is written past the reported bytes");
}
