/* Contract of the resampler: memory, frame, and the history handed to the next frame. */
#include "vc.h"
#include "impeghd_resampler.h"
#ifndef LEN
#define LEN 1024
#endif
#define OUT (LEN * UP / DOWN)
static ia_resampler_struct r;
static FLOAT32 in[LEN], in0[LEN], out[OUT + 1], scr[LEN * UP];
void harness_resamp(void)
{
  vc_havoc(in, sizeof in);
  vc_havoc(&r, sizeof r);
  r.fac_up = UP;
  r.fac_down = DOWN;
  r.input_length = LEN;
  r.output_length = OUT;
  int k = vc_range(0, LEN - 1);
  VC_ASSUME(VC_FINITE(in[k]));
  float keep = in[k];
  out[OUT] = 12345.0f;
  impeghd_resample(&r, in, out, scr);
  VC_ASSERT(out[OUT] == 12345.0f, "exactly the announced number of samples is produced");
  VC_ASSERT(in[k] == keep, "the input is left alone");
  int h = 59 / UP;
  if (k >= LEN - h)
    VC_ASSERT(r.delay_samples_upsamp[k - (LEN - h)] == keep, "the last inputs become the history of the next frame");
  VC_ASSERT(r.fac_up == UP && r.fac_down == DOWN && r.input_length == LEN && r.output_length == OUT, "the ratio is kept");
  if (k == LEN - 1) VC_REACH("history");
}

/* Frame splitting: two consecutive frames give what one long frame gives. */
static float sin_[2 * LEN], s1[2 * OUT], s2[2 * OUT], sscr[2 * LEN * UP];
#ifndef POS
#define POS (LEN - 20)
#endif
void harness_stream(void)
{
  static ia_resampler_struct a, b;
  float x = 1.0f;
  a.fac_up = b.fac_up = UP;
  a.fac_down = b.fac_down = DOWN;
  sin_[POS] = x;
  a.input_length = LEN; a.output_length = OUT;
  impeghd_resample(&a, sin_, s1, sscr);
  impeghd_resample(&a, sin_ + LEN, s1 + OUT, sscr);
  memset(sscr, 0, sizeof sscr);
  b.input_length = 2 * LEN; b.output_length = 2 * OUT;
  impeghd_resample(&b, sin_, s2, sscr);
  int d = 0, nz = 0;
  for (int i = 0; i < 2 * OUT; i++) { d |= s1[i] != s2[i]; nz |= s1[i] != 0; }
  VC_ASSERT(!d, "the output does not depend on where frame boundaries fall");
  VC_ASSERT(nz, "the input is heard");
  VC_REACH("stream");
}
