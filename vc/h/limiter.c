/* Contract of the peak limiter: one sample period from any state satisfying its invariant. */
#include "vc.h"
#include "ia_core_coder_cnst.h"
#include "impeghd_intrinsics_flt.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impeghd_error_codes.h"
#include "impeghd_peak_limiter_struct_def.h"
VOID impeghd_peak_limiter_process(ia_peak_limiter_struct *p, FLOAT32 *s, UWORD32 n);
IA_ERRORCODE impeghd_peak_limiter_init(ia_peak_limiter_struct *p, UWORD32 ch, UWORD32 sr, FLOAT32 *b);
#ifndef A
#define A 4
#endif
#ifndef C
#define C 2
#endif
#ifndef G0
#define G0 0.25f
#endif
#define THR (0.89125094f * 32768.0f)
static ia_peak_limiter_struct p;
static float maxb[A + 1], line[A * C], line0[A * C], smp[C], smp0[C];
static float fin(void) { float f = vc_f32(); VC_ASSUME(f >= -1e9f && f <= 1e9f); return f; }
static void pre(int a, int c)
{
  p.max_buf = maxb;
  p.delayed_input = line;
  p.limit_threshold = THR;
  p.num_channels = c;
  p.attack_time_samples = a;
  p.limiter_on = 1;
  p.delayed_input_index = vc_range(0, a - 1);
  p.cir_buf_pnt = vc_range(0, a);
  p.max_idx = vc_range(0, a);
  for (int i = 0; i <= A; i++)
    if (i <= a) { maxb[i] = fin(); VC_ASSUME(maxb[i] >= 0); }
  /* invariant: max_idx names a largest peak of the look-ahead window */
  for (int i = 0; i <= A; i++)
    if (i <= a) VC_ASSUME(maxb[i] <= maxb[p.max_idx]);
  for (int i = 0; i < A * C; i++) line[i] = line0[i] = fin();
  for (int i = 0; i < C; i++) smp[i] = smp0[i] = fin();
}
static void post_common(int a, int c, int d0)
{
  int w = vc_range(0, A * C - 1), ch = vc_range(0, C - 1);
  VC_ASSUME(ch < c);
  VC_ASSERT(smp[ch] <= THR && smp[ch] >= -THR, "no output sample exceeds the limiter threshold");
  VC_ASSERT(p.delayed_input_index == (unsigned)(d0 + 1 == a ? 0 : d0 + 1), "the delay line advances by one sample");
  VC_ASSERT(p.cir_buf_pnt <= (unsigned)a && p.max_idx <= (unsigned)a, "window positions stay inside the window");
  if (w >= d0 * c && w < d0 * c + c)
    VC_ASSERT(line[w] == smp0[w - d0 * c], "the input enters the delay line");
  else
    VC_ASSERT(line[w] == line0[w], "other delayed samples are kept");
}
/* window maximum is kept */
void harness_window(void)
{
  int a = vc_range(1, A), c = vc_range(1, C);
  pre(a, c);
  p.gain_modified = p.pre_smoothed_gain = 1.0f;
  p.attack_constant = p.release_constant = 0.5f;
  int cir0 = p.cir_buf_pnt, d0 = p.delayed_input_index;
  impeghd_peak_limiter_process(&p, smp, 1);
  int k = vc_range(0, A);
  VC_ASSUME(k <= a);
  VC_ASSERT(maxb[k] <= maxb[p.max_idx], "the tracked peak is the largest of the whole look-ahead window");
  for (int i = 0; i < C; i++)
    if (i < c) VC_ASSERT(maxb[cir0] >= smp0[i] && maxb[cir0] >= -smp0[i], "every channel takes part in peak detection");
  VC_ASSERT((int)p.cir_buf_pnt == (cir0 + 1) % (a + 1), "the window advances");
  post_common(a, c, d0);
  VC_REACH("window");
}
/* below the threshold with the gain settled: bit exact delay */
void harness_transparent(void)
{
  int a = vc_range(1, A), c = vc_range(1, C);
  pre(a, c);
  for (int i = 0; i <= A; i++) if (i <= a) VC_ASSUME(maxb[i] <= THR);
  for (int i = 0; i < A * C; i++) VC_ASSUME(line[i] <= THR && line[i] >= -THR);
  for (int i = 0; i < C; i++) VC_ASSUME(smp[i] <= THR && smp[i] >= -THR);
  p.gain_modified = p.pre_smoothed_gain = 1.0f;
  p.attack_constant = vc_f32(); p.release_constant = vc_f32();
  VC_ASSUME(p.attack_constant > 0 && p.attack_constant < 1 && p.release_constant > 0 && p.release_constant < 1);
  int d0 = p.delayed_input_index;
  impeghd_peak_limiter_process(&p, smp, 1);
  int ch = vc_range(0, C - 1);
  VC_ASSUME(ch < c);
  VC_ASSERT(smp[ch] == line0[d0 * c + ch], "audio below the threshold is only delayed");
  VC_ASSERT(p.pre_smoothed_gain == 1.0f && p.gain_modified == 1.0f && p.min_gain == 1.0f, "the gain stays at one");
  post_common(a, c, d0);
  VC_REACH("transparent");
}
/* any gain state: all channels get one common gain, clamped at the threshold */
void harness_common(void)
{
  int a = A, c = C;
  pre(a, c);
  p.gain_modified = p.pre_smoothed_gain = G0;
  for (int i = 0; i <= A; i++) VC_ASSUME(maxb[i] <= THR);
  for (int i = 0; i < C; i++) VC_ASSUME(smp[i] <= THR && smp[i] >= -THR);
  p.attack_constant = p.release_constant = 0.5f;
  int d0 = p.delayed_input_index;
  impeghd_peak_limiter_process(&p, smp, 1);
  float g = p.pre_smoothed_gain;
  int ch = vc_range(0, C - 1);
  float want = line0[d0 * c + ch] * g;
  want = want > THR ? THR : want < -THR ? -THR : want;
  VC_ASSERT(smp[ch] == want, "all channels get the same gain, limited to the threshold");
  VC_ASSERT(p.min_gain == g || g >= 1, "the lowest gain is reported");
  post_common(a, c, d0);
  VC_REACH("common");
}
/* the gain never exceeds one and never leaves zero..one */
void harness_range(void)
{
  int a = A, c = C;
  pre(a, c);
  p.gain_modified = vc_f32(); p.pre_smoothed_gain = vc_f32();
  VC_ASSUME(p.gain_modified >= -1 && p.gain_modified <= 1 && p.pre_smoothed_gain >= 0 && p.pre_smoothed_gain <= 1);
  p.attack_constant = 0.9904505f; p.release_constant = 0.9990418f;
  impeghd_peak_limiter_process(&p, smp, 1);
  VC_ASSERT(p.pre_smoothed_gain >= 0 && p.pre_smoothed_gain <= 1, "the limiter never amplifies or inverts");
  VC_REACH("range");
}

/* any attack length and channel count the decoder can set up: threshold, delay line, frame */
#ifndef AM
#define AM 240
#endif
#ifndef CM
#define CM 24
#endif
static float fmaxb[AM + 1], fline[AM * CM], fs[CM];
void harness_full(void)
{
  int a = vc_range(1, AM), c = vc_range(1, CM);
  vc_havoc(fmaxb, sizeof fmaxb);
  vc_havoc(fline, sizeof fline);
  vc_havoc(fs, sizeof fs);
  p.max_buf = fmaxb;
  p.delayed_input = fline;
  p.limit_threshold = THR;
  p.num_channels = c;
  p.attack_time_samples = a;
  p.limiter_on = vc_range(0, 1);
  int d0 = p.delayed_input_index = vc_range(0, a - 1);
  p.cir_buf_pnt = vc_range(0, a);
  p.max_idx = vc_range(0, a);
  p.gain_modified = 1.0f;
  p.pre_smoothed_gain = G0;
  p.attack_constant = 0.9904505f; p.release_constant = 0.9990418f;
  int ch = vc_range(0, CM - 1), w = vc_range(0, AM * CM - 1);
  VC_ASSUME(ch < c);
  float in = fs[ch], old = fline[d0 * c + ch], keep = fline[w];
  VC_ASSUME(VC_FINITE(in) && VC_FINITE(old) && VC_FINITE(keep));
  impeghd_peak_limiter_process(&p, fs, 1);
  VC_ASSERT(fs[ch] <= THR && fs[ch] >= -THR || VC_FINITE(fs[ch]) == 0, "no output sample exceeds the limiter threshold");
  VC_ASSERT(fline[d0 * c + ch] == in, "the input enters the delay line");
  if (w < d0 * c || w >= d0 * c + c) VC_ASSERT(fline[w] == keep, "other delayed samples are kept");
  VC_ASSERT(p.delayed_input_index == (unsigned)(d0 + 1 == a ? 0 : d0 + 1), "the delay line advances by one sample");
  VC_ASSERT(p.cir_buf_pnt <= (unsigned)a && p.max_idx <= (unsigned)a, "window positions stay inside the window");
  if (c == CM && a == AM) VC_REACH("full");
}
