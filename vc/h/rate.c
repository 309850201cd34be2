/* Contracts of output-rate selection and the resampler. */
#include "impeghd_api.c"
#include "vc.h"
#include "impeghd_resampler.h"
IA_ERRORCODE impeghd_resampler_get_sampling_ratio(ia_mpegh_dec_config_struct *c);

void harness_ratio(void)
{
  static ia_mpegh_dec_config_struct c;
  uint32_t in = vc_u32(), out = vc_u32();
  c.stream_samp_freq = in;
  c.out_samp_freq = out;
  c.fac_up = vc_range(0, 8);
  c.fac_down = vc_range(0, 8);
  c.resample_output = vc_range(0, 1);
  c.output_framelength = vc_range(0, 4096);
  IA_ERRORCODE e = impeghd_resampler_get_sampling_ratio(&c);
  VC_ASSERT(c.stream_samp_freq == in && c.out_samp_freq == out, "the requested rates are kept");
  VC_ASSERT(c.fac_down >= 1 && c.fac_up >= c.fac_down && c.fac_up <= 3 && c.fac_down <= 2, "the ratio is one the resampler implements");
  VC_ASSERT(c.output_framelength == 1024 * c.fac_up / c.fac_down, "frame length follows the ratio");
  if (e == 0)
  {
    VC_ASSERT((uint64_t)out * c.fac_down == (uint64_t)in * c.fac_up, "up/down ratio maps the stream rate exactly to the output rate");
    VC_ASSERT(out == 48000 || out == 44100, "output rates are 48000 and 44100 Hz");
    VC_ASSERT((c.resample_output != 0) == (in != out), "resampling is on exactly when rates differ");
  }
  else
  {
    VC_ASSERT(e == IA_MPEGH_DEC_INIT_NONFATAL_INVALID_RESAMPLE_RATIO, "an unsupported ratio is reported");
    VC_ASSERT(c.resample_output == 0 && c.fac_up == 1 && c.fac_down == 1, "an unsupported ratio leaves resampling off");
  }
  /* completeness: every documented ratio is accepted */
  int ok = (out == 48000 && (in == 48000 || in == 32000 || in == 24000 || in == 16000)) ||
           (out == 44100 && (in == 44100 || in == 29400 || in == 22050 || in == 14700));
  VC_ASSERT(ok == (e == 0), "exactly the 1:1, 3:2, 2:1 and 3:1 ratios to 48000/44100 Hz are accepted");
  if (e == 0 && in == 32000) VC_REACH("3:2");
  if (e != 0) VC_REACH("rejected");
}
