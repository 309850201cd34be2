/* Loudness gain and limiter wrapper around the real limiter's and resampler's contracts. */
#include "ia_core_coder_decode_main.c"
#include "vc.h"
static ia_dec_data_struct *dd;
static ia_mpegh_dec_state_struct *st;
static ia_mpegh_dec_config_struct cfg;
static FLOAT32 seen[4], last;
static int lim_calls, lim_n, lim_ch;
VOID vc_limiter(ia_peak_limiter_struct *p, FLOAT32 *s, UWORD32 n)
{
  lim_calls++;
  lim_n = n;
  lim_ch = p->num_channels;
  for (int k = 0; k < (int)(n * p->num_channels); k++) { s[k] = s[k] + 1000.0f * (k + 1); }
}
#define NC 3
#define NS 3
static FLOAT32 buf[NC][NS], scratch[NC * NS + 4], *ptrs[NC];
void harness_wrap(void)
{
  ia_dec_data_struct *d = malloc(sizeof *d);
  VC_ASSUME(d != 0);
  WORD32 nch = vc_range(1, NC), ns = vc_range(0, NS);
  cfg.resample_output = 0;
  for (int c = 0; c < NC; c++)
  {
    ptrs[c] = buf[c];
    for (int i = 0; i < NS; i++) buf[c][i] = (float)(10 * c + i);
  }
  impegh_dec_peak_limiter(&cfg, d, &nch, scratch, ptrs, ns);
  VC_ASSERT(lim_calls == 1 && lim_n == ns && lim_ch == nch, "the whole frame of every channel is limited once");
  int c = vc_range(0, NC - 1), i = vc_range(0, NS - 1);
  if (c < nch && i < ns)
    VC_ASSERT(buf[c][i] == (float)(10 * c + i) + 1000.0f * (i * nch + c + 1), "every sample goes through its own limiter slot and back");
  else
    VC_ASSERT(buf[c][i] == (float)(10 * c + i), "other samples are left alone");
  if (nch == NC && ns == NS) VC_REACH("wrap");
}
