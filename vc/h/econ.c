/* Contracts of the earcon and PCM packets. */
#include "impeghd_mhas_parse.c"
#include "vc.h"
static int pos;
static uint32_t nx(int n)
{
  VC_ASSERT(pos < VC_SEQ && vc_seq_n[pos] == n, "the field has the width the syntax gives it");
  return vc_seq_v[pos++];
}
#ifndef NEC
#define NEC 16
#endif
#ifdef VC_HOOK
static int nread;
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v)
{
  nread++;
#ifdef RD_CUT
  VC_ASSUME(nread <= RD_CUT);
#endif
#ifdef CAP_FIRST
  if (nread == 2) VC_ASSERT(vc_seq_v[0] + 1 <= CAP_FIRST, "more entries than the table holds are refused before the first one is read");
#endif
}
#endif
#ifdef VC_FORCE
/* fixed control fields: every earcon at a position, no gain, no text */
int64_t vc_force(int i, int n)
{
#ifdef ECON_ALL
  if (i == 0) return NEC - 1;
  int k = (i - 1) % 8;
  return k == 4 ? 0 : k == 6 || k == 7 ? 0 : -1;
#elif defined(ECON_TXT)
  static const int w[] = {0, -1, -1, -1, -1, 2, 0, 1, ECON_TXT, -1, 2, -1, -1, -1, 2, -1, -1};
  return i < 17 ? w[i] : -1;
#elif defined(PCM_N)
  return i == 0 ? PCM_N - 1 : i > PCM_N ? (i == PCM_N + 1 && PCM_IDX == 6 ? PCM_SIZE : i & (n == 8 ? 0x5a : 0x5a5a)) : -1;
#else
  return -1;
#endif
}
#endif
#ifdef PART_E
/* one earcon, every field */
void harness_econ_fields(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  ia_earcon_info *e = malloc(sizeof *e);
  VC_ASSUME(e != NULL);
  vc_havoc(e, sizeof *e);
  IA_ERRORCODE r = impeghd_econ_config_info(e, &b);
  uint32_t n = nx(7);
  if (n + 1 > MAX_NUM_EARCONS)
  {
    VC_ASSERT(r == IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_EARCONS, "too many earcons are refused");
    if (n == MAX_NUM_EARCONS) VC_REACH("one too many");
    return;
  }
  VC_ASSERT(r == 0, "earcons within the tables are accepted");
  VC_ASSERT((uint32_t)e->earcon_is_independent[0] == nx(1) && (uint32_t)e->earcon_id[0] == nx(7) && (uint32_t)e->earcon_type[0] == nx(4) &&
                (uint32_t)e->earcon_active[0] == nx(1), "earcon as transmitted");
  uint32_t t = nx(2);
  VC_ASSERT((uint32_t)e->earcon_pos_type[0] == t, "position type as transmitted");
  if (t == 0)
    VC_ASSERT((uint32_t)e->earcon_cicp_spk_idx[0] == nx(7), "speaker as transmitted");
  else if (t == 1)
    VC_ASSERT((uint32_t)e->earcon_azimuth[0] == nx(8) && (uint32_t)e->earcon_elevation[0] == nx(6) && (uint32_t)e->earcon_distance[0] == nx(9), "position as transmitted");
  else
    VC_ASSERT(e->earcon_azimuth[0] == 0 && e->earcon_elevation[0] == 0 && e->earcon_distance[0] == DEFAULT_REF_DIST, "front position");
  if (nx(1))
    VC_ASSERT((uint32_t)e->earcon_gain[0] == nx(7), "gain as transmitted");
  uint32_t l = nx(1) ? nx(4) : 0;
  VC_ASSERT((uint32_t)e->earcon_num_languages[0] == l, "language count as transmitted, none without a text label");
  if (n == 0 && l == 0) VC_REACH("one earcon");
}
/* the table filled to its end */
void harness_econ_full(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  static ia_earcon_info E; ia_earcon_info *e = &E;
  for (int i = 0; i < NEC; i++) e->earcon_num_languages[i] = vc_i32();
  int32_t c0 = b.cnt_bits;
  IA_ERRORCODE r = impeghd_econ_config_info(e, &b);
  VC_ASSERT(r == 0 && c0 - b.cnt_bits == 7 + NEC * (1 + 7 + 4 + 1 + 2 + 7 + 1 + 1), "exactly the announced earcons are read");
  int k = vc_range(0, NEC - 1);
  VC_ASSERT((uint32_t)e->earcon_id[k] == vc_seq_v[1 + 8 * k + 1] && (uint32_t)e->earcon_cicp_spk_idx[k] == vc_seq_v[1 + 8 * k + 5], "every earcon as transmitted");
  VC_ASSERT(e->earcon_num_languages[k] == 0, "no languages without a label");
  if (e->earcon_id[15] == 99) VC_REACH("full table");
}
/* texts */
void harness_econ_text(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  ia_earcon_info *e = malloc(sizeof *e);
  VC_ASSUME(e != NULL);
  IA_ERRORCODE r = impeghd_econ_config_info(e, &b);
  VC_ASSERT(r == 0, "accepted");
  for (int l = 0; l < 2; l++)
    VC_ASSERT((uint32_t)e->earcon_languages[0][l] == vc_seq_v[9 + 4 * l] && e->earcon_text_data_length[0][l] == 2 &&
                  (uint32_t)e->earcon_text_data[0][l][0] == vc_seq_v[11 + 4 * l] && (uint32_t)e->earcon_text_data[0][l][1] == vc_seq_v[12 + 4 * l],
              "texts as transmitted, language by language");
  VC_REACH("texts");
}
#endif
static ia_pcm_data_config *p;
#ifdef PART_C
void harness_pcm_config(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  p = malloc(sizeof *p);
  VC_ASSUME(p != NULL);
  vc_havoc(p, sizeof *p);
  int32_t fix0 = p->pcm_fix_frame_size = vc_i32(), att0 = p->bs_pcm_attenuation_gain = vc_i32();
  IA_ERRORCODE r = impeghd_pcm_data_config(p, &b);
  uint32_t n = nx(7);
  VC_ASSERT(p->bs_num_pcm_signals >= 0 && p->bs_num_pcm_signals + 1 <= MAX_NUM_CHANNELS, "signal count within the tables whatever happens");
  if (n + 1 > MAX_NUM_CHANNELS)
  {
    VC_ASSERT(r == IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_PCM_SIG, "too many signals are refused");
    VC_REACH("too many");
    return;
  }
  VC_ASSERT(r == 0 && (uint32_t)p->bs_num_pcm_signals == n, "signal count as transmitted");
  VC_ASSERT((uint32_t)p->pcm_align_audio_flag == nx(1), "alignment as transmitted");
  uint32_t s = nx(5);
  static const int32_t rate[32] = {0, 0, 0, 48000, 44100, 32000, 24000, 22050, 16000, 14700, 29400};
  if (s == 31)
    VC_ASSERT((uint32_t)p->pcm_sampling_rate == nx(24), "explicit rate as transmitted");
  else
    VC_ASSERT(p->pcm_sampling_rate == rate[s], "rate of its index");
  uint32_t w = nx(3);
  if (w > 2) { VC_REACH("reserved sample size"); return; }
  VC_ASSERT(p->pcm_bits_per_sample == 16 + 8 * (int)w, "16, 24 or 32 bits");
  uint32_t f = nx(3);
  VC_ASSERT((uint32_t)p->pcm_frame_size_idx == f, "frame size code as transmitted");
  if (f == 5)
    VC_ASSERT((uint32_t)p->pcm_fix_frame_size == nx(16), "fixed size as transmitted");
  else
    VC_ASSERT(p->pcm_fix_frame_size == fix0, "fixed size kept");
  for (uint32_t i = 0; i < 24 && i <= n; i++) VC_ASSERT((uint32_t)p->pcm_signal_id[i] == nx(7), "signal id as transmitted");
  VC_ASSERT((uint32_t)p->bs_pcm_loudness_value == nx(8), "loudness as transmitted");
  uint32_t g = nx(2);
  VC_ASSERT((uint32_t)p->pcm_has_attenuation_gain == g, "attenuation mode as transmitted");
  if (g == 1)
    VC_ASSERT((uint32_t)p->bs_pcm_attenuation_gain == nx(8), "attenuation as transmitted");
  else
    VC_ASSERT(p->bs_pcm_attenuation_gain == att0, "attenuation kept");
  if (n == 23) VC_REACH("full");
}
#endif
#ifdef PART_P
#ifndef PCM_IDX
#define PCM_IDX 6
#endif
#ifndef PCM_BITS
#define PCM_BITS 16
#endif
static const int32_t fs[5] = {0, 768, 1024, 2048, 4096};
static float want(uint32_t v, uint32_t v1, uint32_t v2, uint32_t v3)
{
#if PCM_BITS == 16
  return (float)(int16_t)v;
#elif PCM_BITS == 24
  return (float)((int32_t)(v << 8) >> 8) / 256.0f;
#else
  return (float)(int32_t)(v << 24 | v1 << 16 | v2 << 8 | v3) / 65536.0f;
#endif
}
#define RPS (PCM_BITS == 32 ? 4 : 1)
/* limits and the first samples, any frame size code */
void harness_pcm_data(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  p = malloc(sizeof *p);
  VC_ASSUME(p != NULL);
  vc_havoc(p, sizeof *p);
  p->pcm_bits_per_sample = PCM_BITS;
  int idx = p->pcm_frame_size_idx = vc_range(0, 7);
  int att = p->pcm_has_attenuation_gain = vc_range(0, 3);
  int fix = p->pcm_fix_frame_size = vc_range(0, 65535);
  p->bs_num_pcm_signals = vc_range(0, 23);
  IA_ERRORCODE r = impeghd_pcm_data_payload(p, &b);
  VC_ASSERT(p->pcm_frame_size_idx == idx && p->pcm_fix_frame_size == fix && p->pcm_bits_per_sample == PCM_BITS, "a data packet leaves the configuration alone");
  uint32_t n = nx(7);
  if (n + 1 > MAX_NUM_CHANNELS)
  {
    VC_ASSERT(r == IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_PCM_SIG, "too many signals are refused");
    VC_REACH("too many");
    return;
  }
  for (uint32_t i = 0; i < 8 && i <= n; i++) VC_ASSERT((uint32_t)p->pcm_signal_id[i] == nx(7), "signal id as transmitted");
  if (att == 2) VC_ASSERT((uint32_t)p->bs_pcm_attenuation_gain == nx(8), "attenuation as transmitted");
  int32_t size = idx == 5 ? fix : idx == 6 ? (int32_t)nx(16) : idx == 7 ? -1 : fs[idx];
  if (size < 0 || size > MAX_NUM_PCM_SAMPLES)
  {
    VC_ASSERT(r != 0, "a frame larger than the sample table is refused");
    if (idx == 4) VC_REACH("4096 samples");
    return;
  }
  VC_ASSERT(r == 0, "frames that fit are accepted");
  if (size == 0) { if (idx == 0) VC_REACH("no samples"); return; }
#if PCM_BITS == 32
  uint32_t v = nx(8), v1 = nx(8), v2 = nx(8), v3 = nx(8);
  VC_ASSERT(p->pcm_sample[0][0] == want(v, v1, v2, v3), "32-bit sample value");
#else
  uint32_t v = nx(PCM_BITS);
  VC_ASSERT(p->pcm_sample[0][0] == want(v, 0, 0, 0), "sample value");
#endif
  VC_REACH("sample");
}
#ifdef PCM_SIZE
/* whole frames: every signal of every sample instant goes to its own place */
void harness_pcm_frame(void)
{
  ia_bit_buf_struct b;
  vc_bitbuf_init(&b);
  p = malloc(sizeof *p);
  VC_ASSUME(p != NULL);
  p->pcm_bits_per_sample = PCM_BITS;
  p->pcm_frame_size_idx = PCM_IDX;
  p->pcm_has_attenuation_gain = 0;
  p->pcm_fix_frame_size = PCM_SIZE;
  p->bs_num_pcm_signals = PCM_N - 1;
  int32_t c0 = b.cnt_bits;
  IA_ERRORCODE r = impeghd_pcm_data_payload(p, &b);
  VC_ASSERT(r == 0, "accepted");
  VC_ASSERT(c0 - b.cnt_bits == 7 + 7 * PCM_N + (PCM_IDX == 6 ? 16 : 0) + PCM_N * PCM_SIZE * PCM_BITS, "exactly the frame is consumed");
  int first = 1 + PCM_N + (PCM_IDX == 6);
#define POS(i, c) (first + ((i) * PCM_N + (c)) * RPS)
  for (int t = 0; t < 4; t++)
  {
    int i = t == 0 ? 0 : t == 1 ? PCM_SIZE - 1 : t == 2 ? PCM_SIZE / 2 : 1, c = t == 0 ? 0 : t == 1 ? PCM_N - 1 : t == 2 ? PCM_N / 2 : 0;
    if (i < PCM_SIZE)
      VC_ASSERT(p->pcm_sample[c][i] == want(vc_seq_v[POS(i, c)], RPS == 4 ? vc_seq_v[POS(i, c) + 1] : 0, RPS == 4 ? vc_seq_v[POS(i, c) + 2] : 0, RPS == 4 ? vc_seq_v[POS(i, c) + 3] : 0), "samples are de-interleaved");
  }
  VC_REACH("frame");
}
#endif
#endif
