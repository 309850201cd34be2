/* Contract of the MHAS packet walker: header decoding, packet stepping. */
#include <string.h>
#include <impeghd_type_def.h>
#include "ia_core_coder_bitbuffer.h"
#include "ia_core_coder_cnst.h"
#include "ia_core_coder_defines.h"
#include "ia_core_coder_interface.h"
#include "ia_core_coder_info.h"
#include "ia_core_coder_rom.h"
#include "impeghd_error_codes.h"
#include "impeghd_mhas_parse.h"
#include "impeghd_uni_drc_struct.h"
#include "vc.h"

IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *p, ia_mae_audio_scene_info *a, ia_bit_buf_struct *b);

/* payload parsers: any result, any number of bits (their own contracts: P04, P05, P15) */
static int sub_called, sub_used;
static IA_ERRORCODE sub_err;
static IA_ERRORCODE sub(ia_bit_buf_struct *b, int kind)
{
  int32_t n = vc_range(0, 4096);
  VC_ASSUME(n <= b->cnt_bits);
#ifdef VC_NATIVE
  ia_core_coder_skip_bits_buf(b, n);
#else
  b->cnt_bits -= n;
#endif
  sub_called = kind;
  sub_used = n;
  sub_err = vc_range(0, 1) ? IA_MPEGH_DEC_INIT_FATAL_INVALID_GRP_ID : 0;
  return sub_err;
}
IA_ERRORCODE vc_asi(ia_mae_audio_scene_info *a, ia_bit_buf_struct *b) { return sub(b, MHAS_PAC_TYP_AUDIOSCENEINFO); }
IA_ERRORCODE vc_econ(ia_earcon_info *a, ia_bit_buf_struct *b) { return sub(b, MHAS_PAC_TYP_EARCON); }
IA_ERRORCODE vc_pcmc(ia_pcm_data_config *a, ia_bit_buf_struct *b) { return sub(b, MHAS_PAC_TYP_PCMCONFIG); }
IA_ERRORCODE vc_pcmd(ia_pcm_data_config *a, ia_bit_buf_struct *b) { return sub(b, MHAS_PAC_TYP_PCMDATA); }
IA_ERRORCODE vc_loud(ia_drc_loudness_info_set_struct *a, ia_bit_buf_struct *b) { return sub(b, MHAS_PAC_TYP_LOUDNESS); }

static int pos;
static int32_t hbits;
static uint32_t esc(int n1, int n2, int n3)
{
  uint32_t v = vc_seq_v[pos];
  VC_ASSERT(vc_seq_n[pos] == n1, "header field has its first width");
  hbits += n1;
  pos++;
  if (v == (1u << n1) - 1)
  {
    uint32_t w = vc_seq_v[pos];
    VC_ASSERT(vc_seq_n[pos] == n2, "header field has its second width");
    hbits += n2;
    pos++;
    v += w;
    if (w == (1u << n2) - 1)
    {
      VC_ASSERT(vc_seq_n[pos] == n3, "header field has its third width");
      hbits += n3;
      v += vc_seq_v[pos];
      pos++;
    }
  }
  return v;
}
static int hdr_no;
static int32_t start;
static uint32_t type1, lbl1, len1;
static int sync_ok;
static void one_packet(int32_t cnt_now)
{
  pos = 0;
  hbits = 0;
  type1 = esc(3, 8, 8);
  lbl1 = esc(2, 8, 32);
  len1 = esc(11, 24, 24);
}
/* the parser begins another packet: the packet before it must be complete */
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v)
{
  if (n != 3)
    return;
  hdr_no++;
  if (hdr_no == 2)
  {
    int32_t used;
    one_packet(0);
    used = start - (b->cnt_bits + 3) - hbits;
    VC_ASSERT(type1 != MHAS_PAC_TYP_MPEGH3DACFG && type1 != MHAS_PAC_TYP_MPEGH3DAFRAME &&
                  type1 != MHAS_PAC_TYP_PCMCONFIG && type1 != MHAS_PAC_TYP_PCMDATA,
              "a configuration, frame or PCM packet ends the walk");
    if (type1 == MHAS_PAC_TYP_SYNC)
      VC_ASSERT(len1 == 1 && used == 8 && vc_seq_v[pos] == 0xA5, "sync packet is one byte 0xA5");
    else
      VC_ASSERT(used == (int64_t)len1 * 8 || (sub_called == (int)type1 && sub_used > (int64_t)len1 * 8),
                "the walk resumes exactly behind the packet it skipped");
    VC_ASSERT(sub_called == 0 || (sub_called == (int)type1 && sub_err == 0), "a payload error stops the walk");
    VC_REACH("second packet");
    VC_ASSUME(0);
  }
}
void harness_walk(void)
{
  ia_mae_audio_scene_info *a = malloc(sizeof *a);
  ia_mhas_pac_info info;
  ia_bit_buf_struct b;
  a->asi_present = 0;
  a->ei_present = 0;
  a->earcon_info.earcon_present = 0;
  a->pcm_data_config.pcm_config_present = 0;
  vc_bitbuf_init(&b);
  start = b.cnt_bits;
  IA_ERRORCODE e = impeghd_mhas_parse(&info, a, &b);
  one_packet(b.cnt_bits);
  if (e == 0)
  {
    int32_t used = start - b.cnt_bits - hbits;
    VC_ASSERT(info.packet_type == (WORD32)type1 && info.packet_lbl == (WORD32)lbl1 && info.packet_length == (WORD32)len1,
              "packet type, label and length are the escaped values of the header");
    VC_ASSERT(info.packet_length >= 0 && type1 <= 7 + 255 + 255, "header values in range");
    VC_ASSERT(type1 == MHAS_PAC_TYP_MPEGH3DACFG || type1 == MHAS_PAC_TYP_MPEGH3DAFRAME ||
                  type1 == MHAS_PAC_TYP_PCMCONFIG || type1 == MHAS_PAC_TYP_PCMDATA,
              "only a configuration, frame or PCM packet ends the walk");
    VC_ASSERT((a->pcm_data_config.pcm_packet_type_present == 1) == (type1 == MHAS_PAC_TYP_PCMCONFIG || type1 == MHAS_PAC_TYP_PCMDATA),
              "a PCM packet is announced exactly when there is one");
    VC_ASSERT((a->pcm_data_config.pcm_packet_data_present == 1) == (type1 == MHAS_PAC_TYP_PCMDATA), "PCM data announced");
    if (type1 == MHAS_PAC_TYP_MPEGH3DACFG || type1 == MHAS_PAC_TYP_MPEGH3DAFRAME)
    {
      VC_ASSERT(used == 0 && sub_called == 0, "the reader stands at the first payload bit");
      if (len1 > 100000) VC_REACH("long packet");
      if (type1 == 2) VC_REACH("frame");
    }
    else
    {
      VC_ASSERT(sub_called == (int)type1 && sub_err == 0, "PCM packet parsed by its own parser, errors are not lost");
      VC_ASSERT(used == (int64_t)len1 * 8 || sub_used > (int64_t)len1 * 8, "PCM packet skipped to its end");
      VC_REACH("pcm");
    }
  }
  else
  {
    if (type1 == MHAS_PAC_TYP_SYNC)
    {
      VC_ASSERT(e == IA_MPEGH_DEC_INIT_FATAL_MHAS_SYNCWORD_MISMATCH && (vc_seq_v[pos] != 0xA5 || len1 != 1),
                "a sync packet is refused only when it is not one byte 0xA5");
      VC_REACH("bad sync");
    }
    else
    {
      VC_ASSERT(sub_called == (int)type1 && sub_err == e, "any other error is the payload parser's");
      VC_REACH("payload error");
    }
  }
}
