#include <string.h>
#include <impeghd_type_def.h>
#include <ia_core_coder_constants.h>
#include "ia_core_coder_defines.h"
#include "impd_drc_common.h"
#include "impd_drc_extr_delta_coded_info.h"
#include "impd_drc_struct.h"
#include "ia_core_coder_bitbuffer.h"
#include "ia_core_coder_interface.h"
#include <ia_core_coder_info.h>
#include <ia_core_coder_rom.h>
#include "ia_core_coder_dec.h"
#include "ia_core_coder_channelinfo.h"
#include "ia_core_coder_channel.h"
#include "ia_core_coder_cnst.h"
#include "ia_core_coder_definitions.h"
#include "ia_core_coder_env_extr.h"
#include "ia_core_coder_function_selector.h"
#include "impeghd_memory_standards.h"
#include "impeghd_hoa_common_values.h"
#include "impeghd_hoa_matrix_struct.h"
#include "impeghd_hoa_matrix.h"
#include "ia_core_coder_config.h"
#include "ia_core_coder_struct_def.h"
#include "ia_core_coder_headerdecode.h"
#include "impeghd_error_codes.h"
#include "impeghd_mhas_parse.h"
#include "ia_core_coder_struct.h"
#include "vc.h"
/* Contract of the configuration packet cache (header decode). */
static int32_t cnt_after_hdr, cnt_at_cfg = -1;
static int ptype, plen, used_cfg;
static UWORD8 *next_after_hdr, *next_at_cfg;
IA_ERRORCODE vc_walk(ia_mhas_pac_info *p, ia_mae_audio_scene_info *a, ia_bit_buf_struct *b)
{
  p->packet_type = ptype;
  p->packet_length = plen;
  p->packet_lbl = 0;
  cnt_after_hdr = b->cnt_bits;
  next_after_hdr = b->ptr_read_next;
  return 0;
}
static int reads;
void vc_rd_hook(ia_bit_buf_struct *b, int n, uint32_t v)
{
  VC_ASSERT(plen <= MAX_CFG_DATA_LENGTH, "no byte is cached from a packet larger than the cache");
  reads++;
#ifndef VC_NATIVE
  VC_ASSUME(reads <= 18);
#endif
}
IA_ERRORCODE vc_cfgdec(ia_mpegh_dec_state_struct *s, WORD32 *n, struct ia_bit_buf_struct *b)
{
  cnt_at_cfg = b->cnt_bits;
  next_at_cfg = b->ptr_read_next;
  VC_ASSUME(used_cfg <= b->cnt_bits);
#ifdef VC_NATIVE
  ia_core_coder_skip_bits_buf(b, used_cfg);
#else
  b->cnt_bits -= used_cfg;
#endif
  return 0;
}
void harness_cfgcache(void)
{
  static ia_mpegh_dec_api_struct api;
  static ia_audio_specific_config_struct *asc;
  static UWORD8 buf[1024];
  void *mem[8] = {0};
  jmp_buf *jb;
  ia_bit_buf_struct tmp;
  ia_mpegh_dec_state_struct *st = malloc(sizeof *st);
  asc = malloc(sizeof *asc);
  WORD32 consumed;
  vc_havoc(buf, sizeof buf);
  vc_bitbuf_init(&tmp);
  st->xmpeghd_jmp_buf = tmp.xmpeghd_jmp_buf;
  st->ia_audio_specific_config = asc;
  api.pp_mem_mpeghd = mem;
  mem[PERSIST_IDX] = st;
  api.p_state_mpeghd = st;
  api.mpeghd_config.ui_raw_flag = 0;
  api.mpeghd_config.ui_mhas_flag = 1;
  st->ui_in_bytes = vc_range(0, 1024);
  int old = st->prev_cfg_len = vc_range(0, MAX_CFG_DATA_LENGTH);
  int k = vc_range(0, MAX_CFG_DATA_LENGTH - 1);
  ptype = vc_range(0, 517);
  plen = vc_range(0, 1 << 26);
  used_cfg = vc_range(0, 1 << 14);
  IA_ERRORCODE e = ia_core_coder_headerdecode(&api, buf, &consumed);
  VC_ASSERT(st->prev_cfg_len >= 0 && st->prev_cfg_len <= MAX_CFG_DATA_LENGTH, "the cached configuration fits its buffer");
  if (ptype != MHAS_PAC_TYP_MPEGH3DACFG)
  {
    VC_ASSERT(e == IA_MPEGH_DEC_INIT_FATAL_3DACONFIG_DATA_NOT_FOUND && cnt_at_cfg == -1, "no configuration packet, no configuration");
    VC_REACH("no config");
  }
  else if (cnt_at_cfg != -1)
  {
    VC_ASSERT(cnt_at_cfg == cnt_after_hdr && next_at_cfg == next_after_hdr, "caching the packet does not move the reader");
    if (old == 0)
    {
      VC_ASSERT(st->prev_cfg_len == plen, "cached length is the packet's");
      if (k < 16 && k < plen)
        VC_ASSERT((UWORD8)st->prev_cfg_data[k] == (UWORD8)vc_seq_v[k], "cached bytes are the packet's");
      if (plen > 12) VC_REACH("cached");
    }
    VC_ASSERT((e == 0) == ((used_cfg + 7) / 8 <= plen), "a configuration running past its packet is refused");
  }
  else
    VC_ASSERT(e != 0 && old == 0 && plen > MAX_CFG_DATA_LENGTH, "refused only for its size");
}
