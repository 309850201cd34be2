From 34faeeec0576ce3ae56b8cf7ed6508584a86966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 01/13] fix: bit reader returns all requested bits for
 unaligned reads of 25 to 32 bits

A read spanning five bytes was accumulated in 32 bits, so the leading bits were
lost (and for 32 bits the shift count went negative); the 32-bit reader also
ignored the bit position. Accumulate in 64 bits and mask.
---
 decoder/ia_core_coder_bitbuffer.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/decoder/ia_core_coder_bitbuffer.c b/decoder/ia_core_coder_bitbuffer.c
index 6e95ce5..608b976 100644
--- a/decoder/ia_core_coder_bitbuffer.c
+++ b/decoder/ia_core_coder_bitbuffer.c
@@ -101,7 +101,7 @@ WORD32 ia_core_coder_skip_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
  */
 WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of_bits)
 {
-  UWORD32 return_val;
+  UWORD64 return_val;
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
 
@@ -134,9 +134,9 @@ WORD32 ia_core_coder_show_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
     bit_position += 8;
   }
 
-  return_val = return_val << ((31 - num_of_bits) - bit_position) >> (32 - num_of_bits);
+  return_val = (return_val >> (bit_position + 1)) & (((UWORD64)1 << num_of_bits) - 1);
 
-  return return_val;
+  return (WORD32)return_val;
 }
 
 /**
@@ -154,7 +154,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
 {
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
-  UWORD32 return_val;
+  UWORD64 return_val;
 
   if (num_of_bits == 0)
   {
@@ -189,9 +189,9 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
   }
   pstr_bit_buff->bit_pos = (WORD16)bit_position;
   pstr_bit_buff->ptr_read_next = ptr_read_next;
-  return_val = return_val << ((31 - num_of_bits) - bit_position) >> (32 - num_of_bits);
+  return_val = (return_val >> (bit_position + 1)) & (((UWORD64)1 << num_of_bits) - 1);
 
-  return return_val;
+  return (WORD32)return_val;
 }
 /**
 *  ia_core_coder_read_bits_buf_32
@@ -206,7 +206,7 @@ WORD32 ia_core_coder_read_bits_buf(ia_bit_buf_struct *pstr_bit_buff, WORD num_of
 UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *pstr_bit_buff)
 {
   WORD32 num_of_bits = 32;
-  UWORD32 return_val;
+  UWORD64 return_val;
   UWORD8 *ptr_read_next = pstr_bit_buff->ptr_read_next;
   WORD bit_position = pstr_bit_buff->bit_pos;
 
@@ -234,12 +234,13 @@ UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *pstr_bit_buff)
   {
     bit_position += 8;
     ptr_read_next++;
+    return_val <<= 8;
   }
 
   pstr_bit_buff->ptr_read_next = ptr_read_next;
   pstr_bit_buff->bit_pos = (WORD16)bit_position;
 
-  return return_val;
+  return (UWORD32)(return_val >> (bit_position + 1));
 }
 
 /**
-- 
2.43.0


From d0dbb826f45ee4131dd398561016e8856ee48cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 02/13] fix: positive overload clips instead of wrapping to
 negative full scale in 32-bit PCM output

---
 decoder/ia_core_coder_cnst.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_cnst.h b/decoder/ia_core_coder_cnst.h
index 5a9af68..4419f2f 100644
--- a/decoder/ia_core_coder_cnst.h
+++ b/decoder/ia_core_coder_cnst.h
@@ -49,7 +49,7 @@
 /* Below values will be used for writing */
 /* 32-bit PCM data                       */
 #define MIN_FLT_VAL_32 (-2147483647.0f)
-#define MAX_FLT_VAL_32 (2147483647.0f)
+#define MAX_FLT_VAL_32 (2147483520.0f)
 #define MUL_FAC_PCM_32 (65536)
 
 #define ESC_VAL_BITS_2 3      // 0000 0011
-- 
2.43.0


From 336ea6f4190c5998f12c8e770eb5262dcd4a9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 03/13] fix: unsupported resampling ratios leave the output at
 the stream rate instead of a stale ratio

---
 decoder/impeghd_api.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 6414ca8..dc8eb97 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -132,7 +132,9 @@
 IA_ERRORCODE impeghd_resampler_get_sampling_ratio(ia_mpegh_dec_config_struct *ptr_config)
 {
   ptr_config->output_framelength = AUDIO_CODEC_FRAME_SIZE_MAX;
-  ptr_config->resample_output = 1;
+  ptr_config->resample_output = 0;
+  ptr_config->fac_down = 1;
+  ptr_config->fac_up = 1;
   switch (ptr_config->stream_samp_freq)
   {
   case 48000:
@@ -201,7 +203,10 @@ IA_ERRORCODE impeghd_resampler_get_sampling_ratio(ia_mpegh_dec_config_struct *pt
     ptr_config->fac_down = 1;
     ptr_config->fac_up = 3;
     break;
+  default:
+    return IA_MPEGH_DEC_INIT_NONFATAL_INVALID_RESAMPLE_RATIO;
   }
+  ptr_config->resample_output = (ptr_config->fac_up != ptr_config->fac_down);
   ptr_config->output_framelength =
       (AUDIO_CODEC_FRAME_SIZE_MAX * ptr_config->fac_up) / ptr_config->fac_down;
   return IA_MPEGH_DEC_NO_ERROR;
@@ -795,6 +800,8 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
       if (err_code)
       {
         pstr_input_config->enable_resamp = 0;
+        p_obj_mpegh_dec->mpeghd_config.out_samp_freq =
+            p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
       }
     }
   }
-- 
2.43.0


From 7884d19267c3061834318cbfb5ef1ee6a10b3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 04/13] fix: loudness gain reaches the output when the output
 is resampled

---
 decoder/ia_core_coder_decode_main.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 137f834..6864b28 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1513,6 +1513,18 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
   {
     ptr_audio_buff[i] = &pstr_dec_data->str_usac_data.time_sample_vector[i][0];
   }
+  if (gain_db_loudness_normalization != 0.0f)
+  {
+
+    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
+    for (i = 0; i < *ptr_num_out_chnl; i++)
+    {
+      for (j = 0; j < frame_length; j++)
+      {
+        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
+      }
+    }
+  }
   if (ptr_config->resample_output)
   {
     FLOAT32 *ptr_resamp_scratch =
@@ -1530,18 +1542,6 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
     pstr_mpegh_dec->ui_out_bytes =
         frame_length * (*ptr_num_out_chnl) * (ptr_config->ui_pcm_wdsz >> 3);
   }
-  if (gain_db_loudness_normalization != 0.0f)
-  {
-
-    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
-    for (i = 0; i < *ptr_num_out_chnl; i++)
-    {
-      for (j = 0; j < frame_length; j++)
-      {
-        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
-      }
-    }
-  }
   if (peak_lim_flag)
   {
     impegh_dec_peak_limiter(ptr_config, pstr_dec_data, ptr_num_out_chnl, ptr_out_buf,
-- 
2.43.0


From 7bfc076127cf36e99478045eb349ab99b0d6ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 05/13] fix: MHAS walk resumes behind loudness packets and
 reports PCM packet errors

---
 decoder/impeghd_mhas_parse.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 3a26f06..1a28a68 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -1336,7 +1336,11 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
       WORD32 cnt_bits = pstr_bit_buf->cnt_bits;
 
       pstr_mae_asi->pcm_data_config.pcm_packet_type_present = 1;
-      impeghd_pcm_data_config(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      err_code = impeghd_pcm_data_config(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
       cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
       if (cnt_bits < (pkt_len << 3))
       {
@@ -1351,7 +1355,11 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
       pstr_mae_asi->pcm_data_config.pcm_packet_type_present = 1;
       pstr_mae_asi->pcm_data_config.pcm_packet_data_present = 1;
       pstr_mae_asi->pcm_data_config.pcm_config_present = 1;
-      impeghd_pcm_data_payload(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      err_code = impeghd_pcm_data_payload(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
       cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
       if (cnt_bits < (pkt_len << 3))
       {
@@ -1362,9 +1370,20 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
     break;
     case MHAS_PAC_TYP_LOUDNESS:
     {
+      WORD32 cnt_bits = pstr_bit_buf->cnt_bits;
       ia_drc_payload_struct str_drc_payload;
       err_code = impd_drc_mpegh3da_parse_loudness_info_set(&str_drc_payload.str_loud_info,
                                                            pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
+      cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
+      if (cnt_bits < (pkt_len << 3))
+      {
+        WORD32 skip_bits = (pkt_len << 3) - cnt_bits;
+        ia_core_coder_skip_bits_buf(pstr_bit_buf, skip_bits);
+      }
     }
     break;
     default:
-- 
2.43.0


From 2c493c23ac4037516f94925c4977d00482505aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 06/13] fix: configuration packets larger than the decoder's
 cache are refused

---
 decoder/ia_core_coder_decode_main.c  | 4 ++++
 decoder/ia_core_coder_headerdecode.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 6864b28..74233a3 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2505,6 +2505,10 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       {
         WORD32 bytes_consumed;
         WORD32 flush = 0;
+        if (pac_info.packet_length > MAX_CFG_DATA_LENGTH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+        }
         if (mpegh_dec_handle->prev_cfg_len)
         {
           WORD32 i = 0;
diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index c34b318..4c7c922 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -192,6 +192,10 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
         WORD32 bit_pos = handle_bit_buff->bit_pos;
         WORD32 cnt_bits = handle_bit_buff->cnt_bits;
         UWORD8 *ptr_read_next = handle_bit_buff->ptr_read_next;
+        if (info.packet_length > MAX_CFG_DATA_LENGTH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+        }
         mpeghd_state_struct->prev_cfg_len = info.packet_length;
         for (i = 0; i < info.packet_length; i++)
         {
-- 
2.43.0


From 826e4e92ffa84f0d15e9415d147f1df15c089ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 07/13] fix: audio scene counts and lengths keep their
 transmitted values (member count 128, texts over 127 bytes, data sets over
 32767 bytes, effect mask)

---
 decoder/impeghd_mhas_parse.c | 8 ++++----
 decoder/impeghd_mhas_parse.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 1a28a68..9deaf58 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -93,7 +93,7 @@ static IA_ERRORCODE impeghd_mae_parse_description_data(ia_description_data *pstr
       pstr_description_data->descr_language[blk][cnt] =
           ia_core_coder_read_bits_buf(pstr_bit_buf, 24);
       pstr_description_data->descr_data_length[blk][cnt] =
-          (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 8) + 1;
+          (WORD16)(ia_core_coder_read_bits_buf(pstr_bit_buf, 8) + 1);
 
       for (WORD32 idx = 0; idx < pstr_description_data->descr_data_length[blk][cnt]; idx++)
       {
@@ -319,7 +319,7 @@ impeghd_mae_parse_drc_user_interface_info(ia_drc_user_interface_info *pstr_drc_u
       pstr_drc_user_ix_info->tgt_loudness_value[cnt + 1] =
           (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 6);
       pstr_drc_user_ix_info->set_effect_available[cnt] =
-          (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 16);
+          (UWORD16)ia_core_coder_read_bits_buf(pstr_bit_buf, 16);
     }
   }
 }
@@ -387,7 +387,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_def(ia_mae_group_def *pstr_group_defin
     }
 
     pstr_group_definition[grp].group_num_members =
-        (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 7) + 1;
+        (UWORD8)(ia_core_coder_read_bits_buf(pstr_bit_buf, 7) + 1);
 
     if ((pstr_group_definition[grp].has_conjunct_members =
              (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
@@ -983,7 +983,7 @@ static IA_ERRORCODE impeghd_mae_asi_data_parse(ia_mae_audio_scene_info *pstr_mae
     WORD32 cnt_bits = 0;
     pstr_mae_data->data_type[cnt] = (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 4);
     data_len = ia_core_coder_read_bits_buf(pstr_bit_buf, 16);
-    pstr_mae_data->data_length[cnt] = (WORD16)data_len;
+    pstr_mae_data->data_length[cnt] = data_len;
     cnt_bits = pstr_bit_buf->cnt_bits;
     switch (pstr_mae_data->data_type[cnt])
     {
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index e3e4006..5da97e4 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -114,7 +114,7 @@ typedef struct
   WORD8 allow_pos_interact;
   WORD8 default_on_off;
   WORD8 group_id;
-  WORD8 group_num_members;
+  UWORD8 group_num_members;
   WORD8 has_conjunct_members;
   WORD8 has_content_language;
   WORD8 max_az_offset;
@@ -205,7 +205,7 @@ typedef struct
 {
   WORD8 num_data_sets;
   WORD8 data_type[MAX_MAE_NUM_DATASETS];
-  WORD16 data_length[MAX_MAE_NUM_DATASETS];
+  WORD32 data_length[MAX_MAE_NUM_DATASETS];
 } ia_mae_data;
 
 typedef struct
@@ -221,7 +221,7 @@ typedef struct
 typedef struct
 {
   UWORD8 num_descr_blks;
-  WORD8 descr_data_length[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
+  WORD16 descr_data_length[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
   WORD8 descr_data[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES][MAX_DESCRIPTON_DATA_LEN];
   WORD32 descr_language[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
   WORD8 grp_id[MAX_NUM_DESCRIPTOIN_BLOCKS];
@@ -284,7 +284,7 @@ typedef struct
 {
   WORD32 num_tgt_loudness_cnd;
   WORD32 version;
-  WORD8 set_effect_available[MAX_NUM_TGT_LOUDNESS_CONDITIONS];
+  UWORD16 set_effect_available[MAX_NUM_TGT_LOUDNESS_CONDITIONS];
   WORD8 tgt_loudness_value[MAX_NUM_TGT_LOUDNESS_CONDITIONS + 1];
 } ia_drc_user_interface_info;
 typedef struct
-- 
2.43.0


From f6c5e4f9f17f3742fffb0c52416cac9e89619c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 08/13] fix: earcon and PCM packets stay within the decoder's
 tables; explicit PCM frame sizes are used as sizes

---
 decoder/ia_core_coder_decode_main.c |  2 +-
 decoder/impeghd_mhas_parse.c        | 32 +++++++++++++++++++++--------
 decoder/impeghd_mhas_parse.h        |  1 +
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 74233a3..887d44a 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1310,7 +1310,7 @@ static IA_ERRORCODE impeghd_earcon_obj_md_dec_ren_process(ia_dec_data_struct *ps
   ia_oam_dec_state_struct *pstr_obj_md_dec_state = &pstr_obj_ren_dec_state->str_obj_md_dec_state;
 
   num_objects = pstr_obj_md_dec_state->num_objects;
-  ccfl = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+  ccfl = pstr_pcm_data_config->pcm_frame_size;
   ptr_in_buf = &pstr_pcm_data_config->pcm_sample[0][0];
 
   ia_core_coder_memset(ptr_out_buf, (ccfl * pstr_obj_ren_dec_state->num_cicp_speakers));
diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 9deaf58..c912eca 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -747,7 +747,8 @@ IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *pstr_pcm_data_config,
                                       ia_bit_buf_struct *pstr_bit_buf)
 {
 
-  WORD32 cnt, idx, pcm_fix_frame_size;
+  WORD32 cnt, idx, pcm_frame_size;
+  pstr_pcm_data_config->pcm_frame_size = 0;
   pstr_pcm_data_config->bsnum_pcm_signals_in_frame = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
 
   if (pstr_pcm_data_config->bsnum_pcm_signals_in_frame > (MAX_NUM_CHANNELS - 1))
@@ -777,20 +778,26 @@ IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *pstr_pcm_data_config,
     return IA_MPEGH_DEC_NO_ERROR;
     break;
   case 5:
-    pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_fix_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    pcm_frame_size = pstr_pcm_data_config->pcm_fix_frame_size;
     break;
   case 6:
-    pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_var_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    pcm_frame_size = pstr_pcm_data_config->pcm_var_frame_size;
+    break;
+  case 7:
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_FRAME_LENGTH;
     break;
   default:
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    pcm_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
     break;
   }
+  if (pcm_frame_size > MAX_NUM_PCM_SAMPLES)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_FRAME_LENGTH;
+  }
+  pstr_pcm_data_config->pcm_frame_size = pcm_frame_size;
 
   WORD32 pcm_sample, temp, temp_num;
-  for (cnt = 0; cnt < pcm_fix_frame_size; cnt++)
+  for (cnt = 0; cnt < pcm_frame_size; cnt++)
   {
     for (idx = 0; idx < pstr_pcm_data_config->bsnum_pcm_signals_in_frame + 1; idx++)
     {
@@ -846,6 +853,11 @@ IA_ERRORCODE impeghd_pcm_data_config(ia_pcm_data_config *pstr_pcm_data_config,
                                      ia_bit_buf_struct *pstr_bit_buf)
 {
   pstr_pcm_data_config->bs_num_pcm_signals = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
+  if (pstr_pcm_data_config->bs_num_pcm_signals > (MAX_NUM_CHANNELS - 1))
+  {
+    pstr_pcm_data_config->bs_num_pcm_signals = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_PCM_SIG;
+  }
   pstr_pcm_data_config->pcm_align_audio_flag = ia_core_coder_read_bits_buf(pstr_bit_buf, 1);
   pstr_pcm_data_config->pcm_sampling_rate_idx = ia_core_coder_read_bits_buf(pstr_bit_buf, 5);
   pstr_pcm_data_config->pcm_sampling_rate =
@@ -897,7 +909,7 @@ IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *pstr_earcon_info,
                                       ia_bit_buf_struct *pstr_bit_buf)
 {
   WORD32 num_earcons = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
-  if (num_earcons > MAX_NUM_EARCONS)
+  if (num_earcons > MAX_NUM_EARCONS - 1)
   {
     return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_EARCONS;
   }
@@ -939,6 +951,10 @@ IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *pstr_earcon_info,
     {
       pstr_earcon_info->earcon_num_languages[cnt] = ia_core_coder_read_bits_buf(pstr_bit_buf, 4);
     }
+    else
+    {
+      pstr_earcon_info->earcon_num_languages[cnt] = 0;
+    }
 
     for (WORD32 idx = 0; idx < pstr_earcon_info->earcon_num_languages[cnt]; idx++)
     {
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index 5da97e4..c6289b5 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -299,6 +299,7 @@ typedef struct
   WORD32 pcm_config_present;
   WORD32 pcm_fix_frame_size;
   WORD32 pcm_frame_size_idx;
+  WORD32 pcm_frame_size;
   WORD32 pcm_has_attenuation_gain;
   WORD32 pcm_packet_type_present;
   WORD32 pcm_sampling_rate_idx;
-- 
2.43.0


From 5f22c96f0b77937c326a3b86f1595cf9e48abf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 09/13] fix: loudspeaker descriptions are looked up as
 loudspeakers, checked and mirrored

Loudspeaker indices were looked up as layout indices, writing up to 24
pointers behind each entry of a local table and dereferencing an unset
entry for a reserved index; negative layout indices passed the range
check; errors of a loudspeaker description were dropped; directions that
are not transmitted kept earlier values; the symmetric pair flag was not
read for CICP loudspeakers outside 1..19 and the mirrored loudspeaker
stayed at the original azimuth.
---
 decoder/ia_core_coder_init_config.c      | 209 +++++++++++++----------
 decoder/impeghd_cicp_2_geometry.c        |   2 +-
 decoder/impeghd_ele_interaction_intrfc.c |   7 +-
 3 files changed, 123 insertions(+), 95 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c32dbc1..f53cb70 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1082,6 +1082,9 @@ static IA_ERRORCODE impeghd_spk_description(VOID *buf_handle, ia_flex_spk_cfg_st
 
   if (!pstr_spk_desc->is_cicp_spk_idx)
   {
+    pstr_spk_desc->el_angle_idx = 0;
+    pstr_spk_desc->el_direction = 0;
+    pstr_spk_desc->az_direction = 0;
     pstr_spk_desc->el_class = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 2);
     if (pstr_spk_desc->el_class == 3)
     {
@@ -1143,10 +1146,41 @@ static IA_ERRORCODE impeghd_spk_description(VOID *buf_handle, ia_flex_spk_cfg_st
   else
   {
     pstr_spk_desc->cicp_spk_idx = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 7);
+    if (pstr_spk_desc->cicp_spk_idx >= CICP_MAX_CH)
+    {
+      return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
+    }
   }
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
+/**
+*  impeghd_cicp_mirrored_spk_idx
+*
+*  \brief Finds the CICP loudspeaker at the mirrored azimuth of a CICP loudspeaker
+*
+*  \param [in]  cicp_spk_idx        CICP loudspeaker index
+*
+*  \return UWORD16              CICP loudspeaker index of the mirrored loudspeaker
+*
+*/
+static UWORD16 impeghd_cicp_mirrored_spk_idx(UWORD16 cicp_spk_idx)
+{
+  UWORD16 i;
+  const ia_cicp_ls_geo_str *ptr_spk = &ia_cicp_ls_geo_tbls[cicp_spk_idx];
+  for (i = 0; i < CICP_MAX_CH; i++)
+  {
+    if ((ia_cicp_ls_geo_tbls[i].ls_azimuth == -ptr_spk->ls_azimuth) &&
+        (ia_cicp_ls_geo_tbls[i].ls_elevation == ptr_spk->ls_elevation) &&
+        (ia_cicp_ls_geo_tbls[i].lfe_flag == ptr_spk->lfe_flag) &&
+        (ia_cicp_ls_geo_tbls[i].screen_rel_flag == ptr_spk->screen_rel_flag))
+    {
+      return i;
+    }
+  }
+  return cicp_spk_idx;
+}
+
 /**
 *  impeghd_flexispk_config
 *
@@ -1163,15 +1197,19 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
                                             ia_flex_spk_data_str *pstr_flex_spk_data,
                                             WORD32 num_spk)
 {
-  WORD32 i = 0, in_num_channels = 0, in_num_lfes = 0, azimuth;
+  IA_ERRORCODE err;
+  WORD32 i = 0, azimuth;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   pstr_flex_spk_data->angular_precision = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 1);
 
   while (i < num_spk)
   {
-    azimuth = 0;
-    impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
-                            pstr_flex_spk_data->angular_precision);
+    err = impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
+                                  pstr_flex_spk_data->angular_precision);
+    if (err)
+    {
+      return err;
+    }
 
     if (!(pstr_flex_spk_data->str_flex_spk_descr[i].is_cicp_spk_idx))
     {
@@ -1180,23 +1218,10 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
                                        pstr_flex_spk_data->angular_precision);
       pstr_flex_spk_data->str_flex_spk_descr[i].az_angle_idx = azimuth;
     }
-    else if ((pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx < NUM_LS_CFGS) &&
-             (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx != 0) &&
-             (pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx != 8))
+    else
     {
-      const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-
-      ptr_cicp_ls_geometry[i] =
-          &ia_cicp_ls_geo_tbls[pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx];
-      if (!ptr_cicp_ls_geometry[i]->lfe_flag)
-      {
-        in_num_channels++;
-      }
-      else
-      {
-        in_num_lfes++;
-      }
-      azimuth = (WORD32)(ptr_cicp_ls_geometry[i]->ls_azimuth);
+      azimuth =
+          ia_cicp_ls_geo_tbls[pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx].ls_azimuth;
     }
 
     if ((azimuth != 0) && (azimuth != 180))
@@ -1205,9 +1230,19 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
       if (pstr_flex_spk_data->also_add_symetric_pair)
       {
         i++;
+        if (i >= num_spk)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+        }
         pstr_flex_spk_data->str_flex_spk_descr[i] = pstr_flex_spk_data->str_flex_spk_descr[i - 1];
+        pstr_flex_spk_data->str_flex_spk_descr[i].az_angle_idx = -azimuth;
         pstr_flex_spk_data->str_flex_spk_descr[i].az_direction =
             1 - pstr_flex_spk_data->str_flex_spk_descr[i].az_direction;
+        if (pstr_flex_spk_data->str_flex_spk_descr[i].is_cicp_spk_idx)
+        {
+          pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx = impeghd_cicp_mirrored_spk_idx(
+              pstr_flex_spk_data->str_flex_spk_descr[i].cicp_spk_idx);
+        }
       }
     }
     i++;
@@ -1308,9 +1343,13 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
     }
     if (pstr_audio_specific_config->ref_spk_layout.spk_layout_type == 2)
     {
-      impeghd_flexispk_config(it_bit_buff,
-                              &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
-                              pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      err = impeghd_flexispk_config(it_bit_buff,
+                                    &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
+                                    pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      if (err)
+      {
+        return err;
+      }
       pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx =
           pstr_audio_specific_config->ref_spk_layout.num_speakers;
       if (pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx <= 0 ||
@@ -1438,8 +1477,12 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
           {
           case 2:
           {
-            impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
-                                    speaker_config_3d->num_speakers);
+            err = impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
+                                          speaker_config_3d->num_speakers);
+            if (err)
+            {
+              return err;
+            }
             break;
           }
           case 1:
@@ -1731,6 +1774,7 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
                                        ia_interface_speaker_config_3d *spk_config_3d)
 {
   UWORD32 i;
+  IA_ERRORCODE err;
   ia_bit_buf_struct *ia_bit_buf = (ia_bit_buf_struct *)buf_handle;
   spk_config_3d->spk_layout_type = (UWORD16)ia_core_coder_read_bits_buf(ia_bit_buf, 2);
   if (spk_config_3d->spk_layout_type == 0)
@@ -1751,8 +1795,12 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     {
     case 2:
     {
-      impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
-                              spk_config_3d->num_speakers);
+      err = impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
+                                    spk_config_3d->num_speakers);
+      if (err)
+      {
+        return err;
+      }
       break;
     }
     case 1:
@@ -1765,8 +1813,12 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     }
     }
   }
-  impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
-                               &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  err = impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
+                                     &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  if (err)
+  {
+    return err;
+  }
 
   spk_config_3d->num_speakers = spk_config_3d->num_ch + spk_config_3d->num_lfes;
 
@@ -1901,82 +1953,53 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
                                           WORD32 *num_lfes)
 {
   UWORD32 i;
-  ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-  WORD32 in_num_channels, in_num_lfes;
+  UWORD32 num_speakers = speaker_config_3d->num_speakers;
+  const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry;
+  WORD32 cicp_spk_idx;
   if (speaker_config_3d->spk_layout_type == 0)
   {
-    impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx, ptr_geometry,
-                                          num_channels, num_lfes);
+    return impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx,
+                                                 ptr_geometry, num_channels, num_lfes);
   }
   else if (speaker_config_3d->spk_layout_type < 3)
   {
-    switch (speaker_config_3d->spk_layout_type)
-    {
-    case 2:
+    *num_lfes = 0;
+    *num_channels = num_speakers;
+    for (i = 0; i < num_speakers; i++)
     {
-      *num_lfes = 0;
-      *num_channels = speaker_config_3d->num_speakers;
-      for (i = 0; i < speaker_config_3d->num_speakers; i++)
+      if ((speaker_config_3d->spk_layout_type == 2) &&
+          !(speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_cicp_spk_idx))
       {
-        if (!(speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_cicp_spk_idx))
-        {
-          ptr_geometry[i].el =
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].el_angle_idx;
-          ptr_geometry[i].az =
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].az_angle_idx;
-          ptr_geometry[i].lfe = speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_lfe;
-          ptr_geometry[i].cicp_loudspeaker_idx = -1;
-        }
-        else
-        {
-          const WORD32 **in_channel_names;
-          impeghd_cicpidx_2_ls_geometry(
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx,
-              (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i], &in_num_channels,
-              &in_num_lfes, (const WORD32 **)&in_channel_names);
-          ptr_geometry[i].cicp_loudspeaker_idx =
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-          ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
-          ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
-        }
-        if (speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_lfe != 0)
-        {
-          (*num_lfes)++;
-          (*num_channels)--;
-        }
+        ptr_geometry[i].el =
+            speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].el_angle_idx;
+        ptr_geometry[i].az =
+            speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].az_angle_idx;
+        ptr_geometry[i].lfe = speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_lfe;
+        ptr_geometry[i].cicp_loudspeaker_idx = -1;
       }
-      break;
-    }
-    case 1:
-    {
-      *num_lfes = 0;
-      *num_channels = speaker_config_3d->num_speakers;
-      for (i = 0; i < speaker_config_3d->num_speakers; i++)
+      else
       {
-        const WORD32 **in_channel_names;
-        impeghd_cicpidx_2_ls_geometry(speaker_config_3d->cicp_spk_idx[i],
-                                      (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i],
-                                      &in_num_channels, &in_num_lfes,
-                                      (const WORD32 **)&in_channel_names);
-        ptr_geometry[i].cicp_loudspeaker_idx =
-            speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-        ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
-        ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
-        if ((speaker_config_3d->cicp_spk_idx[i] == 3) ||
-            (speaker_config_3d->cicp_spk_idx[i] == 26))
+        cicp_spk_idx =
+            (speaker_config_3d->spk_layout_type == 2)
+                ? speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx
+                : speaker_config_3d->cicp_spk_idx[i];
+        if (cicp_spk_idx < 0 || cicp_spk_idx >= CICP_MAX_CH)
         {
-          (*num_lfes)++;
-          (*num_channels)--;
+          return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
         }
+        ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[cicp_spk_idx];
+        ptr_geometry[i].cicp_loudspeaker_idx = cicp_spk_idx;
+        ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
+        ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
+        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
+      }
+      if (ptr_geometry[i].lfe != 0)
+      {
+        (*num_lfes)++;
+        (*num_channels)--;
       }
-      break;
-    }
     }
   }
   return IA_MPEGH_DEC_NO_ERROR;
diff --git a/decoder/impeghd_cicp_2_geometry.c b/decoder/impeghd_cicp_2_geometry.c
index 579ebc3..261a279 100644
--- a/decoder/impeghd_cicp_2_geometry.c
+++ b/decoder/impeghd_cicp_2_geometry.c
@@ -80,7 +80,7 @@ IA_ERRORCODE impeghd_cicpidx_2_ls_geometry(WORD32 cicp_idx,
 {
   WORD32 ch;
   WORD32 ch_idx;
-  if (cicp_idx > NUM_LS_CFGS || cicp_idx == 8 || cicp_idx == 0)
+  if (cicp_idx > NUM_LS_CFGS || cicp_idx == 8 || cicp_idx <= 0)
   {
     return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
   }
diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index d376745..0c57052 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -103,10 +103,15 @@ mpegh3dapstr_local_setup_dataInformation
 static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
                                          ia_local_setup_struct *pstr_local_setup_data)
 {
+  IA_ERRORCODE err;
   UWORD32 ld_spk;
   UWORD32 num_loudspk = 0, has_loud_spk_dist = 0, has_loud_spk_calibration_gain = 0;
   num_loudspk = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
-  impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  err = impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  if (err)
+  {
+    return err;
+  }
   has_loud_spk_dist = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   has_loud_spk_calibration_gain = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   pstr_local_setup_data->use_tracking_mode = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
-- 
2.43.0


From fd44c35e8317c362fa130d0a1cce4c68e8dd41fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 10/13] fix: configuration: end every extension at its
 announced length, bound object and matrix counts, forget the previous
 configuration's extensions

---
 decoder/ia_core_coder_init_config.c | 53 ++++++++++++++++-------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index f53cb70..ecb3bc6 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -305,7 +305,15 @@ IA_ERRORCODE ia_core_coder_ext_element_config(
   {
     *ptr_usac_ext_ele_payload_len = usac_ext_element_config_length;
     cnt_bits = it_bit_buff->cnt_bits;
-    impeghd_obj_md_cfg(p_obj_md_cfg, it_bit_buff, ccfl, num_objects);
+    if (num_objects > MAX_NUM_OAM_OBJS)
+    {
+      return IA_MPEGH_OAM_INIT_FATAL_UNSUPPORTED_NUM_OBJS;
+    }
+    err_code = impeghd_obj_md_cfg(p_obj_md_cfg, it_bit_buff, ccfl, num_objects);
+    if (err_code)
+    {
+      return err_code;
+    }
     cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
     if (cnt_bits > (WORD32)(usac_ext_element_config_length << 3))
     {
@@ -693,7 +701,7 @@ static VOID impeghd_sig_group_info(ia_bit_buf_struct *it_bit_buff, ia_signals_3d
 {
   WORD32 grp;
 
-  for (grp = 0; grp <= (WORD32)ptr_signal_3d->num_sig_group; grp++)
+  for (grp = 0; grp < (WORD32)ptr_signal_3d->num_sig_group; grp++)
   {
     ptr_signal_3d->group_priority[grp] = ia_core_coder_read_bits_buf(it_bit_buff, 3);
     ptr_signal_3d->fixed_position[grp] = ia_core_coder_read_bits_buf(it_bit_buff, 1);
@@ -788,6 +796,10 @@ static IA_ERRORCODE impeghd_parse_dmx_ext_config(ia_bit_buf_struct *it_bit_buff,
                 ia_core_coder_read_bits_buf(it_bit_buff, 5);
           }
           ia_core_coder_read_escape_value(it_bit_buff, &temp, 8, 8, 12);
+          if (temp > (ASCPARSER_MAX_DMX_MATRIX_SIZE << 3))
+          {
+            return IA_MPEGH_DEC_EXE_FATAL_MAX_DMX_MATRIX_ELEMENTS_EXCEEDED;
+          }
           ptr_dmx_cfg->dmx_matrix[i].dmx_matrix_len_bits[l] = temp;
 
           byte_count = 0;
@@ -927,6 +939,8 @@ static IA_ERRORCODE ia_core_coder_config_extension(
     if (usac_config_ext_len > MAX_EXT_ELE_PAYLOAD)
       return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
 
+    cnt_bits = it_bit_buff->cnt_bits;
+
     switch (usac_config_ext_type)
     {
     case ID_CONFIG_EXT_COMPATIBLE_PROFILELVL_SET:
@@ -939,7 +953,6 @@ static IA_ERRORCODE ia_core_coder_config_extension(
     {
       pstr_usac_decoder_config->str_hoa_config.matrix_spk_id = pstr_usac_decoder_config->cicp_idx;
       pstr_usac_decoder_config->hoa_matrix_ext_config_present = 1;
-      cnt_bits = it_bit_buff->cnt_bits;
 
       if (pstr_usac_decoder_config->cicp_idx > CICP2GEOMETRY_MAX_SPKIDX)
         return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
@@ -955,12 +968,6 @@ static IA_ERRORCODE ia_core_coder_config_extension(
         return err;
       pstr_usac_decoder_config->usac_cfg_ext_info_present[j] = 1;
       pstr_usac_decoder_config->usac_cfg_ext_info_len[j] = usac_config_ext_len;
-      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
-      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
-      {
-        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
-        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
-      }
       break;
     }
     case ID_CONFIG_EXT_DOWNMIX:
@@ -968,8 +975,6 @@ static IA_ERRORCODE ia_core_coder_config_extension(
       memset(&pstr_usac_decoder_config->dmx_cfg, 0, sizeof(pstr_usac_decoder_config->dmx_cfg));
       pstr_usac_decoder_config->downmix_ext_config_present = 1;
       pstr_usac_decoder_config->downmix_ext_config_idx = j;
-      cnt_bits = it_bit_buff->cnt_bits;
-
       IA_ERRORCODE err_code = impeghd_parse_dmx_ext_config(it_bit_buff, ui_cicp_layout_idx,
                                                            &pstr_usac_decoder_config->dmx_cfg);
       if (IA_MPEGH_DEC_NO_ERROR != err_code)
@@ -978,12 +983,6 @@ static IA_ERRORCODE ia_core_coder_config_extension(
       }
       pstr_usac_decoder_config->usac_cfg_ext_info_present[j] = 1;
       pstr_usac_decoder_config->usac_cfg_ext_info_len[j] = usac_config_ext_len;
-      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
-      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
-      {
-        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
-        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
-      }
       break;
     }
     case ID_CONFIG_EXT_LOUDNESS_INFO:
@@ -1010,19 +1009,12 @@ static IA_ERRORCODE ia_core_coder_config_extension(
         return IA_MPEGH_DEC_INIT_FATAL_ERROR;
       }
 
-      cnt_bits = it_bit_buff->cnt_bits;
       ptr_mae_asi->asi_present = 1;
       IA_ERRORCODE err_code = impeghd_mae_asi_parse(ptr_mae_asi, it_bit_buff);
       if (IA_MPEGH_DEC_NO_ERROR != err_code)
       {
         return err_code;
       }
-      cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
-      if (cnt_bits < (WORD32)(usac_config_ext_len << 3))
-      {
-        skip_bits = (usac_config_ext_len << 3) - cnt_bits;
-        ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
-      }
       break;
     }
     case ID_CONFIG_EXT_SIG_GROUP_INFO:
@@ -1057,6 +1049,13 @@ static IA_ERRORCODE ia_core_coder_config_extension(
       break;
     }
     }
+    cnt_bits = cnt_bits - it_bit_buff->cnt_bits;
+    if (cnt_bits > (WORD32)(usac_config_ext_len << 3))
+    {
+      return IA_MPEGH_DEC_EXE_FATAL_DECODE_FRAME_ERROR;
+    }
+    skip_bits = (usac_config_ext_len << 3) - cnt_bits;
+    ia_core_coder_skip_bits_buf(it_bit_buff, skip_bits);
   }
   return err;
 }
@@ -1393,6 +1392,12 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
     return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SIGNALGROUPS_EXCEEDED;
   }
   pstr_usac_conf->num_out_channels = 0;
+  pstr_usac_conf->enh_obj_md_present = 0;
+  pstr_usac_conf->str_usac_dec_config.downmix_ext_config_present = 0;
+  pstr_usac_conf->str_usac_dec_config.loudness_ext_config_present = 0;
+  pstr_usac_conf->str_usac_dec_config.hoa_matrix_ext_config_present = 0;
+  pstr_usac_conf->str_usac_dec_config.compat_profile_cfg_present = 0;
+  ia_signals_3da->signal_grp_info_present = 0;
   ia_signals_3da->num_hoa_transport_ch = 0;
   ia_signals_3da->num_saoc_transport_ch = 0;
   ia_signals_3da->num_audio_obj = 0;
-- 
2.43.0


From fe96ad39d181671c55113a68dd9d095c73de3fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 11/13] fix: object metadata: all sub frames limited and kept,
 absolute spread depth 4 bits, per-object enhanced fields, screen flags
 survive

---
 decoder/ia_core_coder_decode_main.c |  5 -----
 decoder/impeghd_oam_dec.c           |  7 ++++++-
 decoder/impeghd_oam_dec_ld.c        | 31 +++++++++++++++--------------
 3 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 887d44a..abb2b86 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1760,11 +1760,6 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
       {
         memset(&pstr_dec_data->str_obj_ren_dec_state.str_obj_md_dec_state, 0,
                sizeof(pstr_dec_data->str_obj_ren_dec_state.str_obj_md_dec_state));
-        memset(&pstr_dec_data->str_frame_data.str_audio_specific_config.str_usac_config.obj_md_cfg
-                    .is_screen_rel_obj[0],
-               0, sizeof(pstr_dec_data->str_frame_data.str_audio_specific_config.str_usac_config
-                             .obj_md_cfg.is_screen_rel_obj));
-
         pstr_dec_data->str_obj_ren_dec_state.str_obj_md_dec_state.p_obj_md_cfg =
             &pstr_dec_data->str_frame_data.str_audio_specific_config.str_usac_config.obj_md_cfg;
         pstr_dec_data->str_obj_ren_dec_state.str_obj_md_dec_state.num_objects =
diff --git a/decoder/impeghd_oam_dec.c b/decoder/impeghd_oam_dec.c
index ddb2a34..fd3474c 100644
--- a/decoder/impeghd_oam_dec.c
+++ b/decoder/impeghd_oam_dec.c
@@ -126,10 +126,11 @@ IA_ERRORCODE impeghd_obj_md_cfg(ia_oam_dec_config_struct *p_obj_md_cfg,
       return IA_MPEGH_OAM_EXE_FATAL_UNSUPPORTED_FRAMELENGTH;
     }
   }
+  memset(p_obj_md_cfg->is_screen_rel_obj, 0, sizeof(p_obj_md_cfg->is_screen_rel_obj));
+  p_obj_md_cfg->screen_rel_objs_present = 0;
   screen_rel_objs_present = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS);
   if (screen_rel_objs_present)
   {
-    p_obj_md_cfg->screen_rel_objs_present = 0;
     screen_rel_objs_present = 0;
     FLAG *ptr_screen_rel_obj = &p_obj_md_cfg->is_screen_rel_obj[0];
     for (i = num_objects; i > 0; i--)
@@ -272,6 +273,8 @@ IA_ERRORCODE impeghd_enh_obj_md_frame(ia_enh_obj_md_frame_str *p_enh_oj_md_frame
             p_enh_oj_md_frame->exclude_sector_min_az[obj][j];
         p_enh_oj_md_frame->prev_exclude_sector_index[obj][j] =
             p_enh_oj_md_frame->exclude_sector_index[obj][j];
+        p_enh_oj_md_frame->prev_use_predefined_sector[obj][j] =
+            p_enh_oj_md_frame->use_predefined_sector[obj][j];
       }
       p_enh_oj_md_frame->prev_num_exclusion_sectors[obj] =
           p_enh_oj_md_frame->num_exclusion_sectors[obj];
@@ -320,6 +323,7 @@ IA_ERRORCODE impeghd_enh_obj_md_frame(ia_enh_obj_md_frame_str *p_enh_oj_md_frame
         {
           for (i = 0; i < p_enh_oj_md_frame->num_exclusion_sectors[0]; i++)
           {
+            p_enh_oj_md_frame->use_predefined_sector[0][i] = 1;
             p_enh_oj_md_frame->exclude_sector_index[0][i] =
                 ia_core_coder_read_bits_buf(ptr_bit_buf, 4);
           }
@@ -481,6 +485,7 @@ IA_ERRORCODE impeghd_enh_obj_md_frame(ia_enh_obj_md_frame_str *p_enh_oj_md_frame
           {
             for (j = 0; j < p_enh_oj_md_frame->num_exclusion_sectors[obj]; j++)
             {
+              p_enh_oj_md_frame->use_predefined_sector[obj][j] = 1;
               p_enh_oj_md_frame->exclude_sector_index[obj][j] =
                   ia_core_coder_read_bits_buf(ptr_bit_buf, 4);
             }
diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 29e074b..193b0c2 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -70,13 +70,15 @@
  */
 static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state)
 {
-  WORD32 n, num_elements;
+  WORD32 n;
   FLOAT32 minval, maxval;
-  num_elements = ptr_oam_dec_state->num_objects;
+  WORD32 obj_start_idx =
+      (ptr_oam_dec_state->sub_frame_number - 1) * ptr_oam_dec_state->num_objects;
+  WORD32 obj_end_idx = ptr_oam_dec_state->sub_frame_number * ptr_oam_dec_state->num_objects;
   /* radius */
   maxval = 16.f;
   minval = 0.5f;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->radius_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->radius_descaled[n], minval), maxval);
@@ -84,7 +86,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* elevation */
   maxval = 90;
   minval = -90;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->elevation_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->elevation_descaled[n], minval), maxval);
@@ -92,7 +94,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* azimuth */
   maxval = 180;
   minval = -180;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->azimuth_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->azimuth_descaled[n], minval), maxval);
@@ -100,7 +102,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* gain */
   maxval = 5.957f;
   minval = 0.004f;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->gain_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->gain_descaled[n], minval), maxval);
@@ -108,7 +110,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* spread */
   maxval = 180;
   minval = 0;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->spread_width_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->spread_width_descaled[n], minval), maxval);
@@ -118,7 +120,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread depth */
     maxval = 15.5f;
     minval = 0.0f;
-    for (n = 0; n < num_elements; n++)
+    for (n = obj_start_idx; n < obj_end_idx; n++)
     {
       ptr_oam_dec_state->spread_depth_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_depth_descaled[n], minval), maxval);
@@ -126,7 +128,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread height */
     maxval = 90;
     minval = 0;
-    for (n = 0; n < num_elements; n++)
+    for (n = obj_start_idx; n < obj_end_idx; n++)
     {
       ptr_oam_dec_state->spread_height_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_height_descaled[n], minval), maxval);
@@ -135,7 +137,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* dynamic object priority */
   maxval = 7.0f;
   minval = 0.0f;
-  for (n = 0; n < num_elements; n++)
+  for (n = obj_start_idx; n < obj_end_idx; n++)
   {
     ptr_oam_dec_state->dyn_obj_priority_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->dyn_obj_priority_descaled[n], minval), maxval);
@@ -447,7 +449,7 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         ptr_oam_dec_state->spread_height[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
         ptr_oam_dec_state->spread_depth[obj_idx] =
-            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
+            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_DEPTH_BITS);
       }
       else
       {
@@ -457,13 +459,12 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
     }
     if (ptr_oam_dec_state->p_obj_md_cfg->dyn_obj_priority_present)
     {
-      if (!ptr_oam_dec_state->dynamic_obj_priority_fixed)
+      if (ptr_oam_dec_state->dynamic_obj_priority_fixed)
       {
         ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
       }
       else
       {
-        ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
         ptr_oam_dec_state->dyn_obj_priority[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_DYN_OBJ_PRI_BITS);
       }
@@ -630,7 +631,7 @@ static IA_ERRORCODE impeghd_ic_obj_md_ld_dec(ia_oam_dec_state_struct *ptr_oam_de
       if (ptr_oam_dec_state->p_obj_md_cfg->uniform_spread_present)
       {
         param_val = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_WIDTH_BITS);
-        for (i = 0; i < num_objects; i++)
+        for (i = obj_idx_start; i < obj_idx_end; i++)
         {
           ptr_oam_dec_state->spread_width[i] = param_val;
         }
@@ -742,7 +743,7 @@ IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_s
     for (i = obj_start_idx; i < obj_end_idx; i++)
     {
       WORD32 obj_md_present = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS);
-      ptr_oam_dec_state->has_obj_md[obj_start_idx] = obj_md_present;
+      ptr_oam_dec_state->has_obj_md[i] = obj_md_present;
       if (obj_md_present)
       {
         err_code = impeghd_single_dyn_obj_md(ptr_oam_dec_state, ptr_bit_buf, flag_absolute, i);
-- 
2.43.0


From 1e233a0e7dc15a73e32f98b1ee94354408f84a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 12/13] fix: HOA: refuse coefficients, directions, orders and
 gains outside the configuration's range

---
 decoder/impeghd_hoa_config.c     |  8 ++++++++
 decoder/impeghd_hoa_dec_struct.h |  2 +-
 decoder/impeghd_hoa_frame.c      | 25 +++++++++++++++++++++----
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_hoa_config.c b/decoder/impeghd_hoa_config.c
index d4fb296..55887b5 100644
--- a/decoder/impeghd_hoa_config.c
+++ b/decoder/impeghd_hoa_config.c
@@ -155,6 +155,10 @@ IA_ERRORCODE impeghd_fill_config(ia_bit_buf_struct *ptr_bit_buf,
       0, (WORD32)ptr_config_data->num_transport_ch - ptr_config_data->min_coeffs_for_amb);
   ptr_config_data->num_layers = 1;
   ptr_config_data->num_addnl_coders = offset;
+  if (offset > MAX_HOA_CHANNELS)
+  {
+    return IA_MPEGH_HOA_INIT_FATAL_INVALID_HOA_CHANNELS;
+  }
 
   ptr_config_data->is_single_layer = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
 
@@ -209,6 +213,10 @@ IA_ERRORCODE impeghd_fill_config(ia_bit_buf_struct *ptr_bit_buf,
 
     ptr_config_data->max_order_to_be_transmitted =
         ptr_config_data->diff_order + ptr_config_data->min_amb_order;
+    if (ptr_config_data->max_order_to_be_transmitted > ptr_config_data->order)
+    {
+      return IA_MPEGH_HOA_INIT_FATAL_INVALID_DIFF_ORDER;
+    }
   }
 
   ptr_config_data->max_num_of_coeffs_to_be_transmitted =
diff --git a/decoder/impeghd_hoa_dec_struct.h b/decoder/impeghd_hoa_dec_struct.h
index b7a206e..b20491d 100644
--- a/decoder/impeghd_hoa_dec_struct.h
+++ b/decoder/impeghd_hoa_dec_struct.h
@@ -42,7 +42,7 @@ typedef struct
   UWORD8 additional_info[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 non_transitional_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
-  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS];
+  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
   UWORD32 new_vec_channels[HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 additional_value[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 96b117d..d2b851d 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -177,6 +177,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
           ptr_frame_data->amb_coeff_transition_state[i] = 1;
           WORD32 coded_amb_coeff_idx =
               ia_core_coder_read_bits_buf(ptr_bit_buf, pstr_hoa_config->amb_asign_m_bits);
+          if (coded_amb_coeff_idx >= pstr_hoa_config->max_num_add_active_amb_coeffs)
+          {
+            return IA_MPEGH_HOA_INIT_FATAL_INVALID_AMB_COEF_IDX;
+          }
           ptr_frame_data->amb_coeff_idx[i] =
               coded_amb_coeff_idx + 1 + pstr_hoa_config->min_coeffs_for_amb;
         }
@@ -344,6 +348,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
     {
       coded_gain++;
     } while (!(ia_core_coder_read_bits_buf(ptr_bit_buf, 1)));
+    if (coded_gain > HOA_MAX_CODED_GAIN)
+    {
+      return IA_MPEGH_HOA_EXE_FATAL_INVALID_HOA_CODED_GAIN;
+    }
     ptr_frame_data->coded_gain_correction_exp[i] = coded_gain;
     ptr_frame_data->gain_correction_exception[i] = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   }
@@ -401,6 +409,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
           {
             WORD32 pred_id =
                 ia_core_coder_read_bits_buf(ptr_bit_buf, pstr_hoa_config->active_pred_ids_bits);
+            if (pred_id >= (WORD32)pstr_hoa_config->num_coeffs)
+            {
+              return IA_MPEGH_HOA_INIT_FATAL_INVALID_ACTIVE_DIRS_IDS;
+            }
             ptr_frame_data->active_pred[pred_id] = 1;
             i++;
           }
@@ -412,6 +424,11 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
         {
           ptr_frame_data->pred_dir_sig_ids[i] =
               ia_core_coder_read_bits_buf(ptr_bit_buf, pred_ids_bits);
+          if (ptr_frame_data->pred_dir_sig_ids[i] > ptr_frame_data->num_of_dir_sigs)
+          {
+            ptr_frame_data->pred_dir_sig_ids[i] = 0;
+            return IA_MPEGH_HOA_INIT_FATAL_INVALID_ACTIVE_DIRS_IDS;
+          }
           if (ptr_frame_data->pred_dir_sig_ids[i] > 0)
           {
             ptr_frame_data->pred_dir_sig_ids[i] =
@@ -519,7 +536,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (j = 0; j < (WORD32)ptr_frame_data->num_vvec_indices[sig_ch_idx]; j++)
     {
       /*ISO/IEC 23008-9 section 5.19.6*/
-      switch (ptr_frame_data->codebk_idx[j])
+      switch (ptr_frame_data->codebk_idx[sig_ch_idx])
       {
       case 0:
         if (ptr_frame_data->vvec_idx[j] > 900)
@@ -568,7 +585,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (vec_len = 0; vec_len < ptr_frame_data->v_vec_length_used; vec_len++, hoa_coeff_idx++)
     {
       if (!(ptr_frame_data->non_transitional_add_hoa_channels[hoa_coeff_idx] == 0) ||
-          ((ptr_frame_data->new_vec_channels[idx] == 1) &&
+          ((ptr_frame_data->new_vec_channels[sig_ch_idx] == 1) &&
            (ptr_frame_data->fade_in_add_hoa_channels[hoa_coeff_idx] == 1)))
       {
         ptr_frame_data->additional_info[idx][vec_len] = 0;
@@ -585,7 +602,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (vec_len = 0; vec_len < ptr_frame_data->v_vec_length_used; vec_len++, hoa_coeff_idx++)
     {
       if (!(ptr_frame_data->non_transitional_add_hoa_channels[hoa_coeff_idx] == 0) ||
-          ((ptr_frame_data->new_vec_channels[idx] == 1) &&
+          ((ptr_frame_data->new_vec_channels[sig_ch_idx] == 1) &&
            (ptr_frame_data->fade_in_add_hoa_channels[hoa_coeff_idx] == 1)))
       {
         vec_val = 128;
@@ -611,7 +628,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (vec_len = 0; vec_len < ptr_frame_data->v_vec_length_used; vec_len++, hoa_coeff_idx++)
     {
       if (!(ptr_frame_data->non_transitional_add_hoa_channels[hoa_coeff_idx] == 0) ||
-          ((ptr_frame_data->new_vec_channels[idx] == 1) &&
+          ((ptr_frame_data->new_vec_channels[sig_ch_idx] == 1) &&
            (ptr_frame_data->fade_in_add_hoa_channels[hoa_coeff_idx] == 1)))
       {
         ptr_frame_data->element_bitmask[sig_ch_idx][vec_len] = 0;
-- 
2.43.0


From 8fb2efc276853cbd2045bce18b0198e946d60cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 13/13] fix: interaction and local setup: every group checked
 and matched, errors reported, widths of distances, gains, wires and zoom, at
 most 24 loudspeakers

---
 decoder/impeghd_ele_interaction_intrfc.c | 43 +++++++++++++++---------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index 0c57052..b2546d0 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -107,6 +107,10 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
   UWORD32 ld_spk;
   UWORD32 num_loudspk = 0, has_loud_spk_dist = 0, has_loud_spk_calibration_gain = 0;
   num_loudspk = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
+  if (num_loudspk > MAX_NUM_CHANNELS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+  }
   err = impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
   if (err)
   {
@@ -140,7 +144,7 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
     }
     if (has_loud_spk_dist)
     {
-      pstr_local_setup_data->loud_spk_dist[ld_spk] = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
+      pstr_local_setup_data->loud_spk_dist[ld_spk] = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
 
       /*loudspeakerDistance shall not be 0*/
       if (pstr_local_setup_data->loud_spk_dist[ld_spk] == 0)
@@ -151,7 +155,7 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
     if (has_loud_spk_calibration_gain)
     {
       pstr_local_setup_data->loud_spk_calibration_gain[ld_spk] =
-          (FLOAT32)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
+          (FLOAT32)ia_core_coder_read_bits_buf(ptr_bit_buf, 7);
     }
   }
   pstr_local_setup_data->ext_dist_compensation = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
@@ -308,10 +312,10 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
                                                     ia_ele_intrctn *ptr_ele_intrctn,
                                                     ia_mae_audio_scene_info *str_mae_asi)
 {
-  WORD32 valid_id = 0;
   WORD32 num_grps = ptr_ele_intrctn->ei_num_groups;
   for (WORD32 grp = 0; grp < num_grps; grp++)
   {
+    WORD32 def_idx = -1;
     ptr_ele_intrctn->ei_grp_id[grp] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 7);
     if (str_mae_asi->asi_present)
     {
@@ -319,11 +323,11 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
       {
         if (str_mae_asi->group_definition[grp1].group_id == ptr_ele_intrctn->ei_grp_id[grp])
         {
-          valid_id++;
+          def_idx = grp1;
         }
       }
       /*ei_groupID shall contain a valid groupID (ID of a group defined in the bitstream)*/
-      if (!valid_id)
+      if (def_idx < 0)
       {
         return IA_MPEGH_EI_INIT_FATAL_INVALID_ID;
       }
@@ -337,7 +341,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
     else
     {
       ptr_ele_intrctn->route_to_wire_id[grp] =
-          (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
+          ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
     }
     if (ptr_ele_intrctn->ei_on_off[grp] == 1)
     {
@@ -347,7 +351,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
       corresponding
       group equals 1*/
       if (str_mae_asi->asi_present &&
-          ((str_mae_asi->group_definition[grp].allow_pos_interact == 1) &&
+          ((str_mae_asi->group_definition[def_idx].allow_pos_interact == 1) &&
            (!ptr_ele_intrctn->ei_change_pos[grp])))
       {
         return IA_MPEGH_EI_INIT_FATAL_INVALID_CHANGE_POSITION;
@@ -366,7 +370,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
       group equals 1*/
 
       if (str_mae_asi->asi_present &&
-          ((str_mae_asi->group_definition[grp].allow_gain_interact == 1) &&
+          ((str_mae_asi->group_definition[def_idx].allow_gain_interact == 1) &&
            (!ptr_ele_intrctn->ei_change_gain[grp])))
       {
         return IA_MPEGH_EI_INIT_FATAL_INVALID_CHANGE_GAIN;
@@ -397,6 +401,7 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
                                                  ia_ele_intrctn *ptr_ele_intrctn,
                                                  ia_mae_audio_scene_info *str_mae_asi)
 {
+  IA_ERRORCODE err_code;
   WORD32 valid_id = 0;
   ptr_ele_intrctn->ei_intrctn_mode = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
 
@@ -421,7 +426,7 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
     ptr_ele_intrctn->ei_group_preset_id = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 5);
     if (str_mae_asi->asi_present)
     {
-      for (WORD32 grp = 0; grp < str_mae_asi->num_groups; grp++)
+      for (WORD32 grp = 0; grp < str_mae_asi->num_group_presets; grp++)
       {
         if (str_mae_asi->group_presets_definition[grp].group_id ==
             ptr_ele_intrctn->ei_group_preset_id)
@@ -438,7 +443,11 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
     }
   }
 
-  impeghd_ei_grp_intrctvty_status(ptr_bit_buf, ptr_ele_intrctn, str_mae_asi);
+  err_code = impeghd_ei_grp_intrctvty_status(ptr_bit_buf, ptr_ele_intrctn, str_mae_asi);
+  if (err_code)
+  {
+    return err_code;
+  }
   ptr_ele_intrctn->ei_data_present = 1;
   return IA_MPEGH_DEC_NO_ERROR;
 }
@@ -458,10 +467,10 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
 static IA_ERRORCODE impeghd_lcl_zoom_area_size(ia_bit_buf_struct *ptr_bit_buf,
                                                ia_ele_intrctn *ptr_ele_intrctn)
 {
-  ptr_ele_intrctn->zoom_az_center = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
-  ptr_ele_intrctn->zoom_az = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
-  ptr_ele_intrctn->zoom_el_center = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 9);
-  ptr_ele_intrctn->zoom_el = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_az_center = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_az = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
+  ptr_ele_intrctn->zoom_el_center = ia_core_coder_read_bits_buf(ptr_bit_buf, 9);
+  ptr_ele_intrctn->zoom_el = ia_core_coder_read_bits_buf(ptr_bit_buf, 10);
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
@@ -571,7 +580,11 @@ IA_ERRORCODE impeghd_3da_local_setup_information(ia_bit_buf_struct *ptr_bit_buf,
     }
     break;
   case 0:
-    impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    err_code = impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err_code;
+    }
     impeghd_loud_spk_inv_quant(pstr_local_setup_data);
     break;
   }
-- 
2.43.0

