From e40d189dd58d6aee05070a9c8e23a670b8585a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 01/38] fix: do not dereference a missing access unit delimiter
 when dumping

---
 src/h265_nal_unit_payload_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_payload_parser.cc b/src/h265_nal_unit_payload_parser.cc
index ff5189f..e1b7a73 100644
--- a/src/h265_nal_unit_payload_parser.cc
+++ b/src/h265_nal_unit_payload_parser.cc
@@ -232,7 +232,9 @@ void H265NalUnitPayloadParser::NalUnitPayloadState::fdump(
       }
       break;
     case AUD_NUT:
-      aud->fdump(outfp, indent_level);
+      if (aud) {
+        aud->fdump(outfp, indent_level);
+      }
       break;
     case EOS_NUT:
       // end_of_seq_rbsp()
-- 
2.43.0


From 8b39aeffddb54ecc43053508fb205371f128f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 02/38] fix: reject a PPS whose multilayer extension cannot be
 parsed

---
 src/h265_pps_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index d33eb84..6ab8815 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -303,6 +303,9 @@ std::shared_ptr<H265PpsParser::PpsState> H265PpsParser::ParsePps(
     pps->pps_multilayer_extension =
         H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
             bit_buffer);
+    if (pps->pps_multilayer_extension == nullptr) {
+      return nullptr;
+    }
   }
 
   if (pps->pps_3d_extension_flag) {
-- 
2.43.0


From e8ef9d60126164ba86404e9ec919ae459db30608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 03/38] fix: dump diff_cu_qp_delta_depth instead of repeating
 cu_qp_delta_enabled_flag

---
 src/h265_pps_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index 6ab8815..e5c534f 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -393,7 +393,7 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
 
   if (cu_qp_delta_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "cu_qp_delta_enabled_flag: %i", cu_qp_delta_enabled_flag);
+    fprintf(outfp, "diff_cu_qp_delta_depth: %i", diff_cu_qp_delta_depth);
   }
 
   fdump_indent_level(outfp, indent_level);
-- 
2.43.0


From 751e212543f28539e5aa2efe2e2b3a1763457114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 04/38] fix: skip unparseable NAL units when dumping a
 configuration box

---
 src/h265_configuration_box_parser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/h265_configuration_box_parser.cc b/src/h265_configuration_box_parser.cc
index 2031427..a836cac 100644
--- a/src/h265_configuration_box_parser.cc
+++ b/src/h265_configuration_box_parser.cc
@@ -359,8 +359,10 @@ void H265ConfigurationBoxParser::ConfigurationBoxState::fdump(
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "nalUnitLength[%i][%i]: %i", j, i, nalUnitLength[j][i]);
 
-      fdump_indent_level(outfp, indent_level);
-      nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      if (nalUnit[j][i]) {
+        fdump_indent_level(outfp, indent_level);
+        nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      }
     }
   }
 
-- 
2.43.0


From 79fb864a424748b622c9474e4cb0d18b5a373bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 05/38] fix: do not dump a checksum that was not computed at
 parse time

---
 src/h265_nal_unit_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_parser.cc b/src/h265_nal_unit_parser.cc
index c6f35bf..15b2530 100644
--- a/src/h265_nal_unit_parser.cc
+++ b/src/h265_nal_unit_parser.cc
@@ -108,7 +108,7 @@ void H265NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From b9276e6f4abee4aa4795e4a32464aaea14198f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 06/38] fix: avoid size_t wrap-around in the NAL unit length
 check

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 7cea4b2..54c615e 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -216,7 +216,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From 038797c928998a2f164e98f6a6dff32cf89bea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 07/38] fix: report the NAL unit length for length-prefixed
 bitstreams

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 54c615e..ef34cb7 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -237,7 +237,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From dc0156679146507d4d3c781b6a6ab1dbbdec1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 08/38] fix: stop the NALU checksum loop when no full byte can
 be read

---
 src/h265_common.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 2a2a3e4..533aee5 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -692,7 +692,9 @@ std::shared_ptr<NaluChecksum> NaluChecksum::GetNaluChecksum(
   uint8_t val8 = 0;
   val = 0;
   while (bit_buffer->RemainingBitCount() > 0) {
-    (void)bit_buffer->ReadUInt8(val8);
+    if (!bit_buffer->ReadUInt8(val8)) {
+      break;
+    }
     val |= (static_cast<uint32_t>(val8) << (8 * (3 - i)));
     i += 1;
   }
-- 
2.43.0


From 8b84c692de39f9423f48229808e4f0e52df0acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 09/38] fix: read cprms_present_flag as u(1) and infer 1 for
 the first entry

---
 src/h265_vps_parser.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index b1700a6..ad9aac3 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -225,12 +225,14 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
 
       if (i > 0) {
         // cprms_present_flag[i]  u(1)
-        if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
+        if (!bit_buffer->ReadBits(1, bits_tmp)) {
           return nullptr;
         }
-        vps->cprms_present_flag.push_back(golomb_tmp);
+        vps->cprms_present_flag.push_back(bits_tmp);
       } else {
-        vps->cprms_present_flag.push_back(0);
+        // "When not present, the value of cprms_present_flag[0] is inferred
+        // to be equal to 1."
+        vps->cprms_present_flag.push_back(1);
       }
 
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
-- 
2.43.0


From c91d5f87558abce5a84d91b01e449ed50a6fd3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 10/38] fix: check picture size against MinCbSizeY once it is
 known

---
 src/h265_sps_parser.cc | 52 ++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index abe707d..cdf8ec7 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -123,19 +123,6 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  // Rec. ITU-T H.265 v5 (02/2018) Page 78
-  // "pic_width_in_luma_samples shall not be equal to 0 and shall be an
-  // integer multiple of MinCbSizeY."
-  uint32_t MinCbSizeY = sps->getMinCbSizeY();
-  if ((sps->pic_width_in_luma_samples == 0) ||
-      ((MinCbSizeY * (sps->pic_width_in_luma_samples / MinCbSizeY)) !=
-       sps->pic_width_in_luma_samples)) {
-#ifdef FPRINT_ERRORS
-    fprintf(stderr, "error: invalid sps->pic_width_in_luma_samples: %i\n",
-            sps->pic_width_in_luma_samples);
-#endif  // FPRINT_ERRORS
-    return nullptr;
-  }
 
   // pic_height_in_luma_samples  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(sps->pic_height_in_luma_samples)) {
@@ -153,18 +140,6 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  // Rec. ITU-T H.265 v5 (02/2018) Page 78
-  // "pic_height_in_luma_samples shall not be equal to 0 and shall be an
-  // integer multiple of MinCbSizeY."
-  if ((sps->pic_height_in_luma_samples == 0) ||
-      ((MinCbSizeY * (sps->pic_height_in_luma_samples / MinCbSizeY)) !=
-       sps->pic_height_in_luma_samples)) {
-#ifdef FPRINT_ERRORS
-    fprintf(stderr, "error: invalid sps->pic_height_in_luma_samples: %i\n",
-            sps->pic_height_in_luma_samples);
-#endif  // FPRINT_ERRORS
-    return nullptr;
-  }
 
   // conformance_window_flag  u(1)
   if (!bit_buffer->ReadBits(1, sps->conformance_window_flag)) {
@@ -323,6 +298,33 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
     return nullptr;
   }
 
+  // Rec. ITU-T H.265 v5 (02/2018) Page 78
+  // "pic_width_in_luma_samples shall not be equal to 0 and shall be an
+  // integer multiple of MinCbSizeY."
+  uint32_t MinCbSizeY = sps->getMinCbSizeY();
+  if ((sps->pic_width_in_luma_samples == 0) ||
+      ((MinCbSizeY * (sps->pic_width_in_luma_samples / MinCbSizeY)) !=
+       sps->pic_width_in_luma_samples)) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr, "error: invalid sps->pic_width_in_luma_samples: %i\n",
+            sps->pic_width_in_luma_samples);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
+
+  // Rec. ITU-T H.265 v5 (02/2018) Page 78
+  // "pic_height_in_luma_samples shall not be equal to 0 and shall be an
+  // integer multiple of MinCbSizeY."
+  if ((sps->pic_height_in_luma_samples == 0) ||
+      ((MinCbSizeY * (sps->pic_height_in_luma_samples / MinCbSizeY)) !=
+       sps->pic_height_in_luma_samples)) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr, "error: invalid sps->pic_height_in_luma_samples: %i\n",
+            sps->pic_height_in_luma_samples);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
+
   // log2_diff_max_min_luma_coding_block_size  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(
           sps->log2_diff_max_min_luma_coding_block_size)) {
-- 
2.43.0


From 787d7dab7b5b30680de5f6e90dd1e71e1c52f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 11/38] fix: infer fixed_pic_rate_within_cvs_flag as 1 for
 fixed-rate sub-layers

---
 src/h265_hrd_parameters_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 53c9bc5..79a7927 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -144,7 +144,9 @@ H265HrdParametersParser::ParseHrdParameters(
       }
       hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(bits_tmp);
     } else {
-      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(0);
+      // "When fixed_pic_rate_general_flag[i] is equal to 1, the value of
+      // fixed_pic_rate_within_cvs_flag[i] is inferred to be equal to 1."
+      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(1);
     }
 
     if (hrd_parameters->fixed_pic_rate_within_cvs_flag[i]) {
-- 
2.43.0


From f52d06965dc02bc20391b476a7f3fb8724cf9cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 12/38] fix: read sub_layer_level_idc when the level present
 flag is set

---
 src/h265_profile_tier_level_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_profile_tier_level_parser.cc b/src/h265_profile_tier_level_parser.cc
index 1333480..9b9e6ea 100644
--- a/src/h265_profile_tier_level_parser.cc
+++ b/src/h265_profile_tier_level_parser.cc
@@ -92,7 +92,7 @@ H265ProfileTierLevelParser::ParseProfileTierLevel(
       }
     }
 
-    if (profile_tier_level->sub_layer_profile_present_flag[i]) {
+    if (profile_tier_level->sub_layer_level_present_flag[i]) {
       // sub_layer_level_idc  u(8)
       if (!bit_buffer->ReadBits(8, bits_tmp)) {
         return nullptr;
-- 
2.43.0


From 470833596789c295cde7cd2c284974b540da0827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 13/38] fix: derive ChromaArrayType for every independent slice
 segment

---
 src/h265_slice_parser.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 2d28f89..b5e4405 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -353,6 +353,19 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // Depending on the value of separate_colour_plane_flag, the value of
+    // the variable ChromaArrayType is assigned as follows:
+    // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
+    //   set equal to chroma_format_idc.
+    // - Otherwise (separate_colour_plane_flag is equal to 1),
+    //   ChromaArrayType is set equal to 0.
+    uint32_t chroma_format_idc = sps->chroma_format_idc;
+    if (slice_segment_header->separate_colour_plane_flag == 0) {
+      slice_segment_header->ChromaArrayType = chroma_format_idc;
+    } else {
+      slice_segment_header->ChromaArrayType = 0;
+    }
+
     slice_segment_header->sample_adaptive_offset_enabled_flag =
         sps->sample_adaptive_offset_enabled_flag;
     if (slice_segment_header->sample_adaptive_offset_enabled_flag) {
@@ -361,19 +374,6 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         return nullptr;
       }
 
-      // Depending on the value of separate_colour_plane_flag, the value of
-      // the variable ChromaArrayType is assigned as follows:
-      // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
-      //   set equal to chroma_format_idc.
-      // - Otherwise (separate_colour_plane_flag is equal to 1),
-      //   ChromaArrayType is set equal to 0.
-      uint32_t chroma_format_idc = sps->chroma_format_idc;
-      if (slice_segment_header->separate_colour_plane_flag == 0) {
-        slice_segment_header->ChromaArrayType = chroma_format_idc;
-      } else {
-        slice_segment_header->ChromaArrayType = 0;
-      }
-
       if (slice_segment_header->ChromaArrayType != 0) {
         // slice_sao_chroma_flag  u(1)
         if (!bit_buffer->ReadBits(
-- 
2.43.0


From 1ffb634b91f83f86885e9901b3b3d9c8fd1a2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 14/38] fix: infer the active reference counts from the PPS
 defaults

---
 src/h265_slice_parser.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index b5e4405..ccf853f 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -391,6 +391,15 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         return nullptr;
       }
 
+      // "When the current slice is a P or B slice and num_ref_idx_l0_active_minus1
+      // is not present, num_ref_idx_l0_active_minus1 is inferred to be equal to
+      // num_ref_idx_l0_default_active_minus1." (same for l1 in B slices)
+      slice_segment_header->num_ref_idx_l0_active_minus1 =
+          pps->num_ref_idx_l0_default_active_minus1;
+      if (slice_segment_header->slice_type == SliceType_B) {
+        slice_segment_header->num_ref_idx_l1_active_minus1 =
+            pps->num_ref_idx_l1_default_active_minus1;
+      }
       if (slice_segment_header->num_ref_idx_active_override_flag) {
         // num_ref_idx_l0_active_minus1  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
-- 
2.43.0


From 9d6fc637c0b7cb84836e2baf951d8686642898a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 15/38] fix: infer slice_deblocking_filter_disabled_flag from
 the PPS

---
 src/h265_slice_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index ccf853f..cc49d54 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -573,6 +573,10 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // "When not present, the value of slice_deblocking_filter_disabled_flag is
+    // inferred to be equal to pps_deblocking_filter_disabled_flag."
+    slice_segment_header->slice_deblocking_filter_disabled_flag =
+        pps->pps_deblocking_filter_disabled_flag;
     if (slice_segment_header->deblocking_filter_override_flag) {
       // slice_deblocking_filter_disabled_flag  u(1)
       if (!bit_buffer->ReadBits(
-- 
2.43.0


From fdf8667806cc84ae04b307374aed83f11fbb1f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 16/38] fix: allow all entry points when tiles and WPP are both
 enabled

---
 src/h265_slice_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index cc49d54..fad1d97 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -715,7 +715,7 @@ bool H265SliceSegmentHeaderParser::SliceSegmentHeaderState::
   // ( num_tile_columns_minus1 + 1 ) * PicHeightInCtbsY - 1, inclusive.
   if (tiles_enabled_flag == 1 && entropy_coding_sync_enabled_flag == 1) {
     uint32_t max_num_entry_point_offsets =
-        ((pps->num_tile_columns_minus1 + 1) * (sps->getPicHeightInCtbsY() - 1));
+        ((pps->num_tile_columns_minus1 + 1) * sps->getPicHeightInCtbsY() - 1);
     return (num_entry_point_offsets_value <= max_num_entry_point_offsets);
   }
 
-- 
2.43.0


From 99de38a46479899e975291277b75ccb5c99dfcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 17/38] fix: read chroma_bit_depth_entry_minus8 for
 non-monochrome palettes

---
 src/h265_pps_scc_extension_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index 9fcb347..e5819ac 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -104,7 +104,7 @@ H265PpsSccExtensionParser::ParsePpsSccExtension(
         return nullptr;
       }
 
-      if (pps_scc_extension->monochrome_palette_flag) {
+      if (!pps_scc_extension->monochrome_palette_flag) {
         // chroma_bit_depth_entry_minus8  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
                 pps_scc_extension->chroma_bit_depth_entry_minus8)) {
-- 
2.43.0


From 5a7190eb6e0bd07e13633a8da655abc7362591be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 18/38] fix: size pre_lut_target_value from the output bit
 depth

---
 src/h265_sei_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_sei_parser.cc b/src/h265_sei_parser.cc
index 96e36c4..f54d21d 100644
--- a/src/h265_sei_parser.cc
+++ b/src/h265_sei_parser.cc
@@ -539,8 +539,10 @@ H265SeiColourRemappingInfoParser::parse_payload(BitBuffer* bit_buffer,
           // pre_lut_target_value[c][i]  u(v)
           // The number of bits used to represent pre_lut_target_value[c][i]
           // is ((colour_remap_output_bit_depth + 7) >> 3) << 3
+          uint32_t target_bit_depth_used = static_cast<uint32_t>(
+              ((payload_state->colour_remap_output_bit_depth + 7) >> 3) << 3);
           uint32_t target_value;
-          if (!bit_buffer->ReadBits(bit_depth_used, target_value)) {
+          if (!bit_buffer->ReadBits(target_bit_depth_used, target_value)) {
             return nullptr;
           }
           payload_state->pre_lut_target_value[c].push_back(target_value);
-- 
2.43.0


From 61fdaabdef4307fa3db4ebe4b18653f9c1f9cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 19/38] fix: parse the PPS multilayer resampling phases as
 ue(v)

---
 src/h265_pps_multilayer_extension_parser.cc | 29 ++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/h265_pps_multilayer_extension_parser.cc b/src/h265_pps_multilayer_extension_parser.cc
index 5449234..495f865 100644
--- a/src/h265_pps_multilayer_extension_parser.cc
+++ b/src/h265_pps_multilayer_extension_parser.cc
@@ -33,6 +33,7 @@ std::unique_ptr<H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState>
 H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
     BitBuffer* bit_buffer) noexcept {
   uint32_t bits_tmp;
+  uint32_t golomb_tmp;
   int32_t sgolomb_tmp;
 
   // H265 pps_multilayer_extension() NAL Unit.
@@ -153,29 +154,33 @@ H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
         bits_tmp);
 
     if (pps_multilayer_extension->resample_phase_set_present_flag.back()) {
-      // phase_hor_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_luma.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_ver_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_luma.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(
+          static_cast<int32_t>(golomb_tmp));
     }
   }
 
-- 
2.43.0


From 05368cbad8b8c9d23cfac4a1baf0bd8a30277d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 20/38] fix: decode large positive signed exp-golomb values

---
 src/rtc_common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 970852c..caf874f 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -273,7 +273,7 @@ bool BitBuffer::ReadSignedExponentialGolomb(int32_t& val) {
   if ((unsigned_val & 1) == 0) {
     val = -static_cast<int32_t>(unsigned_val / 2);
   } else {
-    val = (static_cast<int32_t>(unsigned_val) + 1) / 2;
+    val = static_cast<int32_t>(unsigned_val / 2) + 1;
   }
   return true;
 }
-- 
2.43.0


From c3aee3060053b78a627365b85cf7842ae6f86c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 21/38] fix: check that SEI user data fits in the buffer before
 allocating it

---
 src/h265_sei_parser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/h265_sei_parser.cc b/src/h265_sei_parser.cc
index f54d21d..cac8b25 100644
--- a/src/h265_sei_parser.cc
+++ b/src/h265_sei_parser.cc
@@ -146,6 +146,10 @@ H265SeiUserDataRegisteredItuTT35Parser::parse_payload(BitBuffer* bit_buffer,
     remaining_payload_size--;
   }
 
+  // make sure the payload fits in the remaining buffer
+  if (remaining_payload_size > bit_buffer->RemainingBitCount() / 8) {
+    return nullptr;
+  }
   payload_state->payload.resize(remaining_payload_size);
   for (size_t i = 0; i < payload_state->payload.size(); ++i) {
     // itu_t_t35_payload_byte  b(8)
@@ -193,6 +197,10 @@ H265SeiUserDataUnregisteredParser::parse_payload(BitBuffer* bit_buffer,
 
   remaining_payload_size -= 16;
 
+  // make sure the payload fits in the remaining buffer
+  if (remaining_payload_size > bit_buffer->RemainingBitCount() / 8) {
+    return nullptr;
+  }
   payload_state->payload.resize(remaining_payload_size);
   for (size_t i = 0; i < payload_state->payload.size(); ++i) {
     // user_data_payload_byte  b(8)
@@ -779,6 +787,10 @@ H265SeiUnknownParser::parse_payload(BitBuffer* bit_buffer,
     return nullptr;
   }
   auto payload_state = std::make_unique<H265SeiUnknownState>();
+  // make sure the payload fits in the remaining buffer
+  if (remaining_payload_size > bit_buffer->RemainingBitCount() / 8) {
+    return nullptr;
+  }
   payload_state->payload.resize(remaining_payload_size);
   for (size_t i = 0; i < payload_state->payload.size(); ++i) {
     if (!bit_buffer->ReadUInt8(payload_state->payload[i])) {
-- 
2.43.0


From 09647611852167c1ebf2597373a4cda18ff76bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 22/38] fix: compute scaling list coefficients without signed
 overflow

---
 src/h265_scaling_list_data_parser.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/h265_scaling_list_data_parser.cc b/src/h265_scaling_list_data_parser.cc
index e03a3ec..0ac4c55 100644
--- a/src/h265_scaling_list_data_parser.cc
+++ b/src/h265_scaling_list_data_parser.cc
@@ -83,9 +83,10 @@ H265ScalingListDataParser::ParseScalingListData(
             return nullptr;
           }
           nextCoef = static_cast<uint32_t>(
-              scaling_list_data
-                  ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] +
-              8);
+                         scaling_list_data
+                             ->scaling_list_dc_coef_minus8[sizeId - 2]
+                                                          [matrixId]) +
+                     8;
         }
         for (uint32_t i = 0; i < coefNum; i++) {
           // scaling_list_delta_coef  se(v)
@@ -94,8 +95,8 @@ H265ScalingListDataParser::ParseScalingListData(
                   scaling_list_delta_coef)) {
             return nullptr;
           }
-          nextCoef = static_cast<uint32_t>(static_cast<int32_t>(nextCoef) +
-                                           scaling_list_delta_coef + 256) %
+          nextCoef = (nextCoef +
+                      static_cast<uint32_t>(scaling_list_delta_coef) + 256) %
                      256;
           scaling_list_data->ScalingList[sizeId][matrixId].push_back(nextCoef);
         }
-- 
2.43.0


From c924e594260a66430a3b9ab3d616a244a5d01ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 23/38] fix: enforce the range of delta_poc_s0_minus1 and
 delta_poc_s1_minus1

---
 include/h265_st_ref_pic_set_parser.h |  3 +++
 src/h265_st_ref_pic_set_parser.cc    | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/h265_st_ref_pic_set_parser.h b/include/h265_st_ref_pic_set_parser.h
index 9622390..ec76382 100644
--- a/include/h265_st_ref_pic_set_parser.h
+++ b/include/h265_st_ref_pic_set_parser.h
@@ -25,6 +25,9 @@ class H265StRefPicSetParser {
   // of 0 to 2^15 - 1, inclusive."
   const static uint32_t kAbsDeltaRpsMinus1Min = 0;
   const static uint32_t kAbsDeltaRpsMinus1Max = 32767;
+  // Section 7.4.8: "The value of delta_poc_s0_minus1[i] [and
+  // delta_poc_s1_minus1[i]] shall be in the range of 0 to 2^15 - 1, inclusive."
+  const static uint32_t kDeltaPocMinus1Max = 32767;
   // Section 7.4.8: "When nuh_layer_id of the current picture is equal to 0,
   // the value of num_negative_pics shall be in the range of 0 to
   // sps_max_dec_pic_buffering_minus1[sps_max_sub_layers_minus1],
diff --git a/src/h265_st_ref_pic_set_parser.cc b/src/h265_st_ref_pic_set_parser.cc
index f530776..7d654c3 100644
--- a/src/h265_st_ref_pic_set_parser.cc
+++ b/src/h265_st_ref_pic_set_parser.cc
@@ -317,6 +317,15 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+#ifdef FPRINT_ERRORS
+        fprintf(stderr,
+                "invalid delta_poc_s0_minus1: %" PRIu32
+                " not in range [0, %" PRIu32 "]\n",
+                golomb_tmp, kDeltaPocMinus1Max);
+#endif  // FPRINT_ERRORS
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s0_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s0_flag[i] u(1)
@@ -331,6 +340,15 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+#ifdef FPRINT_ERRORS
+        fprintf(stderr,
+                "invalid delta_poc_s1_minus1: %" PRIu32
+                " not in range [0, %" PRIu32 "]\n",
+                golomb_tmp, kDeltaPocMinus1Max);
+#endif  // FPRINT_ERRORS
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s1_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s1_flag[i] u(1)
-- 
2.43.0


From d6c104345eb0efabadb1eaf9432793103768b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 24/38] fix: avoid signed overflow computing the slice QP

---
 src/h265_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index cf67820..285c63f 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -69,7 +69,8 @@ std::unique_ptr<int32_t> GetSliceQpYInternal(
   const auto init_qp_minus26 = pps->init_qp_minus26;
 
   // Equation 7-54, Section 7.4.7.1
-  int32_t slice_qpy = 26 + init_qp_minus26 + slice_qp_delta;
+  int32_t slice_qpy = static_cast<int32_t>(
+      26 + static_cast<int64_t>(init_qp_minus26) + slice_qp_delta);
 
   return std::make_unique<int32_t>(slice_qpy);
 }
-- 
2.43.0


From a12766ed0acff343e7413f960133a6f8f5d1b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 25/38] fix: handle an aggregation packet without NAL units

---
 src/h265_utils.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 285c63f..3340f71 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -90,6 +90,9 @@ std::unique_ptr<int32_t> H265Utils::GetSliceQpY(
     payload = &rtp->rtp_single->nal_unit_payload;
   } else if (rtp->nal_unit_header->nal_unit_type == AP) {
     // use the latest NAL unit in the AP
+    if (rtp->rtp_ap->nal_unit_headers.empty()) {
+      return nullptr;
+    }
     size_t index = rtp->rtp_ap->nal_unit_headers.size() - 1;
     auto& header = rtp->rtp_ap->nal_unit_headers[index];
     nal_unit_type = header->nal_unit_type;
-- 
2.43.0


From 3133d3007703ffe4c08f80e573bba11fc21cf6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 26/38] fix: do not dereference a missing slice header in
 --dump-length

---
 tools/h265nal.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index d88a4ab..b9e5b42 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -504,7 +504,10 @@ int main(int argc, char** argv) {
         uint32_t first_slice_segment_in_pic_flag = 0;
         uint32_t slice_segment_address = 0;
         uint32_t slice_pic_order_cnt_lsb = 0;
-        bool is_slice_segment = h265nal::IsSliceSegment(nal_unit_type);
+        // the slice segment layer may be missing (if it could not be parsed)
+        bool is_slice_segment =
+            h265nal::IsSliceSegment(nal_unit_type) &&
+            nal_unit->nal_unit_payload->slice_segment_layer != nullptr;
         if (is_slice_segment) {
           first_slice_segment_in_pic_flag =
               nal_unit->nal_unit_payload->slice_segment_layer
-- 
2.43.0


From 9302783f727523fbd517c6120218b1d55dcec9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 27/38] fix: accept the documented --nalu-length-bytes -1

---
 tools/h265nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index b9e5b42..f228b0a 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -299,7 +299,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || *end != '\0' || val < -1 || val > INT_MAX) {
           fprintf(stderr, "error: invalid nalu_length_bytes: %s\n", optarg);
           return -1;
         }
-- 
2.43.0


From a9e341bad6a7ed93a341557711c9f39d52b26113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 28/38] fix: build the command line tool in the small footprint
 configuration

---
 tools/h265nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index f228b0a..39127dd 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -554,12 +554,12 @@ int main(int argc, char** argv) {
       }
     }
   }
-#endif  // FDUMP_DEFINE
 
   // clean-up FD
   if (must_close_fp) {
     fclose(outfp);
   }
+#endif  // FDUMP_DEFINE
 
   return 0;
 }
-- 
2.43.0


From 22c08a6ef07ff87ddecc075a2eb261f67ff0f295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 29/38] fix: name the High Throughput profile

---
 src/h265_common.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 533aee5..6153156 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -311,6 +311,10 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       str = "FRExt";
       break;
 
+    case HIGH_THROUGHPUT:
+      str = "High Throughput";
+      break;
+
     case MULTIVIEW_MAIN:
       str = "Multiview Main";
       break;
-- 
2.43.0


From b021ea137202c56c4f100fe16502907fd04ed58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 30/38] fix: MAIN_444_10_STILL_PICTURE is a 10-bit profile

---
 src/h265_common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 6153156..9ece6df 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -503,7 +503,7 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       break;
 
     case MAIN_444_10_STILL_PICTURE:
-      str = "Main (8-bit) 4:4:4 Still Picture";
+      str = "Main 4:4:4 10 Still Picture";
       break;
 
     default:
-- 
2.43.0


From 786ea37d292c6fa18f7ec0f2acc3903df0f60b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:45 +0000
Subject: [PATCH 31/38] fix: restore the position after a failed exp-Golomb
 read in NDEBUG builds

---
 src/rtc_common.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index caf874f..d0e2b78 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -258,7 +258,10 @@ bool BitBuffer::ReadExponentialGolomb(uint32_t& val) {
   // read the value.
   size_t value_bit_count = zero_bit_count + 1;
   if (value_bit_count > 32 || !ReadBits(value_bit_count, val)) {
-    RTC_CHECK(Seek(original_byte_offset, original_bit_offset));
+    // Do not call Seek() inside the check, which is empty in NDEBUG builds.
+    bool restored = Seek(original_byte_offset, original_bit_offset);
+    (void)restored;
+    RTC_CHECK(restored);
     return false;
   }
   val -= 1;
-- 
2.43.0


From 2acac751f4ee1c6c3f1db4f6e253ac0aa75fb48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 32/38] fix: print unsigned elements that can exceed INT32_MAX
 as unsigned in the dumps

---
 src/h265_hrd_parameters_parser.cc           |  4 ++--
 src/h265_pps_multilayer_extension_parser.cc |  2 +-
 src/h265_pps_parser.cc                      | 20 ++++++++---------
 src/h265_pps_scc_extension_parser.cc        |  8 +++----
 src/h265_pred_weight_table_parser.cc        |  2 +-
 src/h265_scaling_list_data_parser.cc        |  2 +-
 src/h265_slice_parser.cc                    | 24 ++++++++++-----------
 src/h265_sps_3d_extension_parser.cc         |  4 ++--
 src/h265_sps_parser.cc                      | 16 +++++++-------
 src/h265_st_ref_pic_set_parser.cc           |  4 ++--
 src/h265_sub_layer_hrd_parameters_parser.cc |  8 +++----
 src/h265_vps_parser.cc                      | 14 ++++++------
 src/h265_vui_parameters_parser.cc           |  6 +++---
 13 files changed, 57 insertions(+), 57 deletions(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 79a7927..3d77d0a 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -291,7 +291,7 @@ void H265HrdParametersParser::HrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "elemental_duration_in_tc_minus1 {");
   for (const uint32_t& v : elemental_duration_in_tc_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
@@ -305,7 +305,7 @@ void H265HrdParametersParser::HrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_cnt_minus1 {");
   for (const uint32_t& v : cpb_cnt_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
diff --git a/src/h265_pps_multilayer_extension_parser.cc b/src/h265_pps_multilayer_extension_parser.cc
index 495f865..f5b4869 100644
--- a/src/h265_pps_multilayer_extension_parser.cc
+++ b/src/h265_pps_multilayer_extension_parser.cc
@@ -225,7 +225,7 @@ void H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState::fdump(
   }
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "num_ref_loc_offsets: %i", num_ref_loc_offsets);
+  fprintf(outfp, "num_ref_loc_offsets: %u", num_ref_loc_offsets);
 
   if (num_ref_loc_offsets > 0) {
     fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index e5c534f..cb7d5d8 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -346,10 +346,10 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
   indent_level = indent_level_incr(indent_level);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "pps_pic_parameter_set_id: %i", pps_pic_parameter_set_id);
+  fprintf(outfp, "pps_pic_parameter_set_id: %u", pps_pic_parameter_set_id);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "pps_seq_parameter_set_id: %i", pps_seq_parameter_set_id);
+  fprintf(outfp, "pps_seq_parameter_set_id: %u", pps_seq_parameter_set_id);
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "dependent_slice_segments_enabled_flag: %i",
@@ -370,11 +370,11 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
   fprintf(outfp, "cabac_init_present_flag: %i", cabac_init_present_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "num_ref_idx_l0_default_active_minus1: %i",
+  fprintf(outfp, "num_ref_idx_l0_default_active_minus1: %u",
           num_ref_idx_l0_default_active_minus1);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "num_ref_idx_l1_default_active_minus1: %i",
+  fprintf(outfp, "num_ref_idx_l1_default_active_minus1: %u",
           num_ref_idx_l1_default_active_minus1);
 
   fdump_indent_level(outfp, indent_level);
@@ -393,7 +393,7 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
 
   if (cu_qp_delta_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "diff_cu_qp_delta_depth: %i", diff_cu_qp_delta_depth);
+    fprintf(outfp, "diff_cu_qp_delta_depth: %u", diff_cu_qp_delta_depth);
   }
 
   fdump_indent_level(outfp, indent_level);
@@ -425,10 +425,10 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
 
   if (tiles_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "num_tile_columns_minus1: %i", num_tile_columns_minus1);
+    fprintf(outfp, "num_tile_columns_minus1: %u", num_tile_columns_minus1);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "num_tile_rows_minus1: %i", num_tile_rows_minus1);
+    fprintf(outfp, "num_tile_rows_minus1: %u", num_tile_rows_minus1);
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "uniform_spacing_flag: %i", uniform_spacing_flag);
@@ -437,14 +437,14 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "column_width_minus1 {");
       for (const uint32_t& v : column_width_minus1) {
-        fprintf(outfp, " %i", v);
+        fprintf(outfp, " %u", v);
       }
       fprintf(outfp, " }");
 
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "row_height_minus1 {");
       for (const uint32_t& v : row_height_minus1) {
-        fprintf(outfp, " %i", v);
+        fprintf(outfp, " %u", v);
       }
       fprintf(outfp, " }");
     }
@@ -494,7 +494,7 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
           lists_modification_present_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "log2_parallel_merge_level_minus2: %i",
+  fprintf(outfp, "log2_parallel_merge_level_minus2: %u",
           log2_parallel_merge_level_minus2);
 
   fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index e5819ac..fdcc97b 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -191,7 +191,7 @@ void H265PpsSccExtensionParser::PpsSccExtensionState::fdump(
 
   if (pps_palette_predictor_initializer_present_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "pps_num_palette_predictor_initializer: %i",
+    fprintf(outfp, "pps_num_palette_predictor_initializer: %u",
             pps_num_palette_predictor_initializer);
 
     if (pps_num_palette_predictor_initializer > 0) {
@@ -199,12 +199,12 @@ void H265PpsSccExtensionParser::PpsSccExtensionState::fdump(
       fprintf(outfp, "monochrome_palette_flag: %i", monochrome_palette_flag);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "luma_bit_depth_entry_minus8: %i",
+      fprintf(outfp, "luma_bit_depth_entry_minus8: %u",
               luma_bit_depth_entry_minus8);
 
       if (!monochrome_palette_flag) {
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "chroma_bit_depth_entry_minus8: %i",
+        fprintf(outfp, "chroma_bit_depth_entry_minus8: %u",
                 chroma_bit_depth_entry_minus8);
       }
 
@@ -214,7 +214,7 @@ void H265PpsSccExtensionParser::PpsSccExtensionState::fdump(
            pps_palette_predictor_initializers) {
         fprintf(outfp, " {");
         for (const uint32_t& v : vv) {
-          fprintf(outfp, " %i", v);
+          fprintf(outfp, " %u", v);
         }
         fprintf(outfp, " }");
       }
diff --git a/src/h265_pred_weight_table_parser.cc b/src/h265_pred_weight_table_parser.cc
index bff9207..ad918b5 100644
--- a/src/h265_pred_weight_table_parser.cc
+++ b/src/h265_pred_weight_table_parser.cc
@@ -131,7 +131,7 @@ void H265PredWeightTableParser::PredWeightTableState::fdump(
   indent_level = indent_level_incr(indent_level);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "luma_log2_weight_denom: %i", luma_log2_weight_denom);
+  fprintf(outfp, "luma_log2_weight_denom: %u", luma_log2_weight_denom);
 
   if (ChromaArrayType != 0) {
     fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_scaling_list_data_parser.cc b/src/h265_scaling_list_data_parser.cc
index 0ac4c55..331c88d 100644
--- a/src/h265_scaling_list_data_parser.cc
+++ b/src/h265_scaling_list_data_parser.cc
@@ -129,7 +129,7 @@ void H265ScalingListDataParser::ScalingListDataState::fdump(
   for (const std::vector<uint32_t>& vv : scaling_list_pred_matrix_id_delta) {
     fprintf(outfp, " {");
     for (const uint32_t& v : vv) {
-      fprintf(outfp, " %i", v);
+      fprintf(outfp, " %u", v);
     }
     fprintf(outfp, " }");
   }
diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index fad1d97..c83ec08 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -740,7 +740,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
           no_output_of_prior_pics_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "slice_pic_parameter_set_id: %i", slice_pic_parameter_set_id);
+  fprintf(outfp, "slice_pic_parameter_set_id: %u", slice_pic_parameter_set_id);
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "dependent_slice_segment_flag: %i",
@@ -758,7 +758,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
     fprintf(outfp, " }");
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "slice_type: %i", slice_type);
+    fprintf(outfp, "slice_type: %u", slice_type);
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "pic_output_flag: %i", pic_output_flag);
@@ -789,11 +789,11 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
       if (long_term_ref_pics_present_flag) {
         if (num_long_term_ref_pics_sps > 0) {
           fdump_indent_level(outfp, indent_level);
-          fprintf(outfp, "num_long_term_sps: %i", num_long_term_sps);
+          fprintf(outfp, "num_long_term_sps: %u", num_long_term_sps);
         }
 
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "num_long_term_pics: %i", num_long_term_pics);
+        fprintf(outfp, "num_long_term_pics: %u", num_long_term_pics);
 
         for (uint32_t i = 0; i < num_long_term_sps + num_long_term_pics; i++) {
           if (i < num_long_term_sps) {
@@ -832,7 +832,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
           fdump_indent_level(outfp, indent_level);
           fprintf(outfp, "delta_poc_msb_cycle_lt {");
           for (const uint32_t& v : delta_poc_msb_cycle_lt) {
-            fprintf(outfp, " %i", v);
+            fprintf(outfp, " %u", v);
           }
           fprintf(outfp, " }");
         }
@@ -862,12 +862,12 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
 
       if (num_ref_idx_active_override_flag) {
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "num_ref_idx_l0_active_minus1: %i",
+        fprintf(outfp, "num_ref_idx_l0_active_minus1: %u",
                 num_ref_idx_l0_active_minus1);
 
         if (slice_type == SliceType_B) {
           fdump_indent_level(outfp, indent_level);
-          fprintf(outfp, "num_ref_idx_l1_active_minus1: %i",
+          fprintf(outfp, "num_ref_idx_l1_active_minus1: %u",
                   num_ref_idx_l1_active_minus1);
         }
       }
@@ -896,7 +896,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
         if ((collocated_from_l0_flag && num_ref_idx_l0_active_minus1 > 0) ||
             (!collocated_from_l0_flag && num_ref_idx_l1_active_minus1 > 0)) {
           fdump_indent_level(outfp, indent_level);
-          fprintf(outfp, "collocated_ref_idx: %i", collocated_ref_idx);
+          fprintf(outfp, "collocated_ref_idx: %u", collocated_ref_idx);
         }
       }
 
@@ -907,7 +907,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
       }
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "five_minus_max_num_merge_cand: %i",
+      fprintf(outfp, "five_minus_max_num_merge_cand: %u",
               five_minus_max_num_merge_cand);
 
       if (motion_vector_resolution_control_idc == 2) {
@@ -975,7 +975,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
 
   if (tiles_enabled_flag || entropy_coding_sync_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "num_entry_point_offsets: %i", num_entry_point_offsets);
+    fprintf(outfp, "num_entry_point_offsets: %u", num_entry_point_offsets);
 
     if (num_entry_point_offsets > 0) {
       fdump_indent_level(outfp, indent_level);
@@ -984,7 +984,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "entry_point_offset_minus1 {");
       for (const uint32_t& v : entry_point_offset_minus1) {
-        fprintf(outfp, " %i", v);
+        fprintf(outfp, " %u", v);
       }
       fprintf(outfp, " }");
     }
@@ -992,7 +992,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
 
   if (slice_segment_header_extension_present_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "slice_segment_header_extension_length: %i",
+    fprintf(outfp, "slice_segment_header_extension_length: %u",
             slice_segment_header_extension_length);
 
     fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_sps_3d_extension_parser.cc b/src/h265_sps_3d_extension_parser.cc
index 1aa216b..5c63432 100644
--- a/src/h265_sps_3d_extension_parser.cc
+++ b/src/h265_sps_3d_extension_parser.cc
@@ -146,7 +146,7 @@ void H265Sps3dExtensionParser::Sps3dExtensionState::fdump(
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "log2_ivmc_sub_pb_size_minus3: %i",
+  fprintf(outfp, "log2_ivmc_sub_pb_size_minus3: %u",
           log2_ivmc_sub_pb_size_minus3);
 
   fdump_indent_level(outfp, indent_level);
@@ -165,7 +165,7 @@ void H265Sps3dExtensionParser::Sps3dExtensionState::fdump(
   fprintf(outfp, "tex_mc_enabled_flag: %i", tex_mc_enabled_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "log2_texmc_sub_pb_size_minus3: %i",
+  fprintf(outfp, "log2_texmc_sub_pb_size_minus3: %u",
           log2_texmc_sub_pb_size_minus3);
 
   fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index cdf8ec7..14c268c 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -669,14 +669,14 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "sps_max_num_reorder_pics {");
   for (const uint32_t& v : sps_max_num_reorder_pics) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "sps_max_latency_increase_plus1 {");
   for (const uint32_t& v : sps_max_latency_increase_plus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
@@ -689,19 +689,19 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
           log2_diff_max_min_luma_coding_block_size);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "log2_min_luma_transform_block_size_minus2: %i",
+  fprintf(outfp, "log2_min_luma_transform_block_size_minus2: %u",
           log2_min_luma_transform_block_size_minus2);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "log2_diff_max_min_luma_transform_block_size: %i",
+  fprintf(outfp, "log2_diff_max_min_luma_transform_block_size: %u",
           log2_diff_max_min_luma_transform_block_size);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "max_transform_hierarchy_depth_inter: %i",
+  fprintf(outfp, "max_transform_hierarchy_depth_inter: %u",
           max_transform_hierarchy_depth_inter);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "max_transform_hierarchy_depth_intra: %i",
+  fprintf(outfp, "max_transform_hierarchy_depth_intra: %u",
           max_transform_hierarchy_depth_intra);
 
   fdump_indent_level(outfp, indent_level);
@@ -738,11 +738,11 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
             pcm_sample_bit_depth_chroma_minus1);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "log2_min_pcm_luma_coding_block_size_minus3: %i",
+    fprintf(outfp, "log2_min_pcm_luma_coding_block_size_minus3: %u",
             log2_min_pcm_luma_coding_block_size_minus3);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "log2_diff_max_min_pcm_luma_coding_block_size: %i",
+    fprintf(outfp, "log2_diff_max_min_pcm_luma_coding_block_size: %u",
             log2_diff_max_min_pcm_luma_coding_block_size);
 
     fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_st_ref_pic_set_parser.cc b/src/h265_st_ref_pic_set_parser.cc
index 7d654c3..c77df0e 100644
--- a/src/h265_st_ref_pic_set_parser.cc
+++ b/src/h265_st_ref_pic_set_parser.cc
@@ -410,7 +410,7 @@ void H265StRefPicSetParser::StRefPicSetState::fdump(FILE* outfp,
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "delta_poc_s0_minus1 {");
     for (const uint32_t& v : delta_poc_s0_minus1) {
-      fprintf(outfp, " %i", v);
+      fprintf(outfp, " %u", v);
     }
     fprintf(outfp, " }");
 
@@ -424,7 +424,7 @@ void H265StRefPicSetParser::StRefPicSetState::fdump(FILE* outfp,
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "delta_poc_s1_minus1 {");
     for (const uint32_t& v : delta_poc_s1_minus1) {
-      fprintf(outfp, " %i", v);
+      fprintf(outfp, " %u", v);
     }
     fprintf(outfp, " }");
 
diff --git a/src/h265_sub_layer_hrd_parameters_parser.cc b/src/h265_sub_layer_hrd_parameters_parser.cc
index bd87f85..c004a7b 100644
--- a/src/h265_sub_layer_hrd_parameters_parser.cc
+++ b/src/h265_sub_layer_hrd_parameters_parser.cc
@@ -98,28 +98,28 @@ void H265SubLayerHrdParametersParser::SubLayerHrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_value_minus1 {");
   for (const uint32_t& v : bit_rate_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_size_value_minus1 {");
   for (const uint32_t& v : cpb_size_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_size_du_value_minus1 {");
   for (const uint32_t& v : cpb_size_du_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_du_value_minus1 {");
   for (const uint32_t& v : bit_rate_du_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index ad9aac3..d6cb979 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -303,21 +303,21 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_max_dec_pic_buffering_minus1 {");
   for (const uint32_t& v : vps_max_dec_pic_buffering_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_max_num_reorder_pics {");
   for (const uint32_t& v : vps_max_num_reorder_pics) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_max_latency_increase_plus1 {");
   for (const uint32_t& v : vps_max_latency_increase_plus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
@@ -343,17 +343,17 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
           vps_timing_info_present_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_num_units_in_tick: %i", vps_num_units_in_tick);
+  fprintf(outfp, "vps_num_units_in_tick: %u", vps_num_units_in_tick);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_time_scale: %i", vps_time_scale);
+  fprintf(outfp, "vps_time_scale: %u", vps_time_scale);
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_poc_proportional_to_timing_flag: %i",
           vps_poc_proportional_to_timing_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_num_ticks_poc_diff_one_minus1: %i",
+  fprintf(outfp, "vps_num_ticks_poc_diff_one_minus1: %u",
           vps_num_ticks_poc_diff_one_minus1);
 
   fdump_indent_level(outfp, indent_level);
@@ -363,7 +363,7 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "hrd_layer_set_idx {");
     for (const uint32_t& v : hrd_layer_set_idx) {
-      fprintf(outfp, " %i", v);
+      fprintf(outfp, " %u", v);
     }
     fprintf(outfp, " }");
 
diff --git a/src/h265_vui_parameters_parser.cc b/src/h265_vui_parameters_parser.cc
index 031bf46..9070d04 100644
--- a/src/h265_vui_parameters_parser.cc
+++ b/src/h265_vui_parameters_parser.cc
@@ -517,10 +517,10 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
   if (vui_timing_info_present_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "vui_num_units_in_tick: %i", vui_num_units_in_tick);
+    fprintf(outfp, "vui_num_units_in_tick: %u", vui_num_units_in_tick);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "vui_time_scale: %i", vui_time_scale);
+    fprintf(outfp, "vui_time_scale: %u", vui_time_scale);
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "vui_poc_proportional_to_timing_flag: %i",
@@ -528,7 +528,7 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
     if (vui_poc_proportional_to_timing_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "vui_num_ticks_poc_diff_one_minus1: %i",
+      fprintf(outfp, "vui_num_ticks_poc_diff_one_minus1: %u",
               vui_num_ticks_poc_diff_one_minus1);
     }
 
-- 
2.43.0


From 1517882fa3a7c142faca781b473fe793a1bf9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 33/38] fix: print the sub-layer HRD parameters once in the
 dump

---
 src/h265_hrd_parameters_parser.cc | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 3d77d0a..917a506 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -309,21 +309,7 @@ void H265HrdParametersParser::HrdParametersState::fdump(
   }
   fprintf(outfp, " }");
 
-  if (nal_hrd_parameters_present_flag) {
-    // sublayer_hrd_parameters()
-    fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "sub_layer_hrd_parameters_vector {");
-    indent_level = indent_level_incr(indent_level);
-    for (auto& v : sub_layer_hrd_parameters_vector) {
-      fdump_indent_level(outfp, indent_level);
-      v->fdump(outfp, indent_level);
-    }
-    indent_level = indent_level_decr(indent_level);
-    fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "}");
-  }
-
-  if (vcl_hrd_parameters_present_flag) {
+  if (nal_hrd_parameters_present_flag || vcl_hrd_parameters_present_flag) {
     // sublayer_hrd_parameters()
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "sub_layer_hrd_parameters_vector {");
-- 
2.43.0


From f4dd8bb1cfa2922808f5477917ef36ea5401fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 34/38] fix: print sps/pps_extension_data_flag in the dumps

---
 src/h265_pps_parser.cc | 5 +++++
 src/h265_sps_parser.cc | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index cb7d5d8..46bb29d 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -545,6 +545,11 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
     pps_scc_extension->fdump(outfp, indent_level);
   }
 
+  if (pps_extension_4bits) {
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "pps_extension_data_flag: %i", pps_extension_data_flag);
+  }
+
   indent_level = indent_level_decr(indent_level);
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "}");
diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index 14c268c..dc645d6 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -845,6 +845,11 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
     sps_scc_extension->fdump(outfp, indent_level);
   }
 
+  if (sps_extension_4bits) {
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "sps_extension_data_flag: %i", sps_extension_data_flag);
+  }
+
   if (parsing_options.add_resolution) {
     // add video resolution
     int width = -1;
-- 
2.43.0


From 80708fce812e8725789bafec74c4d10d74969cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:28 +0000
Subject: [PATCH 35/38] fix: print the long-term reference picture lists of a
 slice once in the dump

---
 src/h265_slice_parser.cc | 45 ++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index c83ec08..7fb9b09 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -795,33 +795,32 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
         fdump_indent_level(outfp, indent_level);
         fprintf(outfp, "num_long_term_pics: %u", num_long_term_pics);
 
-        for (uint32_t i = 0; i < num_long_term_sps + num_long_term_pics; i++) {
-          if (i < num_long_term_sps) {
-            if (num_long_term_ref_pics_sps > 1) {
-              fdump_indent_level(outfp, indent_level);
-              fprintf(outfp, "lt_idx_sps {");
-              for (const uint32_t& v : lt_idx_sps) {
-                fprintf(outfp, " %i", v);
-              }
-              fprintf(outfp, " }");
-            }
+        if (num_long_term_sps > 0 && num_long_term_ref_pics_sps > 1) {
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "lt_idx_sps {");
+          for (const uint32_t& v : lt_idx_sps) {
+            fprintf(outfp, " %i", v);
+          }
+          fprintf(outfp, " }");
+        }
 
-          } else {
-            fdump_indent_level(outfp, indent_level);
-            fprintf(outfp, "poc_lsb_lt {");
-            for (const uint32_t& v : poc_lsb_lt) {
-              fprintf(outfp, " %i", v);
-            }
-            fprintf(outfp, " }");
+        if (num_long_term_pics > 0) {
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "poc_lsb_lt {");
+          for (const uint32_t& v : poc_lsb_lt) {
+            fprintf(outfp, " %i", v);
+          }
+          fprintf(outfp, " }");
 
-            fdump_indent_level(outfp, indent_level);
-            fprintf(outfp, "used_by_curr_pic_lt_flag {");
-            for (const uint32_t& v : used_by_curr_pic_lt_flag) {
-              fprintf(outfp, " %i", v);
-            }
-            fprintf(outfp, " }");
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "used_by_curr_pic_lt_flag {");
+          for (const uint32_t& v : used_by_curr_pic_lt_flag) {
+            fprintf(outfp, " %i", v);
           }
+          fprintf(outfp, " }");
+        }
 
+        if (num_long_term_sps > 0 || num_long_term_pics > 0) {
           fdump_indent_level(outfp, indent_level);
           fprintf(outfp, "delta_poc_msb_present_flag {");
           for (const uint32_t& v : delta_poc_msb_present_flag) {
-- 
2.43.0


From 705abae846e347dfa2bf97c11965f8107caf3fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:12 +0000
Subject: [PATCH 36/38] fix: explicit framing: advance by the full NAL unit
 size

4 + nal_unit_size was computed in 32 bits: for a unit of 0xfffffffc bytes it is
zero, and the loop never ended.
---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index ef34cb7..21263eb 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -112,7 +112,7 @@ H265BitstreamParser::FindNaluIndicesExplicitFraming(const uint8_t* data,
     // This is a start sequence
     NaluIndex index = {i, i + 4, nal_unit_size};
     sequences.push_back(index);
-    i += (4 + nal_unit_size);
+    i += 4 + static_cast<size_t>(nal_unit_size);
   }
 
   return sequences;
-- 
2.43.0


From 37a829295b187d22905ba83359a25b84e7055f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:47 +0000
Subject: [PATCH 37/38] fix: accept the documented -q option of the tool

---
 tools/h265nal.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index 39127dd..a99270b 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -197,7 +197,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
       {NULL, 0, NULL, 0}};
 
   // parse arguments
-  while ((c = getopt_long(argc, argv, "di:o:h", longopts, &optindex)) != -1) {
+  while ((c = getopt_long(argc, argv, "dqi:o:h", longopts, &optindex)) != -1) {
     switch (c) {
       case 0:
         // long options that define flag
@@ -215,6 +215,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         options->debug += 1;
         break;
 
+      case 'q':
       case QUIET_OPTION:
         options->debug = 0;
         break;
-- 
2.43.0


From dfa142ee4345d580125501459438540f199d270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:55 +0000
Subject: [PATCH 38/38] fix: GetSliceQpY uses the PPS in force at each slice

---
 src/h265_utils.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 3340f71..775ef1b 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -121,10 +121,17 @@ std::vector<int32_t> H265Utils::GetSliceQpY(
   // parse the incoming bitstream
   ParsingOptions parsing_options;
   parsing_options.add_checksum = false;
-  auto bitstream_state = h265nal::H265BitstreamParser::ParseBitstream(
-      data, length, bitstream_parser_state, parsing_options);
-  // get all possible QP values
-  for (auto& nal_unit : bitstream_state->nal_units) {
+  // get all possible QP values. A PPS may be replaced later in the bitstream:
+  // get the value of a slice before parsing the NAL units that follow it.
+  for (const auto& nalu_index :
+       H265BitstreamParser::FindNaluIndices(data, length)) {
+    auto nal_unit = H265NalUnitParser::ParseNalUnit(
+        &data[nalu_index.payload_start_offset], nalu_index.payload_size,
+        bitstream_parser_state, parsing_options);
+    if (nal_unit == nullptr) {
+      // cannot parse the NalUnit
+      continue;
+    }
     uint32_t nal_unit_type = nal_unit->nal_unit_header->nal_unit_type;
     auto& payload = nal_unit->nal_unit_payload;
     // get the slice QP_Y value
-- 
2.43.0

