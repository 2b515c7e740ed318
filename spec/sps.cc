// Sequence parameter set tables: SPS (7.3.2.2), its range, multilayer, 3D and
// screen content extensions (7.3.2.2.2 ..), scaling lists (7.3.4) and
// short-term reference picture sets (7.3.7).
#include "spec.h"

namespace h265spec {

std::unique_ptr<H265ScalingListDataParser::ScalingListDataState>
scaling_list_data(BitBuffer* bb) {
  auto s = std::make_unique<H265ScalingListDataParser::ScalingListDataState>();
  for (uint32_t sizeId = 0; sizeId < 4; sizeId++) {
    s->scaling_list_pred_mode_flag.emplace_back();
    s->scaling_list_pred_matrix_id_delta.emplace_back();
    s->scaling_list_dc_coef_minus8.emplace_back();
    s->ScalingList.emplace_back();
    for (uint32_t matrixId = 0; matrixId < 6; matrixId++) {
      s->scaling_list_pred_mode_flag[sizeId].emplace_back(0);
      s->scaling_list_pred_matrix_id_delta[sizeId].emplace_back(0);
      s->scaling_list_dc_coef_minus8[sizeId].emplace_back(0);
      s->ScalingList[sizeId].emplace_back();
    }
  }
  for (uint32_t sizeId = 0; sizeId < 4; sizeId++) {
    for (uint32_t matrixId = 0; matrixId < 6;
         matrixId += (sizeId == 3) ? 3 : 1) {
      U(1, s->scaling_list_pred_mode_flag[sizeId][matrixId]);
      if (!s->scaling_list_pred_mode_flag[sizeId][matrixId]) {
        UE(s->scaling_list_pred_matrix_id_delta[sizeId][matrixId]);
      } else {
        uint32_t nextCoef = 8;
        const uint32_t coefNum = (sizeId == 0) ? 16 : 64;
        if (sizeId > 1) {
          SE(s->scaling_list_dc_coef_minus8[sizeId - 2][matrixId]);
          nextCoef = static_cast<uint32_t>(
                         s->scaling_list_dc_coef_minus8[sizeId - 2][matrixId]) +
                     8;
        }
        for (uint32_t i = 0; i < coefNum; i++) {
          int32_t scaling_list_delta_coef;
          SE(scaling_list_delta_coef);
          nextCoef = (nextCoef +
                      static_cast<uint32_t>(scaling_list_delta_coef) + 256) %
                     256;
          s->ScalingList[sizeId][matrixId].push_back(nextCoef);
        }
      }
    }
  }
  return s;
}

std::unique_ptr<H265StRefPicSetParser::StRefPicSetState> st_ref_pic_set(
    BitBuffer* bb, uint32_t stRpsIdx, uint32_t num_short_term_ref_pic_sets,
    const std::vector<
        std::unique_ptr<H265StRefPicSetParser::StRefPicSetState>>* sets,
    uint32_t max_num_pics) {
  REQ(num_short_term_ref_pic_sets <= 64);
  auto s = std::make_unique<H265StRefPicSetParser::StRefPicSetState>();
  s->stRpsIdx = stRpsIdx;
  s->num_short_term_ref_pic_sets = num_short_term_ref_pic_sets;
  if (stRpsIdx != 0) U(1, s->inter_ref_pic_set_prediction_flag);
  if (s->inter_ref_pic_set_prediction_flag) {
    if (stRpsIdx == num_short_term_ref_pic_sets) {
      UE(s->delta_idx_minus1);
      REQ(s->delta_idx_minus1 <= stRpsIdx - 1);
    }
    U(1, s->delta_rps_sign);
    UE(s->abs_delta_rps_minus1);
    REQ(s->abs_delta_rps_minus1 <= 32767);
    const uint32_t RefRpsIdx = stRpsIdx - (s->delta_idx_minus1 + 1);
    const auto& ref = (*sets)[RefRpsIdx];
    const uint32_t NumDeltaPocs =
        ref->num_negative_pics + ref->num_positive_pics;
    REQ(NumDeltaPocs < 16);
    for (uint32_t j = 0; j <= NumDeltaPocs; j++) {
      UV(1, s->used_by_curr_pic_flag);
      if (!s->used_by_curr_pic_flag[j]) {
        UV(1, s->use_delta_flag);
      } else {
        s->use_delta_flag.push_back(1);
      }
    }
    REQ(derive(s.get(), sets, RefRpsIdx));
  } else {
    UE(s->num_negative_pics);
    REQ(s->num_negative_pics <= max_num_pics);
    UE(s->num_positive_pics);
    REQ(s->num_positive_pics <= max_num_pics - s->num_negative_pics);
    for (uint32_t i = 0; i < s->num_negative_pics; i++) {
      uint32_t v;
      UE(v);
      REQ(v <= 32767);
      s->delta_poc_s0_minus1.push_back(v);
      UV(1, s->used_by_curr_pic_s0_flag);
    }
    for (uint32_t i = 0; i < s->num_positive_pics; i++) {
      uint32_t v;
      UE(v);
      REQ(v <= 32767);
      s->delta_poc_s1_minus1.push_back(v);
      UV(1, s->used_by_curr_pic_s1_flag);
    }
  }
  return s;
}

std::unique_ptr<H265SpsRangeExtensionParser::SpsRangeExtensionState>
sps_range_extension(BitBuffer* bb) {
  auto s =
      std::make_unique<H265SpsRangeExtensionParser::SpsRangeExtensionState>();
  U(1, s->transform_skip_rotation_enabled_flag);
  U(1, s->transform_skip_context_enabled_flag);
  U(1, s->implicit_rdpcm_enabled_flag);
  U(1, s->explicit_rdpcm_enabled_flag);
  U(1, s->extended_precision_processing_flag);
  U(1, s->intra_smoothing_disabled_flag);
  U(1, s->high_precision_offsets_enabled_flag);
  U(1, s->persistent_rice_adaptation_enabled_flag);
  U(1, s->cabac_bypass_alignment_enabled_flag);
  return s;
}

std::unique_ptr<H265SpsMultilayerExtensionParser::SpsMultilayerExtensionState>
sps_multilayer_extension(BitBuffer* bb) {
  auto s = std::make_unique<
      H265SpsMultilayerExtensionParser::SpsMultilayerExtensionState>();
  U(1, s->inter_view_mv_vert_constraint_flag);
  return s;
}

std::unique_ptr<H265Sps3dExtensionParser::Sps3dExtensionState>
sps_3d_extension(BitBuffer* bb) {
  auto s = std::make_unique<H265Sps3dExtensionParser::Sps3dExtensionState>();
  for (uint32_t d = 0; d <= 1; d++) {
    UV(1, s->iv_di_mc_enabled_flag);
    UV(1, s->iv_mv_scal_enabled_flag);
    if (d == 0) {
      UE(s->log2_ivmc_sub_pb_size_minus3);
      U(1, s->iv_res_pred_enabled_flag);
      U(1, s->depth_ref_enabled_flag);
      U(1, s->vsp_mc_enabled_flag);
      U(1, s->dbbp_enabled_flag);
    } else {
      U(1, s->tex_mc_enabled_flag);
      UE(s->log2_texmc_sub_pb_size_minus3);
      U(1, s->intra_contour_enabled_flag);
      U(1, s->intra_dc_only_wedge_enabled_flag);
      U(1, s->cqt_cu_part_pred_enabled_flag);
      U(1, s->inter_dc_only_enabled_flag);
      U(1, s->skip_intra_enabled_flag);
    }
  }
  return s;
}

std::unique_ptr<H265SpsSccExtensionParser::SpsSccExtensionState>
sps_scc_extension(BitBuffer* bb, uint32_t chroma_format_idc,
                  uint32_t bit_depth_luma_minus8,
                  uint32_t bit_depth_chroma_minus8) {
  auto s = std::make_unique<H265SpsSccExtensionParser::SpsSccExtensionState>();
  U(1, s->sps_curr_pic_ref_enabled_flag);
  U(1, s->palette_mode_enabled_flag);
  if (s->palette_mode_enabled_flag) {
    UE(s->palette_max_size);
    REQ(s->palette_max_size <= 64);
    UE(s->delta_palette_max_predictor_size);
    REQ(s->delta_palette_max_predictor_size <= 128);
    U(1, s->sps_palette_predictor_initializers_present_flag);
    if (s->sps_palette_predictor_initializers_present_flag) {
      UE(s->sps_num_palette_predictor_initializers_minus1);
      REQ(s->sps_num_palette_predictor_initializers_minus1 <= 127);
      const uint32_t numComps = (chroma_format_idc == 0) ? 1 : 3;
      for (uint32_t comp = 0; comp < numComps; comp++) {
        s->sps_palette_predictor_initializers.emplace_back();
        for (uint32_t i = 0;
             i <= s->sps_num_palette_predictor_initializers_minus1; i++)
          UV(comp == 0 ? 8 + bit_depth_luma_minus8 : 8 + bit_depth_chroma_minus8,
             s->sps_palette_predictor_initializers[comp]);
      }
    }
  }
  U(2, s->motion_vector_resolution_control_idc);
  U(1, s->intra_boundary_filtering_disabled_flag);
  return s;
}

std::shared_ptr<H265SpsParser::SpsState> sps(BitBuffer* bb) {
  auto s = std::make_shared<H265SpsParser::SpsState>();
  U(4, s->sps_video_parameter_set_id);
  U(3, s->sps_max_sub_layers_minus1);
  U(1, s->sps_temporal_id_nesting_flag);
  SUB(s->profile_tier_level,
      H265ProfileTierLevelParser::ParseProfileTierLevel(
          bb, true, s->sps_max_sub_layers_minus1));
  UE(s->sps_seq_parameter_set_id);
  REQ(s->sps_seq_parameter_set_id <= 15);
  UE(s->chroma_format_idc);
  REQ(s->chroma_format_idc <= 3);
  if (s->chroma_format_idc == 3) U(1, s->separate_colour_plane_flag);
  UE(s->pic_width_in_luma_samples);
  REQ(s->pic_width_in_luma_samples >= 1);
  REQ(s->pic_width_in_luma_samples <= 16888);
  UE(s->pic_height_in_luma_samples);
  REQ(s->pic_height_in_luma_samples >= 1);
  REQ(s->pic_height_in_luma_samples <= 16888);
  U(1, s->conformance_window_flag);
  if (s->conformance_window_flag) {
    UE(s->conf_win_left_offset);
    REQ(s->conf_win_left_offset <= s->pic_width_in_luma_samples);
    UE(s->conf_win_right_offset);
    REQ(s->conf_win_right_offset <= s->pic_width_in_luma_samples);
    UE(s->conf_win_top_offset);
    REQ(s->conf_win_top_offset <= s->pic_height_in_luma_samples);
    UE(s->conf_win_bottom_offset);
    REQ(s->conf_win_bottom_offset <= s->pic_height_in_luma_samples);
  }
  UE(s->bit_depth_luma_minus8);
  REQ(s->bit_depth_luma_minus8 <= 8);
  UE(s->bit_depth_chroma_minus8);
  REQ(s->bit_depth_chroma_minus8 <= 8);
  UE(s->log2_max_pic_order_cnt_lsb_minus4);
  REQ(s->log2_max_pic_order_cnt_lsb_minus4 <= 12);
  U(1, s->sps_sub_layer_ordering_info_present_flag);
  for (uint32_t i = (s->sps_sub_layer_ordering_info_present_flag
                         ? 0
                         : s->sps_max_sub_layers_minus1);
       i <= s->sps_max_sub_layers_minus1; i++) {
    uint32_t v;
    UE(v);
    REQ(v <= 15);  // MaxDpbSize - 1
    s->sps_max_dec_pic_buffering_minus1.push_back(v);
    UEV(s->sps_max_num_reorder_pics);
    UEV(s->sps_max_latency_increase_plus1);
  }
  UE(s->log2_min_luma_coding_block_size_minus3);
  REQ(s->log2_min_luma_coding_block_size_minus3 <= 3);
  const uint32_t MinCbSizeY = 1u
                              << (s->log2_min_luma_coding_block_size_minus3 + 3);
  REQ(s->pic_width_in_luma_samples / MinCbSizeY * MinCbSizeY ==
      s->pic_width_in_luma_samples);
  REQ(s->pic_height_in_luma_samples / MinCbSizeY * MinCbSizeY ==
      s->pic_height_in_luma_samples);
  UE(s->log2_diff_max_min_luma_coding_block_size);
  REQ(s->log2_diff_max_min_luma_coding_block_size <= 3);
  UE(s->log2_min_luma_transform_block_size_minus2);
  UE(s->log2_diff_max_min_luma_transform_block_size);
  UE(s->max_transform_hierarchy_depth_inter);
  UE(s->max_transform_hierarchy_depth_intra);
  U(1, s->scaling_list_enabled_flag);
  if (s->scaling_list_enabled_flag) {
    U(1, s->sps_scaling_list_data_present_flag);
    if (s->sps_scaling_list_data_present_flag) {
      SUB(s->scaling_list_data,
          H265ScalingListDataParser::ParseScalingListData(bb));
    }
  }
  U(1, s->amp_enabled_flag);
  U(1, s->sample_adaptive_offset_enabled_flag);
  U(1, s->pcm_enabled_flag);
  if (s->pcm_enabled_flag) {
    U(4, s->pcm_sample_bit_depth_luma_minus1);
    U(4, s->pcm_sample_bit_depth_chroma_minus1);
    UE(s->log2_min_pcm_luma_coding_block_size_minus3);
    UE(s->log2_diff_max_min_pcm_luma_coding_block_size);
    U(1, s->pcm_loop_filter_disabled_flag);
  }
  UE(s->num_short_term_ref_pic_sets);
  REQ(s->num_short_term_ref_pic_sets <= 64);
  for (uint32_t i = 0; i < s->num_short_term_ref_pic_sets; i++) {
    auto r = H265StRefPicSetParser::ParseStRefPicSet(
        bb, i, s->num_short_term_ref_pic_sets, &(s->st_ref_pic_set), 15);
    REQ(r != nullptr);
    s->st_ref_pic_set.push_back(std::move(r));
  }
  U(1, s->long_term_ref_pics_present_flag);
  if (s->long_term_ref_pics_present_flag) {
    UE(s->num_long_term_ref_pics_sps);
    REQ(s->num_long_term_ref_pics_sps <= 32);
    for (uint32_t i = 0; i < s->num_long_term_ref_pics_sps; i++) {
      UV(s->log2_max_pic_order_cnt_lsb_minus4 + 4, s->lt_ref_pic_poc_lsb_sps);
      UV(1, s->used_by_curr_pic_lt_sps_flag);
    }
  }
  U(1, s->sps_temporal_mvp_enabled_flag);
  U(1, s->strong_intra_smoothing_enabled_flag);
  U(1, s->vui_parameters_present_flag);
  if (s->vui_parameters_present_flag) {
    SUB(s->vui_parameters, H265VuiParametersParser::ParseVuiParameters(
                               bb, s->sps_max_sub_layers_minus1));
  }
  U(1, s->sps_extension_present_flag);
  if (s->sps_extension_present_flag) {
    U(1, s->sps_range_extension_flag);
    U(1, s->sps_multilayer_extension_flag);
    U(1, s->sps_3d_extension_flag);
    U(1, s->sps_scc_extension_flag);
    U(4, s->sps_extension_4bits);
  }
  if (s->sps_range_extension_flag) {
    SUB(s->sps_range_extension,
        H265SpsRangeExtensionParser::ParseSpsRangeExtension(bb));
  }
  if (s->sps_multilayer_extension_flag) {
    SUB(s->sps_multilayer_extension,
        H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(bb));
  }
  if (s->sps_3d_extension_flag) {
    SUB(s->sps_3d_extension,
        H265Sps3dExtensionParser::ParseSps3dExtension(bb));
  }
  if (s->sps_scc_extension_flag) {
    SUB(s->sps_scc_extension,
        H265SpsSccExtensionParser::ParseSpsSccExtension(
            bb, s->chroma_format_idc, s->bit_depth_luma_minus8,
            s->bit_depth_chroma_minus8));
  }
  if (s->sps_extension_4bits)
    while (more_rbsp_data(bb)) U(1, s->sps_extension_data_flag);
  rbsp_trailing_bits(bb);
  return s;
}

}  // namespace h265spec
