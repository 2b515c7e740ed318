// Parameter-set level tables: NAL unit header (7.3.1.2), profile/tier/level
// (7.3.3), HRD (E.2.2, E.2.3), VPS (7.3.2.1), VUI (E.2.1), AUD (7.3.2.5).
#include "spec.h"

namespace h265spec {

std::unique_ptr<H265NalUnitHeaderParser::NalUnitHeaderState> nal_unit_header(
    BitBuffer* bb) {
  auto h = std::make_unique<H265NalUnitHeaderParser::NalUnitHeaderState>();
  U(1, h->forbidden_zero_bit);
  U(6, h->nal_unit_type);
  U(6, h->nuh_layer_id);
  U(3, h->nuh_temporal_id_plus1);
  return h;
}

std::unique_ptr<H265ProfileTierLevelParser::ProfileTierLevelState>
profile_tier_level(BitBuffer* bb, bool profilePresentFlag,
                   unsigned int maxNumSubLayersMinus1) {
  auto p = std::make_unique<H265ProfileTierLevelParser::ProfileTierLevelState>();
  p->profilePresentFlag = profilePresentFlag;
  p->maxNumSubLayersMinus1 = maxNumSubLayersMinus1;
  if (profilePresentFlag) {
    SUB(p->general, H265ProfileInfoParser::ParseProfileInfo(bb));
  }
  U(8, p->general_level_idc);
  for (uint32_t i = 0; i < maxNumSubLayersMinus1; i++) {
    UV(1, p->sub_layer_profile_present_flag);
    UV(1, p->sub_layer_level_present_flag);
  }
  if (maxNumSubLayersMinus1 > 0)
    for (uint32_t i = maxNumSubLayersMinus1; i < 8; i++)
      UV(2, p->reserved_zero_2bits);
  for (uint32_t i = 0; i < maxNumSubLayersMinus1; i++) {
    if (p->sub_layer_profile_present_flag[i]) {
      p->sub_layer.push_back(H265ProfileInfoParser::ParseProfileInfo(bb));
      REQ(p->sub_layer.back() != nullptr);
    }
    if (p->sub_layer_level_present_flag[i]) UV(8, p->sub_layer_level_idc);
  }
  return p;
}

std::unique_ptr<H265ProfileInfoParser::ProfileInfoState> profile_info(
    BitBuffer* bb) {
  auto p = std::make_unique<H265ProfileInfoParser::ProfileInfoState>();
  U(2, p->profile_space);
  U(1, p->tier_flag);
  U(5, p->profile_idc);
  for (uint32_t j = 0; j < 32; j++) U(1, p->profile_compatibility_flag[j]);
  U(1, p->progressive_source_flag);
  U(1, p->interlaced_source_flag);
  U(1, p->non_packed_constraint_flag);
  U(1, p->frame_only_constraint_flag);
#define IS(k) (p->profile_idc == k || p->profile_compatibility_flag[k] == 1)
  uint32_t hi, lo;
  if (IS(4) || IS(5) || IS(6) || IS(7) || IS(8) || IS(9) || IS(10) || IS(11)) {
    U(1, p->max_12bit_constraint_flag);
    U(1, p->max_10bit_constraint_flag);
    U(1, p->max_8bit_constraint_flag);
    U(1, p->max_422chroma_constraint_flag);
    U(1, p->max_420chroma_constraint_flag);
    U(1, p->max_monochrome_constraint_flag);
    U(1, p->intra_constraint_flag);
    U(1, p->one_picture_only_constraint_flag);
    U(1, p->lower_bit_rate_constraint_flag);
    if (IS(5) || IS(9) || IS(10) || IS(11)) {
      U(1, p->max_14bit_constraint_flag);
      U(1, hi);
      U(32, lo);
      p->reserved_zero_33bits = ((uint64_t)hi << 32) | lo;
    } else {
      U(2, hi);
      U(32, lo);
      p->reserved_zero_34bits = ((uint64_t)hi << 32) | lo;
    }
  } else if (IS(2)) {
    U(7, p->reserved_zero_7bits);
    U(1, p->one_picture_only_constraint_flag);
    U(3, hi);
    U(32, lo);
    p->reserved_zero_35bits = ((uint64_t)hi << 32) | lo;
  } else {
    U(11, hi);
    U(32, lo);
    p->reserved_zero_43bits = ((uint64_t)hi << 32) | lo;
  }
  p->profile_type = p->GetProfileType();
  if (IS(1) || IS(2) || IS(3) || IS(4) || IS(5) || IS(9) || IS(11)) {
    U(1, p->inbld_flag);
  } else {
    U(1, p->reserved_zero_bit);
  }
#undef IS
  return p;
}

std::unique_ptr<H265SubLayerHrdParametersParser::SubLayerHrdParametersState>
sub_layer_hrd(BitBuffer* bb, uint32_t subLayerId, uint32_t CpbCnt,
              uint32_t sub_pic_hrd_params_present_flag) {
  auto s = std::make_unique<
      H265SubLayerHrdParametersParser::SubLayerHrdParametersState>();
  s->subLayerId = subLayerId;
  s->CpbCnt = CpbCnt;
  s->sub_pic_hrd_params_present_flag = sub_pic_hrd_params_present_flag;
  for (uint32_t i = 0; i < CpbCnt; i++) {
    UEV(s->bit_rate_value_minus1);
    UEV(s->cpb_size_value_minus1);
    if (sub_pic_hrd_params_present_flag) {
      UEV(s->cpb_size_du_value_minus1);
      UEV(s->bit_rate_du_value_minus1);
    } else {
      s->cpb_size_du_value_minus1.push_back(0);
      s->bit_rate_du_value_minus1.push_back(0);
    }
    UV(1, s->cbr_flag);
  }
  return s;
}

std::unique_ptr<H265HrdParametersParser::HrdParametersState> hrd(
    BitBuffer* bb, uint32_t commonInfPresentFlag,
    uint32_t maxNumSubLayersMinus1) {
  auto h = std::make_unique<H265HrdParametersParser::HrdParametersState>();
  h->commonInfPresentFlag = commonInfPresentFlag;
  h->maxNumSubLayersMinus1 = maxNumSubLayersMinus1;
  if (commonInfPresentFlag) {
    U(1, h->nal_hrd_parameters_present_flag);
    U(1, h->vcl_hrd_parameters_present_flag);
    if (h->nal_hrd_parameters_present_flag ||
        h->vcl_hrd_parameters_present_flag) {
      U(1, h->sub_pic_hrd_params_present_flag);
      if (h->sub_pic_hrd_params_present_flag) {
        U(8, h->tick_divisor_minus2);
        U(5, h->du_cpb_removal_delay_increment_length_minus1);
        U(1, h->sub_pic_cpb_params_in_pic_timing_sei_flag);
        U(5, h->dpb_output_delay_du_length_minus1);
      }
      U(4, h->bit_rate_scale);
      U(4, h->cpb_size_scale);
      if (h->sub_pic_hrd_params_present_flag) U(4, h->cpb_size_du_scale);
      U(5, h->initial_cpb_removal_delay_length_minus1);
      U(5, h->au_cpb_removal_delay_length_minus1);
      U(5, h->dpb_output_delay_length_minus1);
    }
  }
  for (uint32_t i = 0; i <= maxNumSubLayersMinus1; i++) {
    UV(1, h->fixed_pic_rate_general_flag);
    if (!h->fixed_pic_rate_general_flag[i]) {
      UV(1, h->fixed_pic_rate_within_cvs_flag);
    } else {
      h->fixed_pic_rate_within_cvs_flag.push_back(1);
    }
    if (h->fixed_pic_rate_within_cvs_flag[i]) {
      UEV(h->elemental_duration_in_tc_minus1);
      h->low_delay_hrd_flag.push_back(0);
    } else {
      h->elemental_duration_in_tc_minus1.push_back(0);
      UV(1, h->low_delay_hrd_flag);
    }
    if (!h->low_delay_hrd_flag[i]) {
      UEV(h->cpb_cnt_minus1);
    } else {
      h->cpb_cnt_minus1.push_back(0);
    }
    if (h->nal_hrd_parameters_present_flag) {
      auto s = H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(
          bb, i, h->cpb_cnt_minus1[i] + 1, h->sub_pic_hrd_params_present_flag);
      REQ(s != nullptr);
      h->sub_layer_hrd_parameters_vector.push_back(std::move(s));
    }
    if (h->vcl_hrd_parameters_present_flag) {
      auto s = H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(
          bb, i, h->cpb_cnt_minus1[i] + 1, h->sub_pic_hrd_params_present_flag);
      REQ(s != nullptr);
      h->sub_layer_hrd_parameters_vector.push_back(std::move(s));
    }
  }
  return h;
}

std::shared_ptr<H265VpsParser::VpsState> vps(BitBuffer* bb) {
  auto v = std::make_shared<H265VpsParser::VpsState>();
  U(4, v->vps_video_parameter_set_id);
  U(1, v->vps_base_layer_internal_flag);
  U(1, v->vps_base_layer_available_flag);
  U(6, v->vps_max_layers_minus1);
  U(3, v->vps_max_sub_layers_minus1);
  U(1, v->vps_temporal_id_nesting_flag);
  U(16, v->vps_reserved_0xffff_16bits);
  SUB(v->profile_tier_level,
      H265ProfileTierLevelParser::ParseProfileTierLevel(
          bb, true, v->vps_max_sub_layers_minus1));
  U(1, v->vps_sub_layer_ordering_info_present_flag);
  for (uint32_t i = (v->vps_sub_layer_ordering_info_present_flag
                         ? 0
                         : v->vps_max_sub_layers_minus1);
       i <= v->vps_max_sub_layers_minus1; i++) {
    UEV(v->vps_max_dec_pic_buffering_minus1);
    UEV(v->vps_max_num_reorder_pics);
    UEV(v->vps_max_latency_increase_plus1);
  }
  U(6, v->vps_max_layer_id);
  REQ(v->vps_max_layer_id <= 62);
  UE(v->vps_num_layer_sets_minus1);
  REQ(v->vps_num_layer_sets_minus1 <= 1023);
  for (uint32_t i = 1; i <= v->vps_num_layer_sets_minus1; i++) {
    v->layer_id_included_flag.emplace_back();
    for (uint32_t j = 0; j <= v->vps_max_layer_id; j++)
      UV(1, v->layer_id_included_flag[i - 1]);
  }
  U(1, v->vps_timing_info_present_flag);
  if (v->vps_timing_info_present_flag) {
    U(32, v->vps_num_units_in_tick);
    U(32, v->vps_time_scale);
    U(1, v->vps_poc_proportional_to_timing_flag);
    if (v->vps_poc_proportional_to_timing_flag) {
      UE(v->vps_num_ticks_poc_diff_one_minus1);
      REQ(v->vps_num_ticks_poc_diff_one_minus1 <= 4294967294u);
    }
    UE(v->vps_num_hrd_parameters);
    REQ(v->vps_num_hrd_parameters <= v->vps_num_layer_sets_minus1 + 1);
    for (uint32_t i = 0; i < v->vps_num_hrd_parameters; i++) {
      UEV(v->hrd_layer_set_idx);
      if (i > 0) {
        UV(1, v->cprms_present_flag);
      } else {
        v->cprms_present_flag.push_back(1);
      }
      SUB(v->hrd_parameters,
          H265HrdParametersParser::ParseHrdParameters(
              bb, v->cprms_present_flag[i], v->vps_max_sub_layers_minus1));
    }
  }
  U(1, v->vps_extension_flag);
  if (v->vps_extension_flag)
    while (more_rbsp_data(bb)) U(1, v->vps_extension_data_flag);
  rbsp_trailing_bits(bb);
  return v;
}

std::unique_ptr<H265VuiParametersParser::VuiParametersState> vui(
    BitBuffer* bb, uint32_t sps_max_sub_layers_minus1) {
  auto v = std::make_unique<H265VuiParametersParser::VuiParametersState>();
  v->sps_max_sub_layers_minus1 = sps_max_sub_layers_minus1;
  U(1, v->aspect_ratio_info_present_flag);
  if (v->aspect_ratio_info_present_flag) {
    U(8, v->aspect_ratio_idc);
    if (v->aspect_ratio_idc == 255) {  // EXTENDED_SAR
      U(16, v->sar_width);
      U(16, v->sar_height);
    }
  }
  U(1, v->overscan_info_present_flag);
  if (v->overscan_info_present_flag) U(1, v->overscan_appropriate_flag);
  U(1, v->video_signal_type_present_flag);
  if (v->video_signal_type_present_flag) {
    U(3, v->video_format);
    U(1, v->video_full_range_flag);
    U(1, v->colour_description_present_flag);
    if (v->colour_description_present_flag) {
      U(8, v->colour_primaries);
      U(8, v->transfer_characteristics);
      U(8, v->matrix_coeffs);
    }
  }
  U(1, v->chroma_loc_info_present_flag);
  if (v->chroma_loc_info_present_flag) {
    UE(v->chroma_sample_loc_type_top_field);
    REQ(v->chroma_sample_loc_type_top_field <= 5);
    UE(v->chroma_sample_loc_type_bottom_field);
    REQ(v->chroma_sample_loc_type_bottom_field <= 5);
  }
  U(1, v->neutral_chroma_indication_flag);
  U(1, v->field_seq_flag);
  U(1, v->frame_field_info_present_flag);
  U(1, v->default_display_window_flag);
  if (v->default_display_window_flag) {
    UE(v->def_disp_win_left_offset);
    REQ(v->def_disp_win_left_offset <= 16384);
    UE(v->def_disp_win_right_offset);
    REQ(v->def_disp_win_right_offset <= 16384);
    UE(v->def_disp_win_top_offset);
    REQ(v->def_disp_win_top_offset <= 16384);
    UE(v->def_disp_win_bottom_offset);
    REQ(v->def_disp_win_bottom_offset <= 16384);
  }
  U(1, v->vui_timing_info_present_flag);
  if (v->vui_timing_info_present_flag) {
    U(32, v->vui_num_units_in_tick);
    U(32, v->vui_time_scale);
    U(1, v->vui_poc_proportional_to_timing_flag);
    if (v->vui_poc_proportional_to_timing_flag) {
      UE(v->vui_num_ticks_poc_diff_one_minus1);
      REQ(v->vui_num_ticks_poc_diff_one_minus1 <= 4294967294u);
    }
    U(1, v->vui_hrd_parameters_present_flag);
    if (v->vui_hrd_parameters_present_flag) {
      SUB(v->hrd_parameters, H265HrdParametersParser::ParseHrdParameters(
                                 bb, 1, sps_max_sub_layers_minus1));
    }
  }
  U(1, v->bitstream_restriction_flag);
  if (v->bitstream_restriction_flag) {
    U(1, v->tiles_fixed_structure_flag);
    U(1, v->motion_vectors_over_pic_boundaries_flag);
    U(1, v->restricted_ref_pic_lists_flag);
    UE(v->min_spatial_segmentation_idc);
    REQ(v->min_spatial_segmentation_idc <= 4095);
    UE(v->max_bytes_per_pic_denom);
    REQ(v->max_bytes_per_pic_denom <= 16);
    UE(v->max_bits_per_min_cu_denom);
    REQ(v->max_bits_per_min_cu_denom <= 16);
    UE(v->log2_max_mv_length_horizontal);
    REQ(v->log2_max_mv_length_horizontal <= 16);
    UE(v->log2_max_mv_length_vertical);
    REQ(v->log2_max_mv_length_vertical <= 15);
  }
  return v;
}

std::unique_ptr<H265AudParser::AudState> aud(BitBuffer* bb) {
  auto a = std::make_unique<H265AudParser::AudState>();
  U(3, a->pic_type);
  rbsp_trailing_bits(bb);
  return a;
}

}  // namespace h265spec
