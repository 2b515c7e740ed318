// Slice tables: slice segment header (7.3.6.1), weighted prediction parameters
// (7.3.6.3).
#include "spec.h"

namespace h265spec {

std::unique_ptr<H265PredWeightTableParser::PredWeightTableState>
pred_weight_table(BitBuffer* bb, uint32_t ChromaArrayType,
                  uint32_t num_ref_idx_l0_active_minus1) {
  auto p = std::make_unique<H265PredWeightTableParser::PredWeightTableState>();
  p->ChromaArrayType = ChromaArrayType;
  p->num_ref_idx_l0_active_minus1 = num_ref_idx_l0_active_minus1;
  UE(p->luma_log2_weight_denom);
  if (ChromaArrayType != 0) SE(p->delta_chroma_log2_weight_denom);
  for (uint32_t i = 0; i <= num_ref_idx_l0_active_minus1; i++)
    UV(1, p->luma_weight_l0_flag);
  if (ChromaArrayType != 0)
    for (uint32_t i = 0; i <= num_ref_idx_l0_active_minus1; i++)
      UV(1, p->chroma_weight_l0_flag);
  for (uint32_t i = 0; i <= num_ref_idx_l0_active_minus1; i++) {
    if (p->luma_weight_l0_flag[i]) {
      SEV(p->delta_luma_weight_l0);
      SEV(p->luma_offset_l0);
    }
    if (ChromaArrayType != 0 && p->chroma_weight_l0_flag[i]) {
      p->delta_chroma_weight_l0.emplace_back();
      p->delta_chroma_offset_l0.emplace_back();
      for (int j = 0; j < 2; j++) {
        SEV(p->delta_chroma_weight_l0.back());
        SEV(p->delta_chroma_offset_l0.back());
      }
    }
  }
  return p;
}

std::unique_ptr<H265SliceSegmentLayerParser::SliceSegmentLayerState>
slice_segment_layer(BitBuffer* bb, uint32_t nal_unit_type,
                    struct H265BitstreamParserState* state) {
  auto s =
      std::make_unique<H265SliceSegmentLayerParser::SliceSegmentLayerState>();
  s->nal_unit_type = nal_unit_type;
  SUB(s->slice_segment_header,
      H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(bb, nal_unit_type,
                                                            state));
  return s;
}

static size_t ceil_log2(uint32_t n) {
  return static_cast<size_t>(std::ceil(std::log2(static_cast<float>(n))));
}

std::unique_ptr<H265SliceSegmentHeaderParser::SliceSegmentHeaderState>
slice_segment_header(BitBuffer* bb, uint32_t nal_unit_type,
                     struct H265BitstreamParserState* state) {
  auto s =
      std::make_unique<H265SliceSegmentHeaderParser::SliceSegmentHeaderState>();
  s->collocated_from_l0_flag = 1;  // inferred when absent
  s->nal_unit_type = nal_unit_type;
  U(1, s->first_slice_segment_in_pic_flag);
  if (nal_unit_type >= 16 && nal_unit_type <= 23)
    U(1, s->no_output_of_prior_pics_flag);
  UE(s->slice_pic_parameter_set_id);
  // the parameter sets in force
  const uint32_t pps_id = s->slice_pic_parameter_set_id;
  REQ(state->pps.find(pps_id) != state->pps.end());
  const auto& pps = state->pps[pps_id];
  const uint32_t sps_id = pps->pps_seq_parameter_set_id;
  REQ(state->sps.find(sps_id) != state->sps.end());
  const auto& sps = state->sps[sps_id];

  if (!s->first_slice_segment_in_pic_flag) {
    s->dependent_slice_segments_enabled_flag =
        pps->dependent_slice_segments_enabled_flag;
    if (pps->dependent_slice_segments_enabled_flag)
      U(1, s->dependent_slice_segment_flag);
    const size_t len = ceil_log2(sps->getPicSizeInCtbsY());
    REQ(len != 0);
    U(len, s->slice_segment_address);
  }
  if (!s->dependent_slice_segment_flag) {
    s->num_extra_slice_header_bits = pps->num_extra_slice_header_bits;
    for (uint32_t i = 0; i < pps->num_extra_slice_header_bits; i++)
      UV(1, s->slice_reserved_flag);
    UE(s->slice_type);
    s->output_flag_present_flag = pps->output_flag_present_flag;
    if (pps->output_flag_present_flag) U(1, s->pic_output_flag);
    s->separate_colour_plane_flag = sps->separate_colour_plane_flag;
    if (sps->separate_colour_plane_flag == 1) U(2, s->colour_plane_id);
    if (nal_unit_type != 19 && nal_unit_type != 20) {  // IDR_W_RADL, IDR_N_LP
      s->log2_max_pic_order_cnt_lsb_minus4 =
          sps->log2_max_pic_order_cnt_lsb_minus4;
      const size_t poc_len = sps->log2_max_pic_order_cnt_lsb_minus4 + 4;
      U(poc_len, s->slice_pic_order_cnt_lsb);
      U(1, s->short_term_ref_pic_set_sps_flag);
      s->num_short_term_ref_pic_sets = sps->num_short_term_ref_pic_sets;
      if (!s->short_term_ref_pic_set_sps_flag) {
        SUB(s->st_ref_pic_set,
            H265StRefPicSetParser::ParseStRefPicSet(
                bb, sps->num_short_term_ref_pic_sets,
                sps->num_short_term_ref_pic_sets, &sps->st_ref_pic_set, 15));
      } else if (sps->num_short_term_ref_pic_sets > 1) {
        U(ceil_log2(sps->num_short_term_ref_pic_sets),
          s->short_term_ref_pic_set_idx);
      }
      s->long_term_ref_pics_present_flag = sps->long_term_ref_pics_present_flag;
      if (sps->long_term_ref_pics_present_flag) {
        s->num_long_term_ref_pics_sps = sps->num_long_term_ref_pics_sps;
        if (sps->num_long_term_ref_pics_sps > 0) UE(s->num_long_term_sps);
        UE(s->num_long_term_pics);
        for (uint32_t i = 0;
             i < (uint64_t)s->num_long_term_sps + s->num_long_term_pics; i++) {
          if (i < s->num_long_term_sps) {
            if (sps->num_long_term_ref_pics_sps > 1)
              UV(ceil_log2(sps->num_long_term_ref_pics_sps), s->lt_idx_sps);
          } else {
            UV(poc_len, s->poc_lsb_lt);
            UV(1, s->used_by_curr_pic_lt_flag);
          }
          UV(1, s->delta_poc_msb_present_flag);
          if (s->delta_poc_msb_present_flag[i]) UEV(s->delta_poc_msb_cycle_lt);
        }
      }
      s->sps_temporal_mvp_enabled_flag = sps->sps_temporal_mvp_enabled_flag;
      if (sps->sps_temporal_mvp_enabled_flag)
        U(1, s->slice_temporal_mvp_enabled_flag);
    }
    s->ChromaArrayType =
        (s->separate_colour_plane_flag == 0) ? sps->chroma_format_idc : 0;
    s->sample_adaptive_offset_enabled_flag =
        sps->sample_adaptive_offset_enabled_flag;
    if (sps->sample_adaptive_offset_enabled_flag) {
      U(1, s->slice_sao_luma_flag);
      if (s->ChromaArrayType != 0) U(1, s->slice_sao_chroma_flag);
    }
    if (s->slice_type == 1 || s->slice_type == 0) {  // P or B
      U(1, s->num_ref_idx_active_override_flag);
      s->num_ref_idx_l0_active_minus1 =
          pps->num_ref_idx_l0_default_active_minus1;
      if (s->slice_type == 0)
        s->num_ref_idx_l1_active_minus1 =
            pps->num_ref_idx_l1_default_active_minus1;
      if (s->num_ref_idx_active_override_flag) {
        UE(s->num_ref_idx_l0_active_minus1);
        if (s->slice_type == 0) UE(s->num_ref_idx_l1_active_minus1);
      }
      s->lists_modification_present_flag = pps->lists_modification_present_flag;
      // ref_pic_lists_modification(): known finding, never parsed
      if (s->slice_type == 0) U(1, s->mvd_l1_zero_flag);
      s->cabac_init_present_flag = pps->cabac_init_present_flag;
      if (pps->cabac_init_present_flag) U(1, s->cabac_init_flag);
      if (s->slice_temporal_mvp_enabled_flag) {
        if (s->slice_type == 0) U(1, s->collocated_from_l0_flag);
        if ((s->collocated_from_l0_flag &&
             s->num_ref_idx_l0_active_minus1 > 0) ||
            (!s->collocated_from_l0_flag &&
             s->num_ref_idx_l1_active_minus1 > 0))
          UE(s->collocated_ref_idx);
      }
      s->weighted_pred_flag = pps->weighted_pred_flag;
      s->weighted_bipred_flag = pps->weighted_bipred_flag;
      if ((pps->weighted_pred_flag && s->slice_type == 1) ||
          (pps->weighted_bipred_flag && s->slice_type == 0)) {
        SUB(s->pred_weight_table,
            H265PredWeightTableParser::ParsePredWeightTable(
                bb, s->ChromaArrayType, s->num_ref_idx_l0_active_minus1));
      }
      UE(s->five_minus_max_num_merge_cand);
      if (sps->sps_scc_extension_flag && sps->sps_scc_extension != nullptr)
        s->motion_vector_resolution_control_idc =
            sps->sps_scc_extension->motion_vector_resolution_control_idc;
      if (s->motion_vector_resolution_control_idc == 2)
        U(1, s->use_integer_mv_flag);
    }
    SE(s->slice_qp_delta);
    s->pps_slice_chroma_qp_offsets_present_flag =
        pps->pps_slice_chroma_qp_offsets_present_flag;
    if (pps->pps_slice_chroma_qp_offsets_present_flag) {
      SE(s->slice_cb_qp_offset);
      SE(s->slice_cr_qp_offset);
    }
    if (pps->pps_scc_extension_flag)
      s->pps_slice_act_qp_offsets_present_flag =
          pps->pps_scc_extension->pps_slice_act_qp_offsets_present_flag;
    if (s->pps_slice_act_qp_offsets_present_flag) {
      SE(s->slice_act_y_qp_offset);
      SE(s->slice_act_cb_qp_offset);
      SE(s->slice_act_cr_qp_offset);
    }
    // chroma_qp_offset_list_enabled_flag: range extension, refused in the PPS
    s->deblocking_filter_override_enabled_flag =
        pps->deblocking_filter_override_enabled_flag;
    if (pps->deblocking_filter_override_enabled_flag)
      U(1, s->deblocking_filter_override_flag);
    s->slice_deblocking_filter_disabled_flag =
        pps->pps_deblocking_filter_disabled_flag;
    if (s->deblocking_filter_override_flag) {
      U(1, s->slice_deblocking_filter_disabled_flag);
      if (!s->slice_deblocking_filter_disabled_flag) {
        SE(s->slice_beta_offset_div2);
        SE(s->slice_tc_offset_div2);
      }
    }
    s->pps_loop_filter_across_slices_enabled_flag =
        pps->pps_loop_filter_across_slices_enabled_flag;
    if (pps->pps_loop_filter_across_slices_enabled_flag &&
        (s->slice_sao_luma_flag || s->slice_sao_chroma_flag ||
         !s->slice_deblocking_filter_disabled_flag))
      U(1, s->slice_loop_filter_across_slices_enabled_flag);
  }
  s->tiles_enabled_flag = pps->tiles_enabled_flag;
  s->entropy_coding_sync_enabled_flag = pps->entropy_coding_sync_enabled_flag;
  if (pps->tiles_enabled_flag || pps->entropy_coding_sync_enabled_flag) {
    UE(s->num_entry_point_offsets);
    // 7.4.7.1
    if (!pps->tiles_enabled_flag) {
      REQ(s->num_entry_point_offsets <= sps->getPicHeightInCtbsY() - 1);
    } else if (!pps->entropy_coding_sync_enabled_flag) {
      REQ(s->num_entry_point_offsets <=
          (pps->num_tile_columns_minus1 + 1) *
                  (pps->num_tile_rows_minus1 + 1) -
              1);
    } else {
      REQ(s->num_entry_point_offsets <=
          (pps->num_tile_columns_minus1 + 1) * sps->getPicHeightInCtbsY() - 1);
    }
    if (s->num_entry_point_offsets > 0) {
      UE(s->offset_len_minus1);
      REQ(s->offset_len_minus1 <= 31);
      for (uint32_t i = 0; i < s->num_entry_point_offsets; i++)
        UV(s->offset_len_minus1 + 1, s->entry_point_offset_minus1);
    }
  }
  s->slice_segment_header_extension_present_flag =
      pps->slice_segment_header_extension_present_flag;
  if (pps->slice_segment_header_extension_present_flag) {
    UE(s->slice_segment_header_extension_length);
    for (uint32_t i = 0; i < s->slice_segment_header_extension_length; i++)
      UV(8, s->slice_segment_header_extension_data_byte);
  }
  return s;
}

}  // namespace h265spec
