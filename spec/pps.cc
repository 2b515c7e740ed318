// Picture parameter set tables: PPS (7.3.2.3), its multilayer (7.3.2.3.4) and
// screen content (7.3.2.3.3) extensions.  The range, 3D and colour mapping
// syntax is not supported by the library, which refuses it.
#include "spec.h"

namespace h265spec {

std::unique_ptr<H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState>
pps_multilayer_extension(BitBuffer* bb) {
  auto p = std::make_unique<
      H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState>();
  U(1, p->poc_reset_info_present_flag);
  U(1, p->pps_infer_scaling_list_flag);
  if (p->pps_infer_scaling_list_flag) U(6, p->pps_scaling_list_ref_layer_id);
  UE(p->num_ref_loc_offsets);
  for (uint32_t i = 0; i < p->num_ref_loc_offsets; i++) {
    UV(6, p->ref_loc_offset_layer_id);
    UV(1, p->scaled_ref_layer_offset_present_flag);
    if (p->scaled_ref_layer_offset_present_flag[i]) {
      SEV(p->scaled_ref_layer_left_offset);
      SEV(p->scaled_ref_layer_top_offset);
      SEV(p->scaled_ref_layer_right_offset);
      SEV(p->scaled_ref_layer_bottom_offset);
    }
    UV(1, p->ref_region_offset_present_flag);
    if (p->ref_region_offset_present_flag[i]) {
      SEV(p->ref_region_left_offset);
      SEV(p->ref_region_top_offset);
      SEV(p->ref_region_right_offset);
      SEV(p->ref_region_bottom_offset);
    }
    UV(1, p->resample_phase_set_present_flag);
    if (p->resample_phase_set_present_flag[i]) {
      UEV(p->phase_hor_luma);
      UEV(p->phase_ver_luma);
      UEV(p->phase_hor_chroma_plus8);
      UEV(p->phase_ver_chroma_plus8);
    }
  }
  U(1, p->colour_mapping_enabled_flag);
  REQ(p->colour_mapping_enabled_flag == 0);
  return p;
}

std::unique_ptr<H265PpsSccExtensionParser::PpsSccExtensionState>
pps_scc_extension(BitBuffer* bb) {
  auto p = std::make_unique<H265PpsSccExtensionParser::PpsSccExtensionState>();
  U(1, p->pps_curr_pic_ref_enabled_flag);
  U(1, p->residual_adaptive_colour_transform_enabled_flag);
  if (p->residual_adaptive_colour_transform_enabled_flag) {
    U(1, p->pps_slice_act_qp_offsets_present_flag);
    SE(p->pps_act_y_qp_offset_plus5);
    SE(p->pps_act_cb_qp_offset_plus5);
    SE(p->pps_act_cr_qp_offset_plus3);
  }
  U(1, p->pps_palette_predictor_initializer_present_flag);
  if (p->pps_palette_predictor_initializer_present_flag) {
    UE(p->pps_num_palette_predictor_initializer);
    if (p->pps_num_palette_predictor_initializer > 0) {
      U(1, p->monochrome_palette_flag);
      UE(p->luma_bit_depth_entry_minus8);
      if (!p->monochrome_palette_flag) UE(p->chroma_bit_depth_entry_minus8);
      const uint32_t numComps = p->monochrome_palette_flag ? 1 : 3;
      for (uint32_t comp = 0; comp < numComps; comp++) {
        p->pps_palette_predictor_initializers.emplace_back();
        for (uint32_t i = 0; i < p->pps_num_palette_predictor_initializer;
             i++) {
          const uint32_t depth = comp == 0
                                     ? p->luma_bit_depth_entry_minus8 + 8
                                     : p->chroma_bit_depth_entry_minus8 + 8;
          REQ(depth != 0);
          UV(depth, p->pps_palette_predictor_initializers[comp]);
        }
      }
    }
  }
  return p;
}

std::shared_ptr<H265PpsParser::PpsState> pps(BitBuffer* bb) {
  auto p = std::make_shared<H265PpsParser::PpsState>();
  UE(p->pps_pic_parameter_set_id);
  UE(p->pps_seq_parameter_set_id);
  U(1, p->dependent_slice_segments_enabled_flag);
  U(1, p->output_flag_present_flag);
  U(3, p->num_extra_slice_header_bits);
  U(1, p->sign_data_hiding_enabled_flag);
  U(1, p->cabac_init_present_flag);
  UE(p->num_ref_idx_l0_default_active_minus1);
  UE(p->num_ref_idx_l1_default_active_minus1);
  SE(p->init_qp_minus26);
  U(1, p->constrained_intra_pred_flag);
  U(1, p->transform_skip_enabled_flag);
  U(1, p->cu_qp_delta_enabled_flag);
  if (p->cu_qp_delta_enabled_flag) UE(p->diff_cu_qp_delta_depth);
  SE(p->pps_cb_qp_offset);
  SE(p->pps_cr_qp_offset);
  U(1, p->pps_slice_chroma_qp_offsets_present_flag);
  U(1, p->weighted_pred_flag);
  U(1, p->weighted_bipred_flag);
  U(1, p->transquant_bypass_enabled_flag);
  U(1, p->tiles_enabled_flag);
  U(1, p->entropy_coding_sync_enabled_flag);
  if (p->tiles_enabled_flag) {
    UE(p->num_tile_columns_minus1);
    UE(p->num_tile_rows_minus1);
    U(1, p->uniform_spacing_flag);
    if (!p->uniform_spacing_flag) {
      for (uint32_t i = 0; i < p->num_tile_columns_minus1; i++)
        UEV(p->column_width_minus1);
      for (uint32_t i = 0; i < p->num_tile_rows_minus1; i++)
        UEV(p->row_height_minus1);
    }
    U(1, p->loop_filter_across_tiles_enabled_flag);
  }
  U(1, p->pps_loop_filter_across_slices_enabled_flag);
  U(1, p->deblocking_filter_control_present_flag);
  if (p->deblocking_filter_control_present_flag) {
    U(1, p->deblocking_filter_override_enabled_flag);
    U(1, p->pps_deblocking_filter_disabled_flag);
    if (!p->pps_deblocking_filter_disabled_flag) {
      SE(p->pps_beta_offset_div2);
      SE(p->pps_tc_offset_div2);
    }
  }
  U(1, p->pps_scaling_list_data_present_flag);
  if (p->pps_scaling_list_data_present_flag) {
    SUB(p->scaling_list_data,
        H265ScalingListDataParser::ParseScalingListData(bb));
  }
  U(1, p->lists_modification_present_flag);
  UE(p->log2_parallel_merge_level_minus2);
  U(1, p->slice_segment_header_extension_present_flag);
  U(1, p->pps_extension_present_flag);
  if (p->pps_extension_present_flag) {
    U(1, p->pps_range_extension_flag);
    U(1, p->pps_multilayer_extension_flag);
    U(1, p->pps_3d_extension_flag);
    U(1, p->pps_scc_extension_flag);
    U(4, p->pps_extension_4bits);
  }
  REQ(!p->pps_range_extension_flag);  // unsupported, refused
  if (p->pps_multilayer_extension_flag) {
    SUB(p->pps_multilayer_extension,
        H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(bb));
  }
  REQ(!p->pps_3d_extension_flag);  // unsupported, refused
  if (p->pps_scc_extension_flag) {
    SUB(p->pps_scc_extension,
        H265PpsSccExtensionParser::ParsePpsSccExtension(bb));
  }
  if (p->pps_extension_4bits)
    while (more_rbsp_data(bb)) U(1, p->pps_extension_data_flag);
  rbsp_trailing_bits(bb);
  return p;
}

}  // namespace h265spec
