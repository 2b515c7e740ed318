// Supplemental enhancement information: sei_message (7.3.5), payloads (D.2).
#include "spec.h"

namespace h265spec {

typedef std::unique_ptr<H265SeiPayloadParser::H265SeiPayloadState> Payload;

#define BYTES(p)                                        \
  REQ(left <= bb->RemainingBitCount() / 8);             \
  (p).resize(left);                                     \
  for (uint32_t i = 0; i < left; i++) U(8, (p)[i])

Payload sei_user_data_registered(BitBuffer* bb, uint32_t payload_size) {
  REQ(payload_size != 0);
  uint32_t left = payload_size;
  auto p = std::make_unique<
      H265SeiUserDataRegisteredItuTT35Parser::H265SeiUserDataRegisteredItuTT35State>();
  if (!bb->ReadUInt8(p->itu_t_t35_country_code)) return nullptr;
  left--;
  if (p->itu_t_t35_country_code == 0xff) {
    REQ(left > 0);
    if (!bb->ReadUInt8(p->itu_t_t35_country_code_extension_byte))
      return nullptr;
    left--;
  }
  REQ(left <= bb->RemainingBitCount() / 8);
  p->payload.resize(left);
  for (size_t i = 0; i < p->payload.size(); i++)
    if (!bb->ReadUInt8(p->payload[i])) return nullptr;
  return p;
}

Payload sei_user_data_unregistered(BitBuffer* bb, uint32_t payload_size) {
  REQ(payload_size >= 16);
  auto p = std::make_unique<
      H265SeiUserDataUnregisteredParser::H265SeiUserDataUnregisteredState>();
  uint32_t hi, lo;
  U(32, hi);
  U(32, lo);
  p->uuid_iso_iec_11578_1 = ((uint64_t)hi << 32) | lo;
  U(32, hi);
  U(32, lo);
  p->uuid_iso_iec_11578_2 = ((uint64_t)hi << 32) | lo;
  const uint32_t left = payload_size - 16;
  REQ(left <= bb->RemainingBitCount() / 8);
  p->payload.resize(left);
  for (size_t i = 0; i < p->payload.size(); i++)
    if (!bb->ReadUInt8(p->payload[i])) return nullptr;
  return p;
}

Payload sei_unknown(BitBuffer* bb, uint32_t payload_size) {
  REQ(payload_size != 0);
  auto p = std::make_unique<H265SeiUnknownParser::H265SeiUnknownState>();
  REQ(payload_size <= bb->RemainingBitCount() / 8);
  p->payload.resize(payload_size);
  for (size_t i = 0; i < p->payload.size(); i++)
    if (!bb->ReadUInt8(p->payload[i])) return nullptr;
  return p;
}

Payload sei_alpha_channel_info(BitBuffer* bb, uint32_t) {
  auto p = std::make_unique<
      H265SeiAlphaChannelInfoParser::H265SeiAlphaChannelInfoState>();
  U(1, p->alpha_channel_cancel_flag);
  if (!p->alpha_channel_cancel_flag) {
    U(3, p->alpha_channel_use_idc);
    U(3, p->alpha_channel_bit_depth_minus8);
    U(p->alpha_channel_bit_depth_minus8 + 9, p->alpha_transparent_value);
    U(p->alpha_channel_bit_depth_minus8 + 9, p->alpha_opaque_value);
    U(1, p->alpha_channel_incr_flag);
    U(1, p->alpha_channel_clip_flag);
    if (p->alpha_channel_clip_flag) U(1, p->alpha_channel_clip_type_flag);
  }
  return p;
}

// fields narrower than 32 bits
#define UN(n, f, t)     \
  do {                  \
    uint32_t t_;        \
    U(n, t_);           \
    f = static_cast<t>(t_); \
  } while (0)

Payload sei_mastering_display(BitBuffer* bb, uint32_t) {
  auto p = std::make_unique<H265SeiMasteringDisplayColourVolumeParser::
                                H265SeiMasteringDisplayColourVolumeState>();
  for (int c = 0; c < 3; c++) {
    UN(16, p->display_primaries_x[c], uint16_t);
    UN(16, p->display_primaries_y[c], uint16_t);
  }
  UN(16, p->white_point_x, uint16_t);
  UN(16, p->white_point_y, uint16_t);
  U(32, p->max_display_mastering_luminance);
  U(32, p->min_display_mastering_luminance);
  return p;
}

Payload sei_content_light_level(BitBuffer* bb, uint32_t) {
  auto p = std::make_unique<
      H265SeiContentLightLevelInfoParser::H265SeiContentLightLevelInfoState>();
  UN(16, p->max_content_light_level, uint16_t);
  UN(16, p->max_pic_average_light_level, uint16_t);
  return p;
}

Payload sei_knee_function(BitBuffer* bb, uint32_t) {
  auto p = std::make_unique<
      H265SeiKneeFunctionInfoParser::H265SeiKneeFunctionInfoState>();
  UE(p->knee_function_id);
  U(1, p->knee_function_cancel_flag);
  if (!p->knee_function_cancel_flag) {
    U(1, p->knee_function_persistence_flag);
    U(32, p->input_d_range);
    U(32, p->input_disp_luminance);
    U(32, p->output_d_range);
    U(32, p->output_disp_luminance);
    UE(p->num_knee_points_minus1);
    for (uint32_t i = 0; i <= p->num_knee_points_minus1; i++) {
      uint32_t v;
      U(10, v);
      p->input_knee_point.push_back(static_cast<uint16_t>(v));
      uint32_t w;
      U(10, w);
      p->output_knee_point.push_back(static_cast<uint16_t>(w));
    }
  }
  return p;
}

Payload sei_colour_remapping(BitBuffer* bb, uint32_t) {
  auto p = std::make_unique<
      H265SeiColourRemappingInfoParser::H265SeiColourRemappingInfoState>();
  UE(p->colour_remap_id);
  U(1, p->colour_remap_cancel_flag);
  if (!p->colour_remap_cancel_flag) {
    U(1, p->colour_remap_persistence_flag);
    U(1, p->colour_remap_video_signal_info_present_flag);
    if (p->colour_remap_video_signal_info_present_flag) {
      U(1, p->colour_remap_full_range_flag);
      UN(8, p->colour_remap_primaries, uint8_t);
      UN(8, p->colour_remap_transfer_function, uint8_t);
      UN(8, p->colour_remap_matrix_coefficients, uint8_t);
    }
    UN(8, p->colour_remap_input_bit_depth, uint8_t);
    UN(8, p->colour_remap_output_bit_depth, uint8_t);
    REQ(p->colour_remap_input_bit_depth != 0);
    REQ(p->colour_remap_output_bit_depth != 0);
    // D.3.33: the coded width is the depth rounded up to whole bytes
    const uint32_t in_bits = static_cast<uint32_t>(
        ((p->colour_remap_input_bit_depth + 7) >> 3) << 3);
    const uint32_t out_bits = static_cast<uint32_t>(
        ((p->colour_remap_output_bit_depth + 7) >> 3) << 3);
    p->pre_lut_coded_value.resize(3);
    p->pre_lut_target_value.resize(3);
    for (size_t c = 0; c < 3; c++) {
      UN(8, p->pre_lut_num_val_minus1[c], uint8_t);
      if (p->pre_lut_num_val_minus1[c] > 0) {
        for (uint32_t i = 0; i <= p->pre_lut_num_val_minus1[c]; i++) {
          UV(in_bits, p->pre_lut_coded_value[c]);
          UV(out_bits, p->pre_lut_target_value[c]);
        }
      }
    }
    U(1, p->colour_remap_matrix_present_flag);
    if (p->colour_remap_matrix_present_flag) {
      U(4, p->log2_matrix_denom);
      p->colour_remap_coeffs.resize(3);
      for (size_t c = 0; c < 3; c++) {
        p->colour_remap_coeffs[c].resize(3);
        for (size_t i = 0; i < 3; i++) {
          int32_t v;
          SE(v);
          p->colour_remap_coeffs[c][i] = v;
        }
      }
    }
    p->post_lut_coded_value.resize(3);
    p->post_lut_target_value.resize(3);
    for (size_t c = 0; c < 3; c++) {
      UN(8, p->post_lut_num_val_minus1[c], uint8_t);
      if (p->post_lut_num_val_minus1[c] > 0) {
        for (uint32_t i = 0; i <= p->post_lut_num_val_minus1[c]; i++) {
          UV(out_bits, p->post_lut_coded_value[c]);
          UV(out_bits, p->post_lut_target_value[c]);
        }
      }
    }
  }
  return p;
}

Payload sei_content_colour_volume(BitBuffer* bb, uint32_t) {
  auto p = std::make_unique<H265SeiContentColourVolumeParser::
                                H265SeiContentColourVolumeState>();
  U(1, p->ccv_cancel_flag);
  if (!p->ccv_cancel_flag) {
    U(1, p->ccv_persistence_flag);
    U(1, p->ccv_primaries_present_flag);
    U(1, p->ccv_min_luminance_value_present_flag);
    U(1, p->ccv_max_luminance_value_present_flag);
    U(1, p->ccv_avg_luminance_value_present_flag);
    U(2, p->ccv_reserved_zero_2bits);
    if (p->ccv_primaries_present_flag) {
      for (int c = 0; c < 3; c++) {
        UN(32, p->ccv_primaries_x[c], int32_t);
        UN(32, p->ccv_primaries_y[c], int32_t);
      }
    }
    if (p->ccv_min_luminance_value_present_flag)
      U(32, p->ccv_min_luminance_value);
    if (p->ccv_max_luminance_value_present_flag)
      U(32, p->ccv_max_luminance_value);
    if (p->ccv_avg_luminance_value_present_flag)
      U(32, p->ccv_avg_luminance_value);
  }
  return p;
}

Payload sei_alternative_transfer(BitBuffer* bb, uint32_t) {
  auto p = std::make_unique<H265SeiAlternativeTransferCharacteristicsParser::
                                H265SeiAlternativeTransferCharacteristicsState>();
  UN(8, p->preferred_transfer_characteristics, uint8_t);
  return p;
}

Payload sei_ambient_viewing(BitBuffer* bb, uint32_t) {
  auto p = std::make_unique<H265SeiAmbientViewingEnvironmentParser::
                                H265SeiAmbientViewingEnvironmentState>();
  U(32, p->ambient_illuminance);
  UN(16, p->ambient_light_x, uint16_t);
  UN(16, p->ambient_light_y, uint16_t);
  return p;
}

std::unique_ptr<H265SeiMessageParser::SeiMessageState> sei(BitBuffer* bb) {
  auto s = std::make_unique<H265SeiMessageParser::SeiMessageState>();
  uint32_t type = 0, size = 0, byte = 0xff;
  while (byte == 0xff) {
    U(8, byte);
    REQ(type <= UINT32_MAX - byte);
    type += byte;
  }
  s->payload_type = static_cast<SeiType>(type);
  byte = 0xff;
  while (byte == 0xff) {
    U(8, byte);
    REQ(size <= UINT32_MAX - byte);
    size += byte;
  }
  s->payload_size = size;
  std::unique_ptr<H265SeiPayloadParser> q = nullptr;
  if (type == 4) {
    q = std::make_unique<H265SeiUserDataRegisteredItuTT35Parser>();
  } else if (type == 5) {
    q = std::make_unique<H265SeiUserDataUnregisteredParser>();
  } else if (type == 137) {
    q = std::make_unique<H265SeiMasteringDisplayColourVolumeParser>();
  } else if (type == 144) {
    q = std::make_unique<H265SeiContentLightLevelInfoParser>();
  } else if (type == 141) {
    q = std::make_unique<H265SeiKneeFunctionInfoParser>();
  } else if (type == 142) {
    q = std::make_unique<H265SeiColourRemappingInfoParser>();
  } else if (type == 149) {
    q = std::make_unique<H265SeiContentColourVolumeParser>();
  } else if (type == 147) {
    q = std::make_unique<H265SeiAlternativeTransferCharacteristicsParser>();
  } else if (type == 148) {
    q = std::make_unique<H265SeiAmbientViewingEnvironmentParser>();
  } else if (type == 165) {
    q = std::make_unique<H265SeiAlphaChannelInfoParser>();
  } else {
    q = std::make_unique<H265SeiUnknownParser>();
  }
  s->payload_state = q->parse_payload(bb, size);
  return s;
}

}  // namespace h265spec
