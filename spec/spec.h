// Reference syntax tables for H.265 (ITU-T H.265 v5, 02/2018 and 2016/12),
// written down independently of the code under analysis.
//
// These functions are never compiled into a program and never run: they are
// lowered by the same compiler plugin as the project's sources, and the
// resulting gated event graphs are compared with those of the project's
// parsers (see sa/conform.py).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <memory>
#include <vector>

#include "h265_aud_parser.h"
#include "h265_bitstream_parser.h"
#include "h265_bitstream_parser_state.h"
#include "h265_common.h"
#include "h265_configuration_box_parser.h"
#include "h265_hrd_parameters_parser.h"
#include "h265_nal_unit_header_parser.h"
#include "h265_nal_unit_parser.h"
#include "h265_nal_unit_payload_parser.h"
#include "h265_pps_multilayer_extension_parser.h"
#include "h265_pps_parser.h"
#include "h265_pps_scc_extension_parser.h"
#include "h265_pred_weight_table_parser.h"
#include "h265_profile_tier_level_parser.h"
#ifdef RTP_DEFINE
#include "h265_rtp_ap_parser.h"
#include "h265_rtp_fu_parser.h"
#include "h265_rtp_parser.h"
#include "h265_rtp_single_parser.h"
#endif
#include "h265_scaling_list_data_parser.h"
#include "h265_sei_parser.h"
#include "h265_slice_parser.h"
#include "h265_sps_3d_extension_parser.h"
#include "h265_sps_multilayer_extension_parser.h"
#include "h265_sps_parser.h"
#include "h265_sps_range_extension_parser.h"
#include "h265_sps_scc_extension_parser.h"
#include "h265_st_ref_pic_set_parser.h"
#include "h265_sub_layer_hrd_parameters_parser.h"
#include "h265_utils.h"
#include "h265_vps_parser.h"
#include "h265_vui_parameters_parser.h"
#include "rtc_common.h"

namespace h265spec {
using namespace h265nal;

// a value the tables leave open
uint32_t any();
// the derivation (7-61), (7-62) of an inter predicted short-term RPS; it has a
// reference of its own (pure.cc) and is a single step here
bool derive(H265StRefPicSetParser::StRefPicSetState* s,
            const std::vector<std::unique_ptr<
                H265StRefPicSetParser::StRefPicSetState>>* sets,
            uint32_t RefRpsIdx);

// u(n), ue(v), se(v) into a field; ...V appends to a vector
#define U(n, f) \
  if (!bb->ReadBits(n, f)) return nullptr
#define UE(f) \
  if (!bb->ReadExponentialGolomb(f)) return nullptr
#define SE(f) \
  if (!bb->ReadSignedExponentialGolomb(f)) return nullptr
#define UV(n, v)                               \
  do {                                         \
    uint32_t tmp_;                             \
    if (!bb->ReadBits(n, tmp_)) return nullptr; \
    (v).push_back(tmp_);                       \
  } while (0)
#define UEV(v)                                              \
  do {                                                      \
    uint32_t tmp_;                                          \
    if (!bb->ReadExponentialGolomb(tmp_)) return nullptr;   \
    (v).push_back(tmp_);                                    \
  } while (0)
#define SEV(v)                                                   \
  do {                                                           \
    int32_t tmp_;                                                \
    if (!bb->ReadSignedExponentialGolomb(tmp_)) return nullptr;  \
    (v).push_back(tmp_);                                         \
  } while (0)
// a constraint whose violation makes the structure invalid
#define REQ(c) \
  if (!(c)) return nullptr
// a mandatory sub-structure
#define SUB(f, call) \
  f = call;          \
  if (f == nullptr) return nullptr
}  // namespace h265spec
