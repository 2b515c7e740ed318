// Containers: NAL units (7.3.1.1), the dispatch on nal_unit_type (table 7-1),
// RTP packets (RFC 7798), ISO base media configuration boxes (14496-15).
#include "spec.h"

namespace h265spec {

std::unique_ptr<H265NalUnitParser::NalUnitState> nal_unit(
    BitBuffer* bb, struct H265BitstreamParserState* state,
    ParsingOptions options) {
  auto n = std::make_unique<H265NalUnitParser::NalUnitState>();
  if (options.add_checksum) n->checksum = NaluChecksum::GetNaluChecksum(bb);
  SUB(n->nal_unit_header, H265NalUnitHeaderParser::ParseNalUnitHeader(bb));
  SUB(n->nal_unit_payload,
      H265NalUnitPayloadParser::ParseNalUnitPayload(
          bb, n->nal_unit_header->nal_unit_type, state));
  n->parsed_length = get_current_offset(bb);
  return n;
}

std::unique_ptr<H265NalUnitPayloadParser::NalUnitPayloadState>
nal_unit_payload(BitBuffer* bb, uint32_t nal_unit_type,
                 struct H265BitstreamParserState* state) {
  auto p = std::make_unique<H265NalUnitPayloadParser::NalUnitPayloadState>();
  const uint32_t t = nal_unit_type;
  if (t <= 9 || (t >= 16 && t <= 21)) {
    p->slice_segment_layer =
        H265SliceSegmentLayerParser::ParseSliceSegmentLayer(bb, t, state);
  } else if (t == 32) {
    p->vps = H265VpsParser::ParseVps(bb);
    if (p->vps != nullptr)
      state->vps[p->vps->vps_video_parameter_set_id] = p->vps;
  } else if (t == 33) {
    p->sps = H265SpsParser::ParseSps(bb);
    if (p->sps != nullptr) state->sps[p->sps->sps_seq_parameter_set_id] = p->sps;
  } else if (t == 34) {
    p->pps = H265PpsParser::ParsePps(bb);
    if (p->pps != nullptr) state->pps[p->pps->pps_pic_parameter_set_id] = p->pps;
  } else if (t == 35) {
    p->aud = H265AudParser::ParseAud(bb);
  } else if (t == 39 || t == 40) {
    p->sei = H265SeiMessageParser::ParseSei(bb);
  }
  return p;
}

#ifdef RTP_DEFINE
std::unique_ptr<H265RtpSingleParser::RtpSingleState> rtp_single(
    BitBuffer* bb, struct H265BitstreamParserState* state) {
  auto r = std::make_unique<H265RtpSingleParser::RtpSingleState>();
  SUB(r->nal_unit_header, H265NalUnitHeaderParser::ParseNalUnitHeader(bb));
  SUB(r->nal_unit_payload,
      H265NalUnitPayloadParser::ParseNalUnitPayload(
          bb, r->nal_unit_header->nal_unit_type, state));
  return r;
}

std::unique_ptr<H265RtpApParser::RtpApState> rtp_ap(
    BitBuffer* bb, struct H265BitstreamParserState* state) {
  auto r = std::make_unique<H265RtpApParser::RtpApState>();
  SUB(r->header, H265NalUnitHeaderParser::ParseNalUnitHeader(bb));
  while (bb->RemainingBitCount() > 0) {
    uint32_t size;
    U(16, size);
    REQ(size * 8 <= bb->RemainingBitCount());
    r->nal_unit_sizes.push_back(size);
    auto h = H265NalUnitHeaderParser::ParseNalUnitHeader(bb);
    REQ(h != nullptr);
    const uint32_t type = h->nal_unit_type;
    r->nal_unit_headers.push_back(std::move(h));
    auto p = H265NalUnitPayloadParser::ParseNalUnitPayload(bb, type, state);
    REQ(p != nullptr);
    r->nal_unit_payloads.push_back(std::move(p));
  }
  return r;
}

std::unique_ptr<H265RtpFuParser::RtpFuState> rtp_fu(
    BitBuffer* bb, struct H265BitstreamParserState* state) {
  auto r = std::make_unique<H265RtpFuParser::RtpFuState>();
  SUB(r->header, H265NalUnitHeaderParser::ParseNalUnitHeader(bb));
  U(1, r->s_bit);
  U(1, r->e_bit);
  U(6, r->fu_type);
  if (r->s_bit) {
    SUB(r->nal_unit_payload, H265NalUnitPayloadParser::ParseNalUnitPayload(
                                 bb, r->fu_type, state));
  }
  return r;
}

std::unique_ptr<H265RtpParser::RtpState> rtp(
    BitBuffer* bb, struct H265BitstreamParserState* state) {
  auto r = std::make_unique<H265RtpParser::RtpState>();
  SUB(r->nal_unit_header, H265NalUnitHeaderParser::ParseNalUnitHeader(bb));
  bb->Seek(0, 0);
  const uint32_t t = r->nal_unit_header->nal_unit_type;
  if (t < 48) {
    SUB(r->rtp_single, H265RtpSingleParser::ParseRtpSingle(bb, state));
  } else if (t == 48) {
    SUB(r->rtp_ap, H265RtpApParser::ParseRtpAp(bb, state));
  } else if (t == 49) {
    SUB(r->rtp_fu, H265RtpFuParser::ParseRtpFu(bb, state));
  }
  return r;
}
#endif

std::shared_ptr<H265ConfigurationBoxParser::ConfigurationBoxState>
configuration_box(BitBuffer* bb, struct H265BitstreamParserState* state,
                  ParsingOptions options) {
  auto b =
      std::make_shared<H265ConfigurationBoxParser::ConfigurationBoxState>();
  U(8, b->configurationVersion);
  REQ(b->configurationVersion == 1);
  U(2, b->general_profile_space);
  U(1, b->general_tier_flag);
  U(5, b->general_profile_idc);
  for (uint32_t j = 0; j < 32; j++)
    U(1, b->general_profile_compatibility_flags[j]);
  U(48, b->general_constraint_indicator_flags);
  U(8, b->general_level_idc);
  U(4, b->reserved1);
  REQ(b->reserved1 == 15);
  U(12, b->min_spatial_segmentation_idc);
  U(6, b->reserved2);
  REQ(b->reserved2 == 63);
  U(2, b->parallelismType);
  U(6, b->reserved3);
  REQ(b->reserved3 == 63);
  U(2, b->chroma_format_idc);
  U(5, b->reserved4);
  REQ(b->reserved4 == 31);
  U(3, b->bit_depth_luma_minus8);
  U(5, b->reserved5);
  REQ(b->reserved5 == 31);
  U(3, b->bit_depth_chroma_minus8);
  U(16, b->avgFrameRate);
  U(2, b->constantFrameRate);
  U(3, b->numTemporalLayers);
  U(1, b->temporalIdNested);
  U(2, b->lengthSizeMinusOne);
  U(8, b->numOfArrays);
  for (uint32_t j = 0; j < b->numOfArrays; j++) {
    UV(1, b->array_completeness);
    UV(1, b->reserved6);
    REQ(b->reserved6[j] == 0);
    UV(6, b->NAL_unit_type);
    UV(16, b->numNalus);
    b->nalUnitLength.emplace_back();
    b->nalUnit.emplace_back();
    for (uint32_t i = 0; i < b->numNalus[j]; i++) {
      UV(16, b->nalUnitLength[j]);
      const size_t length = b->nalUnitLength[j][i];
      std::vector<uint8_t> bytes(length);
      if (!bb->ReadBytes(length, bytes.data())) return nullptr;
      // a NAL unit that cannot be parsed is kept as an empty slot
      b->nalUnit[j].push_back(H265NalUnitParser::ParseNalUnit(
          bytes.data(), length, state, options));
    }
  }
  return b;
}

}  // namespace h265spec
