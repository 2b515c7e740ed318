// Reference for classifications, names and derived values.
#include <string>

#include "spec.h"
#include "h265_vui_parameters_parser.h"

namespace h265spec {
namespace pure {

// ---- Table 7-1 ------------------------------------------------------------
bool IsSliceSegment(uint32_t t) {
  return t <= 9 || (t >= 16 && t <= 21);
}
bool IsNalUnitTypeVcl(uint32_t t) { return t <= 31; }
bool IsNalUnitTypeNonVcl(uint32_t t) { return t >= 32 && t <= 63; }
bool IsNalUnitTypeUnspecified(uint32_t t) { return t >= 48 && t <= 63; }

std::string NalUnitTypeToString(uint32_t t) {
  if (t == 0) return "trail_n";
  if (t == 1) return "trail_r";
  if (t == 2) return "tsa_n";
  if (t == 3) return "tsa_r";
  if (t == 4) return "stsa_n";
  if (t == 5) return "stsa_r";
  if (t == 6) return "radl_n";
  if (t == 7) return "radl_r";
  if (t == 8) return "rasl_n";
  if (t == 9) return "rasl_r";
  if (t == 10) return "rsv_vcl_n10";
  if (t == 11) return "rsv_vcl_r11";
  if (t == 12) return "rsv_vcl_n12";
  if (t == 13) return "rsv_vcl_r13";
  if (t == 14) return "rsv_vcl_n14";
  if (t == 15) return "rsv_vcl_r15";
  if (t == 16) return "bla_w_lp";
  if (t == 17) return "bla_w_radl";
  if (t == 18) return "bla_n_lp";
  if (t == 19) return "idr_w_radl";
  if (t == 20) return "idr_n_lp";
  if (t == 21) return "cra";
  if (t == 22) return "rsv_irap_vcl22";
  if (t == 23) return "rsv_irap_vcl23";
  if (t == 24) return "rsv_vcl24";
  if (t == 25) return "rsv_vcl25";
  if (t == 26) return "rsv_vcl26";
  if (t == 27) return "rsv_vcl27";
  if (t == 28) return "rsv_vcl28";
  if (t == 29) return "rsv_vcl29";
  if (t == 30) return "rsv_vcl30";
  if (t == 31) return "rsv_vcl31";
  if (t == 32) return "vps";
  if (t == 33) return "sps";
  if (t == 34) return "pps";
  if (t == 35) return "aud";
  if (t == 36) return "eos";
  if (t == 37) return "eob";
  if (t == 38) return "fd";
  if (t == 39) return "prefix_sei";
  if (t == 40) return "suffix_sei";
  if (t == 41) return "rsv_nvcl41";
  if (t == 42) return "rsv_nvcl42";
  if (t == 43) return "rsv_nvcl43";
  if (t == 44) return "rsv_nvcl44";
  if (t == 45) return "rsv_nvcl45";
  if (t == 46) return "rsv_nvcl46";
  if (t == 47) return "rsv_nvcl47";
  if (t == 48) return "ap";   // RFC 7798
  if (t == 49) return "fu";   // RFC 7798
  if (t == 50) return "unspec50";
  if (t == 51) return "unspec51";
  if (t == 52) return "unspec52";
  if (t == 53) return "unspec53";
  if (t == 54) return "unspec54";
  if (t == 55) return "unspec55";
  if (t == 56) return "unspec56";
  if (t == 57) return "unspec57";
  if (t == 58) return "unspec58";
  if (t == 59) return "unspec59";
  if (t == 60) return "unspec60";
  if (t == 61) return "unspec61";
  if (t == 62) return "unspec62";
  if (t == 63) return "unspec63";
  return "unknown";
}

// ---- Annex A, F, G, H, I profiles -------------------------------------------
using Profile = H265ProfileInfoParser::ProfileInfoState;

// general_max_12bit .. general_one_picture_only as in a row of Table A.2
bool row(const Profile* p, uint32_t b12, uint32_t b10, uint32_t b8, uint32_t c422,
         uint32_t c420, uint32_t mono, uint32_t intra, uint32_t one) {
  return p->max_12bit_constraint_flag == b12 && p->max_10bit_constraint_flag == b10 &&
         p->max_8bit_constraint_flag == b8 && p->max_422chroma_constraint_flag == c422 &&
         p->max_420chroma_constraint_flag == c420 &&
         p->max_monochrome_constraint_flag == mono && p->intra_constraint_flag == intra &&
         p->one_picture_only_constraint_flag == one;
}

uint32_t GetProfileType(const Profile* p) {
  if (p->profile_space != 0) return 0;
  uint32_t idc = p->profile_idc;
  bool low = p->lower_bit_rate_constraint_flag == 1;
  bool b14 = p->max_14bit_constraint_flag == 1;
  if (idc == 1) return 1;
  if (idc == 2) return p->one_picture_only_constraint_flag == 1 ? 100 : 2;
  if (idc == 3) return 3;
  if (idc == 4) {
    // Table A.2
    if (row(p, 1, 1, 1, 1, 1, 1, 0, 0) && low) return 101;
    if (row(p, 1, 1, 0, 1, 1, 1, 0, 0) && low) return 102;
    if (row(p, 1, 0, 0, 1, 1, 1, 0, 0) && low) return 103;
    if (row(p, 0, 0, 0, 1, 1, 1, 0, 0) && low) return 104;
    if (row(p, 1, 0, 0, 1, 1, 0, 0, 0) && low) return 105;
    if (row(p, 1, 1, 0, 1, 0, 0, 0, 0) && low) return 106;
    if (row(p, 1, 0, 0, 1, 0, 0, 0, 0) && low) return 107;
    if (row(p, 1, 1, 1, 0, 0, 0, 0, 0) && low) return 108;
    if (row(p, 1, 1, 0, 0, 0, 0, 0, 0) && low) return 109;
    if (row(p, 1, 0, 0, 0, 0, 0, 0, 0) && low) return 110;
    if (row(p, 1, 1, 1, 1, 1, 0, 1, 0)) return 111;
    if (row(p, 1, 1, 0, 1, 1, 0, 1, 0)) return 112;
    if (row(p, 1, 0, 0, 1, 1, 0, 1, 0)) return 113;
    if (row(p, 1, 1, 0, 1, 0, 0, 1, 0)) return 114;
    if (row(p, 1, 0, 0, 1, 0, 0, 1, 0)) return 115;
    if (row(p, 1, 1, 1, 0, 0, 0, 1, 0)) return 116;
    if (row(p, 1, 1, 0, 0, 0, 0, 1, 0)) return 117;
    if (row(p, 1, 0, 0, 0, 0, 0, 1, 0)) return 118;
    if (row(p, 0, 0, 0, 0, 0, 0, 1, 0)) return 119;
    if (row(p, 1, 1, 1, 0, 0, 0, 1, 1)) return 120;
    if (row(p, 0, 0, 0, 0, 0, 0, 1, 1)) return 121;
    // combinations that have a name but no row
    if (row(p, 1, 1, 1, 1, 1, 1, 1, 1)) return 150;
    if (row(p, 1, 1, 0, 1, 1, 1, 1, 1)) return 151;
    if (row(p, 1, 1, 1, 1, 1, 0, 1, 1)) return 3;
    if (row(p, 1, 1, 0, 1, 1, 0, 1, 1)) return 100;
    if (row(p, 1, 1, 0, 0, 0, 0, 1, 1)) return 152;
    return 4;
  }
  if (idc == 5) {
    // Table A.3
    if (b14 && row(p, 1, 1, 1, 0, 0, 0, 0, 0) && low) return 122;
    if (b14 && row(p, 1, 1, 0, 0, 0, 0, 0, 0) && low) return 123;
    if (b14 && row(p, 0, 0, 0, 0, 0, 0, 0, 0) && low) return 124;
    if (!b14 && row(p, 0, 0, 0, 0, 0, 0, 1, 0)) return 125;
    return 5;
  }
  if (idc == 6) return 6;
  if (idc == 7) {
    // H.11.1.1
    if (row(p, 1, 1, 1, 1, 1, 0, 0, 0) && low) return 126;
    if (row(p, 1, 1, 0, 1, 1, 0, 0, 0) && low) return 127;
    return 7;
  }
  if (idc == 8) return 8;
  if (idc == 9) {
    // Table A.5
    if (b14 && row(p, 1, 1, 1, 1, 1, 0, 0, 0) && low) return 128;
    if (b14 && row(p, 1, 1, 0, 1, 1, 0, 0, 0) && low) return 129;
    if (b14 && row(p, 1, 1, 1, 0, 0, 0, 0, 0) && low) return 130;
    if (b14 && row(p, 1, 1, 0, 0, 0, 0, 0, 0) && low) return 131;
    return 9;
  }
  if (idc == 10) return 10;
  if (idc == 11) {
    // Table A.7
    if (b14 && row(p, 1, 1, 1, 0, 0, 0, 0, 0) && low) return 132;
    if (b14 && row(p, 1, 1, 0, 0, 0, 0, 0, 0) && low) return 133;
    if (b14 && row(p, 0, 0, 0, 0, 0, 0, 0, 0) && low) return 134;
    return 11;
  }
  if (idc == 12) return 12;
  if (idc == 13) return 13;
  return 0;
}

void profileTypeToString(uint8_t t, std::string& s) {
  if (t == 0) s = "Unspecified";
  else if (t == 1) s = "Main";
  else if (t == 2) s = "Main 10";
  else if (t == 3) s = "Main Still Picture";
  else if (t == 4) s = "FRExt";
  else if (t == 5) s = "High Throughput";
  else if (t == 6) s = "Multiview Main";
  else if (t == 7) s = "Scalable";
  else if (t == 8) s = "3D-Main";
  else if (t == 9) s = "Screen-Extended";
  else if (t == 10) s = "Multilayer (Annex F)";
  else if (t == 11) s = "Screen-Extended High-Throughput";
  else if (t == 12) s = "Multiview Extended";
  else if (t == 13) s = "Multiview Extended 10";
  else if (t == 100) s = "Main 10 Still Picture";
  else if (t == 101) s = "Monochrome (8-bit)";
  else if (t == 102) s = "Monochrome (10-bit)";
  else if (t == 103) s = "Monochrome (12-bit)";
  else if (t == 104) s = "Monochrome (16-bit)";
  else if (t == 105) s = "Main 12";
  else if (t == 106) s = "Main 4:2:2 10";
  else if (t == 107) s = "Main 4:2:2 12";
  else if (t == 108) s = "Main 4:4:4";
  else if (t == 109) s = "Main 4:4:4 10";
  else if (t == 110) s = "Main 4:4:4 12";
  else if (t == 111) s = "Main Intra";
  else if (t == 112) s = "Main 10 Intra";
  else if (t == 113) s = "Main 12 Intra";
  else if (t == 114) s = "Main 4:2:2 10 Intra";
  else if (t == 115) s = "Main 4:2:2 12 Intra";
  else if (t == 116) s = "Main 4:4:4 Intra";
  else if (t == 117) s = "Main 4:4:4 10 Intra";
  else if (t == 118) s = "Main 4:4:4 12 Intra";
  else if (t == 119) s = "Main 4:4:4 16 Intra";
  else if (t == 120) s = "Main 4:4:4 Still Picture";
  else if (t == 121) s = "Main 4:4:4 16 Still Picture";
  else if (t == 122) s = "High Throughput 4:4:4";
  else if (t == 123) s = "High Throughput 4:4:4 10";
  else if (t == 124) s = "High Throughput 4:4:4 14";
  else if (t == 125) s = "High Throughput 4:4:4 16 Intra";
  else if (t == 126) s = "Scalable Main";
  else if (t == 127) s = "Scalable Main 10";
  else if (t == 128) s = "Screen-Extended Main";
  else if (t == 129) s = "Screen-Extended Main 10";
  else if (t == 130) s = "Screen-Extended Main 4:4:4";
  else if (t == 131) s = "Screen-Extended Main 4:4:4 10";
  else if (t == 132) s = "Screen-Extended High Throughput 4:4:4";
  else if (t == 133) s = "Screen-Extended High Throughput 4:4:4 10";
  else if (t == 134) s = "Screen-Extended High Throughput 4:4:4 14";
  else if (t == 150) s = "Monochrome (8-bit) Still Picture";
  else if (t == 151) s = "Monochrome (10-bit) Still Picture";
  else if (t == 152) s = "Main 4:4:4 10 Still Picture";
  else s = "Unknown";
}

// ---- derived values ----------------------------------------------------------
using Sps = H265SpsParser::SpsState;

uint32_t MinCbLog2SizeY(const Sps* s) { return s->log2_min_luma_coding_block_size_minus3 + 3; }
uint32_t CtbLog2SizeY(const Sps* s) {
  return s->log2_min_luma_coding_block_size_minus3 + 3 +
         s->log2_diff_max_min_luma_coding_block_size;
}
uint32_t MinCbSizeY(const Sps* s) { return 1 << MinCbLog2SizeY(s); }
uint32_t CtbSizeY(const Sps* s) { return 1 << CtbLog2SizeY(s); }
uint32_t PicWidthInMinCbsY(const Sps* s) { return s->pic_width_in_luma_samples / MinCbSizeY(s); }
uint32_t PicHeightInMinCbsY(const Sps* s) { return s->pic_height_in_luma_samples / MinCbSizeY(s); }
uint32_t PicWidthInCtbsY(const Sps* s) {
  return static_cast<uint32_t>(std::ceil(1.0 * s->pic_width_in_luma_samples / CtbSizeY(s)));
}
uint32_t PicHeightInCtbsY(const Sps* s) {
  return static_cast<uint32_t>(std::ceil(1.0 * s->pic_height_in_luma_samples / CtbSizeY(s)));
}
uint32_t PicSizeInMinCbsY(const Sps* s) { return PicWidthInMinCbsY(s) * PicHeightInMinCbsY(s); }
uint32_t PicSizeInCtbsY(const Sps* s) { return PicWidthInCtbsY(s) * PicHeightInCtbsY(s); }
uint32_t PicSizeInSamplesY(const Sps* s) {
  return s->pic_width_in_luma_samples * s->pic_height_in_luma_samples;
}
// Table 6-1
int SubWidthC(const Sps* s) {
  uint32_t f = s->chroma_format_idc;
  bool sep = s->separate_colour_plane_flag == 1;
  if (f == 3) return 1;
  if (sep) return -1;
  if (f == 0) return 1;
  return 2;
}
int SubHeightC(const Sps* s) {
  uint32_t f = s->chroma_format_idc;
  bool sep = s->separate_colour_plane_flag == 1;
  if (f == 3) return 1;
  if (sep) return -1;
  return f == 1 ? 2 : 1;
}
int Resolution(const Sps* s, int* width, int* height) {
  *width = static_cast<int>(s->pic_width_in_luma_samples) -
           SubWidthC(s) * (static_cast<int>(s->conf_win_left_offset) +
                           static_cast<int>(s->conf_win_right_offset));
  *height = static_cast<int>(s->pic_height_in_luma_samples) -
            SubHeightC(s) * (static_cast<int>(s->conf_win_top_offset) +
                             static_cast<int>(s->conf_win_bottom_offset));
  return 0;
}
bool MaxNumNegativePics(const Sps*, uint32_t* n) {
  *n = 15;
  return true;
}
float Framerate(const H265VuiParametersParser::VuiParametersState* v) {
  return static_cast<float>(v->vui_time_scale) / static_cast<float>(v->vui_num_units_in_tick);
}

// 7.4.7.1: range of num_entry_point_offsets
bool ValidEntryPoints(const H265SliceSegmentHeaderParser::SliceSegmentHeaderState* h, uint32_t n,
                      std::shared_ptr<H265SpsParser::SpsState> s,
                      std::shared_ptr<H265PpsParser::PpsState> p) {
  bool tiles = h->tiles_enabled_flag == 1;
  bool wpp = h->entropy_coding_sync_enabled_flag == 1;
  if (!tiles && !wpp) return n == 0;
  if (!tiles) return n <= PicHeightInCtbsY(s.get()) - 1;
  if (!wpp) return n <= (p->num_tile_columns_minus1 + 1) * (p->num_tile_rows_minus1 + 1) - 1;
  return n <= (p->num_tile_columns_minus1 + 1) * PicHeightInCtbsY(s.get()) - 1;
}

int indent_incr(int i) { return i == -1 ? -1 : i + 1; }
int indent_decr(int i) { return i == -1 ? -1 : i - 1; }

// ---- parameter set store ----------------------------------------------------
std::shared_ptr<struct h265nal::H265VpsParser::VpsState> GetVps(
    const h265nal::H265BitstreamParserState* self, uint32_t id) {
  if (self->vps.find(id) == self->vps.end()) return nullptr;
  return self->vps.find(id)->second;
}
std::shared_ptr<struct h265nal::H265SpsParser::SpsState> GetSps(
    const h265nal::H265BitstreamParserState* self, uint32_t id) {
  if (self->sps.find(id) == self->sps.end()) return nullptr;
  return self->sps.find(id)->second;
}
std::shared_ptr<struct h265nal::H265PpsParser::PpsState> GetPps(
    const h265nal::H265BitstreamParserState* self, uint32_t id) {
  if (self->pps.find(id) == self->pps.end()) return nullptr;
  return self->pps.find(id)->second;
}

}  // namespace pure
}  // namespace h265spec
