// Demonstration of the finding rtp_ap:gap:confine (exit 1 while it is there).
#include <cstdio>
#include "h265_rtp_parser.h"
#include "h265_bitstream_parser_state.h"
int main() {
  using namespace h265nal;
  const uint8_t b[] = {0x60, 0x01,                                // AP
                       0x00, 0x05, 0x52, 0x01, 0xaa, 0xaa, 0xaa,  // reserved 41
                       0x00, 0x03, 0x46, 0x01, 0x50};             // AUD
  H265BitstreamParserState s;
  auto r = H265RtpParser::ParseRtp(b, sizeof b, &s);
  if (r == nullptr || r->rtp_ap == nullptr) {
    puts("the aggregation packet is refused");
    return 1;
  }
  auto& v = r->rtp_ap->nal_unit_sizes;
  printf("%zu units\n", v.size());
  return !(v.size() == 2 && v[0] == 5 && v[1] == 3);
}
