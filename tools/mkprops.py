#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
ALL = ['inputs']


def p(id, title, statement, qtext, why, files, mech, over=None, state=None, observe=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['observe_at'] = observe or []
    a['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over or ALL, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


p('C01', 'VPS, profile/tier/level, HRD, VUI, AUD and NAL header decode as in H.265',
  'For every bit string, the parsers of the NAL unit header, video parameter set, profile-tier-level, HRD and sub-layer HRD parameters, VUI and access unit delimiter read exactly the syntax elements the H.265 syntax tables prescribe: each in its place, under its presence condition, with its descriptor (u(n), ue(v), se(v)) and bit width, as often as prescribed. '
  'Every element lands unchanged in the field of the result that bears its name, elements that are absent have the value the standard infers (or the documented zero default), and nested structures are invoked with the prescribed arguments.',
  'every input bit string and every value of every presence flag and count',
  'A presence condition, a width or an order matters only for inputs that set particular flag combinations; the tests parse a few dozen hand-made buffers that exercise a small part of the conditions.',
  ['src/h265_vps_parser.cc', 'src/h265_profile_tier_level_parser.cc', 'src/h265_hrd_parameters_parser.cc',
   'src/h265_sub_layer_hrd_parameters_parser.cc', 'src/h265_vui_parameters_parser.cc', 'src/h265_aud_parser.cc',
   'src/h265_nal_unit_header_parser.cc'],
  [('sequence of guarded bit reads into the result structure', 'the Parse* functions of the listed files')],
  observe=['the structure returned by each parser'])
p('C02', 'SPS, its extensions, short-term RPS and scaling lists decode as in H.265',
  'For every bit string, the parsers of the sequence parameter set, its range, multilayer, 3D and screen-content extensions, the short-term reference picture sets and the scaling lists read exactly the syntax elements prescribed by the H.265 syntax tables, in order, under the prescribed presence conditions, descriptors, widths and repetition counts. '
  'Every element lands unchanged in the field that bears its name, and absent elements have their inferred value (or the documented zero default).',
  'every input bit string and every value of every presence flag and count',
  'Presence conditions, computed widths and loop counts of the SPS interact; the tests fix a handful of combinations, none of them with inter-predicted reference picture sets of every shape or all extensions.',
  ['src/h265_sps_parser.cc', 'src/h265_sps_range_extension_parser.cc', 'src/h265_sps_multilayer_extension_parser.cc',
   'src/h265_sps_3d_extension_parser.cc', 'src/h265_sps_scc_extension_parser.cc', 'src/h265_st_ref_pic_set_parser.cc',
   'src/h265_scaling_list_data_parser.cc'],
  [('sequence of guarded bit reads into the result structure', 'the Parse* functions of the listed files')],
  observe=['the structure returned by each parser'])
p('C03', 'PPS and its extensions decode as in H.265',
  'For every bit string, the parsers of the picture parameter set and of its multilayer and screen-content extensions read exactly the syntax elements the H.265 syntax tables prescribe, in order, under the prescribed presence conditions, descriptors, widths and repetition counts. '
  'Every element lands unchanged in the field that bears its name, and absent elements have their inferred value (or the documented zero default). '
  'A set that announces an extension the library does not implement (range, 3D) is refused.',
  'every input bit string and every value of every presence flag and count',
  'The tests parse a few PPS buffers; tiles, palette initialisers, colour mapping and depth look-up tables have loops and widths whose every combination no test samples.',
  ['src/h265_pps_parser.cc', 'src/h265_pps_multilayer_extension_parser.cc', 'src/h265_pps_scc_extension_parser.cc'],
  [('sequence of guarded bit reads into the result structure', 'the Parse* functions of the listed files')],
  observe=['the structure returned by each parser'])
p('C04', 'Slice segment headers and weight tables decode as in H.265',
  'For every bit string and every set of active parameter sets, the slice segment header parser (with its prediction weight table) reads exactly the syntax elements the H.265 syntax tables prescribe given the NAL unit type and the referenced parameter sets, in order, with the prescribed presence conditions, descriptors, widths and counts. '
  'Every element lands unchanged in the field that bears its name, and values that the slice header inherits when not sent (active reference counts, deblocking control, collocated list) come from the referenced parameter sets. '
  'Reference picture list modification and the list 1 half of weight tables are not decoded (recorded findings).',
  'every input bit string, NAL unit type and contents of the referenced SPS and PPS',
  'Slice header syntax depends on some forty parameter-set fields; tests use the parameter sets of a few sample streams.',
  ['src/h265_slice_parser.cc', 'src/h265_pred_weight_table_parser.cc'],
  [('guarded reads conditioned on the referenced SPS and PPS', 'src/h265_slice_parser.cc')],
  over=['inputs', 'configurations'], observe=['the slice segment header structure'])
p('C05', 'SEI messages and their payloads decode as in H.265 and T.35',
  'For every bit string, payload type and payload size are accumulated from their 0xff-extended byte sequences, the payload parser of that type (and no other) receives exactly the payload bytes, and every supported payload is decoded element by element as its syntax table prescribes, into the fields of those names. '
  'Payloads of other types are kept as unknown payloads of the announced size, and prefix/suffix distinction does not alter the decoding.',
  'every input bit string, payload type and payload size',
  'The tests hold a few example payloads; most payload types are tested on one buffer each and extended size/type bytes on none.',
  ['src/h265_sei_parser.cc'],
  [('payload dispatch by type and per-payload reads', 'src/h265_sei_parser.cc')],
  observe=['the SEI message structure'])
p('C06', 'NAL unit dispatch, RTP packetisation and hvcC box decode as specified',
  'For every byte string, a NAL unit is parsed as header then payload where the NAL unit type selects the payload parser; RTP payloads are told apart as single NAL unit, aggregation or fragmentation packets and decoded as RFC 7798 prescribes; the HEVC decoder configuration record is decoded field by field as ISO/IEC 14496-15 prescribes. '
  'Every NAL unit inside an aggregation packet or configuration record is handed on with the length announced for it.',
  'every input byte string',
  'Tests cover one packet of each kind and one configuration box.',
  ['src/h265_nal_unit_parser.cc', 'src/h265_nal_unit_payload_parser.cc', 'src/h265_rtp_parser.cc', 'src/h265_rtp_single_parser.cc',
   'src/h265_rtp_ap_parser.cc', 'src/h265_rtp_fu_parser.cc', 'src/h265_configuration_box_parser.cc'],
  [('type dispatch', 'src/h265_nal_unit_payload_parser.cc, src/h265_rtp_parser.cc'),
   ('length-prefixed loops', 'src/h265_rtp_ap_parser.cc, src/h265_configuration_box_parser.cc')],
  observe=['the returned structures'])
p('C07', 'A structure that ends early is refused',
  'Whenever the input runs out, or an exp-Golomb code cannot be completed, while a syntax element of a structure is being read, the parser of that structure reports failure (a null result) instead of returning a partially filled structure. '
  'The tolerated exceptions are the ones the API documents: SEI payload contents, where the message is kept without its decoded payload.',
  'every input and every position at which it can be cut',
  'Tests cut no input short at each of the several hundred read sites; a read whose failure is ignored shows only when the data ends exactly there.',
  ['src/'],
  [('test of the result of each bit read followed by an early null return', 'all Parse* functions')],
  over=['inputs', 'fault_sequences'], observe=['null or non-null return value'])
p('C08', 'A failed nested structure makes its container fail',
  'Whenever parsing a nested structure fails (profile-tier-level, HRD, VUI, scaling list, reference picture set, weight table, parameter-set extension, slice header, NAL unit inside an RTP payload), the enclosing structure is refused too, instead of being returned with a hole. '
  'The tolerated exceptions are the payload of a NAL unit and the NAL units of a configuration record, for which the container is returned and the missing part is null.',
  'every input and every nesting site',
  'No test makes each nested structure fail inside an otherwise valid container.',
  ['src/'], [('null test after each nested parse', 'all Parse* functions that call another parser')],
  over=['inputs', 'fault_sequences'], observe=['null or non-null return value'])
p('C09', 'Exactly the out-of-range syntax element values are refused',
  'A parser refuses a structure because of a decoded value if and only if that value lies outside the range the library enforces from the standard (identifiers, counts, sizes, offsets, depths, reference deltas, mandatory zero or one bits); every value inside the range, including both end points, is accepted. '
  'No combination of other elements lifts or adds a limit.',
  'every value of every range-checked syntax element',
  'Tests sample no boundary values; an off-by-one in a limit or a limit guarded by the wrong flag passes all of them.',
  ['src/', 'include/'], [('range checks with early null return', 'all Parse* functions'),
                         ('limit constants', 'include/h265_common.h and the parser headers')],
  observe=['null or non-null return value'])
p('C10', 'Every bit read asks for a number of bits the reader can deliver',
  'No parser ever asks the bit reader for fewer than one bit (such a read aborts the process), whatever the input. While the earlier elements that give a width are within the ranges of the standard, no read asks for more bits than the reader and its destination hold, so no read fails for any reason other than missing data.',
  'every computed width under every value of the elements it depends on',
  'Computed widths depend on earlier elements; their extremes occur in no test.',
  ['src/'], [('width computations from earlier elements', 'ReadBits calls with non-constant width')],
  observe=['the process does not abort; fields are filled'])
p('C11', 'No input makes a parser read or write outside a container',
  'For every input, every element access of a vector or array by a parser or by the accessors used during parsing is inside the bounds of that container.',
  'every input and every index computed from it',
  'An out-of-bounds index needs particular decoded counts; the tests use consistent small ones, and without sanitizers an overrun may go unnoticed.',
  ['src/'], [('resize and push before indexing, loop bounds and range checks', 'all Parse* functions')],
  observe=['memory safety of Parse*'])
p('C12', 'Dumping and querying any returned structure never dereferences null',
  'Any structure a parser may return, with whatever optional parts absent, can be printed and queried by all public accessors without dereferencing a missing part or an absent parameter set.',
  'every structure that parsing can return, and every combination of missing parts',
  'Tests print structures parsed from complete sample data, in which no optional part is missing.',
  ['src/'], [('null tests before use of optional parts', 'fdump functions and accessors')],
  over=['inputs', 'configurations'], observe=['fdump, accessors'])
p('C13', 'Every parsing loop is bounded by checked counts or consumes input',
  'For every input, each loop executed while parsing either consumes input bits in each iteration or runs at most a number of times bounded by a range-checked element or a container size, so that parsing terminates after work polynomial in the input size and memory requested is bounded likewise.',
  'every input',
  'A hostile count needs a particular element value; tests contain none.',
  ['src/'], [('range checks on counts, failing reads inside loops', 'all Parse* functions')],
  observe=['termination and memory use of Parse*'])
p('C14', 'Parsing has no side effects beyond its results and its state object',
  'The library keeps no mutable global or function-static state, never calls exit, abort or throw, never writes to standard output, opens no files and never changes the input bytes: parsing writes diagnostics to standard error only, and dumping writes only to the stream it is given. '
  'Parsing the same bytes with the same options and state therefore always gives the same result, also from several threads with separate state objects.',
  'every call history of the library',
  'Tests run each parser in one process once and compare results, not side effects.',
  ['src/', 'include/'], [('absence of globals, statics and process-level calls', 'whole library')],
  over=['histories', 'schedules'], observe=['process state, output streams'])
p('C15', 'NAL unit types, names and profiles are classified as in H.265',
  'Every NAL unit type value is classified (VCL, slice segment, unspecified) and named as Table 7-1 defines it, every general_profile_idc/compatibility/constraint-flag combination maps to the profile Annex A and H define, and every profile has its own name.',
  'all values of the type, profile and constraint-flag elements',
  'Tests query a few types and profiles.',
  ['src/h265_common.cc', 'src/h265_profile_tier_level_parser.cc'],
  [('classification switches', 'src/h265_common.cc'), ('profile decision tree', 'src/h265_profile_tier_level_parser.cc')],
  observe=['IsSliceSegment and the other classification functions, name strings'])
p('C16', 'Parameter sets are stored under their identifier and used by reference',
  'A successfully parsed VPS, SPS or PPS, and only such a one, replaces the stored parameter set with its own identifier and no other; other NAL units leave the store unchanged. '
  'A slice is decoded with the PPS it names, the SPS that PPS names and the VPS rules of that SPS, and is refused when one of them is missing.',
  'every sequence of NAL units',
  'Tests feed one parameter set of each kind; replacement, several identifiers and failed re-transmissions do not occur.',
  ['src/h265_nal_unit_payload_parser.cc', 'src/h265_bitstream_parser_state.cc', 'src/h265_slice_parser.cc', 'src/h265_pps_parser.cc'],
  [('store on success keyed by id', 'src/h265_nal_unit_payload_parser.cc'), ('look-up by id', 'src/h265_bitstream_parser_state.cc')],
  over=['histories'], state=[('parameter set maps', 'parameter sets seen so far by id', 'include/h265_bitstream_parser_state.h')],
  observe=['parser state, slice headers'])
p('C17', 'Emulation prevention bytes are removed exactly',
  'For every NAL unit the payload handed to the parsers is the NAL unit with every 0x03 byte that follows two zero bytes removed, and nothing else changed; the two-zero count restarts after a removed byte.',
  'every byte string',
  'Tests have a few strings; runs of zeros, adjacent escapes and escapes at either end are not covered.',
  ['src/h265_common.cc'], [('unescape loop', 'src/h265_common.cc')],
  observe=['unescaped payload'])
p('C18', 'Dumps print every decoded field under its own name',
  'Dumping a parsed structure prints every syntax element that was decoded, exactly once, under its own name (and index, for lists) with the stored value unaltered, and prints no value under another name. Nested structures are dumped wherever they were decoded, and the braces around structures and lists balance.',
  'every structure and every field',
  'Tests compare no dump output.',
  ['src/'], [('one print per field with its label', 'fdump functions')],
  observe=['text output'])
p('C19', 'No returned field is left uninitialised',
  'Every scalar field of every structure that a parser can return has a defined value whatever was absent from the input.',
  'every structure and every input',
  'An uninitialised field often happens to be zero in a test.',
  ['include/'], [('default member initialisers or unconditional assignment', 'structure definitions in include/')],
  observe=['all fields of returned structures'])
p('C20', 'The bit reader returns exactly the requested bits',
  'Reading n bits returns the next n bits of the buffer, most significant first, and advances by n; unsigned and signed exp-Golomb reads return the value of the code of the standard and advance by its length; a read beyond the end fails and every reported position and remaining count is exact.',
  'every buffer content, bit offset and width',
  'Tests try a few widths and offsets out of the 8 x 64 combinations and few exp-Golomb codes.',
  ['src/rtc_common.cc'], [('bit extraction', 'src/rtc_common.cc')],
  observe=['values and positions returned by the bit reader'])
p('C21', 'A byte stream is split into exactly its NAL units',
  'Annex B streams are split at every three-byte start code (with its optional fourth zero byte) that is followed by at least one byte, and explicitly framed streams at every length prefix of the configured size; each NAL unit has the offset and length of its bytes in the input and each is parsed exactly once, in order.',
  'every byte stream and every length-prefix size',
  'Tests split a few streams; start codes at the very end, adjacent start codes and truncated prefixes are not covered.',
  ['src/h265_bitstream_parser.cc'], [('start code search', 'src/h265_bitstream_parser.cc'), ('length-prefix loop', 'src/h265_bitstream_parser.cc')],
  over=['inputs', 'configurations'], observe=['NAL unit offsets and lengths'])
p('C22', 'The small-footprint build parses exactly like the normal one',
  'With the small-footprint configuration, every parser that remains accepts the same inputs and fills the same fields with the same values as in the normal configuration; only dumping, diagnostics and RTP support are absent.',
  'both build configurations and every input',
  'The test suite is built in one configuration only.',
  ['CMakeLists.txt', 'src/'], [('conditional compilation of dumping, diagnostics and RTP', 'src/ and include/')],
  over=['configurations', 'inputs'], observe=['returned structures'])
p('C23', 'Derived values follow the formulas of the standard',
  'Values derived from decoded elements (block size logarithms, picture dimensions in blocks and samples, chroma subsampling factors, frame rate, chroma array type, entry point limits, contents of predicted reference picture sets) equal the formulas the standard gives for them. The luma quantisation parameter reported for each slice of a stream or packet is 26 + init_qp_minus26 + slice_qp_delta, with the PPS in force at that slice, and nothing is reported for other NAL units.',
  'all values of the elements they are derived from',
  'Tests compute each for one or two streams.',
  ['src/h265_sps_parser.cc', 'src/h265_slice_parser.cc', 'src/h265_st_ref_pic_set_parser.cc', 'src/h265_utils.cc'],
  [('accessor functions', 'src/h265_sps_parser.cc and others'), ('DeriveValues', 'src/h265_st_ref_pic_set_parser.cc'), ('GetSliceQpY', 'src/h265_utils.cc')], observe=['accessor results', 'short-term reference picture sets', 'slice QP values'])
p('C24', 'No parser performs an undefined shift, division or signed overflow',
  'For every input, shift amounts evaluated while parsing or querying are smaller than the width of the shifted type, divisors are not zero and signed arithmetic does not overflow.',
  'every input',
  'Extremes of the operands occur in no test, and the tests run without sanitizers.',
  ['src/'], [('range checks before arithmetic', 'all Parse* functions')], observe=['arithmetic in Parse* and accessors'])
p('C25', 'Each command-line option has its documented effect and only that',
  'Every option of the command-line tool (long or short form) sets the setting its help text documents and no other, whatever options came before; numbers that are out of range or followed by other text are refused, --add-contents implies --add-offset and --add-length, --dump-length implies --add-length, and the defaults are those the help states. '
  'The settings reach the parsers unchanged, the input is split by start codes exactly for a negative --nalu-length-bytes, every NAL unit is printed once and in order to the chosen output, --add-contents prints exactly its bytes, and --dump-length lists each NAL unit and the bit rate of each frame. '
  'The tool returns 0 exactly when reading, parsing of the hvcC box and opening of the output succeeded.',
  'all option combinations, orders and arguments', 'No test runs the tool.',
  ['tools/h265nal.cc'], [('option loop', 'tools/h265nal.cc'), ('main()', 'tools/h265nal.cc')], over=['inputs', 'histories'], observe=['tool output and exit status'])

p('C26', 'The RBSP helpers answer exactly as the standard defines them',
  'byte_aligned() is true exactly at byte boundaries, get_current_offset() is the number of bytes begun, and more_rbsp_data() is false exactly at the end of the data and where all that is left is a stop bit and at most seven zero bits; none of them moves the reader. '
  'rbsp_trailing_bits() succeeds exactly on a one bit followed by zeros up to the next byte boundary, and consumes just these.',
  'every position in every payload',
  'Whether a parser goes on or stops hangs on these for each of the 8 bit offsets and 256 last bytes; tests see a few.',
  ['src/h265_common.cc'], [('syntax functions of clause 7.2', 'src/h265_common.cc')],
  observe=['results and reader position'])
p('C27', 'The bit writer writes exactly the given bits and nothing else',
  'Writing 1 to 64 bits puts the low bits of the value, most significant first, at the current position, leaves every other bit of the buffer as it was and advances by as many bits; unsigned and signed exp-Golomb and non-symmetric writes write the code of the value. '
  'A write that does not fit fails and changes neither the buffer nor the position.',
  'every value, width, bit offset and buffer content',
  'Tests write a few values at a few offsets; neighbouring bits and widths across byte boundaries are not covered.',
  ['src/rtc_common.cc'], [('partial byte writes', 'src/rtc_common.cc')],
  observe=['buffer content and position after a write'])
p('C28', 'Byte-array entry points decode all given bytes exactly like the readers',
  'Every entry point that takes bytes and a length gives, for any length and arguments, the result its bit-reader overload gives on all of these bytes with emulation prevention removed (raw for the hvcC box and for NAL units that are already unescaped). '
  'The remaining arguments reach the reader overload unchanged, and no input is refused or cut for its length alone.',
  'every length, every content and every argument of the entry points',
  'Tests call most entry points with one short buffer each; long inputs, inputs with emulation prevention and unusual arguments are sampled rarely.',
  ['src/h265_nal_unit_parser.cc', 'src/h265_sps_parser.cc', 'src/h265_pps_parser.cc', 'src/h265_vps_parser.cc',
   'src/h265_slice_parser.cc', 'src/h265_sei_parser.cc', 'src/h265_rtp_parser.cc', 'src/h265_configuration_box_parser.cc'],
  [('overloads taking (data, length)', 'the Parse* functions of src/*_parser.cc')],
  observe=['results of both overloads'])
p('C29', 'Results own their memory: nothing leaks, dangles, or is freed twice',
  'Whatever is parsed, every piece of memory the library obtains has one owner (or is shared without cycles) and is given back on every way out, and so is every file it opens. '
  'No reference, pointer, iterator or bit reader is used after what it refers to was released, moved away or reallocated, and returned structures never refer to the input buffer or to anything temporary.',
  'every input and every path through the library',
  'The tests run without sanitizers and keep few objects alive; a dangling reference or a leak on a rare path gives the expected answers there.',
  ['src/h265_bitstream_parser.cc', 'src/h265_utils.cc', 'src/h265_nal_unit_parser.cc', 'src/h265_sps_parser.cc',
   'src/h265_configuration_box_parser.cc'],
  [('std::unique_ptr / std::vector members', 'include/h265_*.h'), ('fopen/fclose', 'src/h265_utils.cc')],
  observe=['memory errors and leaks under a sanitizer', 'open files'])
p('C30', "A NAL unit's checksum covers all its bytes and moves nothing",
  "For any remaining bytes at a byte boundary the checksum of a NAL unit is the one's complement of their end-around sum as big-endian 32-bit words, the last one filled with zeros, stored as four bytes in network order. "
  'It is printed as two hexadecimal digits per byte in order, and the text is ended inside the room given for it. '
  "It is taken before anything of the unit is read, and computing it leaves the reader's position as it was, so that what is parsed afterwards does not depend on it.",
  'every content, length and position of the reader',
  'The tests compare the checksum of a few NAL units; carries, lengths that leave one, two or three bytes over, and small output buffers are not covered.',
  ['src/h265_common.cc', 'src/h265_nal_unit_parser.cc'],
  [('NaluChecksum::GetNaluChecksum, fdump, GetPrintableChecksum', 'src/h265_common.cc')],
  observe=['checksum bytes', 'printed checksum', 'position of the reader afterwards'])
p('C31', 'The input file or standard input is read completely or refused',
  'Reading a named file delivers exactly the bytes of that file, in order, and reading "-" (or no name) exactly those of standard input; no other name is taken for standard input. '
  'When the file cannot be opened, its size cannot be told, or fewer bytes can be read than it holds, failure is reported. '
  'The file is closed on every way out.',
  'every content, length and name, and every failure of the calls that open, measure and read the file',
  'No test reads a file through the library; short reads, failing calls and inputs around the chunk size need fault injection.',
  ['src/h265_utils.cc', 'include/h265_utils.h'],
  [('H265Utils::ReadFile, ReadStdinToBuffer', 'src/h265_utils.cc')],
  over=['inputs', 'fault_sequences'], observe=['return value', 'bytes in the buffer', 'open files'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
