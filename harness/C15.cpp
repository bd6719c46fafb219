#include "segd.hpp"
// general header 1 of every revision
static void gh1(ISEGD& in, char const* f, uint64_t b)
{
    C::GeneralHeader h = in.general_header();
    eq("file_number", h.file_number, sv::bcd(f, b + 0, 0, 4));
    eq("format_code", h.format_code, sv::bcd(f, b + 2, 0, 4));
    eq("gen_const", h.gen_const, sv::bcd(f, b + 4, 0, 12));
    eq("year", h.year, sv::bcd(f, b + 10, 0, 2));
    eq("add_gen_hdr_blocks", h.add_gen_hdr_blocks, sv::bcd(f, b + 11, 0, 1));
    eq("day", h.day, sv::bcd(f, b + 11, 1, 3));
    eq("hour", h.hour, sv::bcd(f, b + 13, 0, 2));
    eq("minute", h.minute, sv::bcd(f, b + 14, 0, 2));
    eq("second", h.second, sv::bcd(f, b + 15, 0, 2));
    eq("manufac_code", h.manufac_code, sv::bcd(f, b + 16, 0, 2));
    eq("manufac_num", h.manufac_num, sv::bcd(f, b + 17, 0, 4));
    eq("bytes_per_scan", h.bytes_per_scan, sv::bcd(f, b + 19, 0, 6));
    eqd("base_scan_int", h.base_scan_int, sv_filebyte(f, b + 22) / 16.0);
    eq("polarity", h.polarity, sv::bcd(f, b + 23, 0, 1));
    eq("record_type", h.record_type, sv::bcd(f, b + 25, 0, 1));
    eq("record_length", h.record_length, sv::bcd(f, b + 25, 1, 3));
    eq("scan_types_per_record", h.scan_types_per_record, sv::bcd(f, b + 27, 0, 2));
    eq("channel_sets_per_scan_type", h.channel_sets_per_scan_type, sv::bcd(f, b + 28, 0, 2));
    eq("skew_blocks", h.skew_blocks, sv::bcd(f, b + 29, 0, 2));
    eq("extended_hdr_blocks", h.extended_hdr_blocks, sv::bcd(f, b + 30, 0, 2));
    eq("external_hdr_blocks", h.external_hdr_blocks, sv::bcd(f, b + 31, 0, 2));
}
static void gh2(C::GeneralHeader2 const& h, char const* f, uint64_t b)
{
    eq("expanded_file_num", h.expanded_file_num, u(f, b, 3));
    eq("ext_ch_sets_per_scan_type", h.ext_ch_sets_per_scan_type, u(f, b + 3, 2));
    eq("gh2 extended_hdr_blocks", h.extended_hdr_blocks, u(f, b + 5, 2));
    eq("gh2 external_hdr_blocks", h.external_hdr_blocks, u(f, b + 7, 2));
    eq("segd_rev_major", h.segd_rev_major, u(f, b + 10, 1));
    eq("segd_rev_minor", h.segd_rev_minor, u(f, b + 11, 1));
    eq("gen_trailer_num_of_blocks", h.gen_trailer_num_of_blocks, u(f, b + 12, 2));
    eq("ext_record_len", h.ext_record_len, u(f, b + 14, 3));
    eq("gen_hdr_block_num", h.gen_hdr_block_num, u(f, b + 18, 1));
    eq("sequence_number", h.sequence_number, u(f, b + 20, 2));
}
extern "C" void sc_C15_gh()
{
    Rec r;
    r.rev = sv_param("rev", 0, 3);
    static int const adds[] = { 1, 2, 3, 10, 15 };
    r.add = r.rev ? adds[sv_param("add", 0, 5)] : 0;
    int exp = r.add < 10 ? sv_param("exp", 0, 16) : 5;
    r.trext = r.rev ? 1 : 0;
    if (!r.rev) { r.subscans = 1; }
    sv_file(r.f, r.end());
    r.pins(exp & 3);
    sv_pin(r.f, 23, exp << 4 | exp);
    ISEGD in(r.f);
    gh1(in, r.f, 0);
    int64_t spb = sv_filebyte(r.f, 24);
    eq("scans_per_block", in.general_header().scans_per_block, spb << exp);
    auto h2 = in.general_header2();
    eq("general header 2 present", h2.has_value(), r.rev != 0);
    if (r.rev && h2)
        gh2(*h2, r.f, 32);
    eq("no general header 3", in.general_header3().has_value(), 0);
    auto hn = in.general_headerN();
    eq("number of general headers N", hn.size(), r.add > 1 ? r.add - 1 : 0);
    for (int i = 0; i < r.add - 1 && i < static_cast<int>(hn.size()); ++i) {
        uint64_t b = r.gh(2 + i);
        std::string p = "general header N ";
        eq(p + "expanded_file_number", hn[i].expanded_file_number, u(r.f, b, 3));
        eqd(p + "sou_line_num", hn[i].sou_line_num, s(r.f, b + 3, 3) + u(r.f, b + 6, 2) / 65536.0);
        eqd(p + "sou_point_num", hn[i].sou_point_num, s(r.f, b + 8, 3) + u(r.f, b + 11, 2) / 65536.0);
        eq(p + "sou_point_index", hn[i].sou_point_index, u(r.f, b + 13, 1));
        eq(p + "phase_control", hn[i].phase_control, u(r.f, b + 14, 1));
        eq(p + "type_vibrator", hn[i].type_vibrator, u(r.f, b + 15, 1));
        eq(p + "phase_angle", hn[i].phase_angle, s(r.f, b + 16, 2));
        eq(p + "gen_hdr_block_num", hn[i].gen_hdr_block_num, u(r.f, b + 18, 1));
        eq(p + "sou_set_num", hn[i].sou_set_num, u(r.f, b + 19, 1));
    }
}
