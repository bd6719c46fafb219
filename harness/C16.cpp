#include "segd.hpp"
// revision 3: general headers 2 and 3; the block counts of general header 2 take over where header 1 says so
extern "C" void sc_C16_gh23()
{
    Rec r;
    r.rev = 3 + sv_param("rev", 0, 2);
    r.add = 2 + sv_param("add", 0, 4);
    r.add_ext = sv_param("add_ext", 0, 2);
    sv_file(r.f, r.end());
    r.pins();
    ISEGD in(r.f);
    eq("add_gen_hdr_blocks", in.general_header().add_gen_hdr_blocks, r.add_ext ? 15 : r.add);
    eq("year", in.general_header().year, sv::bcd(r.f, 10, 0, 2));
    eq("gen_const", in.general_header().gen_const, sv::bcd(r.f, 4, 0, 12));
    auto h2 = in.general_header2();
    eq("general header 2 present", h2.has_value(), 1);
    if (!h2)
        return;
    char const* f = r.f;
    eq("expanded_file_num", h2->expanded_file_num, u(f, 32, 3));
    eq("ext_ch_sets_per_scan_type", h2->ext_ch_sets_per_scan_type, u(f, 35, 2));
    eq("extended_hdr_blocks", h2->extended_hdr_blocks, u(f, 37, 3));
    eq("extended_skew_blocks", h2->extended_skew_blocks, u(f, 40, 2));
    eq("segd_rev_major", h2->segd_rev_major, u(f, 42, 1));
    eq("segd_rev_minor", h2->segd_rev_minor, u(f, 43, 1));
    eq("gen_trailer_num_of_blocks", h2->gen_trailer_num_of_blocks, u(f, 44, 4));
    eq("ext_record_len", h2->ext_record_len, u(f, 48, 4));
    eq("record_set_number", h2->record_set_number, u(f, 52, 2));
    eq("ext_num_add_blks_in_gen_hdr", h2->ext_num_add_blks_in_gen_hdr, u(f, 54, 2));
    eq("dominant_sampling_int", h2->dominant_sampling_int, u(f, 56, 3));
    eq("external_hdr_blocks", h2->external_hdr_blocks, u(f, 59, 3));
    eq("gen_hdr_block_num", h2->gen_hdr_block_num, u(f, 63, 1));
    auto h3 = in.general_header3();
    eq("general header 3 present", h3.has_value(), 1);
    if (!h3)
        return;
    eq("time_zero", h3->time_zero, u(f, 64, 8));
    eq("record_size", h3->record_size, u(f, 72, 8));
    eq("data_size", h3->data_size, u(f, 80, 8));
    eq("header_size", h3->header_size, u(f, 88, 4));
    eq("extd_rec_mode", h3->extd_rec_mode, u(f, 92, 1));
    eq("rel_time_mode", h3->rel_time_mode, u(f, 93, 1));
    eq("gh3 gen_hdr_block_num", h3->gen_hdr_block_num, u(f, 95, 1));
    eq("no general headers N", in.general_headerN().size(), 0);
    // the channel sets follow the last additional block
    eq("channel set found", in.channel_set_headers()[0][0].channel_type, u(f, r.cs(0, 0) + 3, 1));
}
// many additional blocks, counted in general header 2
extern "C" void sc_C16_many()
{
    static int const n[] = { 14, 15, 16, 127, 128, 255, 256, 300, 1000 };
    Rec r;
    r.rev = 3;
    r.add = n[sv_param("blocks", 0, 9)];
    r.add_ext = r.add > 14 || sv_param("add_ext", 0, 2);
    sv_file(r.f, r.end());
    r.pins();
    ISEGD in(r.f);
    eq("channel set found", in.channel_set_headers()[0][0].channel_type, u(r.f, r.cs(0, 0) + 3, 1));
    eq("vert_stack", in.channel_set_headers()[0][0].vert_stack, u(r.f, r.cs(0, 0) + 29, 1));
    Trace t = in.read_trace();
    eq("TRACE_EDIT", ival(t.header().get("TRACE_EDIT"), "TRACE_EDIT"), u(r.f, r.tr(0) + 11, 1));
    eq("end", in.has_record(), 0);
}
