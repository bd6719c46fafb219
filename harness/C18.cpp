#include "segd.hpp"
// channel set descriptors
static void common22(C::ChannelSetHeader const& h, char const* f, uint64_t b)
{
    eq("scan_type_number", h.scan_type_number, sv::bcd(f, b, 0, 2));
    eq("channel_set_number", h.channel_set_number, sv::bcd(f, b + 1, 0, 2));
    eq("channel_set_start_time", h.channel_set_start_time, 2 * u(f, b + 2, 2));
    eq("channel_set_end_time", h.channel_set_end_time, 2 * u(f, b + 4, 2));
    uint64_t d = u(f, b + 6, 2);
    double m = (d & 0x7fff) / 1024.0;
    eqd("descale_multiplier", h.descale_multiplier, d & 0x8000 ? -m : m);
    eq("number_of_channels", h.number_of_channels, sv::bcd(f, b + 8, 0, 4));
    eq("channel_type", h.channel_type, sv::bcd(f, b + 10, 0, 1));
    eq("channel_gain", h.channel_gain, sv::bcd(f, b + 11, 1, 1));
    eq("alias_filter_freq", h.alias_filter_freq, sv::bcd(f, b + 12, 0, 4));
    eq("alias_filter_slope", h.alias_filter_slope, sv::bcd(f, b + 14, 0, 4));
    eq("low_cut_filter_freq", h.low_cut_filter_freq, sv::bcd(f, b + 16, 0, 4));
    eq("low_cut_filter_slope", h.low_cut_filter_slope, sv::bcd(f, b + 18, 0, 4));
    eq("first_notch_filter", h.first_notch_filter, sv::bcd(f, b + 20, 0, 4));
    eq("second_notch_filter", h.second_notch_filter, sv::bcd(f, b + 22, 0, 4));
    eq("third_notch_filter", h.third_notch_filter, sv::bcd(f, b + 24, 0, 4));
    eq("ext_ch_set_num", h.ext_ch_set_num, u(f, b + 26, 2));
    eq("ext_hdr_flag", h.ext_hdr_flag, sv_filebyte(f, b + 28) >> 4);
    eq("trc_hdr_ext", h.trc_hdr_ext, sv_filebyte(f, b + 28) & 15);
    eq("vert_stack", h.vert_stack, u(f, b + 29, 1));
    eq("streamer_no", h.streamer_no, u(f, b + 30, 1));
    eq("array_forming", h.array_forming, u(f, b + 31, 1));
}
static void absent(C::ChannelSetHeader h)
{
    eq("number_of_samples absent", h.number_of_samples().has_value(), 0);
    eq("samp_int absent", h.samp_int().has_value(), 0);
    eq("filter_phase absent", h.filter_phase().has_value(), 0);
    eq("physical_unit absent", h.physical_unit().has_value(), 0);
    eq("filter_delay absent", h.filter_delay().has_value(), 0);
    eq("description absent", h.description().has_value(), 0);
}
extern "C" void sc_C18_rev2()
{
    Rec r;
    r.rev = sv_param("rev", 0, 3);
    r.add = r.rev ? 1 : 0;
    r.nst = sv_param("scan types", 1, 3);
    r.ncs = sv_param("channel sets", 1, 3);
    r.skew = sv_param("skew", 0, 2);
    int exp = sv_param("subscans", 0, 10);
    r.trext = r.rev ? 1 : 0;
    r.ns = r.rev ? 2 : 1 << exp;
    r.descale = -1;
    sv_file(r.f, r.end());
    r.pins();
    for (int i = 0; i < r.nst; ++i)
        for (int j = 0; j < r.ncs; ++j)
            sv_pin(r.f, r.cs(i, j) + 11, exp << 4 | (9 - exp));
    ISEGD in(r.f);
    auto& sets = in.channel_set_headers();
    eq("number of scan types", sets.size(), r.nst);
    for (int i = 0; i < r.nst && i < static_cast<int>(sets.size()); ++i) {
        eq("number of channel sets", sets[i].size(), r.ncs);
        for (int j = 0; j < r.ncs && j < static_cast<int>(sets[i].size()); ++j) {
            common22(sets[i][j], r.f, r.cs(i, j));
            eq("subscans_per_ch_set", sets[i][j].subscans_per_ch_set, 1 << exp);
            absent(sets[i][j]);
        }
    }
}
extern "C" void sc_C18_rev3()
{
    Rec r;
    r.rev = 3;
    r.add = 2;
    r.nst = sv_param("scan types", 1, 3);
    r.ncs = sv_param("channel sets", 1, 3);
    r.skew = sv_param("skew", 0, 2);
    r.trext = sv_param("extension", 0, 2);
    r.descale = -1;
    sv_file(r.f, r.end());
    r.pins();
    ISEGD in(r.f);
    auto& sets = in.channel_set_headers();
    eq("number of scan types", sets.size(), r.nst);
    for (int i = 0; i < r.nst && i < static_cast<int>(sets.size()); ++i) {
        eq("number of channel sets", sets[i].size(), r.ncs);
        for (int j = 0; j < r.ncs && j < static_cast<int>(sets[i].size()); ++j) {
            C::ChannelSetHeader h = sets[i][j];
            uint64_t b = r.cs(i, j);
            char const* f = r.f;
            eq("scan_type_number", h.scan_type_number, sv::bcd(f, b, 0, 2));
            eq("channel_set_number", h.channel_set_number, u(f, b + 1, 2));
            eq("channel_type", h.channel_type, u(f, b + 3, 1));
            eq("channel_set_start_time", h.channel_set_start_time, u(f, b + 4, 4));
            eq("channel_set_end_time", h.channel_set_end_time, u(f, b + 8, 4));
            eqd("descale_multiplier", h.descale_multiplier, sv::f32(u(f, b + 16, 4)));
            eq("number_of_channels", h.number_of_channels, u(f, b + 20, 3));
            eq("array_forming", h.array_forming, u(f, b + 26, 1));
            eq("trc_hdr_ext", h.trc_hdr_ext, u(f, b + 27, 1));
            eq("ext_hdr_flag", h.ext_hdr_flag, sv_filebyte(f, b + 28) >> 4);
            eq("channel_gain", h.channel_gain, sv_filebyte(f, b + 28) & 15);
            eq("vert_stack", h.vert_stack, u(f, b + 29, 1));
            eq("streamer_no", h.streamer_no, u(f, b + 30, 1));
            eq("alias_filter_freq", h.alias_filter_freq, u(f, b + 32, 4));
            eq("low_cut_filter_freq", h.low_cut_filter_freq, u(f, b + 36, 4));
            eq("alias_filter_slope", h.alias_filter_slope, u(f, b + 40, 4));
            eq("low_cut_filter_slope", h.low_cut_filter_slope, u(f, b + 44, 4));
            eq("first_notch_filter", h.first_notch_filter, u(f, b + 48, 4));
            eq("second_notch_filter", h.second_notch_filter, u(f, b + 52, 4));
            eq("third_notch_filter", h.third_notch_filter, u(f, b + 56, 4));
            auto get = [](auto o, char const* what) { if (!o) { sv_fail((std::string(what) + " is absent").c_str()); return int64_t(0); } return int64_t(*o); };
            eq("number_of_samples", get(h.number_of_samples(), "number_of_samples"), u(f, b + 12, 4));
            eq("samp_int", get(h.samp_int(), "samp_int"), u(f, b + 23, 3));
            eq("filter_phase", get(h.filter_phase(), "filter_phase"), u(f, b + 60, 1));
            eq("physical_unit", get(h.physical_unit(), "physical_unit"), u(f, b + 61, 1));
            eq("filter_delay", get(h.filter_delay(), "filter_delay"), u(f, b + 64, 4));
            auto d = h.description();
            eq("description present", d.has_value(), 1);
            if (d)
                for (int k = 0; k < 27; ++k)
                    eq(lbl("description character", k), static_cast<uint8_t>((*d)[k]), sv_filebyte(f, b + 68 + k));
        }
    }
}
// values a caller gives a descriptor are the ones it holds
extern "C" void sc_C18_construct()
{
    int full = sv_param("full", 0, 2);
    std::array<char, 27> d;
    for (int i = 0; i < 27; ++i)
        d[i] = sv_u8(("d" + std::to_string(i)).c_str());
    double m = sv_f64("descale");
#define ARGS (int)sv_u32("stn"), sv_u16("chsn"), sv_u8("cht"), sv_u32("start"), sv_u32("end"), m, sv_u32("noch"), (int)sv_u32("spchs"), sv_u8("gain"), \
    sv_u32("aff"), sv_u32("afs"), sv_u32("lcff"), sv_u32("lcfs"), sv_u32("fnf"), sv_u32("snf"), sv_u32("tnf"), sv_u16("echsn"), sv_u8("ehf"), \
    sv_u8("the"), sv_u8("vs"), sv_u8("sn"), sv_u8("af")
    C::ChannelSetHeader h = full ? C::ChannelSetHeader(ARGS, sv_u32("nos"), sv_u32("si"), sv_u8("fph"), sv_u8("phu"), sv_u32("fd"), d) : C::ChannelSetHeader(ARGS);
    eq("scan_type_number", h.scan_type_number, (int)sv_u32("stn"));
    eq("channel_set_number", h.channel_set_number, sv_u16("chsn"));
    eq("channel_type", h.channel_type, sv_u8("cht"));
    eq("channel_set_start_time", h.channel_set_start_time, sv_u32("start"));
    eq("channel_set_end_time", h.channel_set_end_time, sv_u32("end"));
    eqd("descale_multiplier", h.descale_multiplier, m);
    eq("number_of_channels", h.number_of_channels, sv_u32("noch"));
    eq("subscans_per_ch_set", h.subscans_per_ch_set, (int)sv_u32("spchs"));
    eq("channel_gain", h.channel_gain, sv_u8("gain"));
    eq("alias_filter_freq", h.alias_filter_freq, sv_u32("aff"));
    eq("alias_filter_slope", h.alias_filter_slope, sv_u32("afs"));
    eq("low_cut_filter_freq", h.low_cut_filter_freq, sv_u32("lcff"));
    eq("low_cut_filter_slope", h.low_cut_filter_slope, sv_u32("lcfs"));
    eq("first_notch_filter", h.first_notch_filter, sv_u32("fnf"));
    eq("second_notch_filter", h.second_notch_filter, sv_u32("snf"));
    eq("third_notch_filter", h.third_notch_filter, sv_u32("tnf"));
    eq("ext_ch_set_num", h.ext_ch_set_num, sv_u16("echsn"));
    eq("ext_hdr_flag", h.ext_hdr_flag, sv_u8("ehf"));
    eq("trc_hdr_ext", h.trc_hdr_ext, sv_u8("the"));
    eq("vert_stack", h.vert_stack, sv_u8("vs"));
    eq("streamer_no", h.streamer_no, sv_u8("sn"));
    eq("array_forming", h.array_forming, sv_u8("af"));
    if (!full) {
        absent(h);
        return;
    }
    auto n = h.number_of_samples(), si = h.samp_int(), fd = h.filter_delay();
    auto fp = h.filter_phase(), pu = h.physical_unit();
    auto ds = h.description();
    sv_true("revision 3 values present", n && si && fd && fp && pu && ds);
    if (n) eq("number_of_samples", *n, sv_u32("nos"));
    if (si) eq("samp_int", *si, sv_u32("si"));
    if (fp) eq("filter_phase", *fp, sv_u8("fph"));
    if (pu) eq("physical_unit", *pu, sv_u8("phu"));
    if (fd) eq("filter_delay", *fd, sv_u32("fd"));
    if (ds)
        for (int i = 0; i < 27; ++i)
            eq(lbl("description character", i), (*ds)[i], d[i]);
}
