#include "segdw.hpp"
// headers written by the revision 2.1 writer
static char const* const F = "out.segd";
static void gen1(C::GeneralHeader const& g, bool extlen)
{
    if (g.file_number > 9999) eq("file number mark", u(F, 0, 2), 0xffff);
    else eqbcd("file number", F, 0, 0, 4, g.file_number);
    eqbcd("format code", F, 2, 0, 4, g.format_code);
    eqbcd("general constants", F, 4, 0, 12, g.gen_const);
    eqbcd("year", F, 10, 0, 2, g.year);
    eq("additional blocks", sv_filebyte(F, 11) >> 4, g.add_gen_hdr_blocks);
    eqbcd("day", F, 11, 1, 3, g.day);
    eqbcd("hour", F, 13, 0, 2, g.hour);
    eqbcd("minute", F, 14, 0, 2, g.minute);
    eqbcd("second", F, 15, 0, 2, g.second);
    eqbcd("manufacturer code", F, 16, 0, 2, g.manufac_code);
    eqbcd("manufacturer number", F, 17, 0, 4, g.manufac_num);
    eqbcd("bytes per scan", F, 19, 0, 6, g.bytes_per_scan);
    eqbcd("polarity", F, 23, 0, 1, g.polarity);
    eq("scans per block", static_cast<int64_t>(sv_filebyte(F, 24)) << (sv_filebyte(F, 23) & 15), g.scans_per_block);
    eqbcd("record type", F, 25, 0, 1, g.record_type);
    if (extlen) { eq("record length mark", u(F, 25, 2) & 0xfff, 0xfff); }
    else eqbcd("record length", F, 25, 1, 3, g.record_length);
    eqbcd("scan types", F, 27, 0, 2, g.scan_types_per_record);
    if (g.channel_sets_per_scan_type > 99) eq("channel sets mark", sv_filebyte(F, 28), 0xff);
    else eqbcd("channel sets", F, 28, 0, 2, g.channel_sets_per_scan_type);
    eqbcd("skew blocks", F, 29, 0, 2, g.skew_blocks);
    if (g.extended_hdr_blocks > 99) eq("extended header mark", sv_filebyte(F, 30), 0xff);
    else eqbcd("extended header blocks", F, 30, 0, 2, g.extended_hdr_blocks);
    if (g.external_hdr_blocks > 99) eq("external header mark", sv_filebyte(F, 31), 0xff);
    else eqbcd("external header blocks", F, 31, 0, 2, g.external_hdr_blocks);
}
static void gen2(C::GeneralHeader2 const& h)
{
    uint64_t b = 32;
    eq("expanded file number", u(F, b, 3), h.expanded_file_num);
    eq("extended channel sets", u(F, b + 3, 2), h.ext_ch_sets_per_scan_type);
    eq("extended header blocks", u(F, b + 5, 2), h.extended_hdr_blocks);
    eq("external header blocks", u(F, b + 7, 2), h.external_hdr_blocks);
    eq("revision", u(F, b + 10, 2), 0x0201);
    eq("trailer blocks", u(F, b + 12, 2), 0);
    eq("extended record length", u(F, b + 14, 3), h.ext_record_len);
    eq("block number", u(F, b + 18, 1), h.gen_hdr_block_num);
    eq("sequence number", u(F, b + 20, 2), h.sequence_number);
    zeros(F, b + 9, b + 10);
    zeros(F, b + 17, b + 18);
    zeros(F, b + 19, b + 20);
    zeros(F, b + 22, b + 32);
}
extern "C" void sc_C22_general()
{
    static long const scans[] = { 0, 1, 37, 255, 256, 510, 1008, 255L << 15, 129L << 7 };
    int v = sv_param("digits", 0, 6), len = sv_param("extended length", 0, 4);
    Digits d { v };
    C::GeneralHeader g = gh1();
    g.file_number = v == 3 ? 10000 : v == 4 ? 65535 : d(4);
    g.gen_const = d(12);
    g.year = d(2);
    g.day = d(3);
    g.hour = d(2);
    g.minute = d(2);
    g.second = d(2);
    g.manufac_code = d(2);
    g.manufac_num = d(4);
    g.bytes_per_scan = d(6);
    uint8_t bsi = sv_u8("base scan interval");
    g.base_scan_int = bsi / 16.0;
    g.polarity = d(1);
    g.scans_per_block = scans[sv_param("scans per block", 0, 9)];
    g.record_type = d(1);
    g.record_length = d(3);
    C::GeneralHeader2 h = gh22();
    h.expanded_file_num = sv_u32("expanded file number") & 0xffffff;
    h.ext_ch_sets_per_scan_type = sv_u16("extended channel sets");
    h.extended_hdr_blocks = sv_u16("extended blocks");
    h.external_hdr_blocks = sv_u16("external blocks");
    h.segd_rev_major = sv_u8("rev major");
    h.segd_rev_minor = sv_u8("rev minor");
    h.gen_trailer_num_of_blocks = sv_u16("trailers");
    h.gen_hdr_block_num = sv_u8("block number");
    h.sequence_number = sv_u16("sequence number");
    if (len) // nonzero, each of its three bytes in turn
        h.ext_record_len = (sv_u32("record length") & 0xffffff) | 0x40u << 8 * (len - 1);
    { OSEGDRev2_1 out(F, g, h, { { chset(1, 1, 1) } }); }
    eq("file size", sv_filesize(F), 96);
    gen1(g, len);
    eq("base scan interval", sv_filebyte(F, 22), bsi);
    gen2(h);
}
// additional general header blocks
extern "C" void sc_C22_blocks()
{
    int n = sv_param("blocks", 0, 15), order = n > 1 ? sv_param("order", 0, 2) : 0;
    C::GeneralHeader g = gh1();
    g.add_gen_hdr_blocks = 1 + n;
    std::vector<std::shared_ptr<C::AdditionalGeneralHeader>> add;
    std::vector<int64_t> line, point;
    std::vector<C::GeneralHeaderN> hs;
    for (int i = 0; i < n; ++i) {
        auto p = std::make_shared<C::GeneralHeaderN>();
        C::GeneralHeaderN& x = *p;
        x.expanded_file_number = sv_u32(lbl("file", i).c_str()) & 0xffffff;
        line.push_back(sv::sx(sv_u64(lbl("line", i).c_str()) & 0xffffffffffu, 5));
        point.push_back(sv::sx(sv_u64(lbl("point", i).c_str()) & 0xffffffffffu, 5));
        x.sou_line_num = line[i] / 65536.0;
        x.sou_point_num = point[i] / 65536.0;
        x.sou_point_index = sv_u8(lbl("index", i).c_str());
        x.phase_control = sv_u8(lbl("phase control", i).c_str());
        x.type_vibrator = sv_u8(lbl("vibrator", i).c_str());
        x.phase_angle = sv_u16(lbl("angle", i).c_str());
        x.gen_hdr_block_num = 3 + i;
        x.sou_set_num = sv_u8(lbl("set", i).c_str());
        hs.push_back(x);
        add.push_back(p);
    }
    if (order)
        std::reverse(add.begin(), add.end());
    { OSEGDRev2_1 out(F, g, gh22(), { { chset(1, 1, 1) } }, add); }
    eq("file size", sv_filesize(F), 96 + 32 * n);
    eq("additional blocks", sv_filebyte(F, 11) >> 4, 1 + n);
    for (int i = 0; i < n; ++i) {
        uint64_t b = 64 + 32 * i;
        eq("file number", u(F, b, 3), hs[i].expanded_file_number);
        eq("source line number", s(F, b + 3, 5), line[i]);
        eq("source point number", s(F, b + 8, 5), point[i]);
        eq("source point index", u(F, b + 13, 1), hs[i].sou_point_index);
        eq("phase control", u(F, b + 14, 1), hs[i].phase_control);
        eq("type vibrator", u(F, b + 15, 1), hs[i].type_vibrator);
        eq("phase angle", s(F, b + 16, 2), hs[i].phase_angle);
        eq("block number", u(F, b + 18, 1), hs[i].gen_hdr_block_num);
        eq("source set number", u(F, b + 19, 1), hs[i].sou_set_num);
        zeros(F, b + 20, b + 32);
    }
}
static void set(C::ChannelSetHeader const& h, uint64_t b)
{
    eqbcd("scan type number", F, b, 0, 2, h.scan_type_number);
    if (h.channel_set_number < 100) eqbcd("channel set number", F, b + 1, 0, 2, h.channel_set_number);
    eqbcd("number of channels", F, b + 8, 0, 4, h.number_of_channels);
    eqbcd("channel type", F, b + 10, 0, 1, h.channel_type);
    eq("subscans", 1 << (sv_filebyte(F, b + 11) >> 4), h.subscans_per_ch_set);
    eqbcd("channel gain", F, b + 11, 1, 1, h.channel_gain);
    eqbcd("alias filter frequency", F, b + 12, 0, 4, h.alias_filter_freq);
    eqbcd("alias filter slope", F, b + 14, 0, 4, h.alias_filter_slope);
    eqbcd("low cut frequency", F, b + 16, 0, 4, h.low_cut_filter_freq);
    eqbcd("low cut slope", F, b + 18, 0, 4, h.low_cut_filter_slope);
    eqbcd("first notch", F, b + 20, 0, 4, h.first_notch_filter);
    eqbcd("second notch", F, b + 22, 0, 4, h.second_notch_filter);
    eqbcd("third notch", F, b + 24, 0, 4, h.third_notch_filter);
    eq("extended channel set number", u(F, b + 26, 2), h.ext_ch_set_num);
    eq("extended header flag", sv_filebyte(F, b + 28) >> 4, h.ext_hdr_flag);
    eq("trace header extensions", sv_filebyte(F, b + 28) & 15, h.trc_hdr_ext);
    eq("vertical stack", u(F, b + 29, 1), h.vert_stack);
    eq("streamer", u(F, b + 30, 1), h.streamer_no);
    eq("array forming", u(F, b + 31, 1), h.array_forming);
    eqbcd("unused half of byte", F, b + 10, 1, 1, 0);
}
extern "C" void sc_C22_sets()
{
    int v = sv_param("digits", 0, 6), nst = sv_param("scan types", 1, 3), ncs = sv_param("channel sets", 1, 3), skew = sv_param("skew", 0, 2);
    int ext = sv_param("headers", 0, 2);
    Digits d { v };
    C::GeneralHeader g = gh1();
    g.scan_types_per_record = nst;
    g.channel_sets_per_scan_type = ncs;
    g.skew_blocks = skew;
    g.extended_hdr_blocks = ext * 2;
    g.external_hdr_blocks = ext;
    std::vector<std::vector<C::ChannelSetHeader>> sets;
    std::vector<std::vector<char>> e, x;
    std::vector<uint16_t> t0, t1, dm;
    for (int i = 0; i < nst; ++i) {
        sets.push_back({});
        for (int j = 0; j < ncs; ++j) {
            int k = i * ncs + j;
            t0.push_back(sv_u16(lbl("start", k).c_str()));
            t1.push_back(sv_u16(lbl("end", k).c_str()));
            uint16_t w = sv_u16(lbl("descale", k).c_str());
            if (k & 1) w = (w & 0x7fff) | 0x8000 | 1 << (v + 3);
            else w &= 0x7fff;
            dm.push_back(w);
            double m = (w & 0x7fff) / 1024.0;
            C::ChannelSetHeader h(d(2), d(2), d(1), 2 * t0[k], 2 * t1[k], k & 1 ? -m : m, d(4), 1 << d(1), d(1), d(4), d(4), d(4), d(4), d(4), d(4), d(4),
                sv_u16(lbl("ext num", k).c_str()), sv_u8(lbl("flag", k).c_str()) & 15, sv_u8(lbl("trc ext", k).c_str()) & 15,
                sv_u8(lbl("stack", k).c_str()), sv_u8(lbl("streamer", k).c_str()), sv_u8(lbl("array", k).c_str()));
            sets[i].push_back(h);
        }
    }
    for (int i = 0; i < 3 * ext; ++i) {
        std::vector<char> b;
        for (int k = 0; k < 32; ++k)
            b.push_back(sv_u8(("byte " + std::to_string(i) + " " + std::to_string(k)).c_str()));
        if (i == 1)
            b.resize(5); // shorter ones are filled with zeros
        (i < 2 * ext ? e : x).push_back(b);
    }
    { OSEGDRev2_1 out(F, g, gh22(), sets, {}, e, x); }
    uint64_t b = 64;
    gen1(g, false);
    for (int i = 0; i < nst; ++i) {
        for (int j = 0; j < ncs; ++j, b += 32) {
            int k = i * ncs + j;
            set(sets[i][j], b);
            eq("start time", u(F, b + 2, 2), t0[k]);
            eq("end time", u(F, b + 4, 2), t1[k]);
            eq("descale multiplier", u(F, b + 6, 2), dm[k]);
        }
        zeros(F, b, b + 32 * skew);
        b += 32 * skew;
    }
    for (auto* l : { &e, &x })
        for (auto& h : *l) {
            for (size_t k = 0; k < 32; ++k)
                eq("header block byte", sv_filebyte(F, b + k), k < h.size() ? static_cast<uint8_t>(h[k]) : 0);
            b += 32;
        }
    eq("file size", sv_filesize(F), b);
}
// numbers too large for two digits go to general header 2
extern "C" void sc_C22_large()
{
    int what = sv_param("what", 0, 3), n = sv_param("count", 99, 103);
    C::GeneralHeader g = gh1();
    C::GeneralHeader2 h = gh22();
    std::vector<std::vector<C::ChannelSetHeader>> sets { {} };
    std::vector<std::vector<char>> e, x;
    int ncs = what == 0 ? n : 1;
    for (int i = 0; i < ncs; ++i)
        sets[0].push_back(chset(1, i + 1, 1));
    for (int i = 0; i < n && what; ++i)
        (what == 1 ? e : x).push_back(std::vector<char>(32, i));
    g.channel_sets_per_scan_type = ncs;
    g.extended_hdr_blocks = e.size();
    g.external_hdr_blocks = x.size();
    h.ext_ch_sets_per_scan_type = ncs;
    h.extended_hdr_blocks = e.size();
    h.external_hdr_blocks = x.size();
    { OSEGDRev2_1 out(F, g, h, sets, {}, e, x); }
    gen1(g, false);
    gen2(h);
    for (int i = 0; i < ncs; ++i) {
        uint64_t b = 64 + 32 * i;
        eq("extended channel set number", u(F, b + 26, 2), i + 1);
        eqbcd("number of channels", F, b + 8, 0, 4, 1);
    }
    for (int i = 0; i < n && what; ++i)
        eq("header block", u(F, 64 + 32 * (1 + i), 4), i * 0x01010101u);
    eq("file size", sv_filesize(F), 64 + 32 * (ncs + e.size() + x.size()));
}
// counts and values around constants that are new in the source
extern "C" void sc_C22_near()
{
    static int const hi[] = { 300, 300, 300, 65535, 9999, 999, 99, 99, 99 };
    int what = sv_param("what", 0, 9), n = sv::near(1, hi[what]);
    C::GeneralHeader g = gh1();
    C::GeneralHeader2 h = gh22();
    std::vector<std::vector<C::ChannelSetHeader>> sets { {} };
    std::vector<std::vector<char>> e, x;
    int ncs = what == 0 ? n : 1;
    for (int i = 0; i < ncs; ++i)
        sets[0].push_back(chset(1, i + 1, what == 4 ? n : 1));
    for (int i = 0; i < n && (what == 1 || what == 2); ++i)
        (what == 1 ? e : x).push_back(std::vector<char>(32, i));
    if (what == 3) g.file_number = n;
    if (what == 4) { g.manufac_num = n; g.gen_const = n; g.bytes_per_scan = n; sets[0][0].alias_filter_freq = n; sets[0][0].low_cut_filter_slope = n; sets[0][0].third_notch_filter = n; }
    if (what == 5) { g.day = n; g.record_length = n; }
    if (what == 6) { g.year = n; g.hour = n; g.minute = n; g.second = n; g.manufac_code = n; g.skew_blocks = n % 3; }
    if (what == 7) g.skew_blocks = n;
    if (what == 8) {
        g.scan_types_per_record = n;
        for (int i = 1; i < n; ++i)
            sets.push_back({ chset(i + 1, 1, 1) });
    }
    g.channel_sets_per_scan_type = ncs > 99 ? 165 : ncs;
    g.extended_hdr_blocks = e.size() > 99 ? 165 : e.size();
    g.external_hdr_blocks = x.size() > 99 ? 165 : x.size();
    h.ext_ch_sets_per_scan_type = ncs;
    h.extended_hdr_blocks = e.size();
    h.external_hdr_blocks = x.size();
    { OSEGDRev2_1 out(F, g, h, sets, {}, e, x); }
    gen1(g, false);
    gen2(h);
    for (int i = 0; i < ncs; ++i) {
        uint64_t b = 64 + 32 * i;
        eq("extended channel set number", u(F, b + 26, 2), i + 1);
        set(sets[0][i], b);
    }
    if (what == 7)
        zeros(F, 96, 96 + 32 * n);
    for (int i = 1; i < n && what == 8; ++i)
        eqbcd("scan type number", F, 64 + 32 * i, 0, 2, i + 1);
    for (int i = 0; i < n && (what == 1 || what == 2); ++i)
        eq("header block", u(F, 64 + 32 * (1 + i), 4), (i & 255) * 0x01010101u);
    eq("file size", sv_filesize(F), 64 + 32 * ((what == 8 ? n : ncs) + g.skew_blocks + e.size() + x.size()));
}
