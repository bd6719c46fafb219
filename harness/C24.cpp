#include "segdw.hpp"
// a record that was written is read back; a record that contradicts itself is refused
static char const* const F = "out.segd";
using H = std::unordered_map<std::string, Val>;
static std::string nm(char const* a, int k) { return lbl(a, k); }
static double smp(int code, int k, int i)
{
    std::string n = "sample " + std::to_string(k) + " " + std::to_string(i);
    uint64_t w = sv_u64(n.c_str());
    switch (code) {
    case 8036: case 9036: return static_cast<double>(static_cast<int32_t>(sv::sx(w & 0xffffff, 3)));
    case 8038: case 9038: return static_cast<double>(static_cast<int32_t>(w));
    case 8058: case 9058: return sv::f32(w);
    default: return sv::f64(w);
    }
}
extern "C" void sc_C24_roundtrip()
{
    static int const fm[] = { 8036, 8038, 8058, 8080, 9036, 9038, 9058, 9080 };
    int code = fm[sv_param("format", 0, 8)];
    bool shapes = code == 8058 || code == 9036;
    int nst = shapes ? sv_param("scan types", 1, 3) : 2, ncs = shapes ? sv_param("channel sets", 1, 3) : 2, ch = shapes ? sv_param("channels", 1, 3) : 1;
    int ext = sv_param("extensions", 0, 3), nx = shapes ? sv_param("extras", 0, 2) : 0, mapped = ext ? sv_param("map", 0, 2) : 0;
    int ns = ext ? 3 : 2;
    C::GeneralHeader g = gh1(code);
    g.file_number = 321;
    g.scan_types_per_record = nst;
    g.channel_sets_per_scan_type = ncs;
    g.skew_blocks = nx;
    g.extended_hdr_blocks = nx;
    g.external_hdr_blocks = 2 * nx;
    g.add_gen_hdr_blocks = 1 + nx;
    std::vector<std::vector<C::ChannelSetHeader>> sets(nst);
    for (int i = 0; i < nst; ++i)
        for (int j = 0; j < ncs; ++j) {
            sets[i].push_back(chset(i + 1, j + 1, ch, code % 100 < 40 ? j + i : 0));
            sets[i][j].subscans_per_ch_set = 2;
        }
    std::vector<std::vector<char>> e, x;
    for (int i = 0; i < nx; ++i) {
        e.push_back(std::vector<char>(32, 'e'));
        x.push_back(std::vector<char>(32, 'x'));
        x.push_back(std::vector<char>(32, sv_u8("external")));
    }
    std::vector<std::shared_ptr<C::AdditionalGeneralHeader>> add;
    if (nx) {
        auto p = std::make_shared<C::GeneralHeaderN>();
        p->expanded_file_number = sv_u32("file") & 0xffffff;
        p->gen_hdr_block_num = 3;
        p->sou_line_num = p->sou_point_num = 0;
        p->sou_point_index = p->phase_control = p->type_vibrator = p->sou_set_num = 0;
        p->phase_angle = 0;
        add.push_back(p);
    }
    EMaps maps;
    if (mapped)
        maps.push_back({ { 2, { "R_LINE", VT::int32_t } }, { 7, { "SAMP_NUM", VT::uint24_t } }, { 24, { "Y", VT::ieee_double } } });
    int n = nst * ncs * ch;
    auto scl = [&](int k) { double f = 1; if (code % 100 < 40) for (int q = k / ch % ncs + k / ch / ncs; q > 0; --q) f *= 2; return f; };
    {
        OSEGDRev2_1 out(F, g, gh22(), sets, add, e, x, maps);
        for (int k = 0; k < n; ++k) {
            std::vector<double> s;
            for (int i = 0; i < ns; ++i)
                s.push_back(smp(code, k, i) * scl(k));
            H h { { "FFID", int64_t { 321 } }, { "SCAN_TYPE_NUM", int64_t { k / ch / ncs + 1 } }, { "CH_SET_NUM", int64_t { k / ch % ncs + 1 } },
                { "CHAN", int64_t { k % ch + 1 } }, { "TR_HDR_EXT", int64_t { ext } }, { "TRACE_EDIT", int64_t { sv_u8(nm("edit", k).c_str()) } } };
            if (ext) {
                h["SAMP_NUM"] = int64_t { ns };
                h["R_LINE"] = int64_t { sv_u32(nm("line", k).c_str()) & 0xffffff };
                if (mapped) h["Y"] = sv_f64(nm("y", k).c_str());
            }
            Trace t(h, s);
            out.write_trace(t);
        }
    }
    ISEGD in(F, maps);
    eq("revision", in.general_header2()->segd_rev_major * 256 + in.general_header2()->segd_rev_minor, 0x201);
    eq("file number", in.general_header().file_number, 321);
    eq("scan types", in.channel_set_headers().size(), nst);
    for (int k = 0; k < n; ++k) {
        eq(nm("has trace", k), in.has_trace(), 1);
        Trace t = in.read_trace();
        auto& h = t.header();
        eq("FFID", ival(h.get("FFID"), "FFID"), 321);
        eq("SCAN_TYPE_NUM", ival(h.get("SCAN_TYPE_NUM"), "SCAN_TYPE_NUM"), k / ch / ncs + 1);
        eq("CH_SET_NUM", ival(h.get("CH_SET_NUM"), "CH_SET_NUM"), k / ch % ncs + 1);
        eq("CHAN", ival(h.get("CHAN"), "CHAN"), k % ch + 1);
        eq("TRACE_EDIT", ival(h.get("TRACE_EDIT"), "TRACE_EDIT"), sv_u8(nm("edit", k).c_str()));
        if (ext) eq("SAMP_NUM", ival(h.get("SAMP_NUM"), "SAMP_NUM"), ns);
        if (ext && mapped) {
            eq("R_LINE", ival(h.get("R_LINE"), "R_LINE"), sv_u32(nm("line", k).c_str()) & 0xffffff);
            eqd("Y", dval(h.get("Y"), "Y"), sv_f64(nm("y", k).c_str()));
        }
        eq("samples", t.samples().size(), ns);
        for (int i = 0; i < ns; ++i)
            eqd(lbl("sample", i), t.samples()[i], smp(code, k, i) * scl(k));
    }
    eq("no more traces", in.has_trace(), 0);
    eq("no more records", in.has_record(), 0);
    if (nx) {
        eq("extended headers", in.extended_headers().size(), 1);
        eq("external headers", in.external_headers().size(), 2);
        eq("external header byte", static_cast<uint8_t>(in.external_headers()[1][31]), sv_u8("external"));
    }
}
// exactly as many traces as the channel sets announce, then no more
extern "C" void sc_C24_toomany()
{
    int a = sv_param("first set", 0, 4), b = sv_param("second set", 0, 3), nst = sv_param("scan types", 1, 3);
    C::GeneralHeader g = gh1();
    g.scan_types_per_record = nst;
    g.channel_sets_per_scan_type = 2;
    std::vector<std::vector<C::ChannelSetHeader>> sets;
    for (int i = 0; i < nst; ++i)
        sets.push_back({ chset(i + 1, 1, a), chset(i + 1, 2, b) });
    int n = (a + b) * nst;
    {
        OSEGDRev2_1 out(F, g, gh22(), sets);
        for (int k = 0; k < n; ++k) {
            Trace t(H { { "CH_SET_NUM", int64_t { 1 + k % 2 } } }, { 0.0 });
            out.write_trace(t);
        }
        for (int i = 0; i < 2; ++i) {
            bool refused = false;
            try {
                Trace t(H {}, { 0.0 });
                out.write_trace(t);
            } catch (Exception&) {
                refused = true;
            }
            eq("a trace more than announced is refused", refused, 1);
        }
    }
    eq("file size", sv_filesize(F), 64 + 64 * nst + 24 * n);
}
// contradictions found when the record is begun
extern "C" void sc_C24_begin()
{
    int what = sv_param("what", 0, 14);
    C::GeneralHeader g = gh1();
    C::GeneralHeader2 g2 = gh22();
    std::vector<std::vector<C::ChannelSetHeader>> sets { { chset(1, 1, 1), chset(1, 2, 1) }, { chset(2, 1, 1), chset(2, 2, 1) } };
    g.scan_types_per_record = 2;
    g.channel_sets_per_scan_type = 2;
    std::vector<std::vector<char>> e, x;
    std::vector<std::shared_ptr<C::AdditionalGeneralHeader>> add;
    auto block = [](int n) { auto p = std::make_shared<C::GeneralHeaderN>(); p->gen_hdr_block_num = n; p->sou_line_num = p->sou_point_num = 0; return p; };
    bool bad = true;
    switch (what) {
    case 0: bad = false; break;
    case 1: sets.pop_back(); break;
    case 2: sets.push_back(sets[0]); break;
    case 3: sets[0].pop_back(); break;
    case 4: sets[1].push_back(sets[1][0]); break;
    case 5: e.push_back(std::vector<char>(32)); break;
    case 6: g.extended_hdr_blocks = 1; break;
    case 7: x.push_back(std::vector<char>(32)); break;
    case 8: g.external_hdr_blocks = 3; break;
    case 9: add.push_back(block(3)); break;
    case 10: g.add_gen_hdr_blocks = 2; break;
    case 11: g.add_gen_hdr_blocks = 3; add.push_back(block(3)); add.push_back(block(3)); break;
    case 12: { auto p = std::make_shared<C::GeneralHeaderSur>(); p->gen_hdr_block_type = C::AdditionalGeneralHeader::SURVEY_AREA_NAME; add.push_back(p); g.add_gen_hdr_blocks = 2; break; }
    case 13: sets[1].pop_back(); break;
    }
    bool refused = false;
    try {
        OSEGDRev2_1 out(F, g, g2, sets, add, e, x);
    } catch (Exception&) {
        refused = true;
    }
    eq("refused", refused, bad);
    if (!bad) eq("file size", sv_filesize(F), 64 + 128);
}
// a trace that contradicts itself or the record is refused, leaves no byte behind and does not count
extern "C" void sc_C24_trace()
{
    int what = sv_param("what", 0, 10), first = sv_param("after", 0, 2);
    C::GeneralHeader g = gh1();
    g.scan_types_per_record = 2;
    g.channel_sets_per_scan_type = 2;
    std::vector<std::vector<C::ChannelSetHeader>> sets { { chset(1, 1, 1), chset(1, 2, 0) }, { chset(2, 1, 0), chset(2, 2, 1) } };
    {
        OSEGDRev2_1 out(F, g, gh22(), sets);
        if (first) { Trace t(H {}, { 1.0 }); out.write_trace(t); }
        H h { { "SCAN_TYPE_NUM", int64_t { 2 } }, { "CH_SET_NUM", int64_t { 2 } } };
        switch (what) {
        case 0: h["CH_SET_NUM"] = int64_t { 3 }; break;
        case 1: h["CH_SET_NUM"] = int64_t { 0 }; break;
        case 2: h["SCAN_TYPE_NUM"] = int64_t { 3 }; break;
        case 3: h["SCAN_TYPE_NUM"] = int64_t { 0 }; break;
        case 4: h["CH_SET_NUM"] = int64_t { -1 }; break;
        case 5: h["SAMP_NUM"] = int64_t { 1 }; break;
        case 6: h["SAMP_NUM"] = int64_t { 3 }; break;
        case 7: h["TR_HDR_EXT"] = int64_t { 1 }; break;
        case 8: h["TR_HDR_EXT"] = int64_t { 1 }; h["SAMP_NUM"] = int64_t { 0 }; break;
        case 9: h["CH_SET_NUM"] = int64_t { 100 }; break;
        }
        bool refused = false;
        try {
            Trace t(h, { 1.0, 2.0 });
            out.write_trace(t);
        } catch (Exception&) {
            refused = true;
        }
        eq("refused", refused, 1);
        for (int k = first; k < 2; ++k) {
            Trace t(H { { "CHAN", int64_t { 7 } } }, { 3.0 });
            out.write_trace(t);
        }
    }
    uint64_t b = 64 + 128;
    eq("file size", sv_filesize(F), b + 48);
    for (int k = 0; k < 2; ++k) {
        eqbcd("trace number", F, b + 24 * k + 4, 0, 4, first && !k ? 0 : 7);
        eq("sample", u(F, b + 24 * k + 20, 4), first && !k ? 0x3f800000 : 0x40400000);
    }
}
// maps beyond the extension are refused
extern "C" void sc_C24_badmap()
{
    static VT const types[] = { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t,
        VT::int64_t, VT::uint64_t, VT::ibm, VT::ieee_single, VT::ieee_double };
    static int const sizes[] = { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 4, 8 };
    int k = sv_param("type", 0, 13), where = sv_param("where", 0, 4);
    uint32_t off = where == 3 ? 32 - sizes[k] : where == 0 ? 33 - sizes[k] : where == 1 ? 32 : 0xffffffffu;
    EMaps maps { EMap { { off, { "X", types[k] } } } };
    if (where == 2)
        maps.insert(maps.begin(), EMap { { 0, { "A", VT::uint8_t } } });
    bool refused = false;
    try {
        OSEGDRev2_1 out(F, gh1(), gh22(), { { chset(1, 1, 1) } }, {}, {}, {}, maps);
    } catch (Exception&) {
        refused = true;
    }
    eq("refused", refused, where != 3);
}
// every header value comes back
extern "C" void sc_C24_headers()
{
    int v = sv_param("digits", 0, 6), nst = sv_param("scan types", 1, 3), ncs = sv_param("channel sets", 1, 3), nb = sv_param("blocks", 0, 3);
    Digits d { v };
    C::GeneralHeader g = gh1();
    g.file_number = d(4);
    g.gen_const = d(12);
    g.year = d(2);
    g.day = d(3);
    g.hour = d(2);
    g.minute = d(2);
    g.second = d(2);
    g.manufac_code = d(2);
    g.manufac_num = d(4);
    g.bytes_per_scan = d(6);
    g.base_scan_int = sv_u8("base scan interval") / 16.0;
    g.polarity = d(1);
    g.scans_per_block = v % 2 ? 255 : 16 * v;
    g.record_type = d(1);
    g.record_length = d(3);
    g.scan_types_per_record = nst;
    g.channel_sets_per_scan_type = ncs;
    g.add_gen_hdr_blocks = 1 + nb;
    C::GeneralHeader2 h = gh22();
    h.expanded_file_num = sv_u32("expanded file number") & 0xffffff;
    h.ext_ch_sets_per_scan_type = sv_u16("extended channel sets");
    h.extended_hdr_blocks = sv_u16("extended blocks");
    h.external_hdr_blocks = sv_u16("external blocks");
    h.gen_hdr_block_num = sv_u8("block number") & 0x7f;
    h.sequence_number = sv_u16("sequence number");
    std::vector<std::shared_ptr<C::AdditionalGeneralHeader>> add;
    std::vector<C::GeneralHeaderN> hs;
    for (int i = 0; i < nb; ++i) {
        auto p = std::make_shared<C::GeneralHeaderN>();
        p->expanded_file_number = sv_u32(lbl("file", i).c_str()) & 0xffffff;
        p->sou_line_num = sv::sx(sv_u64(lbl("line", i).c_str()) & 0xffffffffffu, 5) / 65536.0;
        p->sou_point_num = sv::sx(sv_u64(lbl("point", i).c_str()) & 0xffffffffffu, 5) / 65536.0;
        p->sou_point_index = sv_u8(lbl("index", i).c_str());
        p->phase_control = sv_u8(lbl("phase control", i).c_str());
        p->type_vibrator = sv_u8(lbl("vibrator", i).c_str());
        p->phase_angle = sv_u16(lbl("angle", i).c_str());
        p->gen_hdr_block_num = 3 + i;
        p->sou_set_num = sv_u8(lbl("set", i).c_str());
        hs.push_back(*p);
        add.push_back(p);
    }
    std::vector<std::vector<C::ChannelSetHeader>> sets(nst);
    for (int i = 0; i < nst; ++i)
        for (int j = 0; j < ncs; ++j) {
            int k = i * ncs + j;
            double m = ((sv_u16(lbl("descale", k).c_str()) & 0x7fff) | 1) / 1024.0;
            sets[i].push_back(C::ChannelSetHeader(d(2), d(2), d(1), 2 * sv_u16(lbl("start", k).c_str()), 2 * sv_u16(lbl("end", k).c_str()), k & 1 ? -m : m, d(4), 1 << d(1), d(1), d(4), d(4), d(4), d(4), d(4), d(4), d(4),
                sv_u16(lbl("ext num", k).c_str()), sv_u8(lbl("flag", k).c_str()) & 15, sv_u8(lbl("trc ext", k).c_str()) & 15,
                sv_u8(lbl("stack", k).c_str()), sv_u8(lbl("streamer", k).c_str()), sv_u8(lbl("array", k).c_str())));
        }
    { OSEGDRev2_1 out(F, g, h, sets, add); }
    ISEGD in(F);
    C::GeneralHeader a = in.general_header();
#define SAME(m) eq(#m, a.m, g.m)
    SAME(file_number); SAME(format_code); SAME(gen_const); SAME(year); SAME(add_gen_hdr_blocks); SAME(day); SAME(hour); SAME(minute); SAME(second);
    SAME(manufac_code); SAME(manufac_num); SAME(bytes_per_scan); SAME(polarity); SAME(scans_per_block); SAME(record_type); SAME(record_length);
    SAME(scan_types_per_record); SAME(channel_sets_per_scan_type); SAME(skew_blocks); SAME(extended_hdr_blocks); SAME(external_hdr_blocks);
#undef SAME
    eqd("base_scan_int", a.base_scan_int, g.base_scan_int);
    C::GeneralHeader2 b = *in.general_header2();
#define SAME(m) eq(#m, b.m, h.m)
    SAME(expanded_file_num); SAME(ext_ch_sets_per_scan_type); SAME(extended_hdr_blocks); SAME(external_hdr_blocks); SAME(gen_hdr_block_num); SAME(sequence_number);
#undef SAME
    auto n = in.general_headerN();
    eq("general headers N", n.size(), nb);
    for (int i = 0; i < nb && i < static_cast<int>(n.size()); ++i) {
#define SAME(m) eq(#m, n[i].m, hs[i].m)
        SAME(expanded_file_number); SAME(sou_point_index); SAME(phase_control); SAME(type_vibrator); SAME(phase_angle); SAME(gen_hdr_block_num); SAME(sou_set_num);
#undef SAME
        eqd("sou_line_num", n[i].sou_line_num, hs[i].sou_line_num);
        eqd("sou_point_num", n[i].sou_point_num, hs[i].sou_point_num);
    }
    auto& c = in.channel_set_headers();
    eq("scan types", c.size(), nst);
    for (int i = 0; i < nst && i < static_cast<int>(c.size()); ++i) {
        eq("channel sets", c[i].size(), ncs);
        for (int j = 0; j < ncs && j < static_cast<int>(c[i].size()); ++j) {
#define SAME(m) eq(#m, c[i][j].m, sets[i][j].m)
            SAME(scan_type_number); SAME(channel_set_number); SAME(channel_type); SAME(channel_set_start_time); SAME(channel_set_end_time); SAME(number_of_channels);
            SAME(subscans_per_ch_set); SAME(channel_gain); SAME(alias_filter_freq); SAME(alias_filter_slope); SAME(low_cut_filter_freq); SAME(low_cut_filter_slope);
            SAME(first_notch_filter); SAME(second_notch_filter); SAME(third_notch_filter); SAME(ext_ch_set_num); SAME(ext_hdr_flag); SAME(trc_hdr_ext);
            SAME(vert_stack); SAME(streamer_no); SAME(array_forming);
#undef SAME
            eqd("descale_multiplier", c[i][j].descale_multiplier, sets[i][j].descale_multiplier);
        }
    }
}
static double scale(double m, int p)
{
    for (; p > 0; --p) m *= 2;
    for (; p < 0; ++p) m /= 2;
    return m;
}
static void back(int code, std::vector<double> const& s)
{
    {
        OSEGDRev2_1 out(F, gh1(code), gh22(), { { chset(1, 1, 1) } });
        Trace t(H { { "TR_HDR_EXT", int64_t { 1 } }, { "SAMP_NUM", static_cast<int64_t>(s.size()) } }, s);
        out.write_trace(t);
    }
    ISEGD in(F);
    Trace t = in.read_trace();
    eq("number of samples", t.samples().size(), s.size());
    for (size_t i = 0; i < s.size() && i < t.samples().size(); ++i)
        eqd(lbl("sample", i), t.samples()[i], s[i]);
    eq("no more traces", in.has_trace(), 0);
}
// formats with exponents
extern "C" void sc_C24_exponents()
{
    static int const fm[] = { 8022, 8024, 8042, 8044, 8048 };
    int code = fm[sv_param("format", 0, 5)], n = bits(code) / 8, part = sv_param("part", 0, 2);
    std::vector<double> s;
    for (int i = part; i < (code == 8048 ? 128 : 256); i += 2) {
        int e, fb, b;
        switch (code) {
        case 8022: e = i >> 4 & 7; fb = 4; b = 1; break;
        case 8024: e = i >> 4 & 7; fb = 12; b = 1; break;
        case 8042: e = i >> 5 & 3; fb = 5; b = 4; break;
        case 8044: e = i >> 5 & 3; fb = 13; b = 4; break;
        default: e = i & 0x7f; fb = 24; b = 4;
        }
        int kb = code == 8048 ? 0 : 8 - (n * 8 - fb);
        uint64_t known = code == 8048 ? 0 : i & ((1 << kb) - 1), f = known << (fb - kb);
        uint64_t low = sv_u32(lbl("fraction", i).c_str()) & ((uint64_t { 1 } << (fb - kb)) - 1);
        if (code == 8048) low = (low & 0xffffffu >> i % 4) | 0x800000u >> i % 4;
        else if (e == 0) { if (n > 1) low |= 1; }
        if (code != 8048 && e != 0 && !(b == 1 ? known >> (kb - 1) : known >> (kb - 4)))
            continue;
        if (n == 1 && !(f | low)) continue;
        f |= low;
        double d = code == 8048 ? scale(static_cast<double>(f), 4 * (e - 64) - fb) : scale(static_cast<double>(f), b * e - fb);
        s.push_back(i >> 7 || (code == 8048 && i & 2) ? -d : d);
    }
    back(code, s);
}
extern "C" void sc_C24_group20()
{
    int ns = sv_param("samples", 1, 10), e0 = sv_param("exponents", 0, 16);
    std::vector<double> s;
    for (int i = 0; i < ns; ++i) {
        uint16_t w = sv_u16(lbl("fraction", i).c_str());
        if ((i + e0) & 1) w = (w & 0xbfff) | 0x8001;
        else w = (w & 0x7fff) | 0x4000;
        s.push_back(scale(static_cast<double>(static_cast<int16_t>(w)), (e0 + 5 * i) % 16 - 15));
    }
    back(8015, s);
}
// records of many parts come back; the last channel set has the channels
static void parts(int nst, int ncs, int ch, int ns, int ne, int nx, int ext)
{
    C::GeneralHeader g = gh1();
    C::GeneralHeader2 g2 = gh22();
    g.scan_types_per_record = nst;
    g.channel_sets_per_scan_type = ncs > 99 ? 165 : ncs;
    g2.ext_ch_sets_per_scan_type = ncs;
    g.extended_hdr_blocks = ne > 99 ? 165 : ne;
    g2.extended_hdr_blocks = ne;
    g.external_hdr_blocks = nx > 99 ? 165 : nx;
    g2.external_hdr_blocks = nx;
    std::vector<std::vector<C::ChannelSetHeader>> sets(nst);
    std::vector<std::vector<char>> e, x;
    for (int i = 0; i < nst; ++i)
        for (int j = 0; j < ncs; ++j)
            sets[i].push_back(chset(i + 1, j + 1, i == nst - 1 && j == ncs - 1 ? ch : 0));
    for (int i = 0; i < ne; ++i)
        e.push_back(std::vector<char>(32, i));
    for (int i = 0; i < nx; ++i)
        x.push_back(std::vector<char>(32, i));
    int n = ch;
    bool refused = false;
    {
        OSEGDRev2_1 out(F, g, g2, sets, {}, e, x);
        for (int k = 0; k <= n; ++k) {
            std::vector<double> s(ns);
            s[0] = sv::f32(sv_u32(nm("first", k).c_str()));
            s[ns - 1] = sv::f32(sv_u32(nm("last", k).c_str()));
            Trace t(H { { "SCAN_TYPE_NUM", int64_t { nst } }, { "CH_SET_NUM", int64_t { ncs } }, { "TR_HDR_EXT", int64_t { ext } }, { "SAMP_NUM", int64_t { ns } },
                { "TRACE_EDIT", int64_t { sv_u8(nm("edit", k).c_str()) } } }, s);
            if (k < n)
                out.write_trace(t);
            else
                try {
                    out.write_trace(t);
                } catch (Exception&) {
                    refused = true;
                }
        }
    }
    eq("a trace more than announced is refused", refused, 1);
    eq("file size", sv_filesize(F), 64 + 32 * (nst * ncs + ne + nx) + static_cast<uint64_t>(n) * (20 + 32 * ext + 4 * ns));
    ISEGD in(F);
    eq("scan types", in.channel_set_headers().size(), nst);
    eq("channel sets", in.channel_set_headers()[nst - 1].size(), ncs);
    eq("extended headers", in.extended_headers().size(), ne);
    eq("external headers", in.external_headers().size(), nx);
    for (int i = 0; i < ne; ++i)
        eq("extended header", in.extended_headers()[i] == e[i], 1);
    for (int i = 0; i < nx; ++i)
        eq("external header", in.external_headers()[i] == x[i], 1);
    for (int k = 0; k < n; ++k) {
        eq("has trace", in.has_trace(), 1);
        Trace t = in.read_trace();
        auto& h = t.header();
        eq("SCAN_TYPE_NUM", ival(h.get("SCAN_TYPE_NUM"), "SCAN_TYPE_NUM"), nst);
        eq("CH_SET_NUM", ival(h.get("CH_SET_NUM"), "CH_SET_NUM"), ncs);
        eq("TRACE_EDIT", ival(h.get("TRACE_EDIT"), "TRACE_EDIT"), sv_u8(nm("edit", k).c_str()));
        eq("samples", t.samples().size(), ns);
        eqd("first", t.samples()[0], sv::f32(sv_u32(nm(ns > 1 ? "first" : "last", k).c_str())));
        eqd("last", t.samples()[ns - 1], sv::f32(sv_u32(nm("last", k).c_str())));
    }
    eq("no more traces", in.has_trace(), 0);
    eq("no more records", in.has_record(), 0);
}
extern "C" void sc_C24_parts()
{
    switch (sv_param("what", 0, 7)) {
    case 0: parts(1, 130, 1, 1, 0, 0, 1); break;
    case 1: parts(99, 1, 1, 1, 0, 0, 1); break;
    case 2: parts(1, 1, 40, 1, 0, 0, 1); break;
    case 3: parts(1, 1, 1, 10000, 0, 0, 1); break;
    case 4: parts(1, 1, 1, 1, 130, 0, 1); break;
    case 5: parts(1, 1, 1, 1, 0, 130, 1); break;
    default: parts(1, 2, 2, 1, 0, 0, 255);
    }
}
// counts around constants that are new in the source
extern "C" void sc_C24_near()
{
    static int const hi[] = { 260, 99, 110, 60000, 60000, 260, 260, 255 };
    int what = sv_param("what", 0, 8), n = sv::near(3, hi[what], what == 4 ? 4 : 1);
    parts(what == 1 ? n : 1, what == 0 ? n : 1, what == 2 ? n : 1, what == 3 || what == 4 ? n : 1, what == 5 ? n : 0, what == 6 ? n : 0, what == 7 ? n : 1);
}
// a value that the extensions need is lacking or of the other number kind: nothing is left behind
extern "C" void sc_C24_lacking()
{
    int what = sv_param("what", 0, 6), at = sv_param("map", 0, 2);
    EMaps maps;
    if (what < 4) {
        maps.push_back({ { 0, { "A", VT::int32_t } } });
        maps.push_back({ { 8, { "B", VT::ieee_double } } });
    }
    bool refused = false;
    {
        OSEGDRev2_1 out(F, gh1(), gh22(), { { chset(1, 1, 2) } }, {}, {}, {}, maps);
        for (int k = 0; k < 3; ++k) {
            H h { { "TR_HDR_EXT", int64_t { 2 } }, { "A", int64_t { 5 } }, { "B", 0.5 }, { "SAMP_NUM", int64_t { 1 } }, { "CHAN", int64_t { k } } };
            if (k == at)
                switch (what) {
                case 0: h.erase("A"); break;
                case 1: h.erase("B"); break;
                case 2: h["A"] = 5.0; break;
                case 3: h["B"] = int64_t { 5 }; break;
                case 4: h["SENSOR_TYPE"] = 1.0; break;
                default: h["R_POINT_IDX"] = 1.0;
                }
            try {
                Trace t(h, { sv::f32(sv_u32(nm("v", k).c_str())) });
                out.write_trace(t);
            } catch (std::exception&) {
                eq("the refused trace", k, at);
                refused = true;
            }
        }
    }
    uint64_t one = 20 + 64 + 4;
    if (refused) {
        eq("file size", sv_filesize(F), 96 + 2 * one);
        for (int i = 0; i < 2; ++i) {
            int k = i + (i >= at);
            eqbcd("trace number", F, 96 + i * one + 4, 0, 4, k);
            eq("sample", u(F, 96 + i * one + 84, 4), sv_u32(nm("v", k).c_str()));
        }
    }
}
