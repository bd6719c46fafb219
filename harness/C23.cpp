#include "segdw.hpp"
// traces written by the revision 2.1 writer
static char const* const F = "out.segd";
using H = std::unordered_map<std::string, Val>;
static int const ffids[] = { 0, 7, 9999, 10000, 65535, 0xffffff };
static int const chans[] = { 0, 1, 1234, 9999, 506, 9090 };
static int64_t in24(std::string const& n) { return sv_u32(n.c_str()) & 0xffffff; }
// the 20-byte header: every value given
extern "C" void sc_C23_header()
{
    static int const sets[] = { 3, 99, 100, 101 };
    int ncs = sets[sv_param("channel sets", 0, 4)], v = ncs > 3 ? 1 : sv_param("numbers", 0, 6), nst = ncs > 3 ? 1 : 2;
    int st = ncs > 3 ? 1 : sv_param("scan type", 1, 3), cs = ncs > 3 || sv_param("set", 0, 2) ? ncs : 1;
    C::GeneralHeader g = gh1();
    g.scan_types_per_record = nst;
    g.channel_sets_per_scan_type = ncs;
    C::GeneralHeader2 g2 = gh22();
    g2.ext_ch_sets_per_scan_type = ncs;
    std::vector<std::vector<C::ChannelSetHeader>> s(nst);
    for (int i = 0; i < nst; ++i)
        for (int j = 0; j < ncs; ++j)
            s[i].push_back(chset(i + 1, j + 1, 1));
    int64_t ftw = in24("first timing word"), tbw = in24("time break window"), skew = sv_u8("sample skew"), edit = sv_u8("trace edit");
    {
        OSEGDRev2_1 out(F, g, g2, s);
        Trace t(H { { "FFID", int64_t { ffids[v] } }, { "SCAN_TYPE_NUM", int64_t { st } }, { "CH_SET_NUM", int64_t { cs } }, { "CHAN", int64_t { chans[v] } },
            { "FIRST_TIMING_WORD", ftw / 256.0 }, { "TR_HDR_EXT", int64_t { 0 } }, { "SAMPLE_SKEW", skew / 256.0 }, { "TRACE_EDIT", edit },
            { "TIME_BREAK_WIN", tbw / 256.0 } }, { 0.0 });
        out.write_trace(t);
    }
    uint64_t b = 64 + 32 * nst * ncs;
    eq("file size", sv_filesize(F), b + 24);
    if (ffids[v] > 9999) eq("file number mark", u(F, b, 2), 0xffff);
    else eqbcd("file number", F, b, 0, 4, ffids[v]);
    eqbcd("scan type", F, b + 2, 0, 2, st);
    if (cs > 99) eq("channel set mark", sv_filebyte(F, b + 3), 0xff);
    else eqbcd("channel set", F, b + 3, 0, 2, cs);
    eqbcd("trace number", F, b + 4, 0, 4, chans[v]);
    eq("first timing word", u(F, b + 6, 3), ftw);
    eq("extensions", u(F, b + 9, 1), 0);
    eq("sample skew", u(F, b + 10, 1), skew);
    eq("trace edit", u(F, b + 11, 1), edit);
    eq("time break window", u(F, b + 12, 3), tbw);
    eq("extended channel set", u(F, b + 15, 2), cs > 99 ? cs : 0);
    if (ffids[v] > 9999) eq("extended file number", u(F, b + 17, 3), ffids[v]);
}
static void one(H const& h, std::vector<double> const& smp, EMaps maps = {}, int format = 8058, double descale = 0)
{
    OSEGDRev2_1 out(F, gh1(format), gh22(), { { chset(1, 1, 1, descale) } }, {}, {}, {}, maps);
    Trace t(h, smp);
    out.write_trace(t);
}
// values that the trace does not have are zero (numbers of scan type and channel set: one)
extern "C" void sc_C23_absent()
{
    int k = sv_param("present", 0, 3);
    H h;
    if (k == 1) h["TRACE_EDIT"] = int64_t { sv_u8("trace edit") };
    if (k == 2) { h["TR_HDR_EXT"] = int64_t { 1 }; h["SAMP_NUM"] = int64_t { 2 }; }
    one(h, { 0.0, 0.0 });
    uint64_t b = 96;
    eq("file size", sv_filesize(F), b + 20 + (k == 2 ? 32 : 0) + 8);
    for (int i = 0; i < 20; ++i)
        eq(lbl("header byte", i), sv_filebyte(F, b + i), i == 2 || i == 3 ? 1 : i == 11 && k == 1 ? sv_u8("trace edit") : i == 9 && k == 2 ? 1 : 0);
    if (k == 2) {
        eq("number of samples", u(F, b + 20 + 7, 3), 2);
        zeros(F, b + 20, b + 27);
        zeros(F, b + 30, b + 52);
    }
}
// the standard first extension; further ones are empty
extern "C" void sc_C23_std()
{
    int ext = sv_param("extensions", 1, 4), frac = sv_param("fractions", 0, 2), ns = sv_param("samples", 0, 3);
    int64_t line = in24("line"), point = in24("point"), lf = frac ? sv_u16("line fraction") : 0, pf = frac ? sv_u16("point fraction") : 0;
    H h { { "TR_HDR_EXT", int64_t { ext } }, { "SAMP_NUM", int64_t { ns } }, { "R_POINT_IDX", int64_t { sv_u8("index") } },
        { "SENSOR_TYPE", int64_t { sv_u8("sensor") } } };
    if (frac) {
        h["R_LINE"] = (line << 16 | lf) / 65536.0;
        h["R_POINT"] = (point << 16 | pf) / 65536.0;
    } else {
        h["R_LINE"] = line;
        h["R_POINT"] = point;
    }
    std::vector<double> s;
    for (int i = 0; i < ns; ++i)
        s.push_back(sv::f32(sv_u32(lbl("sample", i).c_str())));
    one(h, s);
    uint64_t b = 96 + 20;
    eq("file size", sv_filesize(F), b + 32 * ext + 4 * ns);
    eq("extensions", u(F, 96 + 9, 1), ext);
    eq("line", u(F, b, 3), line);
    eq("point", u(F, b + 3, 3), point);
    eq("point index", u(F, b + 6, 1), sv_u8("index"));
    eq("number of samples", u(F, b + 7, 3), ns);
    eq("extended line", u(F, b + 10, 3), line);
    eq("line fraction", u(F, b + 13, 2), lf);
    eq("extended point", u(F, b + 15, 3), point);
    eq("point fraction", u(F, b + 18, 2), pf);
    eq("sensor type", u(F, b + 20, 1), sv_u8("sensor"));
    zeros(F, b + 21, b + 32 * ext);
    for (int i = 0; i < ns; ++i)
        eq(lbl("sample", i), u(F, b + 32 * ext + 4 * i, 4), sv_u32(lbl("sample", i).c_str()));
}
static VT const types[] = { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t,
    VT::int64_t, VT::uint64_t, VT::ibm, VT::ieee_single, VT::ieee_double };
static int const sizes[] = { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 4, 8 };
static double ibm(uint32_t w, int lead)
{
    double m = w & 0xffffff;
    int e = (lead & 0x7f) - 64;
    for (; e > 0; --e) m *= 16;
    for (; e < 0; ++e) m /= 16;
    m /= 16777216.0;
    return lead >> 7 ? -m : m;
}
// maps given by the caller: the bytes at a mapped place, and zero elsewhere
extern "C" void sc_C23_maps()
{
    int k = sv_param("type", 0, 13), nmaps = sv_param("maps", 1, 3), ext = sv_param("extensions", 0, 4);
    static int const leads[] = { 0x41, 0xc1, 0x01, 0x7f, 0xbe, 0x46, 0xff, 0x80 };
    int lead = leads[k == 10 ? sv_param("lead", 0, 8) : 0];
    int sz = sizes[k];
    uint32_t offs[] = { 0, 9, static_cast<uint32_t>(32 - sz) };
    EMaps maps;
    H h { { "TR_HDR_EXT", int64_t { ext } } };
    std::map<int, uint64_t> raw;
    for (int m = 0; m < nmaps; ++m) {
        EMap e;
        for (int i = 0; i < 3; ++i) {
            std::string n = "V" + std::to_string(m) + std::to_string(i);
            e[offs[i]] = { n, types[k] };
            uint64_t w = sv_u64(n.c_str()) & (sz == 8 ? ~uint64_t { 0 } : (uint64_t { 1 } << 8 * sz) - 1);
            if (k == 10) w = (w & 0xffffff) | 0x800000u | static_cast<uint64_t>(lead) << 24;
            raw[m * 3 + i] = w;
            if (k == 10) h[n] = ibm(w, lead);
            else if (k == 11) h[n] = static_cast<double>(sv::f32(w));
            else if (k == 12) h[n] = sv::f64(w);
            else h[n] = k & 1 ? static_cast<int64_t>(w) : sv::sx(w, sz);
        }
        maps.push_back(e);
    }
    one(h, { 1.0 }, maps);
    uint64_t b = 96 + 20;
    eq("file size", sv_filesize(F), b + 32 * ext + 4);
    for (int m = 0; m < ext; ++m, b += 32) {
        uint64_t at = b;
        for (int i = 0; i < 3 && m < nmaps; ++i) {
            zeros(F, at, b + offs[i]);
            eq("V" + std::to_string(m) + std::to_string(i), u(F, b + offs[i], sz), raw[m * 3 + i]);
            at = b + offs[i] + sz;
        }
        zeros(F, at, b + 32);
    }
    eq("sample", u(F, b, 4), 0x3f800000);
}
// samples of whole-word formats, divided by two to the power of the channel set's multiplier
static int const exact[] = { 8036, 8038, 8058, 8080, 9036, 9038, 9058, 9080 };
extern "C" void sc_C23_words()
{
    static int const e2[] = { 0, 1, -1, 3, -5, 4, 16, -10 };
    int code = exact[sv_param("format", 0, 8)], n = bits(code) / 8;
    bool whole = code % 100 < 40;
    int k = e2[whole ? sv_param("descale", 0, 8) : 0];
    int ns = sv_param("samples", 0, 2) ? 19 : 3;
    std::vector<double> s;
    std::vector<uint64_t> raw;
    for (int i = 0; i < ns; ++i) {
        uint64_t w = sv_u64(lbl("sample", i).c_str());
        if (n < 8) w &= (uint64_t { 1 } << 8 * n) - 1;
        raw.push_back(w);
        double d = whole ? static_cast<double>(static_cast<int32_t>(sv::sx(w, n))) : n == 4 ? sv::f32(w) : sv::f64(w);
        for (int j = 0; j < k; ++j) d *= 2;
        for (int j = 0; j > k; --j) d /= 2;
        s.push_back(d);
    }
    one(H {}, s, {}, code, k);
    uint64_t b = 96 + 20;
    eq("file size", sv_filesize(F), b + ns * n);
    for (int i = 0; i < ns; ++i)
        eq(lbl("sample", i), sv::word(F, b + i * n, n, code > 9000), raw[i]);
}
static double scale(double m, int p)
{
    for (; p > 0; --p) m *= 2;
    for (; p < 0; ++p) m /= 2;
    return m;
}
// formats with exponents: a representable value is written as the word that represents it
extern "C" void sc_C23_exponents()
{
    static int const fm[] = { 8022, 8024, 8042, 8044, 8048 };
    int code = fm[sv_param("format", 0, 5)], n = bits(code) / 8;
    std::vector<double> s;
    std::vector<uint64_t> raw;
    int part = code == 8048 ? sv_param("part", 0, 4) : 0;
    for (int i = 0; i < 256; ++i) {
        if (code == 8048 && (i / 64 != part))
            continue;
        int e, fb, b; // exponent, bits of fraction, base of exponent
        switch (code) {
        case 8022: e = i >> 4 & 7; fb = 4; b = 1; break;
        case 8024: e = i >> 4 & 7; fb = 12; b = 1; break;
        case 8042: e = i >> 5 & 3; fb = 5; b = 4; break;
        case 8044: e = i >> 5 & 3; fb = 13; b = 4; break;
        default: e = i & 0x7f; fb = 24; b = 4;
        }
        uint64_t known = code == 8048 ? 0 : i & ((1 << (8 - (n * 8 - fb))) - 1); // fraction bits in the leading byte
        int kb = code == 8048 ? 0 : 8 - (n * 8 - fb);
        uint64_t f = known << (fb - kb);
        uint64_t low = sv_u32(lbl("fraction", i).c_str()) & ((uint64_t { 1 } << (fb - kb)) - 1);
        if (code == 8048) low = (low & 0xffffffu >> i % 4) | 0x800000u >> i % 4; // normalised: the first hexadecimal digit is not zero
        else if (e == 0) { if (n > 1) low |= 1; } // not zero, whose sign is not kept
        // normalised: the leading digit of the fraction is not zero
        if (code != 8048 && e != 0 && !(b == 1 ? known >> (kb - 1) : known >> (kb - 4)))
            continue;
        if (n == 1 && !(f | low)) continue;
        f |= low;
        double d = code == 8048 ? scale(static_cast<double>(f), 4 * (e - 64) - fb) : scale(static_cast<double>(f), b * e - fb);
        if (i >> 7) d = -d;
        s.push_back(d);
        raw.push_back(static_cast<uint64_t>(i >> 7) << (n * 8 - 1) | static_cast<uint64_t>(e) << fb | f);
    }
    one(H {}, s, {}, code);
    uint64_t b = 96 + 20;
    eq("file size", sv_filesize(F), b + s.size() * n);
    for (size_t i = 0; i < s.size(); ++i)
        eq(lbl("sample", i), u(F, b + i * n, n), raw[i]);
}
extern "C" void sc_C23_group20()
{
    int ns = sv_param("samples", 0, 10), e0 = sv_param("exponents", 0, 16);
    std::vector<double> s;
    std::vector<int> ex;
    std::vector<uint16_t> fr;
    for (int i = 0; i < ns; ++i) {
        int e = (e0 + 5 * i) % 16;
        uint16_t w = sv_u16(lbl("fraction", i).c_str());
        if ((i + e0) & 1) w = (w & 0xbfff) | 0x8001; // negative, normalised
        else w = (w & 0x7fff) | 0x4000;
        ex.push_back(e);
        fr.push_back(w);
        s.push_back(scale(static_cast<double>(static_cast<int16_t>(w)), e - 15));
    }
    one(H {}, s, {}, 8015);
    uint64_t b = 96 + 20;
    eq("file size", sv_filesize(F), b + (ns + 3) / 4 * 10);
    for (int i = 0; i < (ns + 3) / 4 * 4; ++i) {
        uint64_t g = b + i / 4 * 10;
        int q = i % 4, x = sv_filebyte(F, g + q / 2);
        eq(lbl("exponent", i), q & 1 ? x & 15 : x >> 4, i < ns ? ex[i] : 0);
        eq(lbl("fraction", i), u(F, g + 2 + 2 * q, 2), i < ns ? fr[i] : 0);
    }
}
// zeros of all formats
extern "C" void sc_C23_zero()
{
    static int const fm[] = { 8015, 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080, 9036, 9038, 9058, 9080 };
    int code = fm[sv_param("format", 0, 14)];
    one(H {}, { 0.0, 0.0, 0.0, 0.0 }, {}, code);
    eq("file size", sv_filesize(F), 116 + 4 * bits(code) / 8);
    zeros(F, 116, sv_filesize(F));
}
// formats the writer does not know are refused
extern "C" void sc_C23_refuse()
{
    static int const bad[] = { 0, 15, 36, 58, 200, 8014, 8016, 8023, 8037, 8039, 8043, 8057, 8059, 8081, 9015, 9022, 9048, 9035, 9999 };
    try {
        OSEGDRev2_1 out(F, gh1(bad[sv_param("code", 0, 19)]), gh22(), { { chset(1, 1, 1) } });
        sv_fail("an unsupported sample format was accepted");
    } catch (Exception&) {
        sv_ok("unsupported format refused");
    }
}
// each trace is divided by the factor of its own channel set, however many there are
extern "C" void sc_C23_set()
{
    static int const at[] = { 1, 128, 256, 257 };
    constexpr int n = 257;
    C::GeneralHeader g = gh1(8038);
    C::GeneralHeader2 g2 = gh22();
    g.channel_sets_per_scan_type = 165;
    g2.ext_ch_sets_per_scan_type = n;
    std::vector<std::vector<C::ChannelSetHeader>> sets(1);
    for (int j = 1; j <= n; ++j)
        sets[0].push_back(chset(1, j, 1, j == 1 ? 1 : j == 128 ? 2 : j == 256 ? 3 : j == 257 ? 4 : 0));
    int32_t v = static_cast<int32_t>(sv_u32("v"));
    {
        OSEGDRev2_1 out("out.segd", g, g2, sets);
        for (int k = 0; k < 4; ++k) {
            Trace t(std::unordered_map<std::string, Val> { { "CH_SET_NUM", int64_t { at[k] } } }, { static_cast<double>(v) * (2 << k) });
            out.write_trace(t);
        }
    }
    uint64_t b = 64 + 32 * n;
    eq("file size", sv_filesize("out.segd"), b + 4 * 24);
    for (int k = 0; k < 4; ++k, b += 24) {
        eq("channel set", u("out.segd", b + 3, 1), at[k] > 99 ? 255 : tobcd2(at[k]));
        eq("extended channel set", u("out.segd", b + 15, 2), at[k] > 99 ? at[k] : 0);
        eq("sample", static_cast<int32_t>(s("out.segd", b + 20, 4)), v);
    }
}
// many samples and many extensions
static void many(int code, int ns, int ext)
{
    int w = bits(code) / 8;
    {
        OSEGDRev2_1 out("out.segd", gh1(code), gh22(), { { chset(1, 1, 1) } });
        std::vector<double> s(ns);
        if (code == 8058) {
            s[ns - 1] = sv::f32(sv_u32("last"));
            s[0] = sv::f32(sv_u32("first"));
        } else if (code == 8080) {
            s[ns - 1] = sv::f64(sv_u64("last"));
            s[0] = sv::f64(sv_u64("first"));
        } else if (w > 2) {
            s[ns - 1] = static_cast<int16_t>(sv_u16("last"));
            s[0] = static_cast<int16_t>(sv_u16("first"));
        }
        Trace t(std::unordered_map<std::string, Val> { { "TR_HDR_EXT", int64_t { ext } }, { "SAMP_NUM", int64_t { ns } } }, s);
        out.write_trace(t);
    }
    uint64_t b = 96;
    eq("file size", sv_filesize("out.segd"), b + 20 + 32 * ext + static_cast<uint64_t>(w) * ns);
    eq("number of extensions", u("out.segd", b + 9, 1), ext);
    eq("number of samples", u("out.segd", b + 20 + 7, 3), ns);
    uint64_t at[] = { b + 20 + 32 * ext, sv_filesize("out.segd") - w };
    for (int i = 0; i < 2; ++i) {
        char const* v = i ? "last" : "first";
        if (code == 8058)
            eq(v, u("out.segd", at[i], 4), sv_u32(v));
        else if (code == 8080)
            eq(v, u("out.segd", at[i], 8), sv_u64(v));
        else if (w > 2)
            eq(v, static_cast<int32_t>(sv::sword("out.segd", at[i], w, code > 9000)), static_cast<int16_t>(sv_u16(v)));
        else
            eq(v, u("out.segd", at[i], w), 0);
    }
}
extern "C" void sc_C23_many()
{
    static int const n[] = { 300, 32768, 65537 };
    static int const fm[] = { 8058, 8038, 8036, 9036, 8080, 8022, 8044 };
    int code = fm[sv_param("format", 0, 7)];
    int ns = code == 8058 ? n[sv_param("n", 0, 3)] : 1000, ext = sv_param("extensions", 0, 2) ? 255 : 1;
    many(code, ns, ext);
}
// counts and numbers around constants that are new in the source
extern "C" void sc_C23_near()
{
    static int const fm[] = { 8058, 8038, 9036, 8080, 8022, 8044 };
    int code = fm[sv_param("format", 0, 6)], what = sv_param("what", 0, 3);
    int n = sv::near(3, what == 2 ? 255 : 100000, what == 1 ? bits(code) / 8 : 1);
    many(code, what < 2 ? n : 3, what == 2 ? n : 1);
}
extern "C" void sc_C23_numbers()
{
    static int const hi[] = { 0xffffff, 9999, 300, 99, 300 };
    int what = sv_param("what", 0, 5), n = sv::near(1, hi[what]);
    int ncs = what == 2 ? n : 1, nst = what == 3 ? n : 1, ch = what == 4 ? n : 1;
    C::GeneralHeader g = gh1();
    C::GeneralHeader2 g2 = gh22();
    g.scan_types_per_record = nst;
    g.channel_sets_per_scan_type = ncs > 99 ? 165 : ncs;
    g2.ext_ch_sets_per_scan_type = ncs;
    std::vector<std::vector<C::ChannelSetHeader>> s(nst);
    for (int i = 0; i < nst; ++i)
        for (int j = 0; j < ncs; ++j)
            s[i].push_back(chset(i + 1, j + 1, ch));
    int ffid = what == 0 ? n : 7, chan = what == 1 ? n : 7;
    {
        OSEGDRev2_1 out(F, g, g2, s);
        for (int k = 0; k < ch; ++k) {
            Trace t(H { { "FFID", int64_t { ffid } }, { "SCAN_TYPE_NUM", int64_t { nst } }, { "CH_SET_NUM", int64_t { ncs } }, { "CHAN", int64_t { chan } } }, { sv::f32(sv_u32("v")) });
            out.write_trace(t);
        }
    }
    uint64_t b = 64 + 32 * nst * ncs;
    eq("file size", sv_filesize(F), b + 24 * ch);
    b += 24 * (ch - 1);
    if (ffid > 9999) eq("file number mark", u(F, b, 2), 0xffff);
    else eqbcd("file number", F, b, 0, 4, ffid);
    eqbcd("scan type", F, b + 2, 0, 2, nst);
    if (ncs > 99) eq("channel set mark", sv_filebyte(F, b + 3), 0xff);
    else eqbcd("channel set", F, b + 3, 0, 2, ncs);
    eqbcd("trace number", F, b + 4, 0, 4, chan);
    eq("extended channel set", u(F, b + 15, 2), ncs > 99 ? ncs : 0);
    if (ffid > 9999) eq("extended file number", u(F, b + 17, 3), ffid);
    eq("sample", u(F, b + 20, 4), sv_u32("v"));
}
