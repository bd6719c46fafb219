#include "segd.hpp"
static char const* const f = "in.segd";
static void keys(Trace& t, std::vector<char const*> names)
{
    std::vector<std::string> k = t.header().keys();
    eq("number of header values", k.size(), names.size());
    for (auto n : names)
        eq(std::string(n) + " is reported", t.header().get(n).has_value(), 1);
}
static void main20(Trace& t, uint64_t b, bool chan = true)
{
    auto& h = t.header();
    uint64_t ef = u(f, b + 17, 3), ec = u(f, b + 15, 2);
    eq("FFID", ival(h.get("FFID"), "FFID"), ef ? ef : sv::bcd(f, b, 0, 4));
    eq("SCAN_TYPE_NUM", ival(h.get("SCAN_TYPE_NUM"), "SCAN_TYPE_NUM"), sv::bcd(f, b + 2, 0, 2));
    eq("CH_SET_NUM", ival(h.get("CH_SET_NUM"), "CH_SET_NUM"), ec ? ec : sv::bcd(f, b + 3, 0, 2));
    if (chan)
        eq("CHAN", ival(h.get("CHAN"), "CHAN"), sv::bcd(f, b + 4, 0, 4));
    eqd("FIRST_TIMING_WORD", dval(h.get("FIRST_TIMING_WORD"), "FIRST_TIMING_WORD"), u(f, b + 6, 3) / 256.0);
    eq("TR_HDR_EXT", ival(h.get("TR_HDR_EXT"), "TR_HDR_EXT"), u(f, b + 9, 1));
    eqd("SAMPLE_SKEW", dval(h.get("SAMPLE_SKEW"), "SAMPLE_SKEW"), u(f, b + 10, 1) / 256.0);
    eq("TRACE_EDIT", ival(h.get("TRACE_EDIT"), "TRACE_EDIT"), u(f, b + 11, 1));
    eqd("TIME_BREAK_WIN", dval(h.get("TIME_BREAK_WIN"), "TIME_BREAK_WIN"), u(f, b + 12, 3) / 256.0);
}
// the 20-byte header alone
extern "C" void sc_C19_main()
{
    Rec r;
    r.rev = sv_param("rev", 0, 4);
    r.add = r.rev > 2 ? 2 : r.rev ? 1 : 0;
    r.trext = 0;
    r.ncs = 3;
    r.nst = 2;
    r.subscans = 1;
    r.ns = 2;
    int ext = sv_param("ext set", 0, 3);
    sv_file(r.f, r.end());
    r.pins();
    if (r.rev > 2)
        for (int i = 0; i < r.ntr(); ++i)
            sv_pin(f, r.tr(i) + 4, 0x12); // not the mark of an extended trace number
    if (ext == 1) // channel set number recorded in the extended field instead
        for (int i = 0; i < r.ntr(); ++i) {
            sv_pin(f, r.tr(i) + 3, 0xff);
            sv::pin16(f, r.tr(i) + 15, i % 3 + 1);
        }
    if (ext == 2) // both, disagreeing: the extended number counts
        for (int i = 0; i < r.ntr(); ++i) {
            sv_pin(f, r.tr(i) + 3, 0x09);
            sv::pin16(f, r.tr(i) + 15, 3 - i % 3);
        }
    ISEGD in(r.f);
    for (int i = 0; i < r.ntr(); ++i) {
        Trace t = in.read_trace();
        main20(t, r.tr(i));
        keys(t, { "FFID", "SCAN_TYPE_NUM", "CH_SET_NUM", "CHAN", "FIRST_TIMING_WORD", "TR_HDR_EXT", "SAMPLE_SKEW", "TRACE_EDIT", "TIME_BREAK_WIN" });
        eq("samples", t.samples().size(), 2);
    }
    eq("no more traces", in.has_trace(), 0);
}
// the standard first extension; further ones are passed over
extern "C" void sc_C19_std()
{
    Rec r;
    static int const revs[] = { 1, 2, 3 };
    r.rev = revs[sv_param("rev", 0, 3)];
    r.add = r.rev > 2 ? 2 : 1;
    r.trext = sv_param("extensions", 1, 4);
    int rl = r.rev > 1 ? sv_param("ext line", 0, 4) : 0, rp = r.rev > 1 ? sv_param("ext point", 0, 4) : 0;
    int big = r.rev > 2 ? sv_param("ext chan", 0, 2) : 0;
    sv_file(r.f, r.end());
    r.pins();
    uint64_t b = r.tr(0), e = r.te(0, 0);
    // extended line and point numbers: absent, fraction only, whole part only, both
    if (r.rev > 1)
        for (int k = 0; k < 2; ++k) {
            int m = k ? rp : rl;
            uint64_t o = e + 10 + 5 * k;
            if (!(m & 2)) for (int i = 0; i < 3; ++i) sv_pin(f, o + i, 0);
            else sv_pin(f, o + 1 + k, 0x41);
            if (!(m & 1)) for (int i = 3; i < 5; ++i) sv_pin(f, o + i, 0);
            else sv_pin(f, o + 4 - k, 0x81);
        }
    if (r.rev > 2) {
        if (big) { sv_pin(f, b + 4, 0xff); sv_pin(f, b + 5, 0xff); }
        else sv_pin(f, b + 4, 0x12);
    }
    ISEGD in(r.f);
    Trace t = in.read_trace();
    auto& h = t.header();
    main20(t, b, !big);
    if (big)
        eq("CHAN", ival(h.get("CHAN"), "CHAN"), u(f, e + 21, 3));
    if (rl) eqd("R_LINE", dval(h.get("R_LINE"), "R_LINE"), u(f, e + 10, 3) + u(f, e + 13, 2) / 65536.0);
    else eq("R_LINE", ival(h.get("R_LINE"), "R_LINE"), u(f, e, 3));
    if (rp) eqd("R_POINT", dval(h.get("R_POINT"), "R_POINT"), u(f, e + 15, 3) + u(f, e + 18, 2) / 65536.0);
    else eq("R_POINT", ival(h.get("R_POINT"), "R_POINT"), u(f, e + 3, 3));
    eq("R_POINT_IDX", ival(h.get("R_POINT_IDX"), "R_POINT_IDX"), u(f, e + 6, 1));
    std::vector<char const*> names { "FFID", "SCAN_TYPE_NUM", "CH_SET_NUM", "CHAN", "FIRST_TIMING_WORD", "TR_HDR_EXT", "SAMPLE_SKEW", "TRACE_EDIT",
        "TIME_BREAK_WIN", "R_LINE", "R_POINT", "R_POINT_IDX", "SAMP_NUM" };
    if (r.rev < 3)
        eq("SAMP_NUM", ival(h.get("SAMP_NUM"), "SAMP_NUM"), u(f, e + 7, 3));
    if (r.rev > 1) {
        eq("SENSOR_TYPE", ival(h.get("SENSOR_TYPE"), "SENSOR_TYPE"), u(f, e + 20, 1));
        names.push_back("SENSOR_TYPE");
    }
    if (r.rev > 2) {
        eq("RESHOOT_IDX", ival(h.get("RESHOOT_IDX"), "RESHOOT_IDX"), u(f, e + 7, 1));
        eq("GROUP_IDX", ival(h.get("GROUP_IDX"), "GROUP_IDX"), u(f, e + 8, 1));
        eq("DEPTH_IDX", ival(h.get("DEPTH_IDX"), "DEPTH_IDX"), u(f, e + 9, 1));
        eq("SAMP_NUM", ival(h.get("SAMP_NUM"), "SAMP_NUM"), u(f, e + 24, 4));
        eq("SENSOR_MOVING", ival(h.get("SENSOR_MOVING"), "SENSOR_MOVING"), u(f, e + 28, 1));
        eq("PHYSICAL_UNIT", ival(h.get("PHYSICAL_UNIT"), "PHYSICAL_UNIT"), u(f, e + 30, 1));
        for (auto n : { "RESHOOT_IDX", "GROUP_IDX", "DEPTH_IDX", "SENSOR_MOVING", "PHYSICAL_UNIT" })
            names.push_back(n);
    }
    keys(t, names);
    eq("samples", t.samples().size(), r.ns);
    for (int i = 0; i < r.ns; ++i)
        eqd(lbl("sample", i), t.samples()[i], sv::f32(u(f, r.smp(0) + 4 * i, 4)));
}
// maps given by the caller
static VT const types[] = { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t,
    VT::int64_t, VT::uint64_t, VT::ibm, VT::ieee_single, VT::ieee_double };
static int const sizes[] = { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 4, 8 };
static double ibm(uint32_t w, int lead)
{
    double m = w & 0xffffff;
    int e = (lead & 0x7f) - 64;
    for (; e > 0; --e) m *= 16;
    for (; e < 0; ++e) m /= 16;
    m /= 16777216.0;
    return lead >> 7 ? -m : m;
}
static int const leads[] = { 0x41, 0xc0, 0x00, 0x7f, 0xbe, 0x46, 0xff, 0x80 };
static void value(Trace& t, std::string const& n, int k, uint64_t o, int lead)
{
    auto v = t.header().get(n);
    switch (k) {
    case 10: eqd(n, dval(v, n), ibm(u(f, o, 4), lead)); break;
    case 11: eqd(n, dval(v, n), sv::f32(u(f, o, 4))); break;
    case 12: eqd(n, dval(v, n), sv::f64(u(f, o, 8))); break;
    default: eq(n, ival(v, n), k & 1 ? u(f, o, sizes[k]) : s(f, o, sizes[k]));
    }
}
extern "C" void sc_C19_maps()
{
    Rec r;
    static int const revs[] = { 1, 2, 3 };
    r.rev = revs[sv_param("rev", 0, 3)];
    r.add = r.rev > 2 ? 2 : 1;
    int k = sv_param("type", 0, 13);
    int nmaps = sv_param("maps", 1, 4);
    r.trext = sv_param("extensions", 1, 4);
    r.ns = 3;
    int lead = leads[k == 10 ? sv_param("lead", 0, 8) : 0];
    sv_file(r.f, r.end());
    r.pins();
    uint64_t b = r.tr(0);
    EMaps maps;
    int sz = sizes[k];
    uint32_t offs[] = { 0, 9, static_cast<uint32_t>(32 - sz) };
    for (int m = 0; m < nmaps; ++m) {
        EMap e;
        for (int i = m == 0 ? 1 : 0; i < 3; ++i)
            e[offs[i]] = { "V" + std::to_string(m) + std::to_string(i), types[k] };
        if (m == 0)
            e[4] = { "SAMP_NUM", VT::uint16_t };
        maps.push_back(e);
    }
    sv::pin16(f, r.te(0, 0) + 4, r.ns);
    if (k == 10)
        for (int m = 0; m < nmaps && m < r.trext; ++m)
            for (int i = 0; i < 3; ++i)
                sv_pin(f, r.te(0, m) + offs[i], lead);
    ISEGD in(r.f, maps);
    Trace t = in.read_trace();
    main20(t, b);
    int seen = std::min(nmaps, r.trext);
    eq("number of header values", t.header().keys().size(), 9 + seen * 3);
    for (int m = 0; m < seen; ++m)
        for (int i = m == 0 ? 1 : 0; i < 3; ++i)
            value(t, "V" + std::to_string(m) + std::to_string(i), k, r.te(0, m) + offs[i], lead);
    eq("samples", t.samples().size(), r.ns);
    for (int i = 0; i < r.ns; ++i)
        eqd(lbl("sample", i), t.samples()[i], sv::f32(u(f, r.smp(0) + 4 * i, 4)));
}
// a map that reaches past the 32 bytes of an extension is refused before anything is read
extern "C" void sc_C19_badmap()
{
    int k = sv_param("type", 0, 13), where = sv_param("where", 0, 3);
    Rec r;
    sv_file(r.f, r.end());
    r.pins();
    uint32_t off = where == 0 ? 33 - sizes[k] : where == 1 ? 32 : 0xffffffffu;
    EMaps maps { EMap { { off, { "X", types[k] } } } };
    if (where == 2)
        maps.insert(maps.begin(), EMap { { 0, { "A", VT::uint8_t } } });
    try {
        ISEGD in(r.f, maps);
        sv_fail("a map beyond the end of the extension was accepted");
    } catch (Exception&) {
        sv_ok("refused");
    }
}
// as many extensions as the header can announce
extern "C" void sc_C19_many()
{
    static int const n[] = { 5, 127, 128, 200, 255 };
    Rec r;
    r.rev = sv_param("rev", 1, 4);
    r.add = r.rev > 2 ? 2 : 1;
    r.trext = n[sv_param("extensions", 0, 5)];
    int maps = sv_param("maps", 0, 3);
    r.chans = 2;
    sv_file(f, r.end());
    r.pins();
    for (int i = 0; i < 2; ++i)
        sv_pin(f, r.tr(i) + 4, 0x12);
    EMaps m;
    int nm = maps == 2 ? r.trext : maps;
    for (int i = 0; i < nm; ++i)
        m.push_back({ { 4, { lbl("V", i), VT::int32_t } } });
    if (nm)
        m[0][r.rev > 2 ? 24 : 7] = { "SAMP_NUM", r.rev > 2 ? VT::uint32_t : VT::uint24_t };
    if (nm && r.rev < 3) m[0].erase(4);
    ISEGD in(f, m);
    for (int k = 0; k < 2; ++k) {
        Trace t = in.read_trace();
        main20(t, r.tr(k));
        eq("samples", t.samples().size(), r.ns);
        for (int i = 0; i < r.ns; ++i)
            eqd(lbl("sample", i), t.samples()[i], sv::f32(u(f, r.smp(k) + 4 * i, 4)));
        for (int i = 1; i < nm; i += nm > 20 && i < nm - 4 ? 13 : 1)
            eq("value of an extension", ival(t.header().get(lbl("V", i)), "value"), s(f, r.te(k, i) + 4, 4));
    }
    eq("end", in.has_record(), 0);
}
