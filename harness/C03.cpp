#include "segy.hpp"
// a mapped trace header value is the recorded value of its type at its offset, whatever the file contains
static void expect(Trace::Header& h, std::string const& key, VT t, uint64_t at, bool little)
{
    int n = vt_size(t);
    uint64_t w = sv::word("in.sgy", at, n, little);
    switch (t) {
    case VT::ibm: eqd(key, dval(h.get(key), key), ibm_value(w)); break;
    case VT::ieee_single: eqd(key, dval(h.get(key), key), sv::f32(w)); break;
    case VT::ieee_double: eqd(key, dval(h.get(key), key), sv::f64(w)); break;
    default: eq(key, ival(h.get(key), key), vt_signed(t) ? sv::sx(w, n) : static_cast<int64_t>(w));
    }
}
extern "C" void sc_C03_types()
{
    VT t = static_cast<VT>(sv_param("type", 0, 13));
    if (t == VT::ibm)
        return;
    Shape s;
    s.order = sv_param("order", 0, 3);
    int p = sv_param("place", 0, 4);
    uint32_t off = p == 0 ? 0 : p == 1 ? 101 : p == 2 ? 114 : 240 - vt_size(t);
    declare("in.sgy", s, 3600 + 2 * 248);
    HMap m { { "SEG00000", { { off, { "VALUE", t } } } } };
    ISEGY in("in.sgy", m);
    auto h = in.read_header();
    expect(h, "VALUE", t, 3600 + off, s.little());
    eq("number of keys", h.keys().size(), 1);
    auto tr = in.read_trace();
    expect(tr.header(), "VALUE", t, 3600 + 248 + off, s.little());
    eq("number of keys", tr.header().keys().size(), 1);
}
// every type next to every other in one header and in one additional header
extern "C" void sc_C03_mixed()
{
    Shape s;
    s.order = sv_param("order", 0, 3);
    s.rev = 2;
    s.add = 2;
    declare("in.sgy", s, 3600 + 3 * 240 + 8);
    Map1 a, b, c;
    uint32_t off = 3;
    for (int i = 0; i < 13; ++i) {
        VT t = static_cast<VT>(i);
        if (t == VT::ibm)
            continue;
        a[off] = { lbl("A", i), t };
        b[off + 100] = { lbl("B", i), t };
        c[off + 7] = { lbl("C", 12 - i), t };
        off += vt_size(t);
    }
    HMap m { { "SEG00000", a }, { "SEG00001", b }, { "MINE0001", c } };
    ISEGY in("in.sgy", m);
    auto h = in.read_header();
    int k = 0;
    for (auto& m1 : m) {
        for (auto& e : m1.second)
            expect(h, e.second.first, e.second.second, 3600 + 240 * k + e.first, s.little());
        ++k;
    }
}
// the standard map, and its first extension when the file has additional headers
extern "C" void sc_C03_standard()
{
    Shape s;
    s.order = sv_param("order", 0, 3);
    s.rev = sv_param("rev", 0, 3);
    s.add = s.rev > 1 ? 1 : 0;
    declare("in.sgy", s, 3600 + 2 * 240 + 8);
    ISEGY in("in.sgy");
    auto tr = in.read_trace();
    std::map<std::string, std::pair<uint32_t, VT>> want;
    for (int i = 0; i <= s.add; ++i)
        for (auto& e : CommonSEGY::default_trace_header[i].second)
            want[e.second.first] = { 240 * i + e.first, e.second.second };
    for (auto& w : want)
        expect(tr.header(), w.first, w.second.second, 3600 + w.second.first, s.little());
    eq("number of keys", tr.header().keys().size(), want.size());
}
// one name mapped in the main and in an additional header: the extension prevails
extern "C" void sc_C03_override()
{
    Shape s;
    s.rev = 2;
    s.add = 1;
    declare("in.sgy", s, 3600 + 2 * 240 + 8);
    HMap m { { "SEG00000", { { 8, { "FFID", VT::int32_t } } } }, { "SEG00001", { { 16, { "FFID", VT::uint64_t } } } } };
    ISEGY in("in.sgy", m);
    auto h = in.read_header();
    eq("FFID", ival(h.get("FFID"), "FFID"), sv::be("in.sgy", 3600 + 240 + 16, 8));
}
// ibm values: every sign and exponent, unknown fraction
extern "C" void sc_C03_ibm()
{
    Shape s;
    s.order = sv_param("order", 0, 3);
    s.samp = 0;
    Map1 a;
    for (int i = 0; i < 60; ++i)
        a[4 * i] = { lbl("V", i), VT::ibm };
    declare("in.sgy", s, 3600 + 5 * 240);
    for (int i = 0; i < 256; ++i)
        sv_pin("in.sgy", 3600 + 4 * i + (s.little() ? 3 : 0), i);
    for (int i = 256; i < 300; ++i)
        sv_pin("in.sgy", 3600 + 4 * i + (s.little() ? 3 : 0), 65);
    ISEGY in("in.sgy", HMap { { "SEG00000", a } });
    for (int k = 0; k < 5; ++k) {
        auto h = in.read_header();
        for (int i = 0; i < 60; ++i)
            eqd(lbl("ibm header value with leading byte", 60 * k + i), dval(h.get(lbl("V", i)), "V"),
                ibm_value(sv::word("in.sgy", 3600 + 240 * k + 4 * i, 4, s.little())));
    }
}
// additional headers: every type at every place
extern "C" void sc_C03_additional()
{
    VT t = static_cast<VT>(sv_param("type", 0, 13));
    Shape s;
    s.order = sv_param("order", 0, 3);
    s.rev = 2;
    s.add = 2;
    int p = sv_param("place", 0, 3), which = sv_param("header", 1, 3);
    uint32_t off = p == 0 ? 0 : p == 1 ? 101 : 240 - vt_size(t);
    declare("in.sgy", s, 3600 + 2 * (720 + 8));
    if (t == VT::ibm)
        for (int k = 0; k < 2; ++k)
            sv_pin("in.sgy", 3600 + 728 * k + 240 * which + off + (s.little() ? 3 : 0), 0xc3);
    HMap m { { "SEG00000", { { 8, { "FFID", VT::int32_t } } } }, { "HEADER01", {} }, { "HEADER02", {} } };
    m[which].second[off] = { "VALUE", t };
    ISEGY in("in.sgy", m);
    auto h = in.read_header();
    expect(h, "VALUE", t, 3600 + 240 * which + off, s.little());
    eq("number of keys", h.keys().size(), 2);
    auto tr = in.read_trace();
    expect(tr.header(), "VALUE", t, 3600 + 728 + 240 * which + off, s.little());
    eq("number of keys", tr.header().keys().size(), 2);
}
