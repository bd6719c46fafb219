#include "segy.hpp"
// samples representable in the data format are written exactly, and read back as they were
static int const codes[] = { 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
static double input(int code, int i)
{
    std::string n = lbl("s", i);
    char const* k = n.c_str();
    switch (code) {
    case 2: return static_cast<int32_t>(sv_u32(k));
    case 3: return static_cast<int16_t>(sv_u16(k));
    case 5: return sv::f32(sv_u32(k));
    case 6: return sv_f64(k);
    case 7: return static_cast<int32_t>(sv::sx(sv_u32(k) & 0xffffff, 3));
    case 8: return static_cast<int8_t>(sv_u8(k));
    case 9: return static_cast<double>(sv::sx(sv_u64(k) & 0xfffffffffffffull, 7) );
    case 10: return sv_u32(k);
    case 11: return sv_u16(k);
    case 12: return static_cast<double>(sv_u64(k) & 0x1fffffffffffffull);
    case 15: return static_cast<uint32_t>(sv_u32(k) & 0xffffff);
    default: return sv_u8(k);
    }
}
static uint64_t raw(int code, int i)
{
    std::string n = lbl("s", i);
    char const* k = n.c_str();
    switch (code) {
    case 2: case 5: case 10: return sv_u32(k);
    case 3: case 11: return sv_u16(k);
    case 6: { double d = sv_f64(k); uint64_t r; memcpy(&r, &d, 8); return r; }
    case 7: case 15: return sv_u32(k) & 0xffffff;
    case 9: return sv::sx(sv_u64(k) & 0xfffffffffffffull, 7);
    case 12: return sv_u64(k) & 0x1fffffffffffffull;
    default: return sv_u8(k);
    }
}
// the widest integers that a double holds
extern "C" void sc_C06_wide()
{
    bool sign = sv_param("signed", 0, 2);
    Shape s;
    s.format = sign ? 9 : 12;
    s.order = sv_param("order", 0, 3);
    BH h;
    memset(&h, 0, sizeof h);
    h.samp_per_tr = 2;
    h.format_code = s.format;
    h.fixed_tr_length = 1;
    h.endianness = s.order == 0 ? 0 : s.order == 1 ? BIG : LITTLE;
    uint64_t w[2] = { sv_u64("w0") & ~0x7ffull, sv_u64("w1") & ~0xfffull };
    double v[2];
    for (int i = 0; i < 2; ++i)
        v[i] = sign ? static_cast<double>(static_cast<int64_t>(w[i])) : static_cast<double>(w[i]);
    Trace a({ { "SAMP_NUM", int64_t { 2 } } }, { v[0], v[1] });
    {
        OSEGYRev2 out("out.sgy", { std::string(3200, ' ') }, h);
        out.write_trace(a);
    }
    for (int i = 0; i < 2; ++i)
        eq(lbl("sample bytes", i), sv::word("out.sgy", 3840 + 8 * i, 8, s.little()), w[i]);
    ISEGY in("out.sgy");
    Trace t = in.read_trace();
    for (int i = 0; i < 2; ++i)
        eqd(lbl("sample", i), t.samples()[i], v[i]);
}
extern "C" void sc_C06_formats()
{
    Shape s;
    s.format = codes[sv_param("format", 0, 12)];
    s.order = sv_param("order", 0, 3);
    int rev = sv_param("rev", 0, 3);
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = 1;
    h.samp_per_tr = 3;
    h.format_code = s.format;
    h.fixed_tr_length = 1;
    h.endianness = s.order == 0 ? 0 : s.order == 1 ? BIG : LITTLE;
    int n = s.bps();
    Trace a({ { "SAMP_NUM", int64_t { 3 } } }, { input(s.format, 0), input(s.format, 1), input(s.format, 2) });
    Trace b({ { "SAMP_NUM", int64_t { 3 } } }, { input(s.format, 3), input(s.format, 4), input(s.format, 5) });
    if (rev == 0) {
        OSEGYRev0 out("out.sgy", std::string(3200, ' '), h);
        out.write_trace(a);
        out.write_trace(b);
    } else if (rev == 1) {
        OSEGYRev1 out("out.sgy", { std::string(3200, ' ') }, h);
        out.write_trace(a);
        out.write_trace(b);
    } else {
        OSEGYRev2 out("out.sgy", { std::string(3200, ' ') }, h);
        out.write_trace(a);
        out.write_trace(b);
    }
    eq("size", sv_filesize("out.sgy"), 3600 + 2 * (240 + 3 * n));
    for (int i = 0; i < 6; ++i)
        eq(lbl("sample bytes", i), sv::word("out.sgy", 3600 + 240 + (i / 3) * (240 + 3 * n) + (i % 3) * n, n, s.little()), raw(s.format, i));
    ISEGY in("out.sgy");
    for (int k = 0; k < 2; ++k) {
        Trace t = in.read_trace();
        eq("number of samples", t.samples().size(), 3);
        for (int i = 0; i < 3; ++i)
            eqd(lbl("sample", 3 * k + i), t.samples()[i], input(s.format, 3 * k + i));
    }
    eq("all consumed", in.has_trace(), 0);
}
extern "C" void sc_C06_ibm()
{
    int order = sv_param("order", 0, 3);
    int lead = sv_param("lead", 0, 4);
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = 1;
    h.samp_per_tr = 256 + 24;
    h.format_code = 1;
    h.endianness = order == 0 ? 0 : order == 1 ? BIG : LITTLE;
    std::vector<uint32_t> w;
    std::vector<double> v;
    for (int i = 0; i < 256; ++i) {
        uint32_t top = 1u << (20 + lead);
        w.push_back(static_cast<uint32_t>(i) << 24 | top | (sv_u32(lbl("f", i).c_str()) & (top - 1)));
    }
    // zero, and values too small to be normalised
    w.push_back(0);
    for (int i = 1; i < 20; ++i)
        w.push_back(1u << i | (sv_u32(lbl("f", i).c_str()) & ((1u << i) - 1)));
    while (w.size() < 280)
        w.push_back(0);
    for (auto x : w)
        v.push_back(ibm_value(x));
    {
        OSEGYRev0 out("out.sgy", std::string(3200, ' '), h);
        Trace t({}, v);
        out.write_trace(t);
    }
    for (int i = 0; i < 280; ++i)
        eq(lbl("ibm word", i), sv::word("out.sgy", 3840 + 4 * i, 4, order == 2), w[i]);
}
// unsupported codes and byte orders are refused
extern "C" void sc_C06_refused()
{
    static int const bad[] = { 4, 13, 14, 17, 255, 256, 0x105, 0x500, -1 };
    int c = sv_param("code", 0, 12);
    int rev = sv_param("rev", 0, 3);
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = 1;
    h.samp_per_tr = 3;
    h.format_code = c < 9 ? bad[c] : 5;
    h.endianness = c < 9 ? 0 : c == 9 ? 1 : c == 10 ? 0x02010403 : -1;
    try {
        if (rev == 0)
            OSEGYRev0 out("out.sgy", std::string(3200, ' '), h);
        else if (rev == 1)
            OSEGYRev1 out("out.sgy", { std::string(3200, ' ') }, h);
        else
            OSEGYRev2 out("out.sgy", { std::string(3200, ' ') }, h);
        sv_fail("a writer was opened for an unsupported format or byte order");
    } catch (Exception&) {
        sv_ok("refused");
    }
}
