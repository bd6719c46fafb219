#include "segd.hpp"
static char const* const f = "in.segd";
static int const exact[] = { 8036, 8038, 8058, 8080, 9036, 9038, 9058, 9080 };
static double expect(int code, uint64_t o)
{
    switch (code) {
    case 8036: return static_cast<int32_t>(s(f, o, 3));
    case 8038: return static_cast<int32_t>(s(f, o, 4));
    case 8058: return sv::f32(u(f, o, 4));
    case 8080: return sv::f64(u(f, o, 8));
    case 9036: return static_cast<int32_t>(sv::sword(f, o, 3, true));
    case 9038: return static_cast<int32_t>(sv::sword(f, o, 4, true));
    case 9058: return sv::f32(sv::le(f, o, 4));
    default: return sv::f64(sv::le(f, o, 8));
    }
}
// whole-word formats: every sample bit pattern
extern "C" void sc_C20_words()
{
    Rec r;
    r.format = exact[sv_param("format", 0, 8)];
    r.rev = sv_param("rev", 1, 4);
    r.add = r.rev > 2 ? 2 : 1;
    r.ncs = 2;
    r.chans = 2;
    r.ns = sv_param("samples", 0, 2) ? 19 : 3;
    sv_file(f, r.end());
    r.pins();
    ISEGD in(f);
    for (int k = 0; k < r.ntr(); ++k) {
        Trace t = in.read_trace();
        eq("number of samples", t.samples().size(), r.ns);
        for (int i = 0; i < r.ns; ++i)
            eqd(lbl("sample", i), t.samples()[i], expect(r.format, r.smp(k) + i * bits(r.format) / 8));
    }
    eq("all consumed", in.has_trace(), 0);
}
static double scale(double m, int p) // m * 2^p
{
    for (; p > 0; --p) m *= 2;
    for (; p < 0; ++p) m /= 2;
    return m;
}
// formats with an exponent: every sign and exponent, unknown fraction
extern "C" void sc_C20_exponents()
{
    static int const fm[] = { 8042, 8044, 8048 };
    Rec r;
    r.format = fm[sv_param("format", 0, 3)];
    int n = bits(r.format) / 8;
    r.ns = 256;
    sv_file(f, r.end());
    r.pins();
    // leading byte: all 256 values; for the 8-bit format that is the whole sample
    for (int i = 0; i < 256; ++i)
        sv_pin(f, r.smp(0) + i * n, i);
    ISEGD in(f);
    Trace t = in.read_trace();
    eq("number of samples", t.samples().size(), 256);
    for (int i = 0; i < 256; ++i) {
        uint64_t w = u(f, r.smp(0) + i * n, n);
        double want;
        if (r.format == 8042) want = scale(i & 0x1f, 4 * (i >> 5 & 3) - 5);
        else if (r.format == 8044) want = scale(w & 0x1fff, 4 * (i >> 5 & 3) - 13);
        else want = scale(w & 0xffffff, 4 * ((i & 0x7f) - 64) - 24);
        if (i >> 7) want = -want;
        eqd(lbl("sample with leading byte", i), t.samples()[i], want);
    }
}
// samples are multiplied by two to the power of the channel set's descale multiplier
extern "C" void sc_C20_descale()
{
    static int const d2[] = { 0x0000, 0x0400, 0x8400, 0x0c00, 0x9400, 0x1000, 0x4000, 0xa800 };
    static int const e2[] = { 0, 1, -1, 3, -5, 4, 16, -10 };
    static int const d3[] = { 0x0000, 0x3f80, 0xbf80, 0x4040, 0xc0a0, 0x4080, 0x4180, 0xc120 };
    int k = sv_param("descale", 0, 8);
    Rec r;
    r.rev = sv_param("rev", 1, 4);
    r.add = r.rev > 2 ? 2 : 1;
    static int const fm[] = { 8036, 8038, 9036, 9038 };
    r.format = fm[sv_param("format", 0, 4)];
    r.ncs = 2;
    sv_file(f, r.end());
    r.pins();
    // the second channel set has its own multiplier
    for (int c = 0; c < 2; ++c) {
        int kk = (k + c) % 8;
        if (r.rev < 3) sv::pin16(f, r.cs(0, c) + 6, d2[kk]);
        else sv::pin32(f, r.cs(0, c) + 16, static_cast<uint32_t>(d3[kk]) << 16);
    }
    ISEGD in(f);
    for (int c = 0; c < 2; ++c) {
        Trace t = in.read_trace();
        for (int i = 0; i < r.ns; ++i)
            eqd(lbl("sample", i), t.samples()[i], scale(expect(r.format, r.smp(c) + i * bits(r.format) / 8), e2[(k + c) % 8]));
    }
}
// a fractional descale multiplier
extern "C" void sc_C20_fraction()
{
    Rec r;
    r.descale = -1;
    sv_file(f, r.end());
    r.pins();
    ISEGD in(f);
    Trace t = in.read_trace();
    uint64_t w = u(f, r.cs(0, 0) + 6, 2);
    double m = (w & 0x7fff) / 1024.0;
    if (w & 0x8000) m = -m;
    for (int i = 0; i < r.ns; ++i)
        eqd(lbl("sample", i), t.samples()[i], sv::f32(u(f, r.smp(0) + 4 * i, 4)) * std::pow(2, m));
}
// where the number of samples comes from
extern "C" void sc_C20_count()
{
    int how = sv_param("how", 0, 3);
    Rec r;
    r.format = 8038;
    if (how == 0) { r.rev = 0; r.add = 0; r.trext = 0; r.subscans = sv_param("n", 0, 6); r.ns = 1 << r.subscans; }
    else if (how == 1) { r.rev = 3; r.add = 2; r.trext = 0; r.ns = sv_param("n", 0, 6) * 3; }
    else { r.ns = sv_param("n", 0, 6) * 3; }
    r.chans = 2;
    sv_file(f, r.end());
    r.pins();
    if (r.rev > 2)
        for (int k = 0; k < 2; ++k)
            sv_pin(f, r.tr(k) + 4, 0x12);
    ISEGD in(f);
    for (int k = 0; k < 2; ++k) {
        Trace t = in.read_trace();
        eq("number of samples", t.samples().size(), r.ns);
        for (int i = 0; i < r.ns; ++i)
            eqd(lbl("sample", i), t.samples()[i], expect(8038, r.smp(k) + 4 * i));
    }
    eq("all consumed", in.has_trace(), 0);
}
// every other format code is refused
extern "C" void sc_C20_refuse()
{
    static int const bad[] = { 0, 15, 36, 58, 200, 8014, 8016, 8023, 8037, 8039, 8043, 8057, 8059, 8081, 9015, 9022, 9048, 9035, 9999, 3680, 5880, 7058 };
    Rec r;
    r.format = bad[sv_param("code", 0, 22)];
    sv_file(f, r.end());
    r.pins();
    try {
        ISEGD in(f);
        sv_fail("a file with an unsupported sample format was accepted");
    } catch (Exception&) {
        sv_ok("unsupported format refused");
    }
}
// packed formats: sample k of a trace depends on its own bits only, and traces do not run into each other
extern "C" void sc_C20_group20()
{
    Rec r;
    r.format = 8015;
    r.ns = sv_param("samples", 1, 10);
    r.chans = 2;
    sv_file(f, r.end());
    r.pins();
    for (int k = 0; k < 2; ++k)
        for (int g = 0; g < (r.ns + 3) / 4; ++g) {
            sv_pin(f, r.smp(k) + 10 * g, 0xf0 + k);
            sv_pin(f, r.smp(k) + 10 * g + 1, 0x3e - g);
        }
    ISEGD in(f);
    for (int k = 0; k < 2; ++k) {
        Trace t = in.read_trace();
        eq("number of samples", t.samples().size(), r.ns);
        for (int i = 0; i < r.ns; ++i) {
            uint64_t g = r.smp(k) + i / 4 * 10;
            int q = i % 4;
            int e = sv_filebyte(f, g + q / 2);
            e = q & 1 ? e & 15 : e >> 4;
            eqd(lbl("20-bit sample", i), t.samples()[i], scale(static_cast<int32_t>(s(f, g + 2 + 2 * q, 2)), e - 15));
        }
    }
    eq("all consumed", in.has_trace(), 0);
}
// many samples
extern "C" void sc_C20_many()
{
    static int const n[] = { 127, 128, 255, 256, 300, 1000, 32768, 65537 };
    Rec r;
    r.rev = sv_param("rev", 2, 4);
    r.add = r.rev > 2 ? 2 : 1;
    r.format = 8038;
    r.ns = n[sv_param("n", 0, 8)];
    r.trext = r.rev > 2 ? sv_param("extension", 0, 2) : 1;
    sv_file(f, r.end());
    r.pins();
    sv_pin(f, r.tr(0) + 4, 0x12);
    ISEGD in(f);
    Trace t = in.read_trace();
    eq("number of samples", t.samples().size(), r.ns);
    for (int i : { 0, 1, r.ns / 2, r.ns - 2, r.ns - 1 })
        eqd(lbl("sample", i), t.samples()[i], expect(8038, r.smp(0) + 4ull * i));
    eq("all consumed", in.has_trace(), 0);
}
// numbers of samples around constants that are new in the source
extern "C" void sc_C20_near()
{
    static int const fm[] = { 8038, 9036, 8024, 8015 };
    Rec r;
    int k = sv_param("format", 0, 4), div = sv_param("bytes", 0, 2);
    r.format = fm[k];
    r.rev = sv_param("rev", 2, 4);
    r.add = r.rev > 2 ? 2 : 1;
    r.ns = sv::near(3, k > 1 ? 20000 : 150000, div ? k == 0 ? 4 : k == 1 ? 3 : 2 : 1);
    r.chans = 2;
    sv_file(f, r.end());
    r.pins();
    for (int i = 0; i < 2; ++i) {
        sv_pin(f, r.tr(i) + 4, 0x12);
        if (k > 1)
            for (int j = 0; j < r.sbytes(); ++j)
                sv_pin(f, r.smp(i) + j, 0);
    }
    ISEGD in(f);
    for (int i = 0; i < 2; ++i) {
        Trace t = in.read_trace();
        eq("number of samples", t.samples().size(), r.ns);
        for (int j : { 0, 1, r.ns / 2, r.ns - 2, r.ns - 1 })
            eqd(lbl("sample", j), t.samples()[j], k > 1 ? 0 : expect(r.format, r.smp(i) + static_cast<uint64_t>(j) * bits(r.format) / 8));
    }
    eq("all consumed", in.has_trace(), 0);
}
