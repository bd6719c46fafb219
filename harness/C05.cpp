#include "segy.hpp"
// samples of each data format are decoded to the recorded numbers; anything else is refused
static int const codes[] = { 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
static double expect(int code, uint64_t at, bool l)
{
    char const* f = "in.sgy";
    switch (code) {
    case 2: return static_cast<int32_t>(sv::word(f, at, 4, l));
    case 3: return static_cast<int16_t>(sv::word(f, at, 2, l));
    case 5: return sv::f32(sv::word(f, at, 4, l));
    case 6: return sv::f64(sv::word(f, at, 8, l));
    case 7: return static_cast<int32_t>(sv::sword(f, at, 3, l));
    case 8: return static_cast<int8_t>(sv_filebyte(f, at));
    case 9: return static_cast<int64_t>(sv::word(f, at, 8, l));
    case 10: return static_cast<uint32_t>(sv::word(f, at, 4, l));
    case 11: return static_cast<uint16_t>(sv::word(f, at, 2, l));
    case 12: return sv::word(f, at, 8, l);
    case 15: return static_cast<uint32_t>(sv::word(f, at, 3, l));
    default: return sv_filebyte(f, at);
    }
}
extern "C" void sc_C05_formats()
{
    Shape s;
    s.format = codes[sv_param("format", 0, 12)];
    s.order = sv_param("order", 0, 3);
    s.rev = sv_param("rev", 0, 3);
    s.samp = 3;
    declare("in.sgy", s, 3600 + 2 * (240 + 3 * s.bps()));
    ISEGY in("in.sgy");
    for (int k = 0; k < 2; ++k) {
        Trace t = in.read_trace();
        eq("number of samples", t.samples().size(), 3);
        for (int i = 0; i < 3; ++i)
            eqd(lbl("sample", i), t.samples()[i],
                expect(s.format, 3600 + k * (240 + 3 * s.bps()) + 240 + i * s.bps(), s.little()));
    }
    eq("all consumed", in.has_trace(), 0);
}
// every other format code is refused when the file is opened
extern "C" void sc_C05_badformat()
{
    static int const bad[] = { 0, 4, 13, 14, 17, 18, 255, 256, 257, 0x105, 0x300, 0x500, 0x7fff, 0x8001, 0xffff, 0xfffb };
    Shape s;
    s.format = bad[sv_param("code", 0, 16)];
    s.order = sv_param("order", 0, 3);
    s.rev = sv_param("rev", 0, 3);
    declare("in.sgy", s, 3600 + 2 * 248);
    try {
        ISEGY in("in.sgy");
        sv_fail("a file with an unsupported sample format was accepted");
    } catch (Exception&) {
        sv_ok("unsupported format refused");
    }
}
extern "C" void sc_C05_badorder()
{
    static uint32_t const bad[] = { 0x02010403, 0x03040102, 0x01020305, 0x00000001, 0x01000000, 0xffffffff, 0x01020300, 0x04030200 };
    uint32_t w = bad[sv_param("marker", 0, 8)];
    sv_file("in.sgy", 3600 + 2 * 248);
    sv::pin32("in.sgy", 3296, w);
    try {
        ISEGY in("in.sgy");
        sv_fail("a file with an unsupported byte order was accepted");
    } catch (Exception&) {
        sv_ok("unsupported byte order refused");
    }
}
// format 1: every sign and exponent, unknown fraction
extern "C" void sc_C05_ibm()
{
    Shape s;
    s.format = 1;
    s.order = sv_param("order", 0, 3);
    s.samp = 256;
    declare("in.sgy", s, 3600 + 240 + 1024);
    for (int i = 0; i < 256; ++i)
        sv_pin("in.sgy", 3840 + 4 * i + (s.little() ? 3 : 0), i);
    ISEGY in("in.sgy");
    Trace t = in.read_trace();
    for (int i = 0; i < 256; ++i)
        eqd(lbl("ibm sample with leading byte", i), t.samples()[i], ibm_value(sv::word("in.sgy", 3840 + 4 * i, 4, s.little())));
}
