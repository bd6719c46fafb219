#include "segy.hpp"
// every field of the binary header is decoded from its standard position
static void compare(char const* f, BH const& h, int rev, bool little)
{
    auto fl = bin_fields();
    for (int i = 0; i < NBIN; ++i) {
        uint64_t w = 0;
        if (fl[i].off <= 304 || rev > 1) {
            w = sv::word(f, 3200 + fl[i].off, fl[i].size, little);
            if (!bin_unsigned(i))
                w = sv::sx(w, fl[i].size);
        }
        eq(std::string("binary header field ") + fl[i].name, bin_get(h, i), w);
    }
}
static void shape(Shape& s, int v)
{
    // several fixings of the shape-deciding fields, so that no byte permutation agrees on all of them
    switch (v) {
    case 0: s.samp = 0x0102; break;
    case 1: s.samp = 3; s.ext_samp = 0x00000204; s.byte_off = 0x0e11; s.add = 1; break;
    default: s.samp = 0x8001; s.format = 8; s.fixed = 0; s.stanza = 1; s.ntr = 0x0102030405060708ull; break;
    }
}
extern "C" void sc_C01_decode()
{
    Shape s;
    s.order = sv_param("order", 0, 3);
    s.rev = sv_param("rev", 0, 3);
    int v = sv_param("variant", 0, 3);
    shape(s, v);
    declare("in.sgy", s, 20000);
    ISEGY in("in.sgy");
    compare("in.sgy", in.binary_header(), s.rev, s.little());
    eq("byte-order word", in.binary_header().endianness, s.order == 0 ? 0 : s.order == 1 ? BIG : LITTLE);
}
extern "C" void sc_C01_static()
{
    Shape s;
    s.order = sv_param("order", 0, 3);
    s.rev = 2;
    declare("in.sgy", s, 20000);
    BH h = ISEGY::read_binary_header("in.sgy");
    compare("in.sgy", h, s.rev, s.little());
}
// unknown recorded flags: nothing else of the file may change what a field means
extern "C" void sc_C01_free()
{
    int order = sv_param("order", 0, 3);
    sv_file("in.sgy", 20000);
    pin_marker("in.sgy", order);
    bool l = order == 2;
    sv::pinN("in.sgy", 3220, 2, 4, l);
    sv::pinN("in.sgy", 3224, 2, 1, l);
    sv::pinN("in.sgy", 3268, 4, 0, l);
    sv_pin("in.sgy", 3500, 1);
    sv::pinN("in.sgy", 3504, 2, 0, l);
    ISEGY in("in.sgy");
    compare("in.sgy", in.binary_header(), 1, l);
}
// a binary header given by the caller is used instead of the recorded one; byte order still comes from the file
extern "C" void sc_C01_override()
{
    Shape s;
    s.order = sv_param("order", 0, 3);
    s.rev = 2;
    s.format = 3;
    sv_file("in.sgy", 20000);
    pin_marker("in.sgy", s.order);
    BH h {};
    memset(&h, 0, sizeof h);
    h.job_id = sv_u32("job");
    h.line_num = sv_u32("line");
    h.samp_int = sv_u16("si");
    h.samp_per_tr = 5;
    h.format_code = 3;
    h.ens_fold = sv_u16("fold");
    h.time_basis_code = sv_u16("tb");
    h.ext_samp_int = sv_f64("esi");
    h.SEGY_rev_minor_ver = sv_u8("minor");
    h.fixed_tr_length = 1;
    h.endianness = 0x55667788;
    BH want = h;
    ISEGY in("in.sgy", h);
    auto fl = bin_fields();
    for (int i = 0; i < NBIN; ++i)
        eq(std::string("overridden field ") + fl[i].name, bin_get(in.binary_header(), i), bin_get(want, i));
    eq("byte-order word", in.binary_header().endianness, s.order == 0 ? 0 : s.order == 1 ? BIG : LITTLE);
    Trace t = in.read_trace();
    eq("samples follow the overridden header", t.samples().size(), 5);
    for (int i = 0; i < 5; ++i)
        eqd(lbl("sample", i), t.samples()[i], static_cast<double>(sv::sword("in.sgy", 3600 + 240 + 2 * i, 2, s.little())));
    eq("header field", ival(t.header().get("FFID"), "FFID"), sv::sword("in.sgy", 3608, 4, s.little()));
}
