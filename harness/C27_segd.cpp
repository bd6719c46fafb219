#include "segdw.hpp"
// SEG-D objects used alternately do not show in one another
static int const FM[] = { 8036, 8038, 8058, 8080, 9036, 9038, 9058, 9080, 8015, 8022, 8024, 8042, 8044, 8048 };
namespace { struct One {
    Rec r;
    int k = 0;
    EMaps maps;
    std::unique_ptr<ISEGD> in;
    void open() { in = std::make_unique<ISEGD>(r.f, maps); }
    void step()
    {
        std::string p = r.f;
        eq(p + " has trace", in->has_trace(), k < r.ntr());
        eq(p + " file number", in->general_header().file_number, sv::bcd(r.f, r.base, 0, 4));
        eq(p + " channel sets", in->channel_set_headers()[0].size(), r.ncs);
        if (r.ext) eq(p + " extended header", static_cast<uint8_t>(in->extended_headers()[0][9]), sv_filebyte(r.f, r.exth(0) + 9));
        if (k == r.ntr())
            return;
        Trace t = in->read_trace();
        eq(p + " TRACE_EDIT", ival(t.header().get("TRACE_EDIT"), "TRACE_EDIT"), u(r.f, r.tr(k) + 11, 1));
        eq(p + " samples", t.samples().size(), r.ns);
        if (maps.size()) eq(p + " mapped value", ival(t.header().get("MINE"), "MINE"), s(r.f, r.te(k, 0) + 12, 2));
        else eq(p + " mapped value", t.header().get("MINE").has_value(), 0);
        for (int i = 0; i < r.ns && i < static_cast<int>(t.samples().size()); ++i) {
            if (r.format == 8038) eqd(p + " sample", t.samples()[i], static_cast<int32_t>(s(r.f, r.smp(k) + 4 * i, 4)));
            if (r.format == 8036) eqd(p + " sample", t.samples()[i], static_cast<int32_t>(s(r.f, r.smp(k) + 3 * i, 3)));
            if (r.format == 8058) eqd(p + " sample", t.samples()[i], sv::f32(u(r.f, r.smp(k) + 4 * i, 4)));
            if (r.format == 9058) eqd(p + " sample", t.samples()[i], sv::f32(sv::word(r.f, r.smp(k) + 4 * i, 4, true)));
            if (r.format == 8080) eqd(p + " sample", t.samples()[i], sv::f64(u(r.f, r.smp(k) + 8 * i, 8)));
        }
        ++k;
    }
}; }
static void make(One& o, char const* f, int rev, int format, int ncs, int chans, bool map)
{
    o.r.f = f;
    o.r.rev = rev;
    o.r.add = rev > 2 ? 2 : rev ? 1 : 0;
    o.r.format = format;
    o.r.ncs = ncs;
    o.r.chans = chans;
    o.r.ext = ncs - 1;
    o.r.trext = rev ? 1 : 0;
    o.r.ns = rev ? 2 : 1;
    o.r.subscans = rev ? -1 : 0;
    sv_file(f, o.r.end());
    o.r.pins();
    if (map && rev)
        o.maps.push_back({ { 12, { "MINE", VT::int16_t } }, { rev > 2 ? 24u : 7u, { "SAMP_NUM", rev > 2 ? VT::uint32_t : VT::uint24_t } } });
}
extern "C" void sc_C27_segd_readers()
{
    int i = sv_param("formats", 0, 14), ra = sv_param("first", 0, 4), how = sv_param("how", 0, 2);
    One a, b;
    make(a, "a.segd", ra, FM[i], 2, 1, how);
    make(b, "b.segd", 3 - ra, FM[(i * 3 + 1) % 14], 1, 2, !how);
    a.open();
    if (how) a.step();
    b.open();
    for (int n = 0; n < 3; ++n) {
        a.step();
        b.step();
    }
}
namespace { struct Out {
    char const* f;
    int fmt, chans, k = 0;
    std::unique_ptr<OSEGDRev2_1> out;
    void open()
    {
        auto g = gh1(fmt);
        g.file_number = 100 + chans;
        out = std::make_unique<OSEGDRev2_1>(f, g, gh22(), std::vector<std::vector<C::ChannelSetHeader>> { { chset(1, 1, chans) } });
    }
    int64_t edit(int i) const { return sv_u8((f + std::to_string(i)).c_str()); }
    void step()
    {
        Trace t({ { "TR_HDR_EXT", int64_t { 1 } }, { "SAMP_NUM", int64_t { chans } }, { "TRACE_EDIT", edit(k) } }, std::vector<double>(chans, 1.0 / (1 << k)));
        out->write_trace(t);
        ++k;
    }
    void verify()
    {
        out.reset();
        ISEGD in(f);
        eq(std::string(f) + " file number", in.general_header().file_number, 100 + chans);
        for (int i = 0; i < k; ++i) {
            Trace t = in.read_trace();
            eq(std::string(f) + " edit", ival(t.header().get("TRACE_EDIT"), "TRACE_EDIT"), edit(i));
            eq(std::string(f) + " samples", t.samples().size(), chans);
            if (fmt != 8036 && fmt != 8038 && fmt != 9036 && fmt != 9038)
                for (double x : t.samples())
                    eqd(std::string(f) + " sample", x, 1.0 / (1 << i));
        }
        eq(std::string(f) + " no more", in.has_trace(), 0);
    }
}; }
extern "C" void sc_C27_segd_writers()
{
    int i = sv_param("formats", 0, 14);
    Out a, b;
    a.f = "a.out";
    a.fmt = FM[i];
    a.chans = 2;
    b.f = "b.out";
    b.fmt = FM[(3 * i + 1) % 14];
    b.chans = 3;
    One c;
    make(c, "c.segd", i % 4, FM[(5 * i + 2) % 14], 2, 1, i & 1);
    a.open();
    a.step();
    c.open();
    b.open();
    b.step();
    c.step();
    a.step();
    b.step();
    a.verify();
    c.step();
    b.step();
    b.verify();
    c.step();
}
