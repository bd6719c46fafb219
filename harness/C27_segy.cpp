#include "segy.hpp"
#include "ISEGYSorted1D.hpp"
// objects used alternately do not show in one another
static int const FMT[] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
namespace { struct One {
    char const* f;
    Shape s;
    int ntr, k = 0;
    HMap map;
    std::unique_ptr<ISEGY> in;
    uint64_t at(int t) const { return 3600 + t * (240 * (1 + s.add) + s.samp * s.bps()); }
    void file()
    {
        declare(f, s, at(ntr));
        map = { { "SEG00000", { { 8, { "A", VT::int32_t } }, { 200, { "B", VT::uint16_t } } } } };
        for (int i = 0; i < s.add; ++i)
            map.push_back({ "MYHEAD0" + std::to_string(i), { { 4, { lbl("C", i), VT::int16_t } } } });
    }
    void open() { in = std::make_unique<ISEGY>(f, map); }
    void header(Trace::Header& h, int t)
    {
        bool l = s.little();
        eq(std::string(f) + " A", ival(h.get("A"), "A"), sv::sword(f, at(t) + 8, 4, l));
        eq(std::string(f) + " B", ival(h.get("B"), "B"), sv::word(f, at(t) + 200, 2, l));
        for (int i = 0; i < s.add; ++i)
            eq(std::string(f) + lbl(" C", i), ival(h.get(lbl("C", i)), "C"), sv::sword(f, at(t) + 240 * (1 + i) + 4, 2, l));
        eq(std::string(f) + " number of values", h.keys().size(), 2 + s.add);
    }
    void samples(Trace& t, int k)
    {
        eq(std::string(f) + " number of samples", t.samples().size(), s.samp);
        for (int i = 0; i < s.samp && i < static_cast<int>(t.samples().size()); ++i) {
            uint64_t o = at(k) + 240 * (1 + s.add) + i * s.bps();
            bool l = s.little();
            switch (s.format) {
            case 2: eqd(std::string(f) + " sample", t.samples()[i], static_cast<int32_t>(sv::sword(f, o, 4, l))); break;
            case 3: eqd(std::string(f) + " sample", t.samples()[i], static_cast<int16_t>(sv::sword(f, o, 2, l))); break;
            case 5: eqd(std::string(f) + " sample", t.samples()[i], sv::f32(sv::word(f, o, 4, l))); break;
            case 6: eqd(std::string(f) + " sample", t.samples()[i], sv::f64(sv::word(f, o, 8, l))); break;
            case 7: eqd(std::string(f) + " sample", t.samples()[i], static_cast<int32_t>(sv::sword(f, o, 3, l))); break;
            case 8: eqd(std::string(f) + " sample", t.samples()[i], static_cast<int8_t>(sv::sword(f, o, 1, l))); break;
            case 10: eqd(std::string(f) + " sample", t.samples()[i], static_cast<uint32_t>(sv::word(f, o, 4, l))); break;
            case 11: eqd(std::string(f) + " sample", t.samples()[i], static_cast<uint16_t>(sv::word(f, o, 2, l))); break;
            case 16: eqd(std::string(f) + " sample", t.samples()[i], static_cast<uint8_t>(sv::word(f, o, 1, l))); break;
            default:;
            }
        }
    }
    void text()
    {
        eq(std::string(f) + " text", static_cast<uint8_t>(in->text_headers()[0][17]), sv_filebyte(f, 17));
        eq(std::string(f) + " format", in->binary_header().format_code, s.format);
        eq(std::string(f) + " job", in->binary_header().job_id, static_cast<int32_t>(sv::sword(f, 3200, 4, s.little())));
    }
    void step(bool head)
    {
        eq(std::string(f) + " has trace", in->has_trace(), k < ntr);
        if (k == ntr)
            return;
        if (head) {
            auto h = in->read_header();
            header(h, k);
        } else {
            Trace t = in->read_trace();
            header(t.header(), k);
            samples(t, k);
        }
        ++k;
    }
}; }
static One make(char const* f, int fmt, int order, int rev, int add, int samp, int ntr)
{
    One o;
    o.f = f;
    o.s.format = fmt;
    o.s.order = order;
    o.s.rev = rev;
    o.s.add = rev > 1 ? add : 0;
    o.s.samp = samp;
    o.ntr = ntr;
    o.file();
    return o;
}
extern "C" void sc_C27_readers()
{
    int i = sv_param("first format", 0, 13), how = sv_param("how", 0, 4);
    One a = make("a.sgy", FMT[i], i % 3, i % 3, 1, 3, 3), b = make("b.sgy", FMT[(i * 5 + 3) % 13], (i + 1) % 3, 2 - i % 3, 2, 2, 2);
    a.open();
    if (how & 1) a.step(false);
    b.open();
    for (int n = 0; n < 4; ++n) {
        a.step(how & 2 && n % 2);
        b.step(how & 1 && n % 2);
        a.text();
        b.text();
    }
}
// two readers of one file
extern "C" void sc_C27_same_file()
{
    int i = sv_param("format", 0, 13);
    One a = make("a.sgy", FMT[i], i % 3, 2, 1, 2, 3);
    a.open();
    One b;
    b.f = a.f;
    b.s = a.s;
    b.ntr = a.ntr;
    b.map = a.map;
    a.step(false);
    b.open();
    b.step(true);
    a.step(false);
    b.step(false);
    a.in.reset();
    b.step(false);
    b.step(false);
}
// sorted readers by different headers, beside an unsorted one
extern "C" void sc_C27_sorted()
{
    int p = sv_param("order", 0, 6);
    static int const P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    One a = make("a.sgy", 2, 0, 0, 0, 2, 3);
    for (int k = 0; k < 3; ++k) {
        sv::pinN(a.f, a.at(P[p][k]) + 8, 4, k + 1, false);
        sv::pinN(a.f, a.at(P[5 - p][k]) + 200, 2, k + 1, false);
    }
    ISEGYSorted1D x(a.f, "A", a.map), y(a.f, "B", a.map);
    a.open();
    for (int k = 0; k < 3; ++k) {
        Trace t = x.read_trace();
        a.header(t.header(), P[p][k]);
        auto h = y.read_header();
        a.header(h, P[5 - p][k]);
        a.step(k == 1);
        eq("keys", x.get_keys().size(), 3);
    }
    eq("x has trace", x.has_trace(), 0);
    eq("y has trace", y.has_trace(), 0);
    a.step(false);
}
namespace { struct Out {
    char const* f;
    int rev, fmt, order, n, k = 0;
    std::unique_ptr<OSEGY> out;
    HMap map;
    int little() const { return order == 2; }
    void open()
    {
        BH h;
        memset(&h, 0, sizeof h);
        h.job_id = 7 + fmt;
        h.samp_per_tr = n;
        h.format_code = fmt;
        h.endianness = order == 0 ? 0 : order == 1 ? BIG : LITTLE;
        h.fixed_tr_length = 1;
        h.SEGY_rev_major_ver = rev;
        map = { { "SEG00000", { { static_cast<uint32_t>(4 * n), { "A", VT::int32_t } }, { 200, { "B", VT::uint16_t } } } } };
        std::string t(3200, 'a' + fmt);
        if (rev == 0) out = std::make_unique<OSEGYRev0>(f, t, h, map);
        else if (rev == 1) out = std::make_unique<OSEGYRev1>(f, std::vector<std::string> { t }, h, map);
        else out = std::make_unique<OSEGYRev2>(f, std::vector<std::string> { t }, h, std::vector<std::string> {}, map);
    }
    int64_t val(char const* a, int k) const { return sv_u16((f + lbl(a, k)).c_str()); }
    void step()
    {
        std::vector<double> s;
        for (int i = 0; i < n; ++i)
            s.push_back(10 * k + i + 1);
        Trace t({ { "A", val("a", k) }, { "B", val("b", k) } }, s);
        out->write_trace(t);
        ++k;
    }
    void verify()
    {
        out.reset();
        Shape q;
        q.format = fmt;
        eq(std::string(f) + " size", sv_filesize(f), 3600 + k * (240 + n * q.bps()));
        ISEGY in(f, map);
        eq(std::string(f) + " text", in.text_headers()[0][5], 'a' + fmt);
        for (int i = 0; i < k; ++i) {
            Trace t = in.read_trace();
            eq(std::string(f) + " A", ival(t.header().get("A"), "A"), val("a", i));
            eq(std::string(f) + " B", ival(t.header().get("B"), "B"), val("b", i));
            eq(std::string(f) + " samples", t.samples().size(), n);
            for (int j = 0; j < n && j < static_cast<int>(t.samples().size()); ++j)
                eqd(std::string(f) + " sample", t.samples()[j], 10 * i + j + 1);
        }
        eq(std::string(f) + " no more", in.has_trace(), 0);
    }
}; }
static Out mk(char const* f, int rev, int fmt, int order, int n)
{
    Out o;
    o.f = f;
    o.rev = rev;
    o.fmt = fmt;
    o.order = order;
    o.n = n;
    return o;
}
extern "C" void sc_C27_writers()
{
    int ra = sv_param("first", 0, 3), rb = sv_param("second", 0, 3), i = sv_param("formats", 0, 13);
    static int const old[] = { 1, 2, 3, 8 };
    Out a = mk("a.out", ra, ra ? FMT[i] : old[i % 4], ra > 1 ? i % 3 : 0, 2), b = mk("b.out", rb, rb ? FMT[(i * 3 + 1) % 13] : old[(i + 1) % 4], rb > 1 ? (i + 1) % 3 : 0, 3);
    a.open();
    a.step();
    b.open();
    b.step();
    a.step();
    a.step();
    b.step();
    b.verify();
    a.step();
    a.verify();
}
// copying from a reader to a writer of another format
extern "C" void sc_C27_copy()
{
    int i = sv_param("format", 0, 13), rev = sv_param("rev", 1, 3);
    One a = make("a.sgy", FMT[i], i % 3, 2, 1, 2, 3);
    Out b = mk("b.out", rev, FMT[(i + 4) % 13], rev > 1 ? (i + 2) % 3 : 0, 2);
    a.open();
    b.open();
    for (int k = 0; k < 3; ++k) {
        a.step(k == 1);
        b.step();
        a.text();
    }
    b.verify();
    a.step(false);
}
