#include "segy.hpp"
// what a writer was given is what a reader of the file reports, for the whole file
static char const* F = "out.sgy";
static int const POS[] = { 0, 1, 79, 80, 1600, 3198, 3199 };
static std::string text(std::string const& n)
{
    std::string s(3200, 'x');
    for (int p : POS)
        s[p] = sv_u8(lbl(n, p).c_str());
    return s;
}
static double sample(int rev0, int tr, int i)
{
    std::string n = "s" + std::to_string(tr) + "." + std::to_string(i);
    if (rev0) // ibm samples: normalised fraction
        return ibm_value(0xc1800000u | (sv_u32(n.c_str()) & 0x7fffff));
    return sv::f32(sv_u32(n.c_str()));
}
static int64_t field(std::string const& k, int tr) { return static_cast<int16_t>(sv_u16(lbl(k, tr).c_str())); }
static void all(int rev, bool empty, bool fixed, int nt, int nst, int add, int ntr, int order, bool varcount, int rot = 0)
{
    bool rev0 = rev == 0;
    std::vector<std::string> texts, stanzas;
    for (int i = 0; i <= nt; ++i)
        texts.push_back(text(lbl("text", i) + "."));
    for (int i = 0; i < nst; ++i)
        stanzas.push_back(text(lbl("stanza", i) + "."));
    BH h;
    memset(&h, 0, sizeof h);
    if (!empty) {
        h.job_id = 1;
        h.samp_per_tr = 2;
        h.samp_int = 2000;
        h.format_code = rev0 ? 1 : 5;
        h.fixed_tr_length = fixed;
        h.endianness = order == 0 ? 0 : order == 1 ? BIG : LITTLE;
        h.SEGY_rev_major_ver = rev;
        h.max_num_add_tr_headers = add;
    }
    HMap m = { CommonSEGY::default_trace_header[0] };
    for (int i = 1; i <= add; ++i)
        m.push_back({ "MYHEAD0" + std::to_string(i), { { 0, { lbl("A", i), VT::int16_t } }, { 238, { lbl("B", i), VT::int16_t } } } });
    static int const cnt[3] = { 2, 0, 3 };
    auto count = [&](int k) { return varcount ? cnt[(k + rot) % 3] : 2; };
    auto fill = [&](OSEGY& out) {
        for (int k = 0; k < ntr; ++k) {
            std::vector<double> s;
            for (int i = 0; i < count(k); ++i)
                s.push_back(sample(rev0, k, i));
            std::unordered_map<std::string, Val> v { { "FFID", field("ffid", k) }, { "SOU_MEAS_UNIT", field("unit", k) },
                { "SAMP_NUM", int64_t { count(k) } }, { "SAMP_INT", int64_t { 1500 } } };
            for (int i = 1; i <= add; ++i) {
                v[lbl("A", i)] = field(lbl("a", i), k);
                v[lbl("B", i)] = field(lbl("b", i), k);
            }
            Trace t(v, s);
            out.write_trace(t);
        }
    };
    if (rev == 0) {
        OSEGYRev0 out(F, texts[0], h, m);
        fill(out);
    } else if (rev == 1) {
        OSEGYRev1 out(F, texts, h, m);
        fill(out);
    } else {
        OSEGYRev2 out(F, texts, h, stanzas, m);
        fill(out);
    }
    uint64_t size = 3600 + 3200 * (nt + nst);
    for (int k = 0; k < ntr; ++k)
        size += 240 * (1 + add) + 4 * count(k);
    eq("file size", sv_filesize(F), size);
    ISEGY in(F, m);
    auto& b = in.binary_header();
    eq("revision", b.SEGY_rev_major_ver, rev);
    eq("text headers", in.text_headers().size(), 1 + nt);
    for (int i = 0; i <= nt; ++i) {
        eq(lbl("text length", i), in.text_headers()[i].size(), 3200);
        for (int p : POS)
            eq(lbl(lbl("text", i) + " character", p), static_cast<uint8_t>(in.text_headers()[i][p]), static_cast<uint8_t>(texts[i][p]));
        eq(lbl("text plain character", i), in.text_headers()[i][2000], 'x');
    }
    eq("stanzas", in.trailer_stanzas().size(), nst);
    for (int i = 0; i < nst; ++i)
        for (int p : POS)
            eq(lbl(lbl("stanza", i) + " character", p), static_cast<uint8_t>(in.trailer_stanzas()[i][p]), static_cast<uint8_t>(stanzas[i][p]));
    eq("format", b.format_code, rev0 ? 1 : 5);
    if (ntr) {
        eq("samples per trace", b.samp_per_tr, empty ? count(0) : 2);
        eq("sample interval", b.samp_int, empty ? 1500 : 2000);
    }
    for (int k = 0; k < ntr; ++k) {
        eq(lbl("trace is there", k), in.has_trace(), 1);
        Trace t = in.read_trace();
        auto& hd = t.header();
        eq(lbl("FFID of trace", k), ival(hd.get("FFID"), "FFID"), field("ffid", k));
        eq(lbl("SOU_MEAS_UNIT of trace", k), ival(hd.get("SOU_MEAS_UNIT"), "SOU_MEAS_UNIT"), field("unit", k));
        eq(lbl("SAMP_NUM of trace", k), ival(hd.get("SAMP_NUM"), "SAMP_NUM"), count(k));
        eq(lbl("SAMP_INT of trace", k), ival(hd.get("SAMP_INT"), "SAMP_INT"), 1500);
        eq(lbl("unset header of trace", k), ival(hd.get("CDP_X"), "CDP_X"), 0);
        for (int i = 1; i <= add; ++i) {
            eq(lbl("additional value A of trace", k), ival(hd.get(lbl("A", i)), "A"), field(lbl("a", i), k));
            eq(lbl("additional value B of trace", k), ival(hd.get(lbl("B", i)), "B"), field(lbl("b", i), k));
        }
        eq(lbl("number of samples of trace", k), t.samples().size(), count(k));
        for (int i = 0; i < count(k); ++i)
            eqd(lbl(lbl("trace", k) + " sample", i), t.samples()[i], sample(rev0, k, i));
    }
    eq("nothing more", in.has_trace(), 0);
}
extern "C" void sc_C08_rev0()
{
    bool empty = sv_param("empty", 0, 2);
    all(0, empty, false, 0, 0, 0, sv_param("traces", 0, 4), empty ? 0 : sv_param("order", 0, 3), false);
}
extern "C" void sc_C08_rev1()
{
    bool empty = sv_param("empty", 0, 2), fixed = empty ? false : sv_param("fixed", 0, 2);
    all(1, empty, fixed, sv_param("ext", 0, 3), 0, 0, sv_param("traces", 0, 4), empty ? 0 : sv_param("order", 0, 3), !fixed);
}
extern "C" void sc_C08_rev2()
{
    bool empty = sv_param("empty", 0, 2), fixed = empty ? false : sv_param("fixed", 0, 2);
    int ext = sv_param("ext", 0, 3), st = sv_param("stanzas", 0, 3);
    int ntr = sv_param("traces", 0, 4);
    all(2, empty, fixed, ext, st, 0, ntr, empty ? 0 : sv_param("order", 0, 3), !fixed);
}
extern "C" void sc_C08_additional()
{
    bool fixed = sv_param("fixed", 0, 2);
    int st = sv_param("stanzas", 0, 2), add = sv_param("add", 1, 4);
    all(2, false, fixed, 1, st, add, 2, sv_param("order", 0, 3), !fixed);
}
// traces without samples first or last, when the first trace decides what a header that was not given says
extern "C" void sc_C08_rotated()
{
    int rev = sv_param("rev", 1, 3);
    bool empty = sv_param("empty", 0, 2);
    all(rev, empty, false, 0, rev == 2 ? sv_param("stanzas", 0, 2) : 0, empty || rev == 1 ? 0 : sv_param("add", 0, 2), sv_param("traces", 1, 4), empty ? 0 : 2, true, sv_param("rotated", 1, 3));
}
// the standard extension header takes precedence over the values it extends
extern "C" void sc_C08_extension()
{
    int order = sv_param("order", 0, 3);
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = 1;
    h.samp_per_tr = 2;
    h.format_code = 5;
    h.fixed_tr_length = sv_param("fixed", 0, 2);
    h.endianness = order == 0 ? 0 : order == 1 ? BIG : LITTLE;
    h.SEGY_rev_major_ver = 2;
    h.max_num_add_tr_headers = 1;
    double x = sv_param("whole", 0, 2) ? 123456.0 : 0.125;
    int64_t ffid = static_cast<int64_t>(sv_u64("ffid"));
    {
        OSEGYRev2 out(F, { text("t") }, h);
        Trace t({ { "FFID", ffid }, { "SAMP_NUM", int64_t { 2 } }, { "SAMP_INT", 125.5 }, { "SOU_X", x }, { "CHAN", int64_t { 7 } } },
            { sample(0, 0, 0), sample(0, 0, 1) });
        out.write_trace(t);
    }
    ISEGY in(F);
    Trace t = in.read_trace();
    eq("FFID", ival(t.header().get("FFID"), "FFID"), ffid);
    eq("CHAN", ival(t.header().get("CHAN"), "CHAN"), 7);
    eq("SAMP_NUM", ival(t.header().get("SAMP_NUM"), "SAMP_NUM"), 2);
    eqd("SAMP_INT", dval(t.header().get("SAMP_INT"), "SAMP_INT"), 125.5);
    eqd("SOU_X", dval(t.header().get("SOU_X"), "SOU_X"), x);
    for (int i = 0; i < 2; ++i)
        eqd(lbl("sample", i), t.samples()[i], sample(0, 0, i));
}
// many samples, many text headers and stanzas, a recorded place of the first trace
static void wide(int ns, int nt, int nst, int ntr, bool kind, bool off, bool fixed, int order, int format)
{
    Shape sh;
    sh.format = format;
    if (!fixed && ns > 65535)
        return;
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = 1;
    h.samp_per_tr = static_cast<int16_t>(ns);
    h.ext_samp_per_tr = ns > 65535 || kind ? ns : 0;
    h.format_code = format;
    h.fixed_tr_length = fixed;
    h.endianness = order == 1 ? BIG : LITTLE;
    h.SEGY_rev_major_ver = 2;
    h.byte_off_of_first_tr = off ? 1 : 0;
    std::vector<std::string> texts, stanzas;
    for (int i = 0; i < nt; ++i)
        texts.push_back(std::string(3200, static_cast<char>('a' + i % 64)));
    for (int i = 0; i < nst; ++i)
        stanzas.push_back(std::string(3200, static_cast<char>('A' + i % 64)));
    HMap m = { CommonSEGY::default_trace_header[0] };
    {
        OSEGYRev2 out(F, texts, h, stanzas, m);
        for (int k = 0; k < ntr; ++k) {
            std::vector<double> s(ns);
            s[0] = static_cast<int8_t>(sv_u8(lbl("first", k).c_str()));
            s[ns - 1] = static_cast<int8_t>(sv_u8(lbl("last", k).c_str()));
            Trace t({ { "FFID", field("ffid", k) }, { "SAMP_NUM", int64_t { ns } } }, s);
            out.write_trace(t);
        }
    }
    eq("file size", sv_filesize(F), 3600 + 3200 * (nt - 1 + nst) + static_cast<uint64_t>(ntr) * (240 + ns * sh.bps()));
    ISEGY in(F, m);
    eq("text headers", in.text_headers().size(), nt);
    for (int i = 0; i < nt; ++i)
        eq("text", in.text_headers()[i] == texts[i], 1);
    eq("stanzas", in.trailer_stanzas().size(), nst);
    for (int i = 0; i < nst; ++i)
        eq("stanza", in.trailer_stanzas()[i] == stanzas[i], 1);
    for (int k = 0; k < ntr; ++k) {
        Trace t = in.read_trace();
        eq(lbl("FFID", k), ival(t.header().get("FFID"), "FFID"), field("ffid", k));
        eq(lbl("number of samples", k), t.samples().size(), ns);
        if (t.samples().size() == static_cast<size_t>(ns)) {
            eqd("first sample", t.samples()[0], static_cast<int8_t>(sv_u8(lbl("first", k).c_str())));
            eqd("last sample", t.samples()[ns - 1], static_cast<int8_t>(sv_u8(lbl("last", k).c_str())));
        }
    }
    eq("nothing more", in.has_trace(), 0);
}
extern "C" void sc_C08_wide()
{
    static int const n[] = { 200, 300, 40000, 65535, 65536, 70000 };
    static int const txt[] = { 1, 2, 12, 259 };
    int kind = sv_param("kind", 0, 2);
    int ns = kind ? 5 : n[sv_param("samples", 0, 6)], nt = kind ? txt[sv_param("texts", 0, 4)] : 1, nst = kind && sv_param("stanzas", 0, 2) ? 11 : 0;
    bool off = kind && sv_param("recorded", 0, 2), fixed = sv_param("fixed", 0, 2);
    wide(ns, nt, nst, 2, kind, off, fixed, sv_param("order", 1, 3), 8);
}
// counts around constants that are new in the source
extern "C" void sc_C08_near()
{
    static int const hi[] = { 100000, 65535, 100000, 300, 300, 300 };
    int what = sv_param("what", 0, 6), n = sv::near(3, hi[what], what == 2 ? 4 : 1);
    wide(what < 3 ? n : 3, what == 4 ? n : 1, what == 5 ? n : 0, what == 3 ? n : 2, what == 2, false, what != 1, 1, what == 2 ? 5 : 8);
}
