#include "segy.hpp"
// traces are visited in file order, each starting exactly where the previous one ends
static char const* F = "in.sgy";
static uint64_t first(Shape const& s) { return s.byte_off ? s.byte_off : 3600 + 3200 * s.exttext; }
static void check_header(Trace::Header& h, uint64_t at, bool l, std::string const& who)
{
    eq(who + " FFID", ival(h.get("FFID"), "FFID"), sv::sword(F, at + 8, 4, l));
    eq(who + " CHAN", ival(h.get("CHAN"), "CHAN"), sv::sword(F, at + 12, 4, l));
    eq(who + " TIME_SCALAR", ival(h.get("TIME_SCALAR"), "TIME_SCALAR"), sv::sword(F, at + 214, 2, l));
}
static HMap small(int add)
{
    HMap m { { "SEG00000", { { 8, { "FFID", VT::int32_t } }, { 12, { "CHAN", VT::int32_t } }, { 114, { "SAMP_NUM", VT::uint16_t } },
                                { 214, { "TIME_SCALAR", VT::int16_t } } } } };
    for (int i = 1; i <= add; ++i)
        m.push_back({ "HEADER0" + std::to_string(i), { { 0, { lbl("FIRST", i), VT::int32_t } }, { 236, { lbl("LAST", i), VT::int32_t } } } });
    return m;
}
static void walk(ISEGY& in, Shape const& s, std::vector<int> const& counts, unsigned how, int add, std::string const& tag)
{
    uint64_t at = first(s);
    for (size_t k = 0; k < counts.size(); ++k) {
        std::string who = tag + " trace " + std::to_string(k);
        eq(who + " is announced", in.has_trace(), 1);
        uint64_t data = at + 240 * (1 + add);
        if (how >> k & 1) {
            Trace t = in.read_trace();
            check_header(t.header(), at, s.little(), who);
            for (int i = 1; i <= add; ++i) {
                eq(who + lbl(" FIRST", i), ival(t.header().get(lbl("FIRST", i)), "FIRST"), sv::sword(F, at + 240 * i, 4, s.little()));
                eq(who + lbl(" LAST", i), ival(t.header().get(lbl("LAST", i)), "LAST"), sv::sword(F, at + 240 * i + 236, 4, s.little()));
            }
            eq(who + " samples", t.samples().size(), counts[k]);
            for (int i = 0; i < counts[k]; ++i)
                eqd(who + lbl(" sample", i), t.samples()[i], static_cast<double>(sv::sword(F, data + 2 * i, 2, s.little())));
        } else {
            auto h = in.read_header();
            check_header(h, at, s.little(), who);
            for (int i = 1; i <= add; ++i)
                eq(who + lbl(" LAST", i), ival(h.get(lbl("LAST", i)), "LAST"), sv::sword(F, at + 240 * i + 236, 4, s.little()));
        }
        at = data + 2 * counts[k];
    }
    eq(tag + " nothing follows the last trace", in.has_trace(), 0);
}
// fixed-length traces: every mix of whole and header-only reading
extern "C" void sc_C07_fixed()
{
    Shape s;
    s.format = 3;
    s.order = sv_param("order", 0, 3);
    s.rev = sv_param("rev", 0, 3);
    s.exttext = sv_param("exttext", 0, 3);
    unsigned how = sv_param("how", 0, 8);
    s.fixed = s.rev ? 1 : sv_u16("fixed flag") ? 1 : 0;
    s.fixed = s.rev ? 1 : 0;
    s.samp = 3;
    s.add = s.rev > 1 ? 2 : 0;
    uint64_t n = first(s) + 3 * (240 * (1 + s.add) + 6);
    declare(F, s, n);
    ISEGY in(F, small(s.add));
    walk(in, s, { 3, 3, 3 }, how, s.add, "fixed");
}
// variable-length traces
extern "C" void sc_C07_variable()
{
    static int const cnt[4][3] = { { 0, 2, 5 }, { 4, 1, 2 }, { 2, 0, 0 }, { 3, 3, 3 } };
    Shape s;
    s.format = 3;
    s.order = sv_param("order", 0, 3);
    s.rev = sv_param("rev", 1, 3);
    s.fixed = 0;
    s.samp = 2;
    s.add = s.rev > 1 ? sv_param("add", 0, 3) : 0;
    int c = sv_param("counts", 0, 4);
    unsigned how = sv_param("how", 0, 8);
    std::vector<int> counts { cnt[c][0], cnt[c][1], cnt[c][2] };
    uint64_t n = first(s);
    for (int k : counts)
        n += 240 * (1 + s.add) + 2 * k;
    declare(F, s, n);
    uint64_t at = first(s);
    for (int k : counts) {
        sv::pinN(F, at + 114, 2, k, s.little());
        at += 240 * (1 + s.add) + 2 * k;
    }
    ISEGY in(F, small(s.add));
    walk(in, s, counts, how, s.add, "variable");
}
// the recorded position of the first trace is honoured; the text headers are those of the file
extern "C" void sc_C07_offset()
{
    Shape s;
    s.format = 3;
    s.order = sv_param("order", 0, 3);
    s.rev = 2;
    s.exttext = sv_param("exttext", 0, 3);
    s.byte_off = sv_param("far", 0, 2) ? 12345 : 3600 + 3200 * s.exttext;
    s.samp = 2;
    declare(F, s, s.byte_off + 2 * 244);
    ISEGY in(F, small(0));
    eq("text headers", in.text_headers().size(), 1 + s.exttext);
    for (int k = 0; k <= s.exttext; ++k)
        for (int i : { 0, 1, 80, 1599, 3198, 3199 }) {
            eq(lbl("text header length", k), in.text_headers()[k].size(), 3200);
            eq(lbl("text header character", i), static_cast<uint8_t>(in.text_headers()[k][i]), sv_filebyte(F, (k ? 3600 + 3200 * (k - 1) : 0) + i));
        }
    walk(in, s, { 2, 2 }, sv_param("how", 0, 4), 0, "offset");
}
// extended text headers closed by an end stanza
extern "C" void sc_C07_endtext()
{
    Shape s;
    s.format = 3;
    s.order = sv_param("order", 0, 3);
    s.rev = sv_param("rev", 1, 3);
    int n = sv_param("blocks", 1, 4);
    s.exttext = -1;
    s.samp = 2;
    declare(F, s, 3600 + 3200 * n + 2 * 244);
    static char const stanza[] = "((SEG: EndText))";
    for (int k = 0; k < n; ++k)
        for (int i = 0; i < 16; ++i)
            sv_pin(F, 3600 + 3200 * k + i, k == n - 1 ? stanza[i] : i == 15 && k == 0 ? '(' : stanza[i]  + (k != 0 && i == 3));
    ISEGY in(F, small(0));
    eq("text headers", in.text_headers().size(), 1 + n);
    for (int k = 0; k < n; ++k)
        eq(lbl("text header", k), static_cast<uint8_t>(in.text_headers()[k + 1][100]), sv_filebyte(F, 3600 + 3200 * k + 100));
    s.exttext = n;
    walk(in, s, { 2, 2 }, sv_param("how", 0, 4), 0, "end text");
}
// trailer stanzas are no traces, and are reported
extern "C" void sc_C07_trailer()
{
    Shape s;
    s.format = 3;
    s.order = sv_param("order", 0, 3);
    s.rev = 2;
    s.fixed = sv_param("fixed", 0, 2);
    s.add = sv_param("add", 0, 2);
    int n = sv_param("stanzas", 0, 4);
    bool counted = sv_param("counted", 0, 2);
    if (!counted && n == 0)
        return;
    if (!counted && !s.fixed && s.add)
        return; // decided by the standard extension header, see the scenario below
    s.samp = 2;
    s.stanza = counted ? n : -1;
    s.ntr = 2;
    uint64_t one = 240 * (1 + s.add) + 4;
    uint64_t end = 3600 + 2 * one;
    declare(F, s, end + 3200 * n);
    for (int k = 0; k < 2; ++k)
        sv::pinN(F, 3600 + k * one + 114, 2, 2, s.little());
    static char const stanza[] = "((SEG: EndText))";
    if (!counted)
        for (int k = 0; k < n; ++k)
            for (int i = 0; i < 16; ++i)
                sv_pin(F, end + 3200 * k + i, k == n - 1 ? stanza[i] : i == 15 && k == 0 ? '(' : stanza[i] + (k != 0 && i == 3));
    ISEGY in(F, small(s.add));
    eq("stanzas", in.trailer_stanzas().size(), n);
    for (int k = 0; k < n; ++k) {
        eq(lbl("stanza length", k), in.trailer_stanzas()[k].size(), 3200);
        for (int i : { 0, 17, 3199 })
            eq(lbl("stanza character", i), static_cast<uint8_t>(in.trailer_stanzas()[k][i]), sv_filebyte(F, end + 3200 * k + i));
    }
    walk(in, s, { 2, 2 }, sv_param("how", 0, 4), s.add, "trailer");
}
extern "C" void sc_C07_trailer_ext()
{
    Shape s;
    s.format = 3;
    s.order = sv_param("order", 0, 3);
    s.rev = 2;
    s.fixed = 0;
    s.add = 2;
    s.samp = 9;
    s.stanza = -1;
    s.ntr = 2;
    uint64_t sz[2] = { 240 * 3 + 2 * 2, 240 * 3 + 2 * 5 };
    uint64_t end = 3600 + sz[0] + sz[1];
    declare(F, s, end + 3200);
    int cnt[2] = { 2, 5 };
    uint64_t at = 3600;
    for (int k = 0; k < 2; ++k) {
        sv::pinN(F, at + 114, 2, cnt[k], s.little());
        sv::pinN(F, at + 240 + 136, 4, cnt[k], s.little());
        sv::pinN(F, at + 240 + 156, 2, k ? 0 : 2, s.little());
        at += sz[k];
    }
    static char const stanza[] = "((SEG: EndText))";
    for (int i = 0; i < 16; ++i)
        sv_pin(F, end + i, stanza[i]);
    ISEGY in(F, small(2));
    eq("stanzas", in.trailer_stanzas().size(), 1);
    walk(in, s, { 2, 5 }, sv_param("how", 0, 4), 2, "trailer");
}
// sample counts beyond the signed 16-bit range, and the extended count
extern "C" void sc_C07_many()
{
    Shape s;
    s.format = 8;
    s.order = sv_param("order", 0, 3);
    int v = sv_param("variant", 0, 3);
    s.rev = v == 2 ? 2 : 0;
    uint32_t n = v == 0 ? 0x7fff : v == 1 ? 0x8003 : 0x10005;
    s.samp = v == 2 ? 7 : n;
    s.ext_samp = v == 2 ? n : 0;
    declare(F, s, 3600 + 3 * (240 + n));
    ISEGY in(F, small(0));
    auto h = in.read_header();
    auto t = in.read_trace();
    uint64_t at = 3600 + 240 + n;
    check_header(t.header(), at, s.little(), "second");
    eq("samples", t.samples().size(), n);
    for (uint32_t i : { 0u, 1u, 32767u % n, n - 1 })
        eqd(lbl("sample", i), t.samples()[i], static_cast<double>(static_cast<int8_t>(sv_filebyte(F, at + 240 + i))));
    eq("third", in.has_trace(), 1);
    h = in.read_header();
    check_header(h, 3600 + 2 * (240 + n), s.little(), "third");
    eq("end", in.has_trace(), 0);
}
// sample widths: the extent of a trace follows the data format
extern "C" void sc_C07_widths()
{
    static int const codes[] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
    Shape s;
    s.format = codes[sv_param("format", 0, 13)];
    s.order = sv_param("order", 0, 2);
    s.rev = sv_param("rev", 0, 2);
    s.fixed = s.rev ? 0 : 1;
    s.samp = 5;
    uint64_t one = 240 + 5 * s.bps();
    declare(F, s, 3600 + 3 * one);
    for (int k = 0; k < 3; ++k)
        sv::pinN(F, 3600 + k * one + 114, 2, 5, s.little());
    for (int k = 0; k < 3; ++k)
        for (int i = 0; i < 5; ++i)
            if (s.format == 1)
                sv_pin(F, 3600 + k * one + 240 + 4 * i, 0x41);
    ISEGY in(F, small(0));
    auto h = in.read_header();
    check_header(h, 3600, s.little(), "first");
    auto t = in.read_trace();
    check_header(t.header(), 3600 + one, s.little(), "second");
    eq("samples", t.samples().size(), 5);
    h = in.read_header();
    check_header(h, 3600 + 2 * one, s.little(), "third");
    eq("end", in.has_trace(), 0);
}
// as for traces of variable length, also when the trailer has to be found behind them
extern "C" void sc_C07_unsigned()
{
    Shape s;
    s.format = 8;
    s.order = sv_param("order", 0, 3);
    int v = sv_param("variant", 0, 3);
    s.rev = v ? 2 : 1;
    s.fixed = 0;
    s.samp = 5;
    bool dflt = sv_param("default map", 0, 2), end = v == 2;
    int const n[2] = { 0x8003, 0xfffe };
    if (end) {
        s.stanza = -1;
        s.ntr = 2;
    }
    uint64_t at1 = 3600 + 240 + n[0], at2 = at1 + 240 + n[1];
    declare(F, s, at2 + (end ? 3200 : 0));
    sv::pinN(F, 3600 + 114, 2, n[0], s.little());
    sv::pinN(F, at1 + 114, 2, n[1], s.little());
    static char const stanza[] = "((SEG: EndText))";
    if (end)
        for (int i = 0; i < 16; ++i)
            sv_pin(F, at2 + i, stanza[i]);
    ISEGY in = dflt ? ISEGY(F) : ISEGY(F, small(0));
    eq("stanzas", in.trailer_stanzas().size(), end);
    eq("first", in.has_trace(), 1);
    auto h = in.read_header();
    check_header(h, 3600, s.little(), "first");
    eq("first samples", ival(h.get("SAMP_NUM"), "SAMP_NUM"), n[0]);
    eq("second", in.has_trace(), 1);
    auto t = in.read_trace();
    check_header(t.header(), at1, s.little(), "second");
    eq("samples", t.samples().size(), n[1]);
    for (int i : { 0, 1, 0x7fff, 0x8000, 0xfffd })
        eqd(lbl("sample", i), t.samples()[i], static_cast<double>(static_cast<int8_t>(sv_filebyte(F, at1 + 240 + i))));
    eq("end", in.has_trace(), 0);
}
// without traces there is none to read
extern "C" void sc_C07_none()
{
    Shape s;
    s.order = sv_param("order", 0, 3);
    s.rev = sv_param("rev", 0, 3);
    s.exttext = sv_param("exttext", 0, 2);
    declare(F, s, 3600 + 3200 * s.exttext);
    ISEGY in(F);
    eq("no trace", in.has_trace(), 0);
}
// positions beyond 2 and 4 GiB
extern "C" void sc_C07_far()
{
    Shape s;
    static int const fm[] = { 8, 3, 5, 6 };
    s.format = fm[sv_param("format", 0, 4)];
    s.order = sv_param("order", 0, 3);
    s.rev = 2;
    int v = sv_param("variant", 0, 3);
    s.ext_samp = v == 0 ? 0x10000 : ((v == 1 ? 0x80000000u : 0xfffff000u) >> (s.bps() == 8 ? 3 : s.bps() >> 1)) + 3;
    if (v && s.bps() == 1)
        s.ext_samp = v == 1 ? 0x40000005 : 0x7fffff01;
    s.samp = 7;
    s.byte_off = sv_param("offset", 0, 3);
    if (s.byte_off) s.byte_off = s.byte_off == 1 ? 0x80000010ull : 0x500000011ull;
    uint64_t one = 240 + static_cast<uint64_t>(s.ext_samp) * s.bps();
    declare(F, s, first(s) + 5 * one);
    ISEGY in(F, small(0));
    for (int k = 0; k < 5; ++k) {
        eq(lbl("announced", k), in.has_trace(), 1);
        auto h = in.read_header();
        check_header(h, first(s) + k * one, s.little(), lbl("trace", k));
    }
    eq("end", in.has_trace(), 0);
}
// as many text headers, stanzas and additional headers as their counts allow
extern "C" void sc_C07_lots()
{
    Shape s;
    s.format = 3;
    s.order = sv_param("order", 0, 3);
    s.rev = 2;
    s.samp = 2;
    int what = sv_param("what", 0, 5);
    switch (what) {
    case 0: s.exttext = 127; break;
    case 1: s.exttext = 260; break;
    case 2: s.stanza = 130; break;
    case 3: s.stanza = 260; break;
    default: s.add = 260;
    }
    s.ntr = 2;
    uint64_t one = 240 * (1 + s.add) + 4, end = first(s) + 2 * one;
    declare(F, s, end + 3200 * s.stanza);
    HMap m = small(0);
    for (int i = 1; i <= s.add; ++i)
        m.push_back({ "H" + std::to_string(1000000 + i), { { 0, { lbl("FIRST", i), VT::int32_t } }, { 236, { lbl("LAST", i), VT::int32_t } } } });
    ISEGY in(F, m);
    eq("text headers", in.text_headers().size(), 1 + s.exttext);
    for (int k = 1; k <= s.exttext; k += 43)
        eq(lbl("text header character", k), static_cast<uint8_t>(in.text_headers()[k][7]), sv_filebyte(F, 3600 + 3200 * (k - 1) + 7));
    eq("stanzas", in.trailer_stanzas().size(), s.stanza);
    for (int k = 0; k < s.stanza; k += 43)
        eq(lbl("stanza character", k), static_cast<uint8_t>(in.trailer_stanzas()[k][7]), sv_filebyte(F, end + 3200 * k + 7));
    walk(in, s, { 2, 2 }, 2, s.add, "many");
}
static void stanza(uint64_t at)
{
    static char const text[] = "((SEG: EndText))";
    for (int i = 0; i < 16; ++i)
        sv_pin(F, at + i, text[i]);
}
// many traces
extern "C" void sc_C07_traces()
{
    Shape s;
    s.format = 3;
    s.samp = 1;
    s.rev = sv_param("rev", 0, 3);
    s.fixed = s.rev ? 1 : 0;
    int n = sv_param("many", 0, 2) ? 300 : 40, close = s.rev == 2 ? sv_param("closed", 0, 3) : 0;
    uint64_t end = 3600 + n * 242;
    if (close) { // the trailer begins where the announced number of traces ends
        s.fixed = close == 1;
        s.stanza = -1;
        s.ntr = n;
    }
    declare(F, s, end + (close ? 3200 : 0));
    if (close)
        stanza(end);
    if (close == 2)
        for (int k = 0; k < n; ++k)
            sv::pinN(F, 3600 + k * 242 + 114, 2, 1, false);
    ISEGY in(F, small(0));
    for (int k = 0; k < n; ++k) {
        eq("announced", in.has_trace(), 1);
        auto h = in.read_header();
        check_header(h, 3600 + k * 242, s.little(), lbl("trace", k));
    }
    eq("end", in.has_trace(), 0);
}
// counts around constants that are new in the source
extern "C" void sc_C07_near()
{
    Shape s;
    int what = sv_param("what", 0, 13);
    static int const hi[] = { 200000, 65535, 200000, 600, 300, 300, 300, 200000, 65535, 600, 600, 300, 300 };
    int n = sv::near(3, hi[what], what == 2 ? 4 : 1), ntr = 2;
    s.rev = 2;
    s.samp = 2;
    s.format = 3;
    std::vector<int> cnt;
    switch (what) {
    case 0: s.format = 8; s.ext_samp = n; break;
    case 1: s.rev = 0; s.format = 8; s.samp = n; break;
    case 2: s.format = 5; s.ext_samp = n; break;
    case 3: ntr = n; break;
    case 4: s.exttext = n; break;
    case 5: s.stanza = n; s.ntr = 2; break;
    case 6: s.add = n; break;
    case 7: if (n < 3600) return; s.byte_off = n; break;
    case 8: s.format = 8; s.fixed = 0; break;
    case 9: case 10: s.fixed = what == 9; s.stanza = -1; s.ntr = ntr = n; break;
    case 11: s.stanza = -1; s.ntr = 2; break;
    case 12: s.exttext = n; break;
    }
    int nst = s.stanza < 0 ? what == 11 ? n : 1 : s.stanza;
    int ns = s.ext_samp ? s.ext_samp : what == 8 ? n : s.samp;
    uint64_t one = 240 * (1 + s.add) + static_cast<uint64_t>(ns) * s.bps(), end = first(s) + ntr * one;
    declare(F, s, end + 3200 * nst);
    if (!s.fixed)
        for (int k = 0; k < ntr; ++k)
            sv::pinN(F, first(s) + k * one + 114, 2, ns, false);
    for (int k = 0; k < nst && s.stanza < 0; ++k)
        if (k == nst - 1)
            stanza(end + 3200 * k);
        else
            sv_pin(F, end + 3200 * k, 'x');
    if (what == 12) {
        sv::pin16(F, 3504, 0xffff);
        for (int k = 0; k < n - 1; ++k)
            sv_pin(F, 3600 + 3200 * k, 'x');
        stanza(3600 + 3200 * (n - 1));
    }
    HMap m = small(0);
    for (int i = 1; i <= s.add; ++i)
        m.push_back({ "H" + std::to_string(1000000 + i), { { 0, { lbl("FIRST", i), VT::int32_t } }, { 236, { lbl("LAST", i), VT::int32_t } } } });
    ISEGY in(F, m);
    eq("text headers", in.text_headers().size(), 1 + s.exttext);
    for (int k = 1; k <= s.exttext; ++k)
        eq(lbl("text header character", k), static_cast<uint8_t>(in.text_headers()[k][7]), sv_filebyte(F, 3600 + 3200 * (k - 1) + 7));
    eq("stanzas", in.trailer_stanzas().size(), nst);
    for (int k = 0; k < nst; ++k)
        eq(lbl("stanza character", k), static_cast<uint8_t>(in.trailer_stanzas()[k][7]), sv_filebyte(F, end + 3200 * k + 7));
    for (int k = 0; k < ntr; ++k) {
        uint64_t at = first(s) + k * one;
        eq(lbl("announced", k), in.has_trace(), 1);
        if (k == ntr - 1) {
            Trace t = in.read_trace();
            check_header(t.header(), at, false, lbl("trace", k));
            for (int i = 1; i <= s.add; ++i)
                eq(lbl("LAST", i), ival(t.header().get(lbl("LAST", i)), "LAST"), sv::sword(F, at + 240 * i + 236, 4, false));
            eq("samples", t.samples().size(), ns);
            for (int i : { 0, 1, ns / 2, ns - 2, ns - 1 }) {
                uint64_t o = at + 240 * (1 + s.add) + static_cast<uint64_t>(i) * s.bps();
                eqd(lbl("sample", i), t.samples()[i], s.format == 5 ? sv::f32(sv::be(F, o, 4)) : static_cast<double>(sv::sword(F, o, s.bps(), false)));
            }
        } else {
            auto h = in.read_header();
            check_header(h, at, false, lbl("trace", k));
        }
    }
    eq("end", in.has_trace(), 0);
}
