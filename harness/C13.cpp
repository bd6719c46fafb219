#include "segy.hpp"
#include <algorithm>
// the sorted reader delivers each trace once, by ascending key and in file order within a key
static char const* F = "in.sgy";
static int const V[4] = { 2, -1, 70000, 0 };
static HMap map_of(int add)
{
    HMap m { { "SEG00000", { { 8, { "FFID", VT::int32_t } }, { 20, { "KEY", VT::int32_t } }, { 114, { "SAMP_NUM", VT::int16_t } } } } };
    for (int i = 1; i <= add; ++i)
        m.push_back({ "HEADER0" + std::to_string(i), { { 0, { lbl("X", i), VT::int32_t } } } });
    return m;
}
struct Lay {
    std::vector<uint64_t> at;
    std::vector<int> n;
    std::vector<int> key;
    Shape s;
};
static Lay lay(int ntr, bool fixed, int order, int add)
{
    static int const cnt[4] = { 2, 1, 0, 3 };
    Lay l;
    l.s.format = 3;
    l.s.order = order;
    l.s.rev = add ? 2 : fixed ? 0 : 1;
    l.s.fixed = fixed;
    l.s.samp = 2;
    l.s.add = add;
    uint64_t at = 3600;
    for (int k = 0; k < ntr; ++k) {
        l.at.push_back(at);
        l.n.push_back(fixed ? 2 : cnt[k]);
        at += 240 * (1 + add) + 2 * l.n[k];
    }
    declare(F, l.s, at);
    for (int k = 0; k < ntr; ++k) {
        l.key.push_back(V[sv_param(lbl("key", k).c_str(), 0, k == 3 ? 2 : 3)]);
        sv::pinN(F, l.at[k] + 20, 4, static_cast<uint32_t>(l.key[k]), l.s.little());
        if (!fixed)
            sv::pinN(F, l.at[k] + 114, 2, l.n[k], l.s.little());
    }
    return l;
}
static void is_trace(Trace& t, Lay const& l, int k, std::string const& who)
{
    bool le = l.s.little();
    eq(who + " FFID", ival(t.header().get("FFID"), "FFID"), sv::sword(F, l.at[k] + 8, 4, le));
    eq(who + " KEY", ival(t.header().get("KEY"), "KEY"), l.key[k]);
    for (int i = 1; i <= l.s.add; ++i)
        eq(who + lbl(" X", i), ival(t.header().get(lbl("X", i)), "X"), sv::sword(F, l.at[k] + 240 * i, 4, le));
    eq(who + " samples", t.samples().size(), l.n[k]);
    for (int i = 0; i < l.n[k] && i < (int)t.samples().size(); ++i)
        eqd(who + lbl(" sample", i), t.samples()[i], static_cast<double>(sv::sword(F, l.at[k] + 240 * (1 + l.s.add) + 2 * i, 2, le)));
}
static void is_header(Trace::Header& h, Lay const& l, int k, std::string const& who)
{
    eq(who + " FFID", ival(h.get("FFID"), "FFID"), sv::sword(F, l.at[k] + 8, 4, l.s.little()));
    eq(who + " KEY", ival(h.get("KEY"), "KEY"), l.key[k]);
}
static std::vector<int> sorted(Lay const& l)
{
    std::vector<int> o;
    for (int v : { -1, 0, 2, 70000 })
        for (size_t k = 0; k < l.at.size(); ++k)
            if (l.key[k] == v)
                o.push_back(k);
    return o;
}
static void whole(ISEGYSorted1D& in, Lay const& l, unsigned how)
{
    auto o = sorted(l);
    for (size_t i = 0; i < o.size(); ++i) {
        std::string who = lbl("delivered", i);
        eq(who, in.has_trace(), 1);
        if (how >> i & 1) {
            Trace t = in.read_trace();
            is_trace(t, l, o[i], who);
        } else {
            auto h = in.read_header();
            is_header(h, l, o[i], who);
        }
    }
    eq("all delivered", in.has_trace(), 0);
}
extern "C" void sc_C13_order()
{
    Lay l = lay(4, sv_param("fixed", 0, 2), 0, 0);
    ISEGYSorted1D in(F, "KEY", map_of(0));
    whole(in, l, sv_param("how", 0, 2) ? 0b1010 : 0b1101);
}
extern "C" void sc_C13_shapes()
{
    int add = sv_param("add", 0, 3);
    Lay l = lay(3, sv_param("fixed", 0, 2), sv_param("order", 0, 3), add);
    ISEGYSorted1D in(F, "KEY", map_of(add));
    whole(in, l, 0b101);
}
extern "C" void sc_C13_query()
{
    Lay l = lay(4, sv_param("fixed", 0, 2), 0, 0);
    ISEGYSorted1D in(F, "KEY", map_of(0));
    auto o = sorted(l);
    auto keys = in.get_keys();
    std::vector<int> want;
    for (int k : o)
        if (want.empty() || want.back() != l.key[k])
            want.push_back(l.key[k]);
    eq("number of keys", keys.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
        eq(lbl("key", i), ival(keys[i], "key"), want[i]);
    for (int v : { -1, 0, 2, 70000, 5 }) {
        std::vector<int> w;
        for (int k : o)
            if (l.key[k] == v)
                w.push_back(k);
        auto h = in.get_headers(int64_t { v });
        auto t = in.get_traces(int64_t { v });
        eq(lbl("headers of key", v), h.size(), w.size());
        eq(lbl("traces of key", v), t.size(), w.size());
        for (size_t i = 0; i < w.size(); ++i) {
            is_header(h[i], l, w[i], lbl(lbl("header", i) + " of key", v));
            is_trace(t[i], l, w[i], lbl(lbl("trace", i) + " of key", v));
        }
        for (uint64_t lim : { 0, 1, 2, 3 }) {
            eq(lbl("limited headers", lim), in.get_headers(int64_t { v }, lim).size(), std::min<uint64_t>(lim, w.size()));
            auto tl = in.get_traces(int64_t { v }, lim);
            eq(lbl("limited traces", lim), tl.size(), std::min<uint64_t>(lim, w.size()));
            for (size_t i = 0; i < tl.size(); ++i)
                is_trace(tl[i], l, w[i], lbl("limited trace", i));
        }
    }
    // queries do not disturb the traversal
    whole(in, l, 0b0111);
}
// queries between reads, floating-point keys, absent key header, no traces
extern "C" void sc_C13_interleaved()
{
    Lay l = lay(3, false, 0, 0);
    ISEGYSorted1D in(F, "KEY", map_of(0));
    auto o = sorted(l);
    for (size_t i = 0; i < o.size(); ++i) {
        Trace t = in.read_trace();
        is_trace(t, l, o[i], lbl("delivered", i));
        in.get_traces(int64_t { l.key[o[0]] });
        eq("keys stay", in.get_keys().empty(), 0);
        in.get_headers(int64_t { l.key[o[2]] }, 1);
    }
    eq("all delivered", in.has_trace(), 0);
}
extern "C" void sc_C13_double()
{
    static double const D[4] = { -2.5, 0.125, 0.125 + 0x1p-50, 1e10 };
    Shape s;
    s.format = 8;
    s.samp = 1;
    declare(F, s, 3600 + 3 * 241);
    int k[3];
    for (int i = 0; i < 3; ++i) {
        k[i] = sv_param(lbl("key", i).c_str(), 0, 4);
        uint64_t w;
        memcpy(&w, &D[k[i]], 8);
        sv::pin64(F, 3600 + 241 * i + 40, w);
    }
    ISEGYSorted1D in(F, "KEY", HMap { { "SEG00000", { { 8, { "FFID", VT::int32_t } }, { 40, { "KEY", VT::ieee_double } } } } });
    for (int v = 0; v < 4; ++v) {
        size_t n = (k[0] == v) + (k[1] == v) + (k[2] == v);
        eq("headers of the key", in.get_headers(D[v]).size(), n);
        eq("traces of the key", in.get_traces(D[v]).size(), n);
    }
    for (int v = 0; v < 4; ++v)
        for (int i = 0; i < 3; ++i)
            if (k[i] == v) {
                Trace t = in.read_trace();
                eq("FFID", ival(t.header().get("FFID"), "FFID"), sv::sword(F, 3600 + 241 * i + 8, 4, false));
                eqd("KEY", dval(t.header().get("KEY"), "KEY"), D[v]);
            }
    eq("all delivered", in.has_trace(), 0);
}
// keys that narrower or other number types would confuse
extern "C" void sc_C13_wide()
{
    struct T {
        VT t;
        int bytes;
        int64_t v[5];
    };
    static T const ts[] = {
        { VT::int64_t, 8, { INT64_MIN, -9007199254740993, -1, 9007199254740992, 9007199254740993 } },
        { VT::int64_t, 8, { 1, 32769, 2147483649, 4294967297, INT64_MAX } },
        { VT::uint32_t, 4, { 0, 1, 0x7fffffff, 0x80000000, 0xffffffff } },
        { VT::uint16_t, 2, { 0, 1, 0x7fff, 0x8000, 0xffff } },
        { VT::int16_t, 2, { -32768, -1, 0, 1, 32767 } },
        { VT::uint8_t, 1, { 0, 1, 127, 128, 255 } },
        { VT::int24_t, 3, { -8388608, -1, 0, 1, 8388607 } },
    };
    T const& T0 = ts[sv_param("type", 0, 7)];
    int rot = sv_param("rotated", 0, 5), step = sv_param("step", 1, 5);
    bool in2nd = sv_param("additional", 0, 2);
    Shape s;
    s.format = 8;
    s.samp = 1;
    s.rev = 2;
    s.add = in2nd;
    int one = 241 + 240 * in2nd;
    declare(F, s, 3600 + 6 * one);
    int k[6];
    for (int i = 0; i < 6; ++i) {
        k[i] = (rot + i * step) % 5;
        sv::pinN(F, 3600 + one * i + 40 + 240 * in2nd, T0.bytes, T0.v[k[i]], false);
    }
    HMap m { { "SEG00000", { { 8, { "FFID", VT::int32_t } } } } };
    if (in2nd)
        m.push_back({ "HEADER01", {} });
    m.back().second[40] = { "KEY", T0.t };
    ISEGYSorted1D in(F, "KEY", m);
    auto keys = in.get_keys();
    eq("keys", keys.size(), 5);
    for (int v = 0; v < 5 && keys.size() == 5; ++v) {
        eq(lbl("key", v), ival(keys[v], "key"), T0.v[v]);
        auto h = in.get_headers(T0.v[v]);
        eq("headers of the key", h.size(), v == rot ? 2 : 1);
        // a limit that nothing reaches is none
        for (uint64_t lim : { uint64_t { 5 }, uint64_t { 256 }, uint64_t { 65536 }, uint64_t { 1 } << 32, UINT64_MAX }) {
            eq(lbl("headers up to", lim), in.get_headers(T0.v[v], lim).size(), v == rot ? 2 : 1);
            eq(lbl("traces up to", lim), in.get_traces(T0.v[v], lim).size(), v == rot ? 2 : 1);
        }
    }
    for (int v = 0; v < 5; ++v)
        for (int i = 0; i < 6; ++i)
            if (k[i] == v) {
                auto h = in.read_header();
                eq("FFID", ival(h.get("FFID"), "FFID"), sv::sword(F, 3600 + one * i + 8, 4, false));
                eq("KEY", ival(h.get("KEY"), "KEY"), T0.v[v]);
            }
    eq("all delivered", in.has_trace(), 0);
}
extern "C" void sc_C13_absent()
{
    int n = sv_param("traces", 0, 3);
    Shape s;
    s.format = 8;
    s.samp = 1;
    declare(F, s, 3600 + n * 241);
    bool refused = false;
    try {
        ISEGYSorted1D in(F, "NOSUCH");
        eq("no trace", in.has_trace(), 0);
        eq("no key", in.get_keys().size(), 0);
        eq("no trace of a key", in.get_traces(int64_t { 1 }).size(), 0);
        eq("no header of a key", in.get_headers(int64_t { 1 }).size(), 0);
    } catch (Exception const&) {
        refused = true;
    }
    eq("refused", refused, n > 0);
}
// the binary header given by the caller governs the sorted reader as well
extern "C" void sc_C13_override()
{
    Shape s;
    s.format = 5;
    s.samp = 9;
    declare(F, s, 3600 + 2 * 242);
    sv::pin32(F, 3600 + 20, 5);
    sv::pin32(F, 3600 + 242 + 20, 4);
    BH h;
    memset(&h, 0, sizeof h);
    h.samp_per_tr = 2;
    h.format_code = 8;
    h.fixed_tr_length = 1;
    ISEGYSorted1D in(F, "KEY", h, map_of(0));
    for (int k : { 1, 0 }) {
        Trace t = in.read_trace();
        eq("FFID", ival(t.header().get("FFID"), "FFID"), sv::sword(F, 3600 + 242 * k + 8, 4, false));
        eq("samples", t.samples().size(), 2);
    }
    eq("all", in.has_trace(), 0);
}
// numbers of traces and limits around constants that are new in the source
extern "C" void sc_C13_near()
{
    int n = sv::near(3, 300), kind = sv_param("keys", 0, 3); // all different and descending, all the same, two
    Shape s;
    s.format = 8;
    s.samp = 1;
    declare(F, s, 3600 + n * 241);
    std::vector<std::pair<int, int>> want;
    for (int i = 0; i < n; ++i) {
        int k = kind == 0 ? n - i : kind == 1 ? 7 : i % 2;
        sv::pin32(F, 3600 + 241 * i + 20, k);
        want.push_back({ k, i });
    }
    std::sort(want.begin(), want.end());
    ISEGYSorted1D in(F, "KEY", map_of(0));
    eq("keys", in.get_keys().size(), kind == 0 ? n : kind);
    if (kind == 1) {
        eq("all of a key", in.get_headers(int64_t { 7 }).size(), n);
        eq("limited", in.get_headers(int64_t { 7 }, n - 1).size(), n - 1);
    }
    for (auto& w : want) {
        eq("announced", in.has_trace(), 1);
        auto h = in.read_header();
        eq("KEY", ival(h.get("KEY"), "KEY"), w.first);
        eq("FFID", ival(h.get("FFID"), "FFID"), sv::sword(F, 3600 + 241 * w.second + 8, 4, false));
    }
    eq("all delivered", in.has_trace(), 0);
}
