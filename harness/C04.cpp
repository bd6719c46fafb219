#include "segy.hpp"
// trace header values are written at their mapped offset in the mapped type, and nothing else
static Val input(std::string const& key, VT t)
{
    std::string n = "v." + key;
    char const* k = n.c_str();
    switch (t) {
    case VT::int8_t: return static_cast<int64_t>(static_cast<int8_t>(sv_u8(k)));
    case VT::uint8_t: return static_cast<int64_t>(sv_u8(k));
    case VT::int16_t: return static_cast<int64_t>(static_cast<int16_t>(sv_u16(k)));
    case VT::uint16_t: return static_cast<int64_t>(sv_u16(k));
    case VT::int24_t: return sv::sx(sv_u32(k) & 0xffffff, 3);
    case VT::uint24_t: return static_cast<int64_t>(sv_u32(k) & 0xffffff);
    case VT::int32_t: return static_cast<int64_t>(static_cast<int32_t>(sv_u32(k)));
    case VT::uint32_t: return static_cast<int64_t>(sv_u32(k));
    case VT::int64_t:
    case VT::uint64_t: return static_cast<int64_t>(sv_u64(k));
    case VT::ieee_single: return static_cast<double>(sv::f32(sv_u32(k)));
    default: return sv_f64(k);
    }
}
static uint64_t raw(Val const& v, VT t)
{
    if (auto p = std::get_if<int64_t>(&v))
        return *p;
    double d = std::get<double>(v);
    uint64_t r = 0;
    if (t == VT::ieee_single) {
        float f = d;
        uint32_t w;
        memcpy(&w, &f, 4);
        return w;
    }
    memcpy(&r, &d, 8);
    return r;
}
static void bytes(std::string const& what, uint64_t at, int n, uint64_t want, bool little)
{
    if (n < 8)
        want &= (1ull << 8 * n) - 1;
    eq(what, sv::word("out.sgy", at, n, little), want);
}
static BH bh(int order, int add)
{
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = 1;
    h.samp_per_tr = 2;
    h.format_code = 8;
    h.fixed_tr_length = 1;
    h.endianness = order == 0 ? 0 : order == 1 ? BIG : LITTLE;
    h.SEGY_rev_major_ver = add ? 2 : 0;
    h.max_num_add_tr_headers = add;
    return h;
}
extern "C" void sc_C04_types()
{
    VT t = static_cast<VT>(sv_param("type", 0, 13));
    if (t == VT::ibm)
        return;
    int order = sv_param("order", 0, 3);
    int p = sv_param("place", 0, 3);
    int n = vt_size(t);
    uint32_t off = p == 0 ? 0 : p == 1 ? 101 : 240 - n;
    HMap m { { "SEG00000", { { off, { "VALUE", t } } } } };
    Val v = input("VALUE", t), v2 = input("SECOND", t);
    {
        OSEGYRev0 out("out.sgy", std::string(3200, ' '), bh(order, 0), m);
        Trace tr({ { "VALUE", v }, { "OTHER", int64_t { 77 } } }, { 1, 2 });
        out.write_trace(tr);
        Trace tr2({ { "VALUE", v2 } }, { 1, 2 });
        out.write_trace(tr2);
        Trace tr3({ { "OTHER", v } }, { 1, 2 });
        out.write_trace(tr3);
    }
    bytes("first trace", 3600 + off, n, raw(v, t), order == 2);
    bytes("second trace", 3600 + 242 + off, n, raw(v2, t), order == 2);
    for (int k = 0; k < 240; ++k) {
        if (k < (int)off || k >= (int)off + n)
            eq(lbl("unmapped byte", k), sv_filebyte("out.sgy", 3600 + k), 0);
        eq(lbl("absent value, byte", k), sv_filebyte("out.sgy", 3600 + 484 + k), 0);
    }
    eq("size", sv_filesize("out.sgy"), 3600 + 3 * 242);
}
// all types, main and additional headers, write then read
extern "C" void sc_C04_roundtrip()
{
    int order = sv_param("order", 0, 3);
    int add = sv_param("add", 0, 4);
    HMap m;
    std::unordered_map<std::string, Val> h;
    for (int k = 0; k <= add; ++k) {
        Map1 a;
        uint32_t off = 2 + 3 * k;
        for (int i = 0; i < 13; ++i) {
            VT t = static_cast<VT>(i);
            if (t == VT::ibm)
                continue;
            std::string key = lbl(lbl("H", k), i);
            a[off] = { key, t };
            h[key] = input(key, t);
            off += vt_size(t) + (i & 1);
        }
        m.emplace_back("HEADER0" + std::to_string(k), a);
    }
    {
        OSEGYRev2 out("out.sgy", { std::string(3200, ' ') }, bh(order, add), {}, m);
        Trace tr(h, { 1, 2 });
        out.write_trace(tr);
        out.write_trace(tr);
    }
    eq("size", sv_filesize("out.sgy"), 3600 + 2 * (240 * (1 + add) + 2));
    ISEGY in("out.sgy", m);
    for (int n = 0; n < 2; ++n) {
        Trace t = in.read_trace();
        eq("number of values", t.header().keys().size(), h.size());
        for (int k = 0; k <= add; ++k)
            for (auto& e : m[k].second) {
                VT vt = e.second.second;
                std::string key = e.second.first;
                if (vt_float(vt))
                    eqd(key, dval(t.header().get(key), key), std::get<double>(h[key]));
                else
                    eq(key, ival(t.header().get(key), key), std::get<int64_t>(h[key]));
            }
    }
    eq("end", in.has_trace(), 0);
}
// a value held as the other number type is converted
extern "C" void sc_C04_converted()
{
    int order = sv_param("order", 0, 3);
    bool l = order == 2;
    HMap m { { "SEG00000", { { 4, { "I", VT::int32_t } }, { 10, { "D", VT::ieee_double } }, { 20, { "S", VT::int16_t } } } } };
    {
        OSEGYRev0 out("out.sgy", std::string(3200, ' '), bh(order, 0), m);
        Trace tr({ { "I", static_cast<double>(static_cast<int32_t>(sv_u32("i"))) }, { "D", static_cast<int64_t>(static_cast<int32_t>(sv_u32("d"))) },
                     { "S", static_cast<double>(static_cast<int16_t>(sv_u16("s"))) } },
            { 1, 2 });
        out.write_trace(tr);
    }
    bytes("I", 3604, 4, sv_u32("i"), l);
    bytes("S", 3620, 2, sv_u16("s"), l);
    double d = static_cast<int32_t>(sv_u32("d"));
    uint64_t w;
    memcpy(&w, &d, 8);
    bytes("D", 3610, 8, w, l);
}
// the standard map
extern "C" void sc_C04_standard()
{
    int order = sv_param("order", 0, 3);
    int rev = sv_param("rev", 0, 3);
    std::unordered_map<std::string, Val> h;
    for (auto& e : CommonSEGY::default_trace_header[0].second)
        h[e.second.first] = input(e.second.first, e.second.second);
    h["SAMP_NUM"] = int64_t { 2 };
    {
        Trace tr(h, { 1, 2 });
        if (rev == 0) {
            OSEGYRev0 out("out.sgy", std::string(3200, ' '), bh(order, 0));
            out.write_trace(tr);
        } else if (rev == 1) {
            OSEGYRev1 out("out.sgy", { std::string(3200, ' ') }, bh(order, 0));
            out.write_trace(tr);
        } else {
            OSEGYRev2 out("out.sgy", { std::string(3200, ' ') }, bh(order, 0));
            out.write_trace(tr);
        }
    }
    for (auto& e : CommonSEGY::default_trace_header[0].second)
        bytes(e.second.first, 3600 + e.first, vt_size(e.second.second), raw(h[e.second.first], e.second.second), order == 2);
}
// ibm header values: every exponent, both signs, every normalised fraction
extern "C" void sc_C04_ibm()
{
    int order = sv_param("order", 0, 3);
    int lead = sv_param("lead", 0, 4);
    bool l = order == 2;
    Map1 a;
    for (int i = 0; i < 60; ++i)
        a[4 * i] = { lbl("V", i), VT::ibm };
    std::vector<uint32_t> w;
    for (int i = 0; i < 300; ++i) {
        uint32_t top = 1u << (20 + lead);
        w.push_back(static_cast<uint32_t>(i & 255) << 24 | top | (sv_u32(lbl("f", i).c_str()) & (top - 1)));
    }
    {
        OSEGYRev0 out("out.sgy", std::string(3200, ' '), bh(order, 0), HMap { { "SEG00000", a } });
        for (int k = 0; k < 5; ++k) {
            std::unordered_map<std::string, Val> h;
            for (int i = 0; i < 60; ++i)
                h[lbl("V", i)] = ibm_value(w[60 * k + i]);
            Trace tr(h, { 1, 2 });
            out.write_trace(tr);
        }
    }
    for (int i = 0; i < 300; ++i)
        bytes(lbl("ibm word with leading byte", i & 255), 3600 + 242 * (i / 60) + 4 * (i % 60), 4, w[i], l);
}
// additional headers: every type at every place, nothing else written, values held as either number kind
extern "C" void sc_C04_additional()
{
    VT t = static_cast<VT>(sv_param("type", 0, 13));
    int order = sv_param("order", 0, 3), conv = sv_param("other kind", 0, 2), p = conv ? 1 : sv_param("place", 0, 3), which = sv_param("header", 1, 3);
    int n = vt_size(t);
    bool l = order == 2;
    uint32_t off = p == 0 ? 0 : p == 1 ? 101 : 240 - n;
    HMap m { { "SEG00000", { { 8, { "FFID", VT::int32_t } } } }, { "HEADER01", {} }, { "HEADER02", {} } };
    m[which].second[off] = { "VALUE", t };
    Val v = input("VALUE", t);
    uint64_t want = raw(v, t);
    if (t == VT::ibm) {
        want = 0xc2800000u | (sv_u32("f") & 0x7fffff);
        v = ibm_value(want);
    }
    if (conv) { // whole numbers, held as a double for integer types and as an integer for floating-point types
        int16_t w = sv_u16("w") & 0x7f;
        if (vt_float(t)) {
            w = 77;
            v = int64_t { w };
            want = t == VT::ibm ? 0x424d0000u : t == VT::ieee_single ? 0x429a0000u : 0x4053400000000000ull;
        } else {
            v = static_cast<double>(w);
            want = w;
        }
    }
    {
        OSEGYRev2 out("out.sgy", { std::string(3200, ' ') }, bh(order, 2), {}, m);
        Trace a({ { "VALUE", v }, { "FFID", int64_t { 5 } } }, { 1, 2 });
        out.write_trace(a);
        Trace b({ { "OTHER", v } }, { 1, 2 });
        out.write_trace(b);
    }
    uint64_t at = 3600 + 240 * which + off;
    bytes("value", at, n, want, l);
    bytes("FFID", 3608, 4, 5, l);
    unsigned before = 0, after = 0, absent = 0;
    for (uint64_t k = 3600; k < 3600 + 720; ++k) {
        if (k < at && (k < 3608 || k > 3611))
            before |= sv_filebyte("out.sgy", k);
        if (k >= at + n)
            after |= sv_filebyte("out.sgy", k);
        absent |= sv_filebyte("out.sgy", k + 722);
    }
    eq("unmapped bytes before", before, 0);
    eq("unmapped bytes after", after, 0);
    eq("bytes of absent values", absent, 0);
    eq("size", sv_filesize("out.sgy"), 3600 + 2 * 722);
}
// in the main header: values held as the other number kind, for every type
extern "C" void sc_C04_kind()
{
    VT t = static_cast<VT>(sv_param("type", 0, 13));
    int order = sv_param("order", 0, 3), n = vt_size(t);
    int mag = sv_param("magnitude", 0, 2);
    bool neg = sv_param("negative", 0, 2);
    if (neg && !vt_float(t) && !vt_signed(t))
        return;
    HMap m { { "SEG00000", { { 33, { "VALUE", t } } } } };
    Val v;
    uint64_t want;
    if (vt_float(t)) {
        v = int64_t { neg ? -77 : 77 };
        want = t == VT::ibm ? 0x424d0000u : t == VT::ieee_single ? 0x429a0000u : 0x4053400000000000ull;
        if (neg)
            want |= 1ull << (8 * n - 1);
    } else if (mag) { // all the type and a double hold
        uint64_t w = n == 8 ? sv_u64("w") >> 1 & ~0x3ffull : sv_u64("w") & (n == 4 ? 0xffffffff : (1u << 8 * n) - 1);
        if (vt_signed(t)) {
            if (n == 8)
                w &= 0x3fffffffffffffff;
            else
                w &= (1u << (8 * n - 1)) - 1;
            if (neg)
                w = n == 8 ? w | 0xc000000000000000 : ~w;
        }
        v = static_cast<double>(static_cast<int64_t>(w));
        want = w;
    } else {
        int w = sv_u8("w") & 0x7f;
        if (neg)
            w = -1 - w;
        v = static_cast<double>(w);
        want = static_cast<int64_t>(w);
    }
    {
        OSEGYRev0 out("out.sgy", std::string(3200, ' '), bh(order, 0), m);
        Trace a({ { "VALUE", v } }, { 1, 2 });
        out.write_trace(a);
    }
    bytes("value", 3633, n, want, order == 2);
    unsigned other = 0;
    for (int k = 0; k < 240; ++k)
        if (k < 33 || k >= 33 + n)
            other |= sv_filebyte("out.sgy", 3600 + k);
    eq("unmapped bytes", other, 0);
}
