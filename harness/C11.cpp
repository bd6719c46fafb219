#include "segy.hpp"
// a header map is accepted exactly when every value lies in the 240 bytes, no two overlap, and names and number fit
static char const* F = "out.sgy";
static BH bh(int rev, int add)
{
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = 1;
    h.samp_per_tr = 2;
    h.format_code = 8;
    h.fixed_tr_length = 1;
    h.SEGY_rev_major_ver = rev;
    h.max_num_add_tr_headers = add;
    return h;
}
static bool accepted(int who, HMap const& m, int rev = 2, int add = 0)
{
    try {
        switch (who) {
        case 0: { OSEGYRev0 o(F, std::string(3200, ' '), bh(0, 0), m); break; }
        case 1: { OSEGYRev1 o(F, { std::string(3200, ' ') }, bh(1, 0), m); break; }
        case 2: { OSEGYRev2 o(F, { std::string(3200, ' ') }, bh(rev, add), {}, m); break; }
        case 3: {
            Shape s;
            declare("in.sgy", s, 3600);
            ISEGY i("in.sgy", m);
            break;
        }
        case 4: {
            Shape s;
            declare("in.sgy", s, 3600);
            ISEGYSorted1D i("in.sgy", "A", m);
            break;
        }
        default: {
            Shape s;
            declare("in.sgy", s, 3600);
            ISEGY i("in.sgy", bh(rev, add), m);
        }
        }
        return true;
    } catch (Exception const&) {
        return false;
    }
}
static HMap with(Map1 m, int at)
{
    HMap r;
    for (int i = 0; i < at; ++i)
        r.push_back({ "OTHER00" + std::to_string(i), { { 236, { lbl("O", i), VT::int32_t } } } });
    r.push_back({ "TESTED00", m });
    return r;
}
extern "C" void sc_C11_bounds()
{
    int who = sv_param("who", 0, 5);
    VT t = static_cast<VT>(sv_param("type", 0, 13));
    int n = vt_size(t);
    for (uint32_t off : { 0u, 1u, 120u, 231u, 232u, 233u, 235u, 236u, 237u, 238u, 239u, 240u, 241u, 1000u, 0x7fffffffu, 0x80000000u, 0xfffffff0u, 0xffffffffu })
        for (int at = 0; at < 2; ++at) {
            eq(lbl("alone at offset", off), accepted(who, with({ { off, { "A", t } } }, at)), uint64_t(off) + n <= 240);
            if (off > 0)
                eq(lbl("second at offset", off), accepted(who, with({ { 0, { "B", VT::int8_t } }, { off, { "A", t } } }, at)), uint64_t(off) + n <= 240);
        }
}
extern "C" void sc_C11_overlap()
{
    int who = sv_param("who", 0, 4);
    VT t = static_cast<VT>(sv_param("type", 0, 13));
    int n = vt_size(t);
    for (int k = 0; k < 13; ++k) {
        VT t2 = static_cast<VT>(k);
        for (int gap = 1; gap <= 9; ++gap)
            eq(lbl(lbl("types", k) + " distance", gap), accepted(who, with({ { 20, { "A", t } }, { uint32_t(20 + gap), { "B", t2 } } }, k & 1)), gap >= n);
        // the width that counts is that of the preceding value, also for the third one
        for (int gap : { n - 1, n })
            if (gap > 0)
                eq(lbl(lbl("third value, types", k) + " distance", gap),
                    accepted(who, with({ { 4, { "C", t2 } }, { 20, { "A", t } }, { uint32_t(20 + gap), { "B", VT::int8_t } } }, 0)), gap >= n);
    }
}
extern "C" void sc_C11_names()
{
    int who = sv_param("who", 0, 6);
    int at = sv_param("at", 0, 3);
    for (int n : { 0, 1, 7, 8, 9, 16 }) {
        HMap m;
        for (int i = 0; i < 3; ++i)
            m.push_back({ std::string(i == at ? n : 8, 'N'), { { 0, { lbl("O", i), VT::int32_t } } } });
        eq(lbl("name of length", n), accepted(who, m), n == 8);
    }
}
// revision 2: the map describes as many additional headers as announced
extern "C" void sc_C11_count()
{
    int who = sv_param("who", 0, 2) ? 2 : 5;
    int add = sv_param("announced", 1, 5), n = sv_param("described", 0, 5);
    HMap m;
    for (int i = 0; i <= n; ++i)
        m.push_back({ "HEADER0" + std::to_string(i), { { 0, { lbl("O", i), VT::int32_t } } } });
    eq("accepted", accepted(who, m, 2, add), n == add);
}
// dense maps, and a bad value far into one
static void dense(int who, int n, int w, int bad, int at)
{
    static VT const ty[] = { VT::int8_t, VT::uint16_t, VT::uint24_t, VT::int32_t };
    Map1 m;
    for (int i = 0; i < n; ++i)
        m[i * w] = { lbl("V", i), i == bad ? VT::int64_t : ty[w - 1] };
    eq(lbl("values", n), accepted(who, with(m, at)), bad < 0);
}
extern "C" void sc_C11_dense()
{
    int who = sv_param("who", 0, 6), w = sv_param("width", 1, 5), n = 240 / w;
    dense(who, n, w, -1, 0);
    for (int bad : { 0, 1, n / 3, n - 3, n - 2, n - 1 })
        dense(who, n, w, bad, who < 3 ? 0 : bad & 1);
}
extern "C" void sc_C11_headers()
{
    int who = sv_param("who", 0, 2) ? 2 : 5, add = sv_param("many", 0, 2) ? 300 : 20, fault = sv_param("fault", 0, 5);
    for (int where : { 1, add / 2, add - 1, add }) {
        HMap m;
        for (int i = 0; i <= add; ++i)
            m.push_back({ "H" + std::to_string(1000000 + i), { { 0, { lbl("O", i), VT::int32_t } }, { 236, { lbl("P", i), VT::int32_t } } } });
        switch (fault) {
        case 1: m[where].first += 'X'; break;
        case 2: m[where].second[2] = { "BAD", VT::int16_t }; break;
        case 3: m[where].second[239] = { "BAD", VT::int16_t }; break;
        case 4: m.erase(m.begin() + where); break;
        }
        eq(lbl("fault in header", where), accepted(who, m, 2, add), fault == 0);
    }
}
extern "C" void sc_C11_near()
{
    int what = sv_param("what", 0, 3), n = sv::near(3, what == 0 ? 240 : what == 1 ? 232 : 300), who = sv_param("who", 0, 4);
    if (what == 0) { // number of values
        dense(who, n, 1, -1, 0);
        dense(who, n, 1, n - 2, 0);
        if (n <= 120) {
            dense(who, n, 2, -1, 0);
            dense(who, n, 2, 0, 0);
            dense(who, n, 2, n - 2, 0);
        }
    } else if (what == 1) { // offset
        for (int w = 1; w < 9; ++w)
            eq(lbl("distance", w), accepted(who, with({ { uint32_t(n), { "A", VT::int64_t } }, { uint32_t(n + w), { "B", VT::int8_t } } }, 0)), w == 8 && n + w < 240);
    } else if (who > 1) { // number of headers
        HMap m;
        for (int i = 0; i <= n; ++i)
            m.push_back({ "H" + std::to_string(1000000 + i), { { 0, { lbl("O", i), VT::int32_t } } } });
        eq("good", accepted(who == 2 ? 2 : 5, m, 2, n), 1);
        m[n].second[3] = { "BAD", VT::int8_t };
        eq("overlap", accepted(who == 2 ? 2 : 5, m, 2, n), 0);
        m[n].second.erase(3);
        m[n].first = "SHORT";
        eq("name", accepted(who == 2 ? 2 : 5, m, 2, n), 0);
    }
}
