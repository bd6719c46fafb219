#include "segy.hpp"
// a trace whose samples do not agree with the declared number is refused; what is accepted is written in full
static char const* F = "out.sgy";
static BH bh(int rev, int n, int fixed, int fmt)
{
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = 1;
    h.samp_per_tr = n;
    h.format_code = fmt;
    h.fixed_tr_length = fixed;
    h.SEGY_rev_major_ver = rev;
    return h;
}
static OSEGY* make(int rev, BH const& h)
{
    if (rev == 0)
        return new OSEGYRev0(F, std::string(3200, ' '), h);
    if (rev == 1)
        return new OSEGYRev1(F, { std::string(3200, ' ') }, h);
    return new OSEGYRev2(F, { std::string(3200, ' ') }, h);
}
static int const FMT[] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
extern "C" void sc_C12_fixed()
{
    int rev = sv_param("rev", 0, 3), f = FMT[sv_param("format", 0, 13)];
    Shape s;
    s.format = f;
    for (int declared : { 0, 1, 3, 33000 })
        for (int given : { 0, 1, 2, 3, 4, 8, 33000 }) {
            if (declared != given && (declared > 100 || given > 100))
                continue;
            if (given > 100 && f != 8 && f != 3)
                continue;
            bool refused = false;
            {
                std::unique_ptr<OSEGY> o(make(rev, bh(rev, declared, 1, f)));
                try {
                    Trace t({ { "SAMP_NUM", int64_t { given } } }, std::vector<double>(given, 1));
                    o->write_trace(t);
                } catch (std::exception const&) {
                    refused = true;
                }
            }
            eq(lbl(lbl("declared", declared) + " given", given) + " refused", refused, declared != given);
            eq("size", sv_filesize(F), refused ? 3600 : 3600 + 240 + given * s.bps());
        }
}
extern "C" void sc_C12_variable()
{
    int rev = sv_param("rev", 1, 3), f = FMT[sv_param("format", 0, 13)];
    Shape s;
    s.format = f;
    for (int first : { 0, 2, 5 })
        for (int said : { 0, 1, 3 })
            for (int given : { 0, 1, 2, 3, 4 }) {
                bool refused = false;
                {
                    std::unique_ptr<OSEGY> o(make(rev, bh(rev, 7, 0, f)));
                    Trace a({ { "SAMP_NUM", int64_t { first } } }, std::vector<double>(first, 1));
                    o->write_trace(a);
                    try {
                        Trace t({ { "SAMP_NUM", int64_t { said } } }, std::vector<double>(given, 1));
                        o->write_trace(t);
                    } catch (std::exception const&) {
                        refused = true;
                    }
                }
                eq(lbl(lbl("said", said) + " given", given) + " refused", refused, said != given);
                eq("size", sv_filesize(F), refused ? 3600 + 240 + first * s.bps() : 3600 + 480 + (first + given) * s.bps());
            }
}
// headers that the operation needs are demanded
extern "C" void sc_C12_missing()
{
    int rev = sv_param("rev", 0, 3);
    int what = sv_param("missing", 0, 5);
    BH h;
    memset(&h, 0, sizeof h);
    if (what == 4 && rev)
        h = bh(rev, 2, 0, 5);
    std::unordered_map<std::string, Val> v { { "SAMP_NUM", int64_t { 2 } }, { "SAMP_INT", int64_t { 2000 } } };
    if (what == 0 || what == 2 || what == 4)
        v.erase("SAMP_NUM");
    if (what == 1 || what == 2)
        v.erase("SAMP_INT");
    bool refused = false;
    {
        std::unique_ptr<OSEGY> o(make(rev, h));
        Trace t(v, { 0.5, 1 });
        try {
            o->write_trace(t);
        } catch (std::exception const&) {
            refused = true;
        }
    }
    eq("refused", refused, what != 3);
    eq("size", sv_filesize(F), what != 3 ? 3600 : 3600 + 240 + 8);
}
// without a binary header the first trace supplies the values, which have to fit
extern "C" void sc_C12_range()
{
    int rev = sv_param("rev", 0, 3);
    BH h;
    memset(&h, 0, sizeof h);
    for (double dt : { 0.0, 0.5, 0.99, 1.0, 2000.0, 32767.0, 32768.0, 65536.0, 1e9 })
        for (int d : { 0, 1 }) {
            if (!d && dt != static_cast<int64_t>(dt))
                continue;
            bool refused = false;
            {
                std::unique_ptr<OSEGY> o(make(rev, h));
                Val v;
                if (d)
                    v = dt;
                else
                    v = static_cast<int64_t>(dt);
                Trace t({ { "SAMP_NUM", int64_t { 2 } }, { "SAMP_INT", v } }, { 0.5, 1 });
                try {
                    o->write_trace(t);
                } catch (Exception const&) {
                    refused = true;
                }
            }
            eq(lbl("interval", static_cast<int>(dt < 1000 ? dt * 100 : dt)), refused, dt < 1 || dt > 32767);
            if (!refused) {
                eq("interval recorded", sv::sword(F, 3216, 2, false), static_cast<int64_t>(dt));
                eq("size", sv_filesize(F), 3600 + 248);
            } else {
                eq("size", sv_filesize(F), 3600);
            }
        }
    for (int n : { 32767, 32768, 40000 }) {
        bool refused = false;
        {
            std::unique_ptr<OSEGY> o(make(rev, h));
            Trace t({ { "SAMP_NUM", int64_t { n } }, { "SAMP_INT", int64_t { 1 } } }, std::vector<double>(n > 32767 ? 1 : n, 0));
            try {
                o->write_trace(t);
            } catch (Exception const&) {
                refused = true;
            }
        }
        eq(lbl("number of samples", n), refused, n > 32767);
    }
}
// a refused trace leaves nothing behind: the accepted ones around it are what the file has
extern "C" void sc_C12_after()
{
    int rev = sv_param("rev", 0, 3), mode = sv_param("mode", 0, 3); // binary header: none, fixed length, variable length
    int add = rev == 2 && mode ? sv_param("additional", 0, 2) : 0;
    if (rev == 0 && mode == 2)
        return;
    BH h;
    memset(&h, 0, sizeof h);
    if (mode)
        h = bh(rev, 2, mode == 1, rev ? 5 : 1);
    h.max_num_add_tr_headers = add;
    HMap m = { CommonSEGY::default_trace_header[0] };
    if (add)
        m.push_back({ "MYHEAD01", { { 0, { "A", VT::int16_t } } } });
    int at = sv_param("refused at", 0, 3), how = sv_param("how", 0, 4);
    int refused = 0;
    auto run = [&](OSEGY& out) {
        for (int k = 0; k < 3; ++k) {
            if (k == at) {
                Trace t({ { "SAMP_NUM", int64_t { how == 1 ? 3 : 2 } }, { "SAMP_INT", int64_t { 4000 } } }, std::vector<double>(how == 2 ? 0 : how == 3 ? 1000 : 3 - how, 1));
                if (how == 1)
                    t = Trace({ { "SAMP_NUM", int64_t { 3 } }, { "SAMP_INT", int64_t { 4000 } } }, { 1, 2 });
                // fixed length: a trace of other than two samples; variable: other than it says itself
                if (how == 1 && mode == 1)
                    t = Trace({ { "SAMP_NUM", int64_t { 1 } } }, { 1 });
                if (how == 1 && !mode && rev == 0 && at)
                    t = Trace({ { "SAMP_NUM", int64_t { 2 } } }, { 1 });
                try {
                    out.write_trace(t);
                } catch (std::exception const&) {
                    ++refused;
                }
            }
            Trace t({ { "FFID", int64_t { static_cast<int32_t>(sv_u32(lbl("ffid", k).c_str())) } }, { "SAMP_NUM", int64_t { 2 } }, { "SAMP_INT", int64_t { 2000 } } }, { 0.5, 1.0 * k });
            out.write_trace(t);
        }
    };
    if (rev == 0) {
        OSEGYRev0 o(F, std::string(3200, ' '), h, m);
        run(o);
    } else if (rev == 1) {
        OSEGYRev1 o(F, { std::string(3200, ' ') }, h, m);
        run(o);
    } else {
        OSEGYRev2 o(F, { std::string(3200, ' ') }, h, {}, m);
        run(o);
    }
    eq("the trace was refused", refused, 1);
    eq("size", sv_filesize(F), 3600 + 3 * (240 * (1 + add) + 8));
    ISEGY in(F, m);
    for (int k = 0; k < 3; ++k) {
        Trace t = in.read_trace();
        eq(lbl("FFID", k), ival(t.header().get("FFID"), "FFID"), static_cast<int32_t>(sv_u32(lbl("ffid", k).c_str())));
        eq(lbl("number of samples", k), t.samples().size(), 2);
        if (t.samples().size() == 2) {
            eqd("sample 0", t.samples()[0], 0.5);
            eqd("sample 1", t.samples()[1], k);
        }
    }
    eq("nothing more", in.has_trace(), 0);
}
// the number of samples of a variable length trace fits the header that records it
extern "C" void sc_C12_count()
{
    static VT const ty[] = { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t, VT::int64_t, VT::uint64_t };
    static int64_t const lim[] = { 127, 255, 32767, 65535, 0x7fffff, 0xffffff, 0x7fffffff, 0xffffffff, INT64_MAX, INT64_MAX };
    int rev = sv_param("rev", 1, 3), how = sv_param("map", 0, rev == 2 ? 3 : 2); // the standard one, an own one, an additional header
    int t = how ? sv_param("type", 0, 10) : 3, n = sv_param("above", 0, t < 4 ? 2 : 1) + (t < 4 ? static_cast<int>(lim[t]) : 65536);
    BH h = bh(rev, 7, 0, 8);
    HMap m;
    if (how == 0)
        m = { CommonSEGY::default_trace_header[0] };
    else if (how == 1)
        m = { { "MAIN0000", { { 20, { "SAMP_NUM", ty[t] } }, { 40, { "X", VT::int8_t } } } } };
    else {
        h.max_num_add_tr_headers = 2;
        m = { { "MAIN0000", { { 20, { "SAMP_NUM", VT::uint8_t } } } }, { "ADDIT001", { { 200, { "SAMP_NUM", ty[t] } } } }, { "ADDIT002", { { 0, { "Y", VT::int8_t } } } } };
    }
    bool refused = false;
    auto run = [&](OSEGY& out) {
        std::vector<double> s(n);
        s[0] = 1;
        s[n - 1] = 2;
        Trace a({ { "SAMP_NUM", int64_t { n } } }, s);
        try {
            out.write_trace(a);
        } catch (std::exception const&) {
            refused = true;
        }
        Trace b({ { "SAMP_NUM", int64_t { 1 } } }, { 3 });
        out.write_trace(b);
    };
    if (rev == 1) {
        OSEGYRev1 o(F, { std::string(3200, ' ') }, h, m);
        run(o);
    } else {
        OSEGYRev2 o(F, { std::string(3200, ' ') }, h, {}, m);
        run(o);
    }
    eq("refused", refused, n > lim[t]);
    uint64_t hs = 240 * m.size();
    eq("size", sv_filesize(F), 3600 + hs + 1 + (refused ? 0 : hs + n));
    ISEGY in(F, m);
    if (!refused) {
        Trace a = in.read_trace();
        eq("number of samples", a.samples().size(), n);
        if (a.samples().size() == static_cast<size_t>(n)) {
            eqd("first sample", a.samples()[0], 1);
            eqd("last sample", a.samples()[n - 1], 2);
        }
    }
    Trace b = in.read_trace();
    eq("next: number of samples", b.samples().size(), 1);
    eqd("next: sample", b.samples()[0], 3);
    eq("nothing more", in.has_trace(), 0);
}
// counts around constants that are new in the source
extern "C" void sc_C12_near()
{
    int rev = sv_param("rev", 0, 3), mode = sv_param("mode", 0, rev ? 3 : 2); // fixed length, no binary header, variable length
    int n = sv::near(3, mode == 1 ? 32767 : 65535), d = sv_param("less", -1, 2);
    if (d && n > 40000)
        return;
    BH h;
    memset(&h, 0, sizeof h);
    if (mode != 1)
        h = bh(rev, mode ? 7 : n, !mode, 8);
    bool refused = false;
    {
        std::unique_ptr<OSEGY> o(make(rev, h));
        std::vector<double> s(n - d, 1);
        Trace t({ { "SAMP_NUM", int64_t { n } }, { "SAMP_INT", int64_t { 2000 } } }, s);
        try {
            o->write_trace(t);
        } catch (std::exception const&) {
            refused = true;
        }
    }
    eq("refused", refused, d != 0);
    eq("size", sv_filesize(F), refused ? 3600 : 3600 + 240 + static_cast<uint64_t>(n) * (mode == 1 ? 4 : 1));
}
// as for the traces written so far
extern "C" void sc_C12_nth()
{
    int rev = sv_param("rev", 0, 3), n = sv::near(2, 600);
    bool refused = false;
    {
        std::unique_ptr<OSEGY> o(make(rev, bh(rev, 1, 1, 8)));
        for (int k = 0; k < n; ++k) {
            Trace t({ { "SAMP_NUM", int64_t { 1 } } }, { 1 });
            o->write_trace(t);
        }
        Trace t({ { "SAMP_NUM", int64_t { 1 } } }, { 1, 2 });
        try {
            o->write_trace(t);
        } catch (std::exception const&) {
            refused = true;
        }
    }
    eq("refused", refused, 1);
    eq("size", sv_filesize(F), 3600 + 241 * n);
}
