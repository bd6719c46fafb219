#include "segy.hpp"
// traces and headers behave as values
static std::unordered_map<std::string, Val> init()
{
    return { { "A", static_cast<int64_t>(sv_u64("a")) }, { "B", sv_f64("b") }, { "C", int64_t { -5 } } };
}
static void same(Trace::Header const& h, std::string const& who)
{
    eq(who + " A", ival(h.get("A"), who + " A"), static_cast<int64_t>(sv_u64("a")));
    eqd(who + " B", dval(h.get("B"), who + " B"), sv_f64("b"));
    eq(who + " C", ival(h.get("C"), who + " C"), -5);
    eq(who + " absent", h.get("Z").has_value(), 0);
    eq(who + " number of keys", h.keys().size(), 3);
}
static void same(Trace const& t, std::string const& who)
{
    same(t.header_const(), who);
    eq(who + " samples", t.samples().size(), 2);
    eqd(who + " sample 0", t.samples()[0], sv_f64("s0"));
    eqd(who + " sample 1", t.samples()[1], sv_f64("s1"));
}
static Trace make() { return Trace(init(), { sv_f64("s0"), sv_f64("s1") }); }
extern "C" void sc_C25_header()
{
    Trace::Header h(init());
    same(h, "constructed");
    Trace::Header c(h);
    same(c, "copied");
    h.set("A", int64_t { 1 });
    h.set("N", 2.5);
    same(c, "copy after change");
    eq("changed", ival(h.get("A"), "A"), 1);
    eqd("added", dval(h.get("N"), "N"), 2.5);
    eq("number of keys", h.keys().size(), 4);
    h.set("A", 7.5);
    eqd("type follows the value", dval(h.get("A"), "A"), 7.5);
    eq("number of keys", h.keys().size(), 4);
    h = c;
    same(h, "assigned");
    c.set("B", int64_t { 0 });
    same(h, "assigned after change of source");
    auto& self = h;
    h = self;
    same(h, "self-assigned");
    h = std::move(self);
    same(h, "self-move-assigned");
    Trace::Header m(std::move(h));
    same(m, "moved");
    c = std::move(m);
    same(c, "move-assigned");
    h = c; // a moved-from object may be assigned
    same(h, "re-assigned");
    Trace::Header e({});
    eq("empty", e.keys().size(), 0);
    eq("empty get", e.get("A").has_value(), 0);
    e.set("A", int64_t { 3 });
    eq("set in empty", ival(e.get("A"), "A"), 3);
    c = e;
    eq("old keys are gone", c.keys().size(), 1);
    eq("old values are gone", c.get("B").has_value(), 0);
}
extern "C" void sc_C25_trace()
{
    Trace t = make();
    same(t, "constructed");
    Trace c(t);
    same(c, "copied");
    t.header().set("A", int64_t { 9 });
    t.header().set("D", int64_t { 9 });
    same(c, "copy after change");
    eq("header() is the trace's own", ival(t.header_const().get("A"), "A"), 9);
    Trace o({}, { 1, 2, 3 });
    o = t;
    eq("assigned samples", o.samples().size(), 2);
    eq("assigned header", ival(o.header().get("D"), "D"), 9);
    t = c;
    same(t, "assigned");
    auto& self = t;
    t = self;
    same(t, "self-assigned");
    t = std::move(self);
    same(t, "self-move-assigned");
    Trace m(std::move(t));
    same(m, "moved");
    o = std::move(m);
    same(o, "move-assigned");
    m = c;
    same(m, "re-assigned");
    c.header().set("C", int64_t { 1 });
    same(m, "re-assigned after change of source");
    std::vector<Trace> v;
    for (int i = 0; i < 5; ++i) {
        v.push_back(make());
        v.back().header().set("I", int64_t { i });
    }
    for (int i = 0; i < 5; ++i) {
        eq("element of a container", ival(v[i].header().get("I"), "I"), i);
        eqd("its samples", v[i].samples()[1], sv_f64("s1"));
    }
    std::swap(v[0], v[4]);
    eq("swapped", ival(v[0].header().get("I"), "I"), 4);
    eq("swapped", ival(v[4].header().get("I"), "I"), 0);
}
extern "C" void sc_C25_keys()
{
    int n = sv_param("keys", 0, 40);
    std::unordered_map<std::string, Val> v;
    for (int i = 0; i < n; ++i)
        v[lbl("K", i)] = int64_t { i };
    Trace::Header h(v);
    auto k = h.keys();
    eq("number", k.size(), n);
    for (int i = 0; i < n; ++i) {
        int times = 0;
        for (auto& s : k)
            times += s == lbl("K", i);
        eq(lbl("listed once", i), times, 1);
        eq(lbl("value", i), ival(h.get(lbl("K", i)), "K"), i);
    }
    for (int i = n; i < n + 3; ++i)
        h.set(lbl("K", i), int64_t { i });
    eq("number after additions", h.keys().size(), n + 3);
}
// every number keeps its kind and its bits
static uint64_t bits(double d)
{
    uint64_t r;
    memcpy(&r, &d, 8);
    return r;
}
extern "C" void sc_C25_values()
{
    static double const D[] = { 0.0, -0.0, 1.0, -5.0, 1e300, 9007199254740993.0, 0.1, __builtin_nan(""), __builtin_inf(), -__builtin_inf(), 5e-324 };
    static int64_t const I[] = { 0, 1, -1, 32768, 4294967296, 9007199254740993, INT64_MIN, INT64_MAX };
    int k = sv_param("value", 0, 19);
    bool real = k < 11, present = sv_param("present", 0, 3), other = sv_param("replaces", 0, 2);
    Val v = real ? Val(D[k]) : Val(I[k - 11]);
    Trace t({}, { 1 });
    if (present)
        t.header().set("V", other ? Val(int64_t { 77 }) : Val(77.5));
    t.header().set("V", v);
    Trace u({ { "V", v } }, { 1 });
    Trace c(t), d(u), a({ { "V", int64_t { 3 } } }, {}), b({ { "V", 3.5 } }, {});
    a = c;
    b = std::move(d);
    Trace m(std::move(c));
    for (Trace* p : { &t, &u, &a, &b, &m }) {
        auto g = p->header_const().get("V");
        eq("present", g.has_value(), 1);
        eq("kind", g->index(), real);
        if (g->index() == real) {
            if (real)
                eq("number", bits(std::get<double>(*g)), bits(D[k]));
            else
                eq("number", std::get<int64_t>(*g), I[k - 11]);
        }
        eq("keys", p->header_const().keys().size(), 1);
    }
}
// names that resemble each other are different names
extern "C" void sc_C25_names()
{
    static int const L[] = { 0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 255, 300 };
    int n = L[sv_param("length", 0, 15)], how = sv_param("difference", 0, 7);
    std::string a(n, 'K'), b = a;
    switch (how) {
    case 0: b += 'K'; break;
    case 1: b += ' '; break;
    case 2: b += '\0'; break;
    case 3: b = ' ' + b; break;
    case 4: if (!n) return; b.back() = 'L'; break;
    case 5: if (!n) return; b.back() = 'k'; break;
    case 6: if (!n) return; b[n / 2] = '_'; break;
    }
    Trace::Header h({});
    h.set(a, int64_t { 1 });
    eq("set", ival(h.get(a), "a"), 1);
    eq("the other is absent", h.get(b).has_value(), 0);
    h.set(b, 2.5);
    eq("kept", ival(h.get(a), "a"), 1);
    eqd("added", dval(h.get(b), "b"), 2.5);
    auto k = h.keys();
    eq("keys", k.size(), 2);
    if (k.size() == 2)
        eq("names", (k[0] == a && k[1] == b) || (k[0] == b && k[1] == a), 1);
}
// assignment replaces, whatever was there
extern "C" void sc_C25_sizes()
{
    static int const N[] = { 0, 1, 2, 5, 300 };
    int from = N[sv_param("samples", 0, 5)], to = N[sv_param("old samples", 0, 5)], hf = sv_param("values", 0, 4), ht = sv_param("old values", 0, 4);
    auto mk = [](int n, int h, char const* s) {
        std::unordered_map<std::string, Val> v;
        for (int i = 0; i < h; ++i)
            v[lbl(i == 0 ? "BOTH" : s, i)] = static_cast<int64_t>(sv_u32(lbl(s, i).c_str()));
        std::vector<double> x(n);
        for (int i = 0; i < n && i < 5; ++i)
            x[i] = sv_f64(lbl(std::string(s) + ".", i).c_str());
        return Trace(v, x);
    };
    Trace src = mk(from, hf, "SRC"), a = mk(to, ht, "OLD"), b = mk(to, ht, "OLD");
    a = src;
    Trace tmp(src);
    b = std::move(tmp);
    Trace::Header h = mk(0, ht, "OLD").header_const(), g = mk(0, ht, "OLD").header_const();
    h = src.header_const();
    Trace::Header th(src.header_const());
    g = std::move(th);
    for (Trace* p : { &a, &b }) {
        eq("samples", p->samples().size(), from);
        for (int i = 0; i < from && i < 5; ++i)
            eqd("sample", p->samples()[i], sv_f64(lbl("SRC.", i).c_str()));
        if (from > 5)
            eqd("last sample", p->samples()[from - 1], 0);
    }
    for (auto const* p : { &a.header_const(), &b.header_const(), static_cast<Trace::Header const*>(&h), static_cast<Trace::Header const*>(&g) }) {
        eq("values", p->keys().size(), hf);
        for (int i = 0; i < hf; ++i)
            eq("value", ival(p->get(lbl(i == 0 ? "BOTH" : "SRC", i)), "value"), static_cast<int64_t>(sv_u32(lbl("SRC", i).c_str())));
        for (int i = hf ? 1 : 0; i < ht; ++i)
            eq("old value", p->get(lbl(i == 0 ? "BOTH" : "OLD", i)).has_value(), 0);
    }
    eq("source", src.samples().size(), from);
    eq("source values", src.header_const().keys().size(), hf);
}
// numbers of values and samples around constants that are new in the source
extern "C" void sc_C25_near()
{
    int what = sv_param("what", 0, 2), n = sv::near(3, what ? 50000 : 400);
    std::unordered_map<std::string, Val> v;
    for (int i = 0; i < n && !what; ++i)
        v[lbl("K", i)] = int64_t { i };
    Trace::Header g({});
    for (int i = 0; i < n && !what; ++i)
        g.set(lbl("K", i), int64_t { i });
    for (int i = 0; i < n && !what; ++i)
        eq("set", ival(g.get(lbl("K", i)), "K"), i);
    eq("number set", g.keys().size(), what ? 0 : n);
    std::vector<double> s(what ? n : 3);
    s[0] = sv_f64("first");
    s.back() = sv_f64("last");
    Trace t(v, s);
    Trace c(t), a({}, {}), m(t);
    a = c;
    Trace b(std::move(m));
    for (Trace* p : { &t, &c, &a, &b }) {
        eq("samples", p->samples().size(), s.size());
        eqd("first", p->samples()[0], sv_f64("first"));
        eqd("last", p->samples()[s.size() - 1], sv_f64("last"));
        eq("number", p->header_const().keys().size(), what ? 0 : n);
        for (int i = 0; i < n && !what; ++i)
            eq("value", ival(p->header_const().get(lbl("K", i)), "K"), i);
    }
}
