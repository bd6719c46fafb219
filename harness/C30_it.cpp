#include "segy.hpp"
#include "pybind11/pybind11.h"
#include "ISEGYSorted1D.hpp"
namespace py = pybind11;
namespace sedaman { void sv_module(py::module_&); }
template <class Sig>
static Sig* slot(std::string const& name)
{
    Sig* r = nullptr;
    for (auto& p : py::Slot<Sig>::list())
        if (p.first == name)
            r = p.second;
    return r;
}
template <class R>
static void loop(R& in, int n, int const* order, char const* f)
{
    auto it = slot<R*(R&)>("__iter__");
    auto next = slot<Trace(R&)>("__next__");
    if (!it || !next)
        return;
    eq("iter gives the reader itself", it(in) == &in, 1);
    for (int k = 0; k < n; ++k) {
        Trace t = next(in);
        int j = order ? order[k] : k;
        uint64_t b = 3600 + j * (240 + 8);
        eq(lbl("trace", k), ival(t.header().get("FFID"), "FFID"), sv::sword(f, b + 8, 4, false));
        for (int i = 0; i < 2; ++i)
            eqd(lbl("sample", i), t.samples()[i], static_cast<int32_t>(sv::sword(f, b + 240 + 4 * i, 4, false)));
    }
    for (int i = 0; i < 2; ++i) {
        bool stop = false;
        try {
            next(in);
        } catch (py::stop_iteration&) {
            stop = true;
        }
        eq("iteration stops after the last trace", stop, 1);
    }
}
static char const* const f = "in.sgy";
static void file(int n)
{
    Shape s;
    s.format = 2;
    declare(f, s, 3600 + n * 248);
}
extern "C" void sc_C30_iterate()
{
    int n = sv_param("traces", 1, 4);
    py::module_ m;
    sv_module(m);
    file(n);
    ISEGY in(f);
    if (auto th = slot<std::vector<py::bytes>(ISEGY&)>("text_headers")) {
        auto t = th(in);
        eq("text headers", t.size(), 1);
        eq("text header size", t[0].s.size(), 3200);
        for (int i = 0; i < 3200; i += 97)
            eq("text header byte", static_cast<uint8_t>(t[0].s[i]), sv_filebyte(f, i));
    }
    loop(in, n, nullptr, f);
}
extern "C" void sc_C30_iterate_sorted()
{
    static int const P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    int const* p = P[sv_param("order", 0, 6)];
    py::module_ m;
    sv_module(m);
    file(3);
    for (int k = 0; k < 3; ++k)
        sv::pinN(f, 3600 + p[k] * 248 + 20, 4, 10 * k + 5, false);
    ISEGYSorted1D in(f, "ENS_NO");
    loop(in, 3, p, f);
}
