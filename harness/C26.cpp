#include "segy.hpp"
#include "ISEGD.hpp"
#include "OSEGDRev2_1.hpp"
// every failure is reported by an exception derived from std::exception whose message can be read, copied and kept
static char const* F = "in.sgy";
static void message(std::exception const& e, char const* part)
{
    std::string s = e.what();
    eq("message", s.find(part) != std::string::npos, 1);
}
extern "C" void sc_C26_exception()
{
    Exception a(std::string("file.cpp"), 12, std::string("went wrong"));
    message(a, "went wrong");
    message(a, "file.cpp");
    message(a, "12");
    Exception b(a);
    message(a, "went wrong");
    message(b, "went wrong");
    Exception c(std::move(b));
    message(c, "went wrong");
    std::string f = "other.cpp", m = "lvalue";
    Exception d(f, 7, m);
    message(d, "lvalue");
    message(d, "other.cpp");
    std::exception_ptr p;
    try {
        throw a;
    } catch (Exception& e) {
        message(e, "went wrong");
    }
    try {
        try {
            throw Exception(__FILE__, __LINE__, "inner");
        } catch (Exception const& e) {
            Exception keep = e;
            message(keep, "inner");
            throw;
        }
    } catch (std::exception const& e) {
        message(e, "inner");
    }
}
// place and text of any length
static void kept(std::string const& f, uint64_t line, std::string const& m)
{
    std::string l = std::to_string(line);
    auto whole = [&](std::exception const& e, char const* who) {
        std::string s = e.what();
        size_t pf = s.find(f), pm = s.rfind(m);
        eq(std::string(who) + ": place", pf != s.npos, 1);
        eq(std::string(who) + ": text", pm != s.npos, 1);
        eq(std::string(who) + ": line", pf != s.npos && pm != s.npos && pf + f.size() <= pm && s.substr(pf + f.size(), pm - pf - f.size()).find(l) != s.npos, 1);
    };
    Exception a(std::string(f), line, std::string(m)), b(f, line, m);
    whole(a, "moved in");
    whole(b, "copied in");
    Exception c(a), d(std::move(b));
    whole(c, "copied");
    whole(a, "source of a copy");
    whole(d, "moved");
    try {
        try {
            throw Exception(f, line, m);
        } catch (Exception& e) {
            whole(e, "caught");
            throw;
        }
    } catch (std::exception const& e) {
        whole(e, "rethrown");
    }
}
extern "C" void sc_C26_messages()
{
    static int const N[] = { 1, 15, 16, 100, 255, 256, 300, 5000 };
    static uint64_t const L[] = { 0, 1, 9, 65536, 4294967296, 18446744073709551615u };
    int k = sv_param("kind", 0, 4);
    if (k == 0)
        kept("/a/b c/file.cpp", L[sv_param("line", 0, 6)], "two words, and more: 5 of 7");
    else if (k == 1)
        kept(std::string(N[sv_param("length", 0, 8)], 'f'), 31, "text");
    else if (k == 2)
        kept("file.cpp", 31, std::string(N[sv_param("length", 0, 8)], 'm'));
    else
        kept("file 1.cpp", 1, "%s%n {} \\ \n end ");
}
extern "C" void sc_C26_lengths()
{
    int n = sv::near(3, 5000);
    kept(std::string(n, 'f'), 31, "text");
    kept("file.cpp", 31, std::string(n, 'm'));
    kept("file.cpp", n, "text");
}
// a file that cannot be opened
extern "C" void sc_C26_missing()
{
    int what = sv_param("who", 0, 5);
    bool failed = false;
    try {
        if (what == 0)
            ISEGY in("nosuch.sgy");
        else if (what == 1)
            ISEGYSorted1D in("nosuch.sgy", "FFID");
        else if (what == 2)
            ISEGY::read_binary_header("nosuch.sgy");
        else if (what == 3)
            ISEGD in("nosuch.sgd");
        else {
            BH h;
            memset(&h, 0, sizeof h);
            ISEGY in("nosuch.sgy", h);
        }
    } catch (std::exception const&) {
        failed = true;
    }
    eq("reported", failed, 1);
}
// a file that ends early
extern "C" void sc_C26_truncated()
{
    static int const cut[] = { 0, 1, 3199, 3200, 3599, 3601, 3839, 3840, 3843, 3844, 3844 + 239, 3844 + 240, 3844 + 243, 3844 + 244 };
    int n = cut[sv_param("size", 0, 14)];
    int rev = sv_param("rev", 0, 2);
    bool headers = sv_param("headers", 0, 2);
    Shape s;
    s.format = 3;
    s.samp = 2;
    s.rev = rev;
    s.fixed = !rev;
    sv_file(F, n);
    if (n >= 3600) {
        declare(F, s, n);
        if (n >= 3716)
            sv::pinN(F, 3600 + 114, 2, 2, false);
        if (n >= 3844 + 116)
            sv::pinN(F, 3844 + 114, 2, 2, false);
    }
    bool failed = false;
    int got = 0;
    try {
        ISEGY in(F);
        while (in.has_trace() && got < 4) {
            if (headers)
                in.read_header();
            else
                in.read_trace();
            ++got;
        }
    } catch (std::exception const&) {
        failed = true;
    }
    bool whole = n == 3600 || n == 3844 || n == 3844 + 244;
    eq(lbl("truncation reported", n), failed, !whole);
    // with whole reads, only traces that are complete are delivered
    if (!headers)
        eq(lbl("complete traces", n), got, n < 3844 ? 0 : (n - 3600) / 244);
}
// formats that are not defined
extern "C" void sc_C26_formats()
{
    int f = sv_param("format", 0, 20);
    bool known = f == 1 || f == 2 || f == 3 || (f >= 5 && f <= 12) || f == 15 || f == 16;
    Shape s;
    s.format = f;
    declare(F, s, 3600);
    bool failed = false;
    try {
        ISEGY in(F);
    } catch (std::exception const&) {
        failed = true;
    }
    eq("reader refuses", failed, !known);
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = 1;
    h.samp_per_tr = 1;
    h.format_code = f;
    if (f) {
        for (int rev = 0; rev < 3; ++rev) {
            failed = false;
            try {
                if (rev == 0)
                    OSEGYRev0 o("out.sgy", std::string(3200, ' '), h);
                else if (rev == 1)
                    OSEGYRev1 o("out.sgy", { std::string(3200, ' ') }, h);
                else
                    OSEGYRev2 o("out.sgy", { std::string(3200, ' ') }, h);
            } catch (std::exception const&) {
                failed = true;
            }
            eq(lbl("writer refuses, revision", rev), failed, !known);
        }
    }
}
// byte orders that cannot be handled
extern "C" void sc_C26_orders()
{
    static uint32_t const mark[] = { 0, 0x01020304, 0x04030201, 0x02010403, 0x03040102, 0x01020300, 0xffffffff };
    int k = sv_param("marker", 0, 7);
    Shape s;
    declare(F, s, 3600);
    sv::pin32(F, 3296, mark[k]);
    if (k == 2) {
        s.order = 2;
        declare(F, s, 3600);
    }
    bool failed = false;
    try {
        ISEGY in(F);
    } catch (Exception const&) {
        failed = true;
    }
    if (k < 3)
        eq("reader accepts", failed, 0);
    if (k > 4)
        eq("reader refuses", failed, 1);
}
