#include "segd.hpp"
static char const* const f = "in.segd";
static void tr(ISEGD& in, Rec const& r, int k, std::string const& p)
{
    Trace t = in.read_trace();
    eq(p + " TRACE_EDIT of its own header", ival(t.header().get("TRACE_EDIT"), "TRACE_EDIT"), u(f, r.tr(k) + 11, 1));
    eq(p + " SCAN_TYPE_NUM", ival(t.header().get("SCAN_TYPE_NUM"), "SCAN_TYPE_NUM"), k / (r.ncs * r.chans) + 1);
    eq(p + " CH_SET_NUM", ival(t.header().get("CH_SET_NUM"), "CH_SET_NUM"), k / r.chans % r.ncs + 1);
    eq(p + " number of samples", t.samples().size(), r.ns);
    for (int i = 0; i < r.ns; ++i)
        eqd(p + " sample", t.samples()[i], static_cast<int32_t>(s(f, r.smp(k) + 4 * i, 4)));
}
static void blocks(ISEGD& in, Rec const& r, std::string const& p)
{
    auto a = in.extended_headers(), b = in.external_headers();
    eq(p + " extended headers", a.size(), r.ext);
    eq(p + " external headers", b.size(), r.external);
    for (int i = 0; i < r.ext && i < static_cast<int>(a.size()); ++i) {
        eq(p + " extended header size", a[i].size(), 32);
        for (int j = 0; j < 32 && j < static_cast<int>(a[i].size()); j += r.ext > 50 ? 31 : 1)
            eq(p + " extended header byte", static_cast<uint8_t>(a[i][j]), sv_filebyte(f, r.exth(i) + j));
    }
    for (int i = 0; i < r.external && i < static_cast<int>(b.size()); ++i) {
        eq(p + " external header size", b[i].size(), 32);
        for (int j = 0; j < 32 && j < static_cast<int>(b[i].size()); j += r.external > 50 ? 31 : 1)
            eq(p + " external header byte", static_cast<uint8_t>(b[i][j]), sv_filebyte(f, r.exter(i) + j));
    }
}
static void head(ISEGD& in, Rec const& r, std::string const& p)
{
    eq(p + " file_number", in.general_header().file_number, sv::bcd(f, r.base, 0, 4));
    auto& c = in.channel_set_headers();
    eq(p + " scan types", c.size(), r.nst);
    for (int i = 0; i < r.nst && i < static_cast<int>(c.size()); ++i) {
        eq(p + " channel sets", c[i].size(), r.ncs);
        for (int j = 0; j < r.ncs && j < static_cast<int>(c[i].size()); ++j) {
            eq(p + " vert_stack", c[i][j].vert_stack, u(f, r.cs(i, j) + 29, 1));
            eq(p + " channels", c[i][j].number_of_channels, r.chans);
        }
    }
    blocks(in, r, p);
}
static void walk(ISEGD& in, Rec const& r, bool last, std::string const& p)
{
    head(in, r, p);
    for (int k = 0; k < r.ntr(); ++k) {
        eq(p + " has_trace", in.has_trace(), 1);
        eq(p + " has_record", in.has_record(), 1);
        tr(in, r, k, p);
    }
    eq(p + " has_trace after the record", in.has_trace(), !last);
    eq(p + " has_record after the record", in.has_record(), !last);
}
static Rec base(int rev)
{
    Rec r;
    r.rev = rev;
    r.add = rev > 2 ? 2 : rev ? 1 : 0;
    r.format = 8038;
    r.trext = rev ? 1 : 0;
    r.subscans = rev ? -1 : 1;
    return r;
}
static void put(Rec const& r)
{
    r.pins();
    if (r.rev > 2)
        for (int i = 0; i < r.ntr(); ++i)
            sv_pin(f, r.tr(i) + 4, 0x12);
}
// one record: every combination of the optional block groups
extern "C" void sc_C21_one()
{
    Rec r = base(sv_param("rev", 0, 4));
    r.nst = sv_param("scan types", 1, 3);
    r.ncs = sv_param("channel sets", 1, 3);
    r.chans = sv_param("channels", 1, 3);
    r.skew = sv_param("skew", 0, 2);
    r.ext = sv_param("extended", 0, 3);
    r.external = sv_param("external", 0, 3);
    r.trailers = r.rev ? sv_param("trailers", 0, 2) : 0;
    sv_file(f, r.end());
    put(r);
    ISEGD in(f);
    walk(in, r, true, "record 1");
}
// counts of two decimal digits and counts held in general header 2
extern "C" void sc_C21_counts()
{
    int rev = sv_param("rev", 1, 4), what = sv_param("what", 0, 8);
    Rec r = base(rev);
    r.ns = 1;
    switch (what) {
    case 0: r.ncs = 12; break;
    case 1: r.ncs = 130; r.ncs_ext = true; break;
    case 2: r.ext = 23; break;
    case 3: r.ext = 120; r.ext_ext = true; break;
    case 4: r.external = 31; break;
    case 5: r.external = 260; r.external_ext = true; break;
    case 6: r.skew = 10; r.nst = 2; if (rev > 2) { r.skew = 104; r.skew_ext = true; } break;
    default: r.chans = 25; r.trailers = 3;
    }
    sv_file(f, r.end());
    put(r);
    ISEGD in(f);
    walk(in, r, true, "record 1");
}
// several records: each is delivered with its own headers; revisions may differ
extern "C" void sc_C21_records()
{
    Rec r[3];
    int r1 = sv_param("rev of 1", 0, 4), r2 = sv_param("rev of 2", 0, 4);
    int shape = sv_param("shape", 0, 4), n = sv_param("records", 2, 4);
    for (int i = 0; i < n; ++i) {
        r[i] = base(i == 1 ? r2 : r1);
        r[i].ncs = 1 + (i + shape) % 2;
        r[i].chans = 1 + (shape >> 1);
        r[i].ext = (i * 2 + shape) % 3;
        r[i].external = (i + shape) % 2;
        r[i].skew = shape & 1;
        r[i].trailers = r[i].rev ? (i + shape) % 3 : 0;
        if (i) r[i].base = r[i - 1].end();
    }
    sv_file(f, r[n - 1].end());
    for (int i = 0; i < n; ++i)
        put(r[i]);
    ISEGD in(f);
    for (int i = 0; i < n; ++i)
        walk(in, r[i], i == n - 1, lbl("record", i + 1));
}
// general headers belong to the record being read
extern "C" void sc_C21_stale()
{
    int r1 = sv_param("rev of 1", 0, 4), r2 = sv_param("rev of 2", 0, 4);
    Rec a = base(r1), b = base(r2);
    if (r1 > 2) a.add = 4; else if (r1) a.add = 3;
    b.base = a.end();
    sv_file(f, b.end());
    put(a);
    put(b);
    if (r1 > 2) { sv_pin(f, a.gh(3) + 31, 0x12); sv_pin(f, a.gh(4) + 31, 0x55); }
    ISEGD in(f);
    eq("first: general header 2", in.general_header2().has_value(), r1 > 0);
    eq("first: general header 3", in.general_header3().has_value(), r1 > 2);
    eq("first: client name", in.general_header_client_name().has_value(), r1 > 2);
    eq("first: general headers N", in.general_headerN().size(), r1 == 1 || r1 == 2 ? 2 : 0);
    tr(in, a, 0, "first record");
    eq("second: general header 2", in.general_header2().has_value(), r2 > 0);
    eq("second: general header 3", in.general_header3().has_value(), r2 > 2);
    eq("second: client name", in.general_header_client_name().has_value(), 0);
    eq("second: coordinate system", in.general_header_coord_ref_blk().has_value(), 0);
    eq("second: general headers N", in.general_headerN().size(), 0);
    if (r2)
        eq("second: rev", in.general_header2() ? in.general_header2()->segd_rev_minor : 0, u(f, b.gh(1) + 11, 1));
    tr(in, b, 0, "second record");
    eq("end", in.has_record(), 0);
}
// a trace that names a channel set the record does not have is refused
extern "C" void sc_C21_unknown_set()
{
    static int const st[] = { 0, 3, 1, 1, 0x99, 1 }, cs[] = { 1, 1, 0, 3, 0x99, 1 }, ext[] = { 0, 0, 0, 0, 0, 4 };
    int k = sv_param("case", 0, 6);
    Rec r = base(sv_param("rev", 1, 4));
    r.nst = 2;
    r.ncs = 2;
    sv_file(f, r.end());
    put(r);
    sv_pin(f, r.tr(0) + 2, st[k]);
    sv_pin(f, r.tr(0) + 3, cs[k]);
    sv::pin16(f, r.tr(0) + 15, ext[k]);
    ISEGD in(f);
    try {
        Trace t = in.read_trace();
        sv_fail("a trace of an unknown channel set was delivered");
    } catch (Exception&) {
        sv_ok("refused");
    }
}
// a file that ends early is reported by an exception, never by invented data
extern "C" void sc_C21_short()
{
    Rec r = base(sv_param("rev", 0, 4));
    r.ext = r.external = 1;
    int where = sv_param("cut", 0, 7);
    uint64_t cut;
    switch (where) {
    case 0: cut = 31; break;
    case 1: cut = r.sets() - 1; break;
    case 2: cut = r.cs(0, 0) + r.csize() - 1; break;
    case 3: cut = r.exth(0) + 5; break;
    case 4: cut = r.exter(0) + 31; break;
    case 5: cut = r.tr(0) + 19; break;
    default: cut = r.smp(0) + 7;
    }
    sv_file(f, cut);
    put(r);
    try {
        ISEGD in(f);
        if (where < 5)
            sv_fail("a file cut inside the headers was accepted");
        Trace t = in.read_trace();
        sv_fail("a trace cut short was delivered");
    } catch (std::exception&) {
        sv_ok("reported");
    }
}
extern "C" void sc_C21_missing()
{
    try {
        ISEGD in("nowhere.segd");
        sv_fail("a file that does not exist was opened");
    } catch (std::exception&) {
        sv_ok("reported");
    }
    eq("no file is created", sv_exists("nowhere.segd"), 0);
}
// counts that need all bits of their fields
extern "C" void sc_C21_wide()
{
    int rev = sv_param("rev", 1, 4), what = sv_param("what", 0, 9);
    Rec r = base(rev);
    r.ns = 1;
    switch (what) {
    case 0: r.ncs = 300; r.ncs_ext = true; break;
    case 1: r.ext = 300; r.ext_ext = true; break;
    case 2: r.external = 300; r.external_ext = true; break;
    case 3: r.nst = 2; r.skew = 99; if (rev > 2) { r.skew = 65535; r.skew_ext = true; } break;
    case 4: r.trailers = 65535; if (rev > 2) r.trailers = 0x7fffffff; break;
    case 5: r.nst = 99; break;
    case 6: r.trext = 255; break;
    case 7: r.external = 1000; r.external_ext = true; break;
    default: r.trailers = rev > 2 ? 65538 : 258;
    }
    sv_file(f, r.end());
    put(r);
    for (int i = 0; r.trailers && i < 128; ++i) // whoever takes the trailer for a record finds none
        sv_pin(f, r.end() - 32ull * r.trailers + i, 0);
    ISEGD in(f);
    if (what == 0 || what == 5) {
        head(in, r, "record 1");
        tr(in, r, 0, "record 1");
    } else
        walk(in, r, true, "record 1");
}
// however many channels are announced, the record has traces until as many are read
extern "C" void sc_C21_channels()
{
    int rev = sv_param("rev", 0, 4), sets = sv_param("sets", 1, 3);
    Rec r = base(rev);
    r.ncs = sets;
    static int const n[] = { 0, 1, 2, 255, 256, 9999, 65535, 65536, 65537, 0x7fffff, 0xffffff };
    int k = sv_param("channels", 0, rev > 2 ? 11 : 6);
    sv_file(f, r.end() + (1ull << 40));
    put(r);
    for (int i = 0; i < sets; ++i) {
        if (rev > 2)
            sv::pinN(f, r.cs(0, i) + 20, 3, n[k], false);
        else {
            sv_pin(f, r.cs(0, i) + 8, tobcd2(n[k] / 100));
            sv_pin(f, r.cs(0, i) + 9, tobcd2(n[k] % 100));
        }
    }
    ISEGD in(f);
    eq("channels", in.channel_set_headers()[0][0].number_of_channels, n[k]);
    eq("has_trace", in.has_trace(), n[k] != 0);
    if (n[k] > 1) {
        tr(in, r, 0, "first");
        eq("has_trace after one", in.has_trace(), 1);
    }
}
// counts around constants that are new in the source
extern "C" void sc_C21_near()
{
    int rev = sv_param("rev", 1, 4), what = sv_param("what", 0, 8);
    static int const hi[] = { 300, 500, 500, 99, 300, 99, 255, 30 };
    int n = sv::near(3, hi[what]);
    Rec r = base(rev);
    r.ns = 1;
    Rec next = base(rev);
    switch (what) {
    case 0: r.ncs = n; r.ncs_ext = n > 99; break;
    case 1: r.ext = n; r.ext_ext = n > 99; break;
    case 2: r.external = n; r.external_ext = n > 99; break;
    case 3: r.nst = 2; r.skew = n; break;
    case 4: r.chans = n; break;
    case 5: r.nst = n; break;
    case 6: r.trext = n; break;
    default: r.trailers = n;
    }
    next.base = r.end();
    sv_file(f, next.end());
    put(r);
    put(next);
    ISEGD in(f);
    walk(in, r, false, "record 1");
    walk(in, next, true, "record 2");
}
// numbers of records
extern "C" void sc_C21_nth()
{
    int rev = sv_param("rev", 0, 4), n = sv::near(3, 120);
    std::vector<Rec> r(n);
    for (int i = 0; i < n; ++i) {
        r[i] = base(rev);
        r[i].ns = rev ? 1 : 2;
        if (i) r[i].base = r[i - 1].end();
    }
    sv_file(f, r[n - 1].end());
    for (auto& x : r)
        put(x);
    ISEGD in(f);
    for (int i = 0; i < n; ++i)
        walk(in, r[i], i == n - 1, "a record");
}
// announced channels
extern "C" void sc_C21_announced()
{
    int rev = sv_param("rev", 0, 4), n = sv::near(3, rev > 2 ? 1 << 20 : 9999);
    Rec r = base(rev);
    sv_file(f, r.end() + (1ull << 40));
    put(r);
    if (rev > 2)
        sv::pinN(f, r.cs(0, 0) + 20, 3, n, false);
    else {
        sv_pin(f, r.cs(0, 0) + 8, tobcd2(n / 100));
        sv_pin(f, r.cs(0, 0) + 9, tobcd2(n % 100));
    }
    ISEGD in(f);
    eq("channels", in.channel_set_headers()[0][0].number_of_channels, n);
    tr(in, r, 0, "first");
    eq("has_trace after one", in.has_trace(), 1);
}
