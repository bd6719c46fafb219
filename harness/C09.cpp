#include "segy.hpp"
// text headers and stanzas are exactly 3200 characters; the default is the standard's card image of the written revision
static char const* F = "out.sgy";
static BH bh(int rev)
{
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = 1;
    h.samp_per_tr = 2;
    h.format_code = 5;
    h.fixed_tr_length = 1;
    h.SEGY_rev_major_ver = rev;
    return h;
}
static void make(int rev, std::vector<std::string> t, std::vector<std::string> st)
{
    if (rev == 0)
        OSEGYRev0 out(F, t.empty() ? std::string() : t[0], bh(rev));
    else if (rev == 1)
        OSEGYRev1 out(F, t, bh(rev));
    else
        OSEGYRev2 out(F, t, bh(rev), st);
}
extern "C" void sc_C09_size()
{
    static int const sz[] = { 0, 1, 80, 3199, 3200, 3201, 6400 };
    int rev = sv_param("rev", 0, 3);
    int n = sz[sv_param("size", rev ? 0 : 1, 7)];
    int where = rev == 0 ? 0 : sv_param("where", 0, rev == 1 ? 3 : 5); // main, 1st, 2nd extended, 1st, 2nd stanza
    std::vector<std::string> t(rev == 0 ? 1 : 3, std::string(3200, 'x')), st(2, std::string(3200, 'y'));
    if (where < 3)
        t[where] = std::string(n, 'z');
    else
        st[where - 3] = std::string(n, 'z');
    bool refused = false;
    try {
        make(rev, t, st);
    } catch (Exception const&) {
        refused = true;
    }
    eq("refused", refused, n != 3200);
    if (!refused)
        eq("size", sv_filesize(F), 3600 + (rev == 0 ? 0 : 6400) + (rev == 2 ? 6400 : 0));
}
extern "C" void sc_C09_default()
{
    int rev = sv_param("rev", 0, 3);
    make(rev, {}, {});
    eq("size", sv_filesize(F), 3600);
    std::string t;
    for (int i = 0; i < 3200; ++i)
        t += static_cast<char>(sv_filebyte(F, i));
    if (rev == 0)
        CommonSEGY::ebcdic_to_ascii(t);
    static char const* const stamp[] = { "            ", "SEG Y REV1  ", "SEG-Y_REV2.0" };
    for (int c = 0; c < 40; ++c) {
        std::string w = std::string("C") + (c < 9 ? " " : "") + std::to_string(c + 1) + " ";
        eq(lbl("card", c + 1), t.compare(80 * c, 4, w), 0);
        for (int i = 0; i < 80; ++i)
            if (c != 38 || i < 4 || i >= 16)
                eq(lbl("character of card", c + 1), t[80 * c + i], CommonSEGY::default_text_header[80 * c + i]);
    }
    eq("revision stamp", t.compare(80 * 38 + 4, 12, stamp[rev]), 0);
    eq("rest of card 39", t.compare(80 * 38 + 16, 64, std::string(64, ' ')), 0);
    eq("card 40", t.compare(80 * 39, 22, "C40 END TEXTUAL HEADER"), 0);
}
// the text is carried byte for byte
extern "C" void sc_C09_verbatim()
{
    int rev = sv_param("rev", 0, 3);
    std::string a(3200, ' ');
    for (int i = 0; i < 3200; ++i)
        a[i] = static_cast<char>(sv_u8(lbl("c", i).c_str()));
    make(rev, { a }, {});
    for (int i = 0; i < 3200; ++i)
        eq(lbl("character", i), sv_filebyte(F, i), static_cast<uint8_t>(a[i]));
    ISEGY in(F);
    eq("one text header", in.text_headers().size(), 1);
    for (int i = 0; i < 3200; ++i)
        eq(lbl("character read", i), static_cast<uint8_t>(in.text_headers()[0][i]), static_cast<uint8_t>(a[i]));
}
