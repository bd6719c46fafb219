#include "segy.hpp"
// the two text conversions are inverse permutations of the 256 bytes and agree with the standard's code chart
static uint8_t to_e(int b)
{
    std::string s(1, static_cast<char>(b));
    CommonSEGY::ascii_to_ebcdic(s);
    eq("length kept", s.size(), 1);
    return s[0];
}
static uint8_t to_a(int b)
{
    std::string s(1, static_cast<char>(b));
    CommonSEGY::ebcdic_to_ascii(s);
    eq("length kept", s.size(), 1);
    return s[0];
}
extern "C" void sc_C10_inverse()
{
    for (int b = 0; b < 256; ++b) {
        eq(lbl("ascii byte", b), to_a(to_e(b)), b);
        eq(lbl("ebcdic byte", b), to_e(to_a(b)), b);
    }
}
extern "C" void sc_C10_chart()
{
    auto row = [](char const* chars, std::vector<int> codes) {
        for (size_t i = 0; i < codes.size(); ++i) {
            eq(std::string("code of ") + chars[i], to_e(static_cast<uint8_t>(chars[i])), codes[i]);
            eq(std::string("character of code of ") + chars[i], to_a(codes[i]), static_cast<uint8_t>(chars[i]));
        }
    };
    row(" .<(+|&!$*);-/,%_>?`:#@'=\"",
        { 0x40, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x60, 0x61, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x79, 0x7a, 0x7b, 0x7c, 0x7d,
            0x7e, 0x7f });
    for (int i = 0; i < 9; ++i) {
        eq("letter A-I", to_e('A' + i), 0xc1 + i);
        eq("letter J-R", to_e('J' + i), 0xd1 + i);
        eq("letter a-i", to_e('a' + i), 0x81 + i);
        eq("letter j-r", to_e('j' + i), 0x91 + i);
        if (i < 8) {
            eq("letter S-Z", to_e('S' + i), 0xe2 + i);
            eq("letter s-z", to_e('s' + i), 0xa2 + i);
        }
    }
    for (int i = 0; i < 10; ++i)
        eq("digit", to_e('0' + i), 0xf0 + i);
}
// every character of a text is converted, at every position
extern "C" void sc_C10_positions()
{
    static int const len[] = { 0, 1, 2, 80, 3200 };
    int n = len[sv_param("length", 0, 5)];
    std::string a;
    for (int i = 0; i < n; ++i)
        a += static_cast<char>(i * 7 + 3);
    std::string e = a;
    CommonSEGY::ascii_to_ebcdic(e);
    eq("length", e.size(), n);
    for (int i = 0; i < n; ++i)
        eq(lbl("position", i), static_cast<uint8_t>(e[i]), to_e(static_cast<uint8_t>(a[i])));
    CommonSEGY::ebcdic_to_ascii(e);
    eq("length", e.size(), n);
    for (int i = 0; i < n; ++i)
        eq(lbl("back, position", i), static_cast<uint8_t>(e[i]), static_cast<uint8_t>(a[i]));
}
