#include "segd.hpp"
#include "util.hpp"
#include <cassert>
// packed decimal numbers
template <class T>
static void from()
{
    int skip = sv_param("skip", 0, 2), n = sv_param("digits", 1, 13);
    char b[8];
    for (int i = 0; i < 8; ++i)
        b[i] = sv_u8(lbl("byte", i).c_str());
    if (sizeof(T) == 4 && n > 9)
        return;
    char const* p = b;
    T r = sedaman::from_bcd<T>(&p, skip, n);
    uint64_t w = 0;
    for (int k = skip; k < skip + n; ++k) {
        uint8_t x = b[k / 2];
        w = w * 10 + (k & 1 ? x & 15 : x >> 4);
    }
    eq("value", static_cast<int64_t>(r), sizeof(T) == 4 ? static_cast<int64_t>(static_cast<T>(w)) : static_cast<int64_t>(w));
    eq("bytes consumed", p - b, (n + skip) / 2);
}
extern "C" void sc_C29_from_int() { from<int>(); }
extern "C" void sc_C29_from_u32() { from<uint32_t>(); }
extern "C" void sc_C29_from_u64() { from<uint64_t>(); }
extern "C" void sc_C29_from_long() { from<long long>(); }
// every digit string of a length, written beside unknown neighbours
template <class T>
static void to(int64_t v, int n, int skip)
{
    char b[8];
    uint8_t first = sv_u8("half byte before") << 4;
    for (int i = 0; i < 8; ++i)
        b[i] = 0;
    b[0] = skip ? first : 0;
    b[7] = 0x5a;
    char* p = b;
    sedaman::to_bcd<T>(&p, static_cast<T>(v), skip, n);
    eq("bytes advanced", p - b, (n + skip) / 2);
    int64_t q = v;
    for (int i = n - 1; i >= 0; --i, q /= 10) {
        int k = i + skip;
        uint8_t x = b[k / 2];
        eq(std::to_string(v) + lbl(" digit", i), k & 1 ? x & 15 : x >> 4, q % 10);
    }
    if (skip)
        eq(std::to_string(v) + " half byte before", static_cast<uint8_t>(b[0]) >> 4, first >> 4);
    for (int k = (n + skip + 1) / 2; k < 7; ++k)
        eq("byte after", b[k], 0);
    eq("byte after", b[7], 0x5a);
}
extern "C" void sc_C29_to_1() { for (int v = 0; v < 10; ++v) for (int s = 0; s < 2; ++s) to<int>(v, 1, s); }
extern "C" void sc_C29_to_2()
{
    int d = sv_param("tens", 0, 10);
    for (int v = 10 * d; v < 10 * d + 10; ++v) {
        to<int>(v, 2, 0);
        to<uint16_t>(v, 2, 0);
        to<uint8_t>(v, 2, 0);
    }
}
extern "C" void sc_C29_to_3()
{
    int d = sv_param("tens", 0, 100);
    for (int v = 10 * d; v < 10 * d + 10; ++v)
        to<int>(v, 3, 1);
}
#ifdef SVA_THOROUGH
extern "C" void sc_C29_to_4()
{
    int d = sv_param("hundreds", 0, 100);
    for (int v = 100 * d; v < 100 * d + 100; ++v)
        to<uint32_t>(v, 4, 0);
}
#endif
static uint64_t const W[] = { 0, 1, 9, 10, 99, 100, 999, 1000, 1999, 4567, 5555, 9999, 10000, 12345, 49999, 54321, 67890, 99999, 100000, 123456, 500000, 655360, 987654,
    999999, 1000000, 7654321, 90000009, 123456789, 999999999, 1234567890, 4999999999ull, 98765432101ull, 123456789012ull, 555555555555ull, 909090909090ull,
    999999999999ull };
extern "C" void sc_C29_to_wide()
{
    uint64_t v = W[sv_param("value", 0, 36)];
    if (v < 10000) { to<int>(v, 4, 0); to<uint32_t>(v, 4, 0); to<int64_t>(v, 4, 0); to<double>(v, 4, 0); }
    if (v < 1000000) { to<int>(v, 6, 0); to<long>(v, 6, 0); }
    to<long long>(v, 12, 0);
}
