// helpers for the SEG-D writer scenarios
#pragma once
#include "segd.hpp"
#include <algorithm>
#include <memory>
// decimal digits chosen by the enumerated vector: zeros, nines, then mixed digits
struct Digits {
    int v;
    uint64_t n = 0;
    uint64_t operator()(int digits, int64_t at_least = 0)
    {
        ++n;
        int64_t r = 0;
        for (int i = 0; i < digits; ++i) {
            int d = v == 0 ? 0 : v == 1 ? 9 : static_cast<int>((n * 7 + i * 3 + v * 5 + n * i + v * v * i) % 10);
            r = r * 10 + d;
        }
        return r < at_least ? at_least : r;
    }
};
// n digits of value v at the given nibble
inline void eqbcd(std::string const& l, char const* f, uint64_t off, int nib, int n, int64_t v)
{
    for (int i = n - 1; i >= 0; --i, v /= 10) {
        int k = nib + i;
        int b = sv_filebyte(f, off + k / 2);
        eq(l + " digit", k & 1 ? b & 15 : b >> 4, v % 10);
    }
}
inline void zeros(char const* f, uint64_t from, uint64_t to)
{
    for (uint64_t i = from; i < to; ++i)
        eq("unused byte", sv_filebyte(f, i), 0);
}
inline C::GeneralHeader gh1(int format = 8058)
{
    C::GeneralHeader g;
    memset(&g, 0, sizeof g);
    g.format_code = format;
    g.add_gen_hdr_blocks = 1;
    g.scan_types_per_record = 1;
    g.channel_sets_per_scan_type = 1;
    return g;
}
inline C::GeneralHeader2 gh22()
{
    C::GeneralHeader2 g;
    memset(&g, 0, sizeof g);
    g.gen_hdr_block_num = 2;
    return g;
}
inline C::ChannelSetHeader chset(int st, int n, int chans, double descale = 0)
{
    return C::ChannelSetHeader(st, n, 1, 0, 0, descale, chans, 1, 0, 0, 0, 0, 0, 0, 0, 0, n, 0, 0, 0, 0, 0);
}
