// Observation interface of the static analysis.  These functions are never
// defined or executed: the analysis gives them their meaning.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

extern "C" {
void sv_file(char const* name, uint64_t size);            // declare an input file with unknown content
void sv_pin(char const* name, uint64_t off, int byte);     // partition: fix one byte of it
uint64_t sv_filesize(char const* name);
uint8_t sv_filebyte(char const* name, uint64_t off);
int sv_exists(char const* name);
uint64_t sv_u64(char const* name);                         // unknown inputs
int64_t sv_i64(char const* name);
uint32_t sv_u32(char const* name);
uint16_t sv_u16(char const* name);
uint8_t sv_u8(char const* name);
double sv_f64(char const* name);
int sv_param(char const* name, int lo, int hi);            // enumerated configuration value
int sv_boundaries(int lo, int hi, int div);                // how many counts around constants that are new in the source
int sv_boundary(int lo, int hi, int div, int k);           // the k-th of them
void sv_eq(char const* label, int64_t got, int64_t want);  // obligation: equal for all inputs
void sv_eqd(char const* label, double got, double want);
void sv_true(char const* label, int cond);
void sv_fail(char const* label);                           // obligation: never reached
void sv_ok(char const* label);
void sv_note(char const* label);
uint64_t sv_lastpos(char const* name);
void sv_assume(int cond);
}

namespace sv {
// partitions at counts around constants of the source that the fixed partitions were not chosen for
inline int near(int lo, int hi, int div = 1) { return sv_boundary(lo, hi, div, sv_param("boundary", 0, sv_boundaries(lo, hi, div))); }
inline void pin16(char const* f, uint64_t off, unsigned v) { sv_pin(f, off, v >> 8); sv_pin(f, off + 1, v & 255); }
inline void pin32(char const* f, uint64_t off, uint32_t v) { pin16(f, off, v >> 16); pin16(f, off + 2, v & 65535); }
inline void pin64(char const* f, uint64_t off, uint64_t v) { pin32(f, off, v >> 32); pin32(f, off + 4, v & 0xffffffffu); }
// pin with explicit byte order
inline void pinN(char const* f, uint64_t off, int n, uint64_t v, bool little)
{
    for (int i = 0; i < n; ++i)
        sv_pin(f, off + (little ? i : n - 1 - i), (v >> (8 * i)) & 255);
}
inline uint64_t be(char const* f, uint64_t off, int n)
{
    uint64_t r = 0;
    for (int i = 0; i < n; ++i)
        r = r << 8 | sv_filebyte(f, off + i);
    return r;
}
inline uint64_t le(char const* f, uint64_t off, int n)
{
    uint64_t r = 0;
    for (int i = n - 1; i >= 0; --i)
        r = r << 8 | sv_filebyte(f, off + i);
    return r;
}
inline uint64_t word(char const* f, uint64_t off, int n, bool little) { return little ? le(f, off, n) : be(f, off, n); }
inline int64_t sx(uint64_t v, int n) { int s = 64 - 8 * n; return static_cast<int64_t>(v << s) >> s; }
inline int64_t sword(char const* f, uint64_t off, int n, bool little) { return sx(word(f, off, n, little), n); }
// n packed decimal digits starting at nibble index nib (0 = high nibble of byte off)
inline uint64_t bcd(char const* f, uint64_t off, int nib, int n)
{
    uint64_t r = 0;
    for (int i = 0; i < n; ++i) {
        int k = nib + i;
        uint8_t b = sv_filebyte(f, off + k / 2);
        r = r * 10 + (k & 1 ? b & 15 : b >> 4);
    }
    return r;
}
inline double f64(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
inline float f32(uint32_t v) { float d; memcpy(&d, &v, 4); return d; }
}
