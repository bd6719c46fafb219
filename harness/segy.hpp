// helpers shared by the SEG-Y scenarios (public interface of the library only)
#pragma once
#include "sv.hpp"
#include "CommonSEGY.hpp"
#include "Exception.hpp"
#include "ISEGY.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include "Trace.hpp"
#include <ios>

using namespace sedaman;
using VT = Trace::Header::ValueType;
using Val = Trace::Header::Value;
using Map1 = std::map<uint32_t, std::pair<std::string, VT>>;
using HMap = std::vector<std::pair<std::string, Map1>>;
using BH = CommonSEGY::BinaryHeader;

constexpr int32_t BIG = 0x04030201, LITTLE = 0x01020304; // in-memory marker on a little-endian host

struct Field {
    char const* name;
    int off, size;
};
// layout of the binary header, from the SEG-Y standard
inline std::vector<Field> bin_fields()
{
    return {
        { "job_id", 0, 4 }, { "line_num", 4, 4 }, { "reel_num", 8, 4 }, { "tr_per_ens", 12, 2 }, { "aux_per_ens", 14, 2 },
        { "samp_int", 16, 2 }, { "samp_int_orig", 18, 2 }, { "samp_per_tr", 20, 2 }, { "samp_per_tr_orig", 22, 2 },
        { "format_code", 24, 2 }, { "ens_fold", 26, 2 }, { "sort_code", 28, 2 }, { "vert_sum_code", 30, 2 },
        { "sw_freq_at_start", 32, 2 }, { "sw_freq_at_end", 34, 2 }, { "sw_length", 36, 2 }, { "sw_type_code", 38, 2 },
        { "sw_ch_tr_num", 40, 2 }, { "taper_at_start", 42, 2 }, { "taper_at_end", 44, 2 }, { "taper_type", 46, 2 },
        { "corr_traces", 48, 2 }, { "bin_gain_recov", 50, 2 }, { "amp_recov_meth", 52, 2 }, { "measure_system", 54, 2 },
        { "impulse_sig_pol", 56, 2 }, { "vib_pol_code", 58, 2 }, { "ext_tr_per_ens", 60, 4 }, { "ext_aux_per_ens", 64, 4 },
        { "ext_samp_per_tr", 68, 4 }, { "ext_samp_int", 72, 8 }, { "ext_samp_int_orig", 80, 8 },
        { "ext_samp_per_tr_orig", 88, 4 }, { "ext_ens_fold", 92, 4 }, { "SEGY_rev_major_ver", 300, 1 },
        { "SEGY_rev_minor_ver", 301, 1 }, { "fixed_tr_length", 302, 2 }, { "ext_text_headers_num", 304, 2 },
        { "max_num_add_tr_headers", 306, 4 }, { "time_basis_code", 310, 2 }, { "num_of_tr_in_file", 312, 8 },
        { "byte_off_of_first_tr", 320, 8 }, { "num_of_trailer_stanza", 328, 4 },
    };
}
// value of field i of a header as raw low bits
inline uint64_t bin_get(BH const& h, int i)
{
    auto d = [](double x) { uint64_t r; memcpy(&r, &x, 8); return r; };
    switch (i) {
    case 0: return h.job_id;
    case 1: return h.line_num;
    case 2: return h.reel_num;
    case 3: return h.tr_per_ens;
    case 4: return h.aux_per_ens;
    case 5: return h.samp_int;
    case 6: return h.samp_int_orig;
    case 7: return h.samp_per_tr;
    case 8: return h.samp_per_tr_orig;
    case 9: return h.format_code;
    case 10: return h.ens_fold;
    case 11: return h.sort_code;
    case 12: return h.vert_sum_code;
    case 13: return h.sw_freq_at_start;
    case 14: return h.sw_freq_at_end;
    case 15: return h.sw_length;
    case 16: return h.sw_type_code;
    case 17: return h.sw_ch_tr_num;
    case 18: return h.taper_at_start;
    case 19: return h.taper_at_end;
    case 20: return h.taper_type;
    case 21: return h.corr_traces;
    case 22: return h.bin_gain_recov;
    case 23: return h.amp_recov_meth;
    case 24: return h.measure_system;
    case 25: return h.impulse_sig_pol;
    case 26: return h.vib_pol_code;
    case 27: return h.ext_tr_per_ens;
    case 28: return h.ext_aux_per_ens;
    case 29: return h.ext_samp_per_tr;
    case 30: return d(h.ext_samp_int);
    case 31: return d(h.ext_samp_int_orig);
    case 32: return h.ext_samp_per_tr_orig;
    case 33: return h.ext_ens_fold;
    case 34: return h.SEGY_rev_major_ver;
    case 35: return h.SEGY_rev_minor_ver;
    case 36: return h.fixed_tr_length;
    case 37: return h.ext_text_headers_num;
    case 38: return h.max_num_add_tr_headers;
    case 39: return h.time_basis_code;
    case 40: return h.num_of_tr_in_file;
    case 41: return h.byte_off_of_first_tr;
    default: return h.num_of_trailer_stanza;
    }
}
constexpr int NBIN = 43;
inline bool bin_unsigned(int i) { return i == 34 || i == 35 || i == 40 || i == 41 || i == 30 || i == 31; }

// a SEG-Y file of unknown content with the parts that decide its shape fixed
struct Shape {
    int order = 0; // 0: marker absent, big-endian; 1: marker says big; 2: marker says little
    int rev = 0;
    int fixed = 1;
    int format = 5;
    int samp = 2;        // 16-bit samples per trace
    int ext_samp = 0;
    int exttext = 0;
    int add = 0;         // additional trace headers
    uint64_t byte_off = 0;
    int stanza = 0;
    uint64_t ntr = 0;    // recorded number of traces
    bool little() const { return order == 2; }
    int bps() const
    {
        switch (format) {
        case 3: case 11: return 2;
        case 6: case 9: case 12: return 8;
        case 7: case 15: return 3;
        case 8: case 16: return 1;
        default: return 4;
        }
    }
};
inline void pin_marker(char const* f, int order)
{
    for (int i = 0; i < 4; ++i)
        sv_pin(f, 3296 + i, order == 0 ? 0 : order == 1 ? i + 1 : 4 - i);
}
inline void declare(char const* f, Shape const& s, uint64_t size)
{
    sv_file(f, size);
    pin_marker(f, s.order);
    bool l = s.little();
    sv::pinN(f, 3220, 2, s.samp, l);
    sv::pinN(f, 3224, 2, s.format, l);
    sv::pinN(f, 3268, 4, s.ext_samp, l);
    sv_pin(f, 3500, s.rev);
    sv::pinN(f, 3502, 2, s.fixed, l);
    sv::pinN(f, 3504, 2, static_cast<uint16_t>(s.exttext), l);
    if (s.rev > 1) {
        sv::pinN(f, 3506, 4, s.add, l);
        sv::pinN(f, 3512, 8, s.ntr, l);
        sv::pinN(f, 3520, 8, s.byte_off, l);
        sv::pinN(f, 3528, 4, static_cast<uint32_t>(s.stanza), l);
    }
}
inline std::string lbl(std::string a, int n) { return a + " " + std::to_string(n); }
inline int64_t ival(std::optional<Val> const& v, std::string const& what)
{
    if (!v) { sv_fail((what + " is absent").c_str()); return 0; }
    if (auto p = std::get_if<int64_t>(&*v)) return *p;
    sv_fail((what + " is not an integer").c_str());
    return 0;
}
inline double dval(std::optional<Val> const& v, std::string const& what)
{
    if (!v) { sv_fail((what + " is absent").c_str()); return 0; }
    if (auto p = std::get_if<double>(&*v)) return *p;
    sv_fail((what + " is not a floating-point value").c_str());
    return 0;
}
inline void eq(std::string const& l, int64_t a, int64_t b) { sv_eq(l.c_str(), a, b); }
inline void eqd(std::string const& l, double a, double b) { sv_eqd(l.c_str(), a, b); }
inline int vt_size(VT t)
{
    switch (t) {
    case VT::int8_t: case VT::uint8_t: return 1;
    case VT::int16_t: case VT::uint16_t: return 2;
    case VT::int24_t: case VT::uint24_t: return 3;
    case VT::int64_t: case VT::uint64_t: case VT::ieee_double: return 8;
    default: return 4;
    }
}
inline bool vt_float(VT t) { return t == VT::ibm || t == VT::ieee_single || t == VT::ieee_double; }
inline bool vt_signed(VT t) { return t == VT::int8_t || t == VT::int16_t || t == VT::int24_t || t == VT::int32_t || t == VT::int64_t; }
inline double ibm_value(uint32_t w)
{
    double f = w & 0xffffff;
    int e = (w >> 24 & 0x7f) - 64;
    for (; e > 0; --e) f *= 16;
    for (; e < 0; ++e) f /= 16;
    f /= 16777216.0;
    return w >> 31 ? -f : f;
}
