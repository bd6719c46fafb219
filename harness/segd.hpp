// helpers shared by the SEG-D scenarios (public interface of the library only)
#pragma once
#include "sv.hpp"
#include "CommonSEGD.hpp"
#include "Exception.hpp"
#include "ISEGD.hpp"
#include "OSEGDRev2_1.hpp"
#include "Trace.hpp"
#include <cmath>
#include <ios>

using namespace sedaman;
using VT = Trace::Header::ValueType;
using Val = Trace::Header::Value;
using EMap = std::map<uint32_t, std::pair<std::string, VT>>;
using EMaps = std::vector<EMap>;
using C = CommonSEGD;

inline std::string lbl(std::string a, int n) { return a + " " + std::to_string(n); }
inline void eq(std::string const& l, int64_t a, int64_t b) { sv_eq(l.c_str(), a, b); }
inline void eqd(std::string const& l, double a, double b) { sv_eqd(l.c_str(), a, b); }
inline int64_t ival(std::optional<Val> const& v, std::string const& what)
{
    if (!v) { sv_fail((what + " is absent").c_str()); return 0; }
    if (auto p = std::get_if<int64_t>(&*v)) return *p;
    sv_fail((what + " is not an integer").c_str());
    return 0;
}
inline double dval(std::optional<Val> const& v, std::string const& what)
{
    if (!v) { sv_fail((what + " is absent").c_str()); return 0; }
    if (auto p = std::get_if<double>(&*v)) return *p;
    sv_fail((what + " is not a floating-point value").c_str());
    return 0;
}
// numeric value, whichever of the two kinds holds it
inline double nval(std::optional<Val> const& v, std::string const& what)
{
    if (!v) { sv_fail((what + " is absent").c_str()); return 0; }
    if (auto p = std::get_if<int64_t>(&*v)) return static_cast<double>(*p);
    return std::get<double>(*v);
}
inline int tobcd2(int v) { return v / 10 << 4 | v % 10; }
inline int bits(int format)
{
    switch (format) {
    case 8015: return 20;
    case 8022: case 8042: return 8;
    case 8024: case 8044: return 16;
    case 8036: case 9036: return 24;
    case 8080: case 9080: return 64;
    default: return 32;
    }
}
// a SEG-D record of unknown content with the parts that decide its shape fixed
struct Rec {
    char const* f = "in.segd";
    uint64_t base = 0;        // where the record starts
    int rev = 2;              // 0: no general header 2
    int add = 1;              // additional general header blocks (0 when rev is 0; >=2 for rev 3)
    bool add_ext = false;     // rev 3: counted in general header 2
    int format = 8058;
    int nst = 1, ncs = 1;     // scan types, channel sets per scan type
    bool ncs_ext = false;
    int skew = 0, ext = 0, external = 0, trailers = 0;
    bool skew_ext = false, ext_ext = false, external_ext = false;
    int chans = 1;            // channels in each channel set
    int trext = 1;            // trace header extensions of each trace
    int ns = 2;               // samples of each trace
    int subscans = -1;        // exponent; pinned when no extension tells the sample count
    int descale = 0;          // 16-bit (or, rev 3, top half of the float) descale, -1: unknown
    int csize() const { return rev > 2 ? 96 : 32; }
    uint64_t gh(int i) const { return base + 32 * i; }                          // general header block
    uint64_t sets() const { return base + 32 * (1 + add); }
    uint64_t cs(int st, int c) const { return sets() + st * (ncs * csize() + 32 * skew) + c * csize(); }
    uint64_t exth(int i) const { return sets() + nst * (ncs * csize() + 32 * skew) + 32 * i; }
    uint64_t exter(int i) const { return exth(ext) + 32 * i; }
    int sbytes() const { return format == 8015 ? (ns + 3) / 4 * 10 : ns * bits(format) / 8; }
    uint64_t tsize() const { return 20 + 32 * trext + sbytes(); }
    int ntr() const { return nst * ncs * chans; }
    uint64_t tr(int k) const { return exter(external) + k * tsize(); }
    uint64_t te(int k, int i) const { return tr(k) + 20 + 32 * i; }              // extension i
    uint64_t smp(int k) const { return tr(k) + 20 + 32 * trext; }
    uint64_t end() const { return tr(ntr()) + 32ull * trailers; }
    void pins(int day_hi = 0) const
    {
        sv_pin(f, base + 2, tobcd2(format / 100));
        sv_pin(f, base + 3, tobcd2(format % 100));
        sv_pin(f, base + 11, (add_ext ? 15 : add) << 4 | day_hi);
        sv_pin(f, base + 27, tobcd2(nst));
        sv_pin(f, base + 28, ncs_ext ? 0xff : tobcd2(ncs));
        sv_pin(f, base + 29, skew_ext ? 0xff : tobcd2(skew));
        sv_pin(f, base + 30, ext_ext ? 0xff : tobcd2(ext));
        sv_pin(f, base + 31, external_ext ? 0xff : tobcd2(external));
        if (add) {
            uint64_t g = gh(1);
            sv_pin(f, g + 10, rev);
            if (ncs_ext) sv::pin16(f, g + 3, ncs);
            if (rev < 3) {
                if (ext_ext) sv::pin16(f, g + 5, ext);
                if (external_ext) sv::pin16(f, g + 7, external);
                sv::pin16(f, g + 12, trailers);
                for (int i = 2; i <= add; ++i)
                    sv_pin(f, gh(i) + 18, i + 1); // block number
            } else {
                if (ext_ext) sv::pinN(f, g + 5, 3, ext, false);
                if (skew_ext) sv::pin16(f, g + 8, skew);
                sv::pin32(f, g + 12, trailers);
                if (add_ext) sv::pin16(f, g + 22, add);
                if (external_ext) sv::pinN(f, g + 27, 3, external, false);
                for (int i = 3; i <= add; ++i)
                    sv_pin(f, gh(i) + 31, 0x70); // a block type the reader passes over
            }
        }
        for (int s = 0; s < nst; ++s)
            for (int c = 0; c < ncs; ++c) {
                uint64_t o = cs(s, c);
                if (rev < 3) {
                    sv_pin(f, o + 8, tobcd2(chans / 100));
                    sv_pin(f, o + 9, tobcd2(chans % 100));
                    if (descale >= 0) sv::pin16(f, o + 6, descale);
                    if (subscans >= 0) sv_pin(f, o + 11, subscans << 4);
                    else sv_pin(f, o + 11, 0);
                } else {
                    sv::pinN(f, o + 20, 3, chans, false);
                    if (descale >= 0) sv::pin32(f, o + 16, static_cast<uint32_t>(descale) << 16);
                    if (!trext) sv::pin32(f, o + 12, ns);
                }
                for (int k = 0; k < chans; ++k) {
                    int n = (s * ncs + c) * chans + k;
                    uint64_t t = tr(n);
                    sv_pin(f, t + 2, tobcd2(s + 1));
                    sv_pin(f, t + 3, c + 1 > 99 ? 0xff : tobcd2(c + 1));
                    sv_pin(f, t + 9, trext);
                    sv::pin16(f, t + 15, c + 1 > 99 ? c + 1 : 0);
                    if (trext) {
                        if (rev < 3) sv::pinN(f, te(n, 0) + 7, 3, ns, false);
                        else sv::pin32(f, te(n, 0) + 24, ns);
                    }
                }
            }
    }
};
inline uint64_t u(char const* f, uint64_t o, int n) { return sv::be(f, o, n); }
inline int64_t s(char const* f, uint64_t o, int n) { return sv::sword(f, o, n, false); }
