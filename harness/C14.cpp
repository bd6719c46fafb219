#include "segy.hpp"
// the predefined SEG-Y header map is the standard's, and every name of it can be looked up
struct Std { int off; char const* name; int size; };
extern "C" void sc_C14_map()
{
    // trace header of the standard: offset, size
    static Std const T[] = { { 0, "TRC_SEQ_LINE", 4 }, { 4, "TRC_SEQ_SGY", 4 }, { 8, "FFID", 4 }, { 12, "CHAN", 4 }, { 16, "ESP", 4 }, { 20, "ENS_NO", 4 },
        { 24, "SEQ_NO", 4 }, { 28, "TRACE_ID", 2 }, { 30, "VERT_SUM", 2 }, { 32, "HOR_SUM", 2 }, { 34, "DATA_USE", 2 }, { 36, "OFFSET", 4 },
        { 40, "R_ELEV", 4 }, { 44, "S_ELEV", 4 }, { 48, "S_DEPTH", 4 }, { 52, "R_DATUM", 4 }, { 56, "S_DATUM", 4 }, { 60, "S_WATER", 4 },
        { 64, "R_WATER", 4 }, { 68, "ELEV_SCALAR", 2 }, { 70, "COORD_SCALAR", 2 }, { 72, "SOU_X", 4 }, { 76, "SOU_Y", 4 }, { 80, "REC_X", 4 },
        { 84, "REC_Y", 4 }, { 88, "COORD_UNITS", 2 }, { 90, "WEATH_VEL", 2 }, { 92, "SUBWEATH_VEL", 2 }, { 94, "S_UPHOLE", 2 }, { 96, "R_UPHOLE", 2 },
        { 98, "S_STAT", 2 }, { 100, "R_STAT", 2 }, { 102, "TOT_STAT", 2 }, { 104, "LAG_A", 2 }, { 106, "LAG_B", 2 }, { 108, "DELAY_TIME", 2 },
        { 110, "MUTE_START", 2 }, { 112, "MUTE_END", 2 }, { 114, "SAMP_NUM", 2 }, { 116, "SAMP_INT", 2 }, { 118, "GAIN_TYPE", 2 },
        { 120, "GAIN_CONST", 2 }, { 122, "INIT_GAIN", 2 }, { 124, "CORRELATED", 2 }, { 126, "SW_START", 2 }, { 128, "SW_END", 2 },
        { 130, "SW_LENGTH", 2 }, { 132, "SW_TYPE", 2 }, { 134, "SW_TAPER_START", 2 }, { 136, "SW_TAPER_END", 2 }, { 138, "TAPER_TYPE", 2 },
        { 140, "ALIAS_FILT_FREQ", 2 }, { 142, "ALIAS_FILT_SLOPE", 2 }, { 144, "NOTCH_FILT_FREQ", 2 }, { 146, "NOTCH_FILT_SLOPE", 2 },
        { 148, "LOW_CUT_FREQ", 2 }, { 150, "HIGH_CUT_FREQ", 2 }, { 152, "LOW_CUT_SLOPE", 2 }, { 154, "HIGH_CUT_SLOPE", 2 }, { 156, "YEAR", 2 },
        { 158, "DAY", 2 }, { 160, "HOUR", 2 }, { 162, "MINUTE", 2 }, { 164, "SECOND", 2 }, { 166, "TIME_BASIS_CODE", 2 }, { 168, "TRACE_WEIGHT", 2 },
        { 170, "GROUP_NUM_ROLL", 2 }, { 172, "GROUP_NUM_FIRST", 2 }, { 174, "GROUP_NUM_LAST", 2 }, { 176, "GAP_SIZE", 2 }, { 178, "OVER_TRAVEL", 2 },
        { 180, "CDP_X", 4 }, { 184, "CDP_Y", 4 }, { 188, "INLINE", 4 }, { 192, "XLINE", 4 }, { 196, "SP_NUM", 4 }, { 200, "SP_NUM_SCALAR", 2 },
        { 202, "TR_VAL_UNIT", 2 }, { 204, "TRANS_CONST_MANT", 4 }, { 208, "TRANS_CONST_EXP", 2 }, { 210, "TRANS_UNITS", 2 }, { 212, "DEVICE_ID", 2 },
        { 214, "TIME_SCALAR", 2 }, { 216, "SOURCE_TYPE", 2 }, { 218, "SOU_V_DIR", 2 }, { 220, "SOU_X_DIR", 2 }, { 222, "SOU_I_DIR", 2 },
        { 224, "SOURCE_MEASUREMENT_MANT", 4 }, { 228, "SOURCE_MEASUREMENT_EXP", 2 }, { 230, "SOU_MEAS_UNIT", 2 } };
    static Std const X[] = { { 0, "TRC_SEQ_LINE", 8 }, { 8, "TRC_SEQ_SGY", 8 }, { 16, "FFID", 8 }, { 24, "ENS_NO", 8 }, { 32, "R_ELEV", 0 },
        { 40, "R_DEPTH", 0 }, { 48, "S_ELEV", 0 }, { 56, "S_DEPTH", 0 }, { 64, "R_DATUM", 0 }, { 72, "S_DATUM", 0 }, { 80, "S_WATER", 0 },
        { 88, "R_WATER", 0 }, { 96, "SOU_X", 0 }, { 104, "SOU_Y", 0 }, { 112, "REC_X", 0 }, { 120, "REC_Y", 0 }, { 128, "OFFSET", 0 },
        { 136, "SAMP_NUM", 4 }, { 140, "NANOSECOND", 4 }, { 144, "SAMP_INT", 0 }, { 152, "CABLE_NUM", 4 }, { 156, "ADD_TRC_HDR_NUM", 2 },
        { 158, "LAST_TRC_FLAG", 2 }, { 160, "CDP_X", 0 }, { 168, "CDP_Y", 0 } };
    auto& d = CommonSEGY::default_trace_header;
    auto check = [](Map1 const& m, Std const& s, std::string const& w) {
        auto it = m.find(s.off);
        eq(w + s.name + " is mapped", it != m.end() && it->second.first == s.name, 1);
        if (it != m.end()) {
            VT t = it->second.second;
            if (s.size)
                eq(w + s.name + " width", vt_float(t) ? 0 : vt_size(t), s.size);
            else
                eq(w + s.name + " is a double", t == VT::ieee_double, 1);
        }
    };
    eq("headers", d.size(), 2);
    eq("names", d[0].first == "SEG00000" && d[1].first == "SEG00001", 1);
    for (auto& s : T)
        check(d[0].second, s, "main ");
    for (auto& s : X)
        check(d[1].second, s, "extension ");
    eq("number of main values", d[0].second.size(), sizeof T / sizeof *T);
    eq("number of extension values", d[1].second.size(), sizeof X / sizeof *X);
    // the integers of the main header are signed, except the number of samples (unsigned as of revision 2)
    for (auto& e : d[0].second)
        eq("signed " + e.second.first, vt_signed(e.second.second), e.second.first != "SAMP_NUM");
}
extern "C" void sc_C14_described()
{
    for (auto& h : CommonSEGY::default_trace_header)
        for (auto& e : h.second) {
            auto it = CommonSEGY::trace_header_description.find(e.second.first);
            eq("description of " + e.second.first, it != CommonSEGY::trace_header_description.end() && !it->second.empty(), 1);
        }
    auto says = [](char const* k, char const* t) {
        auto it = CommonSEGY::trace_header_description.find(k);
        eq(std::string(k) + " says " + t, it != CommonSEGY::trace_header_description.end() && it->second.find(t) != std::string::npos, 1);
    };
    says("TRC_SEQ_LINE", "within line");
    says("FFID", "ield record number");
    says("YEAR", "Year");
    says("DAY", "Day of year");
    says("HOUR", "Hour");
    says("MINUTE", "Minute");
    says("SECOND", "Second");
    says("NANOSECOND", "Nanosecond");
    says("R_DEPTH", "eceiver group depth");
    says("CABLE_NUM", "Cable number");
    says("SOU_MEAS_UNIT", "Source Measurement");
}
// each constant names its own field
extern "C" void sc_C14_names()
{
    using N = BH::Name;
    struct P { N n; char const* t; };
    static P const t[] = { { N::JOB_ID, "Job identification" }, { N::LINE_NUM, "Line number" }, { N::REEL_NUM, "Reel number" },
        { N::TR_PER_ENS, "data traces per ensemble" }, { N::AUX_PER_ENS, "auxiliary traces per ensemble" }, { N::SAMP_INT, "Sample interval" },
        { N::SAMP_INT_ORIG, "Sample interval of original" }, { N::SAMP_PER_TR, "samples per data trace" },
        { N::SAMP_PER_TR_ORIG, "samples per data trace of original" }, { N::FORMAT_CODE, "sample format code" }, { N::ENS_FOLD, "Ensemble fold" },
        { N::SORT_CODE, "sorting code" }, { N::VERT_SUM_CODE, "Vertical sum" }, { N::SW_FREQ_AT_START, "Sweep frequency at start" },
        { N::SW_FREQ_AT_END, "Sweep frequency at end" }, { N::SW_LENGTH, "Sweep length" }, { N::SW_TYPE_CODE, "Sweep type" },
        { N::SW_CH_TR_NUM, "sweep channel" }, { N::TAPER_AT_START, "taper length in ms at start" }, { N::TAPER_AT_END, "taper length in ms at end" },
        { N::TAPER_TYPE, "Taper type" }, { N::CORR_TRACES, "Correlated" }, { N::BIN_GAIN_RECOV, "Binary gain" },
        { N::AMP_RECOV_METH, "Amplitude recovery" }, { N::MEASURE_SYSTEM, "Measure system" }, { N::IMPULSE_SIG_POL, "Impulse signal" },
        { N::VIB_POL_CODE, "Vibratory" }, { N::EXT_TR_PER_ENS, "Extended number of data traces" },
        { N::EXT_AUX_PER_ENS, "Extended number of auxiliary" }, { N::EXT_SAMP_PER_TR, "Extended number of samples per data trace" },
        { N::EXT_SAMP_INT, "Extended sample interval" }, { N::EXT_SAMP_INT_ORIG, "Extended sample interval of original" },
        { N::EXT_SAMP_PER_TR_ORIG, "Extended number of samples per data trace in original" }, { N::EXT_ENS_FOLD, "Extended ensemble fold" },
        { N::ENDIANNESS, "byte ordering" }, { N::SEGY_REV_MAJOR_VER, "Major" }, { N::SEGY_REV_MINOR_VER, "Minor" },
        { N::FIXED_TR_LENGTH, "Fixed length" }, { N::EXT_TEXT_HEADERS_NUM, "Extended Textual" }, { N::MAX_NUM_ADD_TR_HEADERS, "additional trace headers" },
        { N::TIME_BASIS_CODE, "Time basis" }, { N::NUM_OF_TR_IN_FILE, "Number of traces" }, { N::BYTE_OFF_OF_FIRST_TR, "Byte offset" },
        { N::NUM_OF_TRAILER_STANZA, "trailer stanza" } };
    int i = 0;
    for (auto& p : t) {
        std::string s = BH::name_as_string(p.n);
        eq(std::string("name of ") + p.t, s.find(p.t) != std::string::npos, 1);
        // names are distinct
        for (auto& q : t)
            if (&q != &p)
                eq(std::string("distinct name of ") + p.t, s == BH::name_as_string(q.n), 0);
        ++i;
    }
}
