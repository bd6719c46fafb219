#include "segd.hpp"
#include <cctype>
// names of the SEG-D header fields and the predefined trace header extension maps
static std::string lower(std::string s)
{
    for (auto& c : s)
        if (c >= 'A' && c <= 'Z')
            c += 'a' - 'A';
    return s;
}
template <class N>
struct P {
    N n;
    char const* t;
};
template <class T, class N, size_t K>
static void table(char const* who, P<N> const (&t)[K])
{
    for (auto& p : t) {
        std::string s = lower(T::name_as_string(p.n));
        eq(std::string(who) + " name of " + p.t, s.find(p.t) != std::string::npos, 1);
        for (auto& q : t)
            if (&q != &p)
                eq(std::string(who) + " distinct name of " + p.t, s == lower(T::name_as_string(q.n)), 0);
    }
}
extern "C" void sc_C28_GeneralHeader()
{
    using N = C::GeneralHeader::Name;
    static P<N> const t[] = {
        { N::FILE_NUMBER, "file number" },
        { N::FORMAT_CODE, "format code" },
        { N::GENERAL_CONSTANTS, "general constants" },
        { N::YEAR, "last two digits of year" },
        { N::GENERAL_HEADER_BLOCKS, "number of additional blocks in general header" },
        { N::DAY, "julian day" },
        { N::HOUR, "hour of" },
        { N::MINUTE, "minute of hour" },
        { N::SECOND, "second of minute" },
        { N::MANUFACTURERS_CODE, "manufacturer's code" },
        { N::MANUFACTURERS_NUMBER, "manufacturer's serial number" },
        { N::BYTES_PER_SCAN, "bytes per scan are utilized in the multiplexed formats" },
        { N::BASE_SCAN_INTERVAL, "base scan interval" },
        { N::POLARITY, "polarity" },
        { N::SCANS_PER_BLOCK, "number of scans in a block. it is valid only for multiplexed data" },
        { N::RECORD_TYPE, "record type" },
        { N::RECORD_LENGTH, "record length from time zero" },
        { N::SCAN_TYPES_PER_RECORD, "scan types per record" },
        { N::CHANNEL_SETS_PER_SCAN_TYPE, "number of channel sets per scan type" },
        { N::SKEW_BLOCKS, "number of 32 byte fields added to the end of each scan type header" },
        { N::EXTENDED_HEADER_BLOCKS, "extended header length" },
        { N::EXTERNAL_HEADER_BLOCKS, "external header length" },
    };
    table<C::GeneralHeader>("GeneralHeader", t);
}
extern "C" void sc_C28_GeneralHeader2()
{
    using N = C::GeneralHeader2::Name;
    static P<N> const t[] = {
        { N::EXPANDED_FILE_NUMBER, "expanded file number" },
        { N::EXT_CH_SETS_PER_SCAN_TYPE, "extended channel sets per scan types" },
        { N::EXTEDNDED_HEADER_BLOCKS, "extended header blocks" },
        { N::EXTERNAL_HEADER_BLOCKS, "external header blocks" },
        { N::EXTENDED_SKEW_BLOCKS, "skew" },
        { N::SEGD_REVISION_MAJOR, "seg-d revision number major" },
        { N::SEGD_REVISION_MINOR, "seg-d revision number minor" },
        { N::GEN_TRAILER_NUMBER_OF_BLOCKS, "general trailers" },
        { N::EXTENDED_RECORD_LENGTH, "extended record length" },
        { N::RECORD_SET_NUMBER, "record set number" },
        { N::EXT_NUM_ADD_BLKS_IN_GEN_HDR, "extended number of additional blocks in the general header" },
        { N::DOMINANT_SAMPLING_INT, "dominant sampling interval" },
        { N::GEN_HEADER_BLOCK_NUM, "general header block number" },
    };
    table<C::GeneralHeader2>("GeneralHeader2", t);
}
extern "C" void sc_C28_GeneralHeaderN()
{
    using N = C::GeneralHeaderN::Name;
    static P<N> const t[] = {
        { N::EXPANDED_FILE_NUMBER, "expanded file number" },
        { N::SOURCE_LINE_NUMBER, "source line number" },
        { N::SOURCE_POINT_NUMBER, "source point number" },
        { N::SOURCE_POINT_INDEX, "source point index" },
        { N::PHASE_CONTROL, "phase control" },
        { N::TYPE_VIBRATOR, "type vibrator" },
        { N::PHASE_ANGLE, "phase angle" },
        { N::GEN_HEADER_BLOCK_NUM, "general header block number" },
        { N::SOURCE_SET_NUMBER, "source set number" },
    };
    table<C::GeneralHeaderN>("GeneralHeaderN", t);
}
extern "C" void sc_C28_GeneralHeader3()
{
    using N = C::GeneralHeader3::Name;
    static P<N> const t[] = {
        { N::TIME_ZERO, "time zero for this record" },
        { N::RECORD_SIZE, "the total size of the seg-d record in bytes" },
        { N::DATA_SIZE, "the total size of the headers and data in this record in bytes" },
        { N::HEADER_SIZE, "the total size of the headers in this record in bytes" },
        { N::EXTD_REC_MODE, "1 for extended recording mode, 0 for normal record" },
        { N::REL_TIME_MODE, "1 if this record does not contain absolute timestamps" },
        { N::GEN_HEADER_BLOCK_NUM, "general header block number" },
    };
    table<C::GeneralHeader3>("GeneralHeader3", t);
}
extern "C" void sc_C28_GeneralHeaderVes()
{
    using N = C::GeneralHeaderVes::Name;
    static P<N> const t[] = {
        { N::ABBR_VESSEL_OR_CREW_NAME, "abbreviated vessel or crew name" },
        { N::VESSEL_OR_CREW_NAME, "vessel or crew name" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderVes>("GeneralHeaderVes", t);
}
extern "C" void sc_C28_GeneralHeaderSur()
{
    using N = C::GeneralHeaderSur::Name;
    static P<N> const t[] = {
        { N::SURVEY_ARE_NAME, "survey area name" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderSur>("GeneralHeaderSur", t);
}
extern "C" void sc_C28_GeneralHeaderCli()
{
    using N = C::GeneralHeaderCli::Name;
    static P<N> const t[] = {
        { N::CLIENT_NAME, "client" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderCli>("GeneralHeaderCli", t);
}
extern "C" void sc_C28_GeneralHeaderJob()
{
    using N = C::GeneralHeaderJob::Name;
    static P<N> const t[] = {
        { N::ABBR_JOB_ID, "abbr job identification" },
        { N::JOB_ID, "job identification" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderJob>("GeneralHeaderJob", t);
}
extern "C" void sc_C28_GeneralHeaderLin()
{
    using N = C::GeneralHeaderLin::Name;
    static P<N> const t[] = {
        { N::LINE_ABBR, "line abbreviation" },
        { N::LINE_ID, "line identification" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderLin>("GeneralHeaderLin", t);
}
extern "C" void sc_C28_GeneralHeaderVib()
{
    using N = C::GeneralHeaderVib::Name;
    static P<N> const t[] = {
        { N::EXPANDED_FILE_NUMBER, "expanded file number" },
        { N::SOURCE_LINE_NUMBER, "source line number" },
        { N::SOURCE_POINT_NUMBER, "source point number" },
        { N::SOURCE_POINT_INDEX, "source point index" },
        { N::PHASE_CONTROL, "phase control" },
        { N::TYPE_VIBRATOR, "type vibrator" },
        { N::PHASE_ANGLE, "phase angle" },
        { N::SOURCE_ID, "source id" },
        { N::SOURCE_SET_NUM, "source set no" },
        { N::RESHOOT_INDEX, "re-shoot index" },
        { N::GROUP_INDEX, "group index" },
        { N::DEPTH_INDEX, "depth index" },
        { N::OFFSET_CROSSLINE, "offset cross-line" },
        { N::OFFSET_INLINE, "offset in-line" },
        { N::SIZE, "size" },
        { N::OFFSET_DEPTH, "offset depth" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderVib>("GeneralHeaderVib", t);
}
extern "C" void sc_C28_GeneralHeaderExp()
{
    using N = C::GeneralHeaderExp::Name;
    static P<N> const t[] = {
        { N::EXPANDED_FILE_NUMBER, "expanded file number" },
        { N::SOURCE_LINE_NUMBER, "source line number" },
        { N::SOURCE_POINT_NUMBER, "source point number" },
        { N::SOURCE_POINT_INDEX, "source point index" },
        { N::DEPTH, "depth" },
        { N::CHARGE_LENGTH, "charge length" },
        { N::SOIL_TYPE, "soil type" },
        { N::SOURCE_ID, "source id" },
        { N::SOURCE_SET_NUM, "source set no" },
        { N::RESHOOT_INDEX, "re-shoot index" },
        { N::GROUP_INDEX, "group index" },
        { N::DEPTH_INDEX, "depth index" },
        { N::OFFSET_CROSSLINE, "offset cross-line" },
        { N::OFFSET_INLINE, "offset in-line" },
        { N::SIZE, "size" },
        { N::OFFSET_DEPTH, "offset depth" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderExp>("GeneralHeaderExp", t);
}
extern "C" void sc_C28_GeneralHeaderAir()
{
    using N = C::GeneralHeaderAir::Name;
    static P<N> const t[] = {
        { N::EXPANDED_FILE_NUMBER, "expanded file number" },
        { N::SOURCE_LINE_NUMBER, "source line number" },
        { N::SOURCE_POINT_NUMBER, "source point number" },
        { N::SOURCE_POINT_INDEX, "source point index" },
        { N::DEPTH, "depth" },
        { N::AIR_PRESSURE, "air pressure" },
        { N::SOURCE_ID, "source id" },
        { N::SOURCE_SET_NUM, "source set no" },
        { N::RESHOOT_INDEX, "re-shoot index" },
        { N::GROUP_INDEX, "group index" },
        { N::DEPTH_INDEX, "depth index" },
        { N::OFFSET_CROSSLINE, "offset cross-line" },
        { N::OFFSET_INLINE, "offset in-line" },
        { N::SIZE, "size" },
        { N::OFFSET_DEPTH, "offset depth" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderAir>("GeneralHeaderAir", t);
}
extern "C" void sc_C28_GeneralHeaderWat()
{
    using N = C::GeneralHeaderWat::Name;
    static P<N> const t[] = {
        { N::EXPANDED_FILE_NUMBER, "expanded file number" },
        { N::SOURCE_LINE_NUMBER, "source line number" },
        { N::SOURCE_POINT_NUMBER, "source point number" },
        { N::SOURCE_POINT_INDEX, "source point index" },
        { N::DEPTH, "depth" },
        { N::AIR_PRESSURE, "air pressure" },
        { N::SOURCE_ID, "source id" },
        { N::SOURCE_SET_NUM, "source set no" },
        { N::RESHOOT_INDEX, "re-shoot index" },
        { N::GROUP_INDEX, "group index" },
        { N::DEPTH_INDEX, "depth index" },
        { N::OFFSET_CROSSLINE, "offset cross-line" },
        { N::OFFSET_INLINE, "offset in-line" },
        { N::SIZE, "size" },
        { N::OFFSET_DEPTH, "offset depth" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderWat>("GeneralHeaderWat", t);
}
extern "C" void sc_C28_GeneralHeaderEle()
{
    using N = C::GeneralHeaderEle::Name;
    static P<N> const t[] = {
        { N::EXPANDED_FILE_NUMBER, "expanded file number" },
        { N::SOURCE_LINE_NUMBER, "source line number" },
        { N::SOURCE_POINT_NUMBER, "source point number" },
        { N::SOURCE_POINT_INDEX, "source point index" },
        { N::SOURCE_TYPE, "source type" },
        { N::MOMENT, "moment" },
        { N::SOURCE_ID, "source id" },
        { N::SOURCE_SET_NUM, "source set no" },
        { N::RESHOOT_INDEX, "re-shoot index" },
        { N::GROUP_INDEX, "group index" },
        { N::DEPTH_INDEX, "depth index" },
        { N::OFFSET_CROSSLINE, "offset cross-line" },
        { N::OFFSET_INLINE, "offset in-line" },
        { N::SIZE, "size" },
        { N::OFFSET_DEPTH, "offset depth" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderEle>("GeneralHeaderEle", t);
}
extern "C" void sc_C28_GeneralHeaderOth()
{
    using N = C::GeneralHeaderOth::Name;
    static P<N> const t[] = {
        { N::EXPANDED_FILE_NUMBER, "expanded file number" },
        { N::SOURCE_LINE_NUMBER, "source line number" },
        { N::SOURCE_POINT_NUMBER, "source point number" },
        { N::SOURCE_POINT_INDEX, "source point index" },
        { N::SOURCE_ID, "source id" },
        { N::SOURCE_SET_NUM, "source set no" },
        { N::RESHOOT_INDEX, "re-shoot index" },
        { N::GROUP_INDEX, "group index" },
        { N::DEPTH_INDEX, "depth index" },
        { N::OFFSET_CROSSLINE, "offset cross-line" },
        { N::OFFSET_INLINE, "offset in-line" },
        { N::SIZE, "size" },
        { N::OFFSET_DEPTH, "offset depth" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderOth>("GeneralHeaderOth", t);
}
extern "C" void sc_C28_GeneralHeaderAdd()
{
    using N = C::GeneralHeaderAdd::Name;
    static P<N> const t[] = {
        { N::TIME, "time" },
        { N::SOURCCE_STATUS, "source status" },
        { N::SOURCE_ID, "source id" },
        { N::SOURCE_MOVING, "source moving" },
        { N::ERROR_DESCRIPTION, "error description" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderAdd>("GeneralHeaderAdd", t);
}
extern "C" void sc_C28_GeneralHeaderSaux()
{
    using N = C::GeneralHeaderSaux::Name;
    static P<N> const t[] = {
        { N::SOURCE_ID, "source id" },
        { N::SCAN_TYPE_NUM_1, "scan type number 1" },
        { N::CH_SET_NUM_1, "channel set number 1" },
        { N::TRACE_NUM_1, "trace number 1" },
        { N::SCAN_TYPE_NUM_2, "scan type number 2" },
        { N::CH_SET_NUM_2, "channel set number 2" },
        { N::TRACE_NUM_2, "trace number 2" },
        { N::SCAN_TYPE_NUM_3, "scan type number 3" },
        { N::CH_SET_NUM_3, "channel set number 3" },
        { N::TRACE_NUM_3, "trace number 3" },
        { N::SCAN_TYPE_NUM_4, "scan type number 4" },
        { N::CH_SET_NUM_4, "channel set number 4" },
        { N::TRACE_NUM_4, "trace number 4" },
        { N::SCAN_TYPE_NUM_5, "scan type number 5" },
        { N::CH_SET_NUM_5, "channel set number 5" },
        { N::TRACE_NUM_5, "trace number 5" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderSaux>("GeneralHeaderSaux", t);
}
extern "C" void sc_C28_GeneralHeaderCoord()
{
    using N = C::GeneralHeaderCoord::Name;
    static P<N> const t[] = {
        { N::COORD_REF_SYS, "coordinate reference system (crs) identification" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderCoord>("GeneralHeaderCoord", t);
}
extern "C" void sc_C28_GeneralHeaderPos1()
{
    using N = C::GeneralHeaderPos1::Name;
    static P<N> const t[] = {
        { N::TIME_OF_POSITION, "time of position" },
        { N::TIME_OF_MEASUREMENT, "time of measurement/calculation" },
        { N::VERTICAL_ERROR, "vertical error" },
        { N::HOR_ERR_SEMI_MAJOR, "horizontal error ellipse semi-major dimension" },
        { N::HOR_ERR_SEMI_MINOR, "horizontal error ellipse semi-minor dimension" },
        { N::HOR_ERR_ORIENTATION, "horizontal error ellipse orientation" },
        { N::POSITION_TYPE, "position type" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderPos1>("GeneralHeaderPos1", t);
}
extern "C" void sc_C28_GeneralHeaderPos2()
{
    using N = C::GeneralHeaderPos2::Name;
    static P<N> const t[] = {
        { N::CRS_A_COORD1, "coord tuple 1 / crs a coord 1" },
        { N::CRS_A_COORD2, "coord tuple 1 / crs a coord 2" },
        { N::CRS_A_COORD3, "coord tuple 1 / crs a coord 3" },
        { N::CRS_A_CRSREF, "crs a crsref stanza id 1" },
        { N::POS1_VALID, "position 1 valid" },
        { N::POS1_QUALITY, "position 1 quality" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderPos2>("GeneralHeaderPos2", t);
}
extern "C" void sc_C28_GeneralHeaderPos3()
{
    using N = C::GeneralHeaderPos3::Name;
    static P<N> const t[] = {
        { N::CRS_B_COORD1, "coord tuple 2 / crs b coord 1" },
        { N::CRS_B_COORD2, "coord tuple 2 / crs b coord 2" },
        { N::CRS_B_COORD3, "coord tuple 2 / crs b coord 3" },
        { N::CRS_B_CRSREF, "crs b crsref stanza id 1" },
        { N::POS2_VALID, "position 2 valid" },
        { N::POS2_QUALITY, "position 2 quality" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderPos3>("GeneralHeaderPos3", t);
}
extern "C" void sc_C28_GeneralHeaderRel()
{
    using N = C::GeneralHeaderRel::Name;
    static P<N> const t[] = {
        { N::OFFSET_EAST, "offset easting" },
        { N::OFFSET_NORTH, "offset northing" },
        { N::OFFSET_VERT, "offset vertical" },
        { N::DESCRIPTION, "description" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderRel>("GeneralHeaderRel", t);
}
extern "C" void sc_C28_GeneralHeaderSen()
{
    using N = C::GeneralHeaderSen::Name;
    static P<N> const t[] = {
        { N::INSTRUMENT_TEST_TIME, "instrument test time" },
        { N::SENSOR_SENSITIVITY, "sensor sensitivity" },
        { N::INSTR_TEST_RESULT, "instr test result" },
        { N::SERIAL_NUMBER, "serial number" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderSen>("GeneralHeaderSen", t);
}
extern "C" void sc_C28_GeneralHeaderSCa()
{
    using N = C::GeneralHeaderSCa::Name;
    static P<N> const t[] = {
        { N::FREQUENCY_1, "frequency 1" },
        { N::AMPLITUDE_1, "amplitude 1" },
        { N::PHASE_1, "phase 1" },
        { N::FREQUENCY_2, "frequency 2" },
        { N::AMPLITUDE_2, "amplitude 2" },
        { N::PHASE_2, "phase 2" },
        { N::ALIBRATION_APPLIED, "calibration applied" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderSCa>("GeneralHeaderSCa", t);
}
extern "C" void sc_C28_GeneralHeaderTim()
{
    using N = C::GeneralHeaderTim::Name;
    static P<N> const t[] = {
        { N::TIME_OF_DEPLOYMENT, "time of deployment" },
        { N::TIME_OF_RETRIEVAL, "time of retrieval" },
        { N::TIMER_OFFSET_DEPLOYMENT, "timer offset deployment" },
        { N::TIME_OFFSET_RETRIEVAL, "time offset retrieval" },
        { N::TIMEDRIFT_CORRECTED, "timedrift corrected" },
        { N::CORRECTION_METHOD, "correction method" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderTim>("GeneralHeaderTim", t);
}
extern "C" void sc_C28_GeneralHeaderElSR()
{
    using N = C::GeneralHeaderElSR::Name;
    static P<N> const t[] = {
        { N::EQUIPMENT_DIMENTION_X, "equipment dimension x" },
        { N::EQUIPMENT_DIMENTION_Y, "equipment dimension y" },
        { N::EQUIPMENT_DIMENTION_Z, "equipment dimension z" },
        { N::POSITIVE_TERMINAL, "positive terminal" },
        { N::EQUIPMENT_OFFSET_X, "equipment offset x" },
        { N::EQUIPMENT_OFFSET_Y, "equipment offset y" },
        { N::EQUIPMENT_OFFSET_Z, "equipment offset z" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderElSR>("GeneralHeaderElSR", t);
}
extern "C" void sc_C28_GeneralHeaderOri()
{
    using N = C::GeneralHeaderOri::Name;
    static P<N> const t[] = {
        { N::ROTATION_X_AXIS, "rotation x axis" },
        { N::ROTATION_Y_AXIS, "rotation y axis" },
        { N::ROTATION_Z_AXIS, "rotation z axis" },
        { N::REFERENCE_ORIENT, "reference orientation" },
        { N::TIME_STAMP, "time stamp" },
        { N::ORIENT_TYPE, "orientation type" },
        { N::REF_ORIENT_VALID, "ref orient valid" },
        { N::ROTATION_APPLIED, "rotation applied" },
        { N::ROT_NORTH_APPLIED, "rot north applied" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderOri>("GeneralHeaderOri", t);
}
extern "C" void sc_C28_GeneralHeaderMeas()
{
    using N = C::GeneralHeaderMeas::Name;
    static P<N> const t[] = {
        { N::TIMESTAMP, "timestamp" },
        { N::MEASUREMENT_VALUE, "measurement value" },
        { N::MAXIMUM_VALUE, "maximum value" },
        { N::MINIMUM_VALUE, "minimum value" },
        { N::QUANTITY_CLASS, "quantity class" },
        { N::UNIT_OF_MEASURE, "unit of measure" },
        { N::MEASUREMENT_DESCRIPTION, "measurement description" },
        { N::GEN_HEADER_TYPE, "general header type" },
    };
    table<C::GeneralHeaderMeas>("GeneralHeaderMeas", t);
}
extern "C" void sc_C28_ChannelSetHeader()
{
    using N = C::ChannelSetHeader::Name;
    static P<N> const t[] = {
        { N::SCAN_TYPE_NUMBER, "scan type number" },
        { N::CHANNEL_SET_NUMBER, "channel set number" },
        { N::CHANNEL_TYPE, "channel type" },
        { N::CHANNEL_SET_START_TIME, "channel set start time" },
        { N::CHANNEL_SET_END_TIME, "channel set end time" },
        { N::DESCALE_MULTIPLIER, "descale multiplier" },
        { N::NUMBER_OF_CHANNELS, "number of channels" },
        { N::SUBSCANS_PER_CH_SET, "subscans per channel set" },
        { N::CHANNEL_GAIN, "channel gain" },
        { N::ALIAS_FILTER_FREQ, "alias filter frequency" },
        { N::ALIAS_FILTER_SLOPE, "alias filter slope" },
        { N::LOW_CUT_FILTER_FREQ, "low cut filter frequency" },
        { N::LOW_CUT_FILTER_SLOPE, "low cut filter slope" },
        { N::FIRST_NOTCH_FILTER, "first notch filter" },
        { N::SECOND_NOTCH_FILTER, "second notch filter" },
        { N::THIRD_NOTCH_FILTER, "third notch filter" },
        { N::EXT_CH_SET_NUM, "extended channel set number" },
        { N::EXT_HDR_FLAG, "extended header flag" },
        { N::TRC_HDR_EXT, "trace header extension" },
        { N::VERT_STACK, "stack" },
        { N::STREAMER_NO, "streamer no" },
        { N::ARRAY_FORMING, "array forming" },
        { N::NUMBER_OF_SAMPLES, "number of samples" },
        { N::SAMPLE_INTERVAL, "sample interval" },
        { N::FILTER_PHASE, "filter phase" },
        { N::PHYSICAL_UNIT, "physical unit" },
        { N::FILTER_DELAY, "filter delay" },
        { N::DESCRIPTION, "description" },
    };
    table<C::ChannelSetHeader>("ChannelSetHeader", t);
}
struct E { uint32_t off; char const* name; VT type; };
static int width(VT t)
{
    switch (t) {
    case VT::int8_t: case VT::uint8_t: return 1;
    case VT::int16_t: case VT::uint16_t: return 2;
    case VT::int24_t: case VT::uint24_t: return 3;
    case VT::int64_t: case VT::uint64_t: case VT::ieee_double: return 8;
    default: return 4;
    }
}
static void map(EMaps const& m, std::vector<std::vector<E>> const& w)
{
    eq("number of extensions", m.size(), w.size());
    std::map<std::string, int> seen;
    for (size_t i = 0; i < m.size() && i < w.size(); ++i) {
        eq(lbl("number of values of extension", i), m[i].size(), w[i].size());
        uint32_t end = 0;
        for (auto& e : m[i]) {
            eq(e.second.first + " begins after the value before it", e.first >= end, 1);
            end = e.first + width(e.second.second);
            eq(e.second.first + " lies in the extension", end <= 32, 1);
            eq(e.second.first + " occurs once", seen[e.second.first]++, 0);
        }
        for (auto& e : w[i]) {
            auto it = m[i].find(e.off);
            eq(std::string(e.name) + " is at its place", it != m[i].end() && it->second.first == e.name && it->second.second == e.type, 1);
        }
    }
}
extern "C" void sc_C28_sercel_428xl()
{
    map(C::sercel_428xl, {
        {
            { 0, "R_LINE", VT::uint24_t },
            { 3, "R_POINT", VT::uint24_t },
            { 6, "R_POINT_IDX", VT::uint8_t },
            { 7, "SAMP_NUM", VT::uint24_t },
            { 20, "SENSOR_TYPE", VT::uint8_t },
        },
        {
            { 0, "REC_X", VT::ieee_double },
            { 8, "REC_Y", VT::ieee_double },
            { 16, "R_ELEV", VT::ieee_single },
            { 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
            { 28, "TRACE_NUMBER", VT::uint32_t },
        },
        {
            { 0, "RESIST_LOW_LIMIT", VT::ieee_single },
            { 4, "RESIST_HIGH_LIMIT", VT::ieee_single },
            { 8, "RESIST_VALUE", VT::ieee_single },
            { 12, "TILT_LIMIT", VT::ieee_single },
            { 16, "TILT_VALUE", VT::ieee_single },
            { 20, "RESIST_ERROR", VT::uint8_t },
            { 21, "TILT_ERROR", VT::uint8_t },
        },
        {
            { 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
            { 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
            { 8, "CAPACIT_VALUE", VT::ieee_single },
            { 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
            { 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
            { 20, "CUT_OFF_VALUE", VT::ieee_single },
            { 24, "CAPACIT_ERROR", VT::uint8_t },
            { 25, "CUT_OFF_ERROR", VT::uint8_t },
        },
        {
            { 0, "LEAKAGE_LIMIT", VT::ieee_single },
            { 4, "LEAKAGE_VALUE", VT::ieee_single },
            { 24, "LEAKAGE_ERROR", VT::uint8_t },
        },
        {
            { 0, "UNIT_TYPE", VT::uint8_t },
            { 1, "UNIT_SERIAL_NUM", VT::uint24_t },
            { 4, "CHANNEL_NUM", VT::uint8_t },
            { 8, "FDU_ASS_TYPE", VT::uint8_t },
            { 9, "FDU_ASS_SERIAL", VT::uint24_t },
            { 12, "FDU_ASS_LOC", VT::uint8_t },
            { 16, "FDU_UNIT_TYPE", VT::uint8_t },
            { 17, "CHANNEL_TYPE", VT::uint8_t },
            { 20, "SENSOR_SENSITIVITY", VT::ieee_single },
        },
        {
            { 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
            { 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
            { 4, "CHAN_GAIN_SCALE", VT::uint8_t },
            { 5, "CHAN_FILTER", VT::uint8_t },
            { 6, "CHAN_DATA_ERROR", VT::uint8_t },
            { 7, "CHAN_EDIT_STATUS", VT::uint8_t },
            { 8, "SAMP_TO_V_CONV", VT::ieee_single },
            { 12, "NUM_OF_STACKS_NOISY", VT::uint8_t },
            { 13, "NUM_OF_STACKS_LOW", VT::uint8_t },
            { 14, "CHAN_TYPE_ID", VT::uint8_t },
            { 15, "CHAN_PROCESS", VT::uint8_t },
            { 16, "TRC_MAX_VALUE", VT::ieee_single },
            { 20, "TRC_MAX_TIME", VT::uint32_t },
            { 24, "NUM_OF_INTERPOLAT", VT::uint32_t },
        },
    });
}
extern "C" void sc_C28_sercel_428()
{
    map(C::sercel_428, {
        {
            { 0, "R_LINE", VT::uint24_t },
            { 3, "R_POINT", VT::uint24_t },
            { 6, "R_POINT_IDX", VT::uint8_t },
            { 7, "SAMP_NUM", VT::uint24_t },
            { 20, "SENSOR_TYPE", VT::uint8_t },
        },
        {
            { 0, "REC_X", VT::ieee_double },
            { 8, "REC_Y", VT::ieee_double },
            { 16, "R_ELEV", VT::ieee_single },
            { 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
            { 28, "TRACE_NUMBER", VT::uint32_t },
        },
        {
            { 0, "DC_OFFSET", VT::ieee_single },
        },
        {
            { 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
            { 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
            { 8, "CAPACIT_VALUE", VT::ieee_single },
            { 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
            { 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
            { 20, "CUT_OFF_VALUE", VT::ieee_single },
            { 24, "CAPACIT_ERROR", VT::uint8_t },
            { 25, "CUT_OFF_ERROR", VT::uint8_t },
        },
        {
            { 0, "LEAKAGE_LIMIT", VT::ieee_single },
            { 4, "LEAKAGE_VALUE", VT::ieee_single },
            { 24, "LEAKAGE_ERROR", VT::uint8_t },
        },
        {
            { 0, "UNIT_TYPE", VT::uint8_t },
            { 1, "UNIT_SERIAL_NUM", VT::uint24_t },
            { 4, "CHANNEL_NUM", VT::uint8_t },
            { 8, "FDU_ASS_TYPE", VT::uint8_t },
            { 9, "FDU_ASS_SERIAL", VT::uint24_t },
            { 12, "FDU_ASS_LOC", VT::uint8_t },
            { 16, "FDU_UNIT_TYPE", VT::uint8_t },
            { 20, "SENSOR_SENSITIVITY", VT::ieee_single },
            { 24, "EXT_UNIT_SERIAL", VT::uint32_t },
            { 28, "EXT_FDU_ASS_SERIAL", VT::uint32_t },
        },
        {
            { 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
            { 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
            { 4, "CHAN_GAIN_SCALE", VT::uint8_t },
            { 5, "CHAN_FILTER", VT::uint8_t },
            { 6, "CHAN_DATA_ERROR", VT::uint8_t },
            { 7, "CHAN_EDIT_STATUS", VT::uint8_t },
            { 8, "SAMP_TO_V_CONV", VT::ieee_single },
            { 13, "REMOVED_OFFSET", VT::uint8_t },
            { 14, "CHAN_TYPE_ID", VT::uint8_t },
            { 15, "CHAN_PROCESS", VT::uint8_t },
            { 16, "ANAL_LOW_CUR_FILT", VT::ieee_single },
            { 20, "DIG_LOW_CUT_FILT", VT::ieee_single },
            { 24, "NUM_OF_EDITIONS", VT::uint32_t },
            { 28, "COMP_LOW_CUT_FILT", VT::ieee_single },
        },
    });
}
extern "C" void sc_C28_sercel_408()
{
    map(C::sercel_408, {
        {
            { 0, "R_LINE", VT::uint24_t },
            { 3, "R_POINT", VT::uint24_t },
            { 6, "R_POINT_IDX", VT::uint8_t },
            { 7, "SAMP_NUM", VT::uint24_t },
            { 20, "SENSOR_TYPE", VT::uint8_t },
        },
        {
            { 0, "REC_X", VT::ieee_double },
            { 8, "REC_Y", VT::ieee_double },
            { 16, "R_ELEV", VT::ieee_single },
            { 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
        },
        {
            { 0, "DC_OFFSET", VT::ieee_single },
        },
        {
            { 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
            { 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
            { 8, "CAPACIT_VALUE", VT::ieee_single },
            { 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
            { 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
            { 20, "CUT_OFF_VALUE", VT::ieee_single },
            { 24, "CAPACIT_ERROR", VT::uint8_t },
            { 25, "CUT_OFF_ERROR", VT::uint8_t },
        },
        {
            { 0, "LEAKAGE_LIMIT", VT::ieee_single },
            { 4, "LEAKAGE_VALUE", VT::ieee_single },
            { 24, "LEAKAGE_ERROR", VT::uint8_t },
        },
        {
            { 0, "UNIT_TYPE", VT::uint8_t },
            { 1, "UNIT_SERIAL_NUM", VT::uint24_t },
            { 4, "CHANNEL_NUM", VT::uint8_t },
            { 8, "FDU_ASS_TYPE", VT::uint8_t },
            { 9, "FDU_ASS_SERIAL", VT::uint24_t },
            { 12, "FDU_ASS_LOC", VT::uint8_t },
            { 16, "FDU_UNIT_TYPE", VT::uint8_t },
            { 17, "CHANNEL_TYPE", VT::uint8_t },
            { 20, "SENSOR_SENSITIVITY", VT::ieee_single },
        },
        {
            { 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
            { 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
            { 4, "CHAN_GAIN_SCALE", VT::uint8_t },
            { 5, "CHAN_FILTER", VT::uint8_t },
            { 6, "CHAN_DATA_ERROR", VT::uint8_t },
            { 7, "CHAN_EDIT_STATUS", VT::uint8_t },
            { 8, "SAMP_TO_V_CONV", VT::ieee_single },
            { 14, "CHAN_TYPE_ID", VT::uint8_t },
            { 15, "CHAN_PROCESS", VT::uint8_t },
            { 16, "TRC_MAX_VALUE", VT::ieee_single },
            { 20, "TRC_MAX_TIME", VT::uint32_t },
            { 24, "NUM_OF_INTERPOLAT", VT::uint32_t },
            { 28, "COMP_LOW_CUT_FILT", VT::ieee_single },
        },
    });
}
