#include "segdw.hpp"
#include "OSEGD.hpp"
// revision 3 headers put out by a writer derived from the abstract SEG-D writer, as its documentation invites
static char const* const F = "out.segd";
namespace {
using Adds = std::vector<std::shared_ptr<C::AdditionalGeneralHeader>>;
struct W : OSEGD {
    W(C::GeneralHeader g, C::GeneralHeader2 g2, C::GeneralHeader3 g3, std::vector<std::vector<C::ChannelSetHeader>> sets, Adds adds = {})
        : OSEGD(F, g, g2, g3, sets, adds)
    {
        assign_raw_writers();
        assign_sample_writers();
        write_general_header1();
        write_general_header2_and_3();
        write_rev3_add_gen_hdrs();
        common().ch_set_hdr_buf.resize(C::CH_SET_HDR_R3_SIZE);
        for (auto& t : common().channel_sets)
            for (auto& h : t)
                write_ch_set_hdr(h);
    }
    void write_trace(Trace& t) override
    {
        write_trace_header(t.header());
        write_ext_trace_headers(t.header());
        write_trace_samples(t);
    }
};
void text(std::string const& l, uint64_t o, char const* p, int n)
{
    for (int i = 0; i < n; ++i)
        eq(l + " character " + std::to_string(i), sv_filebyte(F, o + i), static_cast<uint8_t>(p[i]));
}
void fill(char* p, char const* name, int n)
{
    for (int i = 0; i < n; ++i)
        p[i] = sv_u8((name + std::to_string(i)).c_str());
}
C::GeneralHeader g1(int add)
{
    C::GeneralHeader g = gh1();
    g.add_gen_hdr_blocks = add;
    return g;
}
C::GeneralHeader2 g2()
{
    C::GeneralHeader2 h;
    memset(&h, 0, sizeof h);
    h.segd_rev_major = 3;
    h.gen_hdr_block_num = 2;
    return h;
}
C::GeneralHeader3 g3()
{
    C::GeneralHeader3 h;
    memset(&h, 0, sizeof h);
    h.gen_hdr_block_num = 3;
    return h;
}
C::ChannelSetHeader set3(int n = 0)
{
    std::array<char, 27> d;
    d.fill(' ');
    return C::ChannelSetHeader(1, 1, 1, 0, 0, 0, n, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1000, 0, 0, 0, d);
}
template <typename H, typename Fn, typename Ck> void block(int type, Fn set, Ck ck)
{
    auto h = std::make_shared<H>();
    h->gen_hdr_block_type = type;
    set(*h);
    // a second block of another type follows or precedes it
    auto other = std::make_shared<C::GeneralHeaderCli>();
    auto third = std::make_shared<C::GeneralHeaderMeas>();
    int company = sv_param("company", 0, 2);
    Adds adds;
    uint64_t b = 96;
    if (company) {
        if (type != C::AdditionalGeneralHeader::CLIENT_NAME) {
            fill(other->client_name, "oc", 31);
            other->gen_hdr_block_type = C::AdditionalGeneralHeader::CLIENT_NAME;
            adds.push_back(other);
        }
        adds.push_back(h);
        if (type != C::AdditionalGeneralHeader::MEASUREMENT_BLK) {
            memset(&third->timestamp, 0, 8);
            third->measurement_value = third->maximum_value = third->minimum_value = 0;
            third->quantity_class = third->unit_of_measure = third->measurement_description = 0;
            third->gen_hdr_block_type = C::AdditionalGeneralHeader::MEASUREMENT_BLK;
            adds.push_back(third);
        }
    } else
        adds.push_back(h);
    int n = adds.size();
    {
        W w(g1(2 + n), g2(), g3(), { { set3() } }, adds);
    }
    eq("file size", sv_filesize(F), 96 + 32 * n + 96);
    // blocks may come in any order: find the one of this type by its type byte
    int found = 0;
    for (int i = 0; i < n; ++i)
        if (sv_filebyte(F, 96 + 32 * i + 31) == type) {
            b = 96 + 32 * i;
            ++found;
        }
    eq("blocks of this type", found, 1);
    if (found == 1)
        ck(b);
    if (company && type != C::AdditionalGeneralHeader::CLIENT_NAME)
        for (int i = 0; i < n; ++i)
            if (sv_filebyte(F, 96 + 32 * i + 31) == C::AdditionalGeneralHeader::CLIENT_NAME)
                text("client name in company", 96 + 32 * i, other->client_name, 31);
}
template <typename H> void sset(H& h)
{
    h.expanded_file_number = sv_u32("efn") & 0xffffff;
    h.sou_line_num = sv::sx(sv_u32("li") & 0xffffff, 3) + sv_u16("lf") / 65536.0;
    h.sou_point_num = sv::sx(sv_u32("pi") & 0xffffff, 3) + sv_u16("pf") / 65536.0;
    h.sou_point_index = sv_u8("pidx");
    h.source_id = sv_u8("sid");
    h.source_set_num = sv_u8("ssn");
    h.reshoot_idx = sv_u8("ri");
    h.group_idx = sv_u8("gi");
    h.depth_idx = sv_u8("di");
    h.offset_crossline = sv_u16("oc");
    h.offset_inline = sv_u16("oi");
    h.size = sv_u16("sz");
    h.offset_depth = sv_u16("od");
}
void sck(uint64_t b)
{
    eq("expanded_file_number", u(F, b, 3), sv_u32("efn") & 0xffffff);
    eq("sou_line_num whole", u(F, b + 3, 3), sv_u32("li") & 0xffffff);
    eq("sou_line_num fraction", u(F, b + 6, 2), sv_u16("lf"));
    eq("sou_point_num whole", u(F, b + 8, 3), sv_u32("pi") & 0xffffff);
    eq("sou_point_num fraction", u(F, b + 11, 2), sv_u16("pf"));
    eq("sou_point_index", u(F, b + 13, 1), sv_u8("pidx"));
    eq("source_id", u(F, b + 18, 1), sv_u8("sid"));
    eq("source_set_num", u(F, b + 19, 1), sv_u8("ssn"));
    eq("reshoot_idx", u(F, b + 20, 1), sv_u8("ri"));
    eq("group_idx", u(F, b + 21, 1), sv_u8("gi"));
    eq("depth_idx", u(F, b + 22, 1), sv_u8("di"));
    eq("offset_crossline", u(F, b + 23, 2), sv_u16("oc"));
    eq("offset_inline", u(F, b + 25, 2), sv_u16("oi"));
    eq("size", u(F, b + 27, 2), sv_u16("sz"));
    eq("offset_depth", u(F, b + 29, 2), sv_u16("od"));
}
}
// text blocks
extern "C" void sc_C31_text()
{
    using A = C::AdditionalGeneralHeader;
    char t[40];
    fill(t, "t", 40);
    switch (sv_param("block", 0, 6)) {
    case 0:
        block<C::GeneralHeaderVes>(0x10, [&](auto& h) { memcpy(h.abbr_vessel_crew_name, t, 3); memcpy(h.vessel_crew_name, t + 3, 28); },
            [&](uint64_t b) { text("vessel", b, t, 31); });
        break;
    case 1: block<C::GeneralHeaderSur>(0x11, [&](auto& h) { memcpy(h.survey_area_name, t, 31); }, [&](uint64_t b) { text("survey", b, t, 31); }); break;
    case 2: block<C::GeneralHeaderCli>(0x12, [&](auto& h) { memcpy(h.client_name, t, 31); }, [&](uint64_t b) { text("client", b, t, 31); }); break;
    case 3:
        block<C::GeneralHeaderJob>(0x13, [&](auto& h) { memcpy(h.abbr_job_id, t, 5); memcpy(h.job_id, t + 5, 26); }, [&](uint64_t b) { text("job", b, t, 31); });
        break;
    case 4:
        block<C::GeneralHeaderLin>(0x14, [&](auto& h) { memcpy(h.line_abbr, t, 7); memcpy(h.line_id, t + 7, 24); }, [&](uint64_t b) { text("line", b, t, 31); });
        break;
    case 5: block<C::GeneralHeaderCoord>(0x55, [&](auto& h) { memcpy(h.crs, t, 31); }, [&](uint64_t b) { text("crs", b, t, 31); }); break;
    }
}
extern "C" void sc_C31_source()
{
    switch (sv_param("block", 0, 6)) {
    case 0:
        block<C::GeneralHeaderVib>(0x15, [](auto& h) { sset(h); h.phase_control = sv_u8("pc"); h.type_vibrator = sv_u8("tv"); h.phase_angle = static_cast<int16_t>(sv_u16("pa")); },
            [](uint64_t b) { sck(b); eq("phase_control", u(F, b + 14, 1), sv_u8("pc")); eq("type_vibrator", u(F, b + 15, 1), sv_u8("tv")); eq("phase_angle", u(F, b + 16, 2), sv_u16("pa")); });
        break;
    case 1:
        block<C::GeneralHeaderExp>(0x16, [](auto& h) { sset(h); h.depth = sv_u16("dp"); h.charge_length = sv_u8("cl"); h.soil_type = sv_u8("st"); },
            [](uint64_t b) { sck(b); eq("depth", u(F, b + 14, 2), sv_u16("dp")); eq("charge_length", u(F, b + 16, 1), sv_u8("cl")); eq("soil_type", u(F, b + 17, 1), sv_u8("st")); });
        break;
    case 2:
        block<C::GeneralHeaderAir>(0x17, [](auto& h) { sset(h); h.depth = sv_u16("dp"); h.air_pressure = sv_u16("ap"); },
            [](uint64_t b) { sck(b); eq("depth", u(F, b + 14, 2), sv_u16("dp")); eq("air_pressure", u(F, b + 16, 2), sv_u16("ap")); });
        break;
    case 3:
        block<C::GeneralHeaderWat>(0x18, [](auto& h) { sset(h); h.depth = sv_u16("dp"); h.air_pressure = sv_u16("ap"); },
            [](uint64_t b) { sck(b); eq("depth", u(F, b + 14, 2), sv_u16("dp")); eq("air_pressure", u(F, b + 16, 2), sv_u16("ap")); });
        break;
    case 4:
        block<C::GeneralHeaderEle>(0x19, [](auto& h) { sset(h); h.source_type = sv_u8("st"); h.moment = sv_u32("mo") & 0xffffff; },
            [](uint64_t b) { sck(b); eq("source_type", u(F, b + 14, 1), sv_u8("st")); eq("moment", u(F, b + 15, 3), sv_u32("mo") & 0xffffff); });
        break;
    case 5:
        block<C::GeneralHeaderOth>(0x1f, [](auto& h) { sset(h); }, [](uint64_t b) { sck(b); zeros(F, b + 14, b + 18); });
        break;
    }
}
#define B1(f, o) eq(#f, u(F, b + o, 1), sv_u8(#f));
#define B2(f, o) eq(#f, u(F, b + o, 2), sv_u16(#f));
#define B3(f, o) eq(#f, u(F, b + o, 3), sv_u32(#f) & 0xffffff);
#define B4(f, o) eq(#f, u(F, b + o, 4), sv_u32(#f));
#define B8(f, o) eq(#f, u(F, b + o, 8), sv_u64(#f));
#define S1(f) h.f = sv_u8(#f);
#define S2(f) h.f = sv_u16(#f);
#define S3(f) h.f = sv_u32(#f) & 0xffffff;
#define S4(f) h.f = sv_u32(#f);
#define S8(f) h.f = sv_u64(#f);
extern "C" void sc_C31_other()
{
    switch (sv_param("block", 0, 11)) {
    case 0:
        block<C::GeneralHeaderAdd>(0x20, [](auto& h) { S8(time) S1(source_status) S1(source_id) S1(source_moving) fill(h.error_description, "e", 20); },
            [](uint64_t b) { char e[20]; fill(e, "e", 20); B8(time, 0) B1(source_status, 8) B1(source_id, 9) B1(source_moving, 10) text("error_description", b + 11, e, 20); });
        break;
    case 1: {
        Digits d { sv_param("digits", 0, 4) };
        int st[5];
        for (int& x : st) x = d(2);
        block<C::GeneralHeaderSaux>(0x21, [&](auto& h) {
                S1(source_id) S2(ch_set_num_1) S3(trace_num_1) S2(ch_set_num_2) S3(trace_num_2) S2(ch_set_num_3) S3(trace_num_3) S2(ch_set_num_4) S3(trace_num_4) S2(ch_set_num_5) S3(trace_num_5)
                h.scan_type_num_1 = st[0]; h.scan_type_num_2 = st[1]; h.scan_type_num_3 = st[2]; h.scan_type_num_4 = st[3]; h.scan_type_num_5 = st[4]; },
            [&](uint64_t b) {
                B1(source_id, 0)
                for (int i = 0; i < 5; ++i) eqbcd("scan_type_num", F, b + 1 + 6 * i, 0, 2, st[i]);
                B2(ch_set_num_1, 2) B3(trace_num_1, 4) B2(ch_set_num_2, 8) B3(trace_num_2, 10) B2(ch_set_num_3, 14) B3(trace_num_3, 16) B2(ch_set_num_4, 20) B3(trace_num_4, 22)
                B2(ch_set_num_5, 26) B3(trace_num_5, 28) });
        break;
    }
    case 2:
        block<C::GeneralHeaderSen>(0x41, [](auto& h) { S8(instrument_test_time) S4(sensor_sensitivity) S1(instr_test_result) fill(h.serial_number, "s", 18); },
            [](uint64_t b) { char e[18]; fill(e, "s", 18); B8(instrument_test_time, 0) B4(sensor_sensitivity, 8) B1(instr_test_result, 12) text("serial_number", b + 13, e, 18); });
        break;
    case 3:
        block<C::GeneralHeaderSCa>(0x43, [](auto& h) { S4(freq1) S4(amp1) S4(phase1) S4(freq2) S4(amp2) S4(phase2) S1(calib_applied) },
            [](uint64_t b) { B4(freq1, 0) B4(amp1, 4) B4(phase1, 8) B4(freq2, 12) B4(amp2, 16) B4(phase2, 20) B1(calib_applied, 24) zeros(F, b + 25, b + 31); });
        break;
    case 4:
        block<C::GeneralHeaderTim>(0x44, [](auto& h) { S8(time_of_depl) S8(time_of_retr) S4(timer_offset_depl) S4(time_offset_retr) S1(timedrift_corr) S1(corr_method) },
            [](uint64_t b) { B8(time_of_depl, 0) B8(time_of_retr, 8) B4(timer_offset_depl, 16) B4(time_offset_retr, 20) B1(timedrift_corr, 24) B1(corr_method, 25) zeros(F, b + 26, b + 31); });
        break;
    case 5:
        block<C::GeneralHeaderElSR>(0x45, [](auto& h) { S3(equip_dim_x) S3(equip_dim_y) S3(equip_dim_z) S1(pos_term) S3(equip_offset_x) S3(equip_offset_y) S3(equip_offset_z) },
            [](uint64_t b) { B3(equip_dim_x, 0) B3(equip_dim_y, 3) B3(equip_dim_z, 6) B1(pos_term, 9) B3(equip_offset_x, 10) B3(equip_offset_y, 13) B3(equip_offset_z, 16) zeros(F, b + 19, b + 31); });
        break;
    case 6:
        block<C::GeneralHeaderPos1>(0x50, [](auto& h) { S8(time_of_position) S8(time_of_measurement) S4(vert_error) S4(hor_error_semi_major) S4(hor_error_semi_minor) S2(hor_error_orientation) S1(position_type) },
            [](uint64_t b) { B8(time_of_position, 0) B8(time_of_measurement, 8) B4(vert_error, 16) B4(hor_error_semi_major, 20) B4(hor_error_semi_minor, 24) B2(hor_error_orientation, 28) B1(position_type, 30) });
        break;
    case 7:
        block<C::GeneralHeaderPos2>(0x51, [](auto& h) { S8(crs_a_coord1) S8(crs_a_coord2) S8(crs_a_coord3) S2(crs_a_crsref) S1(pos1_valid) S1(pos1_quality) },
            [](uint64_t b) { B8(crs_a_coord1, 0) B8(crs_a_coord2, 8) B8(crs_a_coord3, 16) B2(crs_a_crsref, 24) B1(pos1_valid, 26) B1(pos1_quality, 27) zeros(F, b + 28, b + 31); });
        break;
    case 8:
        block<C::GeneralHeaderPos3>(0x52, [](auto& h) { S8(crs_b_coord1) S8(crs_b_coord2) S8(crs_b_coord3) S2(crs_b_crsref) S1(pos2_valid) S1(pos2_quality) },
            [](uint64_t b) { B8(crs_b_coord1, 0) B8(crs_b_coord2, 8) B8(crs_b_coord3, 16) B2(crs_b_crsref, 24) B1(pos2_valid, 26) B1(pos2_quality, 27) zeros(F, b + 28, b + 31); });
        break;
    case 9:
        block<C::GeneralHeaderOri>(0x60, [](auto& h) { S4(rot_x) S4(rot_y) S4(rot_z) S4(ref_orientation) S8(time_stamp) S1(ori_type) S1(ref_orient_valid) S1(rot_applied) S1(rot_north_applied) },
            [](uint64_t b) { B4(rot_x, 0) B4(rot_y, 4) B4(rot_z, 8) B4(ref_orientation, 12) B8(time_stamp, 16) B1(ori_type, 24) B1(ref_orient_valid, 25) B1(rot_applied, 26) B1(rot_north_applied, 27) zeros(F, b + 28, b + 31); });
        break;
    case 10:
        block<C::GeneralHeaderMeas>(0x61, [](auto& h) { S8(timestamp) S4(measurement_value) S4(maximum_value) S4(minimum_value) S2(quantity_class) S2(unit_of_measure) S2(measurement_description) },
            [](uint64_t b) { B8(timestamp, 0) B4(measurement_value, 8) B4(maximum_value, 12) B4(minimum_value, 16) B2(quantity_class, 20) B2(unit_of_measure, 22) B2(measurement_description, 24) zeros(F, b + 26, b + 31); });
        break;
    }
}
extern "C" void sc_C31_relative()
{
    block<C::GeneralHeaderRel>(0x56, [](auto& h) { S4(offset_east) S4(offset_north) S4(offset_vert) fill(h.description, "d", sizeof h.description); },
        [](uint64_t b) { char e[19]; fill(e, "d", 19); B4(offset_east, 0) B4(offset_north, 4) B4(offset_vert, 8) text("description", b + 12, e, 19); });
}
// general headers 2 and 3
extern "C" void sc_C31_general()
{
    C::GeneralHeader2 h;
    memset(&h, 0, sizeof h);
    h.expanded_file_num = sv_u32("efn") & 0xffffff;
    h.ext_ch_sets_per_scan_type = sv_u16("ecs");
    h.extended_hdr_blocks = sv_u32("ehb") & 0xffffff;
    h.extended_skew_blocks = sv_u16("esb");
    h.segd_rev_major = 3;
    h.segd_rev_minor = sv_u8("minor");
    h.gen_trailer_num_of_blocks = sv_u32("trl");
    h.ext_record_len = sv_u32("erl");
    h.record_set_number = sv_u16("rsn");
    h.ext_num_add_blks_in_gen_hdr = sv_u16("ena");
    h.dominant_sampling_int = sv_u32("dsi") & 0xffffff;
    h.external_hdr_blocks = sv_u32("exb") & 0xffffff;
    h.gen_hdr_block_num = sv_u8("bn2");
    if (sv_param("length zero", 0, 2))
        h.ext_record_len = 0;
    C::GeneralHeader3 k;
    memset(&k, 0, sizeof k);
    k.time_zero = sv_u64("tz");
    k.record_size = sv_u64("rs");
    k.data_size = sv_u64("ds");
    k.header_size = sv_u32("hs");
    k.extd_rec_mode = sv_u8("erm");
    k.rel_time_mode = sv_u8("rtm");
    k.gen_hdr_block_num = sv_u8("bn3");
    {
        W w(g1(2), h, k, { { set3() } });
    }
    eq("file size", sv_filesize(F), 96 + 96);
    uint64_t b = 32;
    eq("expanded file number", u(F, b, 3), h.expanded_file_num);
    eq("extended channel sets", u(F, b + 3, 2), sv_u16("ecs"));
    eq("extended header blocks", u(F, b + 5, 3), sv_u32("ehb") & 0xffffff);
    eq("extended skew blocks", u(F, b + 8, 2), sv_u16("esb"));
    eq("revision", u(F, b + 10, 1), 3);
    eq("minor revision", u(F, b + 11, 1), sv_u8("minor"));
    eq("trailer blocks", u(F, b + 12, 4), sv_u32("trl"));
    eq("record length", u(F, b + 16, 4), h.ext_record_len);
    eq("record set", u(F, b + 20, 2), sv_u16("rsn"));
    eq("additional blocks", u(F, b + 22, 2), sv_u16("ena"));
    eq("dominant interval", u(F, b + 24, 3), sv_u32("dsi") & 0xffffff);
    eq("external blocks", u(F, b + 27, 3), sv_u32("exb") & 0xffffff);
    zeros(F, b + 30, b + 31);
    eq("block number", u(F, b + 31, 1), sv_u8("bn2"));
    b = 64;
    eq("time zero", u(F, b, 8), sv_u64("tz"));
    eq("record size", u(F, b + 8, 8), sv_u64("rs"));
    eq("data size", u(F, b + 16, 8), sv_u64("ds"));
    eq("header size", u(F, b + 24, 4), sv_u32("hs"));
    eq("extended recording mode", u(F, b + 28, 1), sv_u8("erm"));
    eq("relative time mode", u(F, b + 29, 1), sv_u8("rtm"));
    zeros(F, b + 30, b + 31);
    eq("block number 3", u(F, b + 31, 1), sv_u8("bn3"));
}
// channel sets
extern "C" void sc_C31_sets()
{
    int n = sv_param("sets", 1, 3), t = sv_param("types", 1, 3), v = sv_param("digits", 0, 3);
    Digits dg { v };
    std::vector<std::vector<C::ChannelSetHeader>> sets(t);
    std::vector<int> st;
    auto nm = [](char const* s, int k) { return s + std::to_string(k); };
    auto N = [&](char const* s, int k) { static std::string x; x = nm(s, k); return x.c_str(); };
    for (int i = 0; i < t; ++i)
        for (int j = 0; j < n; ++j) {
            int k = i * n + j;
            std::array<char, 27> d;
            for (int q = 0; q < 27; ++q)
                d[q] = sv_u8((nm("d", k) + "." + std::to_string(q)).c_str());
            st.push_back(dg(2));
            C::ChannelSetHeader h(st.back(), sv_u16(N("csn", k)), sv_u8(N("ct", k)), sv_u32(N("start", k)), sv_u32(N("end", k)), sv::f32(sv_u32(N("dm", k))),
                sv_u32(N("ch", k)) & 0xffffff, 0, sv_u8(N("gain", k)) & 15, sv_u32(N("aff", k)), sv_u32(N("afs", k)), sv_u32(N("lcf", k)), sv_u32(N("lcs", k)),
                sv_u32(N("n1", k)), sv_u32(N("n2", k)), sv_u32(N("n3", k)), 0, sv_u8(N("ehf", k)) & 15, sv_u8(N("the", k)), sv_u8(N("vs", k)), sv_u8(N("sn", k)),
                sv_u8(N("af", k)), sv_u32(N("nos", k)), sv_u32(N("si", k)) & 0xffffff, sv_u8(N("fp", k)), sv_u8(N("pu", k)), sv_u32(N("fd", k)), d);
            sets[i].push_back(h);
        }
    {
        C::GeneralHeader g = g1(2);
        g.scan_types_per_record = t;
        g.channel_sets_per_scan_type = n;
        W w(g, g2(), g3(), sets);
    }
    eq("file size", sv_filesize(F), 96 + 96 * n * t);
    for (int k = 0; k < n * t; ++k) {
        uint64_t b = 96 + 96 * k;
        eqbcd("scan type", F, b, 0, 2, st[k]);
        eq("channel set number", u(F, b + 1, 2), sv_u16(N("csn", k)));
        eq("channel type", u(F, b + 3, 1), sv_u8(N("ct", k)));
        eq("start time", u(F, b + 4, 4), sv_u32(N("start", k)));
        eq("end time", u(F, b + 8, 4), sv_u32(N("end", k)));
        eq("number of samples", u(F, b + 12, 4), sv_u32(N("nos", k)));
        eqd("descale multiplier", sv::f32(u(F, b + 16, 4)), sv::f32(sv_u32(N("dm", k))));
        eq("number of channels", u(F, b + 20, 3), sv_u32(N("ch", k)) & 0xffffff);
        eq("sampling interval", u(F, b + 23, 3), sv_u32(N("si", k)) & 0xffffff);
        eq("array forming", u(F, b + 26, 1), sv_u8(N("af", k)));
        eq("trace header extensions", u(F, b + 27, 1), sv_u8(N("the", k)));
        eq("extended header flag", sv_filebyte(F, b + 28) >> 4, sv_u8(N("ehf", k)) & 15);
        eq("channel gain", sv_filebyte(F, b + 28) & 15, sv_u8(N("gain", k)) & 15);
        eq("vertical stack", u(F, b + 29, 1), sv_u8(N("vs", k)));
        eq("streamer number", u(F, b + 30, 1), sv_u8(N("sn", k)));
        zeros(F, b + 31, b + 32);
        eq("alias filter frequency", u(F, b + 32, 4), sv_u32(N("aff", k)));
        eq("low cut frequency", u(F, b + 36, 4), sv_u32(N("lcf", k)));
        eq("alias filter slope", u(F, b + 40, 4), sv_u32(N("afs", k)));
        eq("low cut slope", u(F, b + 44, 4), sv_u32(N("lcs", k)));
        eq("first notch", u(F, b + 48, 4), sv_u32(N("n1", k)));
        eq("second notch", u(F, b + 52, 4), sv_u32(N("n2", k)));
        eq("third notch", u(F, b + 56, 4), sv_u32(N("n3", k)));
        eq("filter phase", u(F, b + 60, 1), sv_u8(N("fp", k)));
        eq("physical unit", u(F, b + 61, 1), sv_u8(N("pu", k)));
        zeros(F, b + 62, b + 64);
        eq("filter delay", u(F, b + 64, 4), sv_u32(N("fd", k)));
        for (int q = 0; q < 27; ++q)
            eq("description", sv_filebyte(F, b + 68 + q), sv_u8((nm("d", k) + "." + std::to_string(q)).c_str()));
    }
}
// a record with traces reads back
extern "C" void sc_C31_roundtrip()
{
    int chans = sv_param("channels", 1, 4), ns = sv_param("samples", 0, 4), add = sv_param("blocks", 0, 3);
    std::array<char, 27> d;
    for (int q = 0; q < 27; ++q)
        d[q] = sv_u8(("d" + std::to_string(q)).c_str());
    C::ChannelSetHeader cs(1, 1, sv_u8("ct"), sv_u32("start"), sv_u32("end"), 0, chans, 0, 0, sv_u32("aff"), sv_u32("afs"), sv_u32("lcf"), sv_u32("lcs"), 0, 0, 0, 0, 0, 0, sv_u8("vs"), 0, 0,
        ns, sv_u32("si") & 0xffffff, sv_u8("fp"), sv_u8("pu"), sv_u32("fd"), d);
    Adds adds;
    if (add) {
        auto v = std::make_shared<C::GeneralHeaderVes>();
        fill(v->abbr_vessel_crew_name, "a", 3);
        fill(v->vessel_crew_name, "v", 28);
        v->gen_hdr_block_type = 0x10;
        adds.push_back(v);
    }
    if (add > 1) {
        auto x = std::make_shared<C::GeneralHeaderExp>();
        sset(*x);
        x->depth = sv_u16("dp");
        x->charge_length = sv_u8("cl");
        x->soil_type = sv_u8("st");
        x->gen_hdr_block_type = 0x16;
        adds.push_back(x);
    }
    C::GeneralHeader2 h2 = g2();
    h2.dominant_sampling_int = sv_u32("dsi") & 0xffffff;
    h2.ext_record_len = 1000;
    C::GeneralHeader3 h3 = g3();
    h3.time_zero = sv_u64("tz");
    {
        W w(g1(2 + add), h2, h3, { { cs } }, adds);
        for (int k = 0; k < chans; ++k) {
            std::unordered_map<std::string, Val> h { { "FFID", int64_t(17) }, { "SCAN_TYPE_NUM", int64_t(1) }, { "CH_SET_NUM", int64_t(1) }, { "CHAN", int64_t(k + 1) } };
            std::vector<double> v;
            for (int i = 0; i < ns; ++i)
                v.push_back(sv::f32(sv_u32(("x" + std::to_string(k) + "." + std::to_string(i)).c_str())));
            Trace t(std::move(h), std::move(v));
            static_cast<OSEGD&>(w).write_trace(t);
        }
    }
    ISEGD in(F);
    eq("revision", in.general_header2()->segd_rev_major, 3);
    eq("dominant interval", in.general_header2()->dominant_sampling_int, sv_u32("dsi") & 0xffffff);
    eq("time zero", in.general_header3()->time_zero, sv_u64("tz"));
    auto v = in.general_header_vessel_crew_id();
    eq("vessel block", v.has_value(), add > 0);
    if (v)
        for (int i = 0; i < 28; ++i)
            eq("vessel name", static_cast<uint8_t>(v->vessel_crew_name[i]), sv_u8(("v" + std::to_string(i)).c_str()));
    auto x = in.general_header_explosive_info();
    eq("explosive block", x.has_value(), add > 1);
    if (x) {
        eqd("source line", x->sou_line_num, sv::sx(sv_u32("li") & 0xffffff, 3) + sv_u16("lf") / 65536.0);
        eqd("source point", x->sou_point_num, sv::sx(sv_u32("pi") & 0xffffff, 3) + sv_u16("pf") / 65536.0);
        eq("source file number", x->expanded_file_number, sv_u32("efn") & 0xffffff);
        eq("source offset depth", x->offset_depth, sv_u16("od"));
    }
    auto& sets = in.channel_set_headers();
    eq("scan types", sets.size(), 1);
    eq("channel sets", sets[0].size(), 1);
    eq("channels", sets[0][0].number_of_channels, chans);
    eq("samples", *C::ChannelSetHeader(sets[0][0]).number_of_samples(), ns);
    eq("alias frequency", sets[0][0].alias_filter_freq, sv_u32("aff"));
    eq("low cut slope", sets[0][0].low_cut_filter_slope, sv_u32("lcs"));
    for (int k = 0; k < chans; ++k) {
        eq("has trace", in.has_trace(), 1);
        Trace t = in.read_trace();
        eq("channel", ival(t.header().get("CHAN"), "CHAN"), k + 1);
        eq("file", ival(t.header().get("FFID"), "FFID"), 17);
        eq("sample count", t.samples().size(), ns);
        for (int i = 0; i < ns && i < static_cast<int>(t.samples().size()); ++i)
            eqd("sample", t.samples()[i], sv::f32(sv_u32(("x" + std::to_string(k) + "." + std::to_string(i)).c_str())));
    }
    eq("no further trace", in.has_trace(), 0);
}
// the standard trace header extension of revision 3
extern "C" void sc_C31_extension()
{
    static int const chans[] = { 0, 1, 9999, 10000, 0xffffff };
    int ext = sv_param("extensions", 0, 3), c = chans[sv_param("channel", 0, 5)], absent = sv_param("absent", 0, 2);
    uint32_t line = sv_u32("line") & 0xffffff, point = sv_u32("point") & 0xffffff;
    {
        W w(g1(2), g2(), g3(), { { set3(1) } });
        std::unordered_map<std::string, Val> h { { "FFID", int64_t { 7 } }, { "CHAN", int64_t { c } }, { "TR_HDR_EXT", int64_t { ext } }, { "SAMP_NUM", int64_t { 2 } } };
        if (!absent) {
            h["R_LINE"] = line + sv_u16("lf") / 65536.0;
            h["R_POINT"] = int64_t { point };
            h["R_POINT_IDX"] = int64_t { sv_u8("rpi") };
            h["RESHOOT_IDX"] = int64_t { sv_u8("ri") };
            h["GROUP_IDX"] = int64_t { sv_u8("gi") };
            h["DEPTH_IDX"] = int64_t { sv_u8("di") };
            h["SENSOR_TYPE"] = int64_t { sv_u8("st") };
            h["SENSOR_MOVING"] = int64_t { sv_u8("sm") };
            h["PHYSICAL_UNIT"] = int64_t { sv_u8("pu") };
        }
        Trace t(h, { 1.0, 2.0 });
        static_cast<OSEGD&>(w).write_trace(t);
    }
    uint64_t b = 192;
    eq("file size", sv_filesize(F), b + 20 + 32 * ext + 8);
    if (c > 9999) eq("trace number mark", u(F, b + 4, 2), 0xffff);
    else eqbcd("trace number", F, b + 4, 0, 4, c);
    b += 20;
    if (ext) {
        auto k = [&](int64_t v) { return absent ? int64_t(0) : v; };
        eq("R_LINE", u(F, b, 3), k(line));
        eq("R_POINT", u(F, b + 3, 3), k(point));
        eq("R_POINT_IDX", u(F, b + 6, 1), k(sv_u8("rpi")));
        eq("RESHOOT_IDX", u(F, b + 7, 1), k(sv_u8("ri")));
        eq("GROUP_IDX", u(F, b + 8, 1), k(sv_u8("gi")));
        eq("DEPTH_IDX", u(F, b + 9, 1), k(sv_u8("di")));
        eq("extended line", u(F, b + 10, 3), k(line));
        eq("extended line fraction", u(F, b + 13, 2), k(sv_u16("lf")));
        eq("extended point", u(F, b + 15, 3), k(point));
        eq("extended point fraction", u(F, b + 18, 2), 0);
        eq("SENSOR_TYPE", u(F, b + 20, 1), k(sv_u8("st")));
        if (c > 9999) eq("extended trace number", u(F, b + 21, 3), c);
        eq("SAMP_NUM", u(F, b + 24, 4), 2);
        eq("SENSOR_MOVING", u(F, b + 28, 1), k(sv_u8("sm")));
        zeros(F, b + 29, b + 30);
        eq("PHYSICAL_UNIT", u(F, b + 30, 1), k(sv_u8("pu")));
        zeros(F, b + 31, b + 32 * ext);
    }
    eq("sample 0", u(F, b + 32 * ext, 4), 0x3f800000);
    eq("sample 1", u(F, b + 32 * ext + 4, 4), 0x40000000);
    ISEGD in(F);
    Trace t = in.read_trace();
    if (ext || c < 10000) eq("channel read back", ival(t.header().get("CHAN"), "CHAN"), c);
    eq("samples read back", t.samples().size(), 2);
}
