#include "segd.hpp"
// revision 3 additional general header blocks: each block type is decoded by its own layout and reported by its own getter
static char const* const f = "in.segd";
static void text(std::string const& l, char const* p, uint64_t o, int n)
{
    for (int i = 0; i < n; ++i)
        eq(l + " character " + std::to_string(i), static_cast<uint8_t>(p[i]), sv_filebyte(f, o + i));
}
template <typename H> void source(H& h, uint64_t b)
{
    eq("expanded_file_number", h.expanded_file_number, u(f, b, 3));
    eqd("sou_line_num", h.sou_line_num, s(f, b + 3, 3) + u(f, b + 6, 2) / 65536.0);
    eqd("sou_point_num", h.sou_point_num, s(f, b + 8, 3) + u(f, b + 11, 2) / 65536.0);
    eq("sou_point_index", h.sou_point_index, u(f, b + 13, 1));
    eq("source_id", h.source_id, u(f, b + 18, 1));
    eq("source_set_num", h.source_set_num, u(f, b + 19, 1));
    eq("reshoot_idx", h.reshoot_idx, u(f, b + 20, 1));
    eq("group_idx", h.group_idx, u(f, b + 21, 1));
    eq("depth_idx", h.depth_idx, u(f, b + 22, 1));
    eq("offset_crossline", h.offset_crossline, u(f, b + 23, 2));
    eq("offset_inline", h.offset_inline, u(f, b + 25, 2));
    eq("size", h.size, u(f, b + 27, 2));
    eq("offset_depth", h.offset_depth, u(f, b + 29, 2));
}
template <typename O> bool have(O& o, int type, int want)
{
    eq("presence of block type", o.has_value(), type == want);
    if (!o)
        return false;
    eq("block type", o->gen_hdr_block_type, want);
    eq("type()", o->type(), want);
    return true;
}
static void all(ISEGD& in, int type, uint64_t b)
{
    if (auto h = in.general_header_vessel_crew_id(); have(h, type, 0x10)) {
        text("abbr_vessel_crew_name", h->abbr_vessel_crew_name, b, 3);
        text("vessel_crew_name", h->vessel_crew_name, b + 3, 28);
    }
    if (auto h = in.general_header_survey_name(); have(h, type, 0x11))
        text("survey_area_name", h->survey_area_name, b, 31);
    if (auto h = in.general_header_client_name(); have(h, type, 0x12))
        text("client_name", h->client_name, b, 31);
    if (auto h = in.general_header_job_id(); have(h, type, 0x13)) {
        text("abbr_job_id", h->abbr_job_id, b, 5);
        text("job_id", h->job_id, b + 5, 26);
    }
    if (auto h = in.general_header_line_id(); have(h, type, 0x14)) {
        text("line_abbr", h->line_abbr, b, 7);
        text("line_id", h->line_id, b + 7, 24);
    }
    if (auto h = in.general_header_vibrator_info(); have(h, type, 0x15)) {
        source(*h, b);
        eq("phase_control", h->phase_control, u(f, b + 14, 1));
        eq("type_vibrator", h->type_vibrator, u(f, b + 15, 1));
        eq("phase_angle", h->phase_angle, s(f, b + 16, 2));
    }
    if (auto h = in.general_header_explosive_info(); have(h, type, 0x16)) {
        source(*h, b);
        eq("depth", h->depth, u(f, b + 14, 2));
        eq("charge_length", h->charge_length, u(f, b + 16, 1));
        eq("soil_type", h->soil_type, u(f, b + 17, 1));
    }
    if (auto h = in.general_header_airgun_info(); have(h, type, 0x17)) {
        source(*h, b);
        eq("depth", h->depth, u(f, b + 14, 2));
        eq("air_pressure", h->air_pressure, u(f, b + 16, 2));
    }
    if (auto h = in.general_header_watergun_info(); have(h, type, 0x18)) {
        source(*h, b);
        eq("depth", h->depth, u(f, b + 14, 2));
        eq("air_pressure", h->air_pressure, u(f, b + 16, 2));
    }
    if (auto h = in.general_header_electromagnetic_info(); have(h, type, 0x19)) {
        source(*h, b);
        eq("source_type", h->source_type, u(f, b + 14, 1));
        eq("moment", h->moment, u(f, b + 15, 3));
    }
    if (auto h = in.general_header_other_source_info(); have(h, type, 0x1f))
        source(*h, b);
    if (auto h = in.general_header_add_source_info(); have(h, type, 0x20)) {
        eq("time", h->time, u(f, b, 8));
        eq("source_status", h->source_status, u(f, b + 8, 1));
        eq("source_id", h->source_id, u(f, b + 9, 1));
        eq("source_moving", h->source_moving, u(f, b + 10, 1));
        text("error_description", h->error_description, b + 11, 20);
    }
    if (auto h = in.general_header_sou_aux_chan_ref(); have(h, type, 0x21)) {
        eq("source_id", h->source_id, u(f, b, 1));
#define AUX(n) \
        eq("scan_type_num_" #n, h->scan_type_num_##n, sv::bcd(f, b + 6 * n - 5, 0, 2)); \
        eq("ch_set_num_" #n, h->ch_set_num_##n, u(f, b + 6 * n - 4, 2)); \
        eq("trace_num_" #n, h->trace_num_##n, u(f, b + 6 * n - 2, 3));
        AUX(1) AUX(2) AUX(3) AUX(4) AUX(5)
    }
    if (auto h = in.general_header_sen_info_hdr_ext_blk(); have(h, type, 0x41)) {
        eq("instrument_test_time", h->instrument_test_time, u(f, b, 8));
        eq("sensor_sensitivity", h->sensor_sensitivity, u(f, b + 8, 4));
        eq("instr_test_result", h->instr_test_result, u(f, b + 12, 1));
        text("serial_number", h->serial_number, b + 13, 18);
    }
    if (auto h = in.general_header_sen_calib_blk(); have(h, type, 0x43)) {
        eq("freq1", h->freq1, u(f, b, 4));
        eq("amp1", h->amp1, u(f, b + 4, 4));
        eq("phase1", h->phase1, u(f, b + 8, 4));
        eq("freq2", h->freq2, u(f, b + 12, 4));
        eq("amp2", h->amp2, u(f, b + 16, 4));
        eq("phase2", h->phase2, u(f, b + 20, 4));
        eq("calib_applied", h->calib_applied, u(f, b + 24, 1));
    }
    if (auto h = in.general_header_time_drift_blk(); have(h, type, 0x44)) {
        eq("time_of_depl", h->time_of_depl, u(f, b, 8));
        eq("time_of_retr", h->time_of_retr, u(f, b + 8, 8));
        eq("timer_offset_depl", h->timer_offset_depl, u(f, b + 16, 4));
        eq("time_offset_retr", h->time_offset_retr, u(f, b + 20, 4));
        eq("timedrift_corr", h->timedrift_corr, u(f, b + 24, 1));
        eq("corr_method", h->corr_method, u(f, b + 25, 1));
    }
    if (auto h = in.general_header_elemag_src_rec_desc_blk(); have(h, type, 0x45)) {
        eq("equip_dim_x", h->equip_dim_x, u(f, b, 3));
        eq("equip_dim_y", h->equip_dim_y, u(f, b + 3, 3));
        eq("equip_dim_z", h->equip_dim_z, u(f, b + 6, 3));
        eq("pos_term", h->pos_term, u(f, b + 9, 1));
        eq("equip_offset_x", h->equip_offset_x, u(f, b + 10, 3));
        eq("equip_offset_y", h->equip_offset_y, u(f, b + 13, 3));
        eq("equip_offset_z", h->equip_offset_z, u(f, b + 16, 3));
    }
    if (auto h = in.general_header_position_blk_1(); have(h, type, 0x50)) {
        eq("time_of_position", h->time_of_position, u(f, b, 8));
        eq("time_of_measurement", h->time_of_measurement, u(f, b + 8, 8));
        eq("vert_error", h->vert_error, u(f, b + 16, 4));
        eq("hor_error_semi_major", h->hor_error_semi_major, u(f, b + 20, 4));
        eq("hor_error_semi_minor", h->hor_error_semi_minor, u(f, b + 24, 4));
        eq("hor_error_orientation", h->hor_error_orientation, u(f, b + 28, 2));
        eq("position_type", h->position_type, u(f, b + 30, 1));
    }
    if (auto h = in.general_header_position_blk_2(); have(h, type, 0x51)) {
        eq("crs_a_coord1", h->crs_a_coord1, u(f, b, 8));
        eq("crs_a_coord2", h->crs_a_coord2, u(f, b + 8, 8));
        eq("crs_a_coord3", h->crs_a_coord3, u(f, b + 16, 8));
        eq("crs_a_crsref", h->crs_a_crsref, u(f, b + 24, 2));
        eq("pos1_valid", h->pos1_valid, u(f, b + 26, 1));
        eq("pos1_quality", h->pos1_quality, u(f, b + 27, 1));
    }
    if (auto h = in.general_header_position_blk_3(); have(h, type, 0x52)) {
        eq("crs_b_coord1", h->crs_b_coord1, u(f, b, 8));
        eq("crs_b_coord2", h->crs_b_coord2, u(f, b + 8, 8));
        eq("crs_b_coord3", h->crs_b_coord3, u(f, b + 16, 8));
        eq("crs_b_crsref", h->crs_b_crsref, u(f, b + 24, 2));
        eq("pos2_valid", h->pos2_valid, u(f, b + 26, 1));
        eq("pos2_quality", h->pos2_quality, u(f, b + 27, 1));
    }
    if (auto h = in.general_header_coord_ref_blk(); have(h, type, 0x55))
        text("crs", h->crs, b, 31);
    if (auto h = in.general_header_relative_pos_blk(); have(h, type, 0x56)) {
        eq("offset_east", h->offset_east, u(f, b, 4));
        eq("offset_north", h->offset_north, u(f, b + 4, 4));
        eq("offset_vert", h->offset_vert, u(f, b + 8, 4));
        text("description", h->description, b + 12, 19);
    }
    if (auto h = in.general_header_orient_hdr_blk(); have(h, type, 0x60)) {
        eq("rot_x", h->rot_x, u(f, b, 4));
        eq("rot_y", h->rot_y, u(f, b + 4, 4));
        eq("rot_z", h->rot_z, u(f, b + 8, 4));
        eq("ref_orientation", h->ref_orientation, u(f, b + 12, 4));
        eq("time_stamp", h->time_stamp, u(f, b + 16, 8));
        eq("ori_type", h->ori_type, u(f, b + 24, 1));
        eq("ref_orient_valid", h->ref_orient_valid, u(f, b + 25, 1));
        eq("rot_applied", h->rot_applied, u(f, b + 26, 1));
        eq("rot_north_applied", h->rot_north_applied, u(f, b + 27, 1));
    }
    if (auto h = in.general_header_measurement_blk(); have(h, type, 0x61)) {
        eq("timestamp", h->timestamp, u(f, b, 8));
        eq("measurement_value", h->measurement_value, u(f, b + 8, 4));
        eq("maximum_value", h->maximum_value, u(f, b + 12, 4));
        eq("minimum_value", h->minimum_value, u(f, b + 16, 4));
        eq("quantity_class", h->quantity_class, u(f, b + 20, 2));
        eq("unit_of_measure", h->unit_of_measure, u(f, b + 22, 2));
        eq("measurement_description", h->measurement_description, u(f, b + 24, 2));
    }
}
// every block type, known or not, alone between blocks that are passed over
extern "C" void sc_C17_block()
{
    Rec r;
    r.rev = 3;
    int type = sv_param("type", 0, 256);
    int pos = type & 1 ? 3 : 4; // first or second additional block
    r.add = 5;
    sv_file(r.f, r.end());
    r.pins();
    sv_pin(r.f, r.gh(pos) + 31, type);
    ISEGD in(r.f);
    all(in, type, r.gh(pos));
}
// several blocks together, in any rotation, do not disturb each other
extern "C" void sc_C17_together()
{
    static int const types[] = { 0x10, 0x15, 0x43, 0x61, 0x50, 0x20 };
    Rec r;
    r.rev = 3;
    r.add = 8;
    int rot = sv_param("rot", 0, 6);
    sv_file(r.f, r.end());
    r.pins();
    uint64_t at[6];
    for (int i = 0; i < 6; ++i) {
        int k = (i + rot) % 6;
        at[k] = r.gh(3 + i);
        sv_pin(r.f, at[k] + 31, types[k]);
    }
    ISEGD in(r.f);
    if (auto h = in.general_header_vessel_crew_id(); have(h, 0x10, 0x10))
        text("vessel_crew_name", h->vessel_crew_name, at[0] + 3, 28);
    if (auto h = in.general_header_vibrator_info(); have(h, 0x15, 0x15))
        source(*h, at[1]);
    if (auto h = in.general_header_sen_calib_blk(); have(h, 0x43, 0x43))
        eq("amp2", h->amp2, u(f, at[2] + 16, 4));
    if (auto h = in.general_header_measurement_blk(); have(h, 0x61, 0x61))
        eq("minimum_value", h->minimum_value, u(f, at[3] + 16, 4));
    if (auto h = in.general_header_position_blk_1(); have(h, 0x50, 0x50))
        eq("vert_error", h->vert_error, u(f, at[4] + 16, 4));
    if (auto h = in.general_header_add_source_info(); have(h, 0x20, 0x20))
        eq("source_moving", h->source_moving, u(f, at[5] + 10, 1));
    eq("client name absent", in.general_header_client_name().has_value(), 0);
}
