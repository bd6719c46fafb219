#include "segd.hpp"
#include "pystub/pybind11/pybind11.h"
#include SVA_PYBIND
using namespace sedaman;
namespace py = pybind11;
static py::module_ the_module;
static void init()
{
    sv_module(the_module);
}
template <class T>
static py::Entry const* find(std::string const& name)
{
    py::Entry const* r = nullptr;
    for (auto& e : py::entries())
        if (e.cls == &py::Key<T>::key && e.name == name)
            r = &e;
    return r;
}
template <class T>
static void cls(std::string const& name)
{
    int n = 0, same = 0;
    for (auto& c : py::classes()) {
        if (c.cls == &py::Key<T>::key) {
            ++n;
            eq(name + " is bound to its class", c.name == name, 1);
        } else if (c.name == name)
            ++same;
    }
    eq(name + " is bound once", n, 1);
}
template <class T, class D>
static void field(std::string const& name, D T::*p)
{
    auto e = find<T>(name);
    eq(name + " is bound", e != nullptr, 1);
    if (!e || e->kind != 1)
        return;
    uint64_t a, b;
    py::words(p, a, b);
    eq(name + " is its own member", e->a, a);
    eq(name + " can be changed", e->b, 1);
}
template <class T, class D>
static void object(std::string const& name, D const* p)
{
    auto e = find<T>(name);
    eq(name + " is bound", e != nullptr, 1);
    if (e && e->kind == 3)
        eq(name + " is its own object", reinterpret_cast<D const*>(e->a) == p, 1);
}
template <class T, class M>
static void method(std::string const& name, M p)
{
    auto e = find<T>(name);
    eq(name + " is bound", e != nullptr, 1);
    if (!e || (e->kind != 2 && e->kind != 4))
        return;
    uint64_t a = 0, b = 0;
    py::words(p, a, b);
    eq(name + " is its own function", e->a == a, 1);
    eq(name + " is its own function", e->b == b, 1);
}
template <class Sig>
static Sig* slot(std::string const& name)
{
    Sig* r = nullptr;
    for (auto& p : py::Slot<Sig>::list())
        if (p.first == name)
            r = p.second;
    return r;
}
// text members: a text shorter than the member, of its length, and longer; the members beside it keep their values
template <class T, int N>
static void text(std::string const& name, char (T::*p)[N])
{
    auto e = find<T>(name);
    eq(name + " is bound", e != nullptr, 1);
    if (!e)
        return;
    auto get = slot<std::string(T&)>(name);
    auto set = slot<void(T&, std::string&)>(name);
    if (!get || !set)
        return;
    struct { char before[4]; T t; char after[4]; } x;
    char* raw = reinterpret_cast<char*>(&(x.t.*p));
    char* all = reinterpret_cast<char*>(&x.t);
    for (int i = 0; i < N; ++i)
        raw[i] = sv_u8(lbl(name, i).c_str());
    std::string g = get(x.t);
    eq(name + " length", g.size(), N);
    for (int i = 0; i < N && i < static_cast<int>(g.size()); ++i)
        eq(lbl(name + " character", i), static_cast<uint8_t>(g[i]), sv_u8(lbl(name, i).c_str()));
    for (int n : { 0, 1, N - 1, N, N + 1, N + 5 }) {
        for (size_t i = sizeof(void*); i < sizeof(T); ++i)
            all[i] = 0x5a;
        std::string s(n, 'x');
        for (int i = 0; i < n; ++i)
            s[i] = 'a' + (i + n) % 26;
        set(x.t, s);
        for (int i = 0; i < N && i < n; ++i)
            eq(lbl(name + " changed character", i), raw[i], 'a' + (i + n) % 26);
        for (size_t i = sizeof(void*); i < sizeof(T); ++i)
            if (all + i < raw || all + i >= raw + N)
                eq(name + " leaves the rest", all[i], 0x5a);
    }
}
template <class E>
static void val(std::string const& name, E v)
{
    int n = 0;
    for (auto& x : py::values())
        if (x.cls == &py::Key<E>::key && x.name == name) {
            ++n;
            eq(name + " is its own value", x.v, static_cast<int64_t>(v));
        }
    eq(name + " is bound once", n, 1);
}
template <class T, class... A>
static void ctor(std::string const& name)
{
    std::vector<void const*> want { static_cast<void const*>(&py::Key<A>::key)... };
    int n = 0;
    for (auto& i : py::inits())
        if (i.first == &py::Key<T>::key && i.second == want)
            ++n;
    eq(name + " can be made", n, 1);
}

extern "C" void sc_C30_Trace_Header()
{
    init();
    using T = Trace::Header;
    cls<T>("Header");
    method<T>("get", &T::get);
    method<T>("set", &T::set);
    method<T>("keys", &T::keys);
}
extern "C" void sc_C30_Trace()
{
    init();
    using T = Trace;
    cls<T>("Trace");
    method<T>("header", &T::header);
    method<T>("samples", &T::samples);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeader()
{
    init();
    using T = CommonSEGD::GeneralHeader;
    cls<T>("GeneralHeader");
    field<T>("file_number", &T::file_number);
    field<T>("format_code", &T::format_code);
    field<T>("gen_const", &T::gen_const);
    field<T>("year", &T::year);
    field<T>("add_gen_hdr_blocks", &T::add_gen_hdr_blocks);
    field<T>("day", &T::day);
    field<T>("hour", &T::hour);
    field<T>("minute", &T::minute);
    field<T>("second", &T::second);
    field<T>("manufac_code", &T::manufac_code);
    field<T>("manufac_num", &T::manufac_num);
    field<T>("bytes_per_scan", &T::bytes_per_scan);
    field<T>("base_scan_int", &T::base_scan_int);
    field<T>("polarity", &T::polarity);
    field<T>("scans_per_block", &T::scans_per_block);
    field<T>("record_type", &T::record_type);
    field<T>("record_length", &T::record_length);
    field<T>("scan_types_per_record", &T::scan_types_per_record);
    field<T>("channel_sets_per_scan_type", &T::channel_sets_per_scan_type);
    field<T>("skew_blocks", &T::skew_blocks);
    field<T>("extended_hdr_blocks", &T::extended_hdr_blocks);
    field<T>("external_hdr_blocks", &T::external_hdr_blocks);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeader2()
{
    init();
    using T = CommonSEGD::GeneralHeader2;
    cls<T>("GeneralHeader2");
    field<T>("expanded_file_num", &T::expanded_file_num);
    field<T>("ext_ch_sets_per_scan_type", &T::ext_ch_sets_per_scan_type);
    field<T>("extended_hdr_blocks", &T::extended_hdr_blocks);
    field<T>("external_hdr_blocks", &T::external_hdr_blocks);
    field<T>("extended_skew_blocks", &T::extended_skew_blocks);
    field<T>("segd_rev_major", &T::segd_rev_major);
    field<T>("segd_rev_minor", &T::segd_rev_minor);
    field<T>("gen_trailer_num_of_blocks", &T::gen_trailer_num_of_blocks);
    field<T>("ext_record_len", &T::ext_record_len);
    field<T>("record_set_number", &T::record_set_number);
    field<T>("ext_num_add_blks_in_gen_hdr", &T::ext_num_add_blks_in_gen_hdr);
    field<T>("dominant_sampling_int", &T::dominant_sampling_int);
    field<T>("gen_hdr_block_num", &T::gen_hdr_block_num);
    field<T>("sequence_number", &T::sequence_number);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_AdditionalGeneralHeader()
{
    init();
    using T = CommonSEGD::AdditionalGeneralHeader;
    cls<T>("AdditionalGeneralHeader");
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderN()
{
    init();
    using T = CommonSEGD::GeneralHeaderN;
    cls<T>("GeneralHeaderN");
    field<T>("expanded_file_number", &T::expanded_file_number);
    field<T>("sou_line_num", &T::sou_line_num);
    field<T>("sou_point_num", &T::sou_point_num);
    field<T>("sou_point_index", &T::sou_point_index);
    field<T>("phase_control", &T::phase_control);
    field<T>("type_vibrator", &T::type_vibrator);
    field<T>("phase_angle", &T::phase_angle);
    field<T>("gen_hdr_block_num", &T::gen_hdr_block_num);
    field<T>("sou_set_num", &T::sou_set_num);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeader3()
{
    init();
    using T = CommonSEGD::GeneralHeader3;
    cls<T>("GeneralHeader3");
    field<T>("time_zero", &T::time_zero);
    field<T>("record_size", &T::record_size);
    field<T>("data_size", &T::data_size);
    field<T>("header_size", &T::header_size);
    field<T>("extd_rec_mode", &T::extd_rec_mode);
    field<T>("rel_time_mode", &T::rel_time_mode);
    field<T>("gen_hdr_block_num", &T::gen_hdr_block_num);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderVes()
{
    init();
    using T = CommonSEGD::GeneralHeaderVes;
    cls<T>("GeneralHeaderVes");
    text<T>("abbr_vessel_crew_name", &T::abbr_vessel_crew_name);
    text<T>("vessel_crew_name", &T::vessel_crew_name);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderSur()
{
    init();
    using T = CommonSEGD::GeneralHeaderSur;
    cls<T>("GeneralHeaderSur");
    text<T>("survey_area_name", &T::survey_area_name);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderCli()
{
    init();
    using T = CommonSEGD::GeneralHeaderCli;
    cls<T>("GeneralHeaderCli");
    text<T>("client_name", &T::client_name);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderJob()
{
    init();
    using T = CommonSEGD::GeneralHeaderJob;
    cls<T>("GeneralHeaderJob");
    text<T>("abbr_job_id", &T::abbr_job_id);
    text<T>("job_id", &T::job_id);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderLin()
{
    init();
    using T = CommonSEGD::GeneralHeaderLin;
    cls<T>("GeneralHeaderLin");
    text<T>("line_abbr", &T::line_abbr);
    text<T>("line_id", &T::line_id);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderVib()
{
    init();
    using T = CommonSEGD::GeneralHeaderVib;
    cls<T>("GeneralHeaderVib");
    field<T>("expanded_file_number", &T::expanded_file_number);
    field<T>("sou_line_num", &T::sou_line_num);
    field<T>("sou_point_num", &T::sou_point_num);
    field<T>("sou_point_index", &T::sou_point_index);
    field<T>("phase_control", &T::phase_control);
    field<T>("type_vibrator", &T::type_vibrator);
    field<T>("phase_angle", &T::phase_angle);
    field<T>("source_id", &T::source_id);
    field<T>("source_set_num", &T::source_set_num);
    field<T>("reshoot_idx", &T::reshoot_idx);
    field<T>("group_idx", &T::group_idx);
    field<T>("depth_idx", &T::depth_idx);
    field<T>("offset_crossline", &T::offset_crossline);
    field<T>("offset_inline", &T::offset_inline);
    field<T>("size", &T::size);
    field<T>("offset_depth", &T::offset_depth);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderExp()
{
    init();
    using T = CommonSEGD::GeneralHeaderExp;
    cls<T>("GeneralHeaderExp");
    field<T>("expanded_file_number", &T::expanded_file_number);
    field<T>("sou_line_num", &T::sou_line_num);
    field<T>("sou_point_num", &T::sou_point_num);
    field<T>("sou_point_index", &T::sou_point_index);
    field<T>("depth", &T::depth);
    field<T>("charge_length", &T::charge_length);
    field<T>("soil_type", &T::soil_type);
    field<T>("source_id", &T::source_id);
    field<T>("source_set_num", &T::source_set_num);
    field<T>("reshoot_idx", &T::reshoot_idx);
    field<T>("group_idx", &T::group_idx);
    field<T>("depth_idx", &T::depth_idx);
    field<T>("offset_crossline", &T::offset_crossline);
    field<T>("offset_inline", &T::offset_inline);
    field<T>("size", &T::size);
    field<T>("offset_depth", &T::offset_depth);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderAir()
{
    init();
    using T = CommonSEGD::GeneralHeaderAir;
    cls<T>("GeneralHeaderAir");
    field<T>("expanded_file_number", &T::expanded_file_number);
    field<T>("sou_line_num", &T::sou_line_num);
    field<T>("sou_point_num", &T::sou_point_num);
    field<T>("sou_point_index", &T::sou_point_index);
    field<T>("depth", &T::depth);
    field<T>("air_pressure", &T::air_pressure);
    field<T>("source_id", &T::source_id);
    field<T>("source_set_num", &T::source_set_num);
    field<T>("reshoot_idx", &T::reshoot_idx);
    field<T>("group_idx", &T::group_idx);
    field<T>("depth_idx", &T::depth_idx);
    field<T>("offset_crossline", &T::offset_crossline);
    field<T>("offset_inline", &T::offset_inline);
    field<T>("size", &T::size);
    field<T>("offset_depth", &T::offset_depth);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderWat()
{
    init();
    using T = CommonSEGD::GeneralHeaderWat;
    cls<T>("GeneralHeaderWat");
    field<T>("expanded_file_number", &T::expanded_file_number);
    field<T>("sou_line_num", &T::sou_line_num);
    field<T>("sou_point_num", &T::sou_point_num);
    field<T>("sou_point_index", &T::sou_point_index);
    field<T>("depth", &T::depth);
    field<T>("air_pressure", &T::air_pressure);
    field<T>("source_id", &T::source_id);
    field<T>("source_set_num", &T::source_set_num);
    field<T>("reshoot_idx", &T::reshoot_idx);
    field<T>("group_idx", &T::group_idx);
    field<T>("depth_idx", &T::depth_idx);
    field<T>("offset_crossline", &T::offset_crossline);
    field<T>("offset_inline", &T::offset_inline);
    field<T>("size", &T::size);
    field<T>("offset_depth", &T::offset_depth);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderEle()
{
    init();
    using T = CommonSEGD::GeneralHeaderEle;
    cls<T>("GeneralHeaderEle");
    field<T>("expanded_file_number", &T::expanded_file_number);
    field<T>("sou_line_num", &T::sou_line_num);
    field<T>("sou_point_num", &T::sou_point_num);
    field<T>("sou_point_index", &T::sou_point_index);
    field<T>("source_type", &T::source_type);
    field<T>("moment", &T::moment);
    field<T>("source_id", &T::source_id);
    field<T>("source_set_num", &T::source_set_num);
    field<T>("reshoot_idx", &T::reshoot_idx);
    field<T>("group_idx", &T::group_idx);
    field<T>("depth_idx", &T::depth_idx);
    field<T>("offset_crossline", &T::offset_crossline);
    field<T>("offset_inline", &T::offset_inline);
    field<T>("size", &T::size);
    field<T>("offset_depth", &T::offset_depth);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderOth()
{
    init();
    using T = CommonSEGD::GeneralHeaderOth;
    cls<T>("GeneralHeaderOth");
    field<T>("expanded_file_number", &T::expanded_file_number);
    field<T>("sou_line_num", &T::sou_line_num);
    field<T>("sou_point_num", &T::sou_point_num);
    field<T>("sou_point_index", &T::sou_point_index);
    field<T>("source_id", &T::source_id);
    field<T>("source_set_num", &T::source_set_num);
    field<T>("reshoot_idx", &T::reshoot_idx);
    field<T>("group_idx", &T::group_idx);
    field<T>("depth_idx", &T::depth_idx);
    field<T>("offset_crossline", &T::offset_crossline);
    field<T>("offset_inline", &T::offset_inline);
    field<T>("size", &T::size);
    field<T>("offset_depth", &T::offset_depth);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderAdd()
{
    init();
    using T = CommonSEGD::GeneralHeaderAdd;
    cls<T>("GeneralHeaderAdd");
    field<T>("time", &T::time);
    field<T>("source_status", &T::source_status);
    field<T>("source_id", &T::source_id);
    field<T>("source_moving", &T::source_moving);
    text<T>("error_description", &T::error_description);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderSaux()
{
    init();
    using T = CommonSEGD::GeneralHeaderSaux;
    cls<T>("GeneralHeaderSaux");
    field<T>("source_id", &T::source_id);
    field<T>("scan_type_num_1", &T::scan_type_num_1);
    field<T>("ch_set_num_1", &T::ch_set_num_1);
    field<T>("trace_num_1", &T::trace_num_1);
    field<T>("scan_type_num_2", &T::scan_type_num_2);
    field<T>("ch_set_num_2", &T::ch_set_num_2);
    field<T>("trace_num_2", &T::trace_num_2);
    field<T>("scan_type_num_3", &T::scan_type_num_3);
    field<T>("ch_set_num_3", &T::ch_set_num_3);
    field<T>("trace_num_3", &T::trace_num_3);
    field<T>("scan_type_num_4", &T::scan_type_num_4);
    field<T>("ch_set_num_4", &T::ch_set_num_4);
    field<T>("trace_num_4", &T::trace_num_4);
    field<T>("scan_type_num_5", &T::scan_type_num_5);
    field<T>("ch_set_num_5", &T::ch_set_num_5);
    field<T>("trace_num_5", &T::trace_num_5);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderCoord()
{
    init();
    using T = CommonSEGD::GeneralHeaderCoord;
    cls<T>("GeneralHeaderCoord");
    text<T>("crs", &T::crs);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderPos1()
{
    init();
    using T = CommonSEGD::GeneralHeaderPos1;
    cls<T>("GeneralHeaderPos1");
    field<T>("time_of_position", &T::time_of_position);
    field<T>("time_of_measurement", &T::time_of_measurement);
    field<T>("vert_error", &T::vert_error);
    field<T>("hor_error_semi_major", &T::hor_error_semi_major);
    field<T>("hor_error_semi_minor", &T::hor_error_semi_minor);
    field<T>("hor_error_orientation", &T::hor_error_orientation);
    field<T>("position_type", &T::position_type);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderPos2()
{
    init();
    using T = CommonSEGD::GeneralHeaderPos2;
    cls<T>("GeneralHeaderPos2");
    field<T>("crs_a_coord1", &T::crs_a_coord1);
    field<T>("crs_a_coord2", &T::crs_a_coord2);
    field<T>("crs_a_coord3", &T::crs_a_coord3);
    field<T>("crs_a_crsref", &T::crs_a_crsref);
    field<T>("pos1_valid", &T::pos1_valid);
    field<T>("pos1_quality", &T::pos1_quality);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderPos3()
{
    init();
    using T = CommonSEGD::GeneralHeaderPos3;
    cls<T>("GeneralHeaderPos3");
    field<T>("crs_b_coord1", &T::crs_b_coord1);
    field<T>("crs_b_coord2", &T::crs_b_coord2);
    field<T>("crs_b_coord3", &T::crs_b_coord3);
    field<T>("crs_b_crsref", &T::crs_b_crsref);
    field<T>("pos2_valid", &T::pos2_valid);
    field<T>("pos2_quality", &T::pos2_quality);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderRel()
{
    init();
    using T = CommonSEGD::GeneralHeaderRel;
    cls<T>("GeneralHeaderRel");
    field<T>("offset_east", &T::offset_east);
    field<T>("offset_north", &T::offset_north);
    field<T>("offset_vert", &T::offset_vert);
    text<T>("description", &T::description);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderSen()
{
    init();
    using T = CommonSEGD::GeneralHeaderSen;
    cls<T>("GeneralHeaderSen");
    field<T>("instrument_test_time", &T::instrument_test_time);
    field<T>("sensor_sensitivity", &T::sensor_sensitivity);
    field<T>("instr_test_result", &T::instr_test_result);
    text<T>("serial_number", &T::serial_number);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderSCa()
{
    init();
    using T = CommonSEGD::GeneralHeaderSCa;
    cls<T>("GeneralHeaderSCa");
    field<T>("freq1", &T::freq1);
    field<T>("amp1", &T::amp1);
    field<T>("phase1", &T::phase1);
    field<T>("freq2", &T::freq2);
    field<T>("amp2", &T::amp2);
    field<T>("phase2", &T::phase2);
    field<T>("calib_applied", &T::calib_applied);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderTim()
{
    init();
    using T = CommonSEGD::GeneralHeaderTim;
    cls<T>("GeneralHeaderTim");
    field<T>("time_of_depl", &T::time_of_depl);
    field<T>("time_of_retr", &T::time_of_retr);
    field<T>("timer_offset_depl", &T::timer_offset_depl);
    field<T>("time_offset_retr", &T::time_offset_retr);
    field<T>("timedrift_corr", &T::timedrift_corr);
    field<T>("corr_method", &T::corr_method);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderElSR()
{
    init();
    using T = CommonSEGD::GeneralHeaderElSR;
    cls<T>("GeneralHeaderElSR");
    field<T>("equip_dim_x", &T::equip_dim_x);
    field<T>("equip_dim_y", &T::equip_dim_y);
    field<T>("equip_dim_z", &T::equip_dim_z);
    field<T>("pos_term", &T::pos_term);
    field<T>("equip_offset_x", &T::equip_offset_x);
    field<T>("equip_offset_y", &T::equip_offset_y);
    field<T>("equip_offset_z", &T::equip_offset_z);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderOri()
{
    init();
    using T = CommonSEGD::GeneralHeaderOri;
    cls<T>("GeneralHeaderOri");
    field<T>("rot_x", &T::rot_x);
    field<T>("rot_y", &T::rot_y);
    field<T>("rot_z", &T::rot_z);
    field<T>("ref_orientation", &T::ref_orientation);
    field<T>("time_stamp", &T::time_stamp);
    field<T>("ori_type", &T::ori_type);
    field<T>("ref_orient_valid", &T::ref_orient_valid);
    field<T>("rot_applied", &T::rot_applied);
    field<T>("rot_north_applied", &T::rot_north_applied);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_GeneralHeaderMeas()
{
    init();
    using T = CommonSEGD::GeneralHeaderMeas;
    cls<T>("GeneralHeaderMeas");
    field<T>("timestamp", &T::timestamp);
    field<T>("measurement_value", &T::measurement_value);
    field<T>("maximum_value", &T::maximum_value);
    field<T>("minimum_value", &T::minimum_value);
    field<T>("quantity_class", &T::quantity_class);
    field<T>("unit_of_measure", &T::unit_of_measure);
    field<T>("measurement_description", &T::measurement_description);
    field<T>("gen_hdr_block_type", &T::gen_hdr_block_type);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD_ChannelSetHeader()
{
    init();
    using T = CommonSEGD::ChannelSetHeader;
    cls<T>("ChannelSetHeader");
    field<T>("scan_type_number", &T::scan_type_number);
    field<T>("channel_set_number", &T::channel_set_number);
    field<T>("channel_type", &T::channel_type);
    field<T>("channel_set_start_time", &T::channel_set_start_time);
    field<T>("channel_set_end_time", &T::channel_set_end_time);
    field<T>("descale_multiplier", &T::descale_multiplier);
    field<T>("number_of_channels", &T::number_of_channels);
    field<T>("subscans_per_ch_set", &T::subscans_per_ch_set);
    field<T>("channel_gain", &T::channel_gain);
    field<T>("alias_filter_freq", &T::alias_filter_freq);
    field<T>("alias_filter_slope", &T::alias_filter_slope);
    field<T>("low_cut_filter_freq", &T::low_cut_filter_freq);
    field<T>("low_cut_filter_slope", &T::low_cut_filter_slope);
    field<T>("first_notch_filter", &T::first_notch_filter);
    field<T>("second_notch_filter", &T::second_notch_filter);
    field<T>("third_notch_filter", &T::third_notch_filter);
    field<T>("ext_ch_set_num", &T::ext_ch_set_num);
    field<T>("ext_hdr_flag", &T::ext_hdr_flag);
    field<T>("trc_hdr_ext", &T::trc_hdr_ext);
    field<T>("vert_stack", &T::vert_stack);
    field<T>("streamer_no", &T::streamer_no);
    field<T>("array_forming", &T::array_forming);
    method<T>("number_of_samples", &T::number_of_samples);
    method<T>("samp_int", &T::samp_int);
    method<T>("filter_phase", &T::filter_phase);
    method<T>("physical_unit", &T::physical_unit);
    method<T>("filter_delay", &T::filter_delay);
    method<T>("description", &T::description);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGD()
{
    init();
    using T = CommonSEGD;
    cls<T>("CommonSEGD");
    object<T>("GEN_HDR_SIZE", &T::GEN_HDR_SIZE);
    object<T>("GEN_TRLR_SIZE", &T::GEN_TRLR_SIZE);
    object<T>("CH_SET_HDR_SIZE", &T::CH_SET_HDR_SIZE);
    object<T>("CH_SET_HDR_R3_SIZE", &T::CH_SET_HDR_R3_SIZE);
    object<T>("SKEW_BLOCK_SIZE", &T::SKEW_BLOCK_SIZE);
    object<T>("EXTENDED_HEADER_SIZE", &T::EXTENDED_HEADER_SIZE);
    object<T>("EXTERNAL_HEADER_SIZE", &T::EXTERNAL_HEADER_SIZE);
    object<T>("TRACE_HEADER_SIZE", &T::TRACE_HEADER_SIZE);
    object<T>("TRACE_HEADER_EXT_SIZE", &T::TRACE_HEADER_EXT_SIZE);
    object<T>("sercel_428xl", &T::sercel_428xl);
    object<T>("sercel_428", &T::sercel_428);
    object<T>("sercel_408", &T::sercel_408);
}
extern "C" void sc_C30_CommonSEGY_BinaryHeader()
{
    init();
    using T = CommonSEGY::BinaryHeader;
    cls<T>("BinaryHeader");
    field<T>("job_id", &T::job_id);
    field<T>("line_num", &T::line_num);
    field<T>("reel_num", &T::reel_num);
    field<T>("tr_per_ens", &T::tr_per_ens);
    field<T>("aux_per_ens", &T::aux_per_ens);
    field<T>("samp_int", &T::samp_int);
    field<T>("samp_int_orig", &T::samp_int_orig);
    field<T>("samp_per_tr", &T::samp_per_tr);
    field<T>("samp_per_tr_orig", &T::samp_per_tr_orig);
    field<T>("format_code", &T::format_code);
    field<T>("ens_fold", &T::ens_fold);
    field<T>("sort_code", &T::sort_code);
    field<T>("vert_sum_code", &T::vert_sum_code);
    field<T>("sw_freq_at_start", &T::sw_freq_at_start);
    field<T>("sw_freq_at_end", &T::sw_freq_at_end);
    field<T>("sw_length", &T::sw_length);
    field<T>("sw_type_code", &T::sw_type_code);
    field<T>("sw_ch_tr_num", &T::sw_ch_tr_num);
    field<T>("taper_at_start", &T::taper_at_start);
    field<T>("taper_at_end", &T::taper_at_end);
    field<T>("taper_type", &T::taper_type);
    field<T>("corr_traces", &T::corr_traces);
    field<T>("bin_gain_recov", &T::bin_gain_recov);
    field<T>("amp_recov_meth", &T::amp_recov_meth);
    field<T>("measure_system", &T::measure_system);
    field<T>("impulse_sig_pol", &T::impulse_sig_pol);
    field<T>("vib_pol_code", &T::vib_pol_code);
    field<T>("ext_tr_per_ens", &T::ext_tr_per_ens);
    field<T>("ext_aux_per_ens", &T::ext_aux_per_ens);
    field<T>("ext_samp_per_tr", &T::ext_samp_per_tr);
    field<T>("ext_samp_int", &T::ext_samp_int);
    field<T>("ext_samp_int_orig", &T::ext_samp_int_orig);
    field<T>("ext_samp_per_tr_orig", &T::ext_samp_per_tr_orig);
    field<T>("ext_ens_fold", &T::ext_ens_fold);
    field<T>("endianness", &T::endianness);
    field<T>("SEGY_rev_major_ver", &T::SEGY_rev_major_ver);
    field<T>("SEGY_rev_minor_ver", &T::SEGY_rev_minor_ver);
    field<T>("fixed_tr_length", &T::fixed_tr_length);
    field<T>("ext_text_headers_num", &T::ext_text_headers_num);
    field<T>("max_num_add_tr_headers", &T::max_num_add_tr_headers);
    field<T>("time_basis_code", &T::time_basis_code);
    field<T>("num_of_tr_in_file", &T::num_of_tr_in_file);
    field<T>("byte_off_of_first_tr", &T::byte_off_of_first_tr);
    field<T>("num_of_trailer_stanza", &T::num_of_trailer_stanza);
    method<T>("name_as_string", &T::name_as_string);
}
extern "C" void sc_C30_CommonSEGY()
{
    init();
    using T = CommonSEGY;
    cls<T>("CommonSEGY");
    object<T>("default_text_header", &T::default_text_header);
    object<T>("default_trace_header", &T::default_trace_header);
    object<T>("TEXT_HEADER_SIZE", &T::TEXT_HEADER_SIZE);
    object<T>("TR_HEADER_SIZE", &T::TR_HEADER_SIZE);
    object<T>("trace_header_description", &T::trace_header_description);
    method<T>("ebcdic_to_ascii", &T::ebcdic_to_ascii);
    method<T>("ascii_to_ebcdic", &T::ascii_to_ebcdic);
}
extern "C" void sc_C30_ISEGD()
{
    init();
    using T = ISEGD;
    cls<T>("ISEGD");
    method<T>("general_header", &T::general_header);
    method<T>("general_header2", &T::general_header2);
    method<T>("general_headerN", &T::general_headerN);
    method<T>("general_header3", &T::general_header3);
    method<T>("general_header_vessel_crew_id", &T::general_header_vessel_crew_id);
    method<T>("general_header_survey_name", &T::general_header_survey_name);
    method<T>("general_header_client_name", &T::general_header_client_name);
    method<T>("general_header_job_id", &T::general_header_job_id);
    method<T>("general_header_line_id", &T::general_header_line_id);
    method<T>("general_header_vibrator_info", &T::general_header_vibrator_info);
    method<T>("general_header_explosive_info", &T::general_header_explosive_info);
    method<T>("general_header_airgun_info", &T::general_header_airgun_info);
    method<T>("general_header_watergun_info", &T::general_header_watergun_info);
    method<T>("general_header_electromagnetic_info", &T::general_header_electromagnetic_info);
    method<T>("general_header_other_source_info", &T::general_header_other_source_info);
    method<T>("general_header_add_source_info", &T::general_header_add_source_info);
    method<T>("general_header_sou_aux_chan_ref", &T::general_header_sou_aux_chan_ref);
    method<T>("general_header_sen_info_hdr_ext_blk", &T::general_header_sen_info_hdr_ext_blk);
    method<T>("general_header_sen_calib_blk", &T::general_header_sen_calib_blk);
    method<T>("general_header_time_drift_blk", &T::general_header_time_drift_blk);
    method<T>("general_header_elemag_src_rec_desc_blk", &T::general_header_elemag_src_rec_desc_blk);
    method<T>("general_header_position_blk_1", &T::general_header_position_blk_1);
    method<T>("general_header_position_blk_2", &T::general_header_position_blk_2);
    method<T>("general_header_position_blk_3", &T::general_header_position_blk_3);
    method<T>("general_header_coord_ref_blk", &T::general_header_coord_ref_blk);
    method<T>("general_header_relative_pos_blk", &T::general_header_relative_pos_blk);
    method<T>("general_header_orient_hdr_blk", &T::general_header_orient_hdr_blk);
    method<T>("general_header_measurement_blk", &T::general_header_measurement_blk);
    method<T>("extended_headers", &T::extended_headers);
    method<T>("external_headers", &T::external_headers);
    method<T>("channel_set_headers", &T::channel_set_headers);
    method<T>("has_record", &T::has_record);
    method<T>("has_trace", &T::has_trace);
    method<T>("read_trace", &T::read_trace);
}
extern "C" void sc_C30_ISEGY()
{
    init();
    using T = ISEGY;
    cls<T>("ISEGY");
    method<T>("read_binary_header", &T::read_binary_header);
    method<T>("text_headers", &T::text_headers);
    method<T>("trailer_stanzas", &T::trailer_stanzas);
    method<T>("binary_header", &T::binary_header);
    method<T>("has_trace", &T::has_trace);
    method<T>("read_header", &T::read_header);
    method<T>("read_trace", &T::read_trace);
}
extern "C" void sc_C30_ISEGYSorted1D()
{
    init();
    using T = ISEGYSorted1D;
    cls<T>("ISEGYSorted1D");
    method<T>("get_keys", &T::get_keys);
    method<T>("get_headers", &T::get_headers);
    method<T>("get_traces", &T::get_traces);
}
extern "C" void sc_C30_OSEGD()
{
    init();
    using T = OSEGD;
    cls<T>("OSEGD");
    method<T>("write_trace", &T::write_trace);
}
extern "C" void sc_C30_OSEGDRev2_1()
{
    init();
    using T = OSEGDRev2_1;
    cls<T>("OSEGDRev2_1");
}
extern "C" void sc_C30_OSEGY()
{
    init();
    using T = OSEGY;
    cls<T>("OSEGY");
    method<T>("write_trace", &T::write_trace);
}
extern "C" void sc_C30_OSEGYRev0()
{
    init();
    using T = OSEGYRev0;
    cls<T>("OSEGYRev0");
}
extern "C" void sc_C30_OSEGYRev1()
{
    init();
    using T = OSEGYRev1;
    cls<T>("OSEGYRev1");
}
extern "C" void sc_C30_OSEGYRev2()
{
    init();
    using T = OSEGYRev2;
    cls<T>("OSEGYRev2");
}
extern "C" void sc_C30_values()
{
    init();
    using V = Trace::Header::ValueType;
#define V(x) val<V>(#x, V::x)
    V(int8_t); V(uint8_t); V(int16_t); V(uint16_t); V(int24_t); V(uint24_t); V(int32_t); V(uint32_t); V(int64_t); V(uint64_t); V(ibm); V(ieee_single); V(ieee_double);
#undef V
    int n = 0;
    for (auto& x : py::values())
        n += x.cls == &py::Key<V>::key;
    eq("value types", n, 13);
}
using TMap = std::vector<std::pair<std::string, std::map<uint32_t, std::pair<std::string, Trace::Header::ValueType>>>>;
using EMp = std::vector<std::map<uint32_t, std::pair<std::string, Trace::Header::ValueType>>>;
extern "C" void sc_C30_constructors()
{
    init();
    using S = std::string;
    using VS = std::vector<std::string>;
    using B = CommonSEGY::BinaryHeader;
    using HV = std::unordered_map<std::string, Trace::Header::Value>;
    using VC = std::vector<std::vector<char>>;
    ctor<Trace, HV, std::vector<double>>("Trace");
    ctor<Trace::Header, HV>("Header");
    ctor<B>("BinaryHeader");
    ctor<ISEGY, S, TMap>("ISEGY");
    ctor<ISEGY, S, B, TMap>("ISEGY");
    ctor<ISEGYSorted1D, S, S, TMap>("ISEGYSorted1D");
    ctor<ISEGYSorted1D, S, S, B, TMap>("ISEGYSorted1D");
    ctor<OSEGYRev0, S, S, B, TMap>("OSEGYRev0");
    ctor<OSEGYRev1, S, VS, B, TMap>("OSEGYRev1");
    ctor<OSEGYRev2, S, VS, B, VS, TMap>("OSEGYRev2");
    ctor<ISEGD, S, EMp>("ISEGD");
    ctor<OSEGDRev2_1, S, CommonSEGD::GeneralHeader, CommonSEGD::GeneralHeader2, std::vector<std::vector<CommonSEGD::ChannelSetHeader>>,
        std::vector<std::shared_ptr<CommonSEGD::AdditionalGeneralHeader>>, VC, VC, EMp>("OSEGDRev2_1");
}
extern "C" void sc_C30_iterate_segd()
{
    init();
    int rev = sv_param("rev", 0, 4), nrec = sv_param("records", 1, 3), ch = sv_param("channels", 1, 3);
    std::vector<Rec> rs;
    uint64_t at = 0;
    for (int i = 0; i < nrec; ++i) {
        Rec r;
        r.rev = rev;
        r.add = rev > 2 ? 2 : rev ? 1 : 0;
        r.format = 8038;
        r.chans = ch;
        r.trext = rev ? 1 : 0;
        r.ns = rev ? 2 : 1;
        r.subscans = rev ? -1 : 0;
        r.base = at;
        at = r.end();
        rs.push_back(r);
    }
    sv_file("in.segd", at);
    for (auto& r : rs)
        r.pins();
    ISEGD in("in.segd");
    auto it = slot<ISEGD*(ISEGD&)>("__iter__");
    auto next = slot<Trace(ISEGD&)>("__next__");
    if (!it || !next)
        return;
    eq("iter gives the reader itself", it(in) == &in, 1);
    for (auto& r : rs)
        for (int k = 0; k < r.ntr(); ++k) {
            Trace t = next(in);
            eq("TRACE_EDIT", ival(t.header().get("TRACE_EDIT"), "TRACE_EDIT"), u("in.segd", r.tr(k) + 11, 1));
        }
    bool stop = false;
    try {
        next(in);
    } catch (py::stop_iteration&) {
        stop = true;
    }
    eq("iteration stops after the last trace", stop, 1);
}
