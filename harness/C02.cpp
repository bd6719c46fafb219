#include "segy.hpp"
// every field of the binary header is encoded at its standard position
static BH make(int order, int rev, int variant)
{
    BH h;
    memset(&h, 0, sizeof h);
    h.job_id = sv_u32("job") | 1;
    h.line_num = sv_u32("line_num");
    h.reel_num = sv_u32("reel_num");
    h.tr_per_ens = sv_u16("tr_per_ens");
    h.aux_per_ens = sv_u16("aux_per_ens");
    h.samp_int = sv_u16("samp_int");
    h.samp_int_orig = sv_u16("samp_int_orig");
    h.samp_per_tr = variant ? 0x0203 : 0x0105;
    h.samp_per_tr_orig = sv_u16("samp_per_tr_orig");
    h.format_code = variant ? 3 : 0x0010;
    h.ens_fold = sv_u16("ens_fold");
    h.sort_code = sv_u16("sort_code");
    h.vert_sum_code = sv_u16("vert_sum_code");
    h.sw_freq_at_start = sv_u16("sw_freq_at_start");
    h.sw_freq_at_end = sv_u16("sw_freq_at_end");
    h.sw_length = sv_u16("sw_length");
    h.sw_type_code = sv_u16("sw_type_code");
    h.sw_ch_tr_num = sv_u16("sw_ch_tr_num");
    h.taper_at_start = sv_u16("taper_at_start");
    h.taper_at_end = sv_u16("taper_at_end");
    h.taper_type = sv_u16("taper_type");
    h.corr_traces = sv_u16("corr_traces");
    h.bin_gain_recov = sv_u16("bin_gain_recov");
    h.amp_recov_meth = sv_u16("amp_recov_meth");
    h.measure_system = sv_u16("measure_system");
    h.impulse_sig_pol = sv_u16("impulse_sig_pol");
    h.vib_pol_code = sv_u16("vib_pol_code");
    h.ext_tr_per_ens = sv_u32("ext_tr_per_ens");
    h.ext_aux_per_ens = sv_u32("ext_aux_per_ens");
    h.ext_samp_int = sv_f64("ext_samp_int");
    h.ext_samp_int_orig = sv_f64("ext_samp_int_orig");
    h.ext_samp_per_tr_orig = sv_u32("ext_samp_per_tr_orig");
    h.ext_ens_fold = sv_u32("ext_ens_fold");
    h.endianness = order == 0 ? 0 : order == 1 ? BIG : LITTLE;
    h.SEGY_rev_major_ver = rev;
    h.SEGY_rev_minor_ver = sv_u8("minor");
    h.fixed_tr_length = variant ? 0 : 1;
    h.time_basis_code = sv_u16("time_basis_code");
    h.num_of_tr_in_file = sv_u64("num_of_tr_in_file");
    return h;
}
static void compare(BH const& h, bool little)
{
    auto fl = bin_fields();
    std::vector<bool> used(400, false);
    for (int i = 0; i < NBIN; ++i) {
        uint64_t got = sv::word("out.sgy", 3200 + fl[i].off, fl[i].size, little);
        uint64_t want = bin_get(h, i);
        if (fl[i].size < 8)
            want &= (1ull << 8 * fl[i].size) - 1;
        eq(std::string("encoded field ") + fl[i].name, got, want);
        for (int k = 0; k < fl[i].size; ++k)
            used[fl[i].off + k] = true;
    }
    // the marker is stored so that it reads 1 2 3 4 in big-endian files and 4 3 2 1 in little-endian ones
    for (int k = 0; k < 4; ++k) {
        eq(lbl("byte-order marker byte", k), sv_filebyte("out.sgy", 3296 + k),
            h.endianness == 0 ? 0 : h.endianness == BIG ? k + 1 : 4 - k);
        used[96 + k] = true;
    }
    for (int k = 0; k < 400; ++k)
        if (!used[k])
            eq(lbl("unassigned byte", k), sv_filebyte("out.sgy", 3200 + k), 0);
    eq("file size", sv_filesize("out.sgy"), 3600);
}
extern "C" void sc_C02_rev0()
{
    int order = sv_param("order", 0, 3), v = sv_param("variant", 0, 2);
    BH h = make(order, 0, v);
    BH want = h;
    {
        OSEGYRev0 out("out.sgy", std::string(3200, 'x'), h);
    }
    compare(want, order == 2);
}
extern "C" void sc_C02_rev1()
{
    int order = sv_param("order", 0, 3), v = sv_param("variant", 0, 2);
    BH h = make(order, 1, v);
    BH want = h;
    {
        OSEGYRev1 out("out.sgy", { std::string(3200, 'x') }, h);
    }
    compare(want, order == 2);
}
extern "C" void sc_C02_rev2()
{
    int order = sv_param("order", 0, 3), v = sv_param("variant", 0, 2);
    BH h = make(order, 2, v);
    BH want = h;
    {
        OSEGYRev2 out("out.sgy", { std::string(3200, 'x') }, h);
    }
    compare(want, order == 2);
}
// what was written is what a reader reports
extern "C" void sc_C02_reread()
{
    int order = sv_param("order", 0, 3), v = sv_param("variant", 0, 2);
    BH h = make(order, 2, v);
    BH want = h;
    {
        OSEGYRev2 out("out.sgy", { std::string(3200, 'x') }, h);
    }
    ISEGY in("out.sgy");
    auto fl = bin_fields();
    for (int i = 0; i < NBIN; ++i)
        eq(std::string("re-read field ") + fl[i].name, bin_get(in.binary_header(), i), bin_get(want, i));
    eq("re-read byte-order word", in.binary_header().endianness, want.endianness);
}
