// C23: OpenMTP files (Meteosat first generation) are read as they are, or refused
//
// Exhaustive enumeration of files against the layout of the format: a text
// header, a binary header of three sections (the second is not used in
// rectified images, the third is longer in visible composites) and image lines
// of 32 bytes and the pixels.
#include <array>
#include "mc.hpp"
#include "enumerate.hpp"
#include <msat/openmtp/OpenMTP.h>
#include <cmath>
#include <memory>
#include <sstream>
#include <stdexcept>

using std::string;
using std::vector;
typedef OpenMTP_binary_header H;

namespace {

const size_t ASCII = 1345, SEC1 = 5175, SEC2 = 2636, SEC3 = 136704, SEC3_VIS = 185188;

// Values of the binary header
struct Int { const char* name; size_t off; int (H::*get)(); };
struct Short { const char* name; size_t off; short (H::*get)(); };
struct Float { const char* name; size_t off; float (H::*get)(); };
struct Double { const char* name; size_t off; double (H::*get)(); };
struct Text { const char* name; size_t off; unsigned len; char* (H::*get)(); };
struct Code { const char* name; size_t off; int from, to; bool (H::*get)(); int (H::*get_int)(); };
struct Flag { const char* name; size_t off; bool (H::*get)(); };
struct Ints { const char* name; size_t off; unsigned n; int* (H::*get)(); };
struct Shorts { const char* name; size_t off; unsigned n; short* (H::*get)(); };
struct Floats { const char* name; size_t off; unsigned n; float* (H::*get)(); };
struct Doubles { const char* name; size_t off; unsigned n; double* (H::*get)(); };

#define V(name, off) { #name, off, &H::name }
#define A(name, off, n) { #name, off, n, &H::name }
const Int ints[] = {
    V(year, 8), V(jday, 12), V(slot, 16), V(dtype, 20), V(date, 24), V(time, 28), V(proc, 36), V(chan, 40),
    V(header_2_record_size, 60), V(image_line_record_size, 64), V(offset_first_pixel_in_line, 68),
    V(deformation_model, 87), V(resampling_method, 91), V(origin, 111),
    V(first_line, 123), V(first_pixel, 127), V(nlines, 131), V(npixels, 135), V(image_quality, 5155),
    V(urect_nominal_end_time, 5175), V(urect_processing_performed, 5179), V(urect_special_output, 5183),
    V(urect_radiometer_refpos, 5187), V(urect_refpos_line_number, 5191),
    V(ngridpoints_deformation_matrix, 7811), V(grid_deformation_start, 7815), V(grid_deformation_end, 7819), V(grid_deformation_step, 7823),
    V(number_corrected_channels, 96027), V(chid_first_corrected, 96031), V(chid_second_corrected, 144515),
};
const Short shorts[] = {
    V(urect_scanning_law, 5195), V(urect_number_of_received_subimage, 5197), V(urec_ir_channel_in_use, 7575),
    V(urec_radiometer_step_offset_start, 7577), V(urec_radiometer_step_south, 7619), V(urec_radiometer_step_north, 7621),
};
const Float floats[] = { V(subsatellite_point, 95), V(urec_rmid, 7623) };
const Double doubles[] = {
    V(urec_start_image, 7367), V(urec_end_image, 7375), V(urec_time_of_first_pixel, 7527), V(urec_tmid, 7627), V(urec_distance_es, 7635),
    V(urec_cone_angle_beta_south_obs, 7643), V(urec_cone_angle_beta_north_obs, 7651),
    V(urec_cone_angle_beta_south_exp, 7659), V(urec_cone_angle_beta_north_exp, 7667),
    V(urec_etas, 7675), V(urec_etan, 7683), V(urec_betasn, 7691), V(urec_betann, 7699),
    V(urec_step_parameter_F0_old, 7707), V(urec_step_parameter_F1_old, 7715), V(urec_step_parameter_F0_new, 7723), V(urec_step_parameter_F1_new, 7731),
    V(urec_spin_deviation_fit_const, 7755), V(urec_spin_deviation_fit_linear, 7763), V(urec_spin_deviation_fit_quad, 7771),
    V(urec_standard_deviation_spin_fit, 7779), V(urec_maximum_deviation_spin_fit, 7787),
};
const Text texts[] = {
    A(field_name, 0, 8), A(satellite_name, 32, 2), A(rectification_method_name, 72, 15), A(phenomena_index, 115, 8),
    A(missing_line_table, 155, 2500), A(missing_line_table_VISn, 2655, 2500),
};
#define C(name, off, value) { #name, off, value, value, &H::name, nullptr }
#define CI(name, off, value) { #name, off, value, value, nullptr, &H::name }
const Code codes[] = {
    C(is_no_data_slot, 16, 0), C(is_normal_slot, 16, 1), C(is_special_slot, 16, 2),
    C(is_raw_data, 36, 0), C(is_ir_processed, 36, 1), C(is_vis_processed, 36, 2), C(is_wv_processed, 36, 3), C(is_rectified_to_next_neighbour, 36, 5),
    { "is_rectified", 36, 4, 0x7fffffff, &H::is_rectified, nullptr },
    C(is_no_data, 40, 0), C(is_VISs_data, 40, 1), C(is_VISn_data, 40, 2), C(is_visible_composite, 40, 3),
    { "is_vis_data", 40, 1, 3, &H::is_vis_data, nullptr },
    C(is_ir1_data, 40, 4), C(is_ir2_data, 40, 5), { "is_ir_data", 40, 4, 5, &H::is_ir_data, nullptr },
    C(is_wv1_data, 40, 6), C(is_wv2_data, 40, 7), { "is_wv_data", 40, 6, 7, &H::is_wv_data, nullptr },
    C(is_deformation_none, 87, 0), C(is_deformation_batch, 87, 1), C(is_deformation_realtime, 87, 2),
    C(is_resampling_none, 91, 0), C(is_resampling_nearest_neighbour, 91, 1), C(is_resampling_splines_4x4, 91, 2),
    C(is_south_east, 111, 0), C(is_north_east, 111, 1), C(is_north_west, 111, 2), C(is_south_west, 111, 3),
    C(is_image_quality_nominal, 5155, 0), C(is_image_attitude_unknown, 5155, 1), C(is_image_orbit_unknown, 5155, 2),
    C(is_image_horizon_incomplete, 5155, 3), C(is_image_deformation_not_calculated, 5155, 4),
    C(is_image_RADOPOS_LID_inconsistent, 5155, 5), C(is_image_HR_not_interpreted, 5155, 6),
    C(is_urect_raw_data, 5179, 0), C(is_urect_preprocessed_data, 5179, 1),
    CI(is_urect_special_output_no_data, 5183, 0), CI(is_urect_special_output_VISs_IR_WV, 5183, 1),
    CI(is_urect_special_output_VISn, 5183, 2), CI(is_urect_special_output_VISs_VISn, 5183, 3),
};
const Flag flags[] = {
    V(is_urec_horizon_analysis_ok, 7559), V(is_urec_spin_speed_fit_ok, 7560), V(is_urec_orbit_offset_vector_fit_ok, 7561),
    V(is_urec_pixel_resampling_rate_fit_ok, 7562), V(is_urec_attitude_refinement_ok, 7563), V(is_urec_automatic_landmark_ok, 7564),
    V(is_urec_actual_image_movement_fit_ok, 7565), V(is_urec_calculation_of_deformation_ok, 7566), V(is_urec_geometrical_LPEF_ok, 7567),
    V(is_urec_rectification_segmentation_ok, 7568), V(is_urec_amplitude_processing_ok, 7569),
};
const Ints int_arrays[] = { A(urect_raw_image_histogram, 5319, 256), A(urect_raw_image_histogram_VISn, 6343, 256) };
const Shorts short_arrays[] = {
    A(urect_first_line_in_subimage, 5199, 20), A(urect_nlines_in_subimage, 5239, 20), A(urect_curr_decoded_rad_pos_of_first_line_in_subimage, 5279, 20),
    A(urec_horizon_information, 7503, 12), A(urec_horizon_limit_information, 7579, 12),
};
const Floats float_arrays[] = {
    A(urec_cartesian_attitude_start, 7479, 3), A(urec_cartesian_attitude_end, 7491, 3),
    A(deformation_matrix_x, 7827, 11025), A(deformation_matrix_y, 51927, 11025),
    A(line_geometric_correction_EW_1, 96035, 3030), A(line_geometric_correction_NS_1, 108155, 3030),
    A(line_radiometric_correction_offset_1, 120275, 3030), A(line_radiometric_correction_gain_1, 132395, 3030),
    A(line_geometric_correction_EW_2, 144519, 3030), A(line_geometric_correction_NS_2, 156639, 3030),
    A(line_radiometric_correction_offset_2, 168759, 3030), A(line_radiometric_correction_gain_2, 180879, 3030),
};
const Doubles double_arrays[] = {
    A(urec_orbit_coord_in_geoframe_start, 7383, 6), A(urec_orbit_coord_in_geoframe_end, 7431, 6), A(urec_times_of_horizon_scan_lines, 7603, 2),
};

template<typename T> T be(const string& s, size_t off)
{
    unsigned char b[sizeof(T)];
    for (unsigned i = 0; i < sizeof(T); ++i) b[i] = s[off + sizeof(T) - 1 - i];
    T v;
    memcpy(&v, b, sizeof(T));
    return v;
}
template<typename T> void put(string& s, size_t off, T v)
{
    unsigned char b[sizeof(T)];
    memcpy(b, &v, sizeof(T));
    for (unsigned i = 0; i < sizeof(T); ++i) s[off + i] = b[sizeof(T) - 1 - i];
}
// Bit by bit, as numbers can be NaN
template<typename T> bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }

struct MFile
{
    string ascii = string(ASCII, 'A');
    string bin = string(SEC1 + SEC2 + SEC3_VIS, '\0');
    vector<string> lines;        // with their headers
    int chan() const { return be<int>(bin, 40); }
    bool vis() const { return chan() == 3; }
    bool rectified() const { return be<int>(bin, 36) > 3; }
    size_t header_size() const { return ASCII + SEC1 + SEC2 + (vis() ? SEC3_VIS : SEC3); }
    string encode() const
    {
        string s = ascii + bin.substr(0, SEC1 + SEC2 + (vis() ? SEC3_VIS : SEC3));
        for (auto& l : lines) s += l;
        return s;
    }
    // What the reader sees of the binary header
    string seen() const
    {
        string s = bin;
        if (rectified()) s.replace(SEC1, SEC2, SEC2, '\0');
        if (!vis()) s.replace(SEC1 + SEC2 + SEC3, string::npos, s.size() - SEC1 - SEC2 - SEC3, '\0');
        return s;
    }
    void image(int nl, int np, unsigned salt)
    {
        put<int>(bin, 131, nl);
        put<int>(bin, 135, np);
        lines.clear();
        for (int j = 0; j < nl; ++j)
        {
            string l;
            for (int i = 0; i < 32 + np; ++i) l += (char)((j * 31 + i * 7 + salt) ^ (i / 256));
            lines.push_back(l);
        }
    }
    string pixels() const
    {
        string s;
        for (auto& l : lines) s += l.substr(32);
        return s;
    }
};

MFile make(int chan, int proc, int nl = 2, int np = 3, unsigned salt = 1, const char* sat = "M7")
{
    MFile f;
    for (size_t i = 0; i < f.bin.size(); ++i) f.bin[i] = (char)((i * 2654435761u * (2 * salt + 1)) >> 13);
    put<int>(f.bin, 8, 1998 + salt % 9);
    put<int>(f.bin, 24, 981231);
    put<int>(f.bin, 28, 1430);
    f.bin.replace(32, 2, sat);
    f.bin.replace(44, 13, "0763905012014");
    put<int>(f.bin, 36, proc);
    put<int>(f.bin, 40, chan);
    f.image(nl, np, salt);
    return f;
}

string path;
void store(const MFile& f)
{
    if (path.empty()) path = mc::work + "/f.omtp";
    mc::write_file(path, f.encode());
}

/// Read a file: false if it was refused
bool load(OpenMTP& o, const string& p, string* why = nullptr)
{
    try {
        vector<char> name(p.c_str(), p.c_str() + p.size() + 1);
        o.open(name.data());
        return true;
    } catch (std::exception& e) {
        if (why) *why = e.what();
        if (!*e.what()) mc::fail("C23:refusal", "refused without a reason");
        return false;
    }
}

// Header of a file, read with the class for headers
struct Reader
{
    std::unique_ptr<H> h{new H};
    bool read()
    {
        std::ifstream in(path, std::ios::binary);
        in.seekg(ASCII);
        try { h->read(in); return true; } catch (std::exception& e) { mc::fail("C23:header-refused", "a good header was refused: %s", e.what()); return false; }
    }
};

void check_scalars(H& h, const string& s)
{
    for (auto& f : ints) if ((h.*f.get)() != be<int>(s, f.off)) mc::fail(string("C23:field:") + f.name, "%s is %d instead of %d", f.name, (h.*f.get)(), be<int>(s, f.off));
    for (auto& f : shorts) if ((h.*f.get)() != be<short>(s, f.off)) mc::fail(string("C23:field:") + f.name, "%s is %d instead of %d", f.name, (h.*f.get)(), be<short>(s, f.off));
    for (auto& f : floats) if (!same((h.*f.get)(), be<float>(s, f.off))) mc::fail(string("C23:field:") + f.name, "%s is %g instead of %g", f.name, (h.*f.get)(), be<float>(s, f.off));
    for (auto& f : doubles) if (!same((h.*f.get)(), be<double>(s, f.off))) mc::fail(string("C23:field:") + f.name, "%s is %g instead of %g", f.name, (h.*f.get)(), be<double>(s, f.off));
    for (auto& f : codes)
    {
        int v = be<int>(s, f.off);
        bool got = f.get ? (h.*f.get)() : (h.*f.get_int)() != 0;
        if (got != (v >= f.from && v <= f.to)) mc::fail(string("C23:code:") + f.name, "%s is %d with the value %d", f.name, got, v);
    }
    for (auto& f : flags) if ((h.*f.get)() != (s[f.off] != 0)) mc::fail(string("C23:flag:") + f.name, "%s is %d with the value %d", f.name, (h.*f.get)(), s[f.off]);
    bool* st = h.urec_status_flags();
    for (unsigned i = 0; i < 16; ++i) if (st[i] != (s[7559 + i] != 0)) mc::fail("C23:flag:urec_status_flags", "status flag %u is %d with the value %d", i, st[i], s[7559 + i]);
}

template<typename F, typename T> void check_array(H& h, const string& s, const F& f, T*)
{
    T* v = (h.*f.get)();
    for (unsigned i = 0; i < f.n; ++i)
        if (!same(v[i], be<T>(s, f.off + i * sizeof(T))))
        {
            mc::fail(string("C23:array:") + f.name, "%s[%u] is %g instead of %g", f.name, i, (double)v[i], (double)be<T>(s, f.off + i * sizeof(T)));
            return;
        }
}

void check_arrays(H& h, const string& s)
{
    for (auto& f : texts)
    {
        char* t = (h.*f.get)();
        if (memcmp(t, s.data() + f.off, f.len) || t[f.len]) mc::fail(string("C23:text:") + f.name, "%s is not as in the file", f.name);
    }
    for (auto& f : int_arrays) check_array(h, s, f, (int*)0);
    for (auto& f : short_arrays) check_array(h, s, f, (short*)0);
    for (auto& f : float_arrays) check_array(h, s, f, (float*)0);
    for (auto& f : double_arrays) check_array(h, s, f, (double*)0);
    for (int i = 0; i < 2500; ++i)
    {
        if (h.is_line_present(i) != (s[155 + i] != 0)) { mc::fail("C23:line-present", "presence of line %d", i); break; }
        if (h.is_line_present_VISn(i) != (s[2655 + i] != 0)) { mc::fail("C23:line-present", "presence of VISn line %d", i); break; }
    }
}

const int alphabet[] = { 0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x01020304, 0x7fffffff, (int)0x80000000 };

// digits or blanks, as numbers
double digits(const string& s, double first)
{
    double v = 0;
    for (char c : s) { if (c != ' ') v += (c - '0') * first; first /= 10; }
    return v;
}

void check_calibration(const MFile& f, const float* cal, const string& what)
{
    string sat = f.bin.substr(32, 2);
    int chan = f.chan();
    double cc = digits(f.bin.substr(44, 5), 0.1), sc = digits(f.bin.substr(49, 3), 10);
    for (int i = 0; i < 256; ++i)
    {
        double want = 1;
        double rad = i > sc ? cc * (i - sc) : 0;
        if (sat != "M7") want = 1;
        else if (chan == 4 || chan == 5) want = rad > 0 ? -1255.5465 / (log(rad) - 6.9618) : 0;
        else if (chan == 6 || chan == 7) want = rad > 0 ? -2233.4882 / (log(rad) - 9.2477) : 0;
        else if (chan >= 1 && chan <= 3) want = 100.0 * i / 255;
        if (!(fabs(cal[i] - want) <= 1e-4 * fabs(want)))
        {
            mc::fail("C23:calibration", "%s: the value of count %d is %.9g instead of %.9g", what.c_str(), i, cal[i], want);
            return;
        }
    }
}

/// Compare the whole object with the file
void check_image(OpenMTP& o, const MFile& f, const string& what)
{
    int nl = f.lines.size(), np = nl ? f.lines[0].size() - 32 : be<int>(f.bin, 135);
    if (o.nlines() != nl || o.npixels() != np) { mc::fail("C23:image-size", "%s: %dx%d instead of %dx%d", what.c_str(), o.nlines(), o.npixels(), nl, np); return; }
    string px = f.pixels();
    if (px.size())
    {
        if (!o.get_image()) { mc::fail("C23:no-image", "%s: no image", what.c_str()); return; }
        if (memcmp(o.get_image(), px.data(), px.size())) mc::fail("C23:pixels", "%s: pixels are not those of the file", what.c_str());
    }
    if (o.bits_per_pixel() != 8) mc::fail("C23:bits", "%s: %d bits per pixel", what.c_str(), o.bits_per_pixel());
    check_calibration(f, o.get_calibration(), what);
}

/// After a refusal: an image, if any, has the size the object says
void check_refused(OpenMTP& o, const string& what)
{
    const unsigned char* d = o.get_image();
    if (!d) return;
    long n = (long)o.nlines() * o.npixels();
    volatile unsigned char sum = 0;
    for (long i = 0; i < n; ++i) sum = sum + d[i];
}

} // namespace

// Every header value with every value of an alphabet, and all values at once
// with byte patterns that are different everywhere
MC_GROUP(fields)
{
    Reader r;
    for (int chan : { 4, 3 }) for (int proc : { 0, 5 })
    {
        for (unsigned salt = 1; salt <= (mc::thorough ? 256u : 24u); ++salt)
        {
            if (!mc::begin("channel %d processing %d pattern %u", chan, proc, salt)) continue;
            MFile f = make(chan, proc, 0, 0, salt);
            if (salt < 9) for (size_t i = 155; i < 5155; ++i) f.bin[i] = (i >> (salt - 1)) & 1;
            store(f);
            if (!r.read()) continue;
            check_scalars(*r.h, f.seen());
            check_arrays(*r.h, f.seen());
            mc::count();
            ++mc::sh->states;
        }
        MFile base = make(chan, proc, 0, 0);
        auto each = [&](const char* name, size_t off, unsigned size) {
            MFile f = base;
            for (int a : alphabet)
            {
                if (off == 36 || off == 40) break;
                if (!mc::begin("channel %d processing %d %s=%d", chan, proc, name, a)) continue;
                if (size == 2) put<short>(f.bin, off, a); else if (size == 1) f.bin[off] = a; else put<int>(f.bin, off, a);
                store(f);
                if (!r.read()) continue;
                check_scalars(*r.h, f.seen());
                mc::count();
                ++mc::sh->states;
            }
        };
        for (auto& f : ints) each(f.name, f.off, 4);
        for (auto& f : shorts) each(f.name, f.off, 2);
        for (auto& f : floats) each(f.name, f.off, 4);
        for (auto& f : doubles) each(f.name, f.off, 4);
        for (auto& f : flags) each(f.name, f.off, 1);
        // Codes
        for (size_t off : { 16, 87, 91, 111, 5155, 5179, 5183 })
            for (int v = -2; v < 12; ++v) for (int hi : { 0, 0x100, 0x1000000 })
            {
                if (!mc::begin("channel %d processing %d code at %zu is %d", chan, proc, off, v + hi)) continue;
                MFile f = base;
                put<int>(f.bin, off, v + hi);
                store(f);
                if (!r.read()) continue;
                check_scalars(*r.h, f.seen());
                mc::count();
            }
    }
    // Channels and processing: these change the layout
    for (int chan : { -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 256, 259, 65536, 0x03000000 })
        for (int proc : { -1, 0, 1, 2, 3, 4, 5, 6, 256, 0x05000000, (int)0x80000005 })
        {
            if (!mc::begin("layout of channel %d processing %d", chan, proc)) continue;
            MFile f = make(chan, proc, 1, 5);
            store(f);
            if (!r.read()) continue;
            check_scalars(*r.h, f.seen());
            check_arrays(*r.h, f.seen());
            std::unique_ptr<OpenMTP> o(new OpenMTP);
            if (!load(*o, path)) { mc::fail("C23:layout-refused", "channel %d processing %d: refused", chan, proc); continue; }
            check_image(*o, f, mc::fmt("channel %d processing %d", chan, proc));
            const char* want = chan >= 1 && chan <= 3 ? "VIS" : chan >= 4 && chan <= 5 ? "IR" : chan >= 6 && chan <= 7 ? "WV" : nullptr;
            string name = "(refused)", unit = "(refused)";
            try { name = o->get_chname(); } catch (std::exception&) {}
            try { unit = o->get_chunit(); } catch (std::exception&) {}
            if (name != (want ? want : "(refused)") || unit != (!want ? "(refused)" : !strcmp(want, "VIS") ? "%" : "K"))
                mc::fail("C23:channel-name", "channel %d is %s in %s", chan, name.c_str(), unit.c_str());
            if (o->is_vis_data() != (want && *want == 'V') || o->is_ir_data() != (want && *want == 'I') || o->is_wv_data() != (want && *want == 'W'))
                mc::fail("C23:channel-kind", "kind of channel %d", chan);
            if (!same(o->subsatellite_point(), be<float>(f.bin, 95))) mc::fail("C23:field:subsatellite_point", "sub-satellite point");
            string fn = o->get_field_name();
            if (fn != string(f.bin.substr(1, 7).c_str())) mc::fail("C23:field-name", "field name %s", fn.c_str());
            mc::count();
            ++mc::sh->states;
            mc::sample("channel %d processing %d: %s", chan, proc, name.c_str());
        }
}

// All decimal numbers of the calibration fields, with blanks
MC_GROUP(decimals)
{
    OpenMTP_machine m;
    const char* alpha = " 0123456789";
    mc::begin("five digits");
    mc::all_sequences(5, 11, [&](const vector<unsigned>& v) {
        string s;
        for (unsigned c : v) s += alpha[c];
        if (fabs(m.r4_from_char5((unsigned char*)s.data()) - digits(s, 0.1)) > 1e-6) mc::fail("C23:decimal5", "'%s' is %.7g", s.c_str(), m.r4_from_char5((unsigned char*)s.data()));
        mc::count();
    });
    mc::begin("three digits");
    for (unsigned len : { 2, 3 }) mc::all_sequences(len, 11, [&](const vector<unsigned>& v) {
        string s;
        for (unsigned c : v) s += alpha[c];
        if (s.size() == 3)
        {
            if (fabs(m.r4_from_char3((unsigned char*)s.data()) - digits(s, 10)) > 1e-5) mc::fail("C23:decimal3", "'%s' is %.7g", s.c_str(), m.r4_from_char3((unsigned char*)s.data()));
            if (m.int4_from_char3((unsigned char*)s.data()) != lround(digits(s, 100))) mc::fail("C23:integer3", "'%s' is %d", s.c_str(), m.int4_from_char3((unsigned char*)s.data()));
            mc::count();
        }
        if (s.size() == 2)
        {
            if (m.int4_from_char2((unsigned char*)s.data()) != lround(digits(s, 10))) mc::fail("C23:integer2", "'%s' is %d", s.c_str(), m.int4_from_char2((unsigned char*)s.data()));
            mc::count();
        }
    });
    // In the header
    Reader r;
    MFile f = make(4, 5, 0, 0);
    for (const char* s : { "0000000000000", "1234567890123", "    1    1  1", "9999999999999", "1    1  1  1 ", "0763950 30112" })
    {
        if (!mc::begin("calibration fields '%s'", s)) continue;
        string t = s;
        f.bin.replace(44, 13, t);
        store(f);
        if (!r.read()) continue;
        H& h = *r.h;
        if (fabs(h.mpef_calibration_coefficient() - digits(t.substr(0, 5), 0.1)) > 1e-6 || fabs(h.mpef_calibration_space_count() - digits(t.substr(5, 3), 10)) > 1e-5
            || h.mpef_calibration_day() != lround(digits(t.substr(8, 3), 100)) || h.mpef_calibration_slot() != lround(digits(t.substr(11, 2), 10)))
            mc::fail("C23:calibration-fields", "'%s' is %g %g %d %d", s, h.mpef_calibration_coefficient(), h.mpef_calibration_space_count(), h.mpef_calibration_day(), h.mpef_calibration_slot());
        mc::count();
    }
    // Binary numbers
    for (unsigned pos = 0; pos < 8; ++pos) for (unsigned v = 0; v < 256; ++v) for (unsigned bg : { 0u, 0x5au, 0xffu })
    {
        if (!mc::begin("binary numbers: byte %u is %u over %u", pos, v, bg)) continue;
        string s(8, (char)bg);
        s[pos] = v;
        unsigned char* p = (unsigned char*)s.data();
        if (m.int2(p) != be<short>(s, 0) || m.int4(p) != be<int>(s, 0) || !same(m.float4(p), be<float>(s, 0)) || !same(m.float8(p), be<double>(s, 0)))
            mc::fail("C23:binary", "byte %u is %u over %u", pos, v, bg);
        mc::count();
    }
}

// Calibration of all counts
MC_GROUP(calibration)
{
    std::unique_ptr<OpenMTP> o(new OpenMTP);
    for (const char* sat : { "M7", "M6", "M5", "G8", "m7" }) for (int chan = 0; chan <= 8; ++chan)
    {
        MFile f = make(chan, 5, 1, 4, 1, sat);
        for (const char* cc : { "00000", "00001", "07639", "  763", "10000", "99999" }) for (const char* sc : { "000", "001", "050", "052", "055", "100", "999", " 5 ", "12 ", "125" })
        {
            if (!mc::begin("%s channel %d coefficient %s space count %s", sat, chan, cc, sc)) continue;
            f.bin.replace(44, 5, cc);
            f.bin.replace(49, 3, sc);
            store(f);
            // The same object for all
            if (!load(*o, path)) { mc::fail("C23:refused", "a good file was refused"); continue; }
            check_image(*o, f, mc::fmt("%s channel %d coefficient %s space count %s", sat, chan, cc, sc));
            string name = "(refused)";
            try { name = o->get_satellite_name(); } catch (std::exception&) {}
            if (name != (!strcmp(sat, "M7") ? "METEOSAT 7" : !strcmp(sat, "M6") ? "METEOSAT 6" : "(refused)")) mc::fail("C23:satellite", "%s is %s", sat, name.c_str());
            if (string(o->get_satellite_code()) != sat) mc::fail("C23:satellite-code", "%s is %s", sat, o->get_satellite_code());
            mc::count();
            ++mc::sh->states;
        }
    }
}

// Images of all small sizes, and of sizes that are not possible
MC_GROUP(images)
{
    const int good[] = { 0, 1, 2, 3, 5, 8, 33 };
    for (int chan : { 3, 4, 7 }) for (int nl : good) for (int np : good) for (unsigned salt : { 1, 2 })
    {
        if (!mc::begin("channel %d image %dx%d pattern %u", chan, nl, np, salt)) continue;
        MFile f = make(chan, chan == 7 ? 0 : 5, nl, np, salt);
        store(f);
        std::unique_ptr<OpenMTP> o(new OpenMTP);
        if (!load(*o, path)) { mc::fail("C23:refused", "an image of %dx%d was refused", nl, np); continue; }
        check_image(*o, f, mc::fmt("image %dx%d", nl, np));
        mc::count();
        ++mc::sh->states;
    }
    vector<std::pair<int, int>> big{ { 256, 1 }, { 1, 256 }, { 300, 300 }, { 1, 5000 }, { 5000, 1 }, { 2, 4999 }, { 17, 2500 } };
    if (mc::thorough) { big.push_back({ 5000, 5000 }); big.push_back({ 2500, 2500 }); }
    for (auto& s : big)
    {
        if (!mc::begin("large image %dx%d", s.first, s.second)) continue;
        MFile f = make(4, 5, s.first, s.second);
        store(f);
        std::unique_ptr<OpenMTP> o(new OpenMTP);
        if (!load(*o, path)) { mc::fail("C23:refused", "an image of %dx%d was refused", s.first, s.second); continue; }
        check_image(*o, f, mc::fmt("image %dx%d", s.first, s.second));
        mc::count();
    }
    const int odd[] = { -2147483647 - 1, -65536, -5000, -1, 0, 1, 5001, 5033, 65535, 65536, 0x10001, 0x1000000, 0x7fffffff };
    for (int nl : odd) for (int np : odd)
    {
        if (nl >= 0 && nl <= 5000 && np >= 0 && np <= 5000) continue;
        if (!mc::begin("impossible image %dx%d", nl, np)) continue;
        // As many bytes as the first lines would have
        MFile f = make(4, 5, 40, 5001);
        put<int>(f.bin, 131, nl);
        put<int>(f.bin, 135, np);
        store(f);
        int rc = mc::isolated([&] {
            std::unique_ptr<OpenMTP> o(new OpenMTP);
            bool ok = load(*o, path);
            check_refused(*o, "impossible image");
            return ok ? 1 : 0;
        });
        // No pixels at all is nothing wrong
        if (rc == 1 && nl != 0 && np != 0) mc::fail("C23:impossible-size", "an image of %dx%d was read", nl, np);
        else if (rc > 1) mc::fail("C23:impossible-size", "an image of %dx%d: %s", nl, np, mc::outcome(rc).c_str());
        mc::count();
    }
    // Every pixel value
    mc::begin("all pixel values");
    MFile f = make(4, 5, 1, 256);
    for (int i = 0; i < 256; ++i) f.lines[0][32 + i] = i;
    store(f);
    std::unique_ptr<OpenMTP> o(new OpenMTP);
    if (o->nlines() || o->npixels() || o->get_image()) mc::fail("C23:new-object", "an object without file has an image");
    if (load(*o, path))
    {
        check_image(*o, f, "all pixel values");
        std::stringstream out;
        out << *o;
        string text = out.str();
        for (int i = 0; i < 256; ++i)
        {
            std::stringstream want;
            want << "Pixel (0," << i << ")\t" << o->get_calibration()[i] << "\n";
            if (text.find(want.str()) == string::npos) { mc::fail("C23:printed-pixel", "pixel %d is not printed as %s", i, want.str().c_str()); break; }
        }
        for (const char* l : { "Nlines\t\t1\n", "Npixels\t\t256\n", "Satellite Name\tM7\n", "Date\t\t981231\n", "Time\t\t1430\n" })
            if (text.find(l) == string::npos) mc::fail("C23:printed-header", "the text has no %s", l);
        mc::count();
    }
    // Text of the header
    for (int chan : { 3, 4 }) for (int proc : { 0, 5 })
    {
        if (!mc::begin("text of the header of channel %d processing %d", chan, proc)) continue;
        MFile g = make(chan, proc, 1, 1);
        store(g);
        Reader r;
        if (!r.read()) continue;
        std::stringstream out;
        out << *r.h;
        vector<string> got;
        for (string l; std::getline(out, l); ) got.push_back(l);
        string bin = g.bin;
        auto expect = [&](const string& label, unsigned n, bool present, std::function<void(std::ostream&, unsigned)> value) {
            unsigned found = 0;
            for (auto& l : got)
            {
                if (l.compare(0, label.size() + 1, label + " ")) continue;
                std::stringstream want;
                want << label << " " << found << "\t\t";
                value(want, found);
                string w = want.str(), m = l;
                // One or two tabs
                for (string* x : { &w, &m }) for (size_t t; (t = x->find("\t\t")) != string::npos; ) x->erase(t, 1);
                if (found >= n || w != m) { mc::fail("C23:printed-header", "'%s' is printed instead of '%s'", m.c_str(), found >= n ? "nothing" : w.c_str()); return; }
                ++found;
            }
            if (found != (present ? n : 0)) mc::fail("C23:printed-header", "%u values of %s are printed", found, label.c_str());
        };
        auto shorts_at = [&](size_t off) { return [&bin, off](std::ostream& o, unsigned i) { o << be<short>(bin, off + 2 * i); }; };
        auto ints_at = [&](size_t off) { return [&bin, off](std::ostream& o, unsigned i) { o << be<int>(bin, off + 4 * i); }; };
        auto floats_at = [&](size_t off) { return [&bin, off](std::ostream& o, unsigned i) { o << be<float>(bin, off + 4 * i); }; };
        auto doubles_at = [&](size_t off) { return [&bin, off](std::ostream& o, unsigned i) { o << be<double>(bin, off + 8 * i); }; };
        expect("Fls", 20, proc == 0, shorts_at(5199));
        expect("Nsl", 20, proc == 0, shorts_at(5239));
        expect("Rdpsim", 20, proc == 0, shorts_at(5279));
        expect("Hist1", 256, proc == 0, ints_at(5319));
        expect("Hist2", 256, proc == 0, ints_at(6343));
        expect("Orbf", 6, proc == 0, doubles_at(7383));
        expect("Orbl", 6, proc == 0, doubles_at(7431));
        expect("Attf", 3, proc == 0, floats_at(7479));
        expect("Attl", 3, proc == 0, floats_at(7491));
        expect("Ewgeo1", 3030, true, floats_at(96035));
        expect("Nsgeo1", 3030, true, floats_at(108155));
        expect("Roff1", 3030, true, floats_at(120275));
        expect("Rgain1", 3030, true, floats_at(132395));
        expect("Ewgeo2", 3030, chan == 3, floats_at(144519));
        expect("Nsgeo2", 3030, chan == 3, floats_at(156639));
        expect("Roff2", 3030, chan == 3, floats_at(168759));
        expect("Rgain2", 3030, chan == 3, floats_at(180879));
        mc::count();
    }
    // Lines
    for (int np : { 0, 1, 100, 5000, 5001, -1 })
    {
        if (!mc::begin("a line of %d pixels", np)) continue;
        string d;
        for (int i = 0; i < 6000; ++i) d += (char)(i * 11 + 200);
        mc::write_file(mc::work + "/line", d);
        std::ifstream in(mc::work + "/line", std::ios::binary);
        OpenMTP_image_line l;
        bool ok = true;
        try { l.read(in, np); } catch (std::exception&) { ok = false; }
        if (ok != (np >= 0 && np <= 5000)) mc::fail("C23:line", "a line of %d pixels was %s", np, ok ? "read" : "refused");
        if (ok && (l.slot_number() != be<int>(d, 0) || l.line_number() != be<int>(d, 4) || l.errps() != be<short>(d, 8) || l.radpos() != be<short>(d, 10)
            || l.radpos_start() != be<short>(d, 30) || memcmp(l.linevals(), d.data() + 32, np)))
            mc::fail("C23:line", "fields of a line of %d pixels", np);
        mc::count();
    }
}

// Files cut at every place
MC_GROUP(cut)
{
    std::unique_ptr<OpenMTP> reused(new OpenMTP);
    for (int chan : { 4, 3 }) for (int proc : { 0, 5 })
    {
        MFile f = make(chan, proc, 3, 4);
        string all = f.encode();
        path = mc::work + "/f.omtp";
        vector<size_t> edges{ 0, ASCII, ASCII + SEC1, ASCII + SEC1 + SEC2, f.header_size(), f.header_size() + 36, f.header_size() + 72, all.size() };
        vector<size_t> lens;
        for (size_t n = 0; n < all.size(); ++n)
        {
            bool near = mc::thorough ? n % 7 == 0 : n % 997 == 0;
            for (size_t e : edges) if (n + 40 > e && n < e + 40) near = true;
            if (near) lens.push_back(n);
        }
        mc::write_file(path, all);
        for (auto i = lens.rbegin(); i != lens.rend(); ++i)
        {
            size_t n = *i;
            if (truncate(path.c_str(), n) != 0) abort();
            if (!mc::begin("channel %d processing %d cut at %zu of %zu", chan, proc, n, all.size())) continue;
            std::unique_ptr<OpenMTP> o(new OpenMTP);
            if (load(*o, path)) mc::fail("C23:cut", "channel %d: a file cut at %zu of %zu was read", chan, n, all.size());
            check_refused(*o, "cut");
            if (load(*reused, path)) mc::fail("C23:cut", "channel %d: a file cut at %zu of %zu was read again", chan, n, all.size());
            check_refused(*reused, "cut");
            mc::count();
            ++mc::sh->states;
        }
        // More than needed is not a problem
        mc::write_file(path, all + "more");
        if (!load(*reused, path)) mc::fail("C23:refused", "a file with bytes after the image was refused");
        else check_image(*reused, f, "after files that were cut");
    }
    for (const char* p : { "/nothere", "/", "/f.omtp/x" })
    {
        mc::begin("no file %s", p);
        if (load(*reused, mc::work + p)) mc::fail("C23:no-file", "%s was read", p);
        mc::count();
    }
}

// All days and all times
MC_GROUP(dates)
{
    std::unique_ptr<OpenMTP> o(new OpenMTP);
    MFile f = make(4, 5, 0, 0);
    static const int days[] = { 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    auto one = [&](int y, int prefix, int mo, int d, int t) {
        if (!mc::begin("year %d date %d time %d", y, prefix * 10000 + mo * 100 + d, t)) return;
        put<int>(f.bin, 8, y);
        put<int>(f.bin, 24, prefix * 10000 + mo * 100 + d);
        put<int>(f.bin, 28, t);
        store(f);
        if (!load(*o, path)) { mc::fail("C23:refused", "a good file was refused"); return; }
        struct tm& tm = o->get_datetime();
        if (tm.tm_year != y - 1900 || tm.tm_mon != mo - 1 || tm.tm_mday != d || tm.tm_hour != t / 100 || tm.tm_min != t % 100 || tm.tm_sec != 0)
            mc::fail("C23:date", "%04d-%02d-%02d %04d is %d-%d-%d %d:%d:%d", y, mo, d, t, tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
        string s = mc::fmt("%04d-%02d-%02d %02d:%02d:00", y, mo, d, t / 100, t % 100);
        if (string(o->get_datatimestr()).compare(0, s.size(), s)) mc::fail("C23:date-text", "%s is %s", s.c_str(), o->get_datatimestr());
        s = mc::fmt("%04d%02d%02d_%04d", y, mo, d, t);
        if (s != o->get_timestr()) mc::fail("C23:time-text", "%s is %s", s.c_str(), o->get_timestr());
        mc::count();
        ++mc::sh->states;
    };
    for (int y : { 1977, 1999, 2000, 2001, 2006 }) for (int long_date : { 0, 1 })
        for (int mo = 1; mo <= 12; ++mo) for (int d = 1; d <= days[mo - 1]; ++d) for (int t : { 0, 30, 2330 })
        {
            if (!mc::thorough && (y == 1999 || y == 2001) && d > 2) continue;
            one(y, long_date ? y : y % 100, mo, d, t);
        }
    for (int h = 0; h < 24; ++h) for (int mi = 0; mi < 60; ++mi) one(2003, 3, 8, 9, h * 100 + mi);
    one(2003, 0, 8, 9, 1200);
}

// Full disc images, images of the B format and others
MC_GROUP(formats)
{
    std::unique_ptr<OpenMTP> o(new OpenMTP);
    // All pairs of the dimensions of the formats, and those that differ by one from a format
    vector<std::array<int, 2>> sizes;
    for (int l : { 1, 624, 625, 1250, 2500, 5000 }) for (int c : { 1, 624, 625, 1250, 2500, 5000 }) sizes.push_back({ l, c });
    for (auto& s : vector<std::array<int, 2>>{ { 625, 1250 }, { 1250, 2500 }, { 2500, 2500 }, { 5000, 5000 } })
        for (int d : { -1, 1 })
        {
            if (s[0] + d <= 5000) sizes.push_back({ s[0] + d, s[1] });
            if (s[1] + d <= 5000) sizes.push_back({ s[0], s[1] + d });
        }
    for (int chan = 0; chan <= 8; ++chan) for (auto& s : sizes) for (int first : { 1810, 3620, 1809, 1811, 3619, 3621, 1, 0 })
    {
        if (!mc::thorough && (long)s[0] * s[1] > 3200000 && (chan < 3 || chan == 8 || first > 1)) continue;
        if (!mc::thorough && (chan < 3 || chan == 8) && first != 1810 && first != 3620) continue;
        if (!mc::begin("channel %d image %dx%d from line %d", chan, s[0], s[1], first)) continue;
        MFile f = make(chan, 5, 0, 0);
        put<int>(f.bin, 131, s[0]);
        put<int>(f.bin, 135, s[1]);
        put<int>(f.bin, 123, first);
        store(f);
        if (truncate(path.c_str(), f.header_size() + s[0] * (32L + s[1])) != 0) abort();
        if (!load(*o, path)) { mc::fail("C23:refused", "a good file was refused"); continue; }
        bool ir = chan >= 4 && chan <= 7, vis = chan == 3;
        bool a = (ir && s[0] == 2500 && s[1] == 2500) || (vis && s[0] == 5000 && s[1] == 5000);
        bool b = (ir && s[0] == 625 && s[1] == 1250 && first == 1810) || (vis && s[0] == 1250 && s[1] == 2500 && first == 3620);
        if (o->is_A_format() != a || o->is_B_format() != b || o->is_subwindow() != (!a && !b))
            mc::fail("C23:format", "channel %d image %dx%d from line %d: A %d B %d subwindow %d", chan, s[0], s[1], first, o->is_A_format(), o->is_B_format(), o->is_subwindow());
        mc::count();
        ++mc::sh->states;
        mc::sample("channel %d image %dx%d from line %d: %s", chan, s[0], s[1], first, a ? "A" : b ? "B" : "subwindow");
    }
}

// All sequences of files read by the same object
MC_GROUP(histories)
{
    struct Kind { const char* name; MFile f; bool good; string path; };
    vector<Kind> kinds{
        { "IR 2x3", make(4, 5, 2, 3, 1), true, "" },
        { "VIS 3x50", make(3, 5, 3, 50, 2), true, "" },
        { "WV 60x2 not rectified", make(6, 0, 60, 2, 3), true, "" },
        { "empty", make(5, 0, 0, 0, 4), true, "" },
        { "of Meteosat 6", make(5, 5, 2, 3, 5, "M6"), true, "" },
        { "cut in the image", make(4, 5, 50, 50, 6), false, "" },
        { "cut in the header", make(4, 5, 40, 40, 7), false, "" },
        { "too large", make(4, 5, 4, 5001, 8), false, "" },
        { "missing", make(4, 5, 1, 1, 9), false, "" },
    };
    for (unsigned i = 0; i < kinds.size(); ++i)
    {
        kinds[i].path = mc::work + mc::fmt("/kind%u", i);
        string s = kinds[i].f.encode();
        if (i == 5) s.resize(s.size() - 30);
        if (i == 6) s.resize(ASCII + SEC1 + 100);
        if (i != 8) mc::write_file(kinds[i].path, s);
    }
    for (unsigned len = 1; len <= (mc::thorough ? 4u : 3u); ++len) mc::all_sequences(len, kinds.size(), [&](const vector<unsigned>& seq) {
        string name;
        for (unsigned k : seq) name += string(name.empty() ? "" : ", ") + kinds[k].name;
        if (!mc::begin("files read: %s", name.c_str())) return;
        std::unique_ptr<OpenMTP> o(new OpenMTP);
        for (unsigned i = 0; i < seq.size(); ++i)
        {
            Kind& k = kinds[seq[i]];
            bool ok = load(*o, k.path);
            ++mc::sh->transitions;
            if (i + 1 < seq.size()) continue;
            if (ok != k.good) { mc::fail("C23:history", "%s: the last was %s", name.c_str(), ok ? "read" : "refused"); break; }
            if (ok)
            {
                check_image(*o, k.f, name);
            }
            else check_refused(*o, name);
        }
        mc::count();
        ++mc::sh->traces;
    });
}
