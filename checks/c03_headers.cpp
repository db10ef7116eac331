// C03: xRIT header records, in every subset, order and field value.
#include "mc.hpp"
#include "enumerate.hpp"
#include "synth.hpp"
#include <msat/hrit/MSG_header.h>
#include <algorithm>
#include <sstream>

using std::string;
using std::vector;
using synth::be;

namespace {

/// Values of every record type
struct Values
{
    unsigned type = 0;
    unsigned bpp = 10, columns = 3712, lines = 3, compression = 1;
    string projection = "GEOS(+009.5)";
    int32_t cfac = -13642337, lfac = -13642338, coff = 1856, loff = 1857;
    string datafunc = "$HALFTONE:=10\r\n_NAME:=Radiance\r\n";
    string annotation = "H-000-MSG2__-MSG2________-IR_108___-000005___-200807221200-C_";
    unsigned day = 18465;
    uint32_t ms = 43211234;
    string text = "some ancillary text";
    unsigned key = 65;
    uint64_t seed = 0x0123456789abcdefULL;
    unsigned spacecraft = 322, channel = 9, seq = 5, start = 1, end = 8, format = 3;
    vector<synth::LineQuality> quality{{1857, 18465, 43211000, 1, 2, 1}, {-1, 1, 2, 3, 4, 5}, {0x7fffffff, 65535, 86399999, 0, 0, 0}};
    string data = "0123456789";
};

enum { N = 9 };

string record(const Values& v, unsigned i)
{
    switch (i)
    {
        case 0: return synth::rec_structure(v.bpp, v.columns, v.lines, v.compression);
        case 1: return synth::rec_navigation(v.projection, v.cfac, v.lfac, v.coff, v.loff);
        case 2: return synth::rec_datafunc(v.datafunc);
        case 3: return synth::rec_annotation(v.annotation);
        case 4: return synth::rec_timestamp(v.day, v.ms);
        case 5: return synth::rec_text(v.text);
        case 6: return synth::rec_key(v.key, v.seed);
        case 7: return synth::rec_segment(v.spacecraft, v.channel, v.seq, v.start, v.end, v.format);
        default: return synth::rec_quality(v.quality);
    }
}

string K;    // identifies the case

template<class A, class B> void eq(const char* field, const A& got, const B& want)
{
    if (got == (A)want) return;
    std::stringstream a, b;
    a << +got; b << +(A)want;
    mc::fail(K + " " + field, "%s is %s instead of %s", field, a.str().c_str(), b.str().c_str());
}
void eqs(const char* field, const string& got, const string& want)
{
    if (got != want) mc::fail(K + " " + field, "%s is \"%s\" instead of \"%s\"", field, mc::show(got).c_str(), mc::show(want).c_str());
}
template<class P> bool there(const char* field, const P& p, bool want)
{
    bool is = p ? true : false;
    if (is != want) mc::fail(K + " " + field, "%s is reported %s", field, is ? "present" : "absent");
    return is && want;
}

/// Compare a header with the records that were written
void compare(MSG_header& h, const Values& v, unsigned mask, size_t size)
{
    mc::count(mask != 0);
    eq("file-type", (unsigned)h.f_typecode, v.type);
    eq("header-length", h.total_header_length, size - v.data.size());
    eq("data-length", h.data_field_length, v.data.size() * 8);
    eq("file-size", h.filesize, size);
    if (there("structure", h.image_structure, mask & 1))
    {
        eq("bits-per-pixel", (unsigned)h.image_structure->number_of_bits_per_pixel, v.bpp);
        eq("columns", h.image_structure->number_of_columns, v.columns);
        eq("lines", h.image_structure->number_of_lines, v.lines);
        eq("compression", (unsigned)h.image_structure->compression_flag, v.compression);
        eq("pixels", h.image_structure->image_pixels, (uint64_t)v.columns * v.lines);
        eq("image-size", h.image_structure->image_size, ((uint64_t)v.columns * v.lines * v.bpp + 7) / 8);
    }
    if (there("navigation", h.image_navigation, mask & 2))
    {
        MSG_header_image_navig& n = *h.image_navigation;
        eq("cfac", n.column_scaling_factor, v.cfac);
        eq("lfac", n.line_scaling_factor, v.lfac);
        eq("coff", n.column_offset, v.coff);
        eq("loff", n.line_offset, v.loff);
        eq("CFAC", n.CFAC, v.cfac);
        eq("LFAC", n.LFAC, v.lfac);
        eq("COFF", n.COFF, v.coff);
        eq("LOFF", n.LOFF, v.loff);
        if (v.projection.substr(0, 5) == "GEOS(")
        {
            eqs("projection", n.pname, "GEOS");
            eq("projection-code", n.get_projection_code(), MSG_PROJECTION_GEOS);
            eq("longitude", n.subsatellite_longitude, strtof(v.projection.c_str() + 5, nullptr));
        }
        else if (v.projection.substr(0, 6) == "POLAR(")
        {
            eqs("projection", n.pname, "POLAR");
            eq("projection-code", n.get_projection_code(), MSG_PROJECTION_POLAR);
            eq("projection-plane", n.projection_plane, strtof(v.projection.c_str() + 6, nullptr));
            eq("projection-longitude", n.projection_longitude, strtof(strchr(v.projection.c_str(), ',') + 1, nullptr));
        }
        else if (v.projection == "MERCATOR") eq("projection-code", n.get_projection_code(), MSG_PROJECTION_MERCATOR);
    }
    if (there("data-function", h.image_data_function, mask & 4)) eqs("data-function", h.image_data_function->data_definition_block, v.datafunc);
    if (there("annotation", h.annotation, mask & 8))
    {
        MSG_header_annotation& a = *h.annotation;
        eqs("annotation", a.annotation, v.annotation);
        eqs("channel-id", a.xrit_channel_id, v.annotation.substr(0, 1));
        eqs("version", a.annotation_version, v.annotation.substr(2, 3));
        eqs("disseminating", a.disseminating_s_c, v.annotation.substr(6, 6));
        eqs("product-1", a.product_id_1, v.annotation.substr(13, 12));
        eqs("product-2", a.product_id_2, v.annotation.substr(26, 9));
        eqs("product-3", a.product_id_3, v.annotation.substr(36, 9));
        eqs("product-4", a.product_id_4, v.annotation.substr(46, 12));
        eqs("flags", a.flags, v.annotation.substr(59, 2));
    }
    if (there("timestamp", h.timestamp, mask & 16))
    {
        eq("timestamp-day", h.timestamp->get_day_from_epoch(), v.day);
        eq("timestamp-ms", h.timestamp->get_msec_in_day(), v.ms);
    }
    if (there("text", h.ancillary_text, mask & 32)) eqs("text", h.ancillary_text->ancillary_text, v.text);
    if (there("key", h.key, mask & 64))
    {
        eq("key-number", (unsigned)h.key->key_number, v.key);
        eq("key-seed", h.key->seed, v.seed);
        eq("key-group-1", h.key->is_key_group_1(), v.key >= 64 && v.key < 128);
        eq("key-group-2", h.key->is_key_group_2(), v.key >= 192);
        eq("key-reserved", h.key->is_key_reserved(), v.key < 64 || (v.key >= 128 && v.key < 192));
    }
    if (there("segment", h.segment_id, mask & 128))
    {
        eq("spacecraft", (unsigned)h.segment_id->spacecraft_id, v.spacecraft);
        eq("channel", (unsigned)h.segment_id->spectral_channel_id, v.channel);
        eq("sequence", h.segment_id->sequence_number, v.seq);
        eq("planned-start", h.segment_id->planned_start_segment_sequence_number, v.start);
        eq("planned-end", h.segment_id->planned_end_segment_sequence_number, v.end);
        eq("format", (unsigned)h.segment_id->data_field_format, v.format);
    }
    if (there("quality", h.segment_quality, mask & 256))
    {
        eq("quality-lines", (size_t)h.segment_quality->nlines, v.quality.size());
        for (size_t i = 0; i < v.quality.size() && i < (size_t)h.segment_quality->nlines; ++i)
        {
            MSG_segment_quality& q = h.segment_quality->lq[i];
            eq("quality-line", q.line_number_in_grid, v.quality[i].line);
            eq("quality-day", q.line_mean_acquisition.get_day_from_epoch(), v.quality[i].day);
            eq("quality-ms", q.line_mean_acquisition.get_msec_in_day(), v.quality[i].ms);
            eq("quality-validity", (unsigned)q.line_validity, v.quality[i].validity);
            eq("quality-radiometric", (unsigned)q.line_radiometric_quality, v.quality[i].radiometric);
            eq("quality-geometric", (unsigned)q.line_geometric_quality, v.quality[i].geometric);
        }
    }
}

string make(const Values& v, const vector<unsigned>& order)
{
    string recs;
    for (unsigned i : order) recs += record(v, i);
    return synth::xrit_file(v.type, recs, v.data);
}

/// Write, read back and compare; the data field is what follows
void check_into(MSG_header& h, const Values& v, const vector<unsigned>& order, const string& path)
{
    string f = make(v, order);
    mc::write_file(path, f);
    std::ifstream in(path, std::ios::binary);
    unsigned mask = 0;
    for (unsigned i : order) mask |= 1u << i;
    try { h.read_from(in); }
    catch (std::exception& e) { mc::fail(K + " refused", "a well-formed header is refused: %s", e.what()); return; }
    compare(h, v, mask, f.size());
    string rest(v.data.size() + 5, 0);
    in.read(&rest[0], rest.size());
    rest.resize(in.gcount());
    eqs("data-field", rest, v.data);
    std::stringstream os;
    os << h;            // printing any header works
    if (os.str().empty()) mc::fail(K + " print", "nothing is printed");
}
void check(const Values& v, const vector<unsigned>& order)
{
    MSG_header h;
    check_into(h, v, order, mc::work + "/f");
}

vector<unsigned> list(unsigned mask)
{
    vector<unsigned> r;
    for (unsigned i = 0; i < N; ++i)
        if (mask >> i & 1) r.push_back(i);
    return r;
}

}

// Every subset, in type order and in reverse order
MC_GROUP(subsets)
{
    for (unsigned mask = 0; mask < 512; ++mask)
        for (int rev = 0; rev < 2; ++rev)
        {
            if (!mc::begin("records %03x %s", mask, rev ? "reversed" : "in order")) continue;
            K = mc::fmt("subset-%03x-%d", mask, rev);
            auto o = list(mask);
            if (rev) std::reverse(o.begin(), o.end());
            check(Values(), o);
        }
    mc::sample("512 subsets of the 9 record types, both ways");
}

// Every order of every four and five of the records (thorough: of all nine)
static void orders(unsigned part)
{
    unsigned n = 0;
    for (unsigned mask = 0; mask < 512; ++mask)
    {
        auto o = list(mask);
        if (o.size() > 5 && !mc::thorough) continue;
        if (o.size() > 5 && o.size() != 9) continue;
        do
        {
            if (n++ % 4 != part) continue;
            string s;
            for (unsigned i : o) s += (char)('0' + i);
            if (!mc::begin("order %s", s.c_str())) continue;
            K = "order-" + s;
            check(Values(), o);
        }
        while (std::next_permutation(o.begin(), o.end()));
    }
    mc::sample("all orders of up to 5 records%s", mc::thorough ? " and of all 9" : "");
}
MC_GROUP(orders_0) { orders(0); }
MC_GROUP(orders_1) { orders(1); }
MC_GROUP(orders_2) { orders(2); }
MC_GROUP(orders_3) { orders(3); }

// The same header object reads several files: nothing of the previous one stays
static void rereads(unsigned part)
{
    Values a, b;
    b.columns = 11; b.lines = 7; b.projection = "GEOS(-003.4)"; b.cfac = 5; b.lfac = 6; b.coff = 7; b.loff = 8; b.datafunc = "x"; b.ms = 1; b.text = "other"; b.key = 200; b.seed = 3;
    b.annotation = "L-001-MSG1__-MSG1________-HRV______-000024___-201501010000-CE";
    b.seq = 24; b.channel = 12; b.quality.resize(1); b.type = 128; b.data = "x";
    for (unsigned m1 = part; m1 < 512; m1 += 4)
        for (unsigned m2 = 0; m2 < 512; m2 += mc::thorough ? 1 : 5)
        {
            if (!mc::begin("records %03x then %03x", m1, m2)) continue;
            K = mc::fmt("reread-%03x-%03x", m1, m2);
            MSG_header h;
            check_into(h, a, list(m1), mc::work + "/a");
            check_into(h, b, list(m2), mc::work + "/b");
        }
    mc::sample("one header object reading two files, 512 x %d subsets", mc::thorough ? 512 : 103);
}
MC_GROUP(rereads_0) { rereads(0); }
MC_GROUP(rereads_1) { rereads(1); }
MC_GROUP(rereads_2) { rereads(2); }
MC_GROUP(rereads_3) { rereads(3); }

// Boundary values of every field, one at a time
MC_GROUP(fields)
{
    auto all = list(511);
    auto run = [&](const string& what, const Values& v) {
        if (!mc::begin("field %s", what.c_str())) return;
        K = "field-" + what;
        check(v, all);
    };
    const int64_t b8[] = {0, 1, 2, 0x55, 0x7f, 0x80, 0xaa, 0xfe, 0xff}, b16[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff};
    const int64_t b32[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x12345678, 0x7fffffff, 0x80000000LL, 0x80000001LL, 0xff000000LL, 0xfffffffeLL, 0xffffffffLL};
    auto each = [&](const char* name, const int64_t* vals, size_t n, std::function<void(Values&, int64_t)> set) {
        for (size_t i = 0; i < n; ++i)
        {
            Values v;
            set(v, vals[i]);
            run(mc::fmt("%s=%lld", name, (long long)vals[i]), v);
        }
    };
#define F8(f) each(#f, b8, sizeof b8 / 8, [](Values& v, int64_t x) { v.f = x; })
#define F16(f) each(#f, b16, sizeof b16 / 8, [](Values& v, int64_t x) { v.f = x; })
#define F32(f) each(#f, b32, sizeof b32 / 8, [](Values& v, int64_t x) { v.f = (int32_t)x; })
    F8(bpp); F16(columns); F16(lines); F8(compression);
    F32(cfac); F32(lfac); F32(coff); F32(loff);
    F16(day);
    each("ms", b32, sizeof b32 / 8, [](Values& v, int64_t x) { v.ms = (uint32_t)x; });
    F8(key);
    each("key-all", nullptr, 0, nullptr);
    for (unsigned k = 0; k < 256; ++k) { Values v; v.key = k; run(mc::fmt("key=%u", k), v); }
    for (unsigned bit = 0; bit < 64; ++bit) { Values v; v.seed = 1ULL << bit; run(mc::fmt("seed-bit=%u", bit), v); }
    F16(spacecraft); F8(channel); F16(seq); F16(start); F16(end); F8(format);
    each("quality-line", b32, sizeof b32 / 8, [](Values& v, int64_t x) { v.quality[1].line = (int32_t)x; });
    each("quality-validity", b8, sizeof b8 / 8, [](Values& v, int64_t x) { v.quality[1].validity = x; });
    each("quality-radiometric", b8, sizeof b8 / 8, [](Values& v, int64_t x) { v.quality[1].radiometric = x; });
    each("quality-geometric", b8, sizeof b8 / 8, [](Values& v, int64_t x) { v.quality[2].geometric = x; });
    for (unsigned t : {0u, 1u, 2u, 3u, 128u, 129u, 130u, 144u}) { Values v; v.type = t; run(mc::fmt("type=%u", t), v); }
    // longitudes
    for (int l = -1800; l <= 1800; l += mc::thorough ? 1 : 7) { Values v; v.projection = mc::fmt("GEOS(%+06.1f)", l / 10.0); run("longitude=" + v.projection, v); }
    for (const char* p : {"GEOS(0)", "GEOS(+000.0)", "GEOS(-000.0)", "GEOS(+9.5)", "GEOS(57.0)", "GEOS(+00000000000000000000009.50)", "POLAR(+090.0,+000.0)", "POLAR(-090.0,-045.5)", "POLAR(60,10)", "MERCATOR", "PSD"})
    { Values v; v.projection = p; run(string("projection=") + p, v); }
    // lengths of the variable records and of the data field
    for (unsigned n : {1u, 2u, 3u, 64u, 255u, 256u, 1000u, 32767u, 32768u, 65532u})
    {
        Values v;
        v.datafunc = string(n, 'd');
        run(mc::fmt("data-function-length=%u", n), v);
        Values w;
        w.text = string(n, 't');
        run(mc::fmt("text-length=%u", n), w);
    }
    for (unsigned n : {0u, 1u, 2u, 100u, 464u, 5040u})
    {
        Values v;
        v.quality.resize(n, {5, 6, 7, 1, 2, 3});
        run(mc::fmt("quality-lines=%u", n), v);
    }
    for (unsigned n : {0u, 1u, 2u, 7u, 8u, 255u, 256u, 65536u, 1000003u})
    {
        Values v;
        v.data = string(n, 'D');
        run(mc::fmt("data-length=%u", n), v);
    }
    mc::sample("boundary values of every field of every record");
}
