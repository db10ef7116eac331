// C04: xRIT images with one damaged file. Every fault of the stated families is
// injected before the image is opened, or between opening and reading, and the
// image is then opened and read through the library and through GDAL. Reading
// must end with the right samples or with an error.
#include "mc.hpp"
#include "enumerate.hpp"
#include "synth.hpp"
#include <gdal/xrit/xrit.h>
#include <gdal_priv.h>
#include <iostream>
#include <memory>
#include <msat/hrit/MSG_HRIT.h>
#include <msat/xrit/dataaccess.h>
#include <msat/xrit/fileaccess.h>
#include <sstream>

using namespace msat::xrit;
using std::string;
using std::vector;
using synth::Image;

namespace {

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } } nullbuf;

void setup()
{
    std::cerr.rdbuf(&nullbuf);
    std::cout.rdbuf(&nullbuf);
    static bool done = false;
    if (done) return;
    done = true;
    GDALRegister_MsatXRIT();
    CPLSetErrorHandler(CPLQuietErrorHandler);
    // Whatever is dumped in the current directory stays in the scratch one
    mc::make_dirs(mc::work + "/cwd");
    if (chdir((mc::work + "/cwd").c_str()) != 0) _exit(3);
}

enum { PRO, EPI, SEG1, SEG2, NFILES };
const char* const file_names[NFILES] = { "prologue", "epilogue", "segment1", "segment2" };

/// A small image: two segments of four lines of four samples
struct Set
{
    Image img;
    string path[NFILES];
    string good[NFILES];
    bool compressed;
    size_t header[NFILES];   // length of the header area

    Set(const char* channel, int channel_id, bool compressed) : compressed(compressed)
    {
        img.dir = mc::work + "/img";
        img.channel = channel;
        img.channel_id = channel_id;
        img.seglines = 4;
        img.columns = 4;
        img.segments = 2;
        path[PRO] = img.file_name("", "PRO", "__");
        path[EPI] = img.file_name("", "EPI", "__");
        path[SEG1] = img.segment_name(1);
        path[SEG2] = img.segment_name(2);
        good[PRO] = img.prologue_file();
        good[EPI] = img.epilogue_file();
        for (int i = 0; i < 2; ++i) good[SEG1 + i] = segment(i + 1);
        for (int i = 0; i < NFILES; ++i)
            header[i] = (unsigned char)good[i][4] << 24 | (unsigned char)good[i][5] << 16 | (unsigned char)good[i][6] << 8 | (unsigned char)good[i][7];
        mc::make_dirs(img.dir);
        for (int i = 0; i < NFILES; ++i) restore(i);
    }
    string segment(int seq) const
    {
        string data;
        for (int l = 0; l < img.seglines; ++l)
            for (int c = 0; c < img.columns; ++c)
            {
                unsigned v = img.sample((seq - 1) * img.seglines + l, img.columns - 1 - c);
                data += (char)(v & 0xff);
                data += (char)(v >> 8);
            }
        vector<synth::LineQuality> q;
        for (int l = 0; l < img.seglines; ++l) q.push_back({ (seq - 1) * 4 + l + 1, img.acq_day, img.acq_ms, 1, 1, 1 });
        char proj[40];
        snprintf(proj, 40, "GEOS(%+06.1f)", img.longitude);
        return synth::xrit_file(0, synth::rec_structure(10, img.columns, img.seglines, compressed)
            + synth::rec_navigation(proj, -13642337, -13642337, 1856, 1856) + synth::rec_datafunc("$HALFTONE:=10\r\n_NAME:=x\r\n_UNIT:=y\r\n")
            + synth::rec_annotation(img.annotation(img.channel, mc::fmt("%06d", seq)) + (compressed ? "C_" : "__"))
            + synth::rec_timestamp(img.acq_day, img.acq_ms) + synth::rec_text("a note") + synth::rec_key(3, 12345)
            + synth::rec_segment(img.spacecraft, img.channel_id, seq, 1, img.segments, synth::FMT_WAVELET) + synth::rec_quality(q), data);
    }
    void restore(int f) const { rmdir(path[f].c_str()); mc::write_file(path[f], good[f]); }
    int south_line(int line) const { return (img.channel_id == 12 ? 11136 : 3712) - 1 - line; }
    int first_line() const { return (img.channel_id == 12 ? 11136 : 3712) - img.segments * img.seglines; }
    int last_line() const { return first_line() + img.segments * img.seglines - 1; }
};

/// What a damaged image may give
struct Expect
{
    bool samples;      // lines that are read must have the samples of the file
    int zero_seg;      // except those of this segment, that may be missing (-1: none)
    bool must_fail;    // opening, or reading the damaged segment, must fail
};

string describe(const vector<unsigned>& v)
{
    string r;
    for (auto x : v) r += mc::fmt(" %u", x);
    return r;
}

void check_values(const Set& s, const Expect& e, int line, const vector<unsigned>& got, const string& key, const char* how)
{
    if (!e.samples) return;
    int south = s.south_line(line);
    bool zero_ok = south / s.img.seglines == e.zero_seg;
    vector<unsigned> want;
    bool zero = true;
    for (int c = 0; c < s.img.columns; ++c)
    {
        want.push_back(s.img.sample(south, c));
        if (got[c]) zero = false;
    }
    if (zero_ok && zero) return;
    if (got != want)
        mc::fail(key, "%s: line %d was read without error as%s, the image has%s", how, line, describe(got).c_str(), describe(want).c_str());
}

/// Open and read with the library; damage(true) is called after opening
template<typename F>
bool read_library(const Set& s, const Expect& e, const string& key, F between)
{
    bool failed = false;
    MSG_data pro, epi;
    MSG_header header;
    DataAccess da;
    try {
        da.scan(FileAccess(s.img.short_name()), pro, epi, header);
    } catch (std::exception& ex) {
        between();
        return true;
    }
    between();
    try {
        std::ostringstream os;
        os << header;
    } catch (std::exception& ex) { failed = true; }
    vector<int> lines = { s.first_line(), s.last_line(), s.first_line() + s.img.seglines, s.first_line() + s.img.seglines - 1, 0 };
    for (int line : lines)
    {
        std::unique_ptr<MSG_SAMPLE[]> buf(new MSG_SAMPLE[da.columns]);
        try {
            size_t start = da.line_start(line);
            (void)start;
            da.line_read(line, buf.get());
            if (e.samples && line && da.columns == (size_t)s.img.columns)
                check_values(s, e, line, vector<unsigned>(buf.get(), buf.get() + da.columns), key, "library");
        } catch (std::exception& ex) { failed = true; }
        ++mc::sh->transitions;
    }
    return failed;
}

template<typename F>
bool read_gdal(const Set& s, const Expect& e, const string& key, F between)
{
    bool failed = false;
    CPLErrorReset();
    std::unique_ptr<GDALDataset> ds((GDALDataset*)GDALOpen(s.img.short_name().c_str(), GA_ReadOnly));
    if (!ds)
    {
        if (CPLGetLastErrorType() < CE_Failure) mc::fail(key, "GDALOpen gave no data set and no error");
        between();
        return true;
    }
    between();
    GDALRasterBand* rb = ds->GetRasterCount() == 1 ? ds->GetRasterBand(1) : nullptr;
    if (!rb) { mc::fail(key, "data set without band"); return true; }
    vector<float> buf(ds->GetRasterXSize());
    for (int line : { s.first_line(), s.last_line(), s.first_line() + s.img.seglines, 0 })
    {
        if (line >= ds->GetRasterYSize()) continue;
        CPLErrorReset();
        CPLErr rc = rb->RasterIO(GF_Read, 0, line, ds->GetRasterXSize(), 1, buf.data(), ds->GetRasterXSize(), 1, GDT_Float32, 0, 0);
        if (rc != CE_None)
        {
            failed = true;
            if (CPLGetLastErrorType() < CE_Failure) mc::fail(key, "a read failed without setting a GDAL error");
        }
        else if (e.samples && line && s.img.channel_id < 4 && ds->GetRasterXSize() >= s.img.columns)
            check_values(s, e, line, vector<unsigned>(buf.begin(), buf.begin() + s.img.columns), key, "GDAL");
        ++mc::sh->transitions;
    }
    return failed;
}

/// Inject a fault before opening, and between opening and reading
template<typename D, typename R>
void inject(const Set& s, const Expect& e, const string& key, bool late, D damage, R repair)
{
    if (!late)
    {
        damage();
        bool f1 = read_library(s, e, key, [] {});
        bool f2 = read_gdal(s, e, key, [] {});
        if (e.must_fail && !f1) mc::fail(key, "the library reported no error");
        if (e.must_fail && !f2) mc::fail(key, "GDAL reported no error");
        repair();
    } else {
        bool f1 = read_library(s, e, key, damage);
        if (e.must_fail && !f1) mc::fail(key, "the library reported no error");
        repair();
        bool f2 = read_gdal(s, e, key, damage);
        if (e.must_fail && !f2) mc::fail(key, "GDAL reported no error");
        repair();
    }
    mc::count();
    ++mc::sh->traces;
}

void cut(const string& path, size_t len) { if (truncate(path.c_str(), len) != 0) { perror(path.c_str()); _exit(3); } }
void poke(const string& path, size_t pos, const string& bytes)
{
    int fd = open(path.c_str(), O_WRONLY);
    if (fd < 0 || pwrite(fd, bytes.data(), bytes.size(), pos) != (ssize_t)bytes.size()) { perror(path.c_str()); _exit(3); }
    close(fd);
}

void truncations(const Set& s, int file, size_t len, bool late)
{
    if (!mc::begin("%s %s of %s cut to %zu of %zu bytes%s", s.img.channel.c_str(), s.compressed ? "compressed" : "plain", file_names[file], len,
                   s.good[file].size(), late ? " after opening" : "")) return;
    Expect e{ s.compressed, -1, true };
    // The prologue and epilogue are not used after opening
    if (late && file <= EPI) e.must_fail = false;
    inject(s, e, mc::fmt("cut-%s%s", file_names[file], late ? "-late" : ""), late, [&] { cut(s.path[file], len); }, [&] { s.restore(file); });
}

void sanity(const Set& s)
{
    if (!mc::begin("%s undamaged", s.img.channel.c_str())) return;
    Expect e{ s.compressed, -1, false };
    if (read_library(s, e, "undamaged", [] {})) mc::fail("undamaged", "the library failed on an undamaged image");
    if (read_gdal(s, e, "undamaged", [] {})) mc::fail("undamaged", "GDAL failed on an undamaged image: %s", CPLGetLastErrorMsg());
    mc::count();
}

void cut_all(const Set& s, int file)
{
    for (int late = 0; late < 2; ++late)
    {
        if (s.good[file].size() < 4000)
            for (size_t n = 0; n < s.good[file].size(); ++n) truncations(s, file, n, late);
        else
        {
            // The whole header, every block of 4096 bytes and the boundaries of the records
            std::set<size_t> at;
            for (size_t n = 0; n <= s.header[file] + 2; ++n) at.insert(n);
            for (size_t n = 4096; n < s.good[file].size(); n += mc::thorough ? 512 : 4096) at.insert(n);
            vector<size_t> b;
            if (file == PRO) b = { synth::PRO_ACQUISITION, synth::PRO_CELESTIAL, synth::PRO_DESCRIPTION, synth::PRO_RADIOMETRIC, synth::PRO_GEOMETRIC, synth::PRO_IMPF, synth::PRO_SIZE };
            else b = { synth::EPI_STATS, synth::EPI_NAVIGATION, synth::EPI_RADIOMETRIC, synth::EPI_GEOMETRIC, synth::EPI_TIMELINESS, synth::EPI_SIZE };
            for (size_t x : b)
                for (int d = -3; d <= 3; ++d)
                    if (s.header[file] + x + d < s.good[file].size()) at.insert(s.header[file] + x + d);
            for (size_t n : at) truncations(s, file, n, late);
        }
    }
}

/// Values a byte is changed to
vector<int> values(unsigned char old)
{
    std::set<int> r;
    if (mc::thorough) for (int i = 0; i < 256; ++i) r.insert(i);
    else
    {
        for (int v : { 0, 1, 2, 3, 4, 15, 16, 127, 128, 129, 254, 255, old - 1, old + 1 }) r.insert(v & 255);
        for (int b = 0; b < 8; ++b) r.insert(old ^ 1 << b);
    }
    r.erase(old);
    return vector<int>(r.begin(), r.end());
}

void bytes(const Set& s, int file, size_t from, size_t to, bool late)
{
    for (size_t p = from; p < to; ++p)
        for (int v : values(s.good[file][p]))
        {
            if (!mc::begin("%s %s %s: byte %zu is %d instead of %d%s", s.img.channel.c_str(), s.compressed ? "compressed" : "plain", file_names[file], p, v,
                           (unsigned char)s.good[file][p], late ? " after opening" : "")) continue;
            inject(s, Expect{ false, -1, false }, mc::fmt("byte-%s-%zu%s", file_names[file], p, late ? "-late" : ""), late,
                   [&] { poke(s.path[file], p, string(1, (char)v)); }, [&] { poke(s.path[file], p, string(1, s.good[file][p])); });
        }
}

/// Lengths of the header, of the data and of each record set to chosen values
void lengths(const Set& s, int file)
{
    vector<std::pair<size_t, int>> fields = { { 1, 2 }, { 4, 4 }, { 8, 8 } };
    const string& g = s.good[file];
    for (size_t p = 16; p + 3 <= s.header[file];)
    {
        fields.push_back({ p + 1, 2 });
        unsigned len = (unsigned char)g[p + 1] << 8 | (unsigned char)g[p + 2];
        p += len;
    }
    for (auto& f : fields)
    {
        uint64_t old = 0;
        for (int i = 0; i < f.second; ++i) old = old << 8 | (unsigned char)g[f.first + i];
        std::set<uint64_t> v;
        for (unsigned i = 0; i < (mc::thorough ? 1200u : 80u); ++i) v.insert(i);
        for (int b = 0; b < 8 * f.second; ++b) for (int d = -1; d <= 1; ++d) v.insert((1ull << b) + d);
        for (int d = -20; d <= 20; ++d) v.insert(old + d);
        uint64_t max = f.second == 8 ? ~0ull : (1ull << 8 * f.second) - 1;
        for (uint64_t x : { max, max - 1, max - 2, max - 3, max - 16, g.size(), g.size() - 1, g.size() + 1, g.size() * 8, (size_t)s.header[file] }) v.insert(x);
        for (uint64_t x : v)
        {
            if (x > max || x == old) continue;
            if (!mc::begin("%s %s %s: the %d-byte length at %zu is %llu instead of %llu", s.img.channel.c_str(), s.compressed ? "compressed" : "plain",
                           file_names[file], f.second, f.first, (unsigned long long)x, (unsigned long long)old)) continue;
            inject(s, Expect{ false, -1, false }, mc::fmt("length-%s-%zu", file_names[file], f.first), false,
                   [&] { poke(s.path[file], f.first, synth::be(x, f.second)); }, [&] { s.restore(file); });
        }
    }
}

/// Whole records removed, repeated or moved to the end
void records(const Set& s, int file)
{
    const string& g = s.good[file];
    vector<string> recs;
    for (size_t p = 16; p + 3 <= s.header[file];)
    {
        unsigned len = (unsigned char)g[p + 1] << 8 | (unsigned char)g[p + 2];
        recs.push_back(g.substr(p, len));
        p += len;
    }
    auto run = [&](const string& what, const vector<string>& r) {
        if (!mc::begin("%s %s %s: %s", s.img.channel.c_str(), s.compressed ? "compressed" : "plain", file_names[file], what.c_str())) return;
        string all;
        for (auto& x : r) all += x;
        string f = synth::xrit_file(file == PRO ? 128 : file == EPI ? 129 : 0, all, g.substr(s.header[file]));
        for (int late = 0; late < 2; ++late)
            inject(s, Expect{ false, -1, false }, mc::fmt("records-%s", file_names[file]), late, [&] { mc::write_file(s.path[file], f); }, [&] { s.restore(file); });
    };
    for (unsigned m = 0; m + 1 < 1u << recs.size(); ++m)
    {
        vector<string> r;
        for (size_t i = 0; i < recs.size(); ++i) if (m >> i & 1) r.push_back(recs[i]);
        run(mc::fmt("only header records of mask %x", m), r);
    }
    for (size_t i = 0; i < recs.size(); ++i)
    {
        vector<string> r = recs;
        r.push_back(recs[i]);
        run(mc::fmt("record %zu twice", i), r);
    }
}

void other_files(const Set& s)
{
    for (int f = 0; f < NFILES; ++f)
    {
        for (int late = 0; late < 2; ++late)
        {
            if (mc::begin("%s %s missing%s", s.img.channel.c_str(), file_names[f], late ? " after opening" : ""))
                inject(s, Expect{ s.compressed, f - SEG1, late ? f >= SEG1 : f <= EPI }, mc::fmt("missing-%s", file_names[f]), late,
                       [&] { unlink(s.path[f].c_str()); }, [&] { s.restore(f); });
            // Another file of the image in its place
            for (int o = 0; o < NFILES; ++o)
            {
                if (o == f) continue;
                if (!mc::begin("%s %s in place of %s%s", s.img.channel.c_str(), file_names[o], file_names[f], late ? " after opening" : "")) continue;
                inject(s, Expect{ false, -1, false }, mc::fmt("%s-for-%s", file_names[o], file_names[f]), late,
                       [&] { mc::write_file(s.path[f], s.good[o]); }, [&] { s.restore(f); });
            }
            if (mc::begin("%s %s a directory%s", s.img.channel.c_str(), file_names[f], late ? " after opening" : ""))
                inject(s, Expect{ s.compressed, f - SEG1, late ? f >= SEG1 : true }, mc::fmt("directory-%s", file_names[f]), late,
                       [&] { unlink(s.path[f].c_str()); mkdir(s.path[f].c_str(), 0700); }, [&] { rmdir(s.path[f].c_str()); s.restore(f); });
        }
        // Random access to what is beyond the file: data appended
        for (int extra : { 1, 2, 3, 100 })
            if (mc::begin("%s %s with %d bytes more", s.img.channel.c_str(), file_names[f], extra))
                inject(s, Expect{ s.compressed, -1, false }, mc::fmt("longer-%s", file_names[f]), false,
                       [&] { mc::write_file(s.path[f], s.good[f] + string(extra, 'x')); }, [&] { s.restore(f); });
    }
    // No segment, one segment
    if (mc::begin("%s no segments", s.img.channel.c_str()))
        inject(s, Expect{ false, -1, true }, "no-segments", false, [&] { unlink(s.path[SEG1].c_str()); unlink(s.path[SEG2].c_str()); },
               [&] { s.restore(SEG1); s.restore(SEG2); });
}

/// Every pair of files cut at the boundaries of their parts
void pairs(const Set& s)
{
    vector<size_t> at[NFILES];
    for (int f = 0; f < NFILES; ++f)
    {
        at[f] = { 0, 1, 15, 16, 17, s.header[f] - 1, s.header[f], s.header[f] + 1, s.good[f].size() - 1 };
        if (mc::thorough && f >= SEG1)
            for (size_t n = 2; n < s.good[f].size(); n += 3) at[f].push_back(n);
    }
    for (int a = 0; a < NFILES; ++a)
        for (int b = a + 1; b < NFILES; ++b)
            for (size_t x : at[a])
                for (size_t y : at[b])
                {
                    if (!mc::begin("%s %s cut to %zu and %s cut to %zu", s.img.channel.c_str(), file_names[a], x, file_names[b], y)) continue;
                    inject(s, Expect{ s.compressed, -1, true }, mc::fmt("cut-%s-%s", file_names[a], file_names[b]), false,
                           [&] { cut(s.path[a], x); cut(s.path[b], y); }, [&] { s.restore(a); s.restore(b); });
                }
}

struct Kind { const char* channel; int id; bool compressed; };
const Kind VIS = { "VIS006", 1, true }, IR = { "IR_108", 9, true }, HRV = { "HRV", 12, true }, PLAIN = { "VIS006", 1, false };

Set make(const Kind& k) { setup(); return Set(k.channel, k.id, k.compressed); }

}

MC_GROUP(cut_prologue) { Set s = make(VIS); sanity(s); cut_all(s, PRO); }
MC_GROUP(cut_epilogue) { Set s = make(HRV); sanity(s); cut_all(s, EPI); }
MC_GROUP(cut_segments)
{
    for (auto& k : { VIS, IR, HRV, PLAIN })
    {
        Set s = make(k);
        sanity(s);
        cut_all(s, SEG1);
        cut_all(s, SEG2);
    }
}
MC_GROUP(other) { for (auto& k : { VIS, IR, HRV, PLAIN }) { Set s = make(k); other_files(s); } }
MC_GROUP(pairs_vis) { Set s = make(VIS); pairs(s); }
MC_GROUP(pairs_hrv) { Set s = make(HRV); pairs(s); }
MC_GROUP(lengths_files) { Set s = make(HRV); for (int f = PRO; f <= EPI; ++f) lengths(s, f); }
MC_GROUP(lengths_vis) { Set s = make(VIS); lengths(s, SEG2); }
MC_GROUP(lengths_plain) { Set s = make(PLAIN); lengths(s, SEG1); }
MC_GROUP(records_vis) { Set s = make(VIS); for (int f : { PRO, SEG2 }) records(s, f); }
MC_GROUP(records_hrv) { Set s = make(HRV); for (int f : { EPI, SEG1 }) records(s, f); }
MC_GROUP(bytes_prologue) { Set s = make(VIS); bytes(s, PRO, 0, s.header[PRO], false); }
MC_GROUP(bytes_epilogue) { Set s = make(HRV); bytes(s, EPI, 0, s.header[EPI], false); }
// Last segment of the image, which gives the geometry
MC_GROUP(bytes_vis) { Set s = make(VIS); bytes(s, SEG2, 0, s.header[SEG2], false); }
MC_GROUP(bytes_vis_late) { Set s = make(VIS); bytes(s, SEG2, 0, s.header[SEG2], true); }
MC_GROUP(bytes_ir) { Set s = make(IR); bytes(s, SEG2, 0, s.header[SEG2], false); bytes(s, SEG2, s.header[SEG2], s.good[SEG2].size(), false); }
MC_GROUP(bytes_ir_late) { Set s = make(IR); bytes(s, SEG2, 0, s.header[SEG2], true); bytes(s, SEG2, s.header[SEG2], s.good[SEG2].size(), true); }
MC_GROUP(bytes_hrv1) { Set s = make(HRV); bytes(s, SEG1, 0, s.header[SEG1], false); }
MC_GROUP(bytes_hrv2) { Set s = make(HRV); bytes(s, SEG2, 0, s.header[SEG2], false); }
MC_GROUP(bytes_plain1) { Set s = make(PLAIN); bytes(s, SEG1, 0, s.header[SEG1], true); }
MC_GROUP(bytes_plain2) { Set s = make(PLAIN); bytes(s, SEG2, 0, s.header[SEG2], false); }
// The grid and the coverage in the epilogue decide where lines go
MC_GROUP(bytes_coverage) { Set s = make(HRV); bytes(s, EPI, s.header[EPI] + synth::EPI_COVERAGE_VISIR, s.header[EPI] + synth::EPI_COVERAGE_HRV + 32, false); }
MC_GROUP(bytes_grid)
{
    Set s = make(IR);
    bytes(s, PRO, s.header[PRO] + synth::PRO_ACQUISITION, s.header[PRO] + synth::PRO_ACQUISITION + 6, false);
    bytes(s, PRO, s.header[PRO] + synth::PRO_DESCRIPTION, s.header[PRO] + synth::PRO_DESCRIPTION + 50, false);
    bytes(s, PRO, s.header[PRO] + synth::PRO_RADIOMETRIC + 72 + 16 * 8, s.header[PRO] + synth::PRO_RADIOMETRIC + 72 + 16 * 9, false);
}
