// C28: the msat command shows what an image is
//
// Complete enumeration of small images, windows, bands and sets of files, each
// shown by the command in a process of its own, against the image itself.
#include "mc.hpp"
#include "enumerate.hpp"
#include "fake.hpp"
#include <cmath>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <getopt.h>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/stat.h>

using std::string;
using std::vector;

int msat_tool_main(int argc, char* argv[]);

namespace {

void init()
{
    static bool done = false;
    if (done) return;
    done = true;
    CPLSetErrorHandler(CPLQuietErrorHandler);
    GDALAllRegister();
}

struct Run { int rc; string out, err; };

Run run(const vector<string>& args, bool full = false)
{
    string dir = mc::work + "/out";
    mc::clean(dir);
    mc::make_dirs(dir);
    Run r;
    r.rc = mc::isolated([&] {
        if (chdir(dir.c_str())) return 90;
        std::ofstream o(full ? "/dev/full" : "stdout"), e("stderr");
        auto* was = std::cout.rdbuf(o.rdbuf());
        std::cerr.rdbuf(e.rdbuf());
        vector<string> a = args;
        a.insert(a.begin(), "msat");
        vector<char*> p;
        for (auto& s : a) p.push_back(&s[0]);
        p.push_back(nullptr);
        optind = 0;
        int rc = msat_tool_main(a.size(), p.data());
        o.flush();
        e.flush();
        std::cout.rdbuf(was);
        return rc;
    }, 60, 120, nullptr);
    r.out = mc::read_file(dir + "/stdout");
    r.err = mc::read_file(dir + "/stderr");
    return r;
}

// ------------------------------------------------------------ What is shown

struct Stats { bool any = false; double min = 0, max = 0, mean = 0, dev = 0; };
struct BandText
{
    string number, name, size, type, offset, scale, unit;
    vector<string> metadata;
    bool stats = false;
    double range[4] = { 0, 0, 0, 0 };
};
struct Text
{
    string name, size, projection;
    double gt[6] = { 0, 0, 0, 0, 0, 0 };
    vector<string> metadata;
    vector<BandText> bands;
    bool bad = false;
};

/// Read what was printed
vector<Text> parse(const string& out)
{
    vector<Text> r;
    std::istringstream in(out);
    string l;
    int matrix = 0;
    bool structure = false;
    auto value = [&](const char* k, string& v) {
        size_t i = l.find_first_not_of(' '), n = strlen(k);
        if (i == string::npos || l.compare(i, n, k) != 0) return false;
        v = l.substr(std::min(l.size(), i + n + (l.size() > i + n)));
        return true;
    };
    while (std::getline(in, l))
    {
        string v;
        if (l.compare(0, 9, "Dataset: ") == 0) { r.push_back(Text()); r.back().name = l.substr(9); matrix = 0; structure = false; continue; }
        if (r.empty()) { r.push_back(Text()); r.back().bad = true; return r; }
        Text& t = r.back();
        BandText* b = t.bands.empty() ? nullptr : &t.bands.back();
        if (matrix)
        {
            string c;
            for (char x : l) c += x == ',' || x == '\t' ? ' ' : x;
            std::istringstream n(c);
            double* g = t.gt + (matrix == 2 ? 0 : 3);
            n >> g[0] >> g[1] >> g[2];
            if (!n) t.bad = true;
            --matrix;
            continue;
        }
        if (value("Geotransform matrix:", v)) matrix = 2;
        else if (value("Projection:", v)) t.projection = v;
        else if (l.compare(0, 12, "Raster band ") == 0)
        {
            t.bands.push_back(BandText());
            size_t c = l.find(": ");
            t.bands.back().number = l.substr(12, c - 12);
            t.bands.back().name = c == string::npos ? "?" : l.substr(c + 2);
            structure = false;
        }
        else if (value("Size:", v)) (b ? b->size : t.size) = v;
        else if (b && value("Type:", v)) b->type = v;
        else if (b && value("Offset:", v)) b->offset = v;
        else if (b && value("Scale:", v)) b->scale = v;
        else if (b && value("Unit:", v)) b->unit = v;
        else if (b && value("Pixel range:", v))
        {
            b->stats = true;
            if (sscanf(v.c_str(), "min %lf max %lf mean %lf stddev %lf", b->range, b->range + 1, b->range + 2, b->range + 3) != 4) t.bad = true;
        }
        else if (value("Metadata (", v)) structure = true;
        else if (value("Metadata:", v)) structure = false;
        else if (!structure && l.find('=') != string::npos) (b ? b->metadata : t.metadata).push_back(l.substr(l.find_first_not_of(' ')));
    }
    return r;
}

/// Six digits are shown
bool close(double shown, double d) { return fabs(shown - d) <= 1e-5 * std::max(fabs(d), 1e-300) || (fabs(d) < 1e-12 && fabs(shown) < 1e-9); }

// ------------------------------------------------------------ What there is

const double NONE = -123456.789;
struct MBand
{
    GDALDataType type = GDT_Float32;
    string name, unit;
    double offset = 0, scale = 1, nodata = NONE;
    vector<string> metadata;
    vector<double> v;
    int w = 0, h = 0;
};
struct MImage
{
    int w = 1, h = 1;
    double gt[6] = { 0, 1, 0, 0, 0, 1 };
    vector<string> metadata;
    vector<MBand> bands;
};

string path(int n) { return mc::work + mc::fmt("/image%d.tif", n); }

/// Nothing else of an image
vector<string> only_own(const vector<string>& m)
{
    vector<string> r;
    for (auto& s : m) if (s.compare(0, 5, "AREA_") != 0 && s.compare(0, 11, "STATISTICS_") != 0) r.push_back(s);
    return r;
}

void store(const MImage& m, const string& p)
{
    init();
    unlink((p + ".aux.xml").c_str());
    unlink(p.c_str());
    GDALDriver* tiff = GetGDALDriverManager()->GetDriverByName("GTiff");
    GDALDriver* mem = GetGDALDriverManager()->GetDriverByName("MEM");
    std::unique_ptr<GDALDataset> ds(mem->Create("", m.w, m.h, 0, GDT_Byte, nullptr));
    ds->SetGeoTransform(const_cast<double*>(m.gt));
    for (auto& i : m.metadata) ds->SetMetadataItem(i.substr(0, i.find('=')).c_str(), i.substr(i.find('=') + 1).c_str());
    for (auto& x : m.bands)
    {
        ds->AddBand(x.type, nullptr);
        GDALRasterBand* b = ds->GetRasterBand(ds->GetRasterCount());
        if (x.offset != 0 || x.scale != 1) { b->SetOffset(x.offset); b->SetScale(x.scale); }
        if (x.unit.size()) b->SetUnitType(x.unit.c_str());
        if (x.nodata != NONE) b->SetNoDataValue(x.nodata);
        b->SetDescription(x.name.c_str());
        for (auto& i : x.metadata) b->SetMetadataItem(i.substr(0, i.find('=')).c_str(), i.substr(i.find('=') + 1).c_str());
        vector<double> v = x.v;
        v.resize(m.w * m.h);
        if (b->RasterIO(GF_Write, 0, 0, m.w, m.h, v.data(), m.w, m.h, GDT_Float64, 0, 0, nullptr) != CE_None) mc::fail("harness", "pixels");
    }
    GDALDataset* o = tiff->CreateCopy(p.c_str(), ds.get(), FALSE, nullptr, nullptr, nullptr);
    if (!o) { mc::fail("harness", "image: %s", CPLGetLastErrorMsg()); return; }
    GDALClose(o);
}

Stats stats(const MBand& b)
{
    Stats s;
    double sum = 0, n = 0;
    for (double d : b.v)
    {
        if (d == b.nodata || std::isnan(d)) continue;
        s.min = s.any ? std::min(s.min, d) : d;
        s.max = s.any ? std::max(s.max, d) : d;
        s.any = true;
        sum += d;
        ++n;
    }
    if (!s.any) return s;
    s.mean = sum / n;
    sum = 0;
    for (double d : b.v) if (d != b.nodata && !std::isnan(d)) sum += (d - s.mean) * (d - s.mean);
    s.dev = sqrt(sum / n);
    return s;
}

/// Compare what is shown with what there is
void compare(const Text& t, const MImage& m, bool more, const string& what, bool geo = true)
{
    if (t.bad) { mc::fail("text", "%s: the text cannot be understood", what.c_str()); return; }
    if (t.size != mc::fmt("%dx%d", m.w, m.h)) mc::fail("size", "%s: size %s and not %dx%d", what.c_str(), t.size.c_str(), m.w, m.h);
    for (int i = 0; i < 6 && geo; ++i) if (!close(t.gt[i], m.gt[i])) { mc::fail("matrix", "%s: value %d of the matrix is %g and not %g", what.c_str(), i, t.gt[i], m.gt[i]); break; }
    if (only_own(t.metadata) != m.metadata) mc::fail("metadata", "%s: %zu metadata and not %zu", what.c_str(), t.metadata.size(), m.metadata.size());
    if (t.bands.size() != m.bands.size()) { mc::fail("bands", "%s: %zu bands and not %zu", what.c_str(), t.bands.size(), m.bands.size()); return; }
    for (size_t i = 0; i < m.bands.size(); ++i)
    {
        const BandText& b = t.bands[i];
        const MBand& w = m.bands[i];
        auto same = [&](const char* k, const string& g, const string& e) { if (g != e) mc::fail(k, "%s: band %zu: %s is '%s' and not '%s'", what.c_str(), i + 1, k, g.c_str(), e.c_str()); };
        same("number", b.number, mc::fmt("%zu/%zu", i + 1, m.bands.size()));
        same("name", b.name, w.name);
        same("band size", b.size, mc::fmt("%dx%d", m.w, m.h));
        same("type", b.type, string("GDT_") + GDALGetDataTypeName(w.type));
        same("unit", b.unit, w.unit);
        if (!close(atof(b.offset.c_str()), w.offset)) mc::fail("offset", "%s: band %zu: offset %s and not %g", what.c_str(), i + 1, b.offset.c_str(), w.offset);
        if (!close(atof(b.scale.c_str()), w.scale)) mc::fail("scale", "%s: band %zu: scale %s and not %g", what.c_str(), i + 1, b.scale.c_str(), w.scale);
        if (only_own(b.metadata) != w.metadata) mc::fail("band metadata", "%s: band %zu: %zu metadata and not %zu", what.c_str(), i + 1, b.metadata.size(), w.metadata.size());
        Stats s = stats(w);
        if (b.stats != (more && s.any)) mc::fail("range", "%s: band %zu: the range is %sshown", what.c_str(), i + 1, b.stats ? "" : "not ");
        else if (b.stats)
        {
            const double e[4] = { s.min, s.max, s.mean, s.dev };
            for (int k = 0; k < 4; ++k) if (!close(b.range[k], e[k])) { mc::fail("range", "%s: band %zu: the %s is %g and not %g", what.c_str(), i + 1, k == 0 ? "minimum" : k == 1 ? "maximum" : k == 2 ? "mean" : "deviation", b.range[k], e[k]); break; }
        }
    }
}

void view(const vector<string>& args, const MImage& m, bool more, const string& what, bool geo = true)
{
    Run r = run(args);
    mc::count();
    ++mc::sh->states;
    if (r.rc) { mc::fail("error", "%s: %s", what.c_str(), mc::outcome(r.rc).c_str()); return; }
    auto t = parse(r.out);
    if (t.size() != 1) { mc::fail("images", "%s: %zu images are shown", what.c_str(), t.size()); return; }
    compare(t[0], m, more, what, geo);
    mc::sample("%s: %s, %zu bands", what.c_str(), t[0].size.c_str(), t[0].bands.size());
}

const char* way(int i) { static const char* w[] = { "--view", "--viewmore" }; return w[i]; }

/// An image of three bands with everything
MImage rich(int w = 4, int h = 3)
{
    MImage m;
    m.w = w;
    m.h = h;
    const double g[6] = { 100, 2, 0, 50, 0, -3 };
    memcpy(m.gt, g, sizeof(g));
    m.metadata = { "ORIGIN=here", "SUBJECT=a test" };
    const char* names[] = { "IR_108b", "IR_108", "2" };
    for (int i = 0; i < 3; ++i)
    {
        MBand b;
        b.name = names[i];
        b.unit = i == 0 ? "mW" : i == 1 ? "K" : "";
        b.offset = i == 1 ? -3.5 : 0;
        b.scale = i == 1 ? 0.25 : 1;
        b.metadata = { mc::fmt("NOTE=band %d", i + 1) };
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) b.v.push_back(100 * (i + 1) + 10 * y + x * x);
        m.bands.push_back(b);
    }
    return m;
}

MImage cropped(const MImage& m, int x, int y, int w, int h)
{
    MImage r = m;
    r.w = w;
    r.h = h;
    r.gt[0] += x * m.gt[1] + y * m.gt[2];
    r.gt[3] += x * m.gt[4] + y * m.gt[5];
    for (size_t b = 0; b < m.bands.size(); ++b)
    {
        r.bands[b].v.clear();
        for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) r.bands[b].v.push_back(m.bands[b].v[(y + j) * m.w + x + i]);
    }
    return r;
}

}

/// All images of few pixels
MC_GROUP(ranges)
{
    const double values[] = { -1.5, 0, 2, 7, NAN };
    for (unsigned n = 1; n <= (mc::thorough ? 4 : 3); ++n)
        for (double nodata : { NONE, 0.0, 7.0 })
            mc::all_sequences(n, 5, [&](const vector<unsigned>& seq) {
                string s;
                for (unsigned i : seq) s += mc::fmt(" %g", values[i]);
                if (!mc::begin("image of%s, no data %g", s.c_str(), nodata)) return;
                MImage m;
                m.w = n == 4 ? 2 : n;
                m.h = n == 4 ? 2 : 1;
                m.gt[0] = 10; m.gt[5] = -1;
                MBand b;
                b.nodata = nodata;
                for (unsigned i : seq) b.v.push_back(values[i]);
                m.bands.push_back(b);
                store(m, path(0));
                for (int more = 0; more < 2; ++more) view({ way(more), path(0) }, m, more, mc::fmt("%s of%s, no data %g", way(more), s.c_str(), nodata));
            });
}

/// Types, names, units, calibrations, metadata
MC_GROUP(values)
{
    const GDALDataType types[] = { GDT_Byte, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_Float32, GDT_Float64, GDT_CInt16, GDT_CInt32, GDT_CFloat32, GDT_CFloat64 };
    for (auto type : types)
        for (int what = 0; what < 32; ++what)
            for (int more = 0; more < 2; ++more)
            {
                if (!mc::begin("%s of type %s with %x", way(more), GDALGetDataTypeName(type), what)) continue;
                MImage m;
                m.w = 2;
                m.gt[0] = 3; m.gt[3] = -1e7 / 3; m.gt[1] = 3000.403165817; m.gt[5] = -3000.403165817;
                for (int i = 0; i < 2; ++i)
                {
                    MBand b;
                    b.type = type;
                    b.v = { 3.0 + i, 60.0 + i };
                    if (what & 1) b.name = i ? "the second" : "first one";
                    if (what & 2) b.unit = i ? "K" : "W m-2";
                    if (what & 4) { b.offset = -51.5 - i; b.scale = 0.025 * (i + 1); }
                    if (what & 8) b.metadata = { mc::fmt("A=%d", i), "B=x=y" };
                    m.bands.push_back(b);
                }
                if (what & 16) m.metadata = { "KEY=some: value", "OTHER=2" };
                store(m, path(0));
                view({ way(more), path(0) }, m, more, mc::fmt("%s of type %s with %x", way(more), GDALGetDataTypeName(type), what));
            }
    for (int a = 1; a <= (mc::thorough ? 40 : 15); ++a) for (int b : { 1, 2, 33, 300 }) for (int bands : { 1, 2, 7 })
    {
        if (!mc::begin("image of %dx%d and %d bands", a, b, bands)) continue;
        MImage m;
        m.w = a; m.h = b;
        m.gt[0] = a; m.gt[1] = 1. / b; m.gt[2] = 0.5; m.gt[4] = -0.25;
        for (int i = 0; i < bands; ++i) { MBand x; x.type = i % 2 ? GDT_Float32 : GDT_Float32; for (int k = 0; k < a * b; ++k) x.v.push_back((k * 37 + i) % 101); m.bands.push_back(x); }
        store(m, path(0));
        view({ "--viewmore", path(0) }, m, true, mc::fmt("image of %dx%d and %d bands", a, b, bands));
    }
}

/// Windows and bands
MC_GROUP(windows)
{
    MImage m = rich();
    store(m, path(0));
    for (int x = 0; x < m.w; ++x) for (int y = 0; y < m.h; ++y) for (int w = 1; x + w <= m.w; ++w) for (int h = 1; y + h <= m.h; ++h) for (int more = 0; more < 2; ++more)
    {
        if (!mc::begin("%s of %d,%d %dx%d", way(more), x, y, w, h)) continue;
        store(m, path(0));
        view({ way(more), mc::fmt("--area=%d,%d,%d,%d", x, w, y, h), path(0) }, cropped(m, x, y, w, h), more, mc::fmt("%s of %d,%d %dx%d", way(more), x, y, w, h));
    }
    // By number and name
    const char* names[] = { "1", "2", "3", "IR_108b", "IR_108", "!2", "!IR_108b", "IR_1", "!none", "" };
    const int which[] = { 1, 2, 3, 1, 2, 3, 1, 0, 0, 0 };
    for (unsigned n = 1; n <= 3; ++n)
        mc::all_sequences(n, n == 3 ? 4 : 10, [&](const vector<unsigned>& seq) {
            for (int more = 0; more < 2; ++more)
            {
                if (n == 3 && !more) continue;
                string s;
                for (unsigned i : seq) s += string(" '") + names[i] + "'";
                if (!mc::begin("%s of bands%s", way(more), s.c_str())) continue;
                vector<string> args = { way(more) };
                MImage e = m;
                e.bands.clear();
                for (unsigned i : seq) { args.push_back("-b"); args.push_back(names[i]); if (which[i]) e.bands.push_back(m.bands[which[i] - 1]); }
                args.push_back(path(0));
                store(m, path(0));
                if (e.bands.size()) { view(args, e, more, "bands" + s); continue; }
                // Nothing to show
                Run r = run(args);
                mc::count();
                if (r.rc > 1) mc::fail("crash", "bands%s: %s", s.c_str(), mc::outcome(r.rc).c_str());
                if (parse(r.out).size()) mc::fail("bands", "bands%s: an image is shown", s.c_str());
            }
        });
    for (const char* b : { "0", "4", "-1", "99999999999" })
    {
        if (!mc::begin("band %s", b)) continue;
        Run r = run({ "--view", "-b", b, path(0) });
        mc::count();
        if (r.rc != 1 || r.err.empty()) mc::fail("no error", "band %s: %s", b, mc::outcome(r.rc).c_str());
    }
    // Calibrated
    for (int more = 0; more < 2; ++more)
        for (int crop = 0; crop < 2; ++crop)
        {
            if (!mc::begin("%s calibrated, crop %d", way(more), crop)) continue;
            // Counts are of 16 bits; others are values already
            MImage raw = m;
            raw.bands[0].type = raw.bands[1].type = GDT_UInt16;
            store(raw, path(0));
            MImage e = crop ? cropped(raw, 1, 1, 2, 2) : raw;
            vector<string> args = { way(more), "--force-calibration", path(0) };
            if (crop) args.insert(args.begin(), "--area=1,2,1,2");
            Run r = run(args);
            mc::count();
            auto t = parse(r.out);
            if (r.rc || t.size() != 1 || t[0].bands.size() != 3) { mc::fail("error", "calibrated: %s", mc::outcome(r.rc).c_str()); continue; }
            for (int i = 0; i < 3; ++i)
            {
                for (auto& v : e.bands[i].v) v = v * raw.bands[i].scale + raw.bands[i].offset;
                e.bands[i].offset = 0;
                e.bands[i].scale = 1;
                e.bands[i].type = GDT_Float32;
                t[0].bands[i].type = "GDT_Float32";   // or any that holds the values
            }
            compare(t[0], e, more, mc::fmt("%s calibrated, crop %d", way(more), crop));
        }
    // Scaled
    for (int w : { 1, 2, 4, 8 }) for (int h : { 1, 3, 6 })
    {
        if (!mc::begin("scaled to %dx%d", w, h)) continue;
        store(m, path(0));
        Run r = run({ "--view", mc::fmt("--resize=%d,%d", w, h), path(0) });
        mc::count();
        auto t = parse(r.out);
        MImage e = m;
        e.gt[1] *= 4. / w;
        e.gt[5] *= 3. / h;
        e.w = w;
        e.h = h;
        if (r.rc || t.size() != 1) mc::fail("error", "scaled: %s", mc::outcome(r.rc).c_str());
        else compare(t[0], e, false, mc::fmt("scaled to %dx%d", w, h));
    }
}

/// Several files, of which some cannot be shown
MC_GROUP(files)
{
    MImage a = rich(), b = rich(2, 5), c;
    b.metadata = { "SUBJECT=another" };
    for (auto& x : b.bands) x.name += "b";
    b.bands.pop_back();
    c.w = 3; c.h = 2; c.gt[0] = 1; c.gt[5] = -1;
    c.bands.resize(1);
    c.bands[0].v = { 1, 2, 3, 4, 5, 6 };
    const MImage* im[] = { &a, &b, &c };
    for (unsigned n = 1; n <= (mc::thorough ? 4 : 3); ++n)
        mc::all_sequences(n, 6, [&](const vector<unsigned>& seq) {
            for (int more = 0; more < 2; ++more)
            {
                string s;
                for (unsigned i : seq) s += mc::fmt(" %u", i);
                if (!mc::begin("%s of files%s", way(more), s.c_str())) continue;
                for (int i = 0; i < 3; ++i) store(*im[i], path(i));
                mc::write_file(path(3), "this is not an image");
                mc::write_file(path(5), mc::read_file(path(0)).substr(0, 3));
                unlink(path(4).c_str());
                vector<string> args = { way(more) };
                unsigned good = 0;
                bool bad = false;
                for (unsigned i : seq) { args.push_back(path(i)); if (i >= 3) bad = true; if (!bad) ++good; }
                Run r = run(args);
                mc::count();
                ++mc::sh->traces;
                mc::sh->transitions += n;
                auto t = parse(r.out);
                if ((r.rc != 0) != bad || r.rc > 1) { mc::fail("result", "files%s: %s", s.c_str(), mc::outcome(r.rc).c_str()); continue; }
                if (bad && r.err.empty()) mc::fail("silent", "files%s: no error is shown", s.c_str());
                if (t.size() < good || (!bad && t.size() != good)) { mc::fail("images", "files%s: %zu images are shown", s.c_str(), t.size()); continue; }
                // An image shown with its range can have kept it
                for (unsigned k = 0; k < good; ++k)
                {
                    if (t[k].name != path(seq[k])) mc::fail("image", "files%s: image %u is %s", s.c_str(), k, t[k].name.c_str());
                    compare(t[k], *im[seq[k]], more, mc::fmt("files%s, image %u", s.c_str(), k));
                }
                for (int i = 0; i < 3; ++i) unlink((path(i) + ".aux.xml").c_str());
            }
        });
    // The files stay as they are
    for (int more = 0; more < 2; ++more)
    {
        if (!mc::begin("%s changes nothing", way(more))) continue;
        store(a, path(0));
        string before = mc::read_file(path(0));
        run({ way(more), path(0) });
        mc::count();
        if (mc::read_file(path(0)) != before) mc::fail("changed", "%s changes the file", way(more));
        if (!more && !access((path(0) + ".aux.xml").c_str(), F_OK)) mc::fail("changed", "%s writes a file", way(more));
    }
    // Nowhere to write
    for (int more = 0; more < 2; ++more)
        for (int n = 1; n <= 3; ++n)
        {
            if (!mc::begin("%s of %d images on a full disk", way(more), n)) continue;
            vector<string> args = { way(more) };
            for (int i = 0; i < n; ++i) { store(*im[i], path(i)); args.push_back(path(i)); }
            Run r = run(args, true);
            mc::count();
            if (r.rc != 1) mc::fail("full", "%s of %d images on a full disk: %s", way(more), n, mc::outcome(r.rc).c_str());
        }
    // Arguments
    struct Bad { const char* what; vector<string> args; } const bad[] = {
        { "nothing", {} }, { "no file", { "--view" } }, { "unknown option", { "--nothing", path(0) } }, { "area of three numbers", { "--area=1,2,3", path(0) } },
        { "Area of words", { "--Area=a,b,c,d", path(0) } }, { "size without comma", { "--resize=10", path(0) } }, { "area outside", { "--area=9,2,9,2", path(0) } },
        { "area without size", { "--area=0,0,0,0", path(0) } }, { "metadata of no file", { "--copymd=" + mc::work + "/none", path(0) } } };
    for (auto& x : bad)
    {
        if (!mc::begin("arguments: %s", x.what)) continue;
        store(a, path(0));
        Run r = run(x.args);
        mc::count();
        // An area of no size is the whole image
        if (string(x.what) == "area without size") { if (r.rc > 1) mc::fail("crash", "%s: %s", x.what, mc::outcome(r.rc).c_str()); continue; }
        if (r.rc != 1 || r.err.empty()) mc::fail("no error", "%s: %s", x.what, mc::outcome(r.rc).c_str());
    }
}

/// Metadata of another file
MC_GROUP(templates)
{
    MImage a = rich(), one;
    one.w = 3; one.h = 2; one.gt[0] = 1; one.gt[5] = -1;
    one.bands.resize(1);
    one.bands[0].v = { 1, 2, 3, 4, 5, 6 };
    MImage t[4] = { rich(), rich(1, 1), one, one };
    t[0].metadata = { "X=1" };
    for (auto& b : t[0].bands) { b.name = "t" + b.name; b.metadata = { "T=" + b.name }; b.unit = "other"; b.scale = 5; }
    t[1].bands.pop_back();
    t[1].metadata = { "ORIGIN=there", "Z=last" };
    t[3].metadata = {};
    t[3].bands[0].metadata = { "ONLY=this" };
    t[3].bands[0].name = "named";
    for (int k = 0; k < 4; ++k)
        for (int crop = 0; crop < 2; ++crop)
            for (int more = 0; more < 2; ++more)
                for (int files = 1; files <= 2; ++files)
                {
                    if (!mc::begin("%s with metadata of %d, crop %d, %d files", way(more), k, crop, files)) continue;
                    store(a, path(0));
                    store(a, path(1));
                    store(t[k], path(7));
                    string before = mc::read_file(path(0)), tbefore = mc::read_file(path(7));
                    MImage e = crop ? cropped(a, 0, 1, 2, 2) : a;
                    e.metadata = t[k].metadata;
                    for (size_t i = 0; i < std::min(e.bands.size(), t[k].bands.size()); ++i) { e.bands[i].name = t[k].bands[i].name; e.bands[i].metadata = t[k].bands[i].metadata; }
                    vector<string> args = { way(more), "--copymd=" + path(7), path(0) };
                    if (files == 2) args.push_back(path(1));
                    if (crop) args.insert(args.begin(), "--area=0,2,1,2");
                    Run r = run(args);
                    mc::count();
                    ++mc::sh->traces;
                    auto s = parse(r.out);
                    if (r.rc || s.size() != (size_t)files) { mc::fail("error", "metadata of %d: %s", k, mc::outcome(r.rc).c_str()); continue; }
                    for (auto& x : s) compare(x, e, more, mc::fmt("metadata of %d, crop %d", k, crop));
                    // The image is as it was
                    Run again = run({ "--viewmore", path(0) });
                    auto u = parse(again.out);
                    if (again.rc || u.size() != 1) mc::fail("changed", "metadata of %d: the image cannot be shown again", k);
                    else compare(u[0], a, true, mc::fmt("after showing it with metadata of %d", k));
                    if (mc::read_file(path(0)) != before || mc::read_file(path(7)) != tbefore) mc::fail("changed", "metadata of %d: a file is changed", k);
                }
}
