// C21: eight-bit images keep order, range and missing pixels
//
// Complete enumeration of small images over alphabets of values, with every
// no data value and limit, exported by the code of the msat command.
#include "mc.hpp"
#include "enumerate.hpp"
#include "fake.hpp"
#include "tools/image.h"
#include <Magick++.h>
#include <algorithm>
#include <climits>
#include <cfloat>
#include <fstream>
#include <getopt.h>
#include <iostream>

using std::string;
using std::vector;

int msat_tool_main(int argc, char* argv[]);

namespace {

void init()
{
    static bool done = false;
    if (done) return;
    done = true;
    CPLSetErrorHandler(CPLQuietErrorHandler);
    GDALAllRegister();
    Magick::InitializeMagick(nullptr);
}

const double NONE = -123456.789;                      // no no data value
const double INF = INFINITY, NOT = NAN;

struct Type { GDALDataType type; vector<double> values; vector<double> missing; };
const vector<Type>& types()
{
    static const vector<Type> t = {
        { GDT_Byte, { 0, 1, 2, 100, 254, 255 }, { -9999, 256, NOT } },
        { GDT_UInt16, { 0, 1, 255, 256, 300, 65535 }, { -1, 65536, NOT } },
        { GDT_Int16, { -32768, -5, 0, 7, 300, 32767 }, { -99999, NOT } },
        { GDT_UInt32, { 0, 1, 255, 2000000000, 4294967294.0, 4294967295.0 }, { -1, NOT } },
        { GDT_Int32, { -2147483648.0, -1, 0, 16777217, 1200000000, 1200000060, 2147483647 }, { -1e12, 0.5, NOT } },
        { GDT_Float32, { -1e10f, -0.1f, 0, 0.1f, 255.5f, 3e38f, NOT, INF, -INF }, { -9999, NOT, 1e300 } },
        { GDT_Float64, { -1e300, -0.1, 0, 0.1, 1e-30, 1.1338766440125327, 255.5, NOT, INF }, { 0.3, NOT } },
    };
    return t;
}

struct Picture
{
    bool ok = false;                                  // exported
    vector<int> level;
};

/// Exported as plain grey levels
Picture picture(GDALRasterBand* b, msat::Stretch& s)
{
    Picture p;
    string path = mc::work + "/p.gray";
    unlink(path.c_str());
    try { p.ok = msat::export_image(b, path, s); }
    catch (std::exception& e) { mc::fail("exception", "exception %s", e.what()); return p; }
    if (!p.ok) { if (!access(path.c_str(), F_OK)) mc::fail("error", "a file is made for an image that fails"); return p; }
    string d = mc::read_file(path);
    for (unsigned char c : d) p.level.push_back(c);
    if (d.size() != (size_t)b->GetXSize() * b->GetYSize()) { mc::fail("size", "%zu levels and not %dx%d", d.size(), b->GetXSize(), b->GetYSize()); p.ok = false; }
    return p;
}

string text(const vector<double>& v) { string s; for (double d : v) s += mc::fmt(" %.9g", d); return s; }

/// Levels of values, between limits (or those of the values), where missing
/// pixels can be anything
void check(const vector<double>& v, const vector<bool>& missing, const Picture& p, bool compute, double lo, double hi, const string& what)
{
    bool any = false;
    if (compute)
        for (size_t i = 0; i < v.size(); ++i)
            if (!missing[i] && std::isfinite(v[i]))
            {
                if (!any || v[i] < lo) lo = v[i];
                if (!any || v[i] > hi) hi = v[i];
                any = true;
            }
    if (compute && !any) return;
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (missing[i] || std::isnan(v[i])) continue;
        int l = p.level[i];
        if (lo < hi)
        {
            long double e = v[i] <= lo ? 0.0L : v[i] >= hi ? 255.0L : ((long double)v[i] - lo) * 255 / ((long double)hi - lo);
            // Truncated or rounded, but exact at the ends
            bool ok = v[i] <= lo ? l == 0 : v[i] >= hi ? l == 255 : l > e - 1.00001L && l < e + 1.00001L;
            if (!ok) { mc::fail("level", "%s: pixel %zu (%.9g) has level %d and not %g", what.c_str(), i, v[i], l, (double)e); return; }
        }
        // A single value is shown as itself
        if (lo == hi && v[i] == lo && l != (int)std::max(0.0, std::min(255.0, lo))) { mc::fail("constant", "%s: the only value %.9g has level %d", what.c_str(), lo, l); return; }
        for (size_t j = 0; j < i && v.size() < 300; ++j)
            if (!missing[j] && !std::isnan(v[j]) && ((v[i] == v[j] && l != p.level[j]) || (v[i] < v[j] && l > p.level[j]) || (v[i] > v[j] && l < p.level[j])))
            { mc::fail("order", "%s: levels %d and %d of %.9g and %.9g", what.c_str(), l, p.level[j], v[i], v[j]); return; }
    }
}

double stored(GDALDataType t, double v)
{
    double buf[2], r;
    GDALCopyWords(&v, GDT_Float64, 0, buf, t, 0, 1);
    GDALCopyWords(buf, t, 0, &r, GDT_Float64, 0, 1);
    return r;
}

/// All images of some pixels of a type
void values(unsigned which)
{
    init();
    const Type& t = types()[which];
    vector<double> none = t.values;
    none.insert(none.begin(), NONE);
    none.insert(none.end(), t.missing.begin(), t.missing.end());
    for (unsigned n = 1; n <= (mc::thorough ? 5 : 4); ++n)
        for (double nd : none)
            for (double first : t.values)
            {
                if (n == 5 && nd != NONE && nd != t.values[2]) continue;
                if (!mc::begin("%s images of %u pixels from %g, no data %g", GDALGetDataTypeName(t.type), n, first, nd)) continue;
                mc::all_sequences(n - 1, t.values.size(), [&](const vector<unsigned>& q) {
                    vector<double> v = { first };
                    for (unsigned i : q) v.push_back(t.values[i]);
                    fake::Dataset ds(n == 4 ? 2 : n, n == 4 ? 2 : 1);
                    fake::Band* b = ds.add(t.type);
                    int w = ds.GetRasterXSize();
                    b->pixel = [&](int x, int y) { return v[y * w + x]; };
                    b->has_nodata = nd != NONE;
                    b->nodata = nd;
                    vector<bool> missing;
                    for (double d : v) missing.push_back(b->has_nodata && (stored(t.type, d) == nd || (t.type == GDT_Float32 && (float)d == (float)nd)));
                    msat::Stretch s;
                    string what = mc::fmt("%s%s no data %g", GDALGetDataTypeName(t.type), text(v).c_str(), nd);
                    Picture p = picture(b, s);
                    if (!p.ok) mc::fail("export", "%s", what.c_str());
                    else check(v, missing, p, true, 0, 0, what);
                    mc::count();
                });
            }
    mc::sample("%s: pixels%s", GDALGetDataTypeName(t.type), text(t.values).c_str());
}

/// Limits that are given
void limits(unsigned which)
{
    init();
    const Type& t = types()[which];
    const double lim[] = { -1e12, -100, -0.5, 0, 0.1, 1, 10, 254, 255, 255.5, 256, 300, 65535, 65536, 1e10, INF, -INF, NOT };
    for (double nd : { NONE, t.values[2] })
        for (double lo : lim)
            for (double hi : lim)
            {
                if (!mc::begin("%s limits %g %g no data %g", GDALGetDataTypeName(t.type), lo, hi, nd)) continue;
                vector<double> v = t.values;
                for (double d : { 3.0, 10.0, 11.0, 50.0, 128.0, 253.0 }) v.push_back(d);
                fake::Dataset ds(v.size(), 1);
                fake::Band* b = ds.add(t.type);
                b->pixel = [&](int x, int) { return v[x]; };
                b->has_nodata = nd != NONE;
                b->nodata = nd;
                vector<bool> missing;
                for (double d : v) missing.push_back(b->has_nodata && d == nd);
                msat::Stretch s;
                s.compute = false;
                s.min = lo;
                s.max = hi;
                // Twice: with the same settings for the next band
                for (int k = 0; k < 2; ++k)
                {
                    Picture p = picture(b, s);
                    if (!p.ok) mc::fail("export", "limits %g %g", lo, hi);
                    else if (std::isfinite(lo) && std::isfinite(hi)) check(v, missing, p, false, lo, hi, mc::fmt("%s limits %g %g", GDALGetDataTypeName(t.type), lo, hi));
                }
                if (s.compute || memcmp(&s.min, &lo, sizeof(lo)) || memcmp(&s.max, &hi, sizeof(hi))) mc::fail("limits", "%g %g changed to %g %g", lo, hi, s.min, s.max);
                mc::count();
            }
}

}

MC_GROUP(values_byte) { values(0); }
MC_GROUP(values_uint16) { values(1); }
MC_GROUP(values_int16) { values(2); }
MC_GROUP(values_uint32) { values(3); }
MC_GROUP(values_int32) { values(4); }
MC_GROUP(values_float32) { values(5); }
MC_GROUP(values_float64) { values(6); }
MC_GROUP(limits_integer) { for (unsigned i = 0; i < 5; ++i) limits(i); }
MC_GROUP(limits_real) { for (unsigned i = 5; i < 7; ++i) limits(i); }

// Every value of the small types between every pair of ends
MC_GROUP(ranges)
{
    init();
    const int step = mc::thorough ? 3 : 17;
    for (int lo = 0; lo < 255; lo += step)
        for (int hi = lo + 1; hi < 256; hi += mc::thorough ? 2 : 13)
        {
            if (!mc::begin("bytes between %d and %d", lo, hi)) continue;
            int n = hi - lo + 1;
            fake::Dataset ds(n, 1);
            fake::Band* b = ds.add(GDT_Byte);
            vector<double> v;
            for (int i = 0; i < n; ++i) v.push_back(hi - i);
            b->pixel = [&](int x, int) { return v[x]; };
            msat::Stretch s;
            Picture p = picture(b, s);
            if (!p.ok) mc::fail("export", "bytes between %d and %d", lo, hi);
            else check(v, vector<bool>(n), p, true, 0, 0, mc::fmt("bytes between %d and %d", lo, hi));
            mc::count();
        }
    for (int lo : { 0, 1, 255, 1000, 40000 })
        for (int hi : { 2, 256, 1023, 4095, 50000, 65534, 65535 })
            for (int how = 0; how < 3; ++how)
            {
                if (hi <= lo) continue;
                if (!mc::begin("values between %d and %d as %d", lo, hi, how)) continue;
                // (pictures of one line would be over the limits of ImageMagick)
                int n = hi - lo + 1, w = std::min(n, 256), h = (n + w - 1) / w;
                fake::Dataset ds(w, h);
                GDALDataType type = how == 0 ? GDT_UInt16 : how == 1 ? GDT_Float32 : GDT_Int32;
                fake::Band* b = ds.add(type);
                vector<double> v;
                for (int i = 0; i < w * h; ++i) v.push_back(lo + (long)i * 7919 % n);
                b->pixel = [&](int x, int y) { return v[y * w + x]; };
                msat::Stretch s;
                Picture p = picture(b, s);
                if (!p.ok) mc::fail("export", "values between %d and %d", lo, hi);
                else check(v, vector<bool>(v.size()), p, true, 0, 0, mc::fmt("%s between %d and %d", GDALGetDataTypeName(type), lo, hi));
                mc::count();
            }
    // Ends of real numbers, where the product is rounded
    for (int k = 0; k < (mc::thorough ? 20000 : 3000); ++k)
    {
        if (!mc::begin("real numbers to 1 + %d/3001", k)) continue;
        double hi = 1 + k / 3001.0;
        for (GDALDataType type : { GDT_Float32, GDT_Float64 })
        {
            fake::Dataset ds(3, 1);
            fake::Band* b = ds.add(type);
            vector<double> v = { stored(type, hi), 0, stored(type, hi / 3) };
            b->pixel = [&](int x, int) { return v[x]; };
            msat::Stretch s;
            Picture p = picture(b, s);
            if (!p.ok) mc::fail("export", "real numbers to %g", hi);
            else check(v, vector<bool>(3), p, true, 0, 0, mc::fmt("%s from 0 to %.17g", GDALGetDataTypeName(type), hi));
            mc::count();
        }
    }
}

// Images as large as those of satellites, where one pixel has the lowest value
// and one the highest
MC_GROUP(large)
{
    init();
    GDALDriver* mem = GetGDALDriverManager()->GetDriverByName("MEM");
    struct Size { int w, h; unsigned places; } sizes[] = { { 700, 500, mc::thorough ? 200u : 40u }, { 1024, 1024, 16 }, { 3712, 3712, mc::thorough ? 16u : 3u }, { 16000, 3, 8 }, { 3, 16000, 8 } };
    for (auto& z : sizes)
        for (GDALDataType type : { GDT_Byte, GDT_UInt16, GDT_Float32 })
            for (unsigned k = 0; k < z.places; ++k)
            {
                if (!mc::begin("%s %dx%d place %u", GDALGetDataTypeName(type), z.w, z.h, k)) continue;
                size_t n = (size_t)z.w * z.h;
                // Near the ends, and spread over the whole image
                size_t lo = k < 4 ? k : n * k / z.places + k, hi = n - 1 - (k % 2 ? k * 3 : n * k / (2 * z.places));
                if (lo == hi) ++lo;
                GDALDataset* ds = mem->Create("", z.w, z.h, 1, type, nullptr);
                GDALRasterBand* b = ds->GetRasterBand(1);
                b->Fill(100);
                double v = 10;
                (void)b->RasterIO(GF_Write, lo % z.w, lo / z.w, 1, 1, &v, 1, 1, GDT_Float64, 0, 0, nullptr);
                v = 250;
                (void)b->RasterIO(GF_Write, hi % z.w, hi / z.w, 1, 1, &v, 1, 1, GDT_Float64, 0, 0, nullptr);
                msat::Stretch s;
                Picture p = picture(b, s);
                if (!p.ok) mc::fail("export", "%dx%d", z.w, z.h);
                else
                    for (size_t i = 0; i < n; ++i)
                    {
                        int l = p.level[i];
                        bool ok = i == lo ? l == 0 : i == hi ? l == 255 : l == 95 || l == 96;
                        if (!ok) { mc::fail("level", "%s of %dx%d with 10 at %zu and 250 at %zu: pixel %zu has level %d", GDALGetDataTypeName(type), z.w, z.h, lo, hi, i, l); break; }
                    }
                GDALClose(ds);
                mc::count();
            }
}

// Where the pixels are, and errors
MC_GROUP(places)
{
    init();
    for (auto& t : types())
        for (int w = 1; w <= 7; ++w)
            for (int h = 1; h <= 7; ++h)
                for (int blocks = 0; blocks < 4; ++blocks)
                {
                    if (!mc::begin("%s %dx%d blocks %d", GDALGetDataTypeName(t.type), w, h, blocks)) continue;
                    fake::Dataset ds(w, h);
                    fake::Band* b = ds.add(t.type, blocks == 0 ? w : blocks == 1 ? 3 : blocks == 2 ? 1 : 9, blocks == 0 ? 1 : blocks == 1 ? 2 : blocks == 2 ? h : 9);
                    b->pixel = [&](int x, int y) { return 5 * (y * w + x); };
                    vector<double> v;
                    for (int i = 0; i < w * h; ++i) v.push_back(5 * i);
                    msat::Stretch s;
                    Picture p = picture(b, s);
                    if (!p.ok) mc::fail("export", "%dx%d", w, h);
                    else check(v, vector<bool>(w * h), p, true, 0, 0, mc::fmt("%s %dx%d blocks %d", GDALGetDataTypeName(t.type), w, h, blocks));
                    mc::count();
                }
    for (auto& t : types())
        for (int bad = 0; bad < 4; ++bad)
        {
            if (!mc::begin("%s with bad line %d", GDALGetDataTypeName(t.type), bad)) continue;
            fake::Dataset ds(3, 4);
            fake::Band* b = ds.add(t.type);
            b->bad.insert({ 0, bad });
            msat::Stretch s;
            if (picture(b, s).ok) mc::fail("error", "an image with a line that cannot be read is exported");
            mc::count();
        }
    if (mc::begin("names"))
    {
        fake::Dataset ds(3, 2);
        fake::Band* b = ds.add(GDT_Byte);
        msat::Stretch s;
        string cwd = mc::work + "/names";
        mc::make_dirs(cwd);
        if (chdir(cwd.c_str()) == 0 && msat::export_image(b, "noextension", s)) mc::fail("names", "a name without extension is accepted");
        try { if (msat::export_image(b, "/nonexistent/dir/x.png", s)) mc::fail("names", "a file in no directory is written"); }
        catch (std::exception&) {}
        mc::count();
    }
}

namespace {

int run_msat(const vector<string>& args, const string& dir)
{
    mc::clean(dir);
    mc::make_dirs(dir);
    return mc::isolated([&] {
        if (chdir(dir.c_str())) return 90;
        vector<string> a = args;
        a.insert(a.begin(), "msat");
        vector<char*> p;
        for (auto& s : a) p.push_back(&s[0]);
        p.push_back(nullptr);
        optind = 0;
        return msat_tool_main(a.size(), p.data());
    }, 60, 120);
}

bool load(const string& path, int& w, int& h, vector<int>& level)
{
    try
    {
        Magick::Image im(path);
        w = im.columns();
        h = im.rows();
        vector<unsigned char> d((size_t)w * h);
        im.write(0, 0, w, h, "I", Magick::CharPixel, d.data());
        level.assign(d.begin(), d.end());
        return true;
    }
    catch (std::exception&) { return false; }
}

}

// The msat command: windows, limits, types of images
MC_GROUP(command)
{
    init();
    GDALDriver* tiff = GetGDALDriverManager()->GetDriverByName("GTiff");
    const int W = 6, H = 5;
    string dir = mc::work + "/out";
    for (int k = 0; k < 3; ++k)
    {
        GDALDataType type = k == 0 ? GDT_Byte : k == 1 ? GDT_UInt16 : GDT_Float32;
        fake::Dataset ds(W, H);
        ds.SetMetadataItem("MSAT_SPACECRAFT", "MSG1");
        for (int n = 0; n < 2; ++n)
        {
            fake::Band* b = ds.add(type);
            b->pixel = [=](int x, int y) { return x == 3 && y == 2 ? 0 : 1 + (n ? 29 - (y * W + x) : y * W + x) * (k == 1 ? 100 : 8); };
            b->SetMetadataItem("MSAT_CHANNEL", n ? "B" : "A");
            b->has_nodata = true;
            b->nodata = 0;
            b->scale = 0.5;
            b->offset = -3;
        }
        string path = mc::work + "/in.tif";
        GDALClose(tiff->CreateCopy(path.c_str(), &ds, FALSE, nullptr, nullptr, nullptr));
        auto one = [&](vector<string> args, int x, int y, int w, int h, bool stretch, double lo, double hi, bool cal, const char* ext) {
            string what = mc::fmt("image %d", k);
            for (auto& a : args) what += " " + a;
            args.push_back(path);
            if (!mc::begin("%s", what.c_str())) return;
            int rc = run_msat(args, dir);
            if (rc) { mc::fail("command", "%s: %s", what.c_str(), mc::outcome(rc).c_str()); return; }
            for (int n = 0; n < 2; ++n)
            {
                int pw = 0, ph = 0;
                Picture p;
                string name;
                for (char** l = VSIReadDir(dir.c_str()), **i = l; i && *i; ++i) if (strstr(*i, n ? "_B_" : "_A_") && strstr(*i, ext)) name = *i;
                if (name.empty() || !load(dir + "/" + name, pw, ph, p.level)) { mc::fail("command", "%s: no picture of band %d", what.c_str(), n); continue; }
                if (pw != w || ph != h) { mc::fail("size", "%s: picture of %dx%d and not %dx%d", what.c_str(), pw, ph, w, h); continue; }
                vector<double> v, all;
                fake::read(ds.band(n + 1), 0, 0, W, H, all);
                vector<bool> missing;
                for (int i = 0; i < w * h; ++i)
                {
                    double d = all[(y + i / w) * W + x + i % w];
                    missing.push_back(d == 0);
                    if (cal && type == GDT_UInt16) d = d * 0.5 - 3;
                    v.push_back(d);
                }
                if (!strcmp(ext, ".png")) check(v, missing, p, !stretch, lo, hi, what);
            }
            mc::count();
        };
        for (int x = 0; x < W; ++x)
            for (int y = 0; y < H; ++y)
                for (int w = 1; x + w <= W; ++w)
                    for (int h = 1; y + h <= H; ++h)
                        if (mc::thorough || (x + 2 * y + 3 * w + 5 * h) % 5 == k)
                            one({ "--png", mc::fmt("--area=%d,%d,%d,%d", x, w, y, h) }, x, y, w, h, false, 0, 0, false, ".png");
        one({ "--png" }, 0, 0, W, H, false, 0, 0, false, ".png");
        one({ "--png", "--force-calibration" }, 0, 0, W, H, false, 0, 0, true, ".png");
        one({ "--png", "--force-calibration", "--area=2,3,1,3" }, 2, 1, 3, 3, false, 0, 0, true, ".png");
        one({ "--png", "--stretch=10:200" }, 0, 0, W, H, true, 10, 200, false, ".png");
        one({ "--png", "--stretch=120" }, 0, 0, W, H, true, 0, 120, false, ".png");
        one({ "--png", "--stretch=-50.5:300.5" }, 0, 0, W, H, true, -50.5, 300.5, false, ".png");
        one({ "--png", "--stretch=-50.5:300.5", "--force-calibration" }, 0, 0, W, H, true, -50.5, 300.5, true, ".png");
        one({ "--png", "--stretch=100000" }, 0, 0, W, H, true, 0, 100000, false, ".png");
        one({ "--png", "--stretch=20:20" }, 0, 0, W, H, true, 20, 20, false, ".png");
        one({ "--jpg" }, 0, 0, W, H, false, 0, 0, false, ".jpg");
        one({ "--jpg", "--area=1,4,2,2" }, 1, 2, 4, 2, false, 0, 0, false, ".jpg");
    }
}
