// C12: images written to GRIB and read again are the same images
//
// Every combination of template, spacecraft, channel, time, longitude, window
// and small image over alphabets of values; every history of conversions over
// a set of files; every size at which a file cannot be written further; every
// source that cannot be represented.
#include "mc.hpp"
#include "enumerate.hpp"
#include "fake.hpp"
#include <msat/facts.h>
#include <msat/gdal/const.h>
#include <msat/gdal/dataset.h>
#include "gdal/grib/grib.h"
#include <eccodes.h>
#include <algorithm>
#include <functional>

using std::string;
using std::vector;

namespace {

const char* const templates[] = { "msat/wmo", "msat/ecmwf", "msat/msat", nullptr };
const int n_templates = 4;
/// Projections are slow to compare
bool projections = true;

bool grib2(const char* t) { return !t || !strcmp(t, "msat/wmo"); }

GDALDriver* driver()
{
    static GDALDriver* d = nullptr;
    if (!d)
    {
        CPLSetErrorHandler(CPLQuietErrorHandler);
        GDALAllRegister();
        // The formats of GDAL itself are not to take the files
        if (GDALDriver* g = GetGDALDriverManager()->GetDriverByName("GRIB")) GetGDALDriverManager()->DeregisterDriver(g);
        GDALRegister_MsatGRIB();
        d = GetGDALDriverManager()->GetDriverByName("MsatGRIB");
        mc::write_root = mc::work;
    }
    return d;
}

/// What an image is made of
struct Image
{
    int w = 3, h = 2, x0 = 1700, y0 = 400;
    bool hrv = false;
    double lop = 0;
    string spacecraft = "57", channel = "4", time = "2015-03-04 12:45:30";
    GDALDataType type = GDT_Float64;
    double scale = 1, offset = 0;
    bool has_nodata = true;
    double nodata = 0;
    int bx = 0, by = 1;
    std::function<double(int, int)> pixel = [](int x, int y) { return 200.0 + x * 10 + y; };

    double step() const { return hrv ? METEOSAT_PIXELSIZE_X_HRV : METEOSAT_PIXELSIZE_X; }
    int centre() const { return (hrv ? METEOSAT_IMAGE_NCOLUMNS_HRV : METEOSAT_IMAGE_NCOLUMNS) / 2; }
    std::unique_ptr<fake::Dataset> make() const
    {
        std::unique_ptr<fake::Dataset> d(new fake::Dataset(w, h));
        static std::map<double, OGRSpatialReference> known;
        if (!known.count(lop))
        {
            if (known.size() > 10) known.clear();
            msat::dataset::set_spaceview(known[lop], lop);
        }
        d->set_srs(known[lop]);
        d->set_gt((x0 - centre()) * step(), step(), 0, (centre() - y0) * step(), 0, -step());
        fake::Band* b = d->add(type, bx, by);
        b->pixel = pixel;
        b->scale = scale;
        b->offset = offset;
        b->has_nodata = has_nodata;
        b->nodata = nodata;
        if (!time.empty()) d->SetMetadataItem(MD_MSAT_DATETIME, time.c_str(), MD_DOMAIN_MSAT);
        if (!spacecraft.empty()) d->SetMetadataItem(MD_MSAT_SPACECRAFT_ID, spacecraft.c_str(), MD_DOMAIN_MSAT);
        if (!channel.empty()) b->SetMetadataItem(MD_MSAT_CHANNEL_ID, channel.c_str(), MD_DOMAIN_MSAT);
        return d;
    }
    /// The raw value as the type of the band keeps it
    double raw(int x, int y) const
    {
        double v = pixel(x, y), r = 0;
        char buf[8];
        GDALCopyWords(&v, GDT_Float64, 0, buf, type, 0, 1);
        GDALCopyWords(buf, type, 0, &r, GDT_Float64, 0, 1);
        return r;
    }
    bool missing(int x, int y) const
    {
        double v = raw(x, y);
        return std::isnan(v) || (has_nodata && v == nodata);
    }
    double value(int x, int y) const { return raw(x, y) * scale + offset; }
};

typedef std::unique_ptr<GDALDataset> Handle;

Handle copy(GDALDataset& src, const char* tmpl, const string& path, bool strict = false)
{
    GDALDriver* drv = driver();
    CPLStringList opts;
    if (tmpl) opts.SetNameValue("TEMPLATE", tmpl);
    mc::written_elsewhere.clear();
    CPLErrorReset();
    Handle res;
    try { res.reset(drv->CreateCopy(path.c_str(), &src, strict, opts.List(), nullptr, nullptr)); }
    catch (...) { mc::fail("exception", "writing %s", path.c_str()); }
    for (auto& f : mc::written_elsewhere) mc::fail("writes", "file %s is written", f.c_str());
    if (!res && CPLGetLastErrorType() != CE_Failure) mc::fail("no error", "no data set and no error");
    return res;
}

Handle open(const string& path, const char* opt = nullptr)
{
    driver();
    CPLErrorReset();
    mc::written_elsewhere.clear();
    CPLStringList opts;
    if (opt) opts.AddString(opt);
    Handle res;
    try { res.reset((GDALDataset*)GDALOpenEx(path.c_str(), GDAL_OF_RASTER, nullptr, opts.List(), nullptr)); }
    catch (...) { mc::fail("exception", "opening %s", path.c_str()); }
    for (auto& f : mc::written_elsewhere) mc::fail("writes", "file %s is written", f.c_str());
    return res;
}

string text(const char* s) { return s ? s : "(none)"; }

void compare_frame(const Image& i, const char* tmpl, GDALDataset& d)
{
    if (d.GetRasterXSize() != i.w || d.GetRasterYSize() != i.h) mc::fail("size", "%dx%d", d.GetRasterXSize(), d.GetRasterYSize());
    if (d.GetRasterCount() != 1) { mc::fail("bands", "%d bands", d.GetRasterCount()); return; }
    GDALRasterBand* b = d.GetRasterBand(1);
    int sc = atoi(i.spacecraft.c_str()), ch = atoi(i.channel.c_str());
    auto same = [](const char* key, const string& got, const string& want) { if (got != want) mc::fail(key, "%s and not %s", got.c_str(), want.c_str()); };
    same("spacecraft", text(d.GetMetadataItem(MD_MSAT_SPACECRAFT_ID, MD_DOMAIN_MSAT)), std::to_string(sc));
    same("spacecraft", text(d.GetMetadataItem(MD_MSAT_SPACECRAFT, MD_DOMAIN_MSAT)), msat::facts::spacecraftName(sc));
    same("channel", text(b->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT)), std::to_string(ch));
    same("channel", text(b->GetMetadataItem(MD_MSAT_CHANNEL, MD_DOMAIN_MSAT)), msat::facts::channelName(sc, ch));
    same("channel", b->GetDescription(), msat::facts::channelName(sc, ch));
    same("unit", b->GetUnitType(), msat::facts::channelUnit(sc, ch));
    same("time", text(d.GetMetadataItem(MD_MSAT_DATETIME, MD_DOMAIN_MSAT)), grib2(tmpl) ? i.time : i.time.substr(0, 17) + "00");
    double g[6] = { 0 }, p = i.step(), want[6] = { (i.x0 - i.centre()) * p, p, 0, (i.centre() - i.y0) * p, 0, -p };
    if (d.GetGeoTransform(g) != CE_None) mc::fail("geotransform", "none");
    for (int k = 0; k < 6; ++k)
        if (!(std::abs(g[k] - want[k]) <= (k % 3 == 0 ? 1e-3 : 1e-7))) mc::fail("geotransform", "element %d is %.9g and not %.9g", k, g[k], want[k]);
    int ok = 0;
    if (b->GetScale(&ok) != 1 || !ok) mc::fail("scale", "%g %d", b->GetScale(), ok);
    if (b->GetOffset(&ok) != 0 || !ok) mc::fail("scale", "offset %g %d", b->GetOffset(), ok);
    if (!projections) return;
    // The precision of longitudes is a thousandth or a millionth of degree
    const OGRSpatialReference* o = d.GetSpatialRef();
    if (!o) mc::fail("projection", "no projection");
    else
    {
        double lop = o->GetProjParm(SRS_PP_CENTRAL_MERIDIAN, 1234), want = i.lop;
        if (!(std::abs(lop - want) <= (grib2(tmpl) ? 6e-7 : 6e-4))) mc::fail("longitude", "%.9g and not %.9g", lop, want);
        OGRSpatialReference w;
        msat::dataset::set_spaceview(w, lop);
        if (!o->IsSame(&w)) mc::fail("projection", "of another kind");
    }
}

void compare_pixels(const Image& i, GDALDataset& d)
{
    if (d.GetRasterXSize() != i.w || d.GetRasterYSize() != i.h || d.GetRasterCount() != 1) return;
    GDALRasterBand* b = d.GetRasterBand(1);
    vector<double> v;
    if (!fake::read(b, 0, 0, i.w, i.h, v)) { mc::fail("read", "the values cannot be read"); return; }
    double lo = 1e300, hi = -1e300;
    bool any_missing = false;
    for (int y = 0; y < i.h; ++y)
        for (int x = 0; x < i.w; ++x)
            if (i.missing(x, y)) any_missing = true;
            else { lo = std::min(lo, i.value(x, y)); hi = std::max(hi, i.value(x, y)); }
    // 24 bits are used for values, and 20 to 24 for the lowest
    double tol = (hi - lo) * 2.5e-7 + std::abs(lo) * 1.2e-6 + 1e-12;
    int has = 0;
    double nodata = b->GetNoDataValue(&has);
    double convention = msat::facts::defaultScaledMissing(atoi(i.channel.c_str()));
    for (int y = 0; y < i.h; ++y)
        for (int x = 0; x < i.w; ++x)
        {
            double got = v[y * i.w + x];
            bool miss = has && got == nodata;
            if (i.missing(x, y))
            {
                if (!miss) mc::fail("missing", "pixel %d,%d is %.9g and not missing", x, y, got);
            }
            else if (!(std::abs(got - i.value(x, y)) <= tol)) mc::fail("value", "pixel %d,%d is %.9g and not %.9g", x, y, got, i.value(x, y));
            // Without missing pixels values equal to the conventional one are not told from it
            else if (miss && (any_missing || std::abs(i.value(x, y) - convention) > tol)) mc::fail("missing", "pixel %d,%d of value %.9g is missing", x, y, got);
            ++mc::sh->evaluations;
        }
}

void compare(const Image& i, const char* tmpl, GDALDataset& d)
{
    compare_frame(i, tmpl, d);
    compare_pixels(i, d);
}

/// Write an image and read it again. must: it can be represented
bool trip(const Image& i, const char* tmpl, bool must = true, bool fresh = true)
{
    string path = mc::work + "/out.grib";
    unlink(path.c_str());
    auto src = i.make();
    Handle d = copy(*src, tmpl, path);
    ++mc::sh->traces;
    if (!d)
    {
        if (must) mc::fail("refused", "%s", CPLGetLastErrorMsg());
        return false;
    }
    ++mc::sh->nontrivial;
    compare(i, tmpl, *d);
    d.reset();
    if (!fresh) return true;
    d = open(path);
    if (!d) mc::fail("open", "%s", CPLGetLastErrorMsg());
    else compare(i, tmpl, *d);
    return true;
}

string name(const char* t) { return t ? t : "default"; }

}

MC_GROUP(identities)
{
    const int codes[] = { 0, 3, 50, 54, 55, 56, 57, 58, 59, 70, 71, 254, 255, 256, 300, 333, 65535, 65536, 100000, -1 };
    for (int t = 0; t < n_templates; ++t)
        for (int sc : codes)
            for (int ch = -2; ch <= 260; ++ch)
            {
                if (ch > 20 && ch < 250) continue;
                if (!mc::begin("%s spacecraft %d channel %d", name(templates[t]).c_str(), sc, ch)) continue;
                Image i;
                i.spacecraft = std::to_string(sc);
                i.channel = std::to_string(ch);
                bool known = (sc == 55 || sc == 56 || sc == 57 || sc == 70) && ch >= 1 && ch <= 12;
                if (ch == 12) i.hrv = true;
                trip(i, templates[t], known);
            }
    mc::sample("all channels of 20 spacecraft with four templates");
}

MC_GROUP(times)
{
    projections = false;
    const char* const clocks[] = { "00:00:00", "00:12:00", "09:30:00", "11:59:59", "12:00:01", "23:57:30", "23:59:59" };
    const int days[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    for (int t = 0; t < 3; ++t)
        for (int y = mc::thorough ? 1960 : 1995; y <= (mc::thorough ? 2110 : 2032); ++y)
        {
            if (!mc::begin("%s year %d", templates[t], y)) continue;
            for (int m = 1; m <= 12; ++m)
                for (int d = 1; d <= days[m - 1] + (m == 2 && y % 4 == 0 && y != 2100); d += d > 26 ? 1 : mc::thorough ? 4 : 13)
                {
                    Image i;
                    i.time = mc::fmt("%04d-%02d-%02d %s", y, m, d, clocks[(d + m) % 7]);
                    trip(i, templates[t], true, false);
                }
        }
    mc::sample("days of years");
}

MC_GROUP(clock)
{
    projections = false;
    for (int t = 0; t < 3; ++t)
        for (int s = 0; s < 86400; s += mc::thorough ? 13 : 179)
        {
            if (!mc::begin("%s second %d", templates[t], s)) continue;
            Image i;
            i.time = mc::fmt("2012-02-29 %02d:%02d:%02d", s / 3600, s / 60 % 60, s % 60);
            trip(i, templates[t], true, false);
        }
    mc::sample("times of a day");
}

MC_GROUP(longitudes)
{
    for (int t = 0; t < 3; ++t)
        for (int l = -1799; l <= 1800; l += mc::thorough ? 2 : 7)
            for (int k = 0; k < 2; ++k)
            {
                Image i;
                i.lop = l / 10.0 + k * 0.04;
                if (!mc::begin("%s longitude %g", templates[t], i.lop)) continue;
                if (i.lop <= 180) trip(i, templates[t]);
            }
    mc::sample("longitudes of satellites");
}

MC_GROUP(windows)
{
    const int starts[] = { 0, 1, 2, 300, 1855, 1856, 1857, 3701, 3711 }, hstarts[] = { 0, 1, 5567, 5568, 5569, 11124, 11135 };
    const int sizes[] = { 1, 2, 5 };
    for (int t = 0; t < 3; ++t)
        for (int hrv = 0; hrv < 2; ++hrv)
        {
            vector<int> st(hrv ? vector<int>(hstarts, hstarts + 7) : vector<int>(starts, starts + 9));
            for (int x : st) for (int y : st) for (int w : sizes) for (int h : sizes)
            {
                if (!mc::begin("%s window %d,%d %dx%d hrv %d", templates[t], x, y, w, h, hrv)) continue;
                Image i;
                i.hrv = hrv;
                i.channel = hrv ? "12" : "5";
                i.x0 = x; i.y0 = y; i.w = w; i.h = h;
                trip(i, templates[t], true, w == h);
            }
            // Windows that begin outside of the image of the satellite
            for (int x : { -70000, -32769, -3, -1, 40000, 65535, 65536, 100000 }) for (int y : { -70000, -1, 0, 65536 })
            {
                if (!mc::begin("%s window at %d,%d hrv %d", templates[t], x, y, hrv)) continue;
                Image i;
                i.hrv = hrv;
                i.channel = hrv ? "12" : "5";
                i.x0 = x; i.y0 = y;
                trip(i, templates[t], false);
            }
        }
    mc::sample("windows at the sides and at the middle of the image");
}

MC_GROUP(sizes)
{
    projections = false;
    for (int t = 0; t < 3; ++t)
    {
        for (int w = 1; w <= 7; ++w) for (int h = 1; h <= 7; ++h) for (int shape = 0; shape < 4; ++shape)
        {
            if (!mc::begin("%s size %dx%d shape %d", templates[t], w, h, shape)) continue;
            Image i;
            i.w = w; i.h = h;
            i.type = GDT_UInt16;
            i.scale = 0.25; i.offset = 180;
            const int bs[][2] = { { w, 1 }, { w, h }, { 3, 2 }, { 2, 5 } };
            i.bx = bs[shape][0]; i.by = bs[shape][1];
            for (int m = 0; m < 4; ++m)
            {
                // Missing pixels: none, first, last, a chequerboard
                i.pixel = [=](int x, int y) {
                    bool miss = m == 1 ? x == 0 && y == 0 : m == 2 ? x == w - 1 && y == h - 1 : m == 3 ? (x + y) % 2 : false;
                    return miss ? 0.0 : 10.0 + x * 31 + y * 7;
                };
                trip(i, templates[t], m == 0 || w * h > 1, false);
            }
        }
        const int big[][2] = { { 65535, 1 }, { 65536, 1 }, { 1, 65536 }, { 1, 65535 }, { 256, 256 }, { 70000, 2 }, { 3712, 3712 } };
        for (auto& s : big)
        {
            if (!mc::begin("%s size %dx%d", templates[t], s[0], s[1])) continue;
            if (s[0] == 3712 && !mc::thorough && t == 1) continue;
            Image i;
            i.x0 = i.y0 = 0;
            i.w = s[0]; i.h = s[1];
            i.type = GDT_UInt16;
            i.scale = 0.25;
            i.pixel = [](int x, int y) { int v = (x * 7 + y * 13) % 1024; return v % 5 ? v : 0; };
            trip(i, templates[t], s[0] <= 3712 && s[1] <= 3712);
        }
    }
    mc::sample("all sizes up to 7x7, and large ones");
}

namespace {

void values(GDALDataType type)
{
    projections = false;
    const double raws[] = { 0, 1, 2, 100, 255 }, reals[] = { 0, -3.5, 1e-3, 250.25, NAN };
    const bool real = type == GDT_Float32 || type == GDT_Float64;
    const double* alpha = real ? reals : raws;
    const double scales[][2] = { { 1, 0 }, { 0.25, 180 }, { -0.5, 100 }, { 0.0201, -1.02691 }, { 0.5, -50 }, { 0, 5 }, { 0, 0 } };
    struct { bool has; double v; } nodatas[] = { { false, 0 }, { true, 0 }, { true, 2 }, { true, 255 }, { true, -3.5 }, { true, NAN } };
    const char* const channels[] = { "1", "2", "9", "12" };
    unsigned max = mc::thorough ? 4 : 3;
    for (int t = 0; t < 3; ++t)
        for (auto& sc : scales)
            for (unsigned n = 0; n < 6; ++n)
                for (unsigned c = 0; c < 4; ++c)
                {
                    for (unsigned len = 1; len <= max; ++len)
                    {
                        unsigned combination = &sc - scales + n + c * 5 + t * 3;
                        if (!mc::thorough && len < 3 && (n + c + t) % 2) continue;
                        if (len == 3 && combination % (mc::thorough ? 4 : 8)) continue;
                        if (len == 4 && (combination + 2) % 16) continue;
                        if (!mc::begin("%s type %d scale %g,%g nodata %u channel %s of %u pixels", templates[t], type, sc[0], sc[1], n, channels[c], len)) continue;
                        mc::all_sequences(len, 5, [&](const vector<unsigned>& seq) {
                            Image i;
                            i.w = len == 4 ? 2 : len;
                            i.h = len == 4 ? 2 : 1;
                            i.type = type;
                            i.scale = sc[0]; i.offset = sc[1];
                            i.has_nodata = nodatas[n].has; i.nodata = nodatas[n].v;
                            i.channel = channels[c];
                            i.hrv = c == 3;
                            i.pixel = [&](int x, int y) { return alpha[seq[y * i.w + x]]; };
                            bool all = true;
                            for (int y = 0; y < i.h; ++y) for (int x = 0; x < i.w; ++x) if (!i.missing(x, y)) all = false;
                            // Images without any value cannot be GRIB
                            trip(i, templates[t], !all, false);
                        });
                    }
                }
    mc::sample("all images of up to %u pixels of type %d", max, type);
}

}

MC_GROUP(values_byte) { values(GDT_Byte); }
MC_GROUP(values_uint16) { values(GDT_UInt16); }
MC_GROUP(values_int16) { values(GDT_Int16); }
MC_GROUP(values_float32) { values(GDT_Float32); }
MC_GROUP(values_float64) { values(GDT_Float64); }

MC_GROUP(ranges)
{
    projections = false;
    // Values far from zero, in small and large ranges; infinities are no values
    const double mins[] = { -1e30, -1e9, -273.15, -1, 0, 1e-30, 1e-6, 1, 180, 300, 65535, 1e9, 1e30 };
    const double widths[] = { 0, 1e-30, 1e-9, 1e-4, 0.25, 1, 100, 1023, 1e6, 1e12, 1e30, 1e37, INFINITY };
    for (int t = 0; t < 3; ++t)
        for (double lo : mins)
            for (double wd : widths)
                for (int m = 0; m < 3; ++m)
                {
                    if (!mc::begin("%s from %g by %g missing %d", templates[t], lo, wd, m)) continue;
                    Image i;
                    i.w = 33; i.h = 2;
                    i.nodata = m == 2 ? 9999 : -12345;
                    i.pixel = [=](int x, int y) { return m && x == 5 ? (m == 2 ? 9999.0 : -12345) : x == 0 ? lo : lo + wd * x / 32; };
                    bool sane = lo >= -1e9 && lo <= 1e9 && (lo == 0 || std::abs(lo) > 1e-9) && (wd == 0 || (wd > 1e-12 && wd < 1e13));
                    trip(i, templates[t], sane, false);
                }
    mc::sample("ranges of values");
}


MC_GROUP(crops)
{
    // Windows of an open image, through the conversion of the library
    Image i;
    i.w = 5; i.h = 4;
    i.pixel = [](int x, int y) { return x == 2 && y == 2 ? 0 : 200.0 + 10 * x + y; };
    GDALDriver* drv = driver();
    for (int t = 0; t < n_templates; ++t)
        for (int x = 0; x < 5; ++x) for (int y = 0; y < 4; ++y) for (int w = 1; x + w <= 5; ++w) for (int h = 1; y + h <= 4; ++h)
            for (int again = 0; again < 2; ++again)
            {
                if (!mc::begin("%s crop %d,%d %dx%d %s", name(templates[t]).c_str(), x, y, w, h, again ? "of a GRIB" : "")) continue;
                Image c = i;
                c.x0 += x; c.y0 += y; c.w = w; c.h = h;
                c.pixel = [=](int px, int py) { return i.pixel(px + x, py + y); };
                bool can = w > 1 || h > 1 || x != 2 || y != 2;
                Handle src = i.make();
                const char* first = templates[(t + 1) % n_templates];
                if (again) src = copy(*src, first, mc::work + "/first.grib");
                if (!src) { mc::fail("refused", "the image"); continue; }
                if (again && !grib2(first)) c.time = c.time.substr(0, 17) + "00";
                Handle d;
                string opt = templates[t] ? string("TEMPLATE=") + templates[t] : "";
                msat::proj::ImageBox box;
                box.topLeft.column = x; box.topLeft.line = y; box.bottomRight.column = x + w; box.bottomRight.line = y + h;
                try { d.reset(msat::dataset::recode(src.get(), box, mc::work + "/crop.grib", drv, opt)); }
                catch (std::exception& e) { mc::fail("exception", "%s", e.what()); continue; }
                ++mc::sh->traces;
                if (!d && can) mc::fail("refused", "%s", CPLGetLastErrorMsg());
                if (d) compare(c, templates[t], *d);
            }
    mc::sample("all windows of a 5x4 image");
}

MC_GROUP(chains)
{
    // From GRIB to GRIB, in every sequence of templates
    for (int hrv = 0; hrv < 2; ++hrv)
        mc::all_sequences(mc::thorough ? 5 : 4, 3, [&](const vector<unsigned>& seq) {
            string what;
            for (unsigned t : seq) what += string(" ") + templates[t];
            if (!mc::begin("hrv %d%s", hrv, what.c_str())) return;
            Image i;
            i.hrv = hrv;
            i.channel = hrv ? "12" : "10";
            i.lop = 9.5;
            i.w = 4;
            i.pixel = [](int x, int y) { return x == 1 && y == 0 ? 0 : 1.25 + x * 0.5 + y * 3; };
            Handle src = i.make();
            for (unsigned n = 0; n < seq.size(); ++n)
            {
                src = copy(*src, templates[seq[n]], mc::fmt("%s/chain%u.grib", mc::work.c_str(), n));
                ++mc::sh->traces;
                if (!src) { mc::fail("refused", "conversion %u:%s", n, CPLGetLastErrorMsg()); return; }
                if (!grib2(templates[seq[n]])) i.time = i.time.substr(0, 17) + "00";
                compare(i, templates[seq[n]], *src);
            }
            ++mc::sh->nontrivial;
        });
    mc::sample("all sequences of templates");
}

namespace {

void histories(unsigned part)
{
    // Two files, written and read by any sequence of operations; one data set
    // is left open
    Image imgs[3];
    imgs[1].w = 2; imgs[1].h = 4; imgs[1].channel = "12"; imgs[1].hrv = true; imgs[1].spacecraft = "55"; imgs[1].x0 = 12; imgs[1].lop = -3.5;
    imgs[1].pixel = [](int x, int y) { return x == y ? 0.0 : 3.5 + x; };
    imgs[2].channel = "1"; imgs[2].type = GDT_Byte; imgs[2].scale = 0.5; imgs[2].offset = -2; imgs[2].time = "1999-12-31 23:59:00";
    imgs[2].pixel = [](int x, int y) { return x + 3 * y; };
    unsigned depth = mc::thorough ? 4 : 3;
    std::set<vector<int>> states;
    mc::all_sequences(depth, 13, [&](const vector<unsigned>& ops) {
        if (ops[0] % 2 != part) return;
        string what;
        for (unsigned o : ops) what += mc::fmt(" %u", o);
        if (!mc::begin("operations%s", what.c_str())) return;
        string file[2] = { mc::work + "/a.grib", mc::work + "/b.grib" };
        int has[2] = { -1, -1 }, tm[2] = { 0, 0 }, open_img = -1, open_tm = 0;
        Handle h;
        unlink(file[0].c_str());
        unlink(file[1].c_str());
        auto as = [&](int i, int t) { Image r = imgs[i]; if (t) r.time = r.time.substr(0, 17) + "00"; return r; };
        for (unsigned o : ops)
        {
            ++mc::sh->transitions;
            if (o < 6)   // write
            {
                int f = o % 2, i = o / 2, t = (i + f) % 3;
                auto src = imgs[i].make();
                Handle d = copy(*src, templates[t], file[f]);
                if (!d) { mc::fail("refused", "image %d", i); return; }
                has[f] = i; tm[f] = !grib2(templates[t]);
                compare(as(i, tm[f]), templates[t], *d);
            }
            else if (o < 8)   // read
            {
                Handle d = open(file[o - 6]);
                int i = has[o - 6];
                if (!d != (i < 0)) { mc::fail("open", "file %u of image %d is %s", o - 6, i, d ? "open" : "not open"); return; }
                if (d) compare(as(i, tm[o - 6]), tm[o - 6] ? "msat/msat" : nullptr, *d);
            }
            else if (o < 10)   // open
            {
                h = open(file[o - 8]);
                open_img = has[o - 8]; open_tm = tm[o - 8];
                if (!h != (open_img < 0)) { mc::fail("open", "file %u of image %d is %s", o - 8, open_img, h ? "open" : "not open"); return; }
            }
            else if (o == 10)   // read what is open, which is in memory
            {
                if (h) compare(as(open_img, open_tm), open_tm ? "msat/msat" : nullptr, *h);
            }
            else   // convert what is open
            {
                if (!h) continue;
                int f = o - 11;
                Handle d = copy(*h, templates[f], file[f]);
                if (!d) { mc::fail("refused", "image %d from GRIB", open_img); return; }
                has[f] = open_img; tm[f] = open_tm || f;
                compare(as(open_img, tm[f]), templates[f], *d);
            }
            states.insert({ has[0], has[1], tm[0], tm[1], open_img, open_tm });
        }
        ++mc::sh->traces;
        ++mc::sh->nontrivial;
    });
    mc::sh->states += states.size();
    mc::sample("all sequences of %u operations", depth);
}

}

MC_GROUP(histories_a) { histories(0); }
MC_GROUP(histories_b) { histories(1); }

namespace {

const char* const refusals[] = { "no projection", "geographic", "UTM", "another height", "false easting", "false northing", "rotated x", "rotated y", "larger pixels", "taller pixels",
    "mirrored", "upside down", "HRV pixels one way", "no geotransform", "geotransform of no numbers", "origin of no number", "origin at infinity", "no bands", "two bands",
    "bad time", "unreadable", "unknown template", "infinite value", "local projection" };
const int n_refusals = sizeof(refusals) / sizeof(refusals[0]);

std::unique_ptr<fake::Dataset> broken(int kind)
{
    Image i;
    auto d = i.make();
    OGRSpatialReference o;
    double p = i.step();
    switch (kind)
    {
        case 0: d->has_srs = false; break;
        case 1: o.SetWellKnownGeogCS("WGS84"); d->set_srs(o); break;
        case 2: o.SetWellKnownGeogCS("WGS84"); o.SetUTM(32, 1); d->set_srs(o); break;
        case 3: o.SetGEOS(0, 35786000, 0, 0); o.SetGeogCS(NULL, NULL, NULL, 6378169, 295.488065897); d->set_srs(o); break;
        case 4: case 5: o.SetGEOS(0, ORBIT_RADIUS_FOR_GDAL, kind == 4 ? 500000 : 0, kind == 5 ? -7000 : 0); o.SetGeogCS(NULL, NULL, NULL, 6378169, 295.488065897); d->set_srs(o); break;
        case 6: d->gt[2] = 0.01; break;
        case 7: d->gt[4] = -0.01; break;
        case 8: d->gt[1] *= 2; break;
        case 9: d->gt[5] *= 1.01; break;
        case 10: d->gt[1] = -p; break;
        case 11: d->gt[5] = p; break;
        case 12: d->gt[5] = -METEOSAT_PIXELSIZE_Y_HRV; break;
        case 13: d->has_gt = false; break;
        case 14: d->gt[1] = d->gt[5] = NAN; break;
        case 15: d->gt[0] = NAN; break;
        case 16: d->gt[3] = INFINITY; break;
        case 17: d.reset(new fake::Dataset(3, 2)); msat::dataset::set_spaceview(o, 0); d->set_srs(o); d->set_gt(0, p, 0, 0, 0, -p); break;
        case 18: d->add(GDT_Float64)->pixel = i.pixel; break;
        case 19: d->SetMetadataItem(MD_MSAT_DATETIME, "today", MD_DOMAIN_MSAT); break;
        case 20: d->band(1)->bad.insert({ 0, 1 }); break;
        case 22: d->band(1)->pixel = [](int x, int) { return x == 1 ? INFINITY : 1.0; }; break;
        case 23: o.SetLocalCS("here"); d->set_srs(o); break;
    }
    return d;
}

}

MC_GROUP(refused)
{
    for (int t = 0; t < n_templates; ++t)
        for (int k = 0; k < n_refusals; ++k)
            for (int old = 0; old < 2; ++old)
            {
                if (!mc::begin("%s source: %s%s", name(templates[t]).c_str(), refusals[k], old ? " over a file" : "")) continue;
                string path = mc::work + "/no.grib";
                unlink(path.c_str());
                if (old) { Image i; auto s = i.make(); copy(*s, templates[t], path); }
                auto s = broken(k);
                // Copies are strict: nothing can be left out
                Handle d = copy(*s, k == 21 ? "msat/other" : templates[t], path, true);
                ++mc::sh->traces;
                ++mc::sh->nontrivial;
                if (d) mc::fail("accepted", "%s", refusals[k]);
            }
    // Without some of the metadata: refused, or written and read
    for (int t = 0; t < n_templates; ++t)
        for (int m = 0; m < 8; ++m)
        {
            if (!mc::begin("%s without metadata %d", name(templates[t]).c_str(), m)) continue;
            Image i;
            if (m & 1) i.spacecraft = "";
            if (m & 2) i.channel = "";
            if (m & 4) i.time = "";
            auto s = i.make();
            Handle d = copy(*s, templates[t], mc::work + "/meta.grib");
            if (d) compare_pixels(i, *d);
            if (!d && m == 0) mc::fail("refused", "%s", CPLGetLastErrorMsg());
        }
    mc::sample("sources that cannot be represented");
}

MC_GROUP(writing)
{
    // Files that cannot be opened, with and without an older one
    for (int t = 0; t < 3; ++t)
    {
        Image i, other;
        other.pixel = [](int, int) { return 1; };
        string path = mc::work + "/file.grib";
        auto s = i.make(), o = other.make();
        if (mc::begin("%s no directory", templates[t]))
            if (copy(*s, templates[t], mc::work + "/none/file.grib")) mc::fail("accepted", "no directory");
        if (mc::begin("%s a directory", templates[t]))
            if (copy(*s, templates[t], mc::work)) mc::fail("accepted", "a directory");
        if (mc::begin("%s an older file", templates[t]))
        {
            copy(*o, templates[t], path);
            mc::write_root = mc::work + "/elsewhere";
            CPLErrorReset();
            CPLStringList opts;
            opts.SetNameValue("TEMPLATE", templates[t]);
            // GDAL is not to remove it first
            opts.SetNameValue("@QUIET_DELETE_ON_CREATE_COPY", "NO");
            Handle d;
            try { d.reset(driver()->CreateCopy(path.c_str(), s.get(), false, opts.List(), nullptr, nullptr)); }
            catch (...) { mc::fail("exception", "writing"); }
            mc::write_root = mc::work;
            if (d) mc::fail("accepted", "the older file is given for the new one");
        }
        // The disk is full after any number of bytes
        struct stat st;
        i.w = 40; i.h = 30;
        i.pixel = [](int x, int y) { return (x * 31 + y * 17) % 255; };
        s = i.make();
        if (!copy(*s, templates[t], path) || stat(path.c_str(), &st)) { mc::fail("refused", "image"); continue; }
        for (long k = 0; k <= st.st_size; k += k < 100 || k + 40 > st.st_size ? 1 : mc::thorough ? 11 : 151)
        {
            if (!mc::begin("%s %ld bytes of %ld can be written", templates[t], k, (long)st.st_size)) continue;
            for (int old = 0; old < 2; ++old)
            {
                unlink(path.c_str());
                if (old) copy(*o, templates[t], path);
                int rc = mc::isolated([&]() {
                    struct rlimit l = { (rlim_t)k, (rlim_t)k };
                    signal(SIGXFSZ, SIG_IGN);
                    setrlimit(RLIMIT_FSIZE, &l);
                    CPLStringList opts;
                    opts.SetNameValue("TEMPLATE", templates[t]);
                    CPLErrorReset();
                    GDALDataset* d = driver()->CreateCopy(path.c_str(), s.get(), false, opts.List(), nullptr, nullptr);
                    return d ? 1 : CPLGetLastErrorType() == CE_Failure ? 0 : 2;
                });
                ++mc::sh->traces;
                ++mc::sh->nontrivial;
                bool whole = k >= st.st_size;
                if (rc != (whole ? 1 : 0)) mc::fail("full disk", "%ld of %ld bytes: %s", k, (long)st.st_size, rc == 1 ? "written" : rc == 2 ? "no error" : rc == 0 ? "refused" : mc::outcome(rc).c_str());
            }
        }
    }
    mc::sample("all sizes of a full disk");
}

MC_GROUP(cuts)
{
    for (int t = 0; t < 3; ++t)
    {
        Image i;
        string path = mc::work + "/file.grib", cut = mc::work + "/cut.grib";
        i.pixel = [](int x, int y) { return x == 1 ? 0.0 : 200.25 + x + 2 * y; };
        auto s = i.make();
        if (!copy(*s, templates[t], path)) { mc::fail("refused", "image"); continue; }
        string whole = mc::read_file(path);
        for (unsigned k = 0; k <= whole.size(); ++k)
        {
            if (!mc::begin("%s first %u bytes", templates[t], k)) continue;
            mc::write_file(cut, whole.substr(0, k));
            Handle d = open(cut);
            ++mc::sh->traces;
            if (!!d != (k == whole.size())) mc::fail("cut", "%u of %zu bytes: %s", k, whole.size(), d ? "opened" : "refused");
            // Bytes before the message are skipped
            mc::write_file(cut, string(k % 40, 'x') + whole + string(k % 7, '7'));
            d = open(cut);
            if (!d) mc::fail("junk", "after %u bytes: refused", k % 40);
            else compare(i, templates[t], *d);
        }
        ++mc::sh->nontrivial;
    }
    mc::sample("all cuts");
}

namespace {

void set(grib_handle* h, const char* key, long v) { codes_set_long(h, key, v); }

/// A file with keys changed
string edited(const string& path, const std::function<void(grib_handle*)>& f)
{
    FILE* in = fopen(path.c_str(), "rb");
    int err = 0;
    grib_handle* h = codes_handle_new_from_file(nullptr, in, PRODUCT_GRIB, &err);
    fclose(in);
    string res;
    if (h)
    {
        f(h);
        const void* b;
        size_t n;
        if (!codes_get_message(h, &b, &n)) res.assign((const char*)b, n);
        codes_handle_delete(h);
    }
    return res;
}

}

MC_GROUP(foreign)
{
    // Files of other programs: the same facts encoded in other ways
    Image i;
    string path = mc::work + "/file.grib", other = mc::work + "/other.grib";
    for (int ch = 1; ch <= 12; ++ch)
        for (int sf = 0; sf <= 3; ++sf)
            for (int sc : { 55, 56, 57, 70, 54, 0, 65535 })
            {
                if (!mc::begin("wave number of channel %d scaled by %d spacecraft %d", ch, sf, sc)) continue;
                i.channel = std::to_string(ch);
                i.spacecraft = "57";
                auto s = i.make();
                if (!copy(*s, nullptr, path)) { mc::fail("refused", "image"); continue; }
                double wl = msat::facts::channel_central_wavelength(57, ch);
                mc::write_file(other, edited(path, [&](grib_handle* h) {
                    set(h, "satelliteNumber", sc);
                    set(h, "scaleFactorOfCentralWaveNumber", sf);
                    set(h, "scaledValueOfCentralWaveNumber", lround(1e6 / wl * pow(10, sf)));
                }));
                Handle d = open(other);
                ++mc::sh->traces;
                if (sc >= 55 && sc <= 70)
                {
                    i.spacecraft = std::to_string(sc);
                    if (!d) mc::fail("refused", "%s", CPLGetLastErrorMsg());
                    else compare(i, nullptr, *d);
                }
            }
    i.channel = "4";
    i.spacecraft = "57";
    // The values of keys that the driver reads
    const char* keys[] = { "satelliteNumber", "scaledValueOfCentralWaveNumber", "scaleFactorOfCentralWaveNumber", "gridDefinitionTemplateNumber", "productDefinitionTemplateNumber",
        "numberOfPointsAlongXAxis", "numberOfPointsAlongYAxis", "dx", "dy", "Xp", "Yp", "Xo", "Yo", "longitudeOfSubSatellitePoint", "year", "month", "day", "hour", "minute", "second", "NB",
        "discipline", "bitsPerValue", "numberOfValues", "indicatorOfTypeOfLevel", "level", "dataRepresentationType", "yearOfCentury", "centuryOfReferenceTimeOfData", "channelNumber",
        "satelliteIdentifier", "localDefinitionNumber" };
    const long vals[] = { 0, 1, 2, 7, 24, 30, 31, 32, 90, 100, 127, 128, 254, 255, 256, 1000, 3608, 3622, 10866, 10867, 32768, 65535, 65536, 1000000, 2147483647L, 4294967295L, -1, -3, -1000 };
    for (int t = 0; t < 3; ++t)
    {
        auto s = i.make();
        if (!copy(*s, templates[t], path)) { mc::fail("refused", "image"); continue; }
        for (const char* k : keys)
            for (long v : vals)
            {
                if (!mc::begin("%s key %s is %ld", templates[t], k, v)) continue;
                string data = edited(path, [&](grib_handle* h) { set(h, k, v); });
                mc::write_file(other, data);
                Handle d = open(other);
                ++mc::sh->traces;
                if (!d) continue;
                if (d->GetRasterXSize() < 1 || d->GetRasterYSize() < 1) { mc::fail("size", "%dx%d", d->GetRasterXSize(), d->GetRasterYSize()); continue; }
                double p[2] = { 0, 0 }, g[6];
                (void)d->GetGeoTransform(g);
                (void)d->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, 1, 1, p, 1, 1, GDT_Float64, 0, 0, nullptr);
                ++mc::sh->nontrivial;
            }
    }
    // What is not an image of a satellite
    int n = 0;
    for (const char* sample : { "GRIB1", "GRIB2", "regular_ll_sfc_grib1", "regular_ll_pl_grib2", "reduced_gg_pl_32_grib1", "sh_ml_grib2", "polar_stereographic_sfc_grib1", "clusters_grib1", "regular_gg_ml_grib2", "rotated_ll_sfc_grib2" })
    {
        if (!mc::begin("sample %s", sample)) continue;
        grib_handle* h = codes_grib_handle_new_from_samples(nullptr, sample);
        if (!h) continue;
        ++n;
        const void* b;
        size_t len;
        codes_get_message(h, &b, &len);
        mc::write_file(other, string((const char*)b, len));
        codes_handle_delete(h);
        if (open(other)) mc::fail("foreign", "%s is opened", sample);
        ++mc::sh->traces;
    }
    mc::sample("%d samples of other GRIB", n);
}

namespace {

/// What ecCodes itself makes of a file
void decode(const string& path)
{
    FILE* in = fopen(path.c_str(), "rb");
    int err = 0;
    grib_handle* h = codes_handle_new_from_file(nullptr, in, PRODUCT_GRIB, &err);
    fclose(in);
    if (!h) return;
    for (const char* k : { "editionNumber", "numberOfPointsAlongXAxis", "numberOfPointsAlongYAxis", "centuryOfReferenceTimeOfData", "yearOfCentury", "year", "month", "day", "hour", "minute", "second",
        "satelliteNumber", "satelliteIdentifier", "indicatorOfTypeOfLevel", "channelNumber", "level", "bitmapPresent", "xCoordinateOfSubSatellitePoint", "Xo", "Yo", "geography.dx" })
    {
        long v = 0;
        codes_get_long(h, k, &v);
    }
    for (const char* k : { "longitudeOfSubSatellitePointInDegrees", "geography.lop", "referenceValue" })
    {
        double v = 0;
        codes_get_double(h, k, &v);
    }
    codes_set_double(h, "missingValue", 0);
    long nx = 0, ny = 0;
    codes_get_long(h, "numberOfPointsAlongXAxis", &nx);
    codes_get_long(h, "numberOfPointsAlongYAxis", &ny);
    size_t n = nx > 0 && ny > 0 && nx * ny < 10000000 ? nx * ny : 1;
    vector<double> v(n);
    codes_get_double_array(h, "values", v.data(), &n);
    codes_handle_delete(h);
}

}

MC_GROUP(bytes)
{
    // Every byte of the messages changed: opened or not, but always in order
    for (int t = 0; t < 3; ++t)
    {
        Image i;
        string path = mc::work + "/file.grib", other = mc::work + "/other.grib";
        i.pixel = [](int x, int y) { return x == 1 ? 0.0 : 200.25 + x + 2 * y; };
        auto s = i.make();
        if (!copy(*s, templates[t], path)) { mc::fail("refused", "image"); continue; }
        string whole = mc::read_file(path);
        const unsigned char few[] = { 0, 1, 2, 3, 4, 5, 15, 31, 64, 90, 127, 128, 192, 254, 255 };
        unsigned n = mc::thorough ? 256 : 15;
        for (unsigned k = 0; k < whole.size(); ++k)
        {
            if (!mc::begin("%s byte %u", templates[t], k)) continue;
            auto change = [&](unsigned v) {
                string data = whole;
                data[k] = mc::thorough ? v : few[v];
                mc::write_file(other, data);
            };
            // 0: in order; 1: size; 2: exception
            auto driver_reads = [&]() {
                Handle d = open(other);
                if (!d) return 0;
                if (d->GetRasterXSize() < 1 || d->GetRasterYSize() < 1) return 1;
                double p[2] = { 0, 0 }, g[6];
                (void)d->GetGeoTransform(g);
                (void)d->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, 1, 1, p, 1, 1, GDT_Float64, 0, 0, nullptr);
                return 0;
            };
            int rc = mc::isolated([&]() {
                for (unsigned v = 0; v < n; ++v)
                {
                    change(v);
                    if (int r = driver_reads()) return r;
                }
                return 0;
            });
            mc::sh->traces += n;
            ++mc::sh->nontrivial;
            if (!rc) continue;
            // What ecCodes itself does not survive is not judged
            for (unsigned v = 0; v < n; ++v)
            {
                change(v);
                string log;
                rc = mc::isolated([&]() { return driver_reads(); }, 20, 40, &log);
                if (!rc) continue;
                if (rc == 1) { mc::fail("size", "value %u: an image without pixels", (unsigned char)(mc::thorough ? v : few[v])); continue; }
                int lib = mc::isolated([&]() { decode(other); return 0; });
                if (!lib) mc::fail("crash", "value %u: %s: %s", (unsigned char)(mc::thorough ? v : few[v]), mc::outcome(rc).c_str(), log.c_str());
            }
        }
    }
    mc::sample("all bytes");
}

MC_GROUP(products)
{
    // Products computed while opening are those of the data set
    for (int t = 0; t < 3; ++t)
        for (int ch = 1; ch <= 12; ++ch)
        {
            Image i;
            i.channel = std::to_string(ch);
            i.hrv = ch == 12;
            i.w = i.h = 4;
            i.x0 = i.y0 = i.centre() - 300;
            string path = mc::work + "/file.grib";
            auto s = i.make();
            if (!mc::begin("%s products of channel %d", templates[t], ch)) continue;
            if (!copy(*s, templates[t], path)) { mc::fail("refused", "image"); continue; }
            for (const char* opt : { "MSAT_COMPUTE=reflectance", "MSAT_COMPUTE=sat_za", "MSAT_COMPUTE=cos_sol_za", "MSAT_COMPUTE=jday", "MSAT_COMPUTE=other", "MSAT_COMPUTE=" })
            {
                Handle d = open(path, opt);
                ++mc::sh->traces;
                string o = opt + 13;
                bool want = o == "reflectance" ? ch <= 3 || ch == 12 : o == "other" || o.empty() ? false : true;
                if (!!d != want) { mc::fail("product", "%s of channel %d is %s", opt, ch, d ? "made" : "refused"); continue; }
                if (!d) { if (CPLGetLastErrorType() != CE_Failure) mc::fail("no error", "%s", opt); continue; }
                ++mc::sh->nontrivial;
                vector<double> v;
                if (!fake::read(d->GetRasterBand(1), 0, 0, 4, 4, v)) { mc::fail("product", "%s of channel %d cannot be read", opt, ch); continue; }
                if (o == "jday") { for (double x : v) if (x != 63) mc::fail("product", "day %g", x); }
                if (o == "sat_za") { for (double x : v) if (!(x > 0.05 && x < 0.5)) mc::fail("product", "angle %g", x); }
                if (o == "cos_sol_za") { for (double x : v) if (!(x > 0.8 && x <= 1)) mc::fail("product", "cosine %g", x); }
                if (o == "reflectance") { for (double x : v) if (!(x > 0 && x <= 100)) mc::fail("product", "reflectance %g", x); }
            }
        }
    mc::sample("products of all channels");
}
