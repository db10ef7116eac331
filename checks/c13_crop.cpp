// C13: each crop, scale and band selection acts on its own image only
//
// Complete enumeration of windows, sizes and band lists of small rasters, and
// of the histories of conversions by one translator and by one msat command,
// where each result has to be that of the image converted alone.
#include "mc.hpp"
#include "enumerate.hpp"
#include "fake.hpp"
#include "synth.hpp"
#include <msat/gdal/dataset.h>
#include <msat/gdal/gdaltranslate.h>
#include "gdal/xrit/xrit.h"
#include <algorithm>
#include <climits>
#include <dirent.h>
#include <fstream>
#include <getopt.h>
#include <iostream>
#include <sstream>

using std::string;
using std::vector;

int msat_tool_main(int argc, char* argv[]);

namespace {

struct Init { Init() { CPLSetErrorHandler(CPLQuietErrorHandler); GDALAllRegister(); GDALRegister_MsatXRIT(); } };
void init() { static Init i; }

struct Raster
{
    std::unique_ptr<fake::Dataset> ds;
    int w, h, bands;
    int base = 1000;                  // of the values of a band
};

/// georef: 0 none, 1 north up, 2 rotated, 3 control points
Raster raster(int w, int h, int bands, unsigned georef = 1, GDALDataType type = GDT_Int32)
{
    Raster r;
    r.w = w; r.h = h; r.bands = bands;
    if (type == GDT_Byte) r.base = 50;
    int base = r.base;
    r.ds.reset(new fake::Dataset(w, h));
    OGRSpatialReference o;
    msat::dataset::set_spaceview(o, 9.5);
    if (georef && georef < 3) r.ds->set_srs(o);
    if (georef == 1) r.ds->set_gt(-100, 3, 0, 200, 0, -2);
    if (georef == 2) r.ds->set_gt(-100, 3, 0.5, 200, -0.25, -2);
    if (georef == 3) { r.ds->gcp_srs = o; r.ds->has_gcp_srs = true; r.ds->add_gcp(0, 0, 1, 2); r.ds->add_gcp(w, h / 2.0, 3, 4); r.ds->add_gcp(1.5, h, 5, 6); }
    r.ds->SetMetadataItem("MSAT_DATETIME", "2009-11-11 11:30:00");
    r.ds->SetMetadataItem("MSAT_SPACECRAFTID", "55");
    r.ds->SetMetadataItem("LINE_OFF", "1", "RPC");
    for (int b = 0; b < bands; ++b)
    {
        fake::Band* x = r.ds->add(type, w, 1);
        x->pixel = [=](int px, int py) { return b * base + py * w + px; };
        x->SetDescription(mc::fmt("IR_%d", b).c_str());
        x->SetMetadataItem("MSAT_CHANNELID", mc::fmt("%d", b + 4).c_str());
        x->unit = mc::fmt("u%d", b);
        x->scale = 2 + b;
        x->offset = -b;
        x->has_nodata = b != 1;
        x->nodata = b * 10;
    }
    return r;
}

/// Closes what translate() returned, if it is not the source
struct Closer
{
    GDALDataset* v;
    GDALDataset* src;
    ~Closer() { if (v && v != src) GDALClose(v); }
};

/// What is seen of a data set
string fingerprint(GDALDataset* v)
{
    if (!v) return "none";
    string s = mc::fmt("%dx%d %d bands\n", v->GetRasterXSize(), v->GetRasterYSize(), v->GetRasterCount());
    double gt[6];
    if (v->GetGeoTransform(gt) == CE_None) for (double d : gt) s += mc::fmt("%.12g ", d);
    s += string("\n") + v->GetProjectionRef() + "\n";
    for (int i = 0; i < v->GetGCPCount(); ++i)
    {
        auto& g = v->GetGCPs()[i];
        s += mc::fmt("%g %g %g %g %g\n", g.dfGCPPixel, g.dfGCPLine, g.dfGCPX, g.dfGCPY, g.dfGCPZ);
    }
    if (v->GetGCPCount()) s += v->GetGCPProjection();
    auto md = [&](GDALMajorObject* o, const char* d) { vector<string> l; for (char** m = o->GetMetadata(d); m && *m; ++m) l.push_back(*m); std::sort(l.begin(), l.end()); for (auto& i : l) s += i + "|"; s += "\n"; };
    md(v, "");
    md(v, "RPC");
    for (int i = 1; i <= v->GetRasterCount(); ++i)
    {
        GDALRasterBand* b = v->GetRasterBand(i);
        int nd = 0;
        double n = b->GetNoDataValue(&nd);
        s += mc::fmt("%s %s %g %g %s %d %g %d\n", b->GetDescription(), GDALGetDataTypeName(b->GetRasterDataType()), b->GetScale(), b->GetOffset(), b->GetUnitType(), nd, nd ? n : 0, b->GetColorInterpretation());
        md(b, "");
        vector<double> d;
        if (!fake::read(b, 0, 0, b->GetXSize(), b->GetYSize(), d)) s += "unreadable";
        for (double x : d) s += mc::fmt("%g ", x);
        s += "\n";
    }
    return s;
}

/// Compare with what a window of a raster is
/// (copied: by GDAL, which leaves units behind and rewrites projections, and 2: to GeoTIFF, with one no data value)
void check_window(GDALDataset* v, const Raster& r, int x, int y, int w, int h, int ow, int oh, const vector<int>& bands, const string& what, int copied = 0)
{
    if (v->GetRasterXSize() != ow || v->GetRasterYSize() != oh) { mc::fail("size", "%s: %dx%d and not %dx%d", what.c_str(), v->GetRasterXSize(), v->GetRasterYSize(), ow, oh); return; }
    if (v->GetRasterCount() != (int)bands.size()) { mc::fail("bands", "%s: %d bands and not %zu", what.c_str(), v->GetRasterCount(), bands.size()); return; }
    double gt[6];
    CPLErr e = v->GetGeoTransform(gt);
    if ((e == CE_None) != r.ds->has_gt) mc::fail("geotransform", "%s: with a geotransform: %d", what.c_str(), e == CE_None);
    else if (r.ds->has_gt)
        for (int c = 0; c < 4; ++c)
        {
            // The corners have the coordinates they have in the source
            double px = c & 1 ? ow : 0, py = c & 2 ? oh : 0, sx = x + (c & 1 ? w : 0), sy = y + (c & 2 ? h : 0), *g = r.ds->gt;
            double vx = gt[0] + gt[1] * px + gt[2] * py, vy = gt[3] + gt[4] * px + gt[5] * py, wx = g[0] + g[1] * sx + g[2] * sy, wy = g[3] + g[4] * sx + g[5] * sy;
            if (std::abs(vx - wx) > 1e-9 || std::abs(vy - wy) > 1e-9) { mc::fail("geotransform", "%s: corner %d is at %g,%g and not %g,%g", what.c_str(), c, vx, vy, wx, wy); break; }
        }
    const OGRSpatialReference* o = v->GetSpatialRef();
    if (!o != !r.ds->has_srs || (o && !copied && !o->IsSame(&r.ds->srs))) mc::fail("projection", "%s: projection", what.c_str());
    if (v->GetGCPCount() != r.ds->GetGCPCount()) mc::fail("control points", "%s: %d control points", what.c_str(), v->GetGCPCount());
    else for (int i = 0; i < v->GetGCPCount(); ++i)
    {
        const GDAL_GCP &a = v->GetGCPs()[i], &b = r.ds->gcps[i];
        if (std::abs(a.dfGCPPixel - (b.dfGCPPixel - x) * ow / w) > 1e-9 || std::abs(a.dfGCPLine - (b.dfGCPLine - y) * oh / h) > 1e-9 || a.dfGCPX != b.dfGCPX || a.dfGCPY != b.dfGCPY)
            mc::fail("control points", "%s: control point %d at %g,%g", what.c_str(), i, a.dfGCPPixel, a.dfGCPLine);
    }
    for (const char* k : { "MSAT_DATETIME", "MSAT_SPACECRAFTID" })
        if (!v->GetMetadataItem(k) || string(v->GetMetadataItem(k)) != r.ds->GetMetadataItem(k)) mc::fail("metadata", "%s: %s lost", what.c_str(), k);
    for (unsigned i = 0; i < bands.size(); ++i)
    {
        GDALRasterBand *b = v->GetRasterBand(i + 1), *s = r.ds->GetRasterBand(bands[i]);
        int n1 = 0, n2 = 0;
        double d1 = b->GetNoDataValue(&n1), d2 = s->GetNoDataValue(&n2);
        if (b->GetRasterDataType() != s->GetRasterDataType() || b->GetScale() != s->GetScale() || b->GetOffset() != s->GetOffset() || (!copied && string(b->GetUnitType()) != s->GetUnitType()) || (copied < 2 && (n1 != n2 || (n1 && d1 != d2))))
            mc::fail("band information", "%s: type, scale, offset, unit or no data value of band %u", what.c_str(), i + 1);
        if (string(b->GetDescription()) != s->GetDescription() || !b->GetMetadataItem("MSAT_CHANNELID") || string(b->GetMetadataItem("MSAT_CHANNELID")) != s->GetMetadataItem("MSAT_CHANNELID")) mc::fail("band metadata", "%s: description and metadata of band %u", what.c_str(), i + 1);
        vector<double> d;
        if (!fake::read(b, 0, 0, ow, oh, d)) { mc::fail("read", "%s: band %u cannot be read", what.c_str(), i + 1); continue; }
        for (int p = 0; p < ow * oh; ++p)
        {
            double px = p % ow, py = p / ow;
            int val = (int)d[p] - (bands[i] - 1) * r.base, sx = val % r.w, sy = val / r.w;
            // The nearest pixel of the source is one that its area touches
            double x0 = x + px * w / ow, x1 = x + (px + 1) * w / ow, y0 = y + py * h / oh, y1 = y + (py + 1) * h / oh;
            bool ok = val >= 0 && val < r.w * r.h && sx >= x && sx < x + w && sy >= y && sy < y + h && sx < x1 + 1e-6 && sx + 1 > x0 - 1e-6 && sy < y1 + 1e-6 && sy + 1 > y0 - 1e-6;
            if (ow == w && oh == h) ok = sx == x + px && sy == y + py;
            if (!ok) { mc::fail("pixel", "%s: pixel %g,%g of band %u is that at %d,%d", what.c_str(), px, py, i + 1, sx, sy); break; }
        }
    }
}

vector<int> all_bands(int n) { vector<int> r; for (int i = 1; i <= n; ++i) r.push_back(i); return r; }

}

MC_GROUP(windows)
{
    init();
    const int W = 5, H = 4;
    for (unsigned georef = 0; georef < 4; ++georef)
    {
        Raster r = raster(W, H, 2, georef);
        for (int x = -2; x <= W + 1; ++x)
            for (int y = -2; y <= H + 1; ++y)
            {
                if (!mc::begin("georeference %u windows at %d,%d", georef, x, y)) continue;
                for (int w = -2; w <= W + 2; ++w)
                    for (int h = -2; h <= H + 2; ++h)
                    {
                        GDALTranslate t;
                        t.anSrcWin[0] = x; t.anSrcWin[1] = y; t.anSrcWin[2] = w; t.anSrcWin[3] = h;
                        GDALDataset* v = t.translate(r.ds.get());
                        Closer c{ v, r.ds.get() };
                        int ew = w, eh = h;
                        if (!w && !h) { ew = W; eh = H; }
                        bool ok = x >= 0 && y >= 0 && ew > 0 && eh > 0 && x + ew <= W && y + eh <= H;
                        if (!!v != ok) mc::fail("window", "window %d,%d %dx%d is %s", x, y, w, h, v ? "accepted" : "refused");
                        else if (ok) check_window(v, r, x, y, ew, eh, ew, eh, all_bands(2), mc::fmt("window %d,%d %dx%d", x, y, w, h));
                        mc::count(ok);
                    }
            }
    }
    Raster r = raster(W, H, 1);
    const int far[] = { INT_MIN, -1, 0, 1, 4, INT_MAX - 1, INT_MAX };
    mc::all_sequences(4, 7, [&](const vector<unsigned>& q) {
        if (!mc::begin("window %d %d %d %d", far[q[0]], far[q[1]], far[q[2]], far[q[3]])) return;
        GDALTranslate t;
        for (int i = 0; i < 4; ++i) t.anSrcWin[i] = far[q[i]];
        GDALDataset* v = t.translate(r.ds.get());
        Closer c{ v, r.ds.get() };
        long x = far[q[0]], y = far[q[1]], w = far[q[2]], h = far[q[3]];
        if (!w && !h) { w = W; h = H; }
        bool ok = x >= 0 && y >= 0 && w > 0 && h > 0 && x + w <= W && y + h <= H;
        if (!!v != ok) mc::fail("window", "window %ld,%ld %ldx%ld is %s", x, y, w, h, v ? "accepted" : "refused");
        mc::count(ok);
    });
    mc::sample("window 1,1 3x2 of a 5x4 image: pixels 6 7 8 11 12 13");
}

MC_GROUP(sizes)
{
    init();
    const int W = 6, H = 4;
    const char* sizes[] = { "1", "2", "3", "4", "6", "7", "12", "18", "50%", "100%", "150%", "200%", "300%", "0", "-2", "", "x", "0%", "-50%", "1%", "99999999999", "1e99%", "%" };
    const int good = 13;
    Raster rs[] = { raster(W, H, 1), raster(W, H, 2, 2), raster(W, H, 1, 3) };
    for (auto& r : rs)
        for (int x = 0; x < W; x += 2)
            for (int y = 0; y < H; ++y)
                for (int w = 1; x + w <= W; ++w)
                    for (int h = 1; y + h <= H; ++h)
                    {
                        if (!mc::thorough && (x + y + w + h) % 2) continue;
                        if (!mc::begin("raster %zd sizes of window %d,%d %dx%d", &r - rs, x, y, w, h)) continue;
                        for (const char* sx : sizes)
                            for (const char* sy : sizes)
                            {
                                GDALTranslate t;
                                t.anSrcWin[0] = x; t.anSrcWin[1] = y; t.anSrcWin[2] = w; t.anSrcWin[3] = h;
                                t.pszOXSize = sx;
                                t.pszOYSize = sy;
                                GDALDataset* v = t.translate(r.ds.get());
                                Closer c{ v, r.ds.get() };
                                auto size = [](const char* s, int n) { double d = atof(s); if (strchr(s, '%')) d = d * n / 100; return d >= 1 && d < 1e6 ? (int)(d + 1e-9) : 0; };
                                int ow = size(sx, w), oh = size(sy, h);
                                bool ok = ow > 0 && oh > 0;
                                if (!!v != ok) mc::fail("size", "size %s,%s of %dx%d is %s", sx, sy, w, h, v ? "accepted" : "refused");
                                else if (ok) check_window(v, r, x, y, w, h, ow, oh, all_bands(r.bands), mc::fmt("window %d,%d %dx%d in %s,%s", x, y, w, h, sx, sy));
                                mc::count(ok);
                            }
                    }
    (void)good;
    if (mc::begin("one size only"))
    {
        for (int k = 0; k < 2; ++k)
        {
            GDALTranslate t;
            (k ? t.pszOXSize : t.pszOYSize) = "3";
            GDALDataset* v = t.translate(rs[0].ds.get());
            Closer c{ v, rs[0].ds.get() };
            // Refused, or ignored: not a crash
            if (v && fingerprint(v).empty()) mc::fail("size", "one size only");
        }
        mc::count();
    }
}

MC_GROUP(bands)
{
    init();
    for (int n = 1; n <= 3; ++n)
    {
        Raster r = raster(3, 2, n);
        for (unsigned len = 0; len <= (mc::thorough ? 4 : 3); ++len)
            mc::all_sequences(len, 6, [&](const vector<unsigned>& q) {
                string name;
                vector<int> l;
                bool ok = true;
                for (unsigned i : q) { l.push_back((int)i - 1); name += mc::fmt(" %d", l.back()); if (l.back() < 1 || l.back() > n) ok = false; }
                if (!mc::begin("%d bands, list%s", n, name.c_str())) return;
                for (int def = 0; def < 2; ++def)
                    for (int crop = 0; crop < 2; ++crop)
                    {
                        GDALTranslate t;
                        t.nBandCount = len;
                        if (len)
                        {
                            t.panBandList = (int*)CPLMalloc(len * sizeof(int));
                            for (unsigned i = 0; i < len; ++i) t.panBandList[i] = l[i];
                        }
                        t.bDefBands = def;
                        if (crop) { t.anSrcWin[0] = 1; t.anSrcWin[2] = 2; t.anSrcWin[3] = 2; }
                        GDALDataset* v = t.translate(r.ds.get());
                        Closer c{ v, r.ds.get() };
                        if (!!v != ok) mc::fail("band list", "list%s of %d bands is %s", name.c_str(), n, v ? "accepted" : "refused");
                        else if (ok) check_window(v, r, crop, 0, 3 - crop, 2, 3 - crop, 2, len ? l : all_bands(n), mc::fmt("list%s of %d bands", name.c_str(), n));
                        mc::count(ok);
                    }
            });
    }
    if (mc::begin("no bands"))
    {
        fake::Dataset ds(3, 2);
        GDALTranslate t;
        if (t.translate(&ds)) mc::fail("band list", "a data set without bands is translated");
        mc::count();
    }
}

MC_GROUP(projected)
{
    init();
    const int W = 5, H = 4;
    Raster r = raster(W, H, 1), none = raster(W, H, 1, 0), rot = raster(W, H, 1, 2);
    const double frac[] = { 0, 0.0005, 0.3, 0.75, 0.9995 };
    for (int x = -2; x <= W; ++x)
        for (int y = -2; y <= H; ++y)
        {
            if (!mc::begin("projected windows at %d,%d", x, y)) continue;
            for (double fx : frac)
                for (double fy : frac)
                    for (int w = -1; w <= W + 1; ++w)
                        for (int h = -1; h <= H + 1; ++h)
                        {
                            GDALTranslate t;
                            auto& g = r.ds->gt;
                            t.dfULX = g[0] + (x + fx) * g[1];
                            t.dfULY = g[3] + (y + fy) * g[5];
                            t.dfLRX = g[0] + (x + fx + w) * g[1];
                            t.dfLRY = g[3] + (y + fy + h) * g[5];
                            GDALDataset* v = t.translate(r.ds.get());
                            Closer c{ v, r.ds.get() };
                            // Up to a thousandth of a pixel is rounding
                            int ex = x + (fx > 0.999), ey = y + (fy > 0.999);
                            bool ok = ex >= 0 && ey >= 0 && w > 0 && h > 0 && ex + w <= W && ey + h <= H;
                            if (!!v != ok) mc::fail("projected window", "window at %g,%g of %dx%d is %s", x + fx, y + fy, w, h, v ? "accepted" : "refused");
                            else if (ok) check_window(v, r, ex, ey, w, h, w, h, all_bands(1), mc::fmt("projected window %g,%g %dx%d", x + fx, y + fy, w, h));
                            mc::count(ok);
                        }
        }
    for (double v : { 1e300, -1e300, 1e12, (double)INFINITY, (double)NAN })
        for (int k = 0; k < 4; ++k)
        {
            if (!mc::begin("projected window with %g at %d", v, k)) continue;
            GDALTranslate t;
            t.dfULX = -97; t.dfULY = 198; t.dfLRX = -91; t.dfLRY = 194;
            *(k == 0 ? &t.dfULX : k == 1 ? &t.dfULY : k == 2 ? &t.dfLRX : &t.dfLRY) = v;
            if (t.translate(r.ds.get())) mc::fail("projected window", "coordinate %g is accepted", v);
            mc::count();
        }
    for (auto* s : { &none, &rot })
    {
        if (!mc::begin("projected window without a usable geotransform")) continue;
        GDALTranslate t;
        t.dfULX = -97; t.dfULY = 198; t.dfLRX = -91; t.dfLRY = 194;
        if (t.translate(s->ds.get())) mc::fail("projected window", "accepted without a usable geotransform");
        mc::count();
    }
}

namespace {

/// Everything that can be asked for, in a few combinations
const unsigned NSET = 16;
void setup(GDALTranslate& t, unsigned k)
{
    switch (k)
    {
        case 0: break;
        case 1: t.anSrcWin[0] = 1; t.anSrcWin[1] = 1; t.anSrcWin[2] = 2; t.anSrcWin[3] = 2; break;
        case 2: t.pszOXSize = "50%"; t.pszOYSize = "200%"; break;
        case 3: t.nBandCount = 1; t.panBandList = (int*)CPLMalloc(4); t.panBandList[0] = 2; break;
        case 4: t.papszMetadataOptions = CSLAddString(CSLAddString(nullptr, "A=1"), "MSAT_DATETIME=2010-01-02 03:04:05"); break;
        case 5: t.bScale = TRUE; break;
        case 6: t.bScale = TRUE; t.bHaveScaleSrc = TRUE; t.dfScaleSrcMin = t.dfScaleSrcMax = 3; t.dfScaleDstMin = t.dfScaleDstMax = 9; break;
        case 7: t.nRGBExpand = 3; break;
        case 8:
            t.nGCPCount = 2;
            t.pasGCPs = (GDAL_GCP*)CPLMalloc(2 * sizeof(GDAL_GCP));
            GDALInitGCPs(2, t.pasGCPs);
            t.pasGCPs[1].dfGCPPixel = 3;
            t.pasGCPs[1].dfGCPX = 7;
            break;
        case 9: t.bSetNoData = TRUE; t.dfNoDataReal = 5; t.eOutputType = GDT_Float64; break;
        case 10: t.bGotBounds = TRUE; t.adfULLR[0] = 1; t.adfULLR[1] = 9; t.adfULLR[2] = 4; t.adfULLR[3] = 2; break;
        case 11: { static char srs[] = "EPSG:4326"; t.pszOutputSRS = srs; break; }
        case 12: t.dfULX = -100; t.dfULY = 200; t.dfLRX = -94; t.dfLRY = 196; break;
        case 13: t.bScale = TRUE; t.nBandCount = 2; t.panBandList = (int*)CPLMalloc(8); t.panBandList[0] = 2; t.panBandList[1] = 1; t.bDefBands = FALSE; break;
        case 14: t.nRGBExpand = 4; t.nBandCount = 2; t.panBandList = (int*)CPLMalloc(8); t.panBandList[0] = 1; t.panBandList[1] = 2; break;
        case 15: t.eOutputType = GDT_Byte; t.anSrcWin[2] = 3; t.anSrcWin[3] = 2; t.pszOXSize = "6"; t.pszOYSize = "4"; break;
    }
}

const unsigned NDS = 6;
Raster image(unsigned k)
{
    Raster r = k == 0 ? raster(5, 4, 2) : k == 1 ? raster(3, 2, 1) : k == 2 ? raster(6, 6, 3, 3) : k == 3 ? raster(4, 3, 2, 2, GDT_Float32) : k == 4 ? raster(4, 4, 2, 1, GDT_Byte) : raster(2, 2, 1, 0);
    if (k == 4)
    {
        auto* b = r.ds->band(1);
        b->table.reset(new GDALColorTable);
        for (short i = 0; i < 20; ++i) { GDALColorEntry e = { i, (short)(2 * i), (short)(3 * i), 255 }; b->table->SetColorEntry(i, &e); }
        b->interp = GCI_PaletteIndex;
    }
    // One whose range cannot be computed
    if (k == 5) r.ds->band(1)->bad.insert({ 0, 1 });
    return r;
}

}

// One translator, used for several images
MC_GROUP(translator)
{
    init();
    for (unsigned k = 0; k < NSET; ++k)
    {
        vector<string> alone(NDS);
        vector<Raster> im;
        for (unsigned i = 0; i < NDS; ++i)
        {
            im.push_back(image(i));
            GDALTranslate t;
            setup(t, k);
            GDALDataset* v = t.translate(im[i].ds.get());
            Closer c{ v, im[i].ds.get() };
            alone[i] = fingerprint(v);
        }
        if (mc::begin("setting %u of images alone", k))
        {
            // The ones that can be stated are checked here
            for (unsigned i = 0; i < NDS; ++i)
            {
                GDALTranslate t;
                setup(t, k);
                GDALDataset* v = t.translate(im[i].ds.get());
                Closer c{ v, im[i].ds.get() };
                string what = mc::fmt("setting %u of image %u", k, i);
                const Raster& r = im[i];
                bool readable = i != 5;
                switch (k)
                {
                    case 0: if (v != r.ds.get()) mc::fail("unchanged", "%s: not the data set itself", what.c_str()); break;
                    case 1: if (!!v != (r.w >= 3 && r.h >= 3)) mc::fail("window", "%s", what.c_str()); else if (v) check_window(v, r, 1, 1, 2, 2, 2, 2, all_bands(r.bands), what); break;
                    case 2: if (!v) mc::fail("size", "%s", what.c_str()); else if (readable) check_window(v, r, 0, 0, r.w, r.h, r.w / 2, r.h * 2, all_bands(r.bands), what); break;
                    case 3: if (!!v != (r.bands >= 2)) mc::fail("band list", "%s", what.c_str()); else if (v) check_window(v, r, 0, 0, r.w, r.h, r.w, r.h, { 2 }, what); break;
                    case 4: if (!v || !v->GetMetadataItem("A") || string(v->GetMetadataItem("MSAT_DATETIME")) != "2010-01-02 03:04:05" || string(r.ds->GetMetadataItem("MSAT_DATETIME")) != "2009-11-11 11:30:00") mc::fail("metadata", "%s", what.c_str()); break;
                    // There is nothing to scale an unreadable band with
                    case 5: if (!!v != readable) mc::fail("scale", "%s: %s", what.c_str(), v ? "accepted" : "refused"); break;
                    case 7: if (!!v != (i == 4)) mc::fail("expansion", "%s", what.c_str()); break;
                    case 8: if (!v || v->GetGCPCount() != 2) mc::fail("control points", "%s", what.c_str()); break;
                    case 9: if (!v || v->GetRasterBand(1)->GetNoDataValue() != 5 || v->GetRasterBand(1)->GetRasterDataType() != GDT_Float64) mc::fail("no data", "%s", what.c_str()); break;
                    case 10: { double g[6]; if (!v || v->GetGeoTransform(g) != CE_None || g[0] != 1 || g[3] != 9 || g[1] != 3.0 / r.w || g[5] != -7.0 / r.h) mc::fail("geotransform", "%s", what.c_str()); break; }
                    case 14:
                        if (!!v != (i == 4)) mc::fail("expansion", "%s", what.c_str());
                        else if (v)
                        {
                            if (v->GetRasterCount() != 5) { mc::fail("expansion", "%s: %d bands", what.c_str(), v->GetRasterCount()); break; }
                            for (int b = 1; b <= 5; ++b)
                            {
                                vector<double> d, s;
                                fake::read(r.ds->GetRasterBand(b == 5 ? 2 : 1), 0, 0, r.w, r.h, s);
                                if (!fake::read(v->GetRasterBand(b), 0, 0, r.w, r.h, d)) mc::fail("expansion", "%s: read", what.c_str());
                                for (int p = 0; p < r.w * r.h; ++p)
                                    if (d[p] != (b == 5 ? s[p] : b == 4 ? 255 : s[p] * b)) { mc::fail("expansion", "%s: band %d pixel %d is %g", what.c_str(), b, p, d[p]); break; }
                            }
                        }
                        break;
                }
            }
            mc::count();
        }
        for (unsigned depth = 2; depth <= (mc::thorough ? 4 : 3); ++depth)
            mc::all_sequences(depth, NDS, [&](const vector<unsigned>& q) {
                string name;
                for (unsigned i : q) name += mc::fmt(" %u", i);
                if (!mc::begin("setting %u of images%s", k, name.c_str())) return;
                GDALTranslate t;
                setup(t, k);
                unsigned n = 0;
                for (unsigned i : q)
                {
                    GDALDataset* v = t.translate(im[i].ds.get());
                    Closer c{ v, im[i].ds.get() };
                    ++mc::sh->transitions;
                    if (++n < q.size()) continue;
                    string f = fingerprint(v);
                    if (f != alone[i]) mc::fail("history", "setting %u after images%s: %s\nand not %s", k, name.c_str(), f.substr(0, 300).c_str(), alone[i].substr(0, 300).c_str());
                }
                ++mc::sh->traces;
                mc::count();
            });
        mc::sh->states += NDS;
    }
}

MC_GROUP(recode)
{
    init();
    using msat::proj::ImageBox;
    using msat::proj::ImagePoint;
    const int W = 5, H = 4;
    Raster r = raster(W, H, 2);
    GDALDriver* mem = GetGDALDriverManager()->GetDriverByName("MEM");
    for (int x = -1; x <= W; ++x)
        for (int y = -1; y <= H; ++y)
            for (int w = -1; w <= W + 1; ++w)
                for (int h = -1; h <= H + 1; ++h)
                {
                    if (!w && !h) continue;
                    if (!mc::begin("recode window %d,%d %dx%d", x, y, w, h)) continue;
                    bool ok = x >= 0 && y >= 0 && w > 0 && h > 0 && x + w <= W && y + h <= H;
                    ImageBox box(ImagePoint(x, y), ImagePoint(x + w, y + h));
                    auto one = [&](GDALDataset* v, int ow, int oh, const char* what) {
                        if (!!v != ok) mc::fail("recode", "%s of window %d,%d %dx%d is %s", what, x, y, w, h, v ? "accepted" : "refused");
                        else if (ok) check_window(v, r, x, y, w, h, ow, oh, all_bands(2), mc::fmt("%s of window %d,%d %dx%d", what, x, y, w, h), 1);
                        if (v) GDALClose(v);
                        mc::count(ok);
                    };
                    one(msat::dataset::recode(r.ds.get(), box, "", mem), w, h, "recode");
                    for (int ow = 1; ow <= 7; ow += 2)
                        for (int oh = 1; oh <= 8; oh += mc::thorough ? 1 : 3)
                            one(msat::dataset::recode(r.ds.get(), box, ow, oh, "", mem), ow, oh, "recode with size");
                }
    for (int ow = 1; ow <= 12; ++ow)
        for (int oh = 1; oh <= 12; ++oh)
        {
            if (!mc::begin("recode size %d %d", ow, oh)) continue;
            GDALDataset* v = msat::dataset::recode(r.ds.get(), ow, oh, "", mem);
            if (!v) mc::fail("recode", "size %d %d", ow, oh);
            else { check_window(v, r, 0, 0, W, H, ow, oh, all_bands(2), mc::fmt("recode to %dx%d", ow, oh), 1); GDALClose(v); }
            mc::count();
        }
    // With options, to a file
    if (mc::begin("recode to GeoTIFF"))
    {
        GDALDriver* tiff = GetGDALDriverManager()->GetDriverByName("GTiff");
        string path = mc::work + "/r.tif";
        GDALDataset* v = msat::dataset::recode(r.ds.get(), ImageBox(ImagePoint(1, 0), ImagePoint(4, 4)), path, tiff, "TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=32");
        if (!v) mc::fail("recode", "GeoTIFF");
        else
        {
            GDALClose(v);
            v = (GDALDataset*)GDALOpen(path.c_str(), GA_ReadOnly);
            int bx = 0, by = 0;
            if (!v) mc::fail("recode", "GeoTIFF not written");
            else { v->GetRasterBand(1)->GetBlockSize(&bx, &by); if (bx != 16 || by != 32) mc::fail("recode", "options are not used"); check_window(v, r, 1, 0, 3, 4, 3, 4, all_bands(2), "GeoTIFF", 2); GDALClose(v); }
        }
        mc::count();
    }
}

// ------------------------------------------------------------------ msat

namespace {

struct File { string path; int w, h, bands; };
vector<File> files;

/// Images of the command: GeoTIFF and xRIT files
void make_files()
{
    init();
    if (!files.empty()) return;
    GDALDriver* tiff = GetGDALDriverManager()->GetDriverByName("GTiff");
    const int dims[][3] = { { 40, 30, 2 }, { 24, 36, 1 }, { 30, 30, 3 }, { 10, 8, 1 } };
    for (unsigned i = 0; i < 4; ++i)
    {
        int w = dims[i][0], h = dims[i][1], n = dims[i][2];
        fake::Dataset ds(w, h);
        OGRSpatialReference o;
        o.SetWellKnownGeogCS("WGS84");
        ds.set_srs(o);
        ds.set_gt(i, 0.5, 0, 50 + i, 0, -0.5);
        // Each has its own name
        ds.SetMetadataItem("MSAT_DATETIME", mc::fmt("2009-11-11 11:3%u:00", i).c_str());
        ds.SetMetadataItem("MSAT_SPACECRAFTID", "55");
        ds.SetMetadataItem("MSAT_SPACECRAFT", "MSG1");
        for (int b = 0; b < n; ++b)
        {
            fake::Band* x = ds.add(i == 2 && b == 1 ? GDT_Byte : GDT_UInt16);
            x->pixel = [=](int px, int py) { return b == 1 && i == 2 ? (px + py * 3) % 256 : (py * w + px + b * 3000 + 1); };
            x->SetDescription(mc::fmt("%s", b == (i == 1 ? 1 : 0) ? "IR_108" : b == 2 ? "2" : "VIS006").c_str());
            if (i == 1) x->SetDescription("WV_062");
            x->SetMetadataItem("MSAT_CHANNELID", mc::fmt("%d", b + 1).c_str());
            x->SetMetadataItem("MSAT_CHANNEL", mc::fmt("C%d", b + 1).c_str());
            x->scale = 0.5;
            x->offset = -4;
        }
        File f{ mc::work + mc::fmt("/in%u.tif", i), w, h, n };
        CPLStringList opt;
        // Compressed sources would be rewritten by metadata changes
        GDALClose(tiff->CreateCopy(f.path.c_str(), &ds, FALSE, opt.List(), nullptr, nullptr));
        files.push_back(f);
    }
}

string listing(const string& dir)
{
    string s;
    vector<string> names;
    if (DIR* d = opendir(dir.c_str()))
    {
        while (dirent* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
        closedir(d);
    }
    std::sort(names.begin(), names.end());
    for (auto& n : names) s += n + "\n";
    return s;
}

struct Run
{
    int rc = -1;
    string out;                       // what is printed
    std::map<string, string> made;    // files that are made
};

/// Run msat in a process and a directory of its own
Run run_msat(const vector<string>& args)
{
    string dir = mc::work + "/out";
    mc::clean(dir);
    mc::make_dirs(dir);
    Run r;
    string log;
    r.rc = mc::isolated([&] {
        if (chdir(dir.c_str())) return 90;
        std::ofstream o(dir + "/.stdout");
        std::cout.rdbuf(o.rdbuf());
        vector<string> a = args;
        a.insert(a.begin(), "msat");
        vector<char*> p;
        for (auto& s : a) p.push_back(&s[0]);
        p.push_back(nullptr);
        optind = 0;
        int rc = msat_tool_main(a.size(), p.data());
        o.flush();
        // As when the program ends
        return rc;
    }, 60, 120, &log);
    r.out = mc::read_file(dir + "/.stdout");
    std::istringstream l(listing(dir));
    string n;
    while (std::getline(l, n)) r.made[n] = mc::read_file(dir + "/" + n);
    return r;
}

struct Command { const char* name; vector<string> args; };
const Command commands[] = {
    { "convert", { "--conv=GTiff" } },
    { "area", { "--conv=GTiff", "--area=3,6,2,5" } },
    { "large area", { "--conv=GTiff", "--area=12,10,9,20" } },
    { "resize", { "--conv=GTiff", "--resize=10,20" } },
    { "resize by part", { "--conv=GTiff", "--resize=50%,200%" } },
    { "area and resize", { "--conv=GTiff", "--area=3,6,2,5", "--resize=200%,9" } },
    { "band 1", { "--conv=GTiff", "--band=1" } },
    { "band 2 and 1", { "--conv=GTiff", "--band=2", "-b", "1" } },
    { "band by name", { "--conv=GTiff", "-b", "VIS006" } },
    { "band names", { "--conv=GTiff", "-b", "WV_062", "-b", "IR_108" } },
    { "band called 2", { "--conv=GTiff", "-b", "!2" } },
    { "calibrated", { "--conv=GTiff", "--force-calibration" } },
    { "calibrated band and area", { "--conv=GTiff", "--force-calibration", "-b", "1", "--area=1,4,2,4" } },
    { "Area", { "--conv=GTiff", "--Area=44,47,4,7" } },
    { "around", { "--conv=GTiff", "--around=47,5,2,3" } },
    { "metadata", { "--conv=GTiff", "--copymd=@0" } },
    { "metadata and area", { "--conv=GTiff", "--copymd=@0", "--area=1,5,1,5" } },
    { "no metadata", { "--conv=GTiff", "--copymd=/nonexistent" } },
    { "view", { "--view" } },
    { "view more", { "--viewmore", "--area=1,5,1,5" } },
    { "png", { "--png" } },
    { "png area", { "--png", "--area=1,5,1,5" } },
    { "png stretch", { "--png", "--stretch=10:200" } },
    { "resize wrong", { "--conv=GTiff", "--resize=,5" } },
    { "resize to nothing", { "--conv=GTiff", "--resize=0,5" } },
    { "large band", { "--conv=GTiff", "-b", "4294967297" } },
    { "negative band", { "--conv=GTiff", "-b", "-1" } },
};
const unsigned NCMD = sizeof(commands) / sizeof(commands[0]);

/// What msat has to do with an image, for the commands that are stated here
void check_alone(const Command& c, const File& f, const Run& r)
{
    string what = mc::fmt("%s of %s", c.name, f.path.substr(f.path.rfind('/') + 1).c_str());
    if (r.rc > 1) { mc::fail("crash", "%s: %s", what.c_str(), mc::outcome(r.rc).c_str()); return; }
    string n = c.name;
    int x = 0, y = 0, w = f.w, h = f.h, ow, oh;
    vector<int> bands = all_bands(f.bands);
    bool cal = n.find("calibrated") == 0, ok = true, skip = false;
    std::unique_ptr<GDALDataset> src((GDALDataset*)GDALOpen(f.path.c_str(), GA_ReadOnly));
    auto by_name = [&](const vector<string>& names) {
        bands.clear();
        for (auto& s : names) for (int i = 1; i <= f.bands; ++i) if (src->GetRasterBand(i)->GetDescription() == s) { bands.push_back(i); break; }
        skip = bands.empty();
    };
    if (n == "area" || n == "area and resize") { x = 3; w = 6; y = 2; h = 5; }
    else if (n == "large area") { x = 12; w = 10; y = 9; h = 20; }
    else if (n == "metadata and area" || n == "png area") { x = 1; w = 5; y = 1; h = 5; }
    else if (n == "calibrated band and area") { x = 1; w = 4; y = 2; h = 4; bands = { 1 }; }
    else if (n == "band 1") bands = { 1 };
    else if (n == "band 2 and 1") { bands = { 2, 1 }; ok = f.bands >= 2; }
    else if (n == "band by name") by_name({ "VIS006" });
    else if (n == "band names") by_name({ "WV_062", "IR_108" });
    else if (n == "band called 2") by_name({ "2" });
    else if (n == "Area" || n == "around")
    {
        double g[6];
        src->GetGeoTransform(g);
        double la = n == "Area" ? 44 : 46, lb = n == "Area" ? 47 : 48, oa = n == "Area" ? 4 : 3.5, ob = n == "Area" ? 7 : 6.5;
        x = lrint((oa - g[0]) / g[1]); w = lrint((ob - g[0]) / g[1]) - x;
        y = lrint((lb - g[3]) / g[5]); h = lrint((la - g[3]) / g[5]) - y;
    }
    else if (n == "no metadata" || n == "resize wrong" || n == "resize to nothing" || n == "large band" || n == "negative band") ok = false;
    if (x < 0 || y < 0 || x + w > f.w || y + h > f.h) ok = false;
    ow = w; oh = h;
    if (n == "resize") { ow = 10; oh = 20; }
    else if (n == "resize by part") { ow = w / 2; oh = h * 2; }
    else if (n == "area and resize") { ow = 12; oh = 9; }
    if ((r.rc == 0) != ok) { mc::fail("command", "%s: exit code %d", what.c_str(), r.rc); return; }
    if (!ok || skip)
    {
        if (!r.made.empty()) mc::fail("command", "%s: makes %s", what.c_str(), r.made.begin()->first.c_str());
        return;
    }
    if (c.args[0] == "--view" || c.args[0] == "--viewmore")
    {
        if (r.out.find(mc::fmt("Size: %dx%d", c.args.size() > 1 ? 5 : w, c.args.size() > 1 ? 5 : h)) == string::npos || !r.made.empty()) mc::fail("view", "%s: prints %s", what.c_str(), r.out.substr(0, 200).c_str());
        return;
    }
    if (c.args[0] == "--png")
    {
        if ((int)r.made.size() != f.bands) mc::fail("command", "%s: makes %zu files", what.c_str(), r.made.size());
        return;
    }
    // GDAL keeps what GeoTIFF cannot beside it
    unsigned images = 0;
    for (auto& m : r.made) if (m.first.find(".aux.xml") == string::npos) ++images;
    if (images != 1 || r.made.begin()->first.find("MSG1") != 0) { mc::fail("command", "%s: makes %u files", what.c_str(), images); return; }
    std::unique_ptr<GDALDataset> v((GDALDataset*)GDALOpen((mc::work + "/out/" + r.made.begin()->first).c_str(), GA_ReadOnly));
    if (!v) { mc::fail("command", "%s: makes a file that cannot be read", what.c_str()); return; }
    if (v->GetRasterXSize() != ow || v->GetRasterYSize() != oh || v->GetRasterCount() != (int)bands.size()) { mc::fail("size", "%s: %dx%d, %d bands", what.c_str(), v->GetRasterXSize(), v->GetRasterYSize(), v->GetRasterCount()); return; }
    double a[6], b[6];
    v->GetGeoTransform(a);
    src->GetGeoTransform(b);
    if (std::abs(a[0] - b[0] - x * b[1]) > 1e-6 || std::abs(a[3] - b[3] - y * b[5]) > 1e-6 || std::abs(a[1] * ow - b[1] * w) > 1e-6 || std::abs(a[5] * oh - b[5] * h) > 1e-6) mc::fail("geotransform", "%s: geotransform %g %g %g %g", what.c_str(), a[0], a[1], a[3], a[5]);
    bool md = n.find("metadata") == 0;
    std::unique_ptr<GDALDataset> tmpl((GDALDataset*)GDALOpen((md ? files[0].path : f.path).c_str(), GA_ReadOnly));
    if (!v->GetMetadataItem("MSAT_DATETIME") || string(v->GetMetadataItem("MSAT_DATETIME")) != tmpl->GetMetadataItem("MSAT_DATETIME")) mc::fail("metadata", "%s: date", what.c_str());
    for (unsigned i = 0; i < bands.size(); ++i)
    {
        GDALRasterBand *vb = v->GetRasterBand(i + 1), *sb = src->GetRasterBand(bands[i]);
        bool c16 = cal && sb->GetRasterDataType() == GDT_UInt16;
        if (vb->GetRasterDataType() != (c16 ? GDT_Float32 : sb->GetRasterDataType())) mc::fail("band information", "%s: type of band %u", what.c_str(), i + 1);
        if (vb->GetScale() != (c16 ? 1 : 0.5) || vb->GetOffset() != (c16 ? 0 : -4)) mc::fail("band information", "%s: scale of band %u", what.c_str(), i + 1);
        GDALRasterBand* tb = md ? (int)i < tmpl->GetRasterCount() ? tmpl->GetRasterBand(i + 1) : sb : sb;
        if (!vb->GetMetadataItem("MSAT_CHANNELID") || string(vb->GetMetadataItem("MSAT_CHANNELID")) != tb->GetMetadataItem("MSAT_CHANNELID")) mc::fail("metadata", "%s: channel of band %u", what.c_str(), i + 1);
        if (ow != w || oh != h) continue;
        vector<double> d, e;
        fake::read(vb, 0, 0, w, h, d);
        fake::read(sb, x, y, w, h, e);
        for (int p = 0; p < w * h; ++p)
            if (d[p] != (c16 ? e[p] * 0.5 - 4 : e[p])) { mc::fail("pixel", "%s: pixel %d of band %u is %g", what.c_str(), p, i + 1, d[p]); break; }
    }
}

/// All histories of one command
void histories(unsigned part, unsigned parts)
{
    make_files();
    string inputs = listing(mc::work);
    vector<string> before;
    for (auto& f : files) before.push_back(mc::read_file(f.path));
    for (unsigned k = part; k < NCMD; k += parts)
    {
        const Command& c = commands[k];
        vector<string> args = c.args;
        for (auto& a : args) { size_t p = a.find("@0"); if (p != string::npos) a.replace(p, 2, files[0].path); }
        vector<Run> alone(files.size());
        bool broken = false;
        for (unsigned i = 0; i < files.size(); ++i)
        {
            if (!mc::begin("%s of file %u", c.name, i)) { if (mc::only_case.empty()) continue; }
            vector<string> a = args;
            a.push_back(files[i].path);
            alone[i] = run_msat(a);
            if (alone[i].rc > 1) broken = true;
            check_alone(c, files[i], alone[i]);
            ++mc::sh->states;
            mc::count();
        }
        if (broken) continue;
        for (unsigned depth = 2; depth <= 3; ++depth)
            mc::all_sequences(depth, files.size(), [&](const vector<unsigned>& q) {
                if (depth == 3 && !mc::thorough && (q[0] == q[1] || q[1] == q[2] || k % 2)) return;
                string name;
                for (unsigned i : q) name += mc::fmt(" %u", i);
                if (!mc::begin("%s of files%s", c.name, name.c_str())) return;
                vector<string> a = args;
                Run want;
                want.rc = 0;
                for (unsigned i : q)
                {
                    a.push_back(files[i].path);
                    // It stops at the first error
                    if (want.rc) continue;
                    want.rc = alone[i].rc;
                    want.out += alone[i].out;
                    for (auto& m : alone[i].made) want.made[m.first] = m.second;
                }
                Run r = run_msat(a);
                if (r.rc != want.rc) mc::fail("command history", "%s of files%s: %s, and not exit code %d", c.name, name.c_str(), mc::outcome(r.rc).c_str(), want.rc);
                else if (r.made.size() != want.made.size()) mc::fail("command history", "%s of files%s: %zu files and not %zu", c.name, name.c_str(), r.made.size(), want.made.size());
                else for (auto& m : want.made)
                    if (r.made[m.first] != m.second) mc::fail("command history", "%s of files%s: %s is not what is made alone", c.name, name.c_str(), m.first.c_str());
                if (r.rc == 0 && r.out != want.out) mc::fail("command history", "%s of files%s: prints '%s'", c.name, name.c_str(), r.out.substr(0, 300).c_str());
                mc::sh->transitions += depth;
                ++mc::sh->traces;
                mc::count();
            });
        // The inputs are as they were (viewing more of a file keeps its statistics)
        for (unsigned i = 0; i < files.size(); ++i)
            if (mc::read_file(files[i].path) != before[i]) mc::fail("inputs", "%s changes %s", c.name, files[i].path.c_str());
        string now = listing(mc::work);
        for (unsigned i = 0; i < files.size(); ++i)
        {
            string aux = files[i].path + ".aux.xml";
            if (string(c.name) != "view more" && !access(aux.c_str(), F_OK)) mc::fail("inputs", "%s makes %s", c.name, aux.c_str());
            unlink(aux.c_str());
        }
    }
}

}

MC_GROUP(command_0) { histories(0, 6); }
MC_GROUP(command_1) { histories(1, 6); }
MC_GROUP(command_2) { histories(2, 6); }
MC_GROUP(command_3) { histories(3, 6); }
MC_GROUP(command_4) { histories(4, 6); }
MC_GROUP(command_5) { histories(5, 6); }

// Images over the largest size of pictures, and geostationary ones
MC_GROUP(pictures)
{
    init();
    GDALDriver* tiff = GetGDALDriverManager()->GetDriverByName("GTiff");
    const int dims[][2] = { { 1280, 2 }, { 1281, 2 }, { 2, 1281 }, { 2560, 1280 }, { 1300, 2600 }, { 3000, 1 }, { 1, 3000 }, { 20, 10 } };
    vector<string> path;
    for (auto& d : dims)
    {
        fake::Dataset ds(d[0], d[1]);
        ds.SetMetadataItem("MSAT_DATETIME", mc::fmt("2009-11-11 11:3%zd:00", path.size()).c_str());
        ds.SetMetadataItem("MSAT_SPACECRAFTID", "55");
        ds.SetMetadataItem("MSAT_SPACECRAFT", "MSG1");
        fake::Band* b = ds.add(GDT_Byte);
        int w = d[0];
        b->pixel = [=](int x, int y) { return (x + y * w) % 251; };
        path.push_back(mc::work + mc::fmt("/p%zu.tif", path.size()));
        GDALClose(tiff->CreateCopy(path.back().c_str(), &ds, FALSE, nullptr, nullptr, nullptr));
    }
    auto size = [](const string& png) {
        if (png.size() < 24) return string("no image");
        auto u = [&](int p) { unsigned v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | (unsigned char)png[p + i]; return v; };
        return mc::fmt("%ux%u", u(16), u(20));
    };
    for (unsigned i = 0; i < path.size(); ++i)
        for (unsigned j = 0; j < path.size(); ++j)
        {
            if (i == j) continue;
            if (!mc::begin("pictures of %dx%d and %dx%d", dims[i][0], dims[i][1], dims[j][0], dims[j][1])) continue;
            Run r = run_msat({ "--png", path[i], path[j] });
            if (r.rc) { mc::fail("picture", "%s", mc::outcome(r.rc).c_str()); continue; }
            if (r.made.size() != 2) { mc::fail("picture", "%zu files", r.made.size()); continue; }
            for (auto& m : r.made)
            {
                unsigned q = m.first[m.first.rfind('.') - 1] - '0';
                double w = dims[q][0], h = dims[q][1], f = std::min(1.0, std::min(1280 / w, 1280 / h));
                string want = mc::fmt("%dx%d", std::max(1, (int)(w * f + 1e-9)), std::max(1, (int)(h * f + 1e-9)));
                if (size(m.second) != want) mc::fail("picture", "picture of %gx%g after or before another is %s and not %s", w, h, size(m.second).c_str(), want.c_str());
            }
            mc::sh->transitions += 2;
            ++mc::sh->traces;
            mc::count();
        }
}

namespace {

void degrees(double lon, int part)
{
    init();
    GDALDriver* tiff = GetGDALDriverManager()->GetDriverByName("GTiff");
    // A coarse full disk, where boxes in degrees have to be found
    {
        const int N = 232;
        fake::Dataset ds(N, N);
        OGRSpatialReference o;
        msat::dataset::set_spaceview(o, lon);
        ds.set_srs(o);
        ds.set_gt(-5568000, 48000, 0, 5568000, 0, -48000);
        ds.SetMetadataItem("MSAT_DATETIME", "2009-11-11 11:30:00");
        ds.SetMetadataItem("MSAT_SPACECRAFTID", "55");
        ds.SetMetadataItem("MSAT_SPACECRAFT", "MSG1");
        fake::Band* b = ds.add(GDT_UInt16);
        b->pixel = [](int x, int y) { return y * 232 + x; };
        string path = mc::work + "/geos.tif";
        GDALClose(tiff->CreateCopy(path.c_str(), &ds, FALSE, nullptr, nullptr, nullptr));
        for (int lat = -80 + part * (mc::thorough ? 5 : 20); lat <= 80; lat += mc::thorough ? 10 : 40)
            for (int dl = -90; dl <= 90; dl += mc::thorough ? 5 : 15)
                for (int how = 0; how < 2; ++how)
                {
                    double clat = lat + 0.5, clon = lon + dl + 0.25, hh = 3, hw = 4;
                    if (!mc::begin("%s %g,%g of an image at %g", how ? "around" : "Area", clat, clon, lon)) continue;
                    string arg = how ? mc::fmt("--around=%g,%g,%g,%g", clat, clon, 2 * hh, 2 * hw) : mc::fmt("--Area=%g,%g,%g,%g", clat - hh, clat + hh, clon - hw, clon + hw);
                    Run r = run_msat({ "--conv=GTiff", arg, path });
                    if (r.rc > 1) { mc::fail("crash", "%s: %s", arg.c_str(), mc::outcome(r.rc).c_str()); continue; }
                    // The corners, by the formula of the projection
                    int x0 = 100000, x1 = -1, y0 = 100000, y1 = -1;
                    bool visible = true;
                    for (int c = 0; c < 4; ++c)
                    {
                        double la = (clat + (c & 1 ? hh : -hh)) * M_PI / 180, lo = (clon + (c & 2 ? hw : -hw) - lon) * M_PI / 180;
                        const double a = 6378169, bb = a * (1 - 1 / 295.488065897), hgt = 35785831, H = a + hgt;
                        double gc = atan(bb * bb / (a * a) * tan(la)), rl = bb / sqrt(1 - (a * a - bb * bb) / (a * a) * cos(gc) * cos(gc));
                        double r1 = H - rl * cos(gc) * cos(lo), r2 = rl * cos(gc) * sin(lo), r3 = rl * sin(gc);
                        // Not behind the limb
                        if (H * (H - r1) < r2 * r2 + r3 * r3 * a * a / (bb * bb) + (H - r1) * (H - r1)) visible = false;
                        double px = hgt * atan(r2 / r1), py = hgt * atan(r3 / sqrt(r1 * r1 + r2 * r2));
                        int x = lrint((px + 5568000) / 48000), y = lrint((5568000 - py) / 48000);
                        x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y);
                    }
                    bool ok = visible && x1 > x0 && y1 > y0;
                    if ((r.rc == 0) != ok) { mc::fail("degrees", "%s of an image at %g: %s", arg.c_str(), lon, r.rc ? "refused" : "accepted"); continue; }
                    if (ok)
                    {
                        std::unique_ptr<GDALDataset> v((GDALDataset*)GDALOpen((mc::work + "/out/" + r.made.begin()->first).c_str(), GA_ReadOnly));
                        vector<double> d;
                        if (!v || !fake::read(v->GetRasterBand(1), 0, 0, 1, 1, d)) mc::fail("degrees", "%s: not read", arg.c_str());
                        else
                        {
                            int x = (int)d[0] % 232, y = (int)d[0] / 232, w = v->GetRasterXSize(), h = v->GetRasterYSize();
                            // Rounding of the corners apart
                            if (abs(x - x0) > 1 || abs(y - y0) > 1 || abs(x + w - x1) > 1 || abs(y + h - y1) > 1)
                                mc::fail("degrees", "%s of an image at %g: window %d,%d %dx%d and not %d,%d %dx%d", arg.c_str(), lon, x, y, w, h, x0, y0, x1 - x0, y1 - y0);
                        }
                    }
                    mc::count(ok);
                }
    }
}

}

MC_GROUP(geostationary_0) { degrees(0, 0); }
MC_GROUP(geostationary_1) { degrees(0, 1); }
MC_GROUP(geostationary_2) { degrees(9.5, 0); }
MC_GROUP(geostationary_3) { degrees(9.5, 1); }
