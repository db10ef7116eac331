// C10: pixel, projected and geographic coordinates convert consistently
//
// Every pixel of geostationary disks and of their crops, compared with the
// projection formula; all geotransforms over an alphabet; all histories of a
// georeferencer that is used with several data sets.
#include "mc.hpp"
#include "enumerate.hpp"
#include "fake.hpp"
#include "synth.hpp"
#include <msat/gdal/dataset.h>
#include <msat/gdal/gdaltranslate.h>
#include "gdal/xrit/xrit.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <climits>

using std::string;
using std::vector;
using msat::dataset::GeoReferencer;

namespace {

void init()
{
    static bool done = false;
    if (done) return;
    done = true;
    CPLSetErrorHandler(CPLQuietErrorHandler);
    GDALAllRegister();
    GDALRegister_MsatXRIT();
}

const double A = 6378169, B = 6378169 * (1 - 1 / 295.488065897), HGT = 35785831, H = A + HGT, DEG = M_PI / 180;

/// Projected to geographic; margin is how far inside the disk the point is
bool inverse(double px, double py, double sublon, double& lat, double& lon, double& margin)
{
    // Angles from the satellite, sweeping in y
    double x = px / HGT, y = py / HGT;
    double cx = cos(x), cy = cos(y), k = cy * cy + A * A / (B * B) * sin(y) * sin(y);
    double d = H * cx * cy * H * cx * cy - k * (H * H - A * A);
    margin = d / (H * H);
    if (d < 0 || std::abs(x) > M_PI / 2 || std::abs(y) > M_PI / 2) return false;
    double sn = (H * cx * cy - sqrt(d)) / k, s1 = H - sn * cx * cy, s2 = sn * sin(x) * cy, s3 = sn * sin(y);
    lon = atan2(s2, s1) / DEG + sublon;
    lat = atan(A * A / (B * B) * s3 / sqrt(s1 * s1 + s2 * s2)) / DEG;
    return true;
}

bool forward(double lat, double lon, double sublon, double& px, double& py, double& margin)
{
    double la = lat * DEG, lo = (lon - sublon) * DEG, gc = atan2(B * B / (A * A) * sin(la), cos(la));
    double rl = B / sqrt(1 - (A * A - B * B) / (A * A) * cos(gc) * cos(gc));
    double r1 = H - rl * cos(gc) * cos(lo), r2 = rl * cos(gc) * sin(lo), r3 = rl * sin(gc);
    margin = ((H - r1) * r1 - r2 * r2 - r3 * r3 * A * A / (B * B)) / (H * H);
    px = HGT * atan(r2 / r1);
    py = HGT * atan(r3 / sqrt(r1 * r1 + r2 * r2));
    return margin >= 0;
}

double angle(double d) { d = fmod(d, 360); return d > 180 ? d - 360 : d < -180 ? d + 360 : d; }

/// One pixel of an image with a geotransform
void pixel(GeoReferencer& gr, const double* g, double sublon, int x, int y, const char* what)
{
    double px = g[0] + x * g[1] + y * g[2], py = g[3] + x * g[4] + y * g[5], qx, qy;
    gr.pixelToProjected(x, y, qx, qy);
    if (std::abs(px - qx) > 1e-6 || std::abs(py - qy) > 1e-6) mc::fail("projected", "%s: pixel %d,%d is at %.9g,%.9g and not %.9g,%.9g", what, x, y, qx, qy, px, py);
    int bx = -1, by = -1;
    if (gr.projectedToPixel(qx, qy, bx, by), bx != x || by != y) mc::fail("projected", "%s: pixel %d,%d is %d,%d through projected coordinates", what, x, y, bx, by);
    double lat = 1234, lon = 1234, wlat, wlon, margin;
    bool visible = inverse(px, py, sublon, wlat, wlon, margin);
    if (std::abs(margin) < 1e-9) return;   // on the limb
    CPLErr e = gr.pixelToLatlon(x, y, lat, lon);
    ++mc::sh->evaluations;
    if (visible) ++mc::sh->nontrivial;
    if ((e == CE_None) != visible) { mc::fail("visible", "%s: pixel %d,%d has position %g,%g and the Earth is %svisible", what, x, y, lat, lon, visible ? "" : "not "); return; }
    if (!visible) return;
    // Close to the limb a metre is many degrees
    double tol = 1e-7 + 1e-9 / sqrt(margin);
    if (std::abs(lat - wlat) > tol || std::abs(angle(lon - wlon)) * cos(wlat * DEG) > tol) mc::fail("latlon", "%s: pixel %d,%d is at %.9g,%.9g and not %.9g,%.9g", what, x, y, lat, lon, wlat, wlon);
    bx = by = -1;
    if (gr.latlonToPixel(lat, lon, bx, by) != CE_None || bx != x || by != y) mc::fail("round trip", "%s: pixel %d,%d is %d,%d through latitude and longitude %g,%g", what, x, y, bx, by, lat, lon);
}

const double sublons[] = { 0, 9.5, -75.25, 57.5, 140.7, 179.5, -179.9 };

void disk(double sublon)
{
    init();
    OGRSpatialReference o;
    msat::dataset::set_spaceview(o, sublon);
    // Whole disks, of several pixel sizes, and one with pixels in other directions
    const int sizes[] = { 58, 116, 232, 464 };
    for (int n : sizes)
    {
        if (n > 232 && !mc::thorough) continue;
        for (int dir = 0; dir < 3; ++dir)
        {
            fake::Dataset ds(n, n);
            ds.set_srs(o);
            double half = 5568000, p = 2 * half / n;
            if (dir == 0) ds.set_gt(-half, p, 0, half, 0, -p);
            if (dir == 1) ds.set_gt(half, -p, 0, -half, 0, p);
            if (dir == 2) ds.set_gt(-half, p * 0.75, p * 0.25, half, p * 0.25, -p * 0.75);
            GeoReferencer gr;
            if (gr.init(&ds) != CE_None) { mc::fail("init", "disk at %g", sublon); return; }
            for (int y = 0; y <= n; ++y)
            {
                if (!mc::begin("disk at %g of %d pixels direction %d line %d", sublon, n, dir, y)) continue;
                string what = mc::fmt("disk at %g of %d pixels", sublon, n);
                for (int x = 0; x <= n; ++x) pixel(gr, ds.gt, sublon, x, y, what.c_str());
            }
        }
    }
    // Crops and scales of the image of a satellite
    const double P = 3000.4031658;
    fake::Dataset ds(3712, 3712);
    ds.set_srs(o);
    ds.set_gt(-1856 * P, P, 0, 1856 * P, 0, -P);
    ds.add(GDT_UInt16);
    const int xs[] = { 0, 1, 37, 300, 1855, 1856, 3300, 3700 }, ws[] = { 12, 7 };
    for (int x : xs)
        for (int y : xs)
            for (int w : ws)
                for (int scale = 0; scale < 3; ++scale)
                {
                    if (!mc::begin("crop %d,%d %dx%d of the disk at %g scale %d", x, y, w, 12, sublon, scale)) continue;
                    GDALTranslate t;
                    t.anSrcWin[0] = x; t.anSrcWin[1] = y; t.anSrcWin[2] = w; t.anSrcWin[3] = 12;
                    if (scale == 1) { t.pszOXSize = "200%"; t.pszOYSize = "300%"; }
                    if (scale == 2) { t.pszOXSize = "5"; t.pszOYSize = "4"; }
                    GDALDataset* v = t.translate(&ds);
                    GeoReferencer gr;
                    if (!v || gr.init(v) != CE_None) { mc::fail("init", "crop %d,%d", x, y); continue; }
                    int ow = v->GetRasterXSize(), oh = v->GetRasterYSize();
                    double g[6] = { ds.gt[0] + x * P, P * w / ow, 0, ds.gt[3] - y * P, 0, -P * 12 / oh };
                    for (int j = 0; j <= oh; ++j) for (int i = 0; i <= ow; ++i) pixel(gr, g, sublon, i, j, mc::fmt("crop %d,%d scale %d", x, y, scale).c_str());
                    GDALClose(v);
                }
    // Geographic coordinates on and off what is seen
    GeoReferencer gr;
    gr.init(&ds);
    for (double lat = -90; lat <= 90; lat += mc::thorough ? 1.25 : 2.5)
    {
        if (!mc::begin("latitude %g from %g", lat, sublon)) continue;
        for (double lon = -360; lon <= 360; lon += mc::thorough ? 1.25 : 2.5)
        {
            double px, py, margin, qx = 1e99, qy = 1e99;
            bool visible = forward(lat, lon, sublon, px, py, margin);
            if (std::abs(margin) < 1e-9) continue;
            CPLErr e = gr.latlonToProjected(lat, lon, qx, qy);
            mc::count(visible);
            if ((e == CE_None) != visible) { mc::fail("visible", "%g,%g from %g is %s", lat, lon, sublon, visible ? "not found" : "found"); continue; }
            int x = -77, y = -77;
            e = gr.latlonToPixel(lat, lon, x, y);
            if ((e == CE_None) != visible) { mc::fail("visible", "%g,%g from %g has %s pixel", lat, lon, sublon, visible ? "no" : "a"); continue; }
            if (!visible) continue;
            if (std::abs(px - qx) > 1e-3 || std::abs(py - qy) > 1e-3) mc::fail("projected", "%g,%g from %g is at %.9g,%.9g and not %.9g,%.9g", lat, lon, sublon, qx, qy, px, py);
            double wx = 1856 + px / P, wy = 1856 - py / P;
            if (std::abs(x - wx) > 0.501 || std::abs(y - wy) > 0.501) mc::fail("pixel", "%g,%g from %g is pixel %d,%d and not %g,%g", lat, lon, sublon, x, y, wx, wy);
        }
    }
    // What is not a position
    const double odd[] = { NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e18 };
    for (double v : odd)
        for (int k = 0; k < 2; ++k)
        {
            if (!mc::begin("coordinate %g from %g", v, sublon)) continue;
            double a = 1, b = 1;
            int x, y;
            if (gr.latlonToPixel(k ? v : 0, k ? 0 : v, x, y) == CE_None && std::abs(v) > 1e200) mc::fail("odd", "coordinate %g has a pixel", v);
            if (k && gr.latlonToProjected(v, 0, a, b) == CE_None) mc::fail("odd", "latitude %g has a position", v);
            if (gr.projectedToLatlon(k ? v : 0, k ? 0 : v, a, b) == CE_None) mc::fail("odd", "projected coordinate %g has position %g,%g", v, a, b);
            if (gr.projectedToPixel(k ? v : 0, k ? 0 : v, x, y) == CE_None) mc::fail("odd", "projected coordinate %g has pixel %d,%d", v, x, y);
            mc::count();
        }
    for (int x : { INT_MIN, -1000000, 1000000, INT_MAX })
    {
        if (!mc::begin("pixel %d from %g", x, sublon)) continue;
        double a, b;
        if (gr.pixelToLatlon(x, 1800, a, b) == CE_None || gr.pixelToLatlon(1800, x, a, b) == CE_None) mc::fail("odd", "pixel %d has position %g,%g", x, a, b);
        mc::count();
    }
    mc::sample("pixel 928,1856 of the disk at %g and back", sublon);
}

}

MC_GROUP(disk_0) { disk(sublons[0]); }
MC_GROUP(disk_1) { disk(sublons[1]); }
MC_GROUP(disk_2) { disk(sublons[2]); }
MC_GROUP(disk_3) { disk(sublons[3]); }
MC_GROUP(disk_4) { disk(sublons[4]); }
MC_GROUP(disk_5) { disk(sublons[5]); }
MC_GROUP(disk_6) { disk(sublons[6]); }

// Images of the xRIT driver
MC_GROUP(xrit)
{
    init();
    for (float lon : { 0.0f, 9.5f, -3.5f })
        for (int hrv = 0; hrv < 2; ++hrv)
        {
            if (!mc::begin("xRIT at %g %s", lon, hrv ? "HRV" : "IR")) continue;
            synth::Image img;
            img.dir = mc::work + "/x";
            mc::clean(img.dir);
            mc::make_dirs(img.dir);
            img.longitude = lon;
            if (hrv) { img.channel = "HRV"; img.channel_id = 12; }
            img.seglines = 4;
            img.segments = 2;
            img.write_all();
            std::unique_ptr<GDALDataset> ds((GDALDataset*)GDALOpen(img.short_name().c_str(), GA_ReadOnly));
            if (!ds) { mc::fail("open", "%s: %s", img.short_name().c_str(), CPLGetLastErrorMsg()); continue; }
            double g[6];
            ds->GetGeoTransform(g);
            GeoReferencer gr;
            if (gr.init(ds.get()) != CE_None) { mc::fail("init", "xRIT"); continue; }
            int n = ds->GetRasterXSize(), m = ds->GetRasterYSize();
            for (int y = 0; y <= m; y += 1 + m / 97)
                for (int x = 0; x <= n; x += 1 + n / 97) pixel(gr, g, lon, x, y, mc::fmt("xRIT at %g", lon).c_str());
        }
}

// Affine transformations
MC_GROUP(geotransforms)
{
    init();
    OGRSpatialReference o;
    o.SetWellKnownGeogCS("WGS84");
    vector<double> v = { 0, 1, -2, 0.5, 3e-9, -1e9 };
    if (mc::thorough) { v.push_back(1e-15); v.push_back(0.1); v.push_back(3000.4031658); }
    const double origin[][2] = { { 0, 0 }, { -5568748.27, 5568748.27 }, { 1e-7, 12345.678 } };
    for (double a : v)
        for (double b : v)
            for (double c : v)
                for (double d : v)
                {
                    if (!mc::begin("geotransform %g %g %g %g", a, b, c, d)) continue;
                    for (auto& org : origin)
                    {
                        double g[6] = { org[0], a, b, org[1], c, d }, inv[6] = { 0, 0, 0, 0, 0, 0 };
                        long double det = (long double)a * d - (long double)b * c, size = fabsl((long double)a * d) + fabsl((long double)b * c);
                        bool ok = fabsl(det) > 1e-9L * size;
                        if (!ok && det != 0 && fabsl(det) > 1e-18L * size) continue;
                        CPLErr e = msat::dataset::invertGeoTransform(g, inv);
                        fake::Dataset ds(4, 4);
                        ds.set_srs(o);
                        memcpy(ds.gt, g, sizeof(g));
                        ds.has_gt = true;
                        GeoReferencer gr;
                        CPLErr f = gr.init(&ds);
                        mc::count(ok);
                        if ((e == CE_None) != ok || (f == CE_None) != ok) { mc::fail("inverse", "geotransform %g %g %g %g is %s", a, b, c, d, ok ? "refused" : "accepted"); continue; }
                        if (!ok) continue;
                        // Rounding of the coordinates, in pixels
                        double mag = (std::abs(org[0]) + 4000 * (std::abs(a) + std::abs(b))) * (std::abs(inv[1]) + std::abs(inv[4])) + (std::abs(org[1]) + 4000 * (std::abs(c) + std::abs(d))) * (std::abs(inv[2]) + std::abs(inv[5]));
                        bool exact = mag * 1e-15 < 0.01;
                        for (int x : { 0, 1, 3, -2, 3711 })
                            for (int y : { 0, 1, 2, -3, 3711 })
                            {
                                double px, py;
                                int bx = -99, by = -99;
                                gr.pixelToProjected(x, y, px, py);
                                long double wx = (long double)g[0] + (long double)g[1] * x + (long double)g[2] * y, wy = (long double)g[3] + (long double)g[4] * x + (long double)g[5] * y;
                                long double tol = 1e-15L * (fabs(g[0]) + fabs(g[3]) + (fabs(a) + fabs(b) + fabs(c) + fabs(d)) * 4000);
                                if (fabsl(wx - px) > tol || fabsl(wy - py) > tol) mc::fail("projected", "geotransform %g %g %g %g: pixel %d,%d is at %g,%g", a, b, c, d, x, y, px, py);
                                if (!exact) continue;
                                if (gr.projectedToPixel(px, py, bx, by), bx != x || by != y) mc::fail("projected", "geotransform %g %g %g %g: pixel %d,%d is %d,%d", a, b, c, d, x, y, bx, by);
                                // Nearest pixel
                                if (gr.projectedToPixel(px + 0.3 * a - 0.2 * b, py + 0.3 * c - 0.2 * d, bx, by), bx != x || by != y) mc::fail("projected", "geotransform %g %g %g %g: close to pixel %d,%d is %d,%d", a, b, c, d, x, y, bx, by);
                            }
                    }
                    // Size and offset of the centre
                    if (a != 0 && d != 0 && std::abs(a) > 1e-6 && std::abs(d) > 1e-6)
                    {
                        fake::Dataset ds(4, 4);
                        ds.set_gt(-1856.25 * a, a, b, -928.75 * d, c, d);
                        int xs, ys;
                        double rx, ry;
                        msat::dataset::decodeGeotransform(&ds, xs, ys, rx, ry);
                        if (xs != 1856 || ys != 929 || rx != a || ry != -d) mc::fail("decode", "geotransform %g %g: %d %d %g %g", a, d, xs, ys, rx, ry);
                    }
                }
}

// One object with several data sets
MC_GROUP(histories)
{
    init();
    const unsigned N = 9;
    vector<std::unique_ptr<fake::Dataset>> ds;
    for (unsigned i = 0; i < N; ++i)
    {
        ds.emplace_back(new fake::Dataset(100, 100));
        fake::Dataset& d = *ds.back();
        OGRSpatialReference o;
        if (i == 0 || i == 2 || i == 3) msat::dataset::set_spaceview(o, 0);
        if (i == 1) msat::dataset::set_spaceview(o, 9.5);
        if (i == 5) o.SetLocalCS("somewhere");
        if (i == 6) o.SetWellKnownGeogCS("WGS84");
        if (i == 7) o.importFromEPSG(32632);
        // A projection that is not implemented
        if (i == 8) o.importFromWkt("PROJCS[\"x\",GEOGCS[\"g\",DATUM[\"d\",SPHEROID[\"s\",6378137,298.25]],PRIMEM[\"Greenwich\",0],UNIT[\"degree\",0.0174532925199433]],PROJECTION[\"Unheard_Of\"],UNIT[\"metre\",1]]");
        if (i != 4) d.set_srs(o);
        if (i == 6) d.set_gt(5, 0.1, 0, 50, 0, -0.1);
        else if (i == 7) d.set_gt(400000, 1000, 0, 5200000, 0, -1000);
        else if (i != 2) d.set_gt(-500000, 10000, 0, 500000, 0, -10000);
        if (i == 3) d.set_gt(-500000, 10000, 20000, 500000, 5000, 10000);
    }
    auto probe = [&](GeoReferencer& gr) {
        string s;
        for (int k = 0; k < 4; ++k)
        {
            double lat = -1, lon = -1;
            int x = -1, y = -1;
            int e = gr.pixelToLatlon(10 + 20 * k, 30 + 10 * k, lat, lon);
            s += e == CE_None ? mc::fmt("%.9g,%.9g ", lat, lon) : "none ";
            e = gr.latlonToPixel(40 + k, 5 + 2 * k, x, y);
            s += e == CE_None ? mc::fmt("%d,%d ", x, y) : "none ";
        }
        return s;
    };
    vector<string> fresh;
    string never;
    { GeoReferencer gr; never = probe(gr); }
    for (unsigned i = 0; i < N; ++i)
    {
        GeoReferencer gr;
        bool ok = gr.init(ds[i].get()) == CE_None, want = i < 2 || i == 6 || i == 7;
        fresh.push_back(probe(gr));
        if (!mc::begin("data set %u", i)) continue;
        // (an unknown projection can also be found when it is used)
        if (ok != want && i != 8) mc::fail("init", "data set %u is %s", i, ok ? "accepted" : "refused");
        if (!want && fresh[i] != never) mc::fail("init", "data set %u has positions", i);
        for (double odd : { (double)NAN, (double)INFINITY, -(double)INFINITY })
            for (int k = 0; want && k < 2; ++k)
            {
                double a, b;
                if (gr.projectedToLatlon(k ? odd : 5, k ? 5 : odd, a, b) == CE_None) mc::fail("odd", "projected coordinate %g of data set %u has position %g,%g", odd, i, a, b);
                if (gr.latlonToProjected(k ? odd : 5, k ? 5 : odd, a, b) == CE_None) mc::fail("odd", "coordinate %g of data set %u is at %g,%g", odd, i, a, b);
            }
        if (want && fresh[i] == never) mc::fail("init", "data set %u has no positions", i);
        mc::count();
    }
    mc::sh->states += N;
    for (unsigned depth = 2; depth <= (mc::thorough ? 4 : 3); ++depth)
        mc::all_sequences(depth, N, [&](const vector<unsigned>& q) {
            string name;
            for (unsigned i : q) name += mc::fmt(" %u", i);
            if (!mc::begin("data sets%s", name.c_str())) return;
            GeoReferencer gr;
            for (unsigned i : q) { gr.init(ds[i].get()); ++mc::sh->transitions; }
            string s = probe(gr);
            if (s != fresh[q.back()]) mc::fail("history", "data sets%s: %s and not %s", name.c_str(), s.c_str(), fresh[q.back()].c_str());
            ++mc::sh->traces;
            mc::count();
        });
    // Nothing is left behind
    for (unsigned i = 0; i < N; ++i)
        for (int same = 0; same < 2; ++same)
        {
            if (!mc::begin("memory of data set %u in %s", i, same ? "one object" : "new objects")) continue;
            auto run = [&](int n) {
                GeoReferencer one;
                for (int k = 0; k < n; ++k) { GeoReferencer gr; (same ? one : gr).init(ds[i].get()); }
            };
            run(100);
            size_t before = __sanitizer_get_current_allocated_bytes();
            run(100);
            size_t after = __sanitizer_get_current_allocated_bytes();
            if (after > before + 100 * 64) mc::fail("memory", "data set %u in %s: %zu bytes are left", i, same ? "one object" : "new objects", after - before);
            mc::count();
        }
}
