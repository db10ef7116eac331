// C09: derived products have the value of their definition at every pixel
//
// Complete enumeration of dates, disks, counts, source orders, block shapes
// and reads, on data sets made here and on xRIT files, compared with the
// definitions of the products computed from the projection formula.
#include "mc.hpp"
#include "enumerate.hpp"
#include "fake.hpp"
#include "synth.hpp"
#include <msat/facts.h>
#include <msat/gdal/const.h>
#include <msat/gdal/dataset.h>
#include "gdal/reflectance/reflectance.h"
#include "gdal/reflectance/sat_za.h"
#include "gdal/reflectance/cos_sol_za.h"
#include "gdal/reflectance/jday.h"
#include "gdal/utils.h"
#include "gdal/xrit/xrit.h"
#include <algorithm>

using std::string;
using std::vector;
using namespace msat::utils;

namespace {

void init()
{
    static bool done = false;
    if (done) return;
    done = true;
    CPLSetErrorHandler(CPLQuietErrorHandler);
    GDALAllRegister();
    GDALRegister_MsatXRIT();
}

// ---- definitions

const double A = 6378169, B = 6378169 * (1 - 1 / 295.488065897), HGT = 35785831, H = A + HGT, DEG = M_PI / 180;
const double COS80 = 0.173648178;

/// Projected to geographic; margin is how far inside the disk the point is
bool position(double px, double py, double sublon, double& lat, double& lon, double& margin)
{
    double x = px / HGT, y = py / HGT;
    double cx = cos(x), cy = cos(y), k = cy * cy + A * A / (B * B) * sin(y) * sin(y);
    double d = H * cx * cy * H * cx * cy - k * (H * H - A * A);
    margin = d / (H * H);
    if (d < 0 || std::abs(x) > M_PI / 2 || std::abs(y) > M_PI / 2) return false;
    double sn = (H * cx * cy - sqrt(d)) / k, s1 = H - sn * cx * cy, s2 = sn * sin(x) * cy, s3 = sn * sin(y);
    lon = atan2(s2, s1) / DEG + sublon;
    lat = atan(A * A / (B * B) * s3 / sqrt(s1 * s1 + s2 * s2)) / DEG;
    return true;
}

bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int month_days(int y, int m) { static const int n[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : n[m - 1]; }
int day_of_year(int y, int m, int d) { for (int i = 1; i < m; ++i) d += month_days(y, i); return d; }

/// Cosine of the solar zenith angle, by the series of the library
double sun(int jday, double hour, double lat, double lon)
{
    double a = 2 * M_PI * (jday - 1) / 365.242;
    double noon = 12 + 0.123570 * sin(a) - 0.004289 * cos(a) + 0.153809 * sin(2 * a) + 0.060783 * cos(2 * a);
    double h = (15 * (hour - noon) + lon) * DEG, l = 279.9348 * DEG + a;
    double s = l + (0.4087 * sin(l) + 1.8724 * cos(l) - 0.0182 * sin(2 * l) + 0.0083 * cos(2 * l)) * DEG;
    double sd = 0.3978 * sin(s), cd = sqrt(1 - sd * sd);
    return sd * sin(lat * DEG) + cd * cos(lat * DEG) * cos(h);
}

/// The same by the low precision ephemeris of the Astronomical Almanac
double almanac(int y, int m, int d, double hour, double lat, double lon)
{
    double days = -1;                                         // from 2000 January 1, 12 h
    for (int i = 2000; i < y; ++i) days += leap(i) ? 366 : 365;
    for (int i = y; i < 2000; ++i) days -= leap(i) ? 366 : 365;
    days += day_of_year(y, m, d) - 0.5 + hour / 24;
    double g = (357.528 + 0.9856003 * days) * DEG, q = 280.460 + 0.9856474 * days;
    double l = (q + 1.915 * sin(g) + 0.020 * sin(2 * g)) * DEG, e = (23.439 - 0.0000004 * days) * DEG;
    double ra = atan2(cos(e) * sin(l), cos(l)), dec = asin(sin(e) * sin(l));
    double sidereal = (280.46061837 + 360.98564736629 * days + lon) * DEG;
    return sin(dec) * sin(lat * DEG) + cos(dec) * cos(lat * DEG) * cos(sidereal - ra);
}

/// Angle between the vertical and the satellite, on a sphere
double satellite(double lat, double dlon)
{
    const double r = EARTH_RADIUS, s = ORBIT_RADIUS;
    double ux = cos(lat * DEG) * cos(dlon * DEG), uy = cos(lat * DEG) * sin(dlon * DEG), uz = sin(lat * DEG);
    double vx = s - r * ux, vy = -r * uy, vz = -r * uz, n = sqrt(vx * vx + vy * vy + vz * vz);
    double cx = uy * vz - uz * vy, cy = uz * vx - ux * vz, cz = ux * vy - uy * vx;
    return atan2(sqrt(cx * cx + cy * cy + cz * cz) / n, (ux * vx + uy * vy + uz * vz) / n);
}

double limit(double v, double hi) { return std::isnan(v) || v < 0 ? 0 : v > hi ? hi : v; }
double earth_sun(int jday) { return 1 - 0.0167 * cos(2 * M_PI * (jday - 3) / 365); }

double visible_reflectance(int channel, double radiance, int jday, double hour, double lat, double lon)
{
    double t = channel == 1 ? 20.76 : channel == 2 ? 23.24 : channel == 3 ? 19.85 : 25.11, e = earth_sun(jday);
    return limit(100 * radiance * e * e / t / std::max(sun(jday, hour, lat, lon), COS80), 100);
}

double planck(double t) { return 1.19104e-5 * pow(2569.094, 3) / (exp(1.43877 * 2569.094 / (0.9959 * t + 3.471)) - 1); }

/// 3.9 micron, with CO2 correction
double infrared_reflectance(double t39, double t108, double t134, int jday, double hour, double lat, double lon, double sublon)
{
    double cooled = t108 - (t108 - t134) / 4;
    double t = pow(pow(t39, 4) + pow(t108, 4) - pow(cooled, 4), 0.25);
    double r = pow(cooled / t108, 4), total = planck(t) + 0.015, thermal = planck(t108) * r;
    double c = std::max(sun(jday, hour, lat, lon), COS80), e = earth_sun(jday);
    double top = 4.92 / (e * e) * pow(c, 0.75) * exp(-(1 - r) * c) * exp(-(1 - r) / cos(satellite(lat, lon - sublon)));
    if (total <= thermal) total = thermal + 1e-7;
    if (top <= thermal) top = thermal + 1e-7;
    return limit(100 * (total - thermal) / top, 100);
}

// ---- images

struct Time { int y, m, d, h, mi; string text() const { return mc::fmt("%04d-%02d-%02d %02d:%02d:00", y, m, d, h, mi); }
    int jday() const { return day_of_year(y, m, d); } double hour() const { return h + mi / 60.0; } };

int alive;                                            // counted images

struct Source : fake::Dataset
{
    double sublon;
    Source(int w, int h, double sublon, const Time& t, double zoom = 1) : fake::Dataset(w, h), sublon(sublon)
    {
        ++alive;
        OGRSpatialReference o;
        msat::dataset::set_spaceview(o, sublon);
        set_srs(o);
        // The whole disk, or a part of it
        double p = 11000000.0 / std::max(w, h) * zoom;
        set_gt(-p * w / 2, p, 0, p * h / 2, 0, -p);
        SetMetadataItem(MD_MSAT_DATETIME, t.text().c_str(), MD_DOMAIN_MSAT);
        SetMetadataItem(MD_MSAT_SPACECRAFT, "MSG2", MD_DOMAIN_MSAT);
    }
    ~Source() { --alive; }
    fake::Band* channel(int id, GDALDataType type, int bx = 0, int by = 1)
    {
        fake::Band* b = add(type, bx, by);
        b->SetMetadataItem(MD_MSAT_CHANNEL_ID, std::to_string(id).c_str(), MD_DOMAIN_MSAT);
        return b;
    }
    bool where(int x, int y, double& lat, double& lon, double& margin) const
    { return position(gt[0] + x * gt[1] + y * gt[2], gt[3] + x * gt[4] + y * gt[5], sublon, lat, lon, margin); }
};

const double sublons[] = { 0, 9.5, 41.5, -75.25, 140.7, 179.5 };
const Time times[] = { { 2006, 11, 14, 12, 0 }, { 2008, 2, 29, 9, 15 }, { 2010, 1, 3, 0, 0 }, { 2010, 6, 21, 17, 45 }, { 2012, 12, 31, 23, 59 }, { 2019, 3, 1, 6, 30 } };

/// Products keep where, when and what the image is
void same_place(GDALDataset& p, Source& s, int channel)
{
    double gt[6];
    if (p.GetRasterXSize() != s.GetRasterXSize() || p.GetRasterYSize() != s.GetRasterYSize()) mc::fail("size", "%dx%d", p.GetRasterXSize(), p.GetRasterYSize());
    if (p.GetGeoTransform(gt) != CE_None || memcmp(gt, s.gt, sizeof(gt))) mc::fail("geotransform", "is not that of the source");
    if (!p.GetSpatialRef() || !p.GetSpatialRef()->IsSame(&s.srs)) mc::fail("projection", "is not that of the source");
    for (const char* k : { MD_MSAT_DATETIME, MD_MSAT_SPACECRAFT })
    {
        const char* v = p.GetMetadataItem(k, MD_DOMAIN_MSAT), *w = s.GetMetadataItem(k, MD_DOMAIN_MSAT);
        if (string(v ? v : "none") != (w ? w : "none")) mc::fail("metadata", "%s is %s and not %s", k, v ? v : "none", w ? w : "none");
    }
    const char* v = p.GetRasterBand(1)->GetMetadataItem(MD_MSAT_CHANNEL_ID, MD_DOMAIN_MSAT);
    if (!v || atoi(v) != channel) mc::fail("metadata", "channel is %s and not %d", v ? v : "none", channel);
}

/// All pixels of a product against its definition
void compare(GDALDataset& p, Source& s, double tol, const char* key, const std::function<double(int x, int y, double lat, double lon)>& want, double outside = 0)
{
    vector<double> v;
    int w = s.GetRasterXSize(), h = s.GetRasterYSize();
    if (!fake::read(p.GetRasterBand(1), 0, 0, w, h, v)) { mc::fail("read", "%s: %s", key, CPLGetLastErrorMsg()); return; }
    bool any = false;
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
        {
            double lat = 0, lon = 0, margin, got = v[y * w + x];
            bool on = s.where(x, y, lat, lon, margin);
            if (std::abs(margin) < 1e-8) continue;    // on the limb
            double exp = on ? want(x, y, lat, lon) : outside;
            ++mc::sh->evaluations;
            if (exp != 0 && on) { ++mc::sh->nontrivial; any = true; }
            // (close to the limb a metre is many degrees)
            if (!(std::abs(got - exp) <= tol * std::max(1.0, std::abs(exp)) + (margin > 0 ? 1e-8 / sqrt(margin) : 0)))
            {
                if (!strcmp(key, "sat_za") && exp > 1 && got == 1) mc::fail("sat_za-limited", "pixel %d,%d at %.4f,%.4f is 1 and not %.9g", x, y, lat, lon, exp);
                else mc::fail(key, "pixel %d,%d at %.4f,%.4f is %.9g and not %.9g", x, y, lat, lon, got, exp);
                return;
            }
        }
    (void)any;
}

}

MC_GROUP(days)
{
    for (int y = 1900; y <= 2200; ++y)
    {
        if (!mc::begin("days of %d", y)) continue;
        int n = 0;
        for (int m = 1; m <= 12; ++m)
            for (int d = 1; d <= month_days(y, m); ++d)
            {
                ++n;
                int j = msat::facts::jday(y, m, d);
                if (j != n) mc::fail("jday", "%d-%d-%d is day %d and not %d", y, m, d, j, n);
                mc::count();
            }
    }
    init();
    const int last = mc::thorough ? 2032 : 2004;
    for (int y = 2003; y <= last; ++y)
        for (int m = 1; m <= 12; ++m)
            for (int d = 1; d <= month_days(y, m); ++d)
            {
                if (!mc::begin("day product of %d-%d-%d", y, m, d)) continue;
                Time t = { y, m, d, d % 24, m * 4 };
                Source s(5, 3, 0, t);
                s.channel(9, GDT_Float64, 2, 2);
                JDayDataset p(&s);
                same_place(p, s, 9);
                if (p.GetRasterBand(1)->GetRasterDataType() != GDT_Int16) mc::fail("type", "of days");
                compare(p, s, 0, "jday", [&](int, int, double, double) { return t.jday(); }, t.jday());
            }
    mc::sample("each day of 1900 to 2200");
}

MC_GROUP(sun)
{
    for (int jd = 1; jd <= 366; ++jd)
    {
        if (!mc::begin("sun of day %d", jd)) continue;
        for (int q = 0; q < 96; ++q)
            for (int lat = -90; lat <= 90; lat += mc::thorough ? 5 : 15)
                for (int lon = -180; lon <= 360; lon += mc::thorough ? 15 : 36)
                {
                    double want = sun(jd, q / 4.0, lat, lon), got = msat::facts::cos_sol_za(jd, q / 4.0, lat, lon);
                    if (!(std::abs(want - got) < 1e-10)) mc::fail("sun", "day %d %g h at %d,%d is %.9g and not %.9g", jd, q / 4.0, lat, lon, got, want);
                    got = msat::facts::cos_sol_za(jd, q / 4, q % 4 * 15, lat, lon);
                    if (!(std::abs(want - got) < 1e-10)) mc::fail("sun", "day %d %02d:%02d at %d,%d is %.9g and not %.9g", jd, q / 4, q % 4 * 15, lat, lon, got, want);
                    mc::count();
                }
    }
    for (int y = 2004; y < (mc::thorough ? 2024 : 2008); ++y)
        for (int m = 1; m <= 12; ++m)
        {
            if (!mc::begin("sun of %d-%d", y, m)) continue;
            for (int d = 1; d <= month_days(y, m); d += mc::thorough ? 1 : 3)
                for (int h = 0; h < 24; ++h)
                    for (int lat = -80; lat <= 80; lat += 20)
                        for (int lon = -180; lon < 180; lon += 45)
                        {
                            double want = almanac(y, m, d, h + 0.5, lat, lon), got = msat::facts::cos_sol_za(y, m, d, h, 30, lat, lon);
                            // The series is that of an average year
                            if (!(std::abs(want - got) < 0.02)) mc::fail("almanac", "%d-%d-%d %02d:30 at %d,%d is %.9g and not %.9g", y, m, d, h, lat, lon, got, want);
                            mc::count();
                        }
        }
    mc::sample("every quarter of an hour of every day, on a grid of the Earth");
}

MC_GROUP(zenith)
{
    for (int lat = -90; lat <= 90; ++lat)
    {
        if (!mc::begin("satellite at latitude %d", lat)) continue;
        for (int lon = -540; lon <= 540; ++lon)
        {
            double want = satellite(lat, lon), got = msat::facts::sat_za(lat, lon);
            // An arc tangent of the elevation is used, which is -90 degrees at the antipode
            if (!(std::abs(want - got) < 1e-7)) mc::fail("zenith", "at %d,%d is %.12g and not %.12g", lat, lon, got, want);
            mc::count();
        }
    }
}

namespace {

void angles(unsigned k)
{
    init();
    double sublon = sublons[k];
    for (const Time& t : times)
        for (int n : { 7, 24, 61, 128 })
            for (int zoom = 0; zoom < 2; ++zoom)
            {
                if (n == 128 && !mc::thorough) continue;
                if (!mc::begin("angles of the satellite at %g, %s, %d pixels of %s", sublon, t.text().c_str(), n, zoom ? "the middle" : "the disk")) continue;
                Source s(n, n - 1, sublon, t, zoom ? 0.5 : 1);
                fake::Band* b = s.channel(4, GDT_Float32, n % 2 ? 16 : 0, n % 2 ? 9 : 1);
                // Angles do not depend on the pixels of the source
                b->bad.insert({ 0, 0 });
                {
                    CosSolZADataset p(&s);
                    same_place(p, s, 4);
                    compare(p, s, 1e-7, "cos_sol_za", [&](int, int, double lat, double lon) { return limit(sun(t.jday(), t.hour(), lat, lon), 1); });
                }
                {
                    SatZADataset p(&s);
                    same_place(p, s, 4);
                    compare(p, s, 1e-7, "sat_za", [&](int, int, double lat, double lon) { return satellite(lat, lon - sublon); });
                }
                ++mc::sh->traces;
            }
    // Sheared and mirrored images
    for (int k = 0; k < 4; ++k)
    {
        if (!mc::begin("angles of the satellite at %g, direction %d", sublon, k)) continue;
        Source s(33, 33, sublon, times[0], 0.7);
        double p = s.gt[1], h = p * 16;
        if (k == 0) s.set_gt(h, -p, 0, -h, 0, p);
        if (k == 1) s.set_gt(-h, p * 0.75, p * 0.25, h, p * 0.125, -p * 0.75);
        if (k == 2) s.set_gt(-h, 0, p, -h, p, 0);
        if (k == 3) s.set_gt(-h, p, 0, -h, 0, p);
        s.channel(4, GDT_Float32, 5, 7);
        {
            CosSolZADataset d(&s);
            compare(d, s, 1e-7, "cos_sol_za", [&](int, int, double lat, double lon) { return limit(sun(times[0].jday(), times[0].hour(), lat, lon), 1); });
        }
        SatZADataset d(&s);
        compare(d, s, 1e-7, "sat_za", [&](int, int, double lat, double lon) { return satellite(lat, lon - sublon); });
    }
}

void visible(int channel)
{
    init();
    struct { double scale, offset; } cals[] = { { 0.0191, -0.974 }, { 0.0229, -1.17 }, { 1, 0 }, { 0.02, 0.5 }, { -0.01, 8 } };
    for (double sublon : sublons)
        for (const Time& t : times)
            for (auto& c : cals)
                for (int nd = 0; nd < 4; ++nd)
                {
                    if (!mc::thorough && (&t - times + (&c - cals) + nd) % 3) continue;
                    if (!mc::begin("channel %d satellite at %g, %s, scale %g offset %g, no data %d", channel, sublon, t.text().c_str(), c.scale, c.offset, nd)) continue;
                    // All counts of 10 bits, on the middle of the disk
                    Source s(32, 32, sublon, t, 0.6);
                    bool real = nd == 3;
                    fake::Band* b = s.channel(channel, real ? GDT_Float64 : GDT_UInt16, nd == 1 ? 5 : 0, nd == 1 ? 5 : 1);
                    // (neighbours have distant values)
                    b->pixel = [&](int x, int y) { return (y * 32 + x) * 357 % 1024 + (real ? 0.25 : 0); };
                    b->scale = c.scale;
                    b->offset = c.offset;
                    b->has_nodata = nd > 0;
                    b->nodata = nd == 1 ? 0 : nd == 2 ? 714 : 357.25;
                    ReflectanceDataset p(channel);
                    p.add_source(&s);
                    p.init_rasterband();
                    same_place(p, s, channel);
                    GDALRasterBand* rb = p.GetRasterBand(1);
                    if (string(rb->GetUnitType()) != "%" || rb->GetScale() != 1 || rb->GetOffset() != 0 || rb->GetNoDataValue() != 0 || rb->GetRasterDataType() != GDT_Float32) mc::fail("band", "unit %s", rb->GetUnitType());
                    compare(p, s, 1e-5, "reflectance", [&](int x, int y, double lat, double lon) {
                        double v = b->pixel(x, y);
                        if (b->has_nodata && v == b->nodata) return 0.0;
                        return visible_reflectance(channel, v * c.scale + c.offset, t.jday(), t.hour(), lat, lon);
                    });
                    ++mc::sh->traces;
                }
    mc::sample("channel %d, all counts, 6 satellites, 6 times", channel);
}

}

MC_GROUP(angles0) { angles(0); }
MC_GROUP(angles1) { angles(1); }
MC_GROUP(angles2) { angles(2); }
MC_GROUP(angles3) { angles(3); }
MC_GROUP(angles4) { angles(4); }
MC_GROUP(angles5) { angles(5); }
MC_GROUP(visible1) { visible(1); }
MC_GROUP(visible2) { visible(2); }
MC_GROUP(visible3) { visible(3); }
MC_GROUP(visible12) { visible(12); }

// Every hour of the year
MC_GROUP(year)
{
    init();
    for (int m = 1; m <= 12; ++m)
        for (int d = 1; d <= month_days(2008, m); d += mc::thorough ? 1 : 5)
            for (int h = 0; h < 24; h += mc::thorough ? 1 : 3)
            {
                Time t = { 2008, m, d, h, (d * 7 + h) % 60 };
                if (!mc::begin("%s", t.text().c_str())) continue;
                Source s(9, 9, 0, t, 0.8);
                fake::Band* b = s.channel(2, GDT_UInt16);
                b->pixel = [](int x, int y) { return 100 + 11 * x + 7 * y; };
                b->scale = 0.03;
                b->offset = -1.5;
                ReflectanceDataset p(2);
                p.add_source(&s);
                p.init_rasterband();
                compare(p, s, 1e-5, "reflectance", [&](int x, int y, double lat, double lon) { return visible_reflectance(2, b->pixel(x, y) * 0.03 - 1.5, t.jday(), t.hour(), lat, lon); });
                CosSolZADataset c(&s);
                compare(c, s, 1e-7, "cos_sol_za", [&](int, int, double lat, double lon) { return limit(sun(t.jday(), t.hour(), lat, lon), 1); });
            }
}

namespace {

const double temps[] = { 0, 150, 180, 210, 230, 250, 265, 273.15, 280, 285, 290, 295, 300, 305, 310, 320, 335, 350 };
const int NT = sizeof(temps) / sizeof(*temps);

/// 3.9 micron: all triples of temperatures, on all pixels of an image
void triples(unsigned k)
{
    init();
    const int W = 24, HH = NT * NT * NT / W;                  // 18^3 = 24 * 243
    for (const Time& t : times)
        for (int nd = 0; nd < 3; ++nd)
        {
            if (!mc::begin("3.9 micron, satellite at %g, %s, no data %d", sublons[k], t.text().c_str(), nd)) continue;
            Source s(W, HH, sublons[k], t, 0.85);
            s.gt[1] *= 9;                                     // a tall image of the disk
            s.gt[0] *= 9;
            fake::Band* b[3];
            int ids[3] = { 4, 9, 11 };
            for (int i = 0; i < 3; ++i)
            {
                // Raw sources with a scale, and those that have other values for missing pixels
                b[i] = s.channel(ids[i], GDT_Float64, nd == 1 ? 7 + i : 0, nd == 1 ? 3 - i : 1);
                double scale = nd == 2 ? 0.5 : 1, off = nd == 2 ? 100 : 0, missing = nd == 0 ? 0 : nd == 1 ? -9999 : 32767;
                b[i]->pixel = [=](int x, int y) {
                    int n = (y * W + x) * 7 % (NT * NT * NT);
                    double v = temps[i == 0 ? n % NT : i == 1 ? n / NT % NT : n / NT / NT];
                    return v == 0 ? missing : (v - off) / scale;
                };
                b[i]->scale = scale;
                b[i]->offset = off;
                b[i]->has_nodata = true;
                b[i]->nodata = missing;
            }
            ReflectanceDataset p(4);
            p.add_source(&s);
            p.init_rasterband();
            same_place(p, s, 4);
            compare(p, s, 2e-5, "reflectance39", [&](int x, int y, double lat, double lon) {
                double v[3];
                for (int i = 0; i < 3; ++i)
                {
                    v[i] = b[i]->pixel(x, y);
                    if (v[i] == b[i]->nodata) return 0.0;
                    v[i] = v[i] * b[i]->scale + b[i]->offset;
                }
                return infrared_reflectance(v[0], v[1], v[2], t.jday(), t.hour(), lat, lon, sublons[k]);
            });
            ++mc::sh->traces;
        }
    mc::sample("%d triples of temperatures, satellite at %g", NT * NT * NT, sublons[k]);
}

}

MC_GROUP(triples0) { triples(0); }
MC_GROUP(triples1) { triples(1); }
MC_GROUP(triples2) { triples(2); }
MC_GROUP(triples3) { triples(3); }
MC_GROUP(triples4) { if (mc::thorough) triples(4); }
MC_GROUP(triples5) { if (mc::thorough) triples(5); }

namespace {

struct Infrared                                       // three sources, together or not
{
    Source* s[3];
    Infrared(int w, int h, int how, const int (*blocks)[2])
    {
        const int ids[3] = { 4, 9, 11 };
        for (int i = 0; i < 3; ++i)
        {
            bool fresh = how == 3 || i == 0 || (how == 1 && i == 2) || (how == 2 && i == 1);
            s[i] = fresh ? new Source(w, h, 9.5, times[0], 0.6) : s[how == 1 ? 0 : how == 2 ? 1 : 0];
            fake::Band* b = s[i]->channel(ids[i], GDT_Float32, blocks[i][0], blocks[i][1]);
            b->pixel = [=](int x, int y) { return 250 + 13 * ((x * 3 + y * 5 + i) % 7) - i; };
            b->has_nodata = true;
        }
    }
    static double value(int i, int x, int y) { return 250 + 13 * ((x * 3 + y * 5 + i) % 7) - i; }
    vector<Source*> files() const { vector<Source*> r; for (auto p : s) if (std::find(r.begin(), r.end(), p) == r.end()) r.push_back(p); return r; }
};

}

// Sources in every order and division in files, with other blocks; reads in
// every order
MC_GROUP(orders)
{
    init();
    const int W = 9, HH = 6;
    const int shapes[][2] = { { 9, 1 }, { 4, 4 }, { 1, 6 }, { 9, 6 }, { 16, 16 }, { 5, 2 } };
    vector<double> first;
    for (int how = 0; how < 4; ++how)
        for (unsigned s0 = 0; s0 < 6; ++s0)
            for (unsigned s1 = 0; s1 < 6; ++s1)
                for (unsigned s2 = 0; s2 < 6; ++s2)
                {
                    if (!mc::thorough && (s1 + s2) % 2) continue;
                    const int blocks[3][2] = { { shapes[s0][0], shapes[s0][1] }, { shapes[s1][0], shapes[s1][1] }, { shapes[s2][0], shapes[s2][1] } };
                    if (!mc::begin("division %d blocks %u %u %u", how, s0, s1, s2)) continue;
                    vector<unsigned> order = { 0, 1, 2 };
                    vector<vector<double>> seen;
                    do
                    {
                        int before = alive;
                        Infrared ir(W, HH, how, blocks);
                        auto files = ir.files();
                        bool own = (s0 + s1 + order[0]) % 2;
                        {
                            ReflectanceDataset p(4);
                            for (unsigned i : order) if (i < files.size()) p.add_source(files[i], own);
                            p.init_rasterband();
                            vector<double> v;
                            if (!fake::read(p.GetRasterBand(1), 0, 0, W, HH, v)) mc::fail("read", "order %u%u%u: %s", order[0], order[1], order[2], CPLGetLastErrorMsg());
                            if (!seen.empty() && v != seen[0]) mc::fail("order", "values depend on the order of sources");
                            if (!first.empty() && v != first) mc::fail("blocks", "values depend on the blocks of sources");
                            seen.push_back(v);
                            if (first.empty())
                            {
                                first = v;
                                compare(p, *ir.s[0], 2e-5, "reflectance39", [&](int x, int y, double lat, double lon) {
                                    return infrared_reflectance(Infrared::value(0, x, y), Infrared::value(1, x, y), Infrared::value(2, x, y), times[0].jday(), times[0].hour(), lat, lon, 9.5);
                                });
                            }
                            mc::count();
                        }
                        if (!own) for (auto f : files) delete f;
                        if (alive != before) mc::fail("owned", "%d sources are left", alive - before);
                        ++mc::sh->traces;
                    } while (std::next_permutation(order.begin(), order.end()));
                }
    // Windows read one after the other
    struct Win { int x, y, w, h; };
    vector<Win> wins = { { 0, 0, W, HH }, { 0, 0, 1, 1 }, { 8, 5, 1, 1 }, { 3, 1, 4, 3 }, { 0, 5, 9, 1 }, { 8, 0, 1, 6 }, { 4, 4, 5, 2 } };
    for (unsigned shape = 0; shape < 6; ++shape)
        for (long cache : { 1L, 300L, 64L << 20 })
        {
            const int blocks[3][2] = { { shapes[shape][0], shapes[shape][1] }, { 9, 1 }, { 4, 4 } };
            GDALSetCacheMax64(cache);
            Infrared ir(W, HH, 3, blocks);
            mc::all_sequences(3, wins.size(), [&](const vector<unsigned>& q) {
                if (!mc::begin("windows %u %u %u blocks %u cache %ld", q[0], q[1], q[2], shape, cache)) return;
                ReflectanceDataset p(4);
                for (auto s : ir.s) p.add_source(s);
                p.init_rasterband();
                for (unsigned k : q)
                {
                    const Win& w = wins[k];
                    vector<double> v;
                    ++mc::sh->transitions;
                    if (!fake::read(p.GetRasterBand(1), w.x, w.y, w.w, w.h, v)) { mc::fail("read", "window %u: %s", k, CPLGetLastErrorMsg()); break; }
                    for (int i = 0; i < w.w * w.h; ++i)
                        if (v[i] != first[(w.y + i / w.w) * W + w.x + i % w.w]) { mc::fail("window", "pixel %d of window %u is %.9g and not %.9g", i, k, v[i], first[(w.y + i / w.w) * W + w.x + i % w.w]); break; }
                }
                mc::count();
                ++mc::sh->traces;
            });
            for (auto s : ir.s) delete s;
        }
    mc::sh->states += 6 * wins.size() * wins.size();
}

// Blocks of every size, of images of every size, for every product
MC_GROUP(blocks)
{
    init();
    for (int w = 1; w <= 6; ++w)
        for (int h = 1; h <= 6; ++h)
            for (int bx = 1; bx <= 8; ++bx)
                for (int by = 1; by <= 8; ++by)
                {
                    if (!mc::thorough && (w + h * 2 + bx * 3 + by) % 4) continue;
                    if (!mc::begin("%dx%d in blocks of %dx%d", w, h, bx, by)) continue;
                    const Time& t = times[0];
                    Source s(w, h, 0, t, 0.5);
                    fake::Band* b = s.channel(1, GDT_UInt16, bx, by);
                    b->pixel = [](int x, int y) { return 200 + 31 * x + 57 * y; };
                    b->scale = 0.02;
                    b->offset = -1;
                    ReflectanceDataset p(1);
                    p.add_source(&s);
                    p.init_rasterband();
                    compare(p, s, 1e-5, "reflectance", [&](int x, int y, double lat, double lon) { return visible_reflectance(1, b->pixel(x, y) * 0.02 - 1, t.jday(), t.hour(), lat, lon); });
                    CosSolZADataset c(&s);
                    compare(c, s, 1e-7, "cos_sol_za", [&](int, int, double lat, double lon) { return limit(sun(t.jday(), t.hour(), lat, lon), 1); });
                    SatZADataset z(&s);
                    compare(z, s, 1e-7, "sat_za", [&](int, int, double lat, double lon) { return satellite(lat, lon); });
                    JDayDataset j(&s);
                    compare(j, s, 0, "jday", [&](int, int, double, double) { return t.jday(); }, t.jday());
                    ++mc::sh->traces;
                }
}

// Sources that do not go together, or that say too little
MC_GROUP(inconsistent)
{
    init();
    const int NK = 24;
    const int ids[3] = { 4, 9, 11 };
    for (int kind = 0; kind < NK; ++kind)
        for (unsigned which = 0; which < 3; ++which)
        {
            vector<unsigned> order = { 0, 1, 2 };
            do
            {
                if (!mc::begin("kind %d of source %u, order %u%u%u", kind, which, order[0], order[1], order[2])) continue;
                int before = alive;
                Source* s[3];
                bool refused = true, first = order[0] == which;
                for (unsigned i = 0; i < 3; ++i)
                {
                    bool odd = i == which;
                    Time t = times[0];
                    if (odd && kind == 0) ++t.mi;
                    if (odd && kind == 1) ++t.d;
                    int w = 5 + (odd && kind == 2), h = 4 - (odd && kind == 3);
                    if (odd && kind == 3) ++h, --h;
                    s[i] = new Source(w, h, odd && kind == 4 ? 0.5 : 0, t, 0.5);
                    // The geotransform of all is that of the common size
                    double p = 11000000.0 / 5 * 0.5;
                    s[i]->set_gt(-p * 2.5, p, 0, p * 2, 0, -p);
                    if (odd && kind >= 5 && kind < 11) s[i]->gt[kind - 5] += kind == 7 || kind == 9 ? 1e-3 : 1;
                    if (odd && kind == 11) s[i]->has_srs = false;
                    if (odd && kind == 12) s[i]->has_gt = false;
                    if (odd && kind == 13) s[i]->SetMetadataItem(MD_MSAT_DATETIME, nullptr, MD_DOMAIN_MSAT);
                    fake::Band* b = s[i]->channel(odd && kind == 14 ? 0 : odd && kind == 15 ? 13 : odd && kind == 16 ? ids[(i + 1) % 3] : ids[i], GDT_Float32);
                    if (odd && kind == 17) b->SetMetadataItem(MD_MSAT_CHANNEL_ID, nullptr, MD_DOMAIN_MSAT);
                    if (odd && kind == 18) b->has_scale = false;
                    if (kind == 19) refused = false;
                    if (odd && kind == 20) s[i]->SetMetadataItem("OTHER", "x", MD_DOMAIN_MSAT), refused = false;
                    if (odd && kind == 21) { b->scale = 0.5; b->offset = 100; refused = false; }
                    if (odd && kind == 22) { OGRSpatialReference o; o.SetGEOS(0, 35785831 + 1000, 0, 0); o.SetGeogCS("x", "x", "x", 6378169, 295.488065897); s[i]->set_srs(o); }
                    if (odd && kind == 23) { OGRSpatialReference o; o.SetWellKnownGeogCS("WGS84"); s[i]->set_srs(o); }
                    b->pixel = [](int x, int y) { return 280 + x + y; };
                }
                (void)first;
                bool ok = true;
                {
                    ReflectanceDataset p(4);
                    bool given[3] = { false, false, false };
                    try
                    {
                        for (unsigned i : order) { given[i] = true; p.add_source(s[i], true); }
                        p.init_rasterband();
                    }
                    catch (std::exception&) { ok = false; }
                    for (unsigned i = 0; i < 3; ++i) if (!given[i]) delete s[i];
                    vector<double> v;
                    if (ok && !fake::read(p.GetRasterBand(1), 0, 0, p.GetRasterXSize(), p.GetRasterYSize(), v)) mc::fail("read", "kind %d: %s", kind, CPLGetLastErrorMsg());
                }
                if (ok == refused) mc::fail("inconsistent", "kind %d of source %u is %s", kind, which, ok ? "accepted" : "refused");
                if (alive != before) mc::fail("owned", "kind %d: %d sources are left", kind, alive - before);
                mc::count();
                ++mc::sh->traces;
            } while (std::next_permutation(order.begin(), order.end()));
        }
    // Channels that have no reflectance, or are not there
    for (int ch = -1; ch <= 14; ++ch)
        for (int have = 0; have <= 13; ++have)
        {
            if (!mc::begin("reflectance of channel %d from channel %d", ch, have)) continue;
            Source s(3, 3, 0, times[0]);
            s.channel(have, GDT_Float32);
            bool ok = true;
            try
            {
                ReflectanceDataset p(ch);
                p.add_source(&s);
                p.init_rasterband();
            }
            catch (std::exception&) { ok = false; }
            bool want = ch == have && (ch == 1 || ch == 2 || ch == 3 || ch == 12);
            if (ok != want) mc::fail("channel", "reflectance of channel %d from channel %d is %s", ch, have, ok ? "made" : "refused");
            mc::count();
        }
    // Sources that cannot be read
    for (int bad = 0; bad < 3; ++bad)
    {
        if (!mc::begin("unreadable source %d", bad)) continue;
        Source s(5, 4, 0, times[0]);
        for (int i = 0; i < 3; ++i)
        {
            fake::Band* b = s.channel(ids[i], GDT_Float32);
            b->pixel = [](int, int) { return 290; };
            if (i == bad) b->bad.insert({ 0, 2 });
        }
        ReflectanceDataset p(4);
        p.add_source(&s);
        p.init_rasterband();
        for (int y = 0; y < 4; ++y)
        {
            vector<double> v;
            if (fake::read(p.GetRasterBand(1), 0, y, 5, 1, v) != (y != 2)) mc::fail("unreadable", "line %d of a source with a bad line 2", y);
        }
        mc::count();
    }
}

// The MSAT_COMPUTE open option
MC_GROUP(option)
{
    init();
    const char* vals[] = { nullptr, "reflectance", "sat_za", "cos_sol_za", "jday", "", "REFLECTANCE", "reflectanc", "nonsense" };
    for (const char* val : vals)
        for (int ch = 0; ch <= 13; ++ch)
            for (int lack = 0; lack < 5; ++lack)
            {
                if (!mc::begin("option %s channel %d lacking %d", val ? val : "none", ch, lack)) continue;
                int before = alive;
                auto* s = new Source(5, 4, 41.5, times[1], 0.6);
                fake::Band* b = s->channel(ch, GDT_UInt16, 3, 2);
                b->pixel = [](int x, int y) { return 100 + 50 * x + 33 * y; };
                b->scale = 0.02;
                b->offset = -1;
                if (lack == 1) s->has_srs = false;
                if (lack == 2) s->has_gt = false;
                if (lack == 3) s->SetMetadataItem(MD_MSAT_DATETIME, lack == 3 ? nullptr : "", MD_DOMAIN_MSAT);
                if (lack == 4) { if (!val || strcmp(val, "reflectance")) { delete s; continue; } b->SetMetadataItem(MD_MSAT_CHANNEL_ID, nullptr, MD_DOMAIN_MSAT); }
                GDALOpenInfo info("nothing", GA_ReadOnly);
                CPLStringList opts;
                opts.AddNameValue("OTHER", "reflectance");
                if (val) opts.AddNameValue("MSAT_COMPUTE", val);
                info.papszOpenOptions = opts.List();
                GDALDataset* r = nullptr;
                bool threw = false;
                try { r = msat::gdal::add_extras(s, &info); }
                catch (std::exception&) { threw = true; }
                info.papszOpenOptions = nullptr;
                string v = val ? val : "";
                bool want = !val || (!lack && ((v == "reflectance" && (ch == 1 || ch == 2 || ch == 3 || ch == 12)) || v == "sat_za" || v == "cos_sol_za" || v == "jday"));
                // (whatever a source without a place is asked to be)
                if (!r == want) mc::fail("option", "%s of channel %d lacking %d is %s", val ? val : "none", ch, lack, r ? "opened" : threw ? "refused by exception" : "refused");
                if (r && val && want)
                {
                    Source like(5, 4, 41.5, times[1], 0.6);
                    same_place(*r, like, ch);
                    const Time& t = times[1];
                    compare(*r, like, 1e-5, val, [&](int x, int y, double lat, double lon) {
                        if (v == "jday") return (double)t.jday();
                        if (v == "sat_za") return satellite(lat, lon - 41.5);
                        if (v == "cos_sol_za") return limit(sun(t.jday(), t.hour(), lat, lon), 1);
                        return visible_reflectance(ch, (100 + 50 * x + 33 * y) * 0.02 - 1, t.jday(), t.hour(), lat, lon);
                    }, v == "jday" ? t.jday() : 0);
                }
                delete r;
                if (alive != before) mc::fail("owned", "option %s of channel %d lacking %d: %d images are left", val ? val : "none", ch, lack, alive - before);
                mc::count();
                ++mc::sh->traces;
            }
}

namespace {

struct Chan { int id; const char* name; };
const Chan chans[12] = { { 1, "VIS006" }, { 2, "VIS008" }, { 3, "IR_016" }, { 4, "IR_039" }, { 5, "WV_062" }, { 6, "WV_073" },
                         { 7, "IR_087" }, { 8, "IR_097" }, { 9, "IR_108" }, { 10, "IR_120" }, { 11, "IR_134" }, { 12, "HRV" } };

unsigned sample(int ch, int l, int c) { return 1 + (unsigned)(l * 37 + c * 101 + ch * 53) % 1023; }

synth::Image xrit(int ch, const Time& t, float lon)
{
    synth::Image img;
    img.dir = mc::work + "/x";
    img.channel = chans[ch - 1].name;
    img.channel_id = ch;
    img.timing = mc::fmt("%04d%02d%02d%02d%02d", t.y, t.m, t.d, t.h, t.mi);
    img.acq_day = synth::day1958(t.y, t.m, t.d);
    img.acq_ms = (t.h * 60 + t.mi) * 60000;
    img.longitude = lon;
    // One segment, in the middle of the disk
    img.columns = ch == 12 ? 5568 : 3712;
    img.seglines = 8;
    img.segments = 464;
    if (ch == 12) img.segments = 1392;
    img.sample = [ch](int l, int c) { return sample(ch, l, c); };
    // Like real ones, so that brightness temperatures and reflectances are ordinary
    const double real[12][2] = { { 0.0201, -1.026 }, { 0.0259, -1.32 }, { 0.0221, -1.13 }, { 0.00366, -0.187 }, { 0.00831, -0.424 }, { 0.0386, -1.97 },
                                 { 0.127, -6.46 }, { 0.104, -5.29 }, { 0.205, -10.46 }, { 0.222, -11.33 }, { 0.158, -8.04 }, { 0.0308, -1.57 } };
    for (int i = 0; i < 12; ++i) { img.slope[i] = real[i][0]; img.offset[i] = real[i][1]; }
    return img;
}

double bt(const synth::Image& img, unsigned count)
{
    static const double nu[] = { 2569.094, 1598.566, 1362.142, 1149.083, 1034.345, 930.659, 839.661, 752.381 },
                        a[] = { 0.9959, 0.9963, 0.9991, 0.9996, 0.9999, 0.9983, 0.9988, 0.9981 }, b[] = { 3.471, 2.2219, 0.485, 0.181, 0.060, 0.627, 0.397, 0.576 };
    int c = img.channel_id - 4;
    double r = count * img.slope[c + 3] + img.offset[c + 3];
    if (r <= 0) return 0;
    return std::max(0.0, (1.43877 * nu[c] / std::log1p(1.19104e-5 * nu[c] * nu[c] * nu[c] / r) - b[c]) / a[c]);
}

/// Open files with a suffix or option
void files(unsigned part)
{
    init();
    const char* products[] = { "r", "a", "=reflectance", "=sat_za", "=cos_sol_za", "=jday", "=nothing" };
    for (const Time& t : { times[0], times[3] })
        for (float lon : { 0.0f, 9.5f, 41.5f })
            for (int lack = 0; lack < 4; ++lack)          // channel that is not there
            {
                if (!mc::thorough && lack && (lon != 0 || t.m != 11)) continue;
                const int lacks[] = { 0, 4, 9, 11 };
                if (part ? lack != 0 && lack != 2 : false) {}
                if (!mc::begin("write %s at %g lacking %d", t.text().c_str(), lon, lacks[lack])) continue;
                mc::clean(mc::work + "/x");
                mc::make_dirs(mc::work + "/x");
                const int SEG = 233;                      // of 464: lines 1856 to 1863 from the south
                const int first = (SEG - 1) * 8;
                bool pro = false;
                for (int ch = 1; ch <= 12; ++ch)
                {
                    if (ch == lacks[lack]) continue;
                    synth::Image img = xrit(ch, t, lon);
                    if (!pro) { img.write_prologue(); img.write_epilogue(); pro = true; }
                    img.write_segment(ch == 12 ? 698 : SEG);
                }
                for (auto& c : chans)
                    for (const char* pr : products)
                    {
                        if (c.id % 2 != (int)part) continue;
                        if (!mc::begin("%s%s at %s, %g lacking %d", c.name, pr, t.text().c_str(), lon, lacks[lack])) continue;
                        synth::Image img = xrit(c.id, t, lon);
                        CPLStringList opts;
                        if (*pr == '=') opts.AddNameValue("MSAT_COMPUTE", pr + 1); else img.channel += pr;
                        GDALDataset* ds = (GDALDataset*)GDALOpenEx(img.short_name().c_str(), GDAL_OF_RASTER | GDAL_OF_READONLY, nullptr, opts.List(), nullptr);
                        string p = pr;
                        bool refl = p == "r" || p == "=reflectance", solar = c.id <= 3 || c.id == 12;
                        bool want = c.id != lacks[lack] && p != "=nothing" && (!refl || solar || (p == "r" && c.id == 4 && lack == 0));
                        if (!ds != !want) { mc::fail("open", "%s%s lacking %d is %s", c.name, pr, lacks[lack], ds ? "opened" : CPLGetLastErrorMsg()); delete ds; continue; }
                        mc::count(want);
                        ++mc::sh->traces;
                        if (!ds) continue;
                        bool hrv = c.id == 12;
                        int n = hrv ? 11136 : 3712, f = hrv ? 697 * 8 : first;
                        double gt[6];
                        ds->GetGeoTransform(gt);
                        // Lines of the segment, and one that is missing
                        for (int south : { f, f + 3, f + 7, f + 8 })
                        {
                            if (hrv && south != f + 3 && !mc::thorough) continue;
                            vector<double> v;
                            int line = n - 1 - south;
                            if (!fake::read(ds->GetRasterBand(1), 0, line, n, 1, v)) { mc::fail("read", "%s%s: %s", c.name, pr, CPLGetLastErrorMsg()); break; }
                            bool have = south < f + 8;
                            int start = 0;
                            if (hrv) start = 11136 - (11136 - line <= img.hrv.ln ? img.hrv.lw : img.hrv.uw);
                            for (int x = 0; x < n; ++x)
                            {
                                double lat, lon_, margin;
                                bool on = position(gt[0] + x * gt[1], gt[3] + line * gt[5], lon, lat, lon_, margin);
                                if (std::abs(margin) < 1e-8) continue;
                                double exp = 0;
                                if (p == "=jday") exp = t.jday();
                                else if (!on) exp = 0;
                                else if (p == "=sat_za") exp = satellite(lat, lon_ - lon);
                                else if (!refl) exp = limit(sun(t.jday(), t.hour(), lat, lon_), 1);
                                else if (!have || x < start || x >= start + img.columns) exp = 0;
                                else if (c.id == 4)
                                {
                                    double b[3];
                                    const int ids[] = { 4, 9, 11 };
                                    for (int i = 0; i < 3; ++i) b[i] = bt(xrit(ids[i], t, lon), sample(ids[i], south, x));
                                    exp = b[0] && b[1] && b[2] ? infrared_reflectance(b[0], b[1], b[2], t.jday(), t.hour(), lat, lon_, lon) : 0;
                                }
                                else exp = visible_reflectance(c.id, sample(c.id, south, x - start) * img.slope[c.id - 1] + img.offset[c.id - 1], t.jday(), t.hour(), lat, lon_);
                                ++mc::sh->evaluations;
                                if (!(std::abs(v[x] - exp) <= 1e-4 * std::max(1.0, exp) + (margin > 0 ? 1e-6 / sqrt(margin) : 0)))
                                {
                                    if (p == "=sat_za" && exp > 1 && v[x] == 1) mc::fail("sat_za-limited", "%s column %d line %d is 1 and not %.9g", c.name, x, line, exp);
                                    else mc::fail("file", "%s%s column %d line %d is %.9g and not %.9g", c.name, pr, x, line, v[x], exp);
                                    break;
                                }
                            }
                        }
                        delete ds;
                    }
            }
}

}

MC_GROUP(files_even) { files(0); }
MC_GROUP(files_odd) { files(1); }
