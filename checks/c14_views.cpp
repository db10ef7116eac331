// C14: calibrated and proxy views show source values scaled, and nothing else
// changed
//
// Complete enumeration of raw values and calibrations, band types, attributes,
// and histories of reads through views over data sets of any block shape.
#include "mc.hpp"
#include "enumerate.hpp"
#include "fake.hpp"
#include "synth.hpp"
#include <msat/gdal/dataset.h>
#include "gdal/xrit/xrit.h"
#include <limits>

using std::string;
using std::vector;
using msat::dataset::CalibratedDataset;

namespace {

struct Init { Init() { CPLSetErrorHandler(CPLQuietErrorHandler); GDALRegister_MEM(); GDALRegister_GTiff(); GDALRegister_MsatXRIT(); } };
void init() { static Init i; }

const double calib[][2] = {
    { 1, 0 }, { 0.5, 0 }, { 2, -3 }, { -1, 0 }, { -0.25, 100 }, { 0.0231, -1.1783 }, { 0.2054, -10.4757 },
    { 1e-7, 1 }, { 1e30, 0 }, { 0, 5 }, { 0, 0 }, { 1000, -0.001 }, { -0.0231, 1.1783 }, { 1, 65536 },
};
const unsigned NC = sizeof(calib) / sizeof(calib[0]);

float want_cal(double raw, double scale, double ofs) { return (float)(raw * scale + ofs); }

bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

}

// Every raw value with every calibration
MC_GROUP(values)
{
    init();
    static const int shapes[][2] = { { 256, 1 }, { 256, 256 }, { 1, 1 }, { 7, 5 }, { 300, 300 }, { 64, 32 } };
    for (unsigned c = 0; c < NC; ++c)
        for (auto& s : shapes)
        {
            if (s[0] == 1 && !mc::thorough && c % 5) continue;
            if (!mc::begin("scale %g offset %g blocks %dx%d", calib[c][0], calib[c][1], s[0], s[1])) continue;
            fake::Dataset ds(256, 256);
            fake::Band* b = ds.add(GDT_UInt16, s[0], s[1]);
            b->pixel = [](int x, int y) { return y * 256 + x; };
            b->scale = calib[c][0];
            b->offset = calib[c][1];
            CalibratedDataset v(ds);
            GDALRasterBand* vb = v.GetRasterBand(1);
            if (vb->GetRasterDataType() != GDT_Float32 && vb->GetRasterDataType() != GDT_Float64) mc::fail("type", "a calibrated band is of type %s", GDALGetDataTypeName(vb->GetRasterDataType()));
            vector<double> d;
            if (!fake::read(vb, 0, 0, 256, 256, d)) { mc::fail("read", "read failed"); continue; }
            for (unsigned i = 0; i < 65536; ++i)
            {
                double w = want_cal(i, b->scale, b->offset);
                // As precise as a float
                if ((float)d[i] != (float)w) { mc::fail("value", "raw %u is %.9g and not %.9g", i, d[i], w); break; }
            }
            int ok = 0;
            if (vb->GetScale(&ok) != 1 || vb->GetOffset(&ok) != 0) mc::fail("scale", "the view of calibrated values has scale %g and offset %g", vb->GetScale(), vb->GetOffset());
            if (vb->GetScale(nullptr) != 1 || vb->GetOffset(nullptr) != 0) mc::fail("scale", "scale and offset");
            mc::count();
            mc::sh->transitions += 65536;
        }
    mc::sample("raw 1000 with scale 0.0231 and offset -1.1783: 21.9217");
}

namespace {

const GDALDataType types[] = { GDT_Byte, GDT_Int8, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_UInt64, GDT_Int64, GDT_Float32, GDT_Float64, GDT_CInt16, GDT_CInt32, GDT_CFloat32, GDT_CFloat64 };
const unsigned NT = sizeof(types) / sizeof(types[0]);

void check_band(GDALRasterBand* v, fake::Band* b, const string& what)
{
    bool cal = b->GetRasterDataType() == GDT_UInt16;
    if (!cal && v->GetRasterDataType() != b->GetRasterDataType()) mc::fail("type", "%s: type %s instead of %s", what.c_str(), GDALGetDataTypeName(v->GetRasterDataType()), GDALGetDataTypeName(b->GetRasterDataType()));
    if (v->GetXSize() != b->GetXSize() || v->GetYSize() != b->GetYSize()) mc::fail("band size", "%s: band of %dx%d", what.c_str(), v->GetXSize(), v->GetYSize());
    int w = b->GetXSize(), h = b->GetYSize();
    vector<double> d, s;
    if (!fake::read(v, 0, 0, w, h, d) || !fake::read(b, 0, 0, w, h, s)) { mc::fail("read", "%s: read failed", what.c_str()); return; }
    for (int i = 0; i < w * h; ++i)
    {
        double want = cal ? want_cal(s[i], b->scale, b->offset) : s[i];
        if (cal ? (float)d[i] != (float)want : !same(d[i], want)) { mc::fail("value", "%s: pixel %d is %.17g and not %.17g", what.c_str(), i, d[i], want); break; }
    }
    // Attributes
    for (int null = 0; null < 2; ++null)
    {
        int bmin = -1, bmax = -1, bnd = -1, vmin = -1, vmax = -1, vnd = -1;
        double xmin = b->GetMinimum(&bmin), xmax = b->GetMaximum(&bmax), xnd = b->GetNoDataValue(&bnd);
        double gmin = v->GetMinimum(null ? nullptr : &vmin), gmax = v->GetMaximum(null ? nullptr : &vmax), gnd = v->GetNoDataValue(null ? nullptr : &vnd);
        if (cal)
        {
            xmin = xmin * b->scale + b->offset;
            xmax = xmax * b->scale + b->offset;
            if (b->scale < 0) { std::swap(xmin, xmax); std::swap(bmin, bmax); }
            xnd = (float)(xnd * b->scale + b->offset);
        }
        if (null) { vmin = bmin; vmax = bmax; vnd = bnd; }
        if (!!vmin != !!bmin || (bmin && (float)gmin != (float)xmin)) mc::fail("minimum", "%s: minimum %g (%d) instead of %g (%d)", what.c_str(), gmin, vmin, xmin, bmin);
        if (!!vmax != !!bmax || (bmax && (float)gmax != (float)xmax)) mc::fail("maximum", "%s: maximum %g (%d) instead of %g (%d)", what.c_str(), gmax, vmax, xmax, bmax);
        // Missing pixels stay missing, and the others do not become so
        if (!!vnd != !!bnd || (bnd && !same((float)gnd, (float)xnd))) mc::fail("no data", "%s: no data value %g (%d) instead of %g (%d)", what.c_str(), gnd, vnd, xnd, bnd);
    }
    int ok1 = -1, ok2 = -1;
    if (cal) { if (v->GetScale(&ok1) != 1 || v->GetOffset(&ok2) != 0) mc::fail("scale", "%s: scale and offset still apply", what.c_str()); }
    else if (!same(v->GetScale(&ok1), b->scale) || !!ok1 != b->has_scale || !same(v->GetOffset(&ok2), b->offset) || !!ok2 != b->has_scale) mc::fail("scale", "%s: scale %g offset %g of another band type", what.c_str(), v->GetScale(), v->GetOffset());
    if (string(v->GetUnitType()) != b->unit) mc::fail("unit", "%s: unit '%s'", what.c_str(), v->GetUnitType());
    if (v->GetColorInterpretation() != b->interp) mc::fail("colours", "%s: colour interpretation %d", what.c_str(), v->GetColorInterpretation());
    if (!!v->GetColorTable() != !!b->table || (b->table && !v->GetColorTable()->IsSame(b->table.get()))) mc::fail("colours", "%s: colour table", what.c_str());
    string c1, c2;
    for (char** c = v->GetCategoryNames(); c && *c; ++c) c1 += string(*c) + ";";
    for (char** c = b->GetCategoryNames(); c && *c; ++c) c2 += string(*c) + ";";
    if (c1 != c2) mc::fail("categories", "%s: categories %s", what.c_str(), c1.c_str());
}

string md(GDALMajorObject* o)
{
    string s = string("[") + o->GetDescription() + "]";
    CPLStringList l(o->GetMetadataDomainList(), TRUE);
    std::set<string> names;
    for (int i = 0; i < l.size(); ++i) names.insert(l[i]);
    for (const char* d : { "", "MSAT", "RPC", "OTHER" }) names.insert(d);
    for (auto& n : names)
    {
        s += "{" + n + "}";
        for (char** m = o->GetMetadata(n.c_str()); m && *m; ++m)
        {
            s += string(*m) + "|";
            string k(*m);
            k = k.substr(0, k.find('='));
            const char* v = o->GetMetadataItem(k.c_str(), n.c_str());
            s += string(v ? v : "(null)") + "|";
        }
    }
    s += "domains:";
    for (int i = 0; i < l.size(); ++i) s += string(l[i]) + ",";
    return s;
}

void check_md(GDALMajorObject* v, GDALMajorObject* s, const string& what)
{
    if (md(v) != md(s)) mc::fail("metadata", "%s: metadata %s and not %s", what.c_str(), md(v).c_str(), md(s).c_str());
    if (v->GetMetadataItem("NOTHING", "") || v->GetMetadataItem("NOTHING", "NOWHERE") || v->GetMetadata("NOWHERE")) mc::fail("metadata", "%s: invented metadata", what.c_str());
}

void check_ds(CalibratedDataset& v, fake::Dataset& ds, const string& what)
{
    if (v.GetRasterXSize() != ds.GetRasterXSize() || v.GetRasterYSize() != ds.GetRasterYSize()) mc::fail("size", "%s: size %dx%d", what.c_str(), v.GetRasterXSize(), v.GetRasterYSize());
    if (v.GetRasterCount() != ds.GetRasterCount()) { mc::fail("bands", "%s: %d bands and not %d", what.c_str(), v.GetRasterCount(), ds.GetRasterCount()); return; }
    check_md(&v, &ds, what);
    GDALDataset& gv = v;
    double a[6] = { 0 }, b[6] = { 0 };
    CPLErr ra = gv.GetGeoTransform(a), rb = ds.GetGeoTransform(b);
    if (ra != rb || (rb == CE_None && memcmp(a, b, sizeof(a)))) mc::fail("geotransform", "%s: geotransform", what.c_str());
    auto cmp = [&](const OGRSpatialReference* x, const OGRSpatialReference* y, const char* which) {
        if (!x != !y || (x && !x->IsSame(y))) mc::fail("spatial reference", "%s: spatial reference of the %s", what.c_str(), which);
    };
    cmp(gv.GetSpatialRef(), ds.GetSpatialRef(), "image");
    cmp(gv.GetGCPSpatialRef(), ds.GetGCPSpatialRef(), "control points");
    if (string(gv.GetProjectionRef()) != ds.GetProjectionRef()) mc::fail("spatial reference", "%s: projection %s", what.c_str(), gv.GetProjectionRef());
    if (gv.GetGCPCount() != ds.GetGCPCount()) mc::fail("control points", "%s: %d control points", what.c_str(), gv.GetGCPCount());
    else for (int i = 0; i < ds.GetGCPCount(); ++i)
    {
        auto &p = gv.GetGCPs()[i], &q = ds.GetGCPs()[i];
        if (p.dfGCPPixel != q.dfGCPPixel || p.dfGCPLine != q.dfGCPLine || p.dfGCPX != q.dfGCPX || p.dfGCPY != q.dfGCPY || p.dfGCPZ != q.dfGCPZ) mc::fail("control points", "%s: control point %d", what.c_str(), i);
    }
    CPLStringList fa(gv.GetFileList(), TRUE), fb(ds.GetFileList(), TRUE);
    string sa, sb;
    for (int i = 0; i < fa.size(); ++i) sa += string(fa[i]) + ";";
    for (int i = 0; i < fb.size(); ++i) sb += string(fb[i]) + ";";
    if (sa != sb) mc::fail("files", "%s: files %s", what.c_str(), sa.c_str());
    if (gv.GetDriver() != ds.GetDriver()) mc::fail("driver", "%s: driver", what.c_str());
    for (int i = 1; i <= ds.GetRasterCount(); ++i)
    {
        GDALRasterBand* b = gv.GetRasterBand(i);
        check_band(b, ds.band(i), what + mc::fmt(" band %d", i));
        check_md(b, ds.band(i), what + mc::fmt(" band %d", i));
        if (b->GetBand() != i || b->GetDataset() != &v) mc::fail("band", "%s: band %d is number %d", what.c_str(), i, b->GetBand());
    }
}

}

// All tuples of band types
MC_GROUP(types)
{
    init();
    for (unsigned n = 0; n <= (mc::thorough ? 3 : 2); ++n)
        mc::all_sequences(n, NT, [&](const vector<unsigned>& t) {
            string name;
            for (unsigned i : t) name += string(" ") + GDALGetDataTypeName(types[i]);
            if (!mc::begin("types%s", name.c_str())) return;
            fake::Dataset ds(5, 4);
            unsigned k = 0;
            for (unsigned i : t)
            {
                fake::Band* b = ds.add(types[i], 2 + k, 3);
                bool f = types[i] == GDT_Float32 || types[i] == GDT_Float64;
                b->pixel = [k, f](int x, int y) { return x == 4 && y == 3 && f ? std::numeric_limits<double>::quiet_NaN() : k * 40 + x * 7 + y; };
                b->scale = 0.25 * (k + 1);
                b->offset = 3 - (double)k;
                b->SetDescription(mc::fmt("band %u", k).c_str());
                b->SetMetadataItem("N", mc::fmt("%u", k).c_str());
                b->unit = mc::fmt("u%u", k);
                ++k;
            }
            CalibratedDataset v(ds);
            check_ds(v, ds, "types" + name);
            mc::count(n > 0);
        });
}

// All combinations of attributes of a band
MC_GROUP(attributes)
{
    init();
    const double inf = std::numeric_limits<double>::infinity();
    const double nds[] = { 0, 1, 255, 65535, -1, 1e10, 0.5, inf, NAN };
    for (GDALDataType t : { GDT_UInt16, GDT_Byte, GDT_Float32 })
        for (unsigned c = 0; c < NC; ++c)
            for (unsigned has = 0; has < 16; ++has)
                for (unsigned n = 0; n < ((has & 4) ? sizeof(nds) / sizeof(nds[0]) : 1); ++n)
                {
                    if (!mc::begin("%s scale %g offset %g attributes %u no data %g", GDALGetDataTypeName(t), calib[c][0], calib[c][1], has, nds[n])) continue;
                    fake::Dataset ds(3, 2);
                    fake::Band* b = ds.add(t, 3, 1);
                    b->pixel = [](int x, int y) { return x + y * 100; };
                    b->has_min = has & 1;
                    b->has_max = has & 2;
                    b->has_nodata = has & 4;
                    b->has_scale = has & 8;
                    b->min = 12;
                    b->max = 1013;
                    b->nodata = nds[n];
                    b->scale = calib[c][0];
                    b->offset = calib[c][1];
                    CalibratedDataset v(ds);
                    check_ds(v, ds, mc::fmt("attributes %u", has));
                    mc::count();
                }
    for (unsigned has = 0; has < 256; ++has)
        for (GDALDataType t : { GDT_UInt16, GDT_Byte })
        {
            if (!mc::begin("%s information %u", GDALGetDataTypeName(t), has)) continue;
            fake::Dataset ds(3, 2);
            fake::Band* b = ds.add(t, 3, 1);
            if (has & 1) b->unit = "mW";
            if (has & 2) b->interp = GCI_GrayIndex;
            if (has & 4)
            {
                b->table.reset(new GDALColorTable);
                GDALColorEntry e = { 1, 2, 3, 4 };
                b->table->SetColorEntry(3, &e);
                b->interp = GCI_PaletteIndex;
            }
            if (has & 8) { b->categories.AddString("sea"); b->categories.AddString("land"); }
            if (has & 16) { b->SetMetadataItem("MSAT_CHANNELID", "4"); b->SetMetadataItem("A", "1", "OTHER"); }
            if (has & 32) b->SetDescription("IR_108");
            if (has & 64) ds.SetMetadataItem("MSAT_DATETIME", "2009-11-11 11:30:00");
            if (has & 128) { ds.SetMetadataItem("X", "1", "OTHER"); ds.SetDescription("a data set"); }
            CalibratedDataset v(ds);
            check_ds(v, ds, mc::fmt("information %u", has));
            mc::count();
        }
    OGRSpatialReference geos, wgs;
    msat::dataset::set_spaceview(geos, 9.5);
    wgs.SetWellKnownGeogCS("WGS84");
    for (unsigned has = 0; has < 64; ++has)
    {
        if (!mc::begin("georeference %u", has)) continue;
        fake::Dataset ds(6, 5);
        ds.add(GDT_UInt16, 3, 1);
        if (has & 1) ds.set_srs(has & 16 ? wgs : geos);
        if (has & 2) ds.set_gt(-100, 3, 0.5, 200, 0.25, -3);
        if (has & 4) { ds.add_gcp(0, 0, 10, 20); ds.add_gcp(5, 4, 11, 22); ds.add_gcp(0.5, 4, 13, 22); }
        if (has & 8) { ds.gcp_srs = wgs; ds.has_gcp_srs = true; }
        if (has & 32) { ds.files.AddString("/a/b"); ds.files.AddString("/a/c"); }
        CalibratedDataset v(ds);
        check_ds(v, ds, mc::fmt("georeference %u", has));
        mc::count();
    }
}

namespace {

// Histories of reads of windows through the view and the source
void histories(int bx, int by, unsigned kind)
{
    init();
    const int W = 5, H = 4;
    vector<std::array<int, 4>> win;
    for (int x = 0; x < W; ++x)
        for (int y = 0; y < H; ++y)
            for (int w = 1; x + w <= W; ++w)
                for (int h = 1; y + h <= H; ++h)
                    if (mc::thorough || ((w < 3 || x + w == W) && (h < 3 || y + h == H) && (x + 2 * y) % 3 != 1)) win.push_back({ x, y, w, h });
    unsigned n = win.size();
    // kinds: all blocks good; one bad; one bad that becomes good
    for (unsigned i = 0; i < n; ++i)
    {
        string name = mc::fmt("blocks %dx%d kind %u window %u", bx, by, kind, i);
        if (!mc::begin("%s", name.c_str())) continue;
        for (unsigned j = 0; j < n; ++j)
            for (unsigned flush = 0; flush < 3; ++flush)
            {
                fake::Dataset ds(W, H);
                fake::Band* b[3];
                for (unsigned k = 0; k < 3; ++k)
                {
                    b[k] = ds.add(k == 1 ? GDT_Byte : GDT_UInt16, bx, by);
                    b[k]->pixel = [k](int x, int y) { return k * 60 + y * 10 + x + (k == 2 ? 60000 : 0); };
                    b[k]->scale = 0.5 + k;
                    b[k]->offset = -7.0 * k;
                }
                std::pair<int, int> bad(1 % ((W + bx - 1) / bx), 1 % ((H + by - 1) / by));
                if (kind) b[0]->bad.insert(bad);
                CalibratedDataset v(ds);
                unsigned step = 0;
                for (unsigned q : { i, j, i })
                {
                    auto& w = win[q];
                    unsigned k = (step == 1 ? j : i + step) % 3;
                    if (step == 1 && flush == 1) { v.FlushCache(false); ds.FlushCache(false); }
                    if (step == 1 && flush == 2) { vector<double> d; fake::read(b[k], w[0], w[1], w[2], w[3], d); }
                    if (step == 2 && kind == 2) b[0]->bad.clear();
                    vector<double> d;
                    bool ok = fake::read(v.GetRasterBand(k + 1), w[0], w[1], w[2], w[3], d);
                    ++mc::sh->transitions;
                    bool hit = kind && !(kind == 2 && step == 2) && k == 0 && w[0] / bx <= bad.first && (w[0] + w[2] - 1) / bx >= bad.first && w[1] / by <= bad.second && (w[1] + w[3] - 1) / by >= bad.second;
                    if (ok == hit) mc::fail("error", "%s: window %u after %u is %s", name.c_str(), q, i, ok ? "read, and the source cannot" : "not read");
                    if (ok && !hit)
                        for (int p = 0; p < w[2] * w[3]; ++p)
                        {
                            double raw = b[k]->pixel(w[0] + p % w[2], w[1] + p / w[2]), want = k == 1 ? raw : want_cal(raw, b[k]->scale, b[k]->offset);
                            if ((float)d[p] != (float)want) { mc::fail("history", "%s: pixel %d of window %u (%d %d %d %d) of band %u is %g and not %g", name.c_str(), p, q, w[0], w[1], w[2], w[3], k + 1, d[p], want); break; }
                        }
                    ++step;
                }
                ++mc::sh->traces;
            }
        ++mc::sh->states;
        mc::count();
    }
}

}

#define HIST(bx, by) MC_GROUP(reads_##bx##_##by) { for (unsigned k = 0; k < 3; ++k) histories(bx, by, k); }
HIST(1, 1)
HIST(2, 3)
HIST(5, 1)
HIST(5, 4)
HIST(3, 2)
HIST(8, 8)

MC_GROUP(large)
{
    init();
    // Blocks that are as large as the image
    static const int sizes[][2] = { { 3712, 64 }, { 3712, 464 }, { 2048, 2048 }, { 11136, 464 }, { 4200000, 1 }, { 1, 4200000 }, { 3712, 3712 } };
    for (auto& s : sizes)
    {
        if (!mc::thorough && (size_t)s[0] * s[1] > 6000000) continue;
        if (!mc::begin("block of %d x %d", s[0], s[1])) continue;
        string log;
        int rc = mc::isolated([&] {
            fake::Dataset ds(s[0], s[1]);
            fake::Band* b = ds.add(GDT_UInt16, s[0], s[1]);
            b->pixel = [](int x, int y) { return (x * 7 + y * 13) & 0xffff; };
            b->scale = 0.5;
            b->offset = -3;
            CalibratedDataset v(ds);
            for (int x : { 0, s[0] / 2, s[0] - 1 })
                for (int y : { 0, s[1] / 2, s[1] - 1 })
                {
                    vector<double> d;
                    if (!fake::read(v.GetRasterBand(1), x, y, 1, 1, d)) return 2;
                    if ((float)d[0] != want_cal((x * 7 + y * 13) & 0xffff, 0.5, -3)) return 3;
                }
            return 0;
        }, 120, 200, &log);
        if (rc) mc::fail("large blocks", "block of %d x %d: %s", s[0], s[1], mc::outcome(rc).c_str());
        mc::count();
    }
}

// Data sets of drivers: GeoTIFF in strips and tiles, and xRIT
MC_GROUP(drivers)
{
    init();
    GDALDriver* tiff = GetGDALDriverManager()->GetDriverByName("GTiff");
    GDALDriver* mem = GetGDALDriverManager()->GetDriverByName("MEM");
    for (const char* layout : { "TILED=NO", "TILED=YES", "BLOCKYSIZE=48", "INTERLEAVE=PIXEL", "COMPRESS=PACKBITS" })
        for (unsigned c = 0; c < NC; ++c)
        {
            if (!mc::begin("GeoTIFF %s scale %g offset %g", layout, calib[c][0], calib[c][1])) continue;
            fake::Dataset src(50, 48);
            src.set_gt(1, 2, 0, 3, 0, -2);
            for (int k = 0; k < 2; ++k)
            {
                fake::Band* b = src.add(GDT_UInt16);
                b->pixel = [k](int x, int y) { return (x * 1300 + y * 27 + k * 5) & 0xffff; };
                b->scale = calib[c][0];
                b->offset = calib[c][1];
                if (k) { b->has_nodata = true; b->nodata = 27; }
            }
            string path = mc::work + "/t.tif";
            CPLStringList opt;
            opt.AddString(layout);
            GDALClose(tiff->CreateCopy(path.c_str(), &src, FALSE, opt.List(), nullptr, nullptr));
            std::unique_ptr<GDALDataset> t((GDALDataset*)GDALOpen(path.c_str(), GA_ReadOnly));
            if (!t) { mc::fail("harness", "no GeoTIFF"); return; }
            {
                CalibratedDataset v(*t);
                for (int k = 1; k <= 2; ++k)
                {
                    vector<double> d;
                    if (!fake::read(v.GetRasterBand(k), 0, 0, 50, 48, d)) mc::fail("read", "%s", layout);
                    for (int i = 0; i < 50 * 48; ++i)
                        if ((float)d[i] != want_cal(src.band(k)->pixel(i % 50, i / 50), calib[c][0], calib[c][1])) { mc::fail("value", "%s: pixel %d", layout, i); break; }
                }
                // A copy of the view has the same values, and the same missing pixels
                std::unique_ptr<GDALDataset> m(mem->CreateCopy("", &v, FALSE, nullptr, nullptr, nullptr));
                for (int k = 1; k <= 2; ++k)
                {
                    vector<double> d, e;
                    GDALRasterBand* mb = m->GetRasterBand(k);
                    if (!fake::read(mb, 0, 0, 50, 48, d) || !fake::read(v.GetRasterBand(k), 0, 0, 50, 48, e) || d != e) mc::fail("copy", "%s: a copy has other values", layout);
                    int ok = 0;
                    double nd = mb->GetNoDataValue(&ok);
                    if (!!ok != (k == 2)) mc::fail("copy", "%s: no data value of the copy", layout);
                    if (ok && calib[c][0] != 0)
                        for (int i = 0; i < 50 * 48; ++i)
                        {
                            double raw = src.band(k)->pixel(i % 50, i / 50);
                            // Others may only be so where floats cannot tell
                            if ((d[i] == nd) != (raw == 27) && want_cal(raw, calib[c][0], calib[c][1]) != want_cal(27, calib[c][0], calib[c][1])) { mc::fail("no data", "%s: pixel %d of the copy is %smissing", layout, i, d[i] == nd ? "" : "not "); break; }
                            if (raw == 27 && d[i] != nd) { mc::fail("no data", "%s: the missing pixel %d is %g", layout, i, d[i]); break; }
                        }
                    if (mb->GetScale() != 1 || mb->GetOffset() != 0) mc::fail("scale", "%s: scale of the copy", layout);
                }
            }
            mc::count();
        }
    for (int channel : { 1, 4, 12 })
    {
        if (!mc::begin("xRIT channel %d", channel)) continue;
        synth::Image img;
        img.dir = mc::work;
        img.channel_id = channel;
        img.channel = channel == 1 ? "VIS006" : channel == 4 ? "IR_039" : "HRV";
        img.seglines = 4;
        img.segments = 2;
        img.write_all();
        std::unique_ptr<GDALDataset> t((GDALDataset*)GDALOpen(img.short_name().c_str(), GA_ReadOnly));
        if (!t) { mc::fail("harness", "xRIT image not opened"); return; }
        {
            CalibratedDataset v(*t);
            GDALRasterBand *vb = v.GetRasterBand(1), *b = t->GetRasterBand(1);
            check_md(&v, t.get(), "xRIT");
            check_md(vb, b, "xRIT band");
            bool cal = b->GetRasterDataType() == GDT_UInt16;
            int w = b->GetXSize(), h = b->GetYSize();
            for (int y = h - 12; y < h; ++y)
            {
                vector<double> d, e;
                if (!fake::read(vb, 0, y, w, 1, d) || !fake::read(b, 0, y, w, 1, e)) { mc::fail("read", "xRIT line %d", y); break; }
                for (int x = 0; x < w; ++x)
                {
                    double want = cal ? want_cal(e[x], b->GetScale(), b->GetOffset()) : e[x];
                    if ((float)d[x] != (float)want) { mc::fail("value", "xRIT channel %d line %d column %d: %g and not %g", channel, y, x, d[x], want); break; }
                }
            }
            if (vb->GetScale() != 1 || vb->GetOffset() != 0) mc::fail("scale", "xRIT");
        }
        mc::count();
    }
}
