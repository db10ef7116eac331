// C08: the raster that GDAL gives for an xRIT image, against the image the
// files were generated from.
#include "mc.hpp"
#include "enumerate.hpp"
#include "synth.hpp"
#include <cmath>
#include <gdal/xrit/xrit.h>
#include <gdal_priv.h>
#include <list>
#include <memory>
#include <ogr_spatialref.h>

using std::string;
using std::vector;
using synth::Image;

namespace {

struct Channel { int id; const char* name; };
const Channel channels[12] = { { 1, "VIS006" }, { 2, "VIS008" }, { 3, "IR_016" }, { 4, "IR_039" }, { 5, "WV_062" }, { 6, "WV_073" },
                               { 7, "IR_087" }, { 8, "IR_097" }, { 9, "IR_108" }, { 10, "IR_120" }, { 11, "IR_134" }, { 12, "HRV" } };

void setup() { GDALRegister_MsatXRIT(); CPLSetErrorHandler(CPLQuietErrorHandler); }

Image image(int channel, const string& dir)
{
    Image img;
    img.dir = mc::work + "/" + dir;
    img.channel = channels[channel - 1].name;
    img.channel_id = channel;
    return img;
}

/// Brightness temperature of a count of an infrared channel, 0 if there is none
double temperature(const Image& img, unsigned count)
{
    static const double nu[] = { 2569.094, 1598.566, 1362.142, 1149.083, 1034.345, 930.659, 839.661, 752.381 },
                        a[] = { 0.9959, 0.9963, 0.9991, 0.9996, 0.9999, 0.9983, 0.9988, 0.9981 },
                        b[] = { 3.471, 2.2219, 0.485, 0.181, 0.060, 0.627, 0.397, 0.576 };
    int c = img.channel_id - 4;
    double r = count * img.slope[c + 3] + img.offset[c + 3];
    if (r <= 0) return 0;
    double t = (1.43877 * nu[c] / std::log1p(1.19104e-5 * nu[c] * nu[c] * nu[c] / r) - b[c]) / a[c];
    return t > 0 ? t : 0;
}

/// The raster, as the files describe it: counts of channels 1, 2, 3 and 12,
/// temperatures of the others
struct Model
{
    const Image& img;
    unsigned absent = 0;        // bit mask of segments not on disk (1 << (seq - 1))
    Model(const Image& i, unsigned a = 0) : img(i), absent(a) {}
    bool hrv() const { return img.channel_id == 12; }
    int size() const { return hrv() ? 11136 : 3712; }
    /// South-first line number that the segments carry for a raster line, or -1
    int carried(int line) const
    {
        int south = size() - 1 - line;
        int seg = south / img.seglines;
        if (seg >= img.segments || (absent >> seg & 1)) return -1;
        return south;
    }
    int start(int line) const
    { return !hrv() ? 0 : 11136 - (11136 - line <= img.hrv.ln ? img.hrv.lw : img.hrv.uw); }
    bool infrared() const { return img.channel_id > 3 && img.channel_id < 12; }
    double at(int line, int x) const
    {
        int s = carried(line);
        if (s < 0) return 0;
        x -= start(line);
        if (x < 0 || x >= img.columns) return 0;
        return infrared() ? temperature(img, img.sample(s, x)) : img.sample(s, x);
    }
    /// If a pixel read as this type is that of the image (temperatures are
    /// 4-byte floats, rounded to be integers)
    bool equal(double got, int line, int x, GDALDataType type) const
    {
        double want = at(line, x);
        if (!infrared()) return got == want;
        return std::fabs(got - want) <= (type == GDT_Float32 || type == GDT_Float64 ? 0 : 0.5) + 1e-4;
    }
};

std::unique_ptr<GDALDataset> open(const Image& img)
{
    std::unique_ptr<GDALDataset> ds((GDALDataset*)GDALOpen(img.short_name().c_str(), GA_ReadOnly));
    if (!ds) mc::fail("open", "cannot open %s: %s", img.short_name().c_str(), CPLGetLastErrorMsg());
    return ds;
}

// ---- metadata

struct Time { int y, m, d; uint32_t ms; const char* text; };
const Time times[] = { { 2006, 11, 14, 43200000, "2006-11-14 12:00:00" }, { 2004, 2, 29, 900000, "2004-02-29 00:15:00" },
                       { 2009, 12, 31, 85500000 + 59999, "2009-12-31 23:45:00" }, { 2010, 1, 1, 0, "2010-01-01 00:00:00" },
                       { 2008, 3, 1, 3599999, "2008-03-01 00:59:00" }, { 2019, 7, 4, 86399999, "2019-07-04 23:59:00" } };
const float longitudes[] = { 0, -3.4f, 9.5f, 41.5f, 57.5f, -75, 179.9f, -179.9f };
struct Craft { unsigned hrit; const char* product; int wmo; const char* name; };
const Craft crafts[] = { { 321, "MSG1", 55, "MSG1" }, { 322, "MSG2", 56, "MSG2" }, { 323, "MSG3", 57, "MSG3" }, { 324, "MSG4", 70, "MSG4" } };
struct Grid { float visir, hrv; };
const Grid grids[] = { { 3.0004032f, 1.0001343f }, { 3.000403165817f, 1.000134348869f }, { 2.5f, 1.5f }, { -3.0f, -1.0f } };

void check_metadata(const Image& img, const Time& t, const Craft& c, float lon, const Grid& g)
{
    auto ds = open(img);
    if (!ds) return;
    bool hrv = img.channel_id == 12;
    int size = hrv ? 11136 : 3712;
    if (ds->GetRasterXSize() != size || ds->GetRasterYSize() != size || ds->GetRasterCount() != 1)
        mc::fail("size", "%dx%d with %d bands", ds->GetRasterXSize(), ds->GetRasterYSize(), ds->GetRasterCount());
    auto md = [&](GDALMajorObject* o, const char* k, const string& want) {
        const char* v = o->GetMetadataItem(k, "");
        if (!v || want != v) mc::fail(string("metadata-") + k, "%s is [%s] instead of [%s]", k, v ? v : "absent", want.c_str());
    };
    md(ds.get(), "MSAT_DATETIME", t.text);
    md(ds.get(), "MSAT_SPACECRAFTID", std::to_string(c.wmo));
    md(ds.get(), "MSAT_SPACECRAFT", c.name);
    GDALRasterBand* rb = ds->GetRasterBand(1);
    md(rb, "MSAT_CHANNELID", std::to_string(img.channel_id));
    md(rb, "MSAT_CHANNEL", channels[img.channel_id - 1].name);
    if (string(rb->GetDescription()) != channels[img.channel_id - 1].name) mc::fail("description", "band is called [%s]", rb->GetDescription());
    int ok = 0;
    if (rb->GetNoDataValue(&ok) != 0 || !ok) mc::fail("nodata", "no data value is not 0");
    // The reference grid has its centre between the two middle pixels of the
    // odd-numbered grid: column 1856 (HRV: 5568) counted from 0
    double gt[6] = { 0, 0, 0, 0, 0, 0 }, px = 1000.0 * std::fabs(hrv ? g.hrv : g.visir);
    double want[6] = { -px * (size / 2), px, 0, px * (size / 2), 0, -px };
    if (ds->GetGeoTransform(gt) != CE_None) mc::fail("geotransform", "there is none");
    for (int i = 0; i < 6; ++i)
        // Grid steps are 4-byte floats
        if (std::fabs(gt[i] - want[i]) > 2e-7 * std::fabs(want[i])) { mc::fail("geotransform", "term %d is %.9g instead of %.9g", i, gt[i], want[i]); break; }
    const OGRSpatialReference* osr = ds->GetSpatialRef();
    if (!osr) { mc::fail("projection", "there is none"); return; }
    const char* proj = osr->GetAttrValue("PROJECTION");
    if (!proj || string(proj) != "Geostationary_Satellite") mc::fail("projection", "projection is [%s]", proj ? proj : "none");
    double cm = osr->GetProjParm("central_meridian", 999), h = osr->GetProjParm("satellite_height", 0);
    // Longitude is in the segment header with one decimal digit
    double wl = std::round(lon * 10) / 10;
    if (std::fabs(cm - wl) > 1e-5) mc::fail("longitude", "central meridian is %.6f instead of %.6f", cm, wl);
    if (h != 35785831) mc::fail("height", "satellite height is %.3f", h);
    if (osr->GetSemiMajor() != 6378169 || std::fabs(osr->GetInvFlattening() - 295.488065897) > 1e-6)
        mc::fail("ellipsoid", "semi-major axis %.3f, inverse flattening %.9f", osr->GetSemiMajor(), osr->GetInvFlattening());
}

void metadata(unsigned craft)
{
    setup();
    for (auto& ch : channels)
        for (auto& t : times)
            for (auto& lon : longitudes)
                for (auto& g : grids)
                {
                    // Quick: one in four, which has all triples
                    if (!mc::thorough && ((&t - times) + (&lon - longitudes) + (&g - grids) + ch.id) % 4 != 0) continue;
                    const Craft& c = crafts[craft];
                    if (!mc::begin("%s %s at %s, longitude %.1f, grid step %g/%g", c.product, ch.name, t.text, lon, g.visir, g.hrv)) continue;
                    Image img = image(ch.id, "md");
                    img.product = c.product;
                    img.spacecraft = c.hrit;
                    img.seglines = 4;
                    img.segments = 2;
                    img.acq_day = synth::day1958(t.y, t.m, t.d);
                    img.acq_ms = t.ms;
                    img.longitude = lon;
                    img.step_visir = g.visir;
                    img.step_hrv = g.hrv;
                    img.write_all();
                    check_metadata(img, t, c, lon, g);
                    mc::clean(img.dir);
                    mc::count();
                    ++mc::sh->traces;
                }
    mc::sample("MSG%d, 12 channels, times, longitudes and grids", craft + 1);
}

// ---- placement of every pixel

void placement(int channel, unsigned absent)
{
    setup();
    if (!mc::begin("all pixels of %s, absent segments %x", channels[channel - 1].name, absent)) return;
    Image img = image(channel, "full");
    bool hrv = channel == 12;
    img.columns = hrv ? 5568 : 3712;
    img.segments = hrv ? 24 : 8;
    mc::make_dirs(img.dir);
    img.write_prologue();
    img.write_epilogue();
    for (int i = 1; i <= img.segments; ++i)
        if (!(absent >> (i - 1) & 1)) img.write_segment(i);
    Model m(img, absent);
    auto ds = open(img);
    if (!ds) return;
    GDALRasterBand* rb = ds->GetRasterBand(1);
    int n = m.size();
    vector<float> buf(n);
    vector<double> table;
    for (unsigned i = 0; i < 1024; ++i) table.push_back(m.infrared() ? temperature(img, i) : i);
    // North to south, then back with every third line
    for (int pass = 0; pass < 2; ++pass)
        for (int i = 0; i < n; i += pass ? 3 : 1)
        {
            int line = pass ? n - 1 - i : i;
            if (rb->RasterIO(GF_Read, 0, line, n, 1, buf.data(), n, 1, GDT_Float32, 0, 0) != CE_None)
            { mc::fail("placement-read", "cannot read line %d: %s", line, CPLGetLastErrorMsg()); return; }
            int s = m.carried(line), x0 = m.start(line);
            for (int x = 0; x < n; ++x)
            {
                double want = s >= 0 && x >= x0 && x < x0 + img.columns ? table[synth::pattern(s, x - x0)] : 0;
                if (std::fabs(buf[x] - want) > (m.infrared() ? 1e-4 : 0)) { mc::fail(mc::fmt("placement-%s", channels[channel - 1].name), "line %d column %d is %g instead of %g", line, x, buf[x], want); return; }
            }
            mc::count(s >= 0);
            ++mc::sh->transitions;
        }
    ++mc::sh->traces;
    ds.reset();
    mc::clean(img.dir);
}

// ---- histories of reads

/// One way of reading. Coordinates count from the south-west corner of the
/// part of the raster that has data, because that is where segments lie.
struct Op
{
    const char* name;
    int line, lines;        // lines from the southernmost (0) to north
    int x, w;               // columns from the first with data; w < 0: all
    int bw, bh;             // buffer size (0: same)
    GDALDataType type;
    bool dataset, strided, block;
};
const Op ops[] = {
    { "south line", 0, 1, 0, -1, 0, 0, GDT_UInt16, false, false, false },
    { "line of the other segment", 5, 1, 0, -1, 0, 0, GDT_UInt16, false, false, false },
    { "window across segments", 2, 4, 3, 9, 0, 0, GDT_Int32, false, false, false },
    { "window across absent lines", 6, 5, -4, 12, 0, 0, GDT_Float64, true, false, false },
    { "reduced window", 0, 8, 0, 60, 20, 4, GDT_UInt16, false, false, false },
    { "reduced by odd factors", 1, 6, 2, 50, 7, 4, GDT_Float32, true, false, false },
    { "enlarged window", 3, 2, 5, 4, 8, 6, GDT_UInt16, false, false, false },
    { "strided window", 1, 3, 1, 5, 0, 0, GDT_UInt16, false, true, false },
    { "block", 4, 1, 0, -1, 0, 0, GDT_UInt16, false, false, true },
    { "last columns", 0, 2, 60, 10, 0, 0, GDT_UInt16, true, false, false },
};
const unsigned NOPS = sizeof(ops) / sizeof(*ops);

bool run_op(GDALDataset* ds, const Model& m, const Op& op)
{
    int n = m.size();
    int w = op.w < 0 ? n : op.w, h = op.lines;
    int y = n - op.line - op.lines;
    int x = op.w < 0 ? 0 : op.x + (m.hrv() ? m.start(n - 1) : 0);
    if (x < 0) x = 0;
    GDALRasterBand* rb = ds->GetRasterBand(1);
    ++mc::sh->transitions;
    if (op.block)
    {
        vector<uint16_t> buf(m.infrared() ? 0 : n, 77);
        vector<float> fbuf(m.infrared() ? n : 0, 77);
        if (rb->ReadBlock(0, y, m.infrared() ? (void*)fbuf.data() : (void*)buf.data()) != CE_None) { mc::fail("history-read", "%s: %s", op.name, CPLGetLastErrorMsg()); return false; }
        for (int i = 0; i < n; ++i)
        {
            double got = m.infrared() ? fbuf[i] : buf[i];
            if (!m.equal(got, y, i, GDT_Float32)) { mc::fail("history-value", "%s: column %d is %g instead of %g", op.name, i, got, m.at(y, i)); return false; }
        }
        return true;
    }
    int bw = op.bw ? op.bw : w, bh = op.bh ? op.bh : h;
    int es = GDALGetDataTypeSizeBytes(op.type), ps = op.strided ? es * 3 : es, ls = op.strided ? ps * bw + 10 : ps * bw;
    vector<uint8_t> buf(ls * bh, 0xaa);
    CPLErr e;
    if (op.dataset) e = ds->RasterIO(GF_Read, x, y, w, h, buf.data(), bw, bh, op.type, 1, nullptr, ps, ls, 0, nullptr);
    else e = rb->RasterIO(GF_Read, x, y, w, h, buf.data(), bw, bh, op.type, ps, ls, nullptr);
    if (e != CE_None) { mc::fail("history-read", "%s: %s", op.name, CPLGetLastErrorMsg()); return false; }
    for (int j = 0; j < bh; ++j)
        for (int i = 0; i < bw; ++i)
        {
            double got = 0;
            const uint8_t* p = &buf[j * ls + i * ps];
            switch (op.type)
            {
                case GDT_UInt16: got = *(const uint16_t*)p; break;
                case GDT_Int32: got = *(const int32_t*)p; break;
                case GDT_Float32: got = *(const float*)p; break;
                default: memcpy(&got, p, 8);
            }
            // Nearest source pixel to the centre of the target pixel
            int sx = x + (int)((i + 0.5) * w / bw + 1e-9), sy = y + (int)((j + 0.5) * h / bh + 1e-9);
            if (!m.equal(got, sy, sx, op.type))
            {
                mc::fail("history-value", "%s: pixel %d,%d is %g instead of %g (line %d column %d)", op.name, i, j, got, m.at(sy, sx), sy, sx);
                return false;
            }
        }
    if (op.strided)
        for (int j = 0; j < bh; ++j)
            for (int k = 0; k < ls; ++k)
                if ((k >= ps * bw || k % ps >= es) && buf[j * ls + k] != 0xaa) { mc::fail("history-stride", "%s: wrote between pixels", op.name); return false; }
    return true;
}

Image small(int channel, const string& dir)
{
    Image img = image(channel, dir);
    img.columns = 64;
    img.seglines = 4;
    img.segments = 2;
    return img;
}

void histories(int channel, long cache, unsigned absent)
{
    setup();
    GDALSetCacheMax64(cache);
    Image img = small(channel, "h");
    if (!mc::begin("write image")) return;
    mc::make_dirs(img.dir);
    img.write_prologue();
    img.write_epilogue();
    for (int i = 1; i <= 2; ++i)
        if (!(absent >> (i - 1) & 1)) img.write_segment(i);
    Model m(img, absent);
    // Every history of two operations from a fresh data set
    mc::all_sequences(2, NOPS, [&](const vector<unsigned>& s) {
        if (!mc::begin("fresh, cache %ld: %s, %s", cache, ops[s[0]].name, ops[s[1]].name)) return;
        auto ds = open(img);
        if (!ds) return;
        for (auto o : s) if (!run_op(ds.get(), m, ops[o])) break;
        mc::count();
        ++mc::sh->traces;
    });
    // Every history of up to 3 (thorough: 4) continuing on the same data set
    auto ds = open(img);
    if (!ds) return;
    mc::all_sequences(mc::thorough ? 4 : 3, NOPS, [&](const vector<unsigned>& s) {
        if (!mc::begin("continued, cache %ld: %s, %s, %s", cache, ops[s[0]].name, ops[s[1]].name, ops[s[2]].name)) return;
        for (auto o : s) if (!run_op(ds.get(), m, ops[o])) break;
        mc::count();
        ++mc::sh->traces;
    });
    mc::sh->states += NOPS * NOPS;
    mc::sample("cache of %ld bytes: %u^2 fresh and %u^%d continued histories", cache, NOPS, NOPS, mc::thorough ? 4 : 3);
}

/// Several data sets open together
void interleaved(long cache)
{
    setup();
    GDALSetCacheMax64(cache);
    struct O { Image img; std::unique_ptr<GDALDataset> ds; };
    std::list<O> v;
    if (!mc::begin("write images")) return;
    // Same directory: two channels, another time, another product, and HRV
    for (int i = 0; i < 5; ++i)
    {
        Image img = small(i == 0 ? 1 : i == 1 ? 3 : i == 4 ? 12 : 1, "inter");
        if (i == 2) img.timing = "200611141215";
        if (i == 3) { img.product = "MSG2"; img.spacecraft = 322; }
        img.sample = [i](int l, int c) { return (synth::pattern(l, c) + 37 * i) % 1024; };
        img.write_all();
        v.push_back({ img, nullptr });
    }
    vector<O*> o;
    for (auto& e : v) o.push_back(&e);
    const unsigned sel[] = { 0, 2, 3 };
    unsigned n = 5 * 3;
    for (auto p : o) if (!(p->ds = open(p->img))) return;
    mc::all_sequences(3, n, [&](const vector<unsigned>& s) {
        if (!mc::begin("data set %u %s; %u %s; %u %s", s[0] / 3, ops[sel[s[0] % 3]].name, s[1] / 3, ops[sel[s[1] % 3]].name, s[2] / 3, ops[sel[s[2] % 3]].name)) return;
        for (auto k : s)
        {
            O* p = o[k / 3];
            if (!run_op(p->ds.get(), Model(p->img), ops[sel[k % 3]])) break;
        }
        mc::count();
        ++mc::sh->traces;
    });
    mc::sh->states += n * n;
    // Opening and closing in every order while others are read
    mc::all_sequences(mc::thorough ? 6 : 5, 3, [&](const vector<unsigned>& s) {
        string t;
        for (auto k : s) t += (char)('0' + k);
        if (!mc::begin("toggle and read %s", t.c_str())) return;
        for (auto p : o) p->ds.reset();
        for (auto k : s)
        {
            O* p = o[k == 2 ? 4 : k];
            if (p->ds) p->ds.reset(); else p->ds = open(p->img);
            for (auto q : o) if (q->ds) run_op(q->ds.get(), Model(q->img), ops[2]);
        }
        mc::count();
        ++mc::sh->traces;
    });
    for (auto p : o) p->ds.reset();
}

/// Split images with other windows, through GDAL
void windows()
{
    setup();
    for (int lw : { 5568, 5569, 8224, 11136 })
        for (int uw : { 5568, 6656, 9000, 11136 })
            for (int ln : { 1, 3, 4, 5, 8, 464, 8064, 11136 })
            {
                if (!mc::begin("lower part to column %d, upper to %d, split after line %d", lw, uw, ln)) continue;
                Image img = small(12, "w");
                img.hrv.lw = lw; img.hrv.le = lw - 63;
                img.hrv.uw = uw; img.hrv.ue = uw - 63;
                img.hrv.ln = ln; img.hrv.us = ln + 1;
                img.write_all();
                Model m(img);
                auto ds = open(img);
                if (ds)
                {
                    vector<uint16_t> buf(11136);
                    for (int l = 11136 - 10; l < 11136; ++l)
                    {
                        if (ds->GetRasterBand(1)->RasterIO(GF_Read, 0, l, 11136, 1, buf.data(), 11136, 1, GDT_UInt16, 0, 0) != CE_None)
                        { mc::fail("window-read", "line %d: %s", l, CPLGetLastErrorMsg()); break; }
                        bool ok = true;
                        for (int x = 0; ok && x < 11136; ++x)
                            if (buf[x] != m.at(l, x)) { mc::fail("window-place", "line %d column %d is %u instead of %g", l, x, buf[x], m.at(l, x)); ok = false; }
                        ++mc::sh->transitions;
                    }
                }
                ds.reset();
                mc::clean(img.dir);
                mc::count();
                ++mc::sh->traces;
            }
}

}

MC_GROUP(full_hrv) { placement(12, 0x200040); }
MC_GROUP(full_vis) { placement(1, 0); if (mc::thorough) for (unsigned a = 1; a < 255; ++a) placement(1 + a % 3, a); else placement(3, 0x91); }
MC_GROUP(metadata1) { metadata(0); }
MC_GROUP(metadata2) { metadata(1); }
MC_GROUP(metadata3) { metadata(2); }
MC_GROUP(metadata4) { metadata(3); }
MC_GROUP(history_vis_small) { histories(1, 1, 0); }
MC_GROUP(history_vis_gap) { histories(2, 20000, 2); }
MC_GROUP(history_vis_large) { histories(3, 64 << 20, 1); }
MC_GROUP(history_ir_small) { histories(4, 1, 0); }
MC_GROUP(history_ir_gap) { histories(9, 20000, 2); }
MC_GROUP(history_ir_large) { histories(11, 64 << 20, 1); }
MC_GROUP(full_ir) { for (int c = 4; c < 12; ++c) if (c == 7 || mc::thorough) placement(c, 1 << (c % 8)); }
MC_GROUP(history_hrv_small) { histories(12, 1, 0); }
MC_GROUP(history_hrv_large) { histories(12, 64 << 20, 0); }
MC_GROUP(interleaved_small) { interleaved(1); }
MC_GROUP(interleaved_large) { interleaved(64 << 20); }
MC_GROUP(hrv_windows) { windows(); }
