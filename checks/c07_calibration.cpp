// C07: counts to physical values. The reference is the Planck inversion of the
// radiance given by the prologue, in long double, with the table of constants
// of the channels as published by EUMETSAT for MSG.
#include "mc.hpp"
#include "enumerate.hpp"
#include "synth.hpp"
#include <cmath>
#include <gdal/xrit/xrit.h>
#include <gdal_priv.h>
#include <iostream>
#include <list>
#include <memory>
#include <msat/hrit/MSG_HRIT.h>
#include <msat/xrit/fileaccess.h>

using std::string;
using std::vector;
using synth::Image;

namespace {

struct Channel { int id; const char* name; bool linear; long double nu, a, b; };
const Channel channels[12] = {
    { 1, "VIS006", true, 0, 0, 0 }, { 2, "VIS008", true, 0, 0, 0 }, { 3, "IR_016", true, 0, 0, 0 },
    { 4, "IR_039", false, 2569.094L, 0.9959L, 3.471L }, { 5, "WV_062", false, 1598.566L, 0.9963L, 2.2219L },
    { 6, "WV_073", false, 1362.142L, 0.9991L, 0.485L }, { 7, "IR_087", false, 1149.083L, 0.9996L, 0.181L },
    { 8, "IR_097", false, 1034.345L, 0.9999L, 0.060L }, { 9, "IR_108", false, 930.659L, 0.9983L, 0.627L },
    { 10, "IR_120", false, 839.661L, 0.9988L, 0.397L }, { 11, "IR_134", false, 752.381L, 0.9981L, 0.576L },
    { 12, "HRV", true, 0, 0, 0 } };

struct Cal { double slope, offset; };

/// Physical value, 0 if there is none
long double physical(const Channel& c, double slope, double offset, unsigned count)
{
    long double r = (long double)count * slope + offset;
    if (c.linear) return r;
    if (r <= 0) return 0;
    const long double c1 = 1.19104e-5L, c2 = 1.43877L;
    long double t = (c2 * c.nu / std::log1p(c1 * c.nu * c.nu * c.nu / r) - c.b) / c.a;
    return t > 0 ? t : 0;
}

bool close(long double want, double got)
{ return std::fabs((double)(want - got)) <= 2e-6 * std::fabs((double)want) + 2e-5; }

/// Like the coefficients of real images, and extreme ones
const Cal cals[] = { { 0.0036585, -0.1865827 }, { 0.0083126, -0.4239423 }, { 0.2050034, -10.4551716 }, { 0.0191, -0.974 }, { 1, 0 }, { 0.05, -60 },
                     { 0.0001, 0 }, { -0.01, 5 }, { 0, 3 }, { 0, 0 }, { 1e-12, 0 }, { 250, -1000 } };

void library(int bpp)
{
    for (auto& cal : cals)
    {
        // Distinct coefficients per channel
        MSG_data_RadiometricProc rp;
        Cal c[12];
        for (int i = 0; i < 12; ++i)
        {
            c[i] = { cal.slope * (1 + i * 0.01), cal.offset * (1 - i * 0.01) };
            rp.ImageCalibration[i].Cal_Slope = c[i].slope;
            rp.ImageCalibration[i].Cal_Offset = c[i].offset;
        }
        for (auto& ch : channels)
        {
            if (!mc::begin("channel %d, slope %g offset %g, %d bits", ch.id, c[ch.id - 1].slope, c[ch.id - 1].offset, bpp)) continue;
            std::unique_ptr<float[]> t(rp.get_calibration(ch.id, bpp));
            for (unsigned n = 0; n < 1u << bpp; ++n)
            {
                long double want = physical(ch, c[ch.id - 1].slope, c[ch.id - 1].offset, n);
                float got = t[n];
                if (!ch.linear && (got < 0 || std::isnan(got))) got = 0;
                mc::count(want != 0);
                if (!close(want, got)) mc::fail(mc::fmt("table-%s", ch.name), "count %u gives %.9g instead of %.9Lg", n, got, want);
            }
            double slope = -1, offset = -1;
            bool linear = !ch.linear;
            rp.get_slope_offset(ch.id, slope, offset, linear);
            if (linear != ch.linear) mc::fail(mc::fmt("linear-%s", ch.name), "linear is %d", linear);
            if (ch.linear && (slope != c[ch.id - 1].slope || offset != c[ch.id - 1].offset))
                mc::fail(mc::fmt("slope-%s", ch.name), "slope %g offset %g instead of %g %g", slope, offset, c[ch.id - 1].slope, c[ch.id - 1].offset);
        }
        for (int id : { -1, 0, 13, 14, 255, 1 << 20 })
        {
            if (!mc::begin("channel %d, which does not exist", id)) continue;
            bool ok = true;
            double a, b; bool l;
            try { std::unique_ptr<float[]> t(rp.get_calibration(id, bpp)); ok = false; } catch (std::exception&) {}
            try { rp.get_slope_offset(id, a, b, l); ok = false; } catch (std::exception&) {}
            mc::count();
            if (!ok) mc::fail("no-channel", "calibrated without error");
        }
    }
}

Image image(const Channel& ch, int spacecraft, const Cal* c)
{
    Image img;
    img.dir = mc::work + "/img";
    img.product = mc::fmt("MSG%d", spacecraft);
    img.spacecraft = 320 + spacecraft;
    img.channel = ch.name;
    img.channel_id = ch.id;
    img.columns = 1024;
    img.seglines = 4;
    img.segments = 2;
    for (int i = 0; i < 12; ++i) { img.slope[i] = c[i].slope; img.offset[i] = c[i].offset; }
    // Every count in every line, in a different order
    img.sample = [](int l, int col) { return (unsigned)(col * 5 + l * 131) % 1024; };
    return img;
}

struct Open
{
    const Channel* ch;
    Image img;
    std::unique_ptr<GDALDataset> ds;
    Cal cal;
    int size() const { return ch->id == 12 ? 11136 : 3712; }
    /// First column with samples
    int start(int line) const
    {
        if (ch->id != 12) return 0;
        return 11136 - (11136 - line <= img.hrv.ln ? img.hrv.lw : img.hrv.uw);
    }
};

void check_line(Open& o, int line, const char* what)
{
    GDALRasterBand* rb = o.ds->GetRasterBand(1);
    vector<double> buf(o.size(), -1);
    if (rb->RasterIO(GF_Read, 0, line, o.size(), 1, buf.data(), o.size(), 1, GDT_Float64, 0, 0) != CE_None)
    {
        mc::fail(mc::fmt("read-%s", what), "cannot read line %d: %s", line, CPLGetLastErrorMsg());
        return;
    }
    int south = o.size() - 1 - line, x0 = o.start(line);
    ++mc::sh->transitions;
    for (int x = 0; x < o.size(); ++x)
    {
        bool inside = x >= x0 && x < x0 + o.img.columns;
        unsigned count = inside ? o.img.sample(south, x - x0) : 0;
        long double want;
        double got = buf[x];
        if (!inside) want = 0;
        else if (o.ch->linear)
        {
            if (got != count) { mc::fail(mc::fmt("raw-%s-%s", what, o.ch->name), "column %d is %g instead of count %u", x, got, count); return; }
            want = physical(*o.ch, o.cal.slope, o.cal.offset, count);
            got = got * rb->GetScale(nullptr) + rb->GetOffset(nullptr);
        }
        else want = physical(*o.ch, o.cal.slope, o.cal.offset, count);
        if (!close(want, got))
        {
            mc::fail(mc::fmt("value-%s-%s", what, o.ch->name), "count %u of column %d gives %.9g instead of %.9Lg", count, x, got, want);
            return;
        }
    }
}

void describe(Open& o)
{
    GDALRasterBand* rb = o.ds->GetRasterBand(1);
    int ok1 = 0, ok2 = 0, ok3 = 0;
    double scale = rb->GetScale(&ok1), offset = rb->GetOffset(&ok2), nodata = rb->GetNoDataValue(&ok3);
    double ws = o.ch->linear ? o.cal.slope : 1, wo = o.ch->linear ? o.cal.offset : 0;
    if (!ok1 || !ok2 || scale != ws || offset != wo) mc::fail(mc::fmt("scale-%s", o.ch->name), "scale %g offset %g instead of %g %g", scale, offset, ws, wo);
    if (!ok3 || nodata != 0) mc::fail("nodata", "no data value %g", nodata);
    if (rb->GetRasterDataType() != (o.ch->linear ? GDT_UInt16 : GDT_Float32)) mc::fail("type", "data type %s", GDALGetDataTypeName(rb->GetRasterDataType()));
    string unit = rb->GetUnitType(), want = o.ch->linear ? "mW m^-2 sr^-1 (cm^-1)^-1" : "K";
    if (unit != want) mc::fail(mc::fmt("unit-%s", o.ch->name), "unit [%s] instead of [%s]", unit.c_str(), want.c_str());
}

bool open_one(Open& o, const Channel& ch, int spacecraft, const Cal* c)
{
    o.ch = &ch;
    o.img = image(ch, spacecraft, c);
    o.cal = c[ch.id - 1];
    o.ds.reset((GDALDataset*)GDALOpen(o.img.short_name().c_str(), GA_ReadOnly));
    if (!o.ds) mc::fail("open", "cannot open %s: %s", o.img.short_name().c_str(), CPLGetLastErrorMsg());
    return !!o.ds;
}

void setup() { GDALRegister_MsatXRIT(); CPLSetErrorHandler(CPLQuietErrorHandler); }

void per_channel(const Cal& base, Cal* c)
{ for (int i = 0; i < 12; ++i) c[i] = { base.slope * (1 + i * 0.01), base.offset * (1 - i * 0.01) }; }

/// Every channel of a spacecraft with every set of coefficients
void driver(int spacecraft)
{
    setup();
    for (auto& cal : cals)
    {
        Cal c[12];
        per_channel(cal, c);
        for (auto& ch : channels)
        {
            if (!mc::begin("MSG%d %s slope %g offset %g", spacecraft, ch.name, c[ch.id - 1].slope, c[ch.id - 1].offset)) continue;
            Open o;
            Image img = image(ch, spacecraft, c);
            img.write_all();
            if (open_one(o, ch, spacecraft, c))
            {
                describe(o);
                for (int l = 0; l < 8; ++l) check_line(o, o.size() - 1 - l, "driver");
            }
            o.ds.reset();
            mc::clean(img.dir);
            mc::count();
            ++mc::sh->traces;
        }
    }
}

/// All channels of two images with different coefficients open at once, lines
/// read in every order of three data sets out of the set
void together(unsigned part)
{
    setup();
    Cal c1[12], c2[12];
    per_channel(cals[1], c1);
    per_channel(cals[2], c2);
    std::list<Open> open;
    if (!mc::begin("open 12 channels of MSG1 and MSG2")) return;
    for (auto& ch : channels)
        for (int sc = 1; sc <= 2; ++sc)
        {
            Image img = image(ch, sc, sc == 1 ? c1 : c2);
            img.write_all();
            open.emplace_back();
            if (!open_one(open.back(), ch, sc, sc == 1 ? c1 : c2)) return;
        }
    vector<Open*> v;
    for (auto& o : open) v.push_back(&o);
    for (size_t a = part; a < v.size(); a += 4)
        for (size_t b = 0; b < v.size(); ++b)
            for (size_t d = 0; d < (mc::thorough ? v.size() : 1); ++d)
            {
                if (!mc::begin("lines of MSG%d %s, MSG%d %s, %zu in turn", v[a]->img.spacecraft - 320, v[a]->ch->name, v[b]->img.spacecraft - 320, v[b]->ch->name, d)) continue;
                // Not from the block cache
                for (auto o : v) { o->ds->GetRasterBand(1)->FlushCache(false); }
                check_line(*v[a], v[a]->size() - 1, "together");
                check_line(*v[b], v[b]->size() - 6, "together");
                if (mc::thorough) check_line(*v[d], v[d]->size() - 3, "together");
                check_line(*v[a], v[a]->size() - 6, "together");
                describe(*v[a]);
                mc::count();
                ++mc::sh->traces;
            }
}

}

MC_GROUP(library8) { library(8); }
MC_GROUP(library10) { library(10); }
MC_GROUP(library12) { library(12); if (mc::thorough) library(16); }
MC_GROUP(msg1) { driver(1); }
MC_GROUP(msg2) { driver(2); }
MC_GROUP(msg3) { driver(3); }
MC_GROUP(msg4) { driver(4); }
MC_GROUP(together0) { together(0); }
MC_GROUP(together1) { together(1); }
MC_GROUP(together2) { together(2); }
MC_GROUP(together3) { together(3); }
