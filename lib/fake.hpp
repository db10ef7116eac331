// GDAL data sets made by the checkers, with any size, blocks, types and
// metadata, for the code that works on data sets of any driver
#pragma once
#include <gdal/gdal_priv.h>
#include <gdal/cpl_string.h>
#include <gdal/ogr_spatialref.h>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace fake {

struct Dataset;

struct Band : GDALRasterBand
{
    std::function<double(int, int)> pixel;   // value at x, y
    bool has_min = false, has_max = false, has_nodata = false;
    bool has_scale = true;
    double min = 0, max = 0, nodata = 0, scale = 1, offset = 0;
    std::string unit;
    GDALColorInterp interp = GCI_Undefined;
    std::unique_ptr<GDALColorTable> table;
    CPLStringList categories;
    std::set<std::pair<int, int>> bad;       // blocks that cannot be read

    Band(GDALDataset* ds, int n, GDALDataType type, int bx, int by)
    {
        poDS = ds;
        nBand = n;
        eDataType = type;
        nBlockXSize = bx;
        nBlockYSize = by;
        pixel = [](int, int) { return 0.0; };
    }
    CPLErr IReadBlock(int xb, int yb, void* buf) override
    {
        if (bad.count({ xb, yb }))
        {
            CPLError(CE_Failure, CPLE_FileIO, "bad block %d,%d", xb, yb);
            return CE_Failure;
        }
        int size = GDALGetDataTypeSizeBytes(eDataType);
        // Blocks that go out of the image have garbage there
        for (int y = 0; y < nBlockYSize; ++y)
            for (int x = 0; x < nBlockXSize; ++x)
            {
                int px = xb * nBlockXSize + x, py = yb * nBlockYSize + y;
                double v = px < poDS->GetRasterXSize() && py < poDS->GetRasterYSize() ? pixel(px, py) : 77;
                GDALCopyWords(&v, GDT_Float64, 0, (char*)buf + (size_t)(y * nBlockXSize + x) * size, eDataType, 0, 1);
            }
        return CE_None;
    }
    static double opt(bool has, double v, int* ok) { if (ok) *ok = has; return v; }
    double GetMinimum(int* ok) override { return has_min ? opt(true, min, ok) : GDALRasterBand::GetMinimum(ok); }
    double GetMaximum(int* ok) override { return has_max ? opt(true, max, ok) : GDALRasterBand::GetMaximum(ok); }
    double GetNoDataValue(int* ok) override { return has_nodata ? opt(true, nodata, ok) : GDALRasterBand::GetNoDataValue(ok); }
    double GetScale(int* ok) override { return opt(has_scale, scale, ok); }
    double GetOffset(int* ok) override { return opt(has_scale, offset, ok); }
    const char* GetUnitType() override { return unit.c_str(); }
    GDALColorInterp GetColorInterpretation() override { return interp; }
    GDALColorTable* GetColorTable() override { return table.get(); }
    char** GetCategoryNames() override { return categories.List(); }
};

struct Dataset : GDALDataset
{
    bool has_srs = false, has_gt = false;
    OGRSpatialReference srs, gcp_srs;
    bool has_gcp_srs = false;
    double gt[6] = { 0, 1, 0, 0, 0, 1 };
    std::vector<GDAL_GCP> gcps;
    CPLStringList files;
    std::vector<std::string> texts;

    Dataset(int w, int h)
    {
        nRasterXSize = w;
        nRasterYSize = h;
    }
    Band* add(GDALDataType type, int bx = 0, int by = 1)
    {
        int n = GetRasterCount() + 1;
        Band* b = new Band(this, n, type, bx ? bx : nRasterXSize, by);
        SetBand(n, b);
        return b;
    }
    Band* band(int i) { return static_cast<Band*>(GetRasterBand(i)); }
    void set_srs(const OGRSpatialReference& o) { srs = o; srs.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER); has_srs = true; }
    void set_gt(double a, double b, double c, double d, double e, double f) { gt[0] = a; gt[1] = b; gt[2] = c; gt[3] = d; gt[4] = e; gt[5] = f; has_gt = true; }
    const OGRSpatialReference* GetSpatialRef() const override { return has_srs ? &srs : nullptr; }
    const OGRSpatialReference* GetGCPSpatialRef() const override { return has_gcp_srs ? &gcp_srs : nullptr; }
    CPLErr GetGeoTransform(double* d) override
    {
        if (!has_gt) return CE_Failure;
        memcpy(d, gt, sizeof(gt));
        return CE_None;
    }
    int GetGCPCount() override { return gcps.size(); }
    const GDAL_GCP* GetGCPs() override { return gcps.data(); }
    char** GetFileList() override { return CSLDuplicate(files.List()); }
    void add_gcp(double pixel, double line, double x, double y)
    {
        GDAL_GCP g;
        static char id[] = "gcp", info[] = "info";
        g.pszId = id;
        g.pszInfo = info;
        g.dfGCPPixel = pixel;
        g.dfGCPLine = line;
        g.dfGCPX = x;
        g.dfGCPY = y;
        g.dfGCPZ = 5;
        gcps.push_back(g);
    }
};

/// All values of a window of a band, or false
inline bool read(GDALRasterBand* b, int x, int y, int w, int h, std::vector<double>& v)
{
    v.assign((size_t)w * h, -12345);
    return b->RasterIO(GF_Read, x, y, w, h, v.data(), w, h, GDT_Float64, 0, 0, nullptr) == CE_None;
}

}
