// C05: image prologue and epilogue records, field by field.
//
// The layout below is written from the MSG level 1.5 image data format: one
// call per field, in the order of the format. It computes the value of each
// field from the bytes at a running position and compares it with what the
// reader reports.
#include "mc.hpp"
#include "enumerate.hpp"
#include "synth.hpp"
#include <msat/hrit/MSG_HRIT.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>

using std::string;
using std::vector;

namespace {

typedef const unsigned char* Bytes;

uint64_t num(Bytes p, unsigned n)
{
    uint64_t v = 0;
    while (n--) v = v << 8 | *p++;
    return v;
}

/// Walks the fields of a record
struct Walker
{
    Bytes base;
    size_t pos = 0;
    string rec;        // record name
    string bad;        // first field that differs
    string detail;
    size_t fields = 0;
    const char* group = "";
    int i1 = -1, i2 = -1, i3 = -1;
    bool enumerate = false;
    vector<std::pair<size_t, char>>* map = nullptr;   // position and type of every field

    Walker(Bytes b, const string& rec) : base(b), rec(rec) {}

    void report(const char* name, uint64_t got, uint64_t want)
    {
        if (!bad.empty()) return;
        string idx;
        for (int i: {i1, i2, i3}) if (i >= 0) idx += "[" + std::to_string(i) + "]";
        bad = rec + "." + name;
        detail = mc::fmt("%s%s%s at byte %zu is %llx instead of %llx", group, name, idx.c_str(), pos,
                         (unsigned long long)got, (unsigned long long)want);
    }
    void take(const char* name, char type, unsigned n, uint64_t got, uint64_t want)
    {
        ++fields;
        if (map) map->push_back({pos, type});
        if (got != want) report(name, got, want);
        pos += n;
    }
    void u1(const char* n, unsigned v) { take(n, '1', 1, v & 0xffffffffu, num(base + pos, 1)); }
    void u2(const char* n, unsigned v) { take(n, '2', 2, v, num(base + pos, 2)); }
    void u4(const char* n, uint32_t v) { take(n, '4', 4, v, num(base + pos, 4)); }
    void i4(const char* n, int32_t v) { take(n, '4', 4, (uint32_t)v, num(base + pos, 4)); }
    void flag(const char* n, bool v) { take(n, 'b', 1, v, base[pos] != 0); }
    void f4(const char* n, const float& v)
    {
        uint32_t u;
        memcpy(&u, &v, 4);
        take(n, 'f', 4, u, num(base + pos, 4));
    }
    void f8(const char* n, const double& v)
    {
        uint64_t u;
        memcpy(&u, &v, 8);
        take(n, 'd', 8, u, num(base + pos, 8));
    }
    template<class T> void day_ms(const char* n, T& t)
    {
        take(n, '2', 2, t.get_day_from_epoch(), num(base + pos, 2));
        take(n, '4', 4, t.get_msec_in_day(), num(base + pos, 4));
    }
    void cds_short(const char* n, MSG_time_cds_short& t) { day_ms(n, t); }
    void cds(const char* n, MSG_time_cds& t)
    {
        day_ms(n, t);
        take(n, '2', 2, t.get_microsecs(), num(base + pos, 2));
    }
    void cds_expanded(const char* n, MSG_time_cds_expanded& t)
    {
        day_ms(n, t);
        take(n, '2', 2, t.get_microsecs(), num(base + pos, 2));
        take(n, '2', 2, t.get_nanosecs(), num(base + pos, 2));
    }
    void cuc(const char* n, MSG_time_cuc& t)
    {
        // 4 bytes of seconds and 3 bytes of binary fraction
        double want = num(base + pos, 4) + num(base + pos + 4, 3) / 16777216.0;
        double got = t.get_time_cuc_r8();
        ++fields;
        if (map) map->push_back({pos, '7'});
        if (!(std::fabs(want - got) <= 1e-6))
            report(n, (uint64_t)got, (uint64_t)want);
        pos += 7;
    }
    void generalized(const char* n, MSG_time_generalized& t)
    {
        // YYYYMMDDhhmmssZ; decided by C06, only its place is checked here
        char b[16];
        memcpy(b, base + pos, 15);
        bool digits = true;
        for (int i = 0; i < 14; ++i) digits = digits && b[i] >= '0' && b[i] <= '9';
        ++fields;
        if (digits)
        {
            struct tm* x = t.get_timestruct();
            char c[64];
            snprintf(c, sizeof c, "%04d%02d%02d%02d%02d%02d", x->tm_year + 1900, x->tm_mon + 1, x->tm_mday, x->tm_hour, x->tm_min, x->tm_sec);
            if (memcmp(b, c, 14)) report(n, strtoull(c, nullptr, 10), strtoull(string(b, 14).c_str(), nullptr, 10));
        }
        pos += 15;
    }
    void skip(size_t n) { pos += n; }
    void end(size_t size)
    {
        if (pos != size) mc::fail(rec + " layout", "the layout of the check covers %zu bytes of %zu", pos, size);
    }
};

#define FOR(i, n) for (w.i = 0; w.i < (int)(n); ++w.i)
#define DONE(i) w.i = -1

void walk(Walker& w, MSG_data_SatelliteStatus& s)
{
    w.group = "definition.";
    w.u2("SatelliteId", s.SatelliteDefinition.SatelliteId);
    w.f4("NominalLongitude", s.SatelliteDefinition.NominalLongitude);
    w.u1("SatelliteStatus", s.SatelliteDefinition.SatelliteStatus);
    w.group = "operations.";
    auto& o = s.SatelliteOperations;
    w.flag("LastManoeuvreFlag", o.LastManoeuvreFlag);
    w.cds_short("LastManoeuvreStart", o.LastManouvreStartTime);
    w.cds_short("LastManoeuvreEnd", o.LastManouvreEndTime);
    w.u1("LastManoeuvreType", o.LastManouvreType);
    w.flag("NextManoeuvreFlag", o.NextManoeuvreFlag);
    w.cds_short("NextManoeuvreStart", o.NextManouvreStartTime);
    w.cds_short("NextManoeuvreEnd", o.NextManouvreEndTime);
    w.u1("NextManoeuvreType", o.NextManouvreType);
    w.group = "orbit.";
    w.cds_short("PeriodStart", s.Orbit.PeriodStartTime);
    w.cds_short("PeriodEnd", s.Orbit.PeriodEndTime);
    FOR(i1, 100)
    {
        auto& c = s.Orbit.OrbitPoliniomal[w.i1];
        bool present = num(w.base + w.pos, 2) != 0;
        if (c.is_present() != present) w.report("present", c.is_present(), present);
        w.cds_short("Start", c.StartTime);
        w.cds_short("End", c.EndTime);
        FOR(i2, 8) w.f8("X", c.X[w.i2]);
        FOR(i2, 8) w.f8("Y", c.Y[w.i2]);
        FOR(i2, 8) w.f8("Z", c.Z[w.i2]);
        FOR(i2, 8) w.f8("VX", c.VX[w.i2]);
        FOR(i2, 8) w.f8("VY", c.VY[w.i2]);
        FOR(i2, 8) w.f8("VZ", c.VZ[w.i2]);
        DONE(i2);
    }
    DONE(i1);
    w.group = "attitude.";
    w.cds_short("PeriodStart", s.Attitude.PeriodStartTime);
    w.cds_short("PeriodEnd", s.Attitude.PeriodEndTime);
    w.f8("PrincipalAxisOffsetAngle", s.Attitude.PrincipalAxisOffsetAngle);
    FOR(i1, 100)
    {
        auto& c = s.Attitude.AttitudePolynomial[w.i1];
        bool present = num(w.base + w.pos, 2) != 0;
        if (c.is_present() != present) w.report("present", c.is_present(), present);
        w.cds_short("Start", c.StartTime);
        w.cds_short("End", c.EndTime);
        FOR(i2, 8) w.f8("XOfSpinAxis", c.XOfSpinAxis[w.i2]);
        FOR(i2, 8) w.f8("YOfSpinAxis", c.YOfSpinAxis[w.i2]);
        FOR(i2, 8) w.f8("ZOfSpinAxis", c.ZOfSpinAxis[w.i2]);
        DONE(i2);
    }
    DONE(i1);
    w.group = "";
    w.f8("SpinRateAtRCStart", s.SpinRateatRCStart);
    w.group = "utc.";
    auto& u = s.UTCCorrelation;
    w.cds_short("PeriodStart", u.PeriodStartTime);
    w.cds_short("PeriodEnd", u.PeriodEndTime);
    w.cuc("OnBoardTimeStart", u.OnBoardTimeStart);
    w.f8("VarOnBoardTimeStart", u.VarOnBoardTimeStart);
    w.f8("A1", u.A1);
    w.f8("VarA1", u.VarA1);
    w.f8("A2", u.A2);
    w.f8("VarA2", u.VarA2);
    w.end(60134);
}

void walk(Walker& w, MSG_data_ImageAcquisition& a)
{
    auto& t = a.PlannedAquisitionTime;
    w.cds_expanded("TrueRepeatCycleStart", t.TrueRepeatCycleStart);
    w.cds_expanded("PlannedForwardScanEnd", t.PlannedForwardScanEnd);
    w.cds_expanded("PlannedRepeatCycleEnd", t.PlannedRepeatCycleEnd);
    FOR(i1, 12) w.u1("ChannelStatus", a.RadiometerStatus.ChannelStatus[w.i1]);
    FOR(i1, 42) w.u1("DetectorStatus", a.RadiometerStatus.DetectorStatus[w.i1]);
    auto& s = a.RadiometerSettings;
    FOR(i1, 42) w.u2("MDUSamplingDelays", s.MDUSamplingDelays[w.i1]);
    DONE(i1);
    w.u2("MDUNomHRVDelay1", s.MDUNomHRVDelay1);
    w.u2("MDUNomHRVDelay2", s.MDUNomHRVDelay2);
    w.skip(2);
    w.u2("MDUNomHRVBreakline", s.MDUNomHRVBreakline);
    w.u1("DHSSyncSelection", s.DHSSyncSelection);
    FOR(i1, 42) w.u2("MDUOutGain", s.MDUOutGain[w.i1]);
    FOR(i1, 42) w.u1("MDUCoarseGain", s.MDUCoarseGain[w.i1]);
    FOR(i1, 42) w.u2("MDUFineGain", s.MDUFineGain[w.i1]);
    FOR(i1, 42) w.u2("MDUNumericalOffset", s.MDUNumericalOffset[w.i1]);
    FOR(i1, 42) w.u2("PUGain", s.PUGain[w.i1]);
    FOR(i1, 27) w.u2("PUOffset", s.PUOffset[w.i1]);
    FOR(i1, 15) w.u2("PUBias", s.PUBias[w.i1]);
    DONE(i1);
    w.u2("L0_LineCounter", s.L0_LineCounter);
    w.u2("K1_RetraceLines", s.K1_RetraceLines);
    w.u2("K2_PauseDeciseconds", s.K2_PauseDeciseconds);
    w.u2("K3_RetraceLines", s.K3_RetraceLines);
    w.u2("K4_PauseDeciseconds", s.K4_PauseDeciseconds);
    w.u2("K5_RetraceLines", s.K5_RetraceLines);
    w.u1("X_DeepSpaceWindowPosition", s.X_DeepSpaceWindowPosition);
    w.u2("RefocusingLines", s.RefocusingLines);
    w.u1("RefocusingDirection", s.RefocusingDirection);
    w.u2("RefocusingPosition", s.RefocusingPosition);
    w.flag("ScanRefPosFlag", s.ScanRefPosFlag);
    w.u2("ScanRefPosNumber", s.ScanRefPosNumber);
    w.f4("ScanRefPotVal", s.ScanRefPotVal);
    w.u2("ScanFirstLine", s.ScanFirstLine);
    w.u2("ScanLastLine", s.ScanLastLine);
    w.u2("RetraceStartLine", s.RetraceStartLine);
    auto& o = a.RadiometerOperations;
    w.flag("LastGainChangeFlag", o.LastGainChangeFlag);
    w.cds_short("LastGainChangeTime", o.LastGainChangeTime);
    w.flag("DecontaminationNow", o.DecontaminationNow);
    w.cds_short("DecontaminationStart", o.DecontaminationStart);
    w.cds_short("DecontaminationEnd", o.DecontaminationEnd);
    w.flag("BBCalScheduled", o.BBCalScheduled);
    w.u1("BBCalibrationType", o.BBCalibrationType);
    w.u2("BBFirstLine", o.BBFirstLine);
    w.u2("BBLastLine", o.BBLastLine);
    w.u2("ColdFocalPlaneOpTemp", o.ColdFocalPlaneOpTemp);
    w.u2("WarmFocalPlaneOpTemp", o.WarmFocalPlaneOpTemp);
    w.end(700);
}

void walk(Walker& w, MSG_data_CelestialEvents& c)
{
    auto& e = c.CelestialBodiesPosition.Ephemeris;
    w.cds_short("PeriodStart", e.PeriodStartTime);
    w.cds_short("PeriodEnd", e.PeriodEndTime);
    w.generalized("RelatedOrbitFileTime", e.RelatedOrbitFileTime);
    w.generalized("RelatedAttitudeFileTime", e.RelatedAttitudeFileTime);
    MSG_Earth_Moon_Sun_Coefficient* sets[] = {e.EarthEphemeris, e.MoonEphemeris, e.SunEphemeris};
    const char* names[] = {"earth.", "moon.", "sun."};
    for (int k = 0; k < 3; ++k)
    {
        w.group = names[k];
        FOR(i1, 100)
        {
            auto& x = sets[k][w.i1];
            w.cds_short("Start", x.StartTime);
            w.cds_short("End", x.EndTime);
            FOR(i2, 8) w.f8("Alpha", x.AlphaCoef[w.i2]);
            FOR(i2, 8) w.f8("Beta", x.BetaCoef[w.i2]);
            DONE(i2);
        }
    }
    w.group = "star.";
    FOR(i1, 100)
    {
        auto& x = e.StarEphemeris[w.i1];
        FOR(i2, 20)
        {
            w.u2("StarId", x.StarId[w.i2]);
            w.cds_short("Start", x.StartTime[w.i2]);
            w.cds_short("End", x.EndTime[w.i2]);
            FOR(i3, 8) w.f8("Alpha", x.AlphaCoef[w.i2][w.i3]);
            FOR(i3, 8) w.f8("Beta", x.BetaCoef[w.i2][w.i3]);
            DONE(i3);
        }
        DONE(i2);
    }
    DONE(i1);
    w.group = "relation.";
    auto& r = c.RelationToImage;
    w.u1("TypeOfEclipse", r.TypeofEclypse);
    w.cds_short("EclipseStart", r.EclipseStartTime);
    w.cds_short("EclipseEnd", r.EclipseEndTime);
    w.u1("VisibleBodiesInImage", r.VisibleBodiesInImage);
    w.u1("BodiesClosestToFOV", r.BodiesClosesttoFOV);
    w.u1("ImpactOnImageQuality", r.ImpactOnImageQuality);
    w.end(326058);
}

/// The values printed for an object, one per line that has a label
template<class T> vector<string> printed(T& t)
{
    std::stringstream s;
    s << t;
    vector<string> r;
    string line;
    while (std::getline(s, line))
    {
        size_t p = line.find(": ");
        if (p == string::npos) continue;
        line.erase(0, p + 2);
        while (!line.empty() && line.back() == ' ') line.pop_back();
        size_t q = line.find_first_not_of(' ');
        r.push_back(q == string::npos ? "" : line.substr(q));
    }
    return r;
}
template<class V> string text(V v)
{
    std::stringstream s;
    s << v;
    return s.str();
}
float real4(Bytes p) { uint32_t u = num(p, 4); float f; memcpy(&f, &u, 4); return f; }
double real8(Bytes p) { uint64_t u = num(p, 8); double f; memcpy(&f, &u, 8); return f; }

/// Fields that can only be seen printed
struct Printed
{
    Walker& w;
    vector<string> got;
    size_t n = 0;
    template<class T> Printed(Walker& w, T& t) : w(w), got(printed(t)) {}
    void is(const char* name, const string& want)
    {
        ++w.fields;
        string g = n < got.size() ? got[n] : "(nothing)";
        ++n;
        if (g != want && w.bad.empty())
        {
            w.bad = w.rec + "." + name;
            w.detail = mc::fmt("%s%s at byte %zu is printed as \"%s\" instead of \"%s\"", w.group, name, w.pos, g.c_str(), want.c_str());
        }
    }
    void u1(const char* name) { is(name, text(num(w.base + w.pos, 1))); w.pos += 1; }
    void u2(const char* name) { is(name, text(num(w.base + w.pos, 2))); w.pos += 2; }
    void u4(const char* name) { is(name, text(num(w.base + w.pos, 4))); w.pos += 4; }
    void i4(const char* name) { is(name, text((int32_t)num(w.base + w.pos, 4))); w.pos += 4; }
    void f4(const char* name) { is(name, text(real4(w.base + w.pos))); w.pos += 4; }
    void f8(const char* name) { is(name, text(real8(w.base + w.pos))); w.pos += 8; }
    template<class F> void name(const char* n, F f) { is(n, f(w.base[w.pos])); w.pos += 1; }
};

string table(unsigned v, std::initializer_list<const char*> names, unsigned first = 0)
{
    return v >= first && v - first < names.size() ? *(names.begin() + (v - first)) : "Unknown";
}

void walk(Walker& w, MSG_data_ImageDescription& d)
{
    w.u1("TypeOfProjection", d.ProjectionDescription.TypeOfProjection);
    w.f4("LongitudeOfSSP", d.ProjectionDescription.LongitudeOfSSP);
    MSG_grid* grids[] = {&d.ReferenceGridVIS_IR, &d.ReferenceGridHRV};
    for (auto g: grids)
    {
        w.i4("NumberOfLines", g->NumberofLines);
        w.i4("NumberOfColumns", g->NumberofColumns);
        w.f4("LineDirGridStep", g->LineDirGridStep);
        w.f4("ColumnDirGridStep", g->ColumnDirGridStep);
        w.u1("GridOrigin", g->GridOrigin);
    }
    Printed v(w, d.PlannedCoverageVIS_IR);
    for (auto n: {"SouthernLinePlanned", "NorthernLinePlanned", "EasternColumnPlanned", "WesternColumnPlanned"}) v.i4(n);
    Printed h(w, d.PlannedCoverageHRV);
    for (auto n: {"LowerSouth", "LowerNorth", "LowerEast", "LowerWest", "UpperSouth", "UpperNorth", "UpperEast", "UpperWest"}) h.i4(n);
    auto& p = d.Level1_5ImageProduction;
    w.u1("ImageProcDirection", p.ImageProcDirection);
    w.u1("PixelGenDirection", p.PixelGenDirection);
    FOR(i1, 12) w.flag("PlannedChanProcessing", p.PlannedChanProcessing[w.i1]);
    DONE(i1);
    w.end(101);
}

void walk(Walker& w, MSG_data_RadiometricProc& r)
{
    auto& s = r.RPSummary;
    FOR(i1, 12) w.flag("RadianceLinearization", s.RadianceLinearization[w.i1]);
    FOR(i1, 12) w.flag("DetectorEqualization", s.DetectorEqualization[w.i1]);
    FOR(i1, 12) w.flag("OnboardCalibrationResult", s.OnboardCalibrationResult[w.i1]);
    FOR(i1, 12) w.flag("MPEFCalFeedback", s.MPEFCalFeedBack[w.i1]);
    FOR(i1, 12) w.flag("MTFAdaptation", s.MTFAdaptation[w.i1]);
    FOR(i1, 12) w.flag("StraylightCorrection", s.StraylightCorrectionFlag[w.i1]);
    FOR(i1, 12)
    {
        w.f8("CalSlope", r.ImageCalibration[w.i1].Cal_Slope);
        w.f8("CalOffset", r.ImageCalibration[w.i1].Cal_Offset);
    }
    DONE(i1);
    w.group = "blackbody.";
    {
        Printed p(w, r.BlackBodyDataUsed);
        // Observation time and on board time, printed as text
        MSG_time_cds_expanded t(w.base + w.pos);
        p.is("BBObservationUTC", t.get_timestring());
        w.skip(10);
        MSG_time_cuc c(w.base + w.pos);
        p.is("OnBoardBBTime", text(num(w.base + w.pos, 4) + num(w.base + w.pos + 4, 3) / 16777216.0));
        w.skip(7);
        for (int i = 0; i < 42; ++i) p.u2("MDUOutGain");
        for (int i = 0; i < 42; ++i) p.u1("MDUCoarseGain");
        for (int i = 0; i < 42; ++i) p.u2("MDUFineGain");
        for (int i = 0; i < 42; ++i) p.u2("MDUNumericalOffset");
        for (int i = 0; i < 42; ++i) p.u2("PUGain");
        for (int i = 0; i < 27; ++i) p.u2("PUOffset");
        for (int i = 0; i < 15; ++i) p.u2("PUBias");
        for (int i = 0; i < 42; ++i)
        {
            // 42 numbers of 12 bits
            unsigned bit = i * 12;
            unsigned v = (num(w.base + w.pos + bit / 8, 2) >> (bit % 8 ? 0 : 4)) & 0xfff;
            p.is("DCRValues", mc::fmt("%03x", v));
        }
        w.skip(63);
        p.name("XDeepSpaceWindowPosition", [](unsigned v) { return MSG_DeepSpace_Window_Position((t_enum_MSG_DeepSpace_Window_Position)v); });
        for (int i = 0; i < 12; ++i) p.u2("FCUTemp");
        for (int i = 0; i < 4; ++i) p.u1("FCUM23AssemblyTemp");
        for (int i = 0; i < 4; ++i) p.u2("FCUBaffleBlackBodyTemp");
        for (int i = 0; i < 2; ++i) p.u2("FCUSMMStatus");
        for (int i = 0; i < 12; ++i)
        {
            p.u4("NumberOfPixelsUsed");
            p.f4("MeanCount");
            p.f4("RMS");
            p.u2("MaxCount");
            p.u2("MinCount");
            p.f8("BBProcessingSlope");
            p.f8("BBProcessingOffset");
        }
    }
    w.group = "mpef.";
    FOR(i1, 12)
    {
        Printed p(w, r.MPEFCalFeedback.IMPF_CAL_Data[w.i1]);
        p.name("ImageQualityFlag", [](unsigned v) { return MSG_image_quality_flag((t_enum_MSG_image_quality_flag)v); });
        p.name("ReferenceDataFlag", [](unsigned v) { return MSG_reference_data_flag((t_enum_MSG_reference_data_flag)v); });
        p.name("AbsCalMethod", [](unsigned v) { return MSG_absolute_calibration_method((t_enum_MSG_absolute_calibration_method)v); });
        w.skip(1);
        for (auto n: {"AbsCalWeightVic", "AbsCalWeightXsat", "AbsCalCoeff", "AbsCalError", "CalMonBias", "CalMonRms", "OffsetCount"}) p.f4(n);
    }
    w.group = "";
    FOR(i1, 42) FOR(i2, 64) w.f4("RadTransform", r.RadTransform[w.i1][w.i2]);
    auto& m = r.RadProcMTFAdaptation;
    FOR(i1, 33) FOR(i2, 16) w.f4("VIS_IRMTFCorrectionE_W", m.VIS_IRMTFCorrectionE_W[w.i1][w.i2]);
    FOR(i1, 33) FOR(i2, 16) w.f4("VIS_IRMTFCorrectionN_S", m.VIS_IRMTFCorrectionN_S[w.i1][w.i2]);
    FOR(i1, 9) FOR(i2, 16) w.f4("HRVMTFCorrectionE_W", m.HRVIRMTFCorrectionE_W[w.i1][w.i2]);
    FOR(i1, 9) FOR(i2, 16) w.f4("HRVMTFCorrectionN_S", m.HRVIRMTFCorrectionN_S[w.i1][w.i2]);
    FOR(i1, 12) FOR(i2, 8) FOR(i3, 8) w.f4("StraylightCorrection", r.StraylightCorrection[w.i1][w.i2][w.i3]);
    w.end(20815);
}

void walk(Walker& w, MSG_data_GeometricProc& g)
{
    FOR(i1, 42) w.f4("E_W_FocalPlane", g.OptAxisDistances.E_W_FocalPlane[w.i1]);
    FOR(i1, 42) w.f4("N_S_FocalPlane", g.OptAxisDistances.N_S_FocalPlane[w.i1]);
    w.u1("TypeOfEarthModel", g.EarthModel.TypeofEarthModel);
    w.f8("EquatorialRadius", g.EarthModel.EquatorialRadius);
    w.f8("NorthPolarRadius", g.EarthModel.NorthPolarRadius);
    w.f8("SouthPolarRadius", g.EarthModel.SouthPolarRadius);
    FOR(i1, 12) FOR(i2, 360) w.f4("AtmosphericModel", g.AtmosphericModel[w.i1][w.i2]);
    DONE(i2);
    FOR(i1, 12) w.u1("ResamplingFunction", g.ResamplingFunction[w.i1]);
    w.end(17653);
}

void walk(Walker& w, MSG_data_IMPFConfiguration& c)
{
    w.u2("Issue", c.GPConfigItemVersion.Issue);
    w.u2("Revision", c.GPConfigItemVersion.Revision);
    FOR(i1, 50)
    {
        auto& d = c.SuDetails[w.i1];
        w.u4("SoftwareUnitId", d.SoftwareUnitId);
        w.u1("SUIdInstance", d.SUIdInstance);
        w.u1("SUMode", d.SUMode);
        w.u1("SUState", d.SUState);
        w.u2("SWVersion.Issue", d.SUConfiguration.SWVersion.Issue);
        w.u2("SWVersion.Revision", d.SUConfiguration.SWVersion.Revision);
        FOR(i2, 10)
        {
            w.u2("InfoBaseVersion.Issue", d.SUConfiguration.InfoBaseVersion[w.i2].Issue);
            w.u2("InfoBaseVersion.Revision", d.SUConfiguration.InfoBaseVersion[w.i2].Revision);
        }
        DONE(i2);
    }
    auto& p = c.WarmStartParms;
    FOR(i1, 1527) w.f8("ScanningLaw", p.ScanningLaw[w.i1]);
    FOR(i1, 3) w.f8("RadFramesAlignment", p.RadFramesAlignment[w.i1]);
    FOR(i1, 2) w.f4("ScanningLawVariation", p.ScanningLawVariation[w.i1]);
    FOR(i1, 42)
    {
        w.f4("ConstCoef", p.EqualisationParms[w.i1].ConstCoef);
        w.f4("LinearCoef", p.EqualisationParms[w.i1].LinearCoef);
        w.f4("QuadraticCoef", p.EqualisationParms[w.i1].QuadraticCoef);
    }
    auto& b = p.BlackBodyDataWarmStart;
    FOR(i1, 12) w.f8("GTotalForMethod1", b.GTotalForMethod1[w.i1]);
    FOR(i1, 12) w.f8("GTotalForMethod2", b.GTotalForMethod2[w.i1]);
    FOR(i1, 12) w.f8("GTotalForMethod3", b.GTotalForMethod3[w.i1]);
    FOR(i1, 12) w.f8("GBackForMethod1", b.GBackForMethod1[w.i1]);
    FOR(i1, 12) w.f8("GBackForMethod2", b.GBackForMethod2[w.i1]);
    FOR(i1, 12) w.f8("GBackForMethod3", b.GBackForMethod3[w.i1]);
    FOR(i1, 12) w.f8("RatioGTotalToGBack", b.RatioGTotalToGBack[w.i1]);
    FOR(i1, 12) w.f8("GainInFrontOpticsCont", b.GainInFrontOpticsCont[w.i1]);
    FOR(i1, 12) w.f4("CalibrationConstants", b.CalibrationConstants[w.i1]);
    DONE(i1);
    w.f8("TimeOfColdObsSeconds", b.TimeOfColdObsSeconds);
    w.f8("TimeOfColdObsNanoSecs", b.TimeOfColdObsNanoSecs);
    FOR(i1, 12) w.f8("IncidentRadiance", b.IncidentRadiance[w.i1]);
    DONE(i1);
    w.f8("TempCal", b.TempCal);
    w.f8("TempM1", b.TempM1);
    w.f8("TempScan", b.TempScan);
    w.f8("TempM1Baf", b.TempM1Baf);
    w.f8("TempCalSurround", b.TempCalSurround);
    w.f8("MaxFeedbackVoltage", b.MirrorParameters.MaxFeedbackVoltage);
    w.f8("MinFeedbackVoltage", b.MirrorParameters.MinFeedbackVoltage);
    w.f8("MirrorSlipEstimate", b.MirrorParameters.MirrorSlipEstimate);
    w.f8("LastSpinPeriod", b.LastSpinPeriod);
    auto& h = b.HKTMParameters;
    MSG_time_cds_short* times[] = {&h.TimeS0Packet, &h.TimeS1Packet, &h.TimeS2Packet, &h.TimeS3Packet, &h.TimeS4Packet, &h.TimeS5Packet,
                                   &h.TimeS6Packet, &h.TimeS7Packet, &h.TimeS8Packet, &h.TimeS9Packet, &h.TimeSYPacket, &h.TimePSPacket};
    FOR(i1, 12) w.cds_short("TimePacket", *times[w.i1]);
    FOR(i1, 3408) w.u1("WSPReserved", h.WSPReserved[w.i1]);
    w.end(19786);
}

void walk(Walker& w, MSG_data_ImageProdStats& s)
{
    w.u2("SatelliteId", s.SatelliteId);
    auto& a = s.ActualScanningSummary;
    w.u1("NominalImageScanning", a.NominalImageScanning);
    w.u1("ReducedScan", a.ReducedScan);
    w.cds_short("ForwardScanStart", a.ForwardScanStart);
    w.cds_short("ForwardScanEnd", a.ForwardScanEnd);
    auto& b = s.RadiometerBehaviour;
    w.u1("NominalBehaviour", b.NominalBehaviour);
    w.u1("RadScanIrregularity", b.RadScanIrregularity);
    w.u1("RadStoppage", b.RadStoppage);
    w.u1("RepeatCycleNotCompleted", b.RepeatCycleNotCompleted);
    w.u1("GainChangeTookPlace", b.GainChangeTookPlace);
    w.u1("DecontaminationTookPlace", b.DecontaminationTookPlace);
    w.u1("NoBBCalibrationAchieved", b.NoBBCalibrationAchieved);
    w.u1("IncorrectTemperature", b.IncorrectTemperature);
    w.u1("InvalidBBData", b.InvalidBBData);
    w.u1("InvalidAuxOrHKTMData", b.InvalidAuxOrHKTMData);
    w.u1("RefocusingMechanismActuated", b.RefocusingMechanismActuated);
    w.u1("MirrorBackToReferencePos", b.MirrorBackToReferencePos);
    auto& r = s.ReceptionSummaryStats;
    FOR(i1, 12) w.u4("PlannedNumberOfL10Lines", r.PlannedNumberOfL10Lines[w.i1]);
    FOR(i1, 12) w.u4("NumberOfMissingL10Lines", r.NumberOfMissingL10Lines[w.i1]);
    FOR(i1, 12) w.u4("NumberOfCorruptedL10Lines", r.NumberOfCorruptedL10Lines[w.i1]);
    FOR(i1, 12) w.u4("NumberOfReplacedL10Lines", r.NumberOfReplacedL10Lines[w.i1]);
    FOR(i1, 12)
    {
        auto& v = s.L15ImageValidity[w.i1];
        w.u1("NominalImage", v.NominalImage);
        w.u1("NonNominalBecauseIncomplete", v.NonNominalBecauseIncomplete);
        w.u1("NonNominalRadiometricQuality", v.NonNominalRadiometricQuality);
        w.u1("NonNominalGeometricQuality", v.NonNominalGeometricQuality);
        w.u1("NonNominalTimeliness", v.NonNominalTimeliness);
        w.u1("IncompleteL15", v.IncompleteL15);
    }
    DONE(i1);
    auto& c = s.ActualL15CoverageVIS_IR;
    w.i4("SouthernLineActual", c.SouthernLineActual);
    w.i4("NorthernLineActual", c.NorthernLineActual);
    w.i4("EasternColumnActual", c.EasternColumnActual);
    w.i4("WesternColumnActual", c.WesternColumnActual);
    auto& h = s.ActualL15CoverageHRV;
    w.i4("LowerSouthLineActual", h.LowerSouthLineActual);
    w.i4("LowerNorthLineActual", h.LowerNorthLineActual);
    w.i4("LowerEastColumnActual", h.LowerEastColumnActual);
    w.i4("LowerWestColumnActual", h.LowerWestColumnActual);
    w.i4("UpperSouthLineActual", h.UpperSouthLineActual);
    w.i4("UpperNorthLineActual", h.UpperNorthLineActual);
    w.i4("UpperEastColumnActual", h.UpperEastColumnActual);
    w.i4("UpperWestColumnActual", h.UpperWestColumnActual);
    w.end(340);
}

template<class O> void observation(Walker& w, O& o)
{
    w.f8("Alpha", o.Alpha);
    w.f8("AlphaConfidence", o.AlphaConfidence);
    w.f8("Beta", o.Beta);
    w.f8("BetaConfidence", o.BetaConfidence);
    w.cds("ObservationTime", o.ObservationTime);
    w.f8("SpinRate", o.SpinRate);
    w.f8("AlphaDeviation", o.AlphaDeviation);
    w.f8("BetaDeviation", o.BetaDeviation);
}

void walk(Walker& w, MSG_data_NavigExtrResult& n)
{
    w.group = "horizon.";
    FOR(i1, 4)
    {
        w.u1("HorizonId", n.ExtractedHorizons[w.i1].HorizonId);
        observation(w, n.ExtractedHorizons[w.i1]);
    }
    w.group = "star.";
    FOR(i1, 20)
    {
        w.u2("StarId", n.ExtractedStars[w.i1].StarId);
        observation(w, n.ExtractedStars[w.i1]);
    }
    w.group = "landmark.";
    FOR(i1, 50)
    {
        auto& l = n.ExtractedLandmarks[w.i1];
        w.u2("LandmarkId", l.LandmarkId);
        w.f8("LandmarkLongitude", l.LandmarkLongitude);
        w.f8("LandmarkLatitude", l.LandmarkLatitude);
        observation(w, l);
    }
    w.end(5680);
}

#define F4(f) w.f4(#f, q.f)
#define U2(f) w.u2(#f, q.f)
#define A4(f, n) FOR(i2, n) w.u4(#f, q.f[w.i2]); DONE(i2)
#define AF(f, n) FOR(i2, n) w.f4(#f, q.f[w.i2]); DONE(i2)

void walk(Walker& w, MSG_data_RadiometricQuality& r)
{
    w.group = "l10.";
    FOR(i1, 42)
    {
        auto& q = r.L10RadQuality[w.i1];
        U2(FullImageMinimumCount); U2(FullImageMaximumCount); U2(EarthDiskMinimumCount); U2(EarthDiskMaximumCount);
        U2(MoonMinimumCount); U2(MoonMaximumCount);
        F4(FullImageMeanCount); F4(FullImageStandardDeviation); F4(EarthDiskMeanCount); F4(EarthDiskStandardDeviation);
        F4(MoonMeanCount); F4(MoonStandardDeviation); F4(SpaceMeanCount); F4(SpaceStandardDeviation);
        F4(SESpaceCornerMeanCount); F4(SESpaceCornerStandardDeviation); F4(SWSpaceCornerMeanCount); F4(SWSpaceCornerStandardDeviation);
        F4(NESpaceCornerMeanCount); F4(NESpaceCornerStandardDeviation); F4(NWSpaceCornerMeanCount); F4(NWSpaceCornerStandardDeviation);
        F4(FourSpaceCornersMeanCount); F4(FourSpaceCornersStandardDeviation);
        A4(FullImageIstogram, 256); A4(EarthDiskIstogram, 256); A4(ImageCentreSquareIstogram, 256);
        A4(SESpaceCornerIstogram, 128); A4(SWSpaceCornerIstogram, 128); A4(NESpaceCornerIstogram, 128); A4(NWSpaceCornerIstogram, 128);
        AF(FullImageEntropy, 3); AF(EarthDiskEntropy, 3); AF(ImageCentreSquareEntropy, 3); AF(SESpaceCornerEntropy, 3);
        AF(SWSpaceCornerEntropy, 3); AF(NESpaceCornerEntropy, 3); AF(NWSpaceCornerEntropy, 3); AF(FourSpaceCornersEntropy, 3);
        AF(ImageCentreSquarePSD_EW, 128); AF(FullImagePSD_EW, 128); AF(ImageCentreSquarePSD_NS, 128); AF(FullImagePSD_NS, 128);
    }
    w.group = "l15.";
    FOR(i1, 12)
    {
        auto& q = r.L15RadQuality[w.i1];
        U2(FullImageMinimumCount); U2(FullImageMaximumCount); U2(EarthDiskMinimumCount); U2(EarthDiskMaximumCount);
        F4(FullImageMeanCount); F4(FullImageStandardDeviation); F4(EarthDiskMeanCount); F4(EarthDiskStandardDeviation);
        F4(SpaceMeanCount); F4(SpaceStandardDeviation);
        A4(FullImageIstogram, 256); A4(EarthDiskIstogram, 256); A4(ImageCentreSquareIstogram, 256);
        AF(FullImageEntropy, 3); AF(EarthDiskEntropy, 3); AF(ImageCentreSquareEntropy, 3);
        AF(ImageCentreSquarePSD_EW, 128); AF(FullImagePSD_EW, 128); AF(ImageCentreSquarePSD_NS, 128); AF(FullImagePSD_NS, 128);
        F4(SESpaceCornerL15_RMS); F4(SESpaceCornerL15_Mean); F4(SWSpaceCornerL15_RMS); F4(SWSpaceCornerL15_Mean);
        F4(NESpaceCornerL15_RMS); F4(NESpaceCornerL15_Mean); F4(NWSpaceCornerL15_RMS); F4(NWSpaceCornerL15_Mean);
    }
    w.end(371256);
}

void walk(Walker& w, MSG_data_GeometricQuality& g)
{
    MSG_Accuracy* sets[] = {g.AbsoluteAccuracy, g.RelativeAccuracy, g.N500PixelsRelativeAccuracy, g.N16PixelsRelativeAccuracy};
    const char* names[] = {"absolute.", "relative.", "500.", "16."};
    for (int k = 0; k < 4; ++k)
    {
        w.group = names[k];
        FOR(i1, 12)
        {
            auto& q = sets[k][w.i1];
            w.u1("QualityInfoValidity", q.QualityInfoValidity);
            F4(EastWestAccuracyRMS); F4(NorthSouthAccuracyRMS); F4(MagnitudeRMS);
            F4(EastWestUncertaintyRMS); F4(NorthSouthUncertaintyRMS); F4(MagnitudeUncertaintyRMS);
            F4(EastWestMaxDeviation); F4(NorthSouthMaxDeviation); F4(MagnitudeMaxDeviation);
            F4(EastWestUncertaintyMax); F4(NorthSouthUncertaintyMax); F4(MagnitudeUncertaintyMax);
        }
    }
    w.group = "misregistration.";
    FOR(i1, 12)
    {
        auto& q = g.MisregistrationResiduals[w.i1];
        w.u1("QualityInfoValidity", q.QualityInfoValidity);
        F4(EastWestResiduals); F4(NorthSouthResiduals); F4(EastWestUncertainty); F4(NorthSouthUncertainty);
        F4(EastWestRMS); F4(NorthSouthRMS); F4(EastWestMagnitude); F4(NorthSouthMagnitude);
        F4(EastWestMagnitudeUncertainty); F4(NorthSouthMagnitudeUncertainty);
    }
    w.group = "status.";
    FOR(i1, 12)
    {
        auto& q = g.GeometricQualityStatus[w.i1];
        w.u1("QualityNominal", q.QualityNominal);
        w.u1("NominalAbsolute", q.NominalAbsolute);
        w.u1("NominalRelativeToPreviousImage", q.NominalRelativeToPreviousImage);
        w.u1("NominalForREL500", q.NominalForREL500);
        w.u1("NominalForREL16", q.NominalForREL16);
        w.u1("NominalForResMisreg", q.NominalForResMisreg);
    }
    w.end(2916);
}

void walk(Walker& w, MSG_data_TimelinComple& t)
{
    w.f4("MaxDelay", t.Timeliness.MaxDelay);
    w.f4("MinDelay", t.Timeliness.MinDelay);
    w.f4("MeanDelay", t.Timeliness.MeanDelay);
    FOR(i1, 12)
    {
        auto& q = t.Completeness[w.i1];
        U2(PlannedL15ImageLines); U2(GeneratedL15ImageLines); U2(ValidL15ImageLines); U2(DummyL15ImageLines); U2(CorruptedL15ImageLines);
    }
    w.end(132);
}

/// Decode the bytes and compare all fields
template<class R> bool compare(R& r, const string& name, Bytes b)
{
    Walker w(b, name);
    walk(w, r);
    if (!w.bad.empty()) mc::fail(w.bad, "%s", w.detail.c_str());
    return w.bad.empty();
}

string stamp15(unsigned n)
{
    return mc::fmt("%04u%02u%02u%02u%02u%02uZ", 1990 + n % 40, 1 + n % 12, 1 + n % 28, n % 24, n % 60, n * 7 % 60);
}

/// Bytes of the 15 character times of the celestial events are kept valid
void fix_times(const string& name, string& s, unsigned n)
{
    if (name != "celestial") return;
    s.replace(12, 15, stamp15(n));
    s.replace(27, 15, stamp15(n * 5 + 3));
}

/// Background number k of a record
string background(unsigned k, size_t size, const string& name)
{
    string s(size, 0);
    if (k == 0) ;
    else if (k == 1) s.assign(size, (char)0xff);
    else if (k == 2) for (size_t i = 0; i < size; ++i) s[i] = (char)(i * 7 + i / 256 * 13 + 1);
    else if (k == 3)
    {
        uint32_t x = 12345;
        for (size_t i = 0; i < size; ++i)
        {
            x = x * 1664525 + 1013904223;
            s[i] = (char)(x >> 24);
        }
    }
    else if (k == 4) s.assign(size, (char)0x80);
    else if (k == 5) s.assign(size, 0x01);
    fix_times(name, s, k);
    return s;
}

template<class R> bool decode(const string& name, const string& bytes, R* r)
{
    // A copy on the heap of exactly that size, so that reads outside it are seen
    vector<unsigned char> v(bytes.begin(), bytes.end());
    size_t n = r->read_from(v.data());
    if (n != bytes.size()) mc::fail(name + ".size", "the record is %zu bytes long instead of %zu", n, bytes.size());
    return compare(*r, name, v.data());
}

/// Backgrounds, and the address patterns: byte p is one value or another
/// according to bit b of p, so that a byte taken from any other place differs
/// in at least one pattern
template<class R> void patterns(const string& name, size_t size)
{
    R* r = new R;
    for (unsigned k = 0; k < 6; ++k)
    {
        if (!mc::begin("%s background %u", name.c_str(), k)) continue;
        decode(name, background(k, size, name), r);
        mc::count(k != 0);
    }
    const unsigned char pairs[4][2] = {{0x5a, 0xa5}, {0x01, 0x80}, {0x3f, 0x40}, {0x00, 0x01}};
    for (unsigned q = 0; q < 4; ++q)
        for (unsigned b = 0; b < 19; ++b)
            for (unsigned inv = 0; inv < 2; ++inv)
            {
                if (!mc::begin("%s address bit %u values %02x/%02x", name.c_str(), b, pairs[q][inv], pairs[q][1 - inv])) continue;
                string s(size, 0);
                for (size_t i = 0; i < size; ++i) s[i] = (char)pairs[q][((i >> b) & 1) ^ inv];
                fix_times(name, s, b * 8 + q * 2 + inv);
                decode(name, s, r);
                mc::count();
            }
    mc::sample("%s: 6 backgrounds and 152 address patterns over %zu bytes", name.c_str(), size);
    delete r;
}

/// Change one byte at a time in bytes from..to of a record
template<class R> void single(const string& name, size_t size, size_t from, size_t to, size_t step = 1)
{
    R* r = new R;
    string bg = background(2, size, name);
    vector<unsigned char> v(bg.begin(), bg.end());
    for (size_t p = from; p < to; p += step)
    {
        if (name == "celestial" && p >= 12 && p < 42) continue;    // text, decided by C06
        if (!mc::begin("%s byte %zu changed", name.c_str(), p)) continue;
        unsigned char old = v[p];
        for (unsigned x: {0xff, 0x80, 0x01})
        {
            v[p] = old ^ x;
            r->read_from(v.data());
            compare(*r, name, v.data());
            mc::count();
        }
        v[p] = old;
        r->read_from(v.data());
    }
    compare(*r, name, v.data());
    delete r;
}

#define SMALL(id, type, label, size) \
    MC_GROUP(pattern_##id) { patterns<type>(label, size); } \
    MC_GROUP(single_##id) { single<type>(label, size, 0, size, mc::thorough || size < 6000 ? 1 : 7); }

SMALL(acquisition, MSG_data_ImageAcquisition, "acquisition", 700)
SMALL(description, MSG_data_ImageDescription, "description", 101)
SMALL(radproc, MSG_data_RadiometricProc, "radiometricproc", 20815)
SMALL(geoproc, MSG_data_GeometricProc, "geometricproc", 17653)
SMALL(impf, MSG_data_IMPFConfiguration, "impf", 19786)
SMALL(stats, MSG_data_ImageProdStats, "stats", 340)
SMALL(navigation, MSG_data_NavigExtrResult, "navigation", 5680)
SMALL(geoquality, MSG_data_GeometricQuality, "geometricquality", 2916)
SMALL(timeliness, MSG_data_TimelinComple, "timeliness", 132)
SMALL(satellite, MSG_data_SatelliteStatus, "satellite", 60134)

MC_GROUP(pattern_celestial) { patterns<MSG_data_CelestialEvents>("celestial", 326058); }
MC_GROUP(pattern_radquality) { patterns<MSG_data_RadiometricQuality>("radiometricquality", 371256); }

// The two big records are made of repeated parts. Quick: every byte of the
// first and last of each kind; thorough: every byte.
#define BIG(id, type, label, size, part, parts) \
    MC_GROUP(single_##id##part) \
    { \
        size_t a = (size_t)size * part / parts, b = (size_t)size * (part + 1) / parts; \
        single<type>(label, size, a, b, mc::thorough ? 1 : 997); \
    }
BIG(celestial, MSG_data_CelestialEvents, "celestial", 326058, 0, 4)
BIG(celestial, MSG_data_CelestialEvents, "celestial", 326058, 1, 4)
BIG(celestial, MSG_data_CelestialEvents, "celestial", 326058, 2, 4)
BIG(celestial, MSG_data_CelestialEvents, "celestial", 326058, 3, 4)
BIG(radquality, MSG_data_RadiometricQuality, "radiometricquality", 371256, 0, 4)
BIG(radquality, MSG_data_RadiometricQuality, "radiometricquality", 371256, 1, 4)
BIG(radquality, MSG_data_RadiometricQuality, "radiometricquality", 371256, 2, 4)
BIG(radquality, MSG_data_RadiometricQuality, "radiometricquality", 371256, 3, 4)

// ------------------------------------------------------------ whole files

string head(unsigned type, const string& data)
{
    return synth::xrit_file(type, synth::rec_annotation(type == 128 ? "H-000-MSG1__-MSG1________-_________-PRO______-200611141200-__"
                                                                    : "H-000-MSG1__-MSG1________-_________-EPI______-200611141200-__") +
                                      synth::rec_timestamp(17849, 43200000), data);
}

bool load(const string& file, MSG_header& h, MSG_data& d)
{
    try
    {
        std::ifstream in(file, std::ios::binary);
        h.read_from(in);
        d.read_from(in, h);
        return true;
    }
    catch (std::exception& e)
    {
        mc::fail("file.read", "reading failed: %s", e.what());
        return false;
    }
}

void check_prologue(MSG_data& d, const string& s, bool impf)
{
    if (!d.prologue) { mc::fail("file.prologue", "no prologue in the data"); return; }
    auto* b = (Bytes)s.data();
    compare(d.prologue->sat_status, "prologue:satellite", b + synth::PRO_SATELLITE);
    compare(d.prologue->image_acquisition, "prologue:acquisition", b + synth::PRO_ACQUISITION);
    compare(d.prologue->celestial_events, "prologue:celestial", b + synth::PRO_CELESTIAL);
    compare(d.prologue->image_description, "prologue:description", b + synth::PRO_DESCRIPTION);
    compare(d.prologue->radiometric_proc, "prologue:radiometricproc", b + synth::PRO_RADIOMETRIC);
    compare(d.prologue->geometric_proc, "prologue:geometricproc", b + synth::PRO_GEOMETRIC);
    if (impf) compare(d.prologue->IMPF_config, "prologue:impf", b + synth::PRO_IMPF);
}

void check_epilogue(MSG_data& d, const string& s)
{
    if (!d.epilogue) { mc::fail("file.epilogue", "no epilogue in the data"); return; }
    auto* b = (Bytes)s.data();
    compare(d.epilogue->product_stats, "epilogue:stats", b + synth::EPI_STATS);
    compare(d.epilogue->navig_result, "epilogue:navigation", b + synth::EPI_NAVIGATION);
    compare(d.epilogue->radiometric_qlty, "epilogue:radiometricquality", b + synth::EPI_RADIOMETRIC);
    compare(d.epilogue->geometric_qlty, "epilogue:geometricquality", b + synth::EPI_GEOMETRIC);
    compare(d.epilogue->timelin_comple, "epilogue:timeliness", b + synth::EPI_TIMELINESS);
}

string file_pattern(size_t size, unsigned b, unsigned q, bool prologue)
{
    const unsigned char pairs[2][2] = {{0x5a, 0xa5}, {0x01, 0x80}};
    string s(size, 0);
    for (size_t i = 0; i < size; ++i) s[i] = (char)pairs[q][(i >> b) & 1];
    if (prologue)
    {
        s.replace(synth::PRO_CELESTIAL + 12, 15, stamp15(b));
        s.replace(synth::PRO_CELESTIAL + 27, 15, stamp15(b + 50));
    }
    return s;
}

MC_GROUP(files)
{
    mc::make_dirs(mc::work);
    string file = mc::work + "/f";
    for (unsigned q = 0; q < 2; ++q)
        for (unsigned b = 0; b < 19; ++b)
        {
            // With and without the IMPF configuration, which not all files have
            for (bool impf: {true, false})
            {
                if (!mc::begin("prologue file, address bit %u pattern %u%s", b, q, impf ? "" : ", without IMPF configuration")) continue;
                string s = file_pattern(impf ? synth::PRO_SIZE : synth::PRO_IMPF, b, q, true);
                mc::write_file(file, head(128, s));
                MSG_header h;
                MSG_data d;
                if (load(file, h, d)) check_prologue(d, s, impf);
                mc::count();
            }
            if (!mc::begin("epilogue file, address bit %u pattern %u", b, q)) continue;
            string s = file_pattern(synth::EPI_SIZE, b, q, false);
            mc::write_file(file, head(129, s));
            MSG_header h;
            MSG_data d;
            if (load(file, h, d)) check_epilogue(d, s);
            mc::count();
        }
    mc::sample("prologue and epilogue files with address patterns");
}

/// Printing any decoded prologue or epilogue works, and prints the same text
/// for the same bytes
MC_GROUP(print)
{
    mc::make_dirs(mc::work);
    string file = mc::work + "/f";
    for (unsigned k = 0; k < 6; ++k)
        for (bool pro: {true, false})
        {
            if (!mc::begin("print a %s with background %u", pro ? "prologue" : "epilogue", k)) continue;
            string s = background(k, pro ? (size_t)synth::PRO_SIZE : (size_t)synth::EPI_SIZE, "");
            if (pro)
            {
                s.replace(synth::PRO_CELESTIAL + 12, 15, stamp15(k));
                s.replace(synth::PRO_CELESTIAL + 27, 15, stamp15(k + 50));
            }
            mc::write_file(file, head(pro ? 128 : 129, s));
            string out[2];
            for (auto& o: out)
            {
                MSG_header h;
                MSG_data d;
                if (!load(file, h, d)) continue;
                std::stringstream ss;
                ss << d;
                o = ss.str();
            }
            if (out[0] != out[1] || out[0].size() < 1000)
                mc::fail("print", "the same file is printed in two ways (%zu and %zu characters)", out[0].size(), out[1].size());
            mc::count();
        }
    // A histogram of every small maximum
    MSG_L10RadQuality* q = new MSG_L10RadQuality;
    MSG_data_RadiometricQuality* r = new MSG_data_RadiometricQuality;
    for (unsigned m = 0; m < 200; ++m)
    {
        if (!mc::begin("print histograms with %u pixels", m)) continue;
        string s(371256, 0);
        for (size_t p: {(size_t)84, (size_t)(84 + 1024), (size_t)(84 + 3072)}) synth::p4(s, p, m);
        r->read_from((Bytes)s.data());
        std::stringstream ss;
        ss << *r;
        mc::count();
    }
    delete q;
    delete r;
}

/// Encryption key messages: all numbers of keys up to 5, address patterns
MC_GROUP(keys)
{
    for (unsigned n = 1; n <= 5; ++n)
        for (unsigned b = 0; b < 11; ++b)
        {
            if (!mc::begin("%u keys, address bit %u", n, b)) continue;
            string s(n * 197, 0);
            for (size_t i = 0; i < s.size(); ++i) s[i] = (i >> b & 1) ? 'B' : 'a';
            vector<unsigned char> v(s.begin(), s.end());
            MSG_data_key k(v.data(), v.size());
            vector<string> got = printed(k), want;
            for (unsigned i = 0; i < n; ++i)
            {
                Bytes p = v.data() + i * 197;
                want.push_back(text(num(p, 2)));
                want.push_back(text(num(p + 2, 1)));
                want.push_back(string((const char*)p + 3, 192));
                want.push_back(text(num(p + 195, 2)));
            }
            for (unsigned i = 0; i < want.size(); ++i)
                if (i >= got.size() || got[i] != want[i])
                {
                    mc::fail(mc::fmt("key.field%u", i % 4), "printed %s instead of %s", i < got.size() ? got[i].c_str() : "nothing", want[i].c_str());
                    break;
                }
            mc::count();
        }
}

}
