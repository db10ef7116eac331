// C11: the tables of identities, against each other and against the published
// codes (HRIT global specification, WMO common code table C-5).
#include "mc.hpp"
#include "enumerate.hpp"
#include <cmath>
#include <map>
#include <msat/facts.h>
#include <msat/hrit/MSG_channel.h>
#include <msat/hrit/MSG_spacecraft.h>
#include <set>
#include <stdexcept>

using std::string;
namespace facts = msat::facts;

namespace {

struct Craft { int hrit, wmo; const char* name; };
/// Spacecraft with both codes
const Craft crafts[] = {
    { 11, 3, "METOP1" }, { 12, 4, "METOP2" }, { 13, 5, "METOP3" }, { 16, 50, "METEOSAT3" }, { 19, 51, "METEOSAT4" }, { 20, 52, "METEOSAT5" },
    { 21, 53, "METEOSAT6" }, { 321, 55, "MSG1" }, { 322, 56, "MSG2" }, { 323, 57, "MSG3" }, { 324, 70, "MSG4" }, { 17012, 204, "NOAA12" },
    { 17014, 205, "NOAA14" }, { 17015, 206, "NOAA15" }, { 18007, 251, "GOES7" }, { 18008, 252, "GOES8" }, { 18009, 253, "GOES9" },
    { 18010, 254, "GOES10" }, { 18011, 255, "GOES11" }, { 18012, 256, "GOES12" }, { 19001, 310, "GOMS1" }, { 19002, 311, "GOMS2" },
    { 20004, 151, "GMS4" }, { 20005, 152, "GMS5" }, { 21001, 58, "MTSAT1" }, { 21002, 59, "MTSAT2" } };
/// Spacecraft with a WMO code only
const Craft wmo_only[] = { { 0, 54, "METEOSAT7" }, { 0, 150, "GMS3" } };
/// Spacecraft with a HRIT code only
const Craft hrit_only[] = { { 150, 0, "MTP1" }, { 151, 0, "MTP2" }, { 17013, 0, "NOAA13" }, { 19003, 0, "GOMS3" }, { 20006, 0, "GMS6" } };

struct Channel { int id; const char* name; const char* unit; double wavelength; const char* descr; };
const char* const RAD = "mW m^-2 sr^-1 (cm^-1)^-1";
const Channel channels[] = {
    { 1, "VIS006", RAD, 0.6, "Visible 0.6" }, { 2, "VIS008", RAD, 0.8, "Visible 0.8" }, { 3, "IR_016", RAD, 1.6, "Infrared 1.6" },
    { 4, "IR_039", "K", 3.9, "Infrared 3.9" }, { 5, "WV_062", "K", 6.2, "Water Vapour 6.2" }, { 6, "WV_073", "K", 7.3, "Water Vapour 7.3" },
    { 7, "IR_087", "K", 8.7, "Infrared 8.7" }, { 8, "IR_097", "K", 9.7, "Infrared 9.7" }, { 9, "IR_108", "K", 10.8, "Infrared 10.8" },
    { 10, "IR_120", "K", 12.0, "Infrared 12.0" }, { 11, "IR_134", "K", 13.4, "Infrared 13.4" }, { 12, "HRV", RAD, 0.7, "HRV" } };

/// Unknown, and different from every known identity
bool unknown_name(const string& s) { return s == "unknown" || s == "Unknown" || s == "Non Spacecraft"; }

const Craft* by_hrit(int id) { for (auto& c : crafts) if (c.hrit == id) return &c; return nullptr; }
const Craft* by_wmo(int id)
{
    for (auto& c : crafts) if (c.wmo == id) return &c;
    for (auto& c : wmo_only) if (c.wmo == id) return &c;
    return nullptr;
}
const Craft* by_name(const string& n)
{
    for (auto& c : crafts) if (n == c.name) return &c;
    for (auto& c : wmo_only) if (n == c.name) return &c;
    return nullptr;
}

void spacecraft_hrit()
{
    for (long id = -1000; id <= (mc::thorough ? 1 << 24 : 1 << 17); ++id)
    {
        if (id % 1024 == 0 || id == -1000) mc::begin("HRIT codes from %ld", id);
        const Craft* c = by_hrit(id);
        mc::count(c);
        int w = facts::spacecraftIDFromHRIT(id);
        if (w != (c ? c->wmo : 1023)) mc::fail("from-hrit", "HRIT code %ld is WMO code %d instead of %d", id, w, c ? c->wmo : 1023);
        if (c && facts::spacecraftIDToHRIT(w) != id) mc::fail("hrit-back", "HRIT code %ld comes back as %d", id, facts::spacecraftIDToHRIT(w));
        string n = MSG_spacecraft_name((t_enum_MSG_spacecraft)id), want;
        if (c) want = c->name;
        for (auto& o : hrit_only) if (o.hrit == id) want = o.name;
        if (want.empty() ? !unknown_name(n) : n != want) mc::fail("hrit-name", "HRIT code %ld is called [%s] instead of [%s]", id, n.c_str(), want.c_str());
    }
}

void spacecraft_wmo()
{
    std::map<string, int> names;
    for (long id = -1000; id <= (mc::thorough ? 1 << 24 : 1 << 17); ++id)
    {
        if (id % 1024 == 0 || id == -1000) mc::begin("WMO codes from %ld", id);
        const Craft* c = by_wmo(id);
        mc::count(c);
        int h = facts::spacecraftIDToHRIT(id);
        if (h != (c ? c->hrit : 0)) mc::fail("to-hrit", "WMO code %ld is HRIT code %d instead of %d", id, h, c ? c->hrit : 0);
        string n = facts::spacecraftName(id);
        if (!c) { if (!unknown_name(n)) mc::fail("wmo-name", "WMO code %ld is called [%s]", id, n.c_str()); continue; }
        if (n != c->name) mc::fail("wmo-name", "WMO code %ld is called [%s] instead of [%s]", id, n.c_str(), c->name);
        if (facts::spacecraftID(n) != id) mc::fail("name-back", "[%s] is WMO code %d instead of %ld", n.c_str(), facts::spacecraftID(n), id);
        if (h && facts::spacecraftIDFromHRIT(h) != id) mc::fail("wmo-back", "WMO code %ld comes back as %d", id, facts::spacecraftIDFromHRIT(h));
        if (names.count(n)) mc::fail("wmo-collision", "%ld and %d are both [%s]", id, names[n], n.c_str());
        names[n] = id;
        string sensor = facts::sensorName(id);
        bool msg = id == 55 || id == 56 || id == 57 || id == 70;
        if (sensor != (msg ? "Seviri" : "unknown")) mc::fail("sensor", "sensor of %s is [%s]", n.c_str(), sensor.c_str());
    }
}

void check_name(const string& n)
{
    const Craft* c = by_name(n);
    mc::count(c);
    int id = facts::spacecraftID(n);
    if (id != (c ? c->wmo : -1)) mc::fail("name", "[%s] is WMO code %d instead of %d", mc::show(n).c_str(), id, c ? c->wmo : -1);
}

/// Every name with all changes of one byte, cuts and extensions, and all short
/// strings
void spacecraft_names()
{
    std::set<string> all;
    for (auto& c : crafts) all.insert(c.name);
    for (auto& c : wmo_only) all.insert(c.name);
    for (auto& c : hrit_only) all.insert(c.name);
    for (auto n : { "unknown", "Unknown", "Non Spacecraft", "MSG", "msg1", "Msg1", "Meteosat8", "MSG-1" }) all.insert(n);
    for (auto& n : all)
    {
        if (!mc::begin("names like %s", n.c_str())) continue;
        for (size_t i = 0; i <= n.size(); ++i)
        {
            check_name(n.substr(0, i));
            check_name(n.substr(i));
            for (int b = 0; b < 256; ++b)
            {
                string m = n;
                m.insert(i, 1, (char)b);
                check_name(m);
                if (i < n.size()) { m = n; m[i] = (char)b; check_name(m); }
            }
        }
    }
    mc::begin("short strings");
    mc::all_strings("MSG1234", mc::thorough ? 7 : 5, [&](const string& s) { check_name(s); });
    mc::all_strings("METOPNA12", mc::thorough ? 7 : 5, [&](const string& s) { check_name(s); });
}

void channel_tables()
{
    for (long sc = -10; sc <= 1100; ++sc)
    {
        if (!mc::begin("channels of spacecraft %ld", sc)) continue;
        bool msg = sc == 55 || sc == 56 || sc == 57 || sc == 70;
        for (int ch = -300; ch <= 300; ++ch)
        {
            const Channel* c = nullptr;
            if (msg && ch >= 1 && ch <= 12) c = &channels[ch - 1];
            mc::count(c);
            string name = facts::channelName(sc, ch), unit = facts::channelUnit(sc, ch), level = facts::channelLevel(sc, ch);
            double wl = -1, wn = -1;
            // Exceptions are slow: fewer of the channels far from known ones
            if (mc::thorough || msg || (ch >= -2 && ch <= 14) || (sc + ch) % 16 == 0)
            {
                try { wl = facts::channel_central_wavelength(sc, ch); } catch (std::exception&) {}
                try { wn = facts::channel_central_wave_number(sc, ch); } catch (std::exception&) {}
            }
            if (!c)
            {
                bool none = msg && ch == 0;
                if (name != (none ? "no-channel" : "unknown")) mc::fail("channel-name", "spacecraft %ld channel %d is called [%s]", sc, ch, name.c_str());
                if (unit != "unknown") mc::fail("channel-unit", "spacecraft %ld channel %d has unit [%s]", sc, ch, unit.c_str());
                if (!none && level != "") mc::fail("channel-level", "spacecraft %ld channel %d has level [%s]", sc, ch, level.c_str());
                if (wl != -1 || wn != -1) mc::fail("channel-wavelength", "spacecraft %ld channel %d has wavelength %g", sc, ch, wl);
                continue;
            }
            if (name != c->name) mc::fail("channel-name", "channel %d is called [%s] instead of [%s]", ch, name.c_str(), c->name);
            if (unit != c->unit) mc::fail("channel-unit", "channel %d has unit [%s] instead of [%s]", ch, unit.c_str(), c->unit);
            if (level != "1.5") mc::fail("channel-level", "channel %d has level [%s]", ch, level.c_str());
            if (std::fabs(wl - c->wavelength) > 1e-9) mc::fail("channel-wavelength", "channel %d has wavelength %g instead of %g", ch, wl, c->wavelength);
            if (std::fabs(wn * wl * 1e-6 - 1) > 1e-9) mc::fail("channel-wave-number", "channel %d has wave number %g for wavelength %g", ch, wn, wl);
            try {
                int back = facts::channel_from_central_wavelength(sc, wl);
                if (back != ch) mc::fail("wavelength-back", "wavelength of channel %d is taken for %d", ch, back);
                // As stored in files: whole wave numbers per metre
                for (double w : { wn, std::round(wn), std::floor(wn), std::ceil(wn) })
                    if ((back = facts::channel_from_central_wave_number(sc, w)) != ch) mc::fail("wave-number-back", "wave number %.3f of channel %d is taken for %d", w, ch, back);
            } catch (std::exception& e) {
                mc::fail("wavelength-back", "wavelength of channel %d is refused: %s", ch, e.what());
            }
        }
    }
}

/// Wavelengths between the channels
void wavelengths()
{
    for (int sc : { 54, 55, 56, 57, 58, 69, 70, 71, 0, -1, 1023 })
    {
        bool msg = sc == 55 || sc == 56 || sc == 57 || sc == 70;
        if (!mc::begin("all wavelengths, spacecraft %d", sc)) continue;
        for (long i = -2000; i <= 200000; i += mc::thorough ? 1 : msg ? 7 : 53)
        {
            double wl = i * 1e-4;
            int got = -1;
            try { got = facts::channel_from_central_wavelength(sc, wl); } catch (std::exception&) {}
            const Channel* best = nullptr;
            for (auto& c : channels) if (!best || std::fabs(c.wavelength - wl) < std::fabs(best->wavelength - wl)) best = &c;
            double d = std::fabs(best->wavelength - wl);
            mc::count(got != -1);
            if (got != -1 && (!msg || got != best->id || d > 0.0501))
                mc::fail("wavelength", "%.4f is taken for channel %d of spacecraft %d", wl, got, sc);
            if (got == -1 && msg && d < 0.0499) mc::fail("wavelength", "%.4f is not recognised as channel %d of %d", wl, best->id, sc);
            if (wl == 0) continue;
            int got2 = -1;
            try { got2 = facts::channel_from_central_wave_number(sc, 1e6 / wl); } catch (std::exception&) {}
            if (got2 != got && std::fabs(d - 0.05) > 1e-6) mc::fail("wave-number", "wave number %.6f is taken for channel %d, its wavelength for %d", 1e6 / wl, got2, got);
        }
    }
}

/// Long descriptions
void descriptions()
{
    for (int sc = 0; sc <= 22000; ++sc)
    {
        if (sc % 500 == 0 && !mc::begin("descriptions, HRIT codes from %d", sc)) continue;
        for (int ch = 0; ch < 256; ch += ch >= 16 && !(sc >= 320 && sc < 325) ? 60 : 1)
        {
            string d = MSG_channel_name((t_enum_MSG_spacecraft)sc, ch);
            bool msg = sc >= 321 && sc <= 324;
            mc::count(msg && ch >= 1 && ch <= 12);
            const Channel* c = msg && ch >= 1 && ch <= 12 ? &channels[ch - 1] : nullptr;
            if (c)
            {
                if (d != string("MSG Seviri 1.5 ") + c->descr + " channel") mc::fail("description", "channel %d is described as [%s]", ch, d.c_str());
            }
            else if (msg && ch && d.find("unknown") == string::npos) mc::fail("description", "channel %d is described as [%s]", ch, d.c_str());
            else if (unknown_name(MSG_spacecraft_name((t_enum_MSG_spacecraft)sc)) && d != "No channel information")
                mc::fail("description", "channel %d of no spacecraft (%d) is described as [%s]", ch, sc, d.c_str());
        }
    }
    // No two channels of a spacecraft are described alike
    for (auto& c : crafts)
    {
        std::map<string, int> seen;
        for (int ch = 0; ch < 256; ++ch)
        {
            string d = MSG_channel_name((t_enum_MSG_spacecraft)c.hrit, ch);
            mc::count();
            if (d.find("unknown") != string::npos || d == "No channel information") continue;
            if (seen.count(d)) mc::fail("description-collision", "%s channels %d and %d are both [%s]", c.name, seen[d], ch, d.c_str());
            seen[d] = ch;
        }
    }
}

void defaults()
{
    for (long ch = -70000; ch <= 70000; ++ch)
    {
        if (ch % 1000 == 0) mc::begin("defaults of channels from %ld", ch);
        bool known = ch >= 0 && ch <= 12;
        mc::count(known);
        double p = facts::defaultPackedMissing(ch), s = facts::defaultScaledMissing(ch);
        int d = facts::significantDigitsForChannel(ch);
        if (std::isnan(p) == known || std::isnan(s) == known) mc::fail("missing", "channel %ld has missing values %g %g", ch, p, s);
        bool solar = (ch >= 1 && ch <= 3) || ch == 12;
        if (d != (!known ? 0 : solar ? 4 : 2)) mc::fail("digits", "channel %ld has %d significant digits", ch, d);
    }
}

const double R = 6378.1370, ORBIT = 42164.0;

/// Column and line factors. Known grids are kept exactly, which moves those
/// within a few parts per million to them.
void check_factor(double f, bool h)
{
    double size = h ? facts::pixelHSizeFromCFAC(f) : facts::pixelVSizeFromLFAC(f);
    double ref = (ORBIT - R) * std::tan(M_PI / 180 / f) * 1000;
    if (std::fabs(size / ref - 1) > 3e-6) mc::fail("factor-size", "factor %.9g gives pixel size %.9g instead of %.9g", f, size, ref);
    double back = h ? facts::CFACFromPixelHSize(size) : facts::LFACFromPixelVSize(size);
    if (std::fabs(back / f - 1) > 3e-6) mc::fail("factor-back", "factor %.9g comes back as %.9g", f, back);
}

void check_size(double size, bool h)
{
    double f = h ? facts::CFACFromPixelHSize(size) : facts::LFACFromPixelVSize(size);
    // Stored as an integer
    double stored = std::round(f * 65536) / 65536;
    double back = h ? facts::pixelHSizeFromCFAC(stored) : facts::pixelVSizeFromLFAC(stored);
    if (std::fabs(back / size - 1) > 3e-6 + 0.5 / std::fabs(f * 65536)) mc::fail("size-factor-back", "pixel size %.9g comes back as %.9g", size, back);
    if (size < 0) return;
    int d = h ? facts::seviriDXFromPixelHSize(size) : facts::seviriDYFromPixelVSize(size);
    back = h ? facts::pixelHSizeFromSeviriDX(d) : facts::pixelVSizeFromSeviriDY(d);
    // 3622 stands for the nominal grid, whose diameter is 3622.3
    if (std::fabs(back / size - 1) > 5e-6 + (d == 3622 ? 0.81 : 0.5001) / d)
        mc::fail(d == 3608 ? "size-3608" : "size-dx-back", "pixel size %.9g is %d Earth diameters in pixels and comes back as %.9g", size, d, back);
}

void factors(bool h)
{
    if (!mc::begin("known sizes")) return;
    struct { double size; int factor; int d; } known[] = { { 3000.40307617188, 13642337, 3622 }, { 1000.13433837891, 40927000, 10867 } };
    for (auto& k : known)
        for (int sign : { 1, -1 })
        {
            double f = h ? facts::CFACFromPixelHSize(sign * k.size) : facts::LFACFromPixelVSize(sign * k.size);
            double s = h ? facts::pixelHSizeFromCFAC(sign * k.factor / 65536.0) : facts::pixelVSizeFromLFAC(sign * k.factor / 65536.0);
            mc::count();
            if (std::lrint(f * 65536) != sign * k.factor) mc::fail("known-factor", "size %.9g has factor %ld", sign * k.size, std::lrint(f * 65536));
            if (std::fabs(s - sign * k.size) > 1e-6) mc::fail("known-size", "factor %d has size %.9g", sign * k.factor, s);
            if (sign < 0) continue;
            int d = h ? facts::seviriDXFromPixelHSize(k.size) : facts::seviriDYFromPixelVSize(k.size);
            if (d != k.d) mc::fail("known-dx", "size %.9g has diameter %d instead of %d", k.size, d, k.d);
        }
    // Around the known factors and all over the range
    for (int c : { 13642337, 40927000 })
        for (int i = -3000; i <= 3000; ++i)
            for (int sign : { 1, -1 })
            {
                if (i % 500 == 0) mc::begin("factor %d", sign * (c + i));
                check_factor(sign * (c + i) / 65536.0, h);
                mc::count();
            }
    for (long f = 1000000; f < 90000000; f += mc::thorough ? 13 : 997)
    {
        if (f % 10 == 0) mc::begin("factor %ld", f);
        check_factor(f / 65536.0, h);
        check_factor(-f / 65536.0, h);
        mc::count();
    }
    for (long s = 100000; s < 40000000; s += mc::thorough ? 1 : 37)
    {
        if (s % 100 == 0) mc::begin("size %.3f", s / 1000.0);
        check_size(s / 1000.0, h);
        check_size(-s / 1000.0, h);
        mc::count();
    }
    for (double s : { 3000.40307617188, 1000.13433837891 })
        for (int scale = 1; scale <= 64; ++scale)
            for (int div = 1; div <= 16; ++div)
            {
                if (div == 1) mc::begin("size %.3f times %d/%d", s, scale, div);
                check_size(s * scale / div, h);
                mc::count();
            }
    // Diameters
    for (int d = 1; d <= 60000; ++d)
    {
        if (d % 1000 == 1) mc::begin("diameters from %d", d);
        double r = h ? facts::columnResFromSeviriDX(d) : facts::lineResFromSeviriDY(d), c = h ? facts::CFACFromSeviriDX(d) : facts::LFACFromSeviriDY(d);
        int b1 = h ? facts::seviriDXFromColumnRes(r) : facts::seviriDYFromLineRes(r), b2 = h ? facts::seviriDXFromCFAC(c) : facts::seviriDYFromLFAC(c);
        mc::count();
        if (b1 != d || b2 != d) mc::fail("diameter-back", "diameter %d comes back as %d and %d", d, b1, b2);
        double want = d * M_PI / (360 * std::asin(R / ORBIT));
        if (std::fabs(r / want - 1) > 1e-6 || std::fabs(c / want - 1) > 1e-6) mc::fail("diameter", "diameter %d is factor %.9g and %.9g instead of %.9g", d, r, c, want);
        double p = h ? facts::pixelHSizeFromSeviriDX(d) : facts::pixelVSizeFromSeviriDY(d);
        int b = h ? facts::seviriDXFromPixelHSize(p) : facts::seviriDYFromPixelVSize(p);
        if (b != d) mc::fail(d == 3608 ? "size-3608" : "diameter-size-back", "diameter %d comes back as %d from pixel size %.9g", d, b, p);
    }
}

}

MC_GROUP(spacecraft_hrit) { spacecraft_hrit(); }
MC_GROUP(spacecraft_wmo) { spacecraft_wmo(); }
MC_GROUP(spacecraft_names) { spacecraft_names(); }
MC_GROUP(channel_tables) { channel_tables(); }
MC_GROUP(wavelengths) { wavelengths(); }
MC_GROUP(descriptions) { descriptions(); }
MC_GROUP(defaults) { defaults(); }
MC_GROUP(columns) { factors(true); }
MC_GROUP(lines) { factors(false); }
