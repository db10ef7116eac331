// C20: HRI frames decode to the header values and image lines they carry
//
// Complete enumeration of the values of each field of the headers, of all
// formats and lines of an image, of every frame at which a file can be cut or
// lose its synchronisation, and of reading histories of an object, against an
// encoder of the frames written here from their layout.
#include "mc.hpp"
#include "enumerate.hpp"
#include <msat/hri/HRI.h>
#include <cfloat>
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <fcntl.h>
#include <memory>
#include <sstream>
#include <stdexcept>

using std::string;
using std::vector;

namespace {

struct Quiet
{
    // The reader reports on cerr and cout
    std::ostringstream sink;
    std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

/// A buffer of exactly the given size, so that reading out of it is seen
struct Exact
{
    char* p;
    Exact(const string& s) : p(new char[s.size()]) { memcpy(p, s.data(), s.size()); }
    ~Exact() { delete[] p; }
    const unsigned char* u() const { return (const unsigned char*)p; }
};

string be2(unsigned v) { string s; s += (char)(v >> 8); s += (char)v; return s; }
string be4(uint32_t v) { return be2(v >> 16) + be2(v & 0xffff); }
string be8(uint64_t v) { return be4(v >> 32) + be4((uint32_t)v); }

/// Value of an IBM floating point number of n bytes
long double ibm(const unsigned char* b, unsigned n)
{
    uint64_t f = 0;
    for (unsigned i = 1; i < n; ++i) f = f << 8 | b[i];
    long double v = ldexpl((long double)f, 4 * ((b[0] & 0x7f) - 64) - 8 * (int)(n - 1));
    return b[0] & 0x80 ? -v : v;
}

bool same_float(float got, long double want)
{
    if (std::isnan(got)) return false;
    if (fabsl(want) >= FLT_MAX) return fabsl(got) >= FLT_MAX && (got < 0) == (want < 0);
    if (fabsl(want) < FLT_MIN) return fabsl((long double)got) <= FLT_MIN;
    return fabsl(got - want) <= fabsl(want) * FLT_EPSILON;
}

bool same_double(double got, long double want)
{
    if (std::isnan(got)) return false;
    return fabsl(got - want) <= fabsl(want) * DBL_EPSILON;
}

bool near(double a, double b, double tol = 1e-5)
{
    return fabs(a - b) <= tol * std::max(1.0, fabs(b));
}

void check_r4(HRI_machine& m, uint32_t w, unsigned char* buf)
{
    for (int i = 0; i < 4; ++i) buf[i] = w >> (24 - 8 * i);
    float got = m.r4_from_buff(buf);
    long double want = ibm(buf, 4);
    if (!same_float(got, want))
        mc::fail("r4", "the 4 bytes %08x are %.9g and not %.9Lg", w, got, want);
}

const uint64_t low6[] = {
    0, 1, 0x80, 0xff, 0x100, 0x8000, 0xffff, 0x10000, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull,
    0x123456789abcull, 0x7fffffffffffull, 0x800000000000ull, 0xfffffffffff7ull, 0xfffffffffff8ull, 0xffffffffffffull,
};

void r4_part(unsigned part)
{
    HRI_machine m;
    std::unique_ptr<unsigned char[]> buf(new unsigned char[4]);
    static const unsigned lo[] = { 0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff };
    for (unsigned h = part * 16384; h < (part + 1) * 16384; ++h)
    {
        if (h % 256 == 0) if (!mc::begin("r4 %04x..", h)) { h += 255; continue; }
        if (mc::thorough)
            for (unsigned l = 0; l < 65536; ++l) check_r4(m, h << 16 | l, buf.get());
        else
        {
            for (unsigned l : lo) check_r4(m, h << 16 | l, buf.get());
            for (unsigned b = 0; b < 16; ++b) check_r4(m, h << 16 | 1u << b, buf.get());
        }
        mc::sh->evaluations += mc::thorough ? 65536 : 24;
        mc::sh->nontrivial += mc::thorough ? 65536 : 24;
    }
}

}

MC_GROUP(r4_0) { r4_part(0); }
MC_GROUP(r4_1) { r4_part(1); }
MC_GROUP(r4_2) { r4_part(2); }
MC_GROUP(r4_3) { r4_part(3); }

MC_GROUP(r8)
{
    HRI_machine m;
    std::unique_ptr<unsigned char[]> buf(new unsigned char[8]);
    for (unsigned h = 0; h < 65536; ++h)
    {
        if (h % 256 == 0) if (!mc::begin("r8 %04x..", h)) { h += 255; continue; }
        auto one = [&](uint64_t l) {
            uint64_t w = (uint64_t)h << 48 | l;
            for (int i = 0; i < 8; ++i) buf[i] = w >> (56 - 8 * i);
            double got = m.r8_from_buff(buf.get());
            long double want = ibm(buf.get(), 8);
            if (!same_double(got, want))
                mc::fail("r8", "the 8 bytes %016llx are %.17g and not %.17Lg", (unsigned long long)w, got, want);
            mc::count();
        };
        for (uint64_t l : low6) one(l);
        if (mc::thorough || h % 257 == 0 || (h & 0xff) == 0)
            for (unsigned b = 0; b < 48; ++b) { one(1ull << b); one(~(~0ull << b)); }
    }
    mc::sample("r8: IBM 8 byte numbers of all signs, exponents and first fraction bytes");
}

MC_GROUP(integers)
{
    HRI_machine m;
    std::unique_ptr<unsigned char[]> b2(new unsigned char[2]), b4(new unsigned char[4]);
    if (mc::begin("i2"))
        for (unsigned v = 0; v < 65536; ++v)
        {
            b2[0] = v >> 8; b2[1] = v;
            if (m.i2_from_buff(b2.get()) != (int16_t)v) mc::fail("i2", "bytes of %04x read as %d", v, m.i2_from_buff(b2.get()));
            mc::count();
        }
    static const unsigned edge[] = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff };
    if (mc::begin("i4"))
        for (unsigned v = 0; v < 65536; ++v)
            for (unsigned e : edge)
                for (int side = 0; side < 2; ++side)
                {
                    uint32_t w = side ? v << 16 | e : e << 16 | v;
                    for (int i = 0; i < 4; ++i) b4[i] = w >> (24 - 8 * i);
                    if (m.i4_from_buff(b4.get()) != (int32_t)w) mc::fail("i4", "bytes of %08x read as %d", w, m.i4_from_buff(b4.get()));
                    mc::count();
                }
}

namespace {

struct CharFmt
{
    const char* name;
    unsigned len;
    int first; // power of ten of the first digit
    double (*get)(HRI_machine&, const char*);
};

const CharFmt charfmts[] = {
    { "r4_from_char6", 6, 2, [](HRI_machine& m, const char* p) -> double { return m.r4_from_char6(p); } },
    { "r4_from_char3", 3, 0, [](HRI_machine& m, const char* p) -> double { return m.r4_from_char3(p); } },
    { "r4f_from_char3", 3, 1, [](HRI_machine& m, const char* p) -> double { return m.r4f_from_char3(p); } },
    { "r4_from_char5", 5, 2, [](HRI_machine& m, const char* p) -> double { return m.r4_from_char5(p); } },
    { "i2_from_char3", 3, 2, [](HRI_machine& m, const char* p) -> double { return m.i2_from_char3(p); } },
    { "i2_from_char2", 2, 1, [](HRI_machine& m, const char* p) -> double { return m.i2_from_char2(p); } },
    { "r4f_from_char5", 5, -1, [](HRI_machine& m, const char* p) -> double { return m.r4f_from_char5(p); } },
};

double chars_value(const string& s, int first)
{
    double n = 0;
    for (unsigned i = 0; i < s.size(); ++i) n = n * 10 + (s[i] == ' ' ? 0 : s[i] - '0');
    return n * pow(10, first + 1 - (int)s.size());
}

}

MC_GROUP(characters)
{
    HRI_machine m;
    for (auto& f : charfmts)
    {
        if (!mc::begin("%s", f.name)) continue;
        std::unique_ptr<char[]> b(new char[f.len]);
        mc::all_sequences(f.len, 11, [&](const vector<unsigned>& v) {
            string s;
            for (unsigned i = 0; i < f.len; ++i) s += v[i] == 10 ? ' ' : '0' + v[i];
            memcpy(b.get(), s.data(), f.len);
            double got = f.get(m, b.get()), want = chars_value(s, f.first);
            // Whole numbers are exact, the others as a sum of floats
            if (fabs(got - want) > 4e-7 * pow(10, f.first + 1)) mc::fail(f.name, "'%s' read as %.9g and not %.9g", s.c_str(), got, want);
            mc::count();
        });
    }
}

// ---------------------------------------------------------------- label

namespace {

struct Label
{
    unsigned frames = 8, total = 2500, current = 1, line = 1;
    uint32_t number = 77;
    unsigned char ind[12] = {}; // format, VIS-S, VIS-N, IR, WV, grid, encryption, scan, keys
    string encode() const
    {
        return be2(frames) + be2(total) + be2(current) + be2(line) + be4(number) + string((const char*)ind, 12);
    }
};

string code_of(const Label& l)
{
    string s;
    switch (l.ind[0])
    {
        case 0: s = "A"; break;
        case 255: s = "B"; break;
        case 15: s = "X"; break;
        default: return "?";
    }
    if (l.ind[3]) s += "I";
    bool v = l.ind[1] || l.ind[2];
    if (v) s += "V";
    if (l.ind[4]) s += "W";
    else if (v && (l.ind[1] == 255 || l.ind[2] == 255)) s += "H";
    return s;
}

string read_code(HRI_subframe_label& l)
{
    Quiet q;
    try { return l.format_code(); }
    catch (std::exception&) { return "?"; }
}

void check_label(const Label& l)
{
    Exact e(l.encode());
    HRI_subframe_label r;
    r.readfrom(e.p);
    auto is = [&](const char* what, unsigned got, unsigned want) {
        if (got != want) mc::fail("label " + string(what), "%s is %u and not %u in %s", what, got, want, mc::show(l.encode()).c_str());
    };
    is("frames", r.number_of_frames_in_subframe, l.frames);
    is("subframes", r.total_number_of_subframes, l.total);
    is("current", r.current_subframe_number, l.current);
    is("line", r.image_line_number, l.line);
    is("number", r.image_number_from_mission_start, l.number);
    const unsigned char *i = l.ind;
    is("format", r.format_indicator, i[0]);
    is("VISs", r.VISs_indicator, i[1]);
    is("VISn", r.VISn_indicator, i[2]);
    is("IR", r.IR_indicator, i[3]);
    is("WV", r.WV_indicator, i[4]);
    is("grid", r.grid_indicator, i[5]);
    is("encryption", r.encryption_indicator, i[6]);
    is("scan", r.scan_direction_indicator, i[7]);
    is("key VISs", r.key_number_VIS_s_indicator, i[8]);
    is("key VISn", r.key_number_VIS_n_indicator, i[9]);
    is("key IR", r.key_number_IR_indicator, i[10]);
    is("key WV", r.key_number_WV_indicator, i[11]);
    is("A", r.is_A_format(), i[0] == 0);
    is("B", r.is_B_format(), i[0] == 255);
    is("X", r.is_X_format(), i[0] == 15);
    is("has VISs", r.is_VISs_present(), i[1] != 0);
    is("has VISn", r.is_VISn_present(), i[2] != 0);
    is("has IR", r.is_IR_present(), i[3] != 0);
    is("has WV", r.is_WV_present(), i[4] != 0);
    is("VISs 1", r.is_VISs_1st_half_present(), i[1] == 240);
    is("VISs 2", r.is_VISs_2nd_half_present(), i[1] == 15);
    is("VISn 1", r.is_VISn_1st_half_present(), i[2] == 240);
    is("VISn 2", r.is_VISn_2nd_half_present(), i[2] == 15);
    is("VISs reduced", r.is_VISs_reduced(), i[1] == 255);
    is("VISn reduced", r.is_VISn_reduced(), i[2] == 255);
    is("has grid", r.is_grid_present(), i[5] != 0);
    is("crypt VISs", r.is_VISs_encrypted(), (i[6] >> 3) & 1);
    is("crypt VISn", r.is_VISn_encrypted(), (i[6] >> 2) & 1);
    is("crypt IR", r.is_IR_encrypted(), (i[6] >> 1) & 1);
    is("crypt WV", r.is_WV_encrypted(), i[6] & 1);
    is("SN_EW", r.is_scan_SN_EW(), i[7] == 0);
    is("NS_EW", r.is_scan_NS_EW(), i[7] == 240);
    is("SN_WE", r.is_scan_SN_WE(), i[7] == 15);
    is("NS_WE", r.is_scan_NS_WE(), i[7] == 255);
    string got = read_code(r), want = code_of(l);
    if (got != want) mc::fail("format code", "format code %s and not %s for %s", got.c_str(), want.c_str(), mc::show(l.encode()).c_str());
    std::ostringstream o;
    o << r;
    auto has = [&](const string& t) {
        if (o.str().find(t) == string::npos) mc::fail("label print", "no '%s' in the printed label of %s", t.c_str(), mc::show(l.encode()).c_str());
    };
    if (l.number > 1000) has(mc::fmt("%u", l.number));
    for (int k = 0; k < 4; ++k)
        if (i[1 + k] && ((i[6] >> (3 - k)) & 1)) has(mc::fmt(":%u\n", i[8 + k]));
}

}

MC_GROUP(label)
{
    // Each number, each indicator, all values
    for (unsigned f = 0; f < 4; ++f)
        for (unsigned v = 0; v < 65536; v += mc::thorough ? 1 : 257)
        {
            if (!mc::begin("label number %u = %u", f, v)) continue;
            Label l;
            (f == 0 ? l.frames : f == 1 ? l.total : f == 2 ? l.current : l.line) = v;
            check_label(l);
            mc::count();
        }
    for (unsigned b = 0; b < 32; ++b)
    {
        if (!mc::begin("label image number bit %u", b)) continue;
        Label l;
        l.number = 1u << b;
        check_label(l);
        mc::count();
    }
    for (unsigned f = 0; f < 12; ++f)
        for (unsigned v = 0; v < 256; ++v)
            for (int bg = 0; bg < 3; ++bg)
            {
                if (!mc::begin("label indicator %u = %u on %d", f, v, bg)) continue;
                Label l;
                for (unsigned k = 0; k < 12; ++k) l.ind[k] = bg == 0 ? 0 : bg == 1 ? 255 : (unsigned char[]){ 15, 240, 15, 1, 2, 3, 15, 240, 4, 5, 6, 7 }[k];
                l.ind[f] = v;
                check_label(l);
                mc::count();
            }
    // Format codes: all combinations of the classes of the indicators
    static const unsigned char fm[] = { 0, 255, 15, 1 }, vis[] = { 0, 1, 15, 240, 255 }, on[] = { 0, 1, 255 };
    for (unsigned char f : fm) for (unsigned char s : vis) for (unsigned char n : vis) for (unsigned char i : on) for (unsigned char w : on)
    {
        if (!mc::begin("label format %u VIS %u %u IR %u WV %u", f, s, n, i, w)) continue;
        Label l;
        l.ind[0] = f; l.ind[1] = s; l.ind[2] = n; l.ind[3] = i; l.ind[4] = w;
        check_label(l);
        mc::count();
    }
}

// --------------------------------------------------------- identification

namespace {

struct Ident
{
    unsigned sat0 = 212, sat1 = 247;
    unsigned year = 2001, jday = 200, time = 1130;
    unsigned coloff = 11, linoff = 12;
    int longitude = 0;
    string encode() const
    {
        string s;
        s += (char)sat0; s += (char)sat1;
        s += be2(year) + be2(jday) + be2(time) + string(12, '\x5a') + be2(coloff) + be2(linoff) + be2(longitude & 0xffff);
        return s + string(48 - s.size(), 0);
    }
    string satname() const
    {
        static const char* x[] = { "GOES-E", "GOES-W", "GMS", "GOMS" };
        if (sat0 == 212) return sat1 > 240 ? mc::fmt("METEOSAT-%u", sat1 - 240) : "METEOSAT";
        if (sat0 == 0 && sat1 < 4) return x[sat1];
        return "?";
    }
};

bool leap(unsigned y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
const unsigned mdays[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };

void check_ident(const Ident& d)
{
    Exact e(d.encode());
    HRI_subframe_identification r;
    string want = d.satname();
    try
    {
        Quiet q;
        r.readfrom(e.p);
    }
    catch (std::exception&)
    {
        if (want != "?") mc::fail("satellite", "satellite %u %u refused", d.sat0, d.sat1);
        return;
    }
    if (want != r.satellite)
    {
        mc::fail("satellite", "satellite %u %u is '%s' and not '%s'", d.sat0, d.sat1, r.satellite.c_str(), want.c_str());
        return;
    }
    int wid = d.sat0 == 212 ? (d.sat1 > 240 ? (int)d.sat1 - 240 : 1) : -1;
    if (r.meteosat_id != wid) mc::fail("satellite id", "satellite %u %u has id %d and not %d", d.sat0, d.sat1, r.meteosat_id, wid);
    if (r.is_Meteosat() != (d.sat0 == 212) || r.is_GOES_E() != (want == "GOES-E") || r.is_GOES_W() != (want == "GOES-W")
            || r.is_GMS() != (want == "GMS") || r.is_GOMS() != (want == "GOMS"))
        mc::fail("satellite kind", "wrong kind of satellite for %s", want.c_str());
    if (r.column_offset != d.coloff || r.line_offset != d.linoff)
        mc::fail("offset", "offsets %u %u read as %u %u", d.coloff, d.linoff, r.column_offset, r.line_offset);
    if (r.longitude != d.longitude) mc::fail("longitude", "longitude %d read as %g", d.longitude, r.longitude);
    if (d.jday < 1 || d.jday > (leap(d.year) ? 366u : 365u)) return;
    if (d.time % 100 > 59 || d.time > 2359) return;
    unsigned month = 0, day = d.jday;
    while (day > mdays[month] + (month == 1 && leap(d.year))) { day -= mdays[month] + (month == 1 && leap(d.year)); ++month; }
    // Day of the week, from 1 January 1900, a Monday
    unsigned days = d.jday - 1;
    for (unsigned y = 1900; y < d.year; ++y) days += 365 + leap(y);
    unsigned wday = (days + 1) % 7;
    string what = mc::fmt("%u day %u time %04u (TZ %s)", d.year, d.jday, d.time, getenv("TZ"));
    if (r.year != (int)d.year || r.month != (int)month + 1 || r.day != (int)day || r.hour != (int)d.time / 100 || r.minute != (int)d.time % 100)
        mc::fail("date", "%s is %04d-%02d-%02d %02d:%02d", what.c_str(), r.year, r.month, r.day, r.hour, r.minute);
    if (r.tmtime.tm_year != (int)d.year - 1900 || r.tmtime.tm_mon != (int)month || r.tmtime.tm_mday != (int)day
            || r.tmtime.tm_hour != (int)d.time / 100 || r.tmtime.tm_min != (int)d.time % 100 || r.tmtime.tm_sec != 0
            || r.tmtime.tm_wday != (int)wday || r.tmtime.tm_yday != (int)d.jday - 1)
        mc::fail("date", "%s has the wrong broken down time (day of the week %d for %u)", what.c_str(), r.tmtime.tm_wday, wday);
    static const char *wn[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" },
                 *mn[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
    string text = mc::fmt("%s %s %2u %02u:%02u:00 %u\n", wn[wday], mn[month], day, d.time / 100, d.time % 100, d.year);
    if (r.datetime != text) mc::fail("date text", "%s is written %s", what.c_str(), r.datetime.c_str());
}

void with_tz(const char* tz)
{
    setenv("TZ", tz, 1);
    tzset();
}

}

MC_GROUP(satellites)
{
    for (unsigned a = 0; a < 256; ++a)
    {
        if (!mc::begin("satellite indicator %u *", a)) continue;
        // All second bytes for the known families
        for (unsigned b = 0; b < 256; ++b)
        {
            if (!(a == 0 || a == 212 || b == 0 || b == 2 || b == 241 || b == 247)) continue;
            Ident d;
            d.sat0 = a; d.sat1 = b;
            check_ident(d);
            mc::count(d.satname() != "?");
        }
    }
    if (mc::begin("offsets and longitudes"))
        for (unsigned v = 0; v < 65536; ++v)
        {
            Ident d;
            d.coloff = v; d.linoff = 65535 - v; d.longitude = (int)v - 32768;
            check_ident(d);
            mc::count();
        }
}

MC_GROUP(dates)
{
    static const char* tz[] = { "UTC", "NZST-12NZDT,M9.5.0,M4.1.0/3", "LINT-14", "BIT12", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3" };
    for (auto t : tz)
    {
        with_tz(t);
        for (unsigned y = 1977; y <= 2037; ++y)
        {
            if (!mc::begin("all days of %u in %s", y, t)) continue;
            for (unsigned j = 1; j <= (leap(y) ? 366u : 365u); ++j)
            {
                static const unsigned times[] = { 0, 1130, 2359 };
                for (unsigned m : times)
                {
                    Ident d;
                    d.year = y; d.jday = j; d.time = m;
                    check_ident(d);
                    mc::count();
                }
            }
        }
        for (unsigned h = 0; h < 24; ++h)
        {
            if (!mc::begin("all minutes of hour %u in %s", h, t)) continue;
            for (unsigned m = 0; m < 60; ++m)
            {
                Ident d;
                d.time = h * 100 + m;
                check_ident(d);
                mc::count();
            }
        }
        // Values that are no date: no crash
        static const unsigned odd[] = { 0, 1, 366, 367, 999, 2400, 9999, 32767, 32768, 65535 };
        for (unsigned y : odd) for (unsigned j : odd) for (unsigned m : odd)
        {
            if (!mc::begin("no date %u %u %u in %s", y, j, m, t)) continue;
            Ident d;
            d.year = y; d.jday = j; d.time = m;
            Exact e(d.encode());
            HRI_subframe_identification r;
            Quiet q;
            try { r.readfrom(e.p); } catch (std::exception&) {}
            mc::count(false);
        }
    }
    with_tz("UTC");
}

// --------------------------------------------------------- interpretation

namespace {

enum Type { C6, C3, C3F, C5, C5F, N3, N2, R8, R4, I4, I2, FLAG };

struct IField
{
    const char* name;
    unsigned off;
    Type type;
    double (*get)(const HRI_subframe_interpretation&);
};
typedef HRI_subframe_interpretation Interp;
#define F(part, n, off, type) { #n, off, type, [](const Interp& i) -> double { return i.part.n; } }
// In the order in which they are printed
const IField ifields[] = {
    F(cal, bbc1ir, 0, C6), F(cal, bbsd1i, 6, C3), F(cal, bbc1wv, 9, C6), F(cal, bbsd1w, 15, C3),
    F(cal, bb1t, 18, C5), F(cal, bb2t, 23, C5), F(cal, bbc2ir, 28, C6), F(cal, bbsd2i, 34, C3),
    F(cal, bbc2wv, 37, C6), F(cal, bbsd2w, 43, C3), F(cal, time1_day, 46, N3), F(cal, time1_slot, 49, N2),
    F(cal, calir, 51, C5F), F(cal, irspc, 56, C3F), F(cal, time2_day, 59, N3), F(cal, time2_slot, 62, N2),
    F(cal, calwv, 64, C5F), F(cal, wvspc, 69, C3F), F(cal, time3_day, 72, N3), F(cal, time3_slot, 75, N2),
    F(cal, ir_gain, 92, N2), F(cal, wv_gain, 94, N2), F(cal, v1_gain, 96, N2), F(cal, v2_gain, 98, N2),
    F(oper, degsra, 104, R8), F(oper, degsde, 112, R8), F(oper, degnra, 120, R8), F(oper, degnde, 128, R8),
    F(oper, finatt_x, 136, R8), F(oper, finatt_y, 144, R8), F(oper, finatt_z, 152, R8),
    F(oper, farade_1, 160, R8), F(oper, farade_2, 168, R8), F(oper, nrslot, 176, I4), F(oper, spndur, 180, R4),
    F(oper, flecl, 184, FLAG), F(oper, fldec, 185, FLAG), F(oper, flman, 186, FLAG), F(oper, flmode, 187, FLAG),
    F(oper, flir1, 188, FLAG), F(oper, flir2, 189, FLAG), F(oper, flwv1, 190, FLAG), F(oper, flwv2, 191, FLAG),
    F(oper, flvis1, 192, FLAG), F(oper, flvis2, 193, FLAG), F(oper, flvis3, 194, FLAG), F(oper, flvis4, 195, FLAG),
    F(imag, imstat_1, 232, FLAG), F(imag, imstat_2, 233, FLAG), F(imag, imstat_3, 234, FLAG), F(imag, imstat_4, 235, FLAG),
    F(imag, imstat_5, 236, FLAG), F(imag, imstat_6, 237, FLAG), F(imag, imstat_7, 238, FLAG), F(imag, imstat_8, 239, FLAG),
    F(imag, imstat_9, 240, FLAG), F(imag, imstat_10, 241, FLAG), F(imag, imstat_11, 242, FLAG),
    F(imag, limhor_1, 248, I2), F(imag, limhor_2, 250, I2), F(imag, limhor_3, 252, I2), F(imag, limhor_4, 254, I2),
    F(imag, limhor_5, 256, I2), F(imag, limhor_6, 258, I2), F(imag, limhor_7, 260, I2), F(imag, limhor_8, 262, I2),
    F(imag, limhor_9, 264, I2), F(imag, limhor_10, 266, I2), F(imag, limhor_11, 268, I2), F(imag, limhor_12, 270, I2),
    F(imag, satdis, 272, R8), F(imag, sorbof_x, 280, R8), F(imag, sorbof_y, 288, R8), F(imag, sorbof_z, 296, R8),
    F(imag, norbof_x, 304, R8), F(imag, norbof_y, 312, R8), F(imag, norbof_z, 320, R8),
    F(imag, xddifm, 328, R4), F(imag, yddifm, 332, R4), F(imag, xscm, 336, R4), F(imag, yscm, 340, R4),
    F(imag, conds_1, 344, FLAG), F(imag, conds_2, 345, FLAG), F(imag, conds_3, 346, FLAG), F(imag, conds_4, 347, FLAG),
    F(imag, lowdyn_ir, 348, I2), F(imag, lowdyn_wv, 354, I2), F(imag, lowdyn_v1, 350, I2), F(imag, lowdyn_v2, 352, I2),
    F(imag, higdyn_ir, 356, I2), F(imag, higdyn_wv, 362, I2), F(imag, higdyn_v1, 358, I2), F(imag, higdyn_v2, 360, I2),
    F(imag, mvis1, 364, R4), F(imag, mvis2, 368, R4),
    F(imag, snnom_ir, 372, R4), F(imag, snnom_wv, 384, R4), F(imag, snnom_v1, 376, R4), F(imag, snnom_v2, 380, R4),
    F(imag, snnlin, 388, I4),
    F(imag, snrep_ir, 392, R4), F(imag, snrep_wv, 404, R4), F(imag, snrep_v1, 396, R4), F(imag, snrep_v2, 400, R4),
    F(imag, snrwp_ir, 408, R4), F(imag, snrwp_wv, 420, R4), F(imag, snrwp_v1, 412, R4), F(imag, snrwp_v2, 416, R4),
    F(imag, swmnep_ir, 424, R4), F(imag, swmnep_wv, 436, R4), F(imag, swmnep_v1, 428, R4), F(imag, swmnep_v2, 432, R4),
    F(imag, swmnwp_ir, 440, R4), F(imag, swmnwp_wv, 452, R4), F(imag, swmnwp_v1, 444, R4), F(imag, swmnwp_v2, 448, R4),
    F(imag, snmxep_ir, 456, I2), F(imag, snmxep_wv, 462, I2), F(imag, snmxep_v1, 458, I2), F(imag, snmxep_v2, 460, I2),
    F(imag, snmxwp_ir, 464, I2), F(imag, snmxwp_wv, 470, I2), F(imag, snmxwp_v1, 466, I2), F(imag, snmxwp_v2, 468, I2),
};
#undef F
const unsigned NI = sizeof(ifields) / sizeof(ifields[0]);

/// The bytes of the k-th value of a type, and its value
string ivalue(Type t, unsigned k, double& v)
{
    auto digits = [&](unsigned len, int first) {
        static const unsigned n[] = { 0, 123456, 987654, 100000, 1, 999999 };
        string s = mc::fmt("%06u", n[k % 6]).substr(k % 6 == 4 ? 6 - len : 0, len);
        if (k % 6 == 4) for (unsigned i = 0; i + 1 < len; ++i) s[i] = ' ';
        v = chars_value(s, first);
        return s;
    };
    static const int ints[] = { 0, 4711, -3, 32767, -32768, 1 };
    static const int longs[] = { 0, 70123456, -3, 0x7fffffff, -0x7fffffff - 1, 1 };
    // 0, 1, -0.1, 42164, tiny negative, 16
    static const uint64_t r[] = { 0, 0x4110000000000000ull, 0xc019999999999999ull, 0x44a4b40123456789ull, 0xb412345678abcdefull, 0x4210000000000000ull };
    switch (t)
    {
        case C6: return digits(6, 2);
        case C3: return digits(3, 0);
        case C3F: return digits(3, 1);
        case C5: return digits(5, 2);
        case C5F: return digits(5, -1);
        case N3: return digits(3, 2);
        case N2: return digits(2, 1);
        case R8: { string s = be8(r[k % 6]); v = ibm((const unsigned char*)s.data(), 8); return s; }
        case R4: { string s = be8(r[k % 6]).substr(0, 4); v = ibm((const unsigned char*)s.data(), 4); return s; }
        case I4: v = longs[k % 6]; return be4(longs[k % 6]);
        case I2: v = ints[k % 6]; return be2(ints[k % 6] & 0xffff);
        case FLAG: v = k % 6 == 0 ? 0 : 1; return string(1, (char)(k % 6 == 0 ? 0 : k % 6 == 1 ? 255 : 1 << (k % 6)));
    }
    return "";
}

string blank_interp()
{
    string s(1360, 0);
    for (unsigned i = 0; i < 104; ++i) s[i] = '0';
    return s;
}

bool same_field(Type t, double got, double want)
{
    if (t == R4) return same_float(got, want);
    if (t == R8) return same_double(got, want);
    return near(got, want, 2e-6);
}

vector<string> lines_of(const Interp& i)
{
    std::ostringstream o;
    o << const_cast<Interp&>(i);
    vector<string> l;
    string s;
    std::istringstream in(o.str());
    while (std::getline(in, s)) l.push_back(s);
    return l;
}

}

MC_GROUP(interpretation)
{
    // Each field with each of its values, over backgrounds where every field
    // has the same or a different number
    for (unsigned bg = 0; bg < 7; ++bg)
    {
        string base = blank_interp();
        vector<double> want(NI, 0);
        for (unsigned f = 0; f < NI; ++f)
        {
            string b = ivalue(ifields[f].type, bg == 6 ? f : bg, want[f]);
            base.replace(ifields[f].off, b.size(), b);
        }
        for (unsigned f = 0; f < NI; ++f)
            for (unsigned k = 0; k < 6; ++k)
            {
                if (!mc::begin("interpretation: %s number %u over %u", ifields[f].name, k, bg)) continue;
                string s = base;
                vector<double> w = want;
                string b = ivalue(ifields[f].type, k, w[f]);
                s.replace(ifields[f].off, b.size(), b);
                Exact e(s);
                std::unique_ptr<Interp> r(new Interp);
                r->readfrom(e.p);
                for (unsigned g = 0; g < NI; ++g)
                    if (!same_field(ifields[g].type, ifields[g].get(*r), w[g]))
                        mc::fail(ifields[g].name, "%s is %.17g and not %.17g", ifields[g].name, ifields[g].get(*r), w[g]);
                mc::count();
            }
    }
}

MC_GROUP(interpretation_text)
{
    // A value changes one printed line, each field its own, in order
    string base = blank_interp();
    Exact e0(base);
    std::unique_ptr<Interp> r0(new Interp);
    r0->readfrom(e0.p);
    vector<string> l0 = lines_of(*r0);
    int last = -1, lastf = -1;
    for (unsigned f = 0; f < NI; ++f)
    {
        if (!mc::begin("printed %s", ifields[f].name)) continue;
        string s = base;
        double v;
        string b = ivalue(ifields[f].type, 1, v);
        s.replace(ifields[f].off, b.size(), b);
        Exact e(s);
        std::unique_ptr<Interp> r(new Interp);
        r->readfrom(e.p);
        vector<string> l = lines_of(*r);
        mc::count();
        vector<int> diff;
        for (unsigned i = 0; i < std::max(l.size(), l0.size()); ++i)
            if (i >= l.size() || i >= l0.size() || l[i] != l0[i]) diff.push_back(i);
        if (diff.size() != 1)
        {
            mc::fail("text " + string(ifields[f].name), "%s is in %zu printed lines", ifields[f].name, diff.size());
            continue;
        }
        std::ostringstream o;
        if (ifields[f].type == R8 || ifields[f].type == I4 || ifields[f].type == I2 || ifields[f].type == FLAG) o << v;
        else o << (float)ifields[f].get(*r);
        if (ifields[f].type == I4) { o.str(""); o << (int)v; }
        if (l[diff[0]].find(o.str()) == string::npos)
            mc::fail("text " + string(ifields[f].name), "%s is printed as '%s'", ifields[f].name, l[diff[0]].c_str());
        // The slot is on the line of its day
        bool slot = strstr(ifields[f].name, "_slot");
        if (lastf == (int)f - 1 && (slot ? diff[0] != last : diff[0] <= last))
            mc::fail("text " + string(ifields[f].name), "%s is printed in the place of another value", ifields[f].name);
        last = diff[0];
        lastf = f;
    }
    // Administrative messages of all lengths, ended or not
    for (unsigned len = 0; len <= 800; ++len)
        for (int neighbour = 0; neighbour < 2; ++neighbour)
        {
            if (!mc::begin("administrative message of %u", len)) continue;
            string s = base, msg;
            for (unsigned i = 0; i < len; ++i) msg += (char)('A' + (i * 7 + i / 26) % 26);
            s.replace(560, len, msg);
            if (neighbour) for (unsigned i = 560 + len + 1; i < 1360; ++i) s[i] = '#';
            Exact e(s);
            std::unique_ptr<Interp> r(new Interp);
            r->readfrom(e.p);
            if (memcmp(r->mesg.admin_message, s.data() + 560, 800)) mc::fail("message", "administrative message of %u characters", len);
            vector<string> l = lines_of(*r);
            if (len)
            {
                unsigned n = 0;
                for (auto& x : l) n += x == msg;
                if (n != 1) mc::fail("message text", "administrative message of %u characters printed %u times", len, n);
            }
            mc::count();
        }
}

// --------------------------------------------------------------- key slots

MC_GROUP(keys)
{
    for (unsigned slot = 0; slot < 120; ++slot)
        for (unsigned st = 0; st < 256; st += 5)
        {
            if (!mc::begin("key slot %u station %u", slot, st)) continue;
            string b(1440, '\0');
            // The unused slots are not empty
            for (unsigned i = 0; i < 120; ++i) { b[i * 12 + 1] = 9; b[i * 12 + 2] = (char)(st / 16); b[i * 12 + 3] = (char)(st % 16); }
            b[slot * 12] = (char)(slot % 2 ? 255 : 1);
            b[slot * 12 + 1] = (char)(slot + 1);
            for (unsigned k = 0; k < 8; ++k) b[slot * 12 + 4 + k] = (char)(slot * 8 + k + 128);
            unsigned other = (slot + 1) % 120;
            b[other * 12] = 1;
            b[other * 12 + 1] = (char)200;
            b[other * 12 + 2] = 40; // station 640 and more
            Exact e(b);
            std::unique_ptr<HRI_subframe_keyslot> k(new HRI_subframe_keyslot(e.p));
            if (!k->has_keys(st)) mc::fail("has_keys", "no keys of station %u, in slot %u", st, slot);
            if (k->has_keys(st + 256)) mc::fail("has_keys", "keys of a station without keys");
            if (!k->has_keys(640 + st % 16)) mc::fail("has_keys", "no keys of station %u, in slot %u", 640 + st % 16, other);
            HRI_keyslot& g = k->get_key(st, slot + 1);
            if (!g.usage || g.key_number != slot + 1 || g.station_number != st) mc::fail("get_key", "key %u of station %u not found", slot + 1, st);
            for (unsigned j = 0; j < 8; ++j)
                if (g.message_key[j] != (unsigned char)(slot * 8 + j + 128)) mc::fail("get_key", "byte %u of key in slot %u", j, slot);
            if (k->get_key(st, 9 == slot + 1 ? 8 : 9).usage) mc::fail("get_key", "unused key found");
            mc::count();
        }
}

MC_GROUP(key_numbers)
{
    // All key numbers, and all values of the bytes of stations
    for (unsigned slot = 0; slot < 120; slot += 7)
        for (unsigned field = 1; field <= 3; ++field)
            for (unsigned v = 0; v < 256; ++v)
            {
                if (!mc::begin("key slot %u byte %u = %u", slot, field, v)) continue;
                string b(1440, '\0');
                b[slot * 12] = 1;
                b[slot * 12 + 1] = 33; b[slot * 12 + 2] = 3; b[slot * 12 + 3] = 3;
                b[slot * 12 + field] = (char)v;
                for (unsigned k = 0; k < 8; ++k) b[slot * 12 + 4 + k] = (char)(v + k);
                unsigned key = field == 1 ? v : 33, st = 16 * (field == 2 ? v : 3) + (field == 3 ? v : 3);
                Exact e(b);
                std::unique_ptr<HRI_subframe_keyslot> k(new HRI_subframe_keyslot(e.p));
                for (unsigned s : { 0u, 3u, 51u, st, st + 1, st + 256 })
                {
                    if (k->has_keys(s) != (s == st)) mc::fail("has_keys", "station %u has keys, the slot has station %u", s, st);
                    for (unsigned n : { 0u, 33u, key, key + 1, key + 256 })
                        if (k->get_key(s, n).usage != (s == st && n == key)) mc::fail("get_key", "key %u of station %u, the slot has key %u of %u", n, s, key, st);
                }
                HRI_keyslot& g = k->get_key(st, key);
                if (g.key_number != key || g.station_number != st || g.message_key[7] != (unsigned char)(v + 7)) mc::fail("get_key", "key %u of station %u", key, st);
                mc::count();
            }
}

// ------------------------------------------------------------------- files

namespace {

struct Format
{
    const char* code;
    unsigned char fmt, viss, visn, ir, wv;
    // Images: A or BX frames, and for each its band, size and halves
    bool a;
    struct { int band; int npixels, nlines; bool half; } img[2];
    int nimages;
};

const Format formats[] = {
    { "AV",   0,   240, 240, 0, 0,     true,  { { VIS_BAND, 5000, 5000, true } }, 1 },
    { "AVH",  0,   255, 255, 0, 0,     true,  { { VH_BAND, 2500, 2500, false } }, 1 },
    { "AW",   0,   0, 0, 0, 255,       true,  { { WV_BAND, 2500, 2500, false } }, 1 },
    { "AIW",  0,   0, 0, 255, 255,     true,  { { IR_BAND, 2500, 2500, false }, { WV_BAND, 2500, 2500, false } }, 2 },
    { "AIVH", 0,   255, 0, 255, 0,     true,  { { IR_BAND, 2500, 2500, false }, { VH_BAND, 2500, 2500, false } }, 2 },
    { "BW",   255, 0, 0, 0, 255,       false, { { WV_BAND, 1250, 625, false } }, 1 },
    { "BIV",  255, 240, 15, 255, 0,    false, { { IR_BAND, 1250, 625, false }, { VIS_BAND, 2500, 1250, true } }, 2 },
    { "BIVH", 255, 255, 15, 255, 0,    false, { { IR_BAND, 1250, 625, false }, { VIS_BAND, 2500, 1250, true } }, 2 },
    { "BIW",  255, 0, 0, 255, 255,     false, { { IR_BAND, 1250, 625, false }, { WV_BAND, 1250, 625, false } }, 2 },
    { "XI",   15,  0, 0, 255, 0,       false, { { IR_BAND, 1250, 1250, false } }, 1 },
    { "XW",   15,  0, 0, 0, 255,       false, { { WV_BAND, 1250, 1250, false } }, 1 },
    { "XVH",  15,  255, 255, 0, 0,     false, { { VH_BAND, 1250, 1250, false } }, 1 },
};
const unsigned NF = sizeof(formats) / sizeof(formats[0]);

unsigned char pixel(unsigned img, unsigned line, unsigned col)
{
    return (unsigned char)(img * 97 + line * 31 + line / 256 * 5 + col * 7 + col / 251 * 3 + (col * line >> 7));
}

string line_bytes(unsigned img, unsigned line, unsigned from, unsigned n)
{
    string s(n, 0);
    for (unsigned i = 0; i < n; ++i) s[i] = pixel(img, line, from + i);
    return s;
}

struct File
{
    unsigned format = 0;
    bool tecnavia = false;
    Ident ident;
    string interp = blank_interp();
    string keys = string(1440, 0);
    string seed = string(8, 0);
    string sync = string("\x05\x0c\xdf", 3);

    const Format& f() const { return formats[format]; }
    Label label() const
    {
        Label l;
        const unsigned char i[] = { f().fmt, f().viss, f().visn, f().ir, f().wv, 0, 0, 0, 0, 0, 0, 0 };
        memcpy(l.ind, i, 12);
        return l;
    }
    char id() const { return f().a ? 112 : 48; }
    string frame(const string& body) const
    {
        string s = sync + id() + body;
        s.resize(364, '\xee');
        return s;
    }
    string line(const string& data) const
    {
        if (tecnavia)
        {
            string s = sync + id();
            if (f().a)
            {
                s.resize(388, '\xee');
                s += data;
                s.resize(3072, '\xee');
            }
            else
            {
                s.resize(196, '\xee');
                s += data;
                s.resize(1536, '\xee');
            }
            return s;
        }
        string s;
        unsigned pos = f().a ? 296 : 328;
        s = frame(string(f().a ? 64 : 32, '\xee') + data.substr(0, pos));
        for (; pos < data.size(); pos += 360) s += frame(data.substr(pos, 360));
        return s;
    }
    unsigned header_size() const
    {
        return tecnavia ? (f().a ? 2048 + 1536 : 2048) : (f().a ? 8 : 4) * 364;
    }
    unsigned line_size() const { return tecnavia ? (f().a ? 3072 : 1536) : (f().a ? 8 : 4) * 364; }
    string header() const
    {
        string h = label().encode() + seed + ident.encode() + interp;
        if (tecnavia)
        {
            string s = string(512, '\x11') + sync + id() + h;
            if (f().a)
            {
                s += keys;
                s.resize(2048 + 1536, '\xee');
            }
            else s.resize(2048, '\xee');
            return s;
        }
        string s = frame(h.substr(0, 360));
        for (unsigned p = 360; p < h.size(); p += 360) s += frame(h.substr(p, 360));
        if (f().a) for (unsigned p = 0; p < 1440; p += 360) s += frame(keys.substr(p, 360));
        return s;
    }
    unsigned records() const
    {
        unsigned n = 0;
        for (int i = 0; i < f().nimages; ++i) n += f().img[i].nlines * (f().img[i].half ? 2 : 1);
        return n;
    }
    string encode() const
    {
        string s = header();
        s.reserve(s.size() + (size_t)records() * line_size());
        for (int l = 0; l < f().img[0].nlines; ++l)
        {
            for (int i = 0; i < f().nimages; ++i)
            {
                auto& m = f().img[i];
                if (!m.half) s += line(line_bytes(i, l, 0, m.npixels));
                else if (f().nimages == 1)
                {
                    // One image of halves
                    s += line(line_bytes(i, l, 0, m.npixels / 2));
                    s += line(line_bytes(i, l, m.npixels / 2, m.npixels / 2));
                }
                else
                    for (int k = 0; k < 2; ++k)
                        for (int h = 0; h < 2; ++h)
                            s += line(line_bytes(i, l * 2 + k, h * m.npixels / 2, m.npixels / 2));
            }
        }
        return s;
    }
};

string read_into(Hri& h, const string& path, bool tecnavia)
{
    Quiet q;
    try { h.readfrom(const_cast<char*>(path.c_str()), tecnavia); }
    catch (std::runtime_error& e) { return string("error: ") + e.what(); }
    return "";
}

void same_images(Hri& h, const File& f, const string& what, bool all)
{
    const Format& m = f.f();
    if (h.nimages != m.nimages) { mc::fail("images", "%s: %d images and not %d", what.c_str(), h.nimages, m.nimages); return; }
    for (int i = 0; i < m.nimages; ++i)
    {
        HRI_image& g = h.image[i];
        if (g.npixels != m.img[i].npixels || g.nlines != m.img[i].nlines)
        {
            mc::fail("image size", "%s: image %d is %d x %d", what.c_str(), i, g.npixels, g.nlines);
            continue;
        }
        if (g.get_image_band() != m.img[i].band) mc::fail("image band", "%s: image %d is band %d", what.c_str(), i, g.get_image_band());
        if (g.units != (m.img[i].band == IR_BAND || m.img[i].band == WV_BAND ? "K" : "%"))
            mc::fail("image units", "%s: image %d is in %s", what.c_str(), i, g.units.c_str());
        unsigned char* d = g.get_image();
        unsigned bad = 0;
        for (int l = 0; l < g.nlines && !bad; ++l)
        {
            if (!all && l > 2 && l < g.nlines - 3 && l % 97) continue;
            for (int c = 0; c < g.npixels && !bad; ++c)
                if (d[(size_t)l * g.npixels + c] != pixel(i, l, c))
                {
                    mc::fail("pixels", "%s: image %d line %d column %d is %u and not %u", what.c_str(), i, l, c, d[(size_t)l * g.npixels + c], pixel(i, l, c));
                    bad = 1;
                }
            unsigned char* p = g.get_line(l);
            for (int c = 0; c < g.npixels && !bad; ++c)
                if (p[c] != pixel(i, l, c) || ((c < 3 || c > g.npixels - 4 || c % 89 == 0) && g.get_pixel(l, c) != pixel(i, l, c)))
                {
                    mc::fail("line pixels", "%s: image %d line %d column %d", what.c_str(), i, l, c);
                    bad = 1;
                }
        }
        mc::sh->evaluations += g.nlines;
        mc::sh->nontrivial += g.nlines;
    }
}

void formats_part(bool tecnavia, unsigned from, unsigned to)
{
    for (unsigned n = from; n < to; ++n)
    {
        File f;
        f.format = n;
        f.tecnavia = tecnavia;
        if (!mc::begin("%s file%s", f.f().code, tecnavia ? " of TECNAVIA" : "")) continue;
        if (f.f().fmt == 15) { f.ident.sat0 = 0; f.ident.sat1 = n % 4; }
        f.ident.longitude = -63;
        // Calibration of the file
        f.interp.replace(51, 5, "07432"); f.interp.replace(56, 3, "051");
        f.interp.replace(64, 5, "00834"); f.interp.replace(69, 3, "062");
        f.interp.replace(272, 8, be8(0x44a4b40123456789ull));
        f.interp.replace(560, 5, "Hello");
        f.interp.replace(1355, 5, "Tail!");
        f.seed = "\x01\x02\x03\x04\x05\x06\x07\x08";
        for (unsigned s = 0; s < 120; ++s)
        {
            f.keys[s * 12] = 1;
            f.keys[s * 12 + 1] = (char)(s + 1);
            f.keys[s * 12 + 2] = (char)(s / 16);
            f.keys[s * 12 + 3] = (char)(s % 16);
            for (unsigned k = 4; k < 12; ++k) f.keys[s * 12 + k] = (char)(0x10 + s);
        }
        string path = mc::work + "/file.hri";
        mc::write_file(path, f.encode());
        std::unique_ptr<Hri> h(new Hri);
        string err = read_into(*h, path, tecnavia);
        string what = mc::fmt("%s%s", f.f().code, tecnavia ? " (TECNAVIA)" : "");
        if (!err.empty()) { mc::fail("read", "%s: %s", what.c_str(), err.c_str()); continue; }
        same_images(*h, f, what, true);
        if (string(h->get_format()) != f.f().code) mc::fail("format", "%s is %s", what.c_str(), h->get_format());
        if (string(h->get_satellite_name()) != f.ident.satname()) mc::fail("satellite name", "%s: %s", what.c_str(), h->get_satellite_name());
        if (h->get_satellite_longitude() != -63) mc::fail("longitude", "%s: %g", what.c_str(), h->get_satellite_longitude());
        string r = be8(0x44a4b40123456789ull);
        if (!same_float(h->get_orbit_radius(), ibm((const unsigned char*)r.data(), 8))) mc::fail("orbit radius", "%s: %g", what.c_str(), h->get_orbit_radius());
        struct tm* t = h->get_datetime();
        if (t->tm_year != 101 || t->tm_mon != 6 || t->tm_mday != 19 || t->tm_hour != 11 || t->tm_min != 30) mc::fail("datetime", "%s", what.c_str());
        if (memcmp(h->seed, f.seed.data(), 8)) mc::fail("seed", "%s", what.c_str());
        if (h->get_bits_per_pixel() != 8) mc::fail("bits", "%s", what.c_str());
        // The whole of the headers, printed
        std::ostringstream o;
        o << *h;
        for (const char* w : { "Hello", "Reference Time" })
            if (o.str().find(w) == string::npos) mc::fail("text", "%s: no '%s' in the printed headers", what.c_str(), w);
        if (f.f().a)
            for (unsigned s = 0; s < 120; ++s)
            {
                string k, b = mc::fmt("%x", 0x10 + s);
                for (int i = 0; i < 8; ++i) k += b;
                if (o.str().find(k) == string::npos) { mc::fail("file keys", "%s: the key of slot %u is not read", what.c_str(), s); break; }
            }
        // Lines and pixels out of the image are refused
        for (int i = 0; i < h->nimages; ++i)
        {
            HRI_image& g = h->image[i];
            const int lines[] = { -2147483647 - 1, -1, g.nlines, g.nlines + 1, 2147483647 };
            const int cols[] = { -2147483647 - 1, -1, g.npixels, g.npixels + 1, 2147483647 };
            auto refused = [&](std::function<void()> fn) {
                Quiet q;
                try { fn(); } catch (std::runtime_error&) { return true; }
                return false;
            };
            for (int l : lines)
            {
                if (!refused([&] { g.get_line(l); }) || !refused([&] { g.get_pixel(l, 0); })
                        || !refused([&] { unsigned char b[5000] = {}; g.put_line(b, g.npixels, l); })
                        || !refused([&] { unsigned char b[5000] = {}; g.put_halfline(b, g.npixels / 2, l, true); })
                        || !refused([&] { unsigned char b[5000] = {}; g.put_halfline(b, g.npixels / 2, l, false); }))
                    mc::fail("line range", "%s: line %d of image %d is not refused", what.c_str(), l, i);
                mc::count();
            }
            for (int c : cols)
            {
                if (!refused([&] { g.get_pixel(0, c); })) mc::fail("column range", "%s: column %d of image %d is not refused", what.c_str(), c, i);
                if (c != g.npixels && !refused([&] { unsigned char b[8000] = {}; g.put_line(b, c, 0); }))
                    mc::fail("line size", "%s: line of %d pixels of image %d is not refused", what.c_str(), c, i);
                mc::count();
            }
        }
        unlink(path.c_str());
    }
}

}

MC_GROUP(formats_av) { formats_part(false, 0, 1); }
MC_GROUP(formats_a) { formats_part(false, 1, 5); }
MC_GROUP(formats_bx) { formats_part(false, 5, NF); }
MC_GROUP(formats_tec_av) { formats_part(true, 0, 1); }
MC_GROUP(formats_tec_a) { formats_part(true, 1, 5); }
MC_GROUP(formats_tec_bx) { formats_part(true, 5, NF); }

// -------------------------------------------------------------- calibration

namespace {

void check_calibration(HRI_image_satellite sat, HRI_image_format fm, HRI_image_band band, bool set, float cc, float sc)
{
    std::unique_ptr<HRI_image> im(new HRI_image(sat, fm, band));
    calibration_coefficients c = { cc, sc };
    if (set) im->set_calibration(&c);
    float* t;
    {
        Quiet q;
        t = im->get_calibration();
    }
    string what = mc::fmt("satellite %d format %d band %d %s %g %g", sat, fm, band, set ? "calibrated" : "uncalibrated", cc, sc);
    for (int i = 0; i < 256; ++i)
    {
        double want = NAN;
        double A = 0, B = 0;
        double k = cc, s = sc;
        if (sat == METEOSAT && band == IR_BAND) { A = 1255.5465; B = 6.9618; if (!set) want = 1; }
        else if (sat == METEOSAT && band == WV_BAND) { A = 2233.4882; B = 9.2477; if (!set) want = 1; }
        else if (sat == INDOX && band == IR_BAND) { A = 1272.2; B = 6.7348; if (!set) k = 0.074f, s = 5; }
        else if (sat == INDOX && band == WV_BAND) { A = 2264.9; B = 9.1124; if (!set) k = 0.0078f, s = 6; }
        else if (sat != GMS && (band == VIS_BAND || band == VH_BAND)) want = 100.0 * i / 255;
        else if (sat == GOES_E && band == IR_BAND) want = i < 79 ? 163 + i : (i + 405) / 2.0;
        else if (sat == GOES_W && band == IR_BAND) want = i / 255.0 * (318.1 - 159.1) + 159.1;
        else if (band == WV_BAND) want = 1; // No calibration known
        if (A && std::isnan(want))
        {
            double rad = i < s ? 0 : k * (i - s);
            want = rad > 0 ? A / (B - log(rad)) : 0;
        }
        if (std::isnan(want))
        {
            // Tables of GMS: from the lowest to the highest
            bool ok = band == IR_BAND ? t[i] >= 130 && t[i] < 330 : t[i] >= 0 && t[i] <= 1;
            if (!ok || (i && t[i] < t[i - 1])) mc::fail("calibration", "%s: count %d is %g", what.c_str(), i, t[i]);
        }
        else if (!(fabs(t[i] - want) <= 2e-5 * std::max(1.0, fabs(want))))
        {
            mc::fail("calibration", "%s: count %d is %g and not %g", what.c_str(), i, t[i], want);
            return;
        }
    }
}

}

MC_GROUP(calibration)
{
    static const HRI_image_satellite sats[] = { METEOSAT, GOES_E, GOES_W, GMS, INDOX };
    static const HRI_image_format fms[] = { A_FORMAT, B_FORMAT, X_FORMAT };
    static const HRI_image_band bands[] = { IR_BAND, WV_BAND, VIS_BAND, VH_BAND };
    for (auto s : sats) for (auto f : fms) for (auto b : bands)
    {
        if ((f == B_FORMAT && b == VH_BAND) || (f == X_FORMAT && b == VIS_BAND)) continue;
        if (s != METEOSAT && f != X_FORMAT) continue;
        if (!mc::begin("calibration of satellite %d format %d band %d", s, f, b)) continue;
        check_calibration(s, f, b, false, 0, 0);
        for (float cc : { 0.00001f, 0.00834f, 0.07432f, 0.99999f }) for (float sc : { 0.f, 0.1f, 5.f, 6.2f, 99.9f })
        {
            check_calibration(s, f, b, true, cc, sc);
            mc::count();
        }
    }
    // The coefficients come from the file: formats with their own
    for (unsigned n = 0; n < NF; ++n)
        for (int sat = -1; sat < 4; ++sat)
            for (int v = 0; v < 3; ++v)
            {
                File f;
                f.format = n;
                if (f.f().a && (sat != -1 || v)) continue;
                if ((f.f().fmt == 15) == (sat == -1)) continue;
                if (!mc::begin("calibration in file %s satellite %d number %d", f.f().code, sat, v)) continue;
                if (sat >= 0) { f.ident.sat0 = 0; f.ident.sat1 = sat; }
                static const char* ic[] = { "07432", "08111", "00001" }, *wc[] = { "00834", "00999", "99999" };
                static const char* is[] = { "051", "000", "999" }, *ws[] = { "062", "999", "000" };
                f.interp.replace(51, 5, ic[v]); f.interp.replace(56, 3, is[v]);
                f.interp.replace(64, 5, wc[v]); f.interp.replace(69, 3, ws[v]);
                string path = mc::work + "/cal.hri";
                mc::write_file(path, f.encode());
                std::unique_ptr<Hri> h(new Hri);
                if (!read_into(*h, path, false).empty()) { mc::fail("read", "%s", f.f().code); continue; }
                for (int i = 0; i < f.f().nimages; ++i)
                {
                    int band = f.f().img[i].band;
                    HRI_image_satellite s = sat == -1 ? METEOSAT : sat == 0 ? GOES_E : sat == 1 ? GOES_W : sat == 2 ? GMS : INDOX;
                    HRI_image_format fm = f.f().fmt == 0 ? A_FORMAT : f.f().fmt == 255 ? B_FORMAT : X_FORMAT;
                    std::unique_ptr<HRI_image> want(new HRI_image(s, fm, (HRI_image_band)band));
                    calibration_coefficients c = { 0, 0 };
                    if (band == IR_BAND) c = { (float)chars_value(ic[v], -1), (float)chars_value(is[v], 1) };
                    if (band == WV_BAND) c = { (float)chars_value(wc[v], -1), (float)chars_value(ws[v], 1) };
                    want->set_calibration(&c);
                    Quiet q;
                    float *a = h->image[i].get_calibration(), *b = want->get_calibration();
                    for (int k = 0; k < 256; ++k)
                        if (!(fabs(a[k] - b[k]) <= 1e-3 + 1e-3 * fabs(b[k])))
                        {
                            mc::fail("file calibration", "%s satellite %d: image %d count %d is %g and not %g", f.f().code, sat, i, k, a[k], b[k]);
                            break;
                        }
                }
                mc::count();
            }
}

// ------------------------------------------------------------------ damage

namespace {

void must_fail(const File& f, const string& path, const char* key, const string& what)
{
    static std::unique_ptr<Hri> h;
    if (!h) h.reset(new Hri);
    string err = read_into(*h, path, f.tecnavia);
    if (err.empty()) mc::fail(key, "%s %s: read without an error", f.f().code, what.c_str());
    mc::count();
}

void cuts(unsigned format, bool tecnavia)
{
    File f;
    f.format = format;
    f.tecnavia = tecnavia;
    if (f.f().fmt == 15) f.ident.sat0 = f.ident.sat1 = 0;
    string all = f.encode(), path = mc::work + "/cut.hri";
    // Where the data of the records end: what follows is filling
    vector<size_t> at;
    for (size_t s = 0; s < all.size(); s += 364) { at.push_back(s); at.push_back(s + 1); at.push_back(s + 363); }
    size_t last = all.size() - f.line_size();
    if (!tecnavia) for (size_t s = all.size() - 364; s < all.size() - 1; ++s) at.push_back(s);
    else for (size_t s = last; s < all.size() - 1; s += 7) at.push_back(s);
    // From the longest, by truncation of one file
    mc::write_file(path, all);
    std::sort(at.begin(), at.end());
    for (unsigned i = at.size(); i-- > 0; )
    {
        if (at[i] >= all.size()) continue;
        if (!mc::thorough && at[i] > f.header_size() * 2 && at[i] < last && (i % 97 > 3)) continue;
        if (!mc::begin("%s%s cut at %zu", f.f().code, tecnavia ? " of TECNAVIA" : "", at[i])) continue;
        if (truncate(path.c_str(), at[i])) { mc::fail("harness", "truncate"); return; }
        must_fail(f, path, "cut", mc::fmt("cut at %zu of %zu", at[i], all.size()));
    }
    // The whole file is read
    mc::write_file(path, all);
    std::unique_ptr<Hri> h(new Hri);
    string err = read_into(*h, path, tecnavia);
    if (!err.empty()) mc::fail("read", "%s: %s", f.f().code, err.c_str());
    unlink(path.c_str());
}

}

MC_GROUP(cut_bw) { cuts(5, false); }
MC_GROUP(cut_bw_tec) { cuts(5, true); }
MC_GROUP(cut_xi) { cuts(9, false); }
MC_GROUP(cut_aw) { cuts(2, false); }
MC_GROUP(cut_aw_tec) { cuts(2, true); }

MC_GROUP(sync)
{
    // The mark of every frame
    File f;
    f.format = 5;
    string all = f.encode(), path = mc::work + "/sync.hri";
    mc::write_file(path, all);
    int fd = open(path.c_str(), O_WRONLY);
    for (size_t s = 0; s < all.size(); s += 364)
    {
        unsigned n = s / 364;
        if (!mc::thorough && n > 12 && n % 31 && s + 364 * 8 < all.size()) continue;
        if (!mc::begin("mark of frame %u", n)) continue;
        if (pwrite(fd, "\x12\x34\x56", 3, s) != 3) abort();
        must_fail(f, path, "sync", mc::fmt("no mark at frame %u", n));
        if (pwrite(fd, "\x05\x0c\xdf", 3, s) != 3) abort();
    }
    close(fd);
    // Frames of another format than the label says, unknown formats and ids
    for (unsigned id = 0; id < 256; ++id)
    {
        if (!mc::begin("frame id %u", id)) continue;
        string s = all;
        s[3] = (char)id;
        mc::write_file(path, s);
        std::unique_ptr<Hri> h(new Hri);
        string err = read_into(*h, path, false);
        if (id != 112 && err.empty() != (id == 48)) mc::fail("frame id", "B format with frame id %u: %s", id, err.empty() ? "read" : err.c_str());
        mc::count();
    }
    for (unsigned b = 0; b < 256; ++b)
    {
        if (!mc::begin("format indicator %u", b)) continue;
        string s = all;
        s[4 + 12] = (char)b;
        mc::write_file(path, s);
        std::unique_ptr<Hri> h(new Hri);
        string err = read_into(*h, path, false);
        if (b != 0 && b != 15 && err.empty() != (b == 255)) mc::fail("format indicator", "format %u: %s", b, err.empty() ? "read" : err.c_str());
        mc::count();
    }
    // Combinations of channels that are not disseminated
    static const unsigned char fm[] = { 0, 255, 15 }, vis[] = { 0, 15, 240, 255 }, on[] = { 0, 255 };
    for (unsigned char a : fm) for (unsigned char v : vis) for (unsigned char i : on) for (unsigned char w : on)
    {
        Label l;
        l.ind[0] = a; l.ind[1] = v; l.ind[3] = i; l.ind[4] = w;
        string code = code_of(l);
        bool known = false;
        for (auto& x : formats) known = known || code == x.code;
        if (known) continue;
        if (!mc::begin("format %s", code.c_str())) continue;
        for (int id : { 48, 112 })
        {
            string s = all;
            s.replace(4, 24, l.encode());
            s[3] = (char)id;
            mc::write_file(path, s);
            must_fail(f, path, "unknown format", code);
        }
    }
    for (const char* p : { "", "/nonexistent/file" })
    {
        if (!mc::begin("no file '%s'", p)) continue;
        must_fail(f, p, "no file", p);
    }
    if (mc::begin("a directory")) must_fail(f, mc::work, "no file", "a directory");
}

// --------------------------------------------------------------- histories

MC_GROUP(histories)
{
    // An object that is used again gives what a new one gives
    struct Src { unsigned format; bool tec; bool cut; };
    static const Src src[] = { { 5, false, false }, { 6, false, false }, { 10, false, false }, { 8, true, false }, { 5, false, true }, { 6, true, true } };
    const unsigned NS = sizeof(src) / sizeof(src[0]);
    vector<File> files(NS);
    vector<string> paths;
    for (unsigned i = 0; i < NS; ++i)
    {
        files[i].format = src[i].format;
        files[i].tecnavia = src[i].tec;
        files[i].ident.sat1 = 241 + i;
        files[i].ident.longitude = i;
        if (files[i].f().fmt == 15) { files[i].ident.sat0 = 0; files[i].ident.sat1 = 3; }
        files[i].interp.replace(51, 5, mc::fmt("%05u", 7000 + i * 111));
        files[i].interp.replace(64, 5, mc::fmt("%05u", 800 + i * 11));
        files[i].interp.replace(560 + i, 3, "abc");
        string s = files[i].encode();
        if (src[i].cut) s.resize(s.size() - files[i].line_size() - 5);
        paths.push_back(mc::work + mc::fmt("/h%u.hri", i));
        mc::write_file(paths.back(), s);
    }
    auto text = [](Hri& h) { std::ostringstream o; o << h; return o.str(); };
    vector<string> fresh;
    vector<vector<float>> cal(NS);
    for (unsigned i = 0; i < NS; ++i)
    {
        std::unique_ptr<Hri> h(new Hri);
        string err = read_into(*h, paths[i], src[i].tec);
        if (err.empty() == src[i].cut) { mc::fail("history read", "%s: %s", files[i].f().code, err.c_str()); return; }
        fresh.push_back(src[i].cut ? "" : text(*h));
        if (!src[i].cut) { Quiet q; float* c = h->image[0].get_calibration(); cal[i].assign(c, c + 256); }
    }
    for (unsigned depth = 1; depth <= (mc::thorough ? 4 : 3); ++depth)
        mc::all_sequences(depth, NS, [&](const vector<unsigned>& v) {
            if (src[v.back()].cut) return;
            string name;
            for (unsigned i : v) name += mc::fmt(" %s%s%s", files[i].f().code, src[i].tec ? "/T" : "", src[i].cut ? "/cut" : "");
            if (!mc::begin("history%s", name.c_str())) return;
            std::unique_ptr<Hri> h(new Hri);
            for (unsigned i : v) read_into(*h, paths[i], src[i].tec);
            ++mc::sh->traces;
            same_images(*h, files[v.back()], "history" + name, false);
            if (text(*h) != fresh[v.back()]) mc::fail("history", "after%s the headers are not those of a new object", name.c_str());
            Quiet q;
            float* c = h->image[0].get_calibration();
            if (memcmp(c, cal[v.back()].data(), sizeof(float) * 256)) mc::fail("history", "after%s the calibration is not that of a new object", name.c_str());
        });
}
