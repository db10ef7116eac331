// C06: MSG time codes against calendar arithmetic by counting days.
#include "mc.hpp"
#include "enumerate.hpp"
#include "synth.hpp"
#include <msat/hrit/MSG_time_cds.h>
#include <sstream>
#include <memory>

using std::string;
using std::vector;
using synth::be;

namespace {

struct Civil { int year, mon, day, wday, yday; };

/// The calendar from 1958-01-01, one entry per day number, made by counting
const vector<Civil>& calendar()
{
    static vector<Civil> c;
    if (c.empty())
    {
        const int len[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        int wd = 3;     // a Wednesday
        for (int y = 1958; c.size() < 66000; ++y)
        {
            int yd = 0;
            for (int m = 0; m < 12; ++m)
            {
                int n = len[m] + (m == 1 && y % 4 == 0 && (y % 100 != 0 || y % 400 == 0));
                for (int d = 1; d <= n; ++d, ++yd, wd = (wd + 1) % 7) c.push_back({y, m + 1, d, wd, yd});
            }
        }
    }
    return c;
}

const unsigned MS[] = {0, 1, 999, 1000, 1001, 59999, 60000, 3599999, 3600000, 43199999, 43200000, 86340000, 86399000, 86399999};

string text(unsigned day, unsigned ms)
{
    const Civil& c = calendar()[day];
    unsigned s = ms / 1000;
    return mc::fmt("%04d-%02d-%02d %02u:%02u:%02u", c.year, c.mon, c.day, s / 3600, s / 60 % 60, s % 60);
}

// The buffer holds exactly the bytes of the time code
template<class T> T decode(const string& b)
{
    std::unique_ptr<unsigned char[]> p(new unsigned char[b.size()]);
    memcpy(p.get(), b.data(), b.size());
    T t;
    size_t used = t.read_from(p.get());
    if (used != b.size()) mc::fail(mc::fmt("length-%zu", b.size()), "%zu bytes used instead of %zu", used, b.size());
    T t2(p.get());
    if (t2.get_timestring() != t.get_timestring()) mc::fail("constructor", "constructor and read_from differ: %s, %s", t2.get_timestring().c_str(), t.get_timestring().c_str());
    return t;
}

template<class T> void check_common(T& t, unsigned day, unsigned ms, const char* kind)
{
    mc::count();
    string key = mc::fmt("%s day-%u ms-%u", kind, day, ms);
    long long want = (long long)day * 86400 - 378691200LL + ms / 1000;
    if ((long long)t.get_unixtime() != want) { mc::fail(key + " unixtime", "%lld instead of %lld", (long long)t.get_unixtime(), want); return; }
    if (t.get_day_from_epoch() != day || t.get_msec_in_day() != ms) { mc::fail(key + " fields", "day %u ms %u", t.get_day_from_epoch(), t.get_msec_in_day()); return; }
    struct tm tm = *t.get_timestruct();
    const Civil& c = calendar()[day];
    unsigned s = ms / 1000;
    if (tm.tm_year + 1900 != c.year || tm.tm_mon + 1 != c.mon || tm.tm_mday != c.day || tm.tm_hour != (int)(s / 3600) || tm.tm_min != (int)(s / 60 % 60) ||
        tm.tm_sec != (int)(s % 60) || tm.tm_wday != c.wday || tm.tm_yday != c.yday)
        mc::fail(key + " struct", "%04d-%02d-%02d %02d:%02d:%02d weekday %d, it is %s", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec,
                 tm.tm_wday, text(day, ms).c_str());
}

void check_short(unsigned day, unsigned ms)
{
    auto t = decode<MSG_time_cds_short>(be(day, 2) + be(ms, 4));
    check_common(t, day, ms, "short");
    string want = text(day, ms) + mc::fmt(" +%03u msecs", ms % 1000);
    const MSG_time_cds_short& k = t;
    if (t.get_timestring() != want || k.get_timestring() != want || string(t.get_timechar()) != want)
        mc::fail(mc::fmt("short day-%u ms-%u text", day, ms), "%s instead of %s", t.get_timestring().c_str(), want.c_str());
}
void check_cds(unsigned day, unsigned ms, unsigned us)
{
    auto t = decode<MSG_time_cds>(be(day, 2) + be(ms, 4) + be(us, 2));
    check_common(t, day, ms, "cds");
    string want = text(day, ms) + mc::fmt(" +%03u.%03u msecs", ms % 1000, us);
    const MSG_time_cds& k = t;
    if (t.get_timestring() != want || k.get_timestring() != want || string(t.get_timechar()) != want || t.get_microsecs() != us)
        mc::fail(mc::fmt("cds day-%u ms-%u us-%u text", day, ms, us), "%s instead of %s", t.get_timestring().c_str(), want.c_str());
}
void check_expanded(unsigned day, unsigned ms, unsigned us, unsigned ns)
{
    auto t = decode<MSG_time_cds_expanded>(be(day, 2) + be(ms, 4) + be(us, 2) + be(ns, 2));
    check_common(t, day, ms, "expanded");
    string want = text(day, ms) + mc::fmt(" +%03u.%03u%03u msecs", ms % 1000, us, ns);
    const MSG_time_cds_expanded& k = t;
    if (t.get_timestring() != want || k.get_timestring() != want || string(t.get_timechar()) != want || t.get_microsecs() != us || t.get_nanosecs() != ns)
        mc::fail(mc::fmt("expanded day-%u ms-%u us-%u ns-%u text", day, ms, us, ns), "%s instead of %s", t.get_timestring().c_str(), want.c_str());
}
void check_generalized(unsigned day, unsigned ms)
{
    const Civil& c = calendar()[day];
    unsigned s = ms / 1000;
    string b = mc::fmt("%04d%02d%02d%02u%02u%02uZ", c.year, c.mon, c.day, s / 3600, s / 60 % 60, s % 60);
    auto t = decode<MSG_time_generalized>(b);
    mc::count();
    string key = mc::fmt("generalized %s", b.c_str());
    const MSG_time_generalized& k = t;
    for (int again = 0; again < 2; ++again)
    {
        if (t.get_timestring() != text(day, ms) || k.get_timestring() != text(day, ms) || string(t.get_timechar()) != text(day, ms))
            mc::fail(key + " text", "%s instead of %s", t.get_timestring().c_str(), text(day, ms).c_str());
        long long want = (long long)day * 86400 - 378691200LL + s;
        if ((long long)t.get_unixtime() != want) mc::fail(key + " unixtime", "%lld instead of %lld", (long long)t.get_unixtime(), want);
        struct tm* tm = t.get_timestruct();
        if (tm->tm_hour != (int)(s / 3600) || tm->tm_mday != c.day || tm->tm_year + 1900 != c.year || tm->tm_mon + 1 != c.mon)
            mc::fail(key + " struct", "%04d-%02d-%02d %02d h", tm->tm_year + 1900, tm->tm_mon + 1, tm->tm_mday, tm->tm_hour);
    }
}

}

// Every day number of 16 bits
static void days(unsigned from, unsigned to)
{
    for (unsigned d = from; d < to; ++d)
    {
        if (!mc::begin("day %u", d)) continue;
        for (unsigned ms : MS)
        {
            check_short(d, ms);
            check_generalized(d, ms);
            if (ms % 1000) { check_cds(d, ms, d % 1000); check_expanded(d, ms, (d * 7) % 1000, (d * 3) % 1000); }
        }
    }
    mc::sample("day %u at 43200000 ms is %s", from, text(from, 43200000).c_str());
}
MC_GROUP(days_0) { days(0, 16384); }
MC_GROUP(days_1) { days(16384, 32768); }
MC_GROUP(days_2) { days(32768, 49152); }
MC_GROUP(days_3) { days(49152, 65536); }

// Every second of the day; every millisecond when thorough
MC_GROUP(seconds)
{
    for (unsigned d : {0u, 365u, 789u, 17849u, 25567u, 29219u})
        for (unsigned s = 0; s < 86400; ++s)
        {
            if (!mc::begin("day %u second %u", d, s)) continue;
            check_short(d, s * 1000);
            check_short(d, s * 1000 + 999);
            if (mc::thorough)
                for (unsigned k = 1; k < 999; k += d == 17849 ? 1 : 111) check_short(d, s * 1000 + k);
        }
    mc::sample("every second of six days");
}

// Fractions: every microsecond and nanosecond value in range
MC_GROUP(fractions)
{
    for (unsigned us = 0; us < 1000; ++us)
        for (unsigned ms : {0u, 999u, 43200001u})
        {
            if (!mc::begin("microseconds %u ms %u", us, ms)) continue;
            check_cds(17849, ms, us);
            check_expanded(17849, ms, us, 0);
            check_expanded(17849, ms, 0, us);
            check_expanded(17849, ms, 999 - us, us);
        }
    mc::sample("every microsecond and nanosecond value from 0 to 999");
}

// Unsegmented codes: each byte alone and all together
MC_GROUP(cuc)
{
    for (unsigned pos = 0; pos < 7; ++pos)
        for (unsigned v = 0; v < 256; ++v)
            for (unsigned fill : {0u, 1u, 255u})
            {
                if (!mc::begin("cuc byte %u = %u among %u", pos, v, fill)) continue;
                unsigned char b[7];
                memset(b, fill, 7);
                b[pos] = v;
                std::unique_ptr<unsigned char[]> p(new unsigned char[7]);
                memcpy(p.get(), b, 7);
                MSG_time_cuc t;
                size_t used = t.read_from(p.get());
                double want = (double)((uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]) + (double)(b[4] << 16 | b[5] << 8 | b[6]) / 16777216.0;
                mc::count();
                if (used != 7 || t.get_time_cuc_r8() != want) mc::fail(mc::fmt("cuc byte-%u value-%u among-%u", pos, v, fill), "%.17g instead of %.17g", t.get_time_cuc_r8(), want);
                if (t.get_coarse_time() != mc::fmt("%03u %03u %03u %03u", b[0], b[1], b[2], b[3]) || t.get_fine_time() != mc::fmt("%03u %03u %03u", b[4], b[5], b[6]))
                    mc::fail(mc::fmt("cuc-text byte-%u value-%u", pos, v), "%s %s", t.get_coarse_time().c_str(), t.get_fine_time().c_str());
            }
    mc::sample("every value of every byte of the unsegmented time code");
}

// Time zones
MC_GROUP(zones)
{
    for (const char* tz : {"UTC", "CET-1CEST", "EST5EDT", "NZST-12NZDT", "<+0545>-5:45", ":Europe/Rome", "<-12>12"})
    {
        setenv("TZ", tz, 1);
        tzset();
        for (unsigned d = 0; d < 30000; d += mc::thorough ? 1 : 13)
        {
            if (!mc::begin("zone %s day %u", tz, d)) continue;
            for (unsigned ms : {0u, 7200000u, 43200000u, 86399999u})
            {
                check_short(d, ms);
                check_generalized(d, ms);
                check_expanded(d, ms, 12, 34);
            }
        }
    }
    setenv("TZ", "UTC", 1);
    tzset();
    mc::sample("seven time zones");
}

// Histories: objects are loaded and read in every order, no result depends on
// what was converted before
MC_GROUP(histories)
{
    struct T { unsigned day, ms; };
    const T times[] = {{17849, 43200000}, {0, 0}, {36524, 86399999}};
    setenv("TZ", "EST5EDT", 1);
    tzset();
    // operations: 0-2 load object a with time i, 3-5 load b, 6/7 read a/b, 8 convert a generalized time
    mc::all_sequences(mc::thorough ? 6 : 5, 9, [&](const vector<unsigned>& v) {
        string h;
        for (unsigned o : v) h += mc::fmt(" %u", o);
        if (!mc::begin("history%s", h.c_str())) return;
        MSG_time_cds_short a((const unsigned char*)be(0, 6).data());
        MSG_time_cds_expanded b((const unsigned char*)be(0, 10).data());
        T ma{0, 0}, mb{0, 0};
        for (unsigned o : v)
        {
            if (o < 3) { ma = times[o]; a.read_from((const unsigned char*)(be(ma.day, 2) + be(ma.ms, 4)).data()); }
            else if (o < 6) { mb = times[o - 3]; b.read_from((const unsigned char*)(be(mb.day, 2) + be(mb.ms, 4) + be(1, 2) + be(2, 2)).data()); }
            else if (o == 6) check_common(a, ma.day, ma.ms, "history-a");
            else if (o == 7) check_common(b, mb.day, mb.ms, "history-b");
            else check_generalized(17849, 43200000);
        }
    });
    mc::sample("all sequences of 5 loads and reads over three objects");
}

// Printing uses the same values
MC_GROUP(printing)
{
    for (unsigned d = 0; d < 65536; d += 97)
        for (unsigned ms : {0u, 43200123u, 86399999u})
        {
            if (!mc::begin("print day %u ms %u", d, ms)) continue;
            MSG_time_cds_expanded t((const unsigned char*)(be(d, 2) + be(ms, 4) + be(7, 2) + be(89, 2)).data());
            std::stringstream s;
            s << t;
            for (string want : {text(d, ms), mc::fmt(": %u (epoch", d), mc::fmt(": %u\n", ms), string(": 7\n"), string(": 89\n")})
                if (s.str().find(want) == string::npos) mc::fail(mc::fmt("print day-%u ms-%u", d, ms), "\"%s\" is missing in:\n%s", want.c_str(), s.str().c_str());
            mc::count();
        }
}
