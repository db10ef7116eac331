// C24: DB1 directories give the values, samples and calibration of the channel
// that was selected, or nothing
//
// Exhaustive enumeration of directories and of histories of operations against
// a model: an AoI and an INFO file, and for each channel samples and a table.
#include "mc.hpp"
#include "enumerate.hpp"
#include <msat/thornsds_db1/thornsds_db1.h>
#include <cmath>
#include <memory>
#include <sstream>

using std::string;
using std::vector;
typedef std::map<string, string> Ini;     // "Section:Key" (or ":Key")

namespace {

string ini_text(const Ini& m)
{
    string s, sec;
    for (auto& i : m)
    {
        size_t c = i.first.find(':');
        if (i.first.substr(0, c) != sec) { sec = i.first.substr(0, c); s += "[" + sec + "]\n"; }
        s += i.first.substr(c + 1) + " = " + i.second + "\n";
    }
    return s;
}

struct MChannel
{
    bool raw = true, table = true;
    string samples;
    Ini cal;
};

struct MDir
{
    string path;
    bool has_aoi = true, has_info = true;
    Ini aoi, info;
    std::map<string, MChannel> channels;
    void store() const
    {
        mc::clean(path);
        mc::make_dirs(path);
        if (has_aoi) mc::write_file(path + "/AoI", ini_text(aoi));
        if (has_info) mc::write_file(path + "/INFO.DBI", ini_text(info));
        for (auto& c : channels)
        {
            if (c.second.raw) mc::write_file(path + "/" + c.first + ".RAW", c.second.samples);
            if (c.second.table) mc::write_file(path + "/" + c.first + ".Calibration", ini_text(c.second.cal));
        }
    }
    const string* find(const Ini& m, bool has, const string& key) const
    {
        if (!has) return nullptr;
        auto i = m.find(key);
        return i == m.end() ? nullptr : &i->second;
    }
    const string* aoi_of(const string& k) const { return find(aoi, has_aoi, k); }
    const string* info_of(const string& k) const { return find(info, has_info, k); }
    int bpp() const { auto v = info_of("Image:BitsPerPixel"); return v ? atoi(v->c_str()) : 10; }
    int number(const string& ch) const
    {
        for (int i = 1; i <= 12; ++i)
        {
            auto v = info_of(mc::fmt("Channel%d:Name", i));
            if (v && *v == ch) return i;
        }
        return 0;
    }
    bool selectable(const string& ch) const
    {
        auto c = channels.find(ch);
        return c != channels.end() && c->second.raw && c->second.samples.size() && number(ch) && bpp() >= 0 && bpp() <= 16;
    }
};

const char* chnames[] = { "VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV" };

// What an object has to answer: dir (null: not open) and channel (empty: none)
typedef vector<std::pair<string, string>> Answers;

string S(const char* s) { return s ? string("'") + s + "'" : "none"; }
string F(double v) { return mc::fmt("%.6g", (double)(float)v); }

string variable_of(const MDir& d, int n) { auto v = d.info_of(mc::fmt("Channel%d:Variable", n)); return v ? *v : "Undefined"; }
string code_of(const MDir& d, int n, const string& ch)
{
    string var = variable_of(d, n);
    int num = 0;
    for (int i = 0; i < 12; ++i) if (ch == chnames[i]) num = i + 1;
    return var[0] == 'T' ? "T" : var[0] != 'R' ? "U" : num <= 3 ? "V" : "N";
}
float value_of(const MDir& d, int n, const string& ch, int count)
{
    if (count < 0 || count >= (1 << d.bpp())) return 0;
    const MChannel& c = d.channels.find(ch)->second;
    auto v = d.find(c.cal, c.table, mc::fmt("%s:%s(%d)", variable_of(d, n).c_str(), code_of(d, n, ch).c_str(), count));
    return v ? (float)atof(v->c_str()) : 0;
}

bool boolean(const string* v, bool def)
{
    if (!v) return def;
    if (strchr("yYtT1", (*v)[0])) return true;
    if (strchr("nNfF0", (*v)[0])) return false;
    return def;
}

Answers expected(const MDir* d, const string& ch)
{
    Answers a;
    bool ok = d && !ch.empty();
    int n = ok ? d->number(ch) : 0;
    const MChannel* c = ok ? &d->channels.find(ch)->second : nullptr;
    auto add = [&](const char* name, const string& v) { a.push_back({ name, v }); };
    auto aoi = [&](const char* k) { return d->aoi_of(string(":") + k); };
    auto str = [&](const string* v, const char* def) { return S(v ? v->c_str() : def); };
    auto num = [&](const string* v, int def) { return mc::fmt("%d", v ? atoi(v->c_str()) : def); };
    auto dbl = [&](const string* v, double def) { return F(v ? atof(v->c_str()) : def); };
    auto boo = [&](const string* v, bool def) { return mc::fmt("%d", boolean(v, def)); };
    int nv = ok ? c->samples.size() / 2 : 0;
    add("ok", ok ? "1" : "0");
    add("npixels", ok ? num(aoi("nPixels"), nv) : "-1");
    add("nlines", ok ? num(aoi("nLines"), 1) : "-1");
    add("name", ok ? str(aoi("Name"), "Undefined") : "none");
    add("projection", ok ? str(aoi("Projection"), "GRID") : "none");
    for (const char* k : { "CFAC", "LFAC", "COFF", "LOFF" }) add(k, ok ? num(aoi(k), 0) : "0");
    auto info = [&](const char* k) { return d->info_of(k); };
    add("station", ok ? str(info("Station:Name"), "Undefined") : "none");
    add("satellite", ok ? str(info("Satellite:Name"), "Undefined") : "none");
    add("satellite id", ok ? num(info("Satellite:ID"), 0) : "0");
    add("orbit", ok ? num(info("Satellite:Orbit"), 0) : "0");
    add("start", ok ? str(info("Schedule:Start"), "01/01/2000 00:00:00.000") : "none");
    add("end", ok ? str(info("Schedule:End"), "01/01/2000 00:00:00.000") : "none");
    add("elevation", ok ? dbl(info("Schedule:Elevation"), 90) : "0");
    add("northsouth", ok ? boo(info("Schedule:NorthSouth"), false) : "0");
    add("location", ok ? str(info("Schedule:Location"), "OH") : "none");
    add("day", ok ? boo(info("Schedule:Day"), true) : "0");
    add("slot", ok ? str(info("Schedule:Slot"), "HRIT") : "none");
    add("sensor", ok ? str(info("Image:Sensor"), "Seviri") : "none");
    add("pixels", ok ? num(info("Image:Pixels"), nv) : "0");
    add("lines", ok ? num(info("Image:Lines"), 1) : "0");
    add("bits", ok ? num(info("Image:BitsPerPixel"), 10) : "0");
    add("protected", ok ? boo(info("Image:Protected"), false) : "0");
    add("channels", ok ? num(info("Image:nChannels"), 10) : "0");
    add("products", ok ? num(info("Image:nProducts"), 10) : "0");
    auto chan = [&](const char* k) { return d->info_of(mc::fmt("Channel%d:%s", n, k)); };
    add("channel name", ok ? str(chan("Name"), "Undefined") : "none");
    add("channel variable", ok ? str(chan("Variable"), "Undefined") : "none");
    add("channel code", ok ? S(code_of(*d, n, ch).c_str()) : "none");
    add("channel units", ok ? str(chan("Units"), "Undefined") : "none");
    add("channel bits", ok ? num(chan("BitsPerPixel"), 10) : "0");
    add("channel table", ok ? boo(chan("Table"), false) : "0");
    for (const char* k : { "Slope", "TargetCount", "Vc", "A", "B" }) add(k, ok ? dbl(d->find(c->cal, c->table, string("Calibration:") + k), 0) : "0");
    add("size", ok ? mc::fmt("%zu", c->samples.size()) : "0");
    add("values", ok ? mc::fmt("%d", nv) : "0");
    add("ncalibration", ok ? mc::fmt("%d", 1 << d->bpp()) : "0");
    return a;
}

Answers actual(MSG_db1_data& o)
{
    Answers a;
    auto add = [&](const char* name, const string& v) { a.push_back({ name, v }); };
    auto i = [&](long v) { return mc::fmt("%ld", v); };
    add("ok", i(o.is_data_ok()));
    add("npixels", i(o.get_AoI_npixels()));
    add("nlines", i(o.get_AoI_nlines()));
    add("name", S(o.get_AoI_name()));
    add("projection", S(o.get_AoI_projection()));
    add("CFAC", i(o.get_AoI_cfac()));
    add("LFAC", i(o.get_AoI_lfac()));
    add("COFF", i(o.get_AoI_coff()));
    add("LOFF", i(o.get_AoI_loff()));
    add("station", S(o.get_INFO_station_name()));
    add("satellite", S(o.get_INFO_satellite_name()));
    add("satellite id", i(o.get_INFO_satellite_id()));
    add("orbit", i(o.get_INFO_satellite_orbit()));
    add("start", S(o.get_INFO_schedule_start()));
    add("end", S(o.get_INFO_schedule_end()));
    add("elevation", F(o.get_INFO_schedule_elevation()));
    add("northsouth", i(o.get_INFO_schedule_northsouth()));
    add("location", S(o.get_INFO_schedule_location()));
    add("day", i(o.get_INFO_schedule_day()));
    add("slot", S(o.get_INFO_schedule_slot()));
    add("sensor", S(o.get_INFO_image_sensor()));
    add("pixels", i(o.get_INFO_image_pixels()));
    add("lines", i(o.get_INFO_image_lines()));
    add("bits", i(o.get_INFO_image_bitsperpixel()));
    add("protected", i(o.get_INFO_image_protected()));
    add("channels", i(o.get_INFO_image_nchannels()));
    add("products", i(o.get_INFO_image_nproducts()));
    add("channel name", S(o.get_channel_INFO_name()));
    add("channel variable", S(o.get_channel_INFO_variable()));
    add("channel code", S(o.get_channel_INFO_variable_code()));
    add("channel units", S(o.get_channel_INFO_units()));
    add("channel bits", i(o.get_channel_INFO_bitsperpixel()));
    add("channel table", i(o.get_channel_INFO_table()));
    add("Slope", F(o.get_channel_Calibration_Slope()));
    add("TargetCount", F(o.get_channel_Calibration_TargetCount()));
    add("Vc", F(o.get_channel_Calibration_Vc()));
    add("A", F(o.get_channel_Calibration_A()));
    add("B", F(o.get_channel_Calibration_B()));
    add("size", i(o.get_raw_data_size()));
    add("values", i(o.get_raw_data_nvals()));
    add("ncalibration", i(o.get_number_of_calibration()));
    return a;
}

bool compare(MSG_db1_data& o, const MDir* d, const string& ch, const string& what)
{
    Answers want = expected(d, ch), got = actual(o);
    for (unsigned i = 0; i < want.size(); ++i)
        if (want[i] != got[i])
        {
            mc::fail("C24:" + want[i].first, "%s: %s is %s instead of %s", what.c_str(), want[i].first.c_str(), got[i].second.c_str(), want[i].second.c_str());
            return false;
        }
    unsigned short* raw = o.get_RAW_data();
    float* cal = o.get_calibration();
    if (!d || ch.empty())
    {
        if (raw || cal) { mc::fail("C24:left", "%s: there are samples or a calibration of no channel", what.c_str()); return false; }
        if (o.get_channel_Calibration_value_calibrated(1) != 0) { mc::fail("C24:left", "%s: calibrated value of no channel", what.c_str()); return false; }
        return true;
    }
    const MChannel& c = d->channels.find(ch)->second;
    if (!raw || memcmp(raw, c.samples.data(), c.samples.size())) { mc::fail("C24:samples", "%s: the samples are not those of the file", what.c_str()); return false; }
    // Each sample can be accessed
    volatile unsigned sum = 0;
    for (int i = 0; i < o.get_raw_data_nvals(); ++i) sum = sum + raw[i];
    int n = d->number(ch), max = 1 << d->bpp();
    for (int i = 0; i < max; ++i)
        if (!cal || cal[i] != value_of(*d, n, ch, i)) { mc::fail("C24:calibration", "%s: the value of count %d is %g instead of %g", what.c_str(), i, cal ? cal[i] : NAN, value_of(*d, n, ch, i)); return false; }
    for (int i : { -2147483647 - 1, -1, 0, 1, max - 1, max, max + 1, 2147483647 })
        if (o.get_channel_Calibration_value_calibrated(i) != value_of(*d, n, ch, i))
        {
            mc::fail("C24:calibrated-value", "%s: the calibrated value of %d is %g instead of %g", what.c_str(), i, o.get_channel_Calibration_value_calibrated(i), value_of(*d, n, ch, i));
            return false;
        }
    return true;
}

vector<char> C(const string& s) { return vector<char>(s.c_str(), s.c_str() + s.size() + 1); }
void do_open(MSG_db1_data& o, const string& p) { auto v = C(p); o.open(v.data()); }
void do_set(MSG_db1_data& o, const string& c) { auto v = C(c); o.set_channel(v.data()); }
bool do_has(MSG_db1_data& o, const string& c) { auto v = C(c); return o.has_channel(v.data()); }

unsigned open_files()
{
    unsigned n = 0;
    for (int fd = 0; fd < 256; ++fd) if (fcntl(fd, F_GETFD) != -1) ++n;
    return n;
}

// The library tells what it does on standard error
struct Quiet { Quiet() { std::cerr.setstate(std::ios::failbit); } ~Quiet() { std::cerr.clear(); } };

void add_table(MChannel& c, const string& var, const string& code, int from, int to, double scale)
{
    for (int i = from; i < to; ++i) c.cal[mc::fmt("%s:%s(%d)", var.c_str(), code.c_str(), i)] = mc::fmt("%.4f", scale * (i + 1));
}

MDir basic(const string& path, int bpp = 3, unsigned salt = 0)
{
    MDir d;
    d.path = path;
    d.aoi = { { ":nPixels", mc::fmt("%u", 3 + salt) }, { ":nLines", "2" }, { ":Name", mc::fmt("Area%u", salt) }, { ":CFAC", "-13642337" } };
    d.info = { { "Station:Name", "Bologna" }, { "Satellite:ID", "321" }, { "Image:BitsPerPixel", mc::fmt("%d", bpp) } };
    d.info[mc::fmt("Channel%u:Name", 4 + salt)] = "IR_108";
    d.info[mc::fmt("Channel%u:Variable", 4 + salt)] = "Temperature";
    d.info[mc::fmt("Channel%u:Name", 5 + salt)] = "VIS006";
    d.info[mc::fmt("Channel%u:Variable", 5 + salt)] = "Radiance";
    MChannel a, b;
    for (unsigned i = 0; i < 12 + 2 * salt; ++i) a.samples += (char)(i * 17 + salt);
    for (unsigned i = 0; i < 40; ++i) b.samples += (char)(200 - i * 3 + salt);
    a.cal["Calibration:Slope"] = mc::fmt("0.%u", 5 + salt);
    b.cal["Calibration:A"] = mc::fmt("-%u.25", 3 + salt);
    add_table(a, "Temperature", "T", 0, 1 << bpp, 1.5 + salt);
    add_table(b, "Radiance", "V", 0, 1 << bpp, 0.25 + salt);
    d.channels["IR_108"] = a;
    d.channels["VIS006"] = b;
    return d;
}

} // namespace

// Every value, absent and with each value of an alphabet
MC_GROUP(values)
{
    Quiet q;
    struct Key { char file; const char* key; char type; };
    const Key keys[] = {
        { 'A', ":nPixels", 'i' }, { 'A', ":nLines", 'i' }, { 'A', ":Name", 's' }, { 'A', ":Projection", 's' },
        { 'A', ":CFAC", 'i' }, { 'A', ":LFAC", 'i' }, { 'A', ":COFF", 'i' }, { 'A', ":LOFF", 'i' },
        { 'I', "Station:Name", 's' }, { 'I', "Satellite:Name", 's' }, { 'I', "Satellite:ID", 'i' }, { 'I', "Satellite:Orbit", 'i' },
        { 'I', "Schedule:Start", 's' }, { 'I', "Schedule:End", 's' }, { 'I', "Schedule:Elevation", 'd' }, { 'I', "Schedule:NorthSouth", 'b' },
        { 'I', "Schedule:Location", 's' }, { 'I', "Schedule:Day", 'b' }, { 'I', "Schedule:Slot", 's' }, { 'I', "Image:Sensor", 's' },
        { 'I', "Image:Pixels", 'i' }, { 'I', "Image:Lines", 'i' }, { 'I', "Image:Protected", 'b' }, { 'I', "Image:nChannels", 'i' }, { 'I', "Image:nProducts", 'i' },
        { 'I', "Channel4:Units", 's' }, { 'I', "Channel4:BitsPerPixel", 'i' }, { 'I', "Channel4:Table", 'b' }, { 'I', "Channel3:Units", 's' }, { 'I', "Channel5:Table", 'b' },
        { 'C', "Calibration:Slope", 'd' }, { 'C', "Calibration:TargetCount", 'd' }, { 'C', "Calibration:Vc", 'd' }, { 'C', "Calibration:A", 'd' }, { 'C', "Calibration:B", 'd' },
    };
    const vector<string> ints{ "0", "1", "-1", "12", "3712", "65536", "2147483647", "-2147483648", "1000000007" };
    const vector<string> strs{ "x", "Two words", "UPPER lower", "2015-03-04 12:45:00", "a=b", "Channel4:Name" };
    const vector<string> dbls{ "0", "1", "-1", "0.0205", "-0.00317", "90.0", "1e-3", "2569.094", "-51.5" };
    const vector<string> bools{ "yes", "no", "Y", "N", "true", "false", "TRUE", "False", "1", "0" };
    for (auto& k : keys)
    {
        const vector<string>& vals = k.type == 'i' ? ints : k.type == 's' ? strs : k.type == 'd' ? dbls : bools;
        for (unsigned v = 0; v <= vals.size(); ++v) for (int others : { 0, 1 })
        {
            if (!mc::begin("%s %s among %s", k.key, v ? vals[v - 1].c_str() : "absent", others ? "all" : "few")) continue;
            MDir d = basic(mc::work + "/db1");
            if (others) for (auto& o : keys)
            {
                Ini& m = o.file == 'A' ? d.aoi : o.file == 'I' ? d.info : d.channels["IR_108"].cal;
                m[o.key] = o.type == 's' ? "Other" : o.type == 'b' ? "yes" : mc::fmt("%d", (int)(7 + (&o - keys)));
            }
            Ini& m = k.file == 'A' ? d.aoi : k.file == 'I' ? d.info : d.channels["IR_108"].cal;
            m.erase(k.key);
            if (v) m[k.key] = vals[v - 1];
            d.store();
            MSG_db1_data o;
            do_open(o, d.path);
            compare(o, &d, "", "before selecting");
            do_set(o, "IR_108");
            compare(o, &d, "IR_108", mc::fmt("%s %s", k.key, v ? vals[v - 1].c_str() : "absent"));
            std::stringstream text;
            text << o;
            string line = mc::fmt("AoI nPixels      : %d\n", o.get_AoI_npixels());
            if (text.str().find(line) == string::npos) mc::fail("C24:text", "the text has no '%s'", line.c_str());
            mc::count();
            ++mc::sh->states;
        }
    }
    // Files that are missing
    for (int aoi : { 0, 1 }) for (int info : { 0, 1 }) for (int table : { 0, 1 })
    {
        if (!mc::begin("AoI %d INFO %d Calibration %d", aoi, info, table)) continue;
        MDir d = basic(mc::work + "/db1");
        d.has_aoi = aoi; d.has_info = info; d.channels["IR_108"].table = table;
        d.store();
        MSG_db1_data o;
        do_open(o, d.path);
        do_set(o, "IR_108");
        compare(o, &d, info ? "IR_108" : "", mc::fmt("AoI %d INFO %d Calibration %d", aoi, info, table));
        mc::count();
    }
}

// All channels in all places, kinds of variables and numbers of bits
MC_GROUP(calibration)
{
    Quiet q;
    for (unsigned ch = 0; ch < 12; ++ch) for (int place = 1; place <= 13; ++place) for (const char* var : { "Radiance", "Temperature", "Count" })
    {
        if (ch == 11 && *var == 'R') continue;
        if (!mc::begin("%s in place %d as %s", chnames[ch], place, var)) continue;
        MDir d;
        d.path = mc::work + "/db1";
        d.info["Image:BitsPerPixel"] = "4";
        for (int i = 1; i <= 13; ++i)
        {
            d.info[mc::fmt("Channel%d:Name", i)] = i == place ? chnames[ch] : mc::fmt("X%d", i);
            d.info[mc::fmt("Channel%d:Variable", i)] = i == place ? var : "Other";
            d.info[mc::fmt("Channel%d:Units", i)] = mc::fmt("unit%d", i);
        }
        MChannel c;
        c.samples = string("\1\0\2\0\3\0", 6);
        for (const char* code : { "V", "N", "T", "U" }) add_table(c, var, code, 0, 16, 1 + code[0]);
        d.channels[chnames[ch]] = c;
        d.store();
        MSG_db1_data o;
        do_open(o, d.path);
        do_set(o, chnames[ch]);
        compare(o, &d, place <= 12 ? chnames[ch] : "", mc::fmt("%s in place %d as %s", chnames[ch], place, var));
        auto name = C(chnames[ch]);
        if (o.chname_to_chnum(name.data()) != (int)ch + 1) mc::fail("C24:number", "%s is channel %d", chnames[ch], o.chname_to_chnum(name.data()));
        mc::count();
        ++mc::sh->states;
        mc::sample("%s in place %d as %s", chnames[ch], place, var);
    }
    for (const char* bits : { "absent", "0", "1", "2", "7", "8", "10", "12", "16", "-1", "17", "31", "32", "64", "2000000000", "-2147483648" })
        for (int part = 0; part < 3; ++part)
        {
            if (!mc::begin("%s bits, table %d", bits, part)) continue;
            if (atoi(bits) > 10 && atoi(bits) < 17 && part == 1 && !mc::thorough) continue;
            MDir d = basic(mc::work + "/db1");
            d.info["Image:BitsPerPixel"] = bits;
            if (!strcmp(bits, "absent")) d.info.erase("Image:BitsPerPixel");
            MChannel& c = d.channels["IR_108"];
            c.cal.clear();
            // A part of the table, more than the table, or none
            int n = atoi(bits) > 8 ? 300 : 5;
            if (part == 0) add_table(c, "Temperature", "T", 2, n, 2);
            if (part == 1) add_table(c, "Temperature", "T", -2, atoi(bits) > 8 ? 1030 : 300, 3);
            d.store();
            int rc = mc::isolated([&] {
                MSG_db1_data o;
                do_open(o, d.path);
                do_set(o, "IR_108");
                return compare(o, &d, d.selectable("IR_108") ? "IR_108" : "", mc::fmt("%s bits", bits)) ? 0 : 1;
            }, 60);
            if (rc > 1) mc::fail("C24:bits", "%s bits: %s", bits, mc::outcome(rc).c_str());
            mc::count();
            ++mc::sh->states;
        }
}

// Samples of all small sizes, and files that have none
MC_GROUP(samples)
{
    Quiet q;
    for (unsigned size = 0; size <= (mc::thorough ? 600u : 70u); ++size) for (int salt : { 0, 1 })
    {
        if (!mc::begin("%u bytes of samples, pattern %d", size, salt)) continue;
        MDir d = basic(mc::work + "/db1");
        d.aoi.erase(":nPixels");
        MChannel& c = d.channels["IR_108"];
        c.samples.clear();
        for (unsigned i = 0; i < size; ++i) c.samples += (char)(i * 29 + salt * 128 + i / 256);
        d.store();
        MSG_db1_data o;
        do_open(o, d.path);
        do_set(o, "IR_108");
        compare(o, &d, size ? "IR_108" : "", mc::fmt("%u bytes of samples", size));
        mc::count();
        ++mc::sh->states;
    }
    for (unsigned size : { 4096u, 65536u, 100001u, 3712u * 40u })
    {
        if (!mc::begin("%u bytes of samples", size)) continue;
        MDir d = basic(mc::work + "/db1");
        MChannel& c = d.channels["IR_108"];
        c.samples.clear();
        for (unsigned i = 0; i < size; ++i) c.samples += (char)(i * 29 + i / 256);
        d.store();
        MSG_db1_data o;
        do_open(o, d.path);
        do_set(o, "IR_108");
        compare(o, &d, "IR_108", mc::fmt("%u bytes of samples", size));
        mc::count();
    }
    // A directory in place of the samples
    mc::begin("directory of samples");
    unsigned before = open_files();
    MDir d = basic(mc::work + "/db1");
    d.channels["IR_108"].raw = false;
    d.store();
    mc::make_dirs(d.path + "/IR_108.RAW");
    MSG_db1_data o;
    do_open(o, d.path);
    do_set(o, "VIS006");
    do_set(o, "IR_108");
    compare(o, &d, "", "a directory in place of the samples");
    do_set(o, "VIS006");
    if (open_files() != before) mc::fail("C24:open-files", "%u files are left open", open_files() - before);
    mc::count();
    // Long names
    for (unsigned len : { 100, 250, 255, 4000, 4090, 4096, 5000, 20000 })
    {
        if (!mc::begin("names of %u characters", len)) continue;
        MSG_db1_data p;
        do_open(p, d.path);
        if (do_has(p, string(len, 'n'))) mc::fail("C24:long-name", "a channel of %u characters is there", len);
        do_set(p, string(len, 'n'));
        compare(p, &d, "", mc::fmt("a channel of %u characters", len));
        do_open(p, mc::work + "/" + string(len, 'd'));
        if (do_has(p, "IR_108")) mc::fail("C24:long-name", "a directory of %u characters is there", len);
        do_set(p, "IR_108");
        compare(p, nullptr, "", mc::fmt("a directory of %u characters", len));
        mc::count();
    }
}

// All histories of operations on an object
MC_GROUP(histories)
{
    Quiet q;
    MDir one = basic(mc::work + "/one", 3, 0), two = basic(mc::work + "/two", 2, 3), none;
    none.path = mc::work + "/none";
    // In the first: a channel that is not in INFO, one without samples, one without table
    MChannel u; u.samples = "abcdefgh"; u.cal["Calibration:B"] = "5";
    one.channels["WV_062"] = u;
    MChannel e; e.cal["Calibration:B"] = "7";
    one.info["Channel9:Name"] = "WV_073";
    one.channels["WV_073"] = e;
    two.channels["VIS006"].table = false;
    one.store();
    two.store();
    struct Op { const char* name; char op; const MDir* dir; const char* ch; };
    const Op ops[] = {
        { "open one", 'o', &one, "" }, { "open two", 'o', &two, "" }, { "open none", 'o', &none, "" }, { "close", 'c', nullptr, "" },
        { "select IR_108", 's', nullptr, "IR_108" }, { "select VIS006", 's', nullptr, "VIS006" }, { "select WV_062 (not listed)", 's', nullptr, "WV_062" },
        { "select WV_073 (empty)", 's', nullptr, "WV_073" }, { "select HRV (missing)", 's', nullptr, "HRV" },
        { "has VIS006", 'h', nullptr, "VIS006" }, { "has HRV", 'h', nullptr, "HRV" },
    };
    const unsigned nops = sizeof(ops) / sizeof(ops[0]);
    std::set<string> states;
    mc::all_sequences(mc::thorough ? 5 : 4, nops, [&](const vector<unsigned>& seq) {
        string name;
        for (unsigned k : seq) name += string(name.empty() ? "" : ", ") + ops[k].name;
        if (!mc::begin("%s", name.c_str())) return;
        MSG_db1_data o;
        const MDir* dir = nullptr;
        string ch;
        for (unsigned i = 0; i < seq.size(); ++i)
        {
            const Op& op = ops[seq[i]];
            ++mc::sh->transitions;
            if (op.op == 'o') { do_open(o, op.dir->path); dir = op.dir; ch = ""; }
            else if (op.op == 'c') { o.close(); dir = nullptr; ch = ""; }
            else if (op.op == 's') { do_set(o, op.ch); ch = dir && dir->selectable(op.ch) ? op.ch : ""; }
            else
            {
                bool want = dir && dir->channels.count(op.ch) && dir->channels.find(op.ch)->second.raw;
                if (do_has(o, op.ch) != want) { mc::fail("C24:has-channel", "%s: operation %u", name.c_str(), i + 1); return; }
            }
            states.insert((dir ? dir->path : "") + "/" + ch);
            // Shorter histories are the beginning of others
            if (i + 1 < seq.size()) { if (o.is_data_ok() != !ch.empty()) break; }
        }
        compare(o, dir, ch, name);
        mc::count();
        ++mc::sh->traces;
    });
    mc::sh->states += states.size();
}
