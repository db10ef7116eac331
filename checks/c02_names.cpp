// C02: xRIT name forms and the files they select, against a model that parses
// file names, over complete populations of near misses.
#include "mc.hpp"
#include "enumerate.hpp"
#include "synth.hpp"
#include <msat/xrit/fileaccess.h>
#include <algorithm>
#include <sys/stat.h>

using namespace msat::xrit;
using std::string;
using std::vector;

namespace {

string pad(string s, size_t n) { if (s.size() < n) s.resize(n, '_'); return s; }
string rtrim(string s) { while (!s.empty() && s.back() == '_') s.pop_back(); return s; }

struct File { string res, num, sat, p1, p2, part, time, end; };
string name_of(const File& f)
{ return f.res + "-" + f.num + "-" + pad(f.sat, 6) + "-" + pad(f.p1, 12) + "-" + pad(f.p2, 9) + "-" + pad(f.part, 9) + "-" + f.time + "-" + f.end; }

struct Query { string res, p1, p2, time; };
bool same(const Query& q, const File& f) { return q.res == f.res && rtrim(q.p1) == rtrim(f.p1) && q.time == f.time; }

struct Selection { vector<string> pro, epi, segs; };
Selection select(const vector<File>& files, const Query& q)
{
    Selection r;
    for (auto& f : files)
    {
        if (!same(q, f)) continue;
        if (f.end == "__" && rtrim(f.p2).empty() && rtrim(f.part) == "PRO") r.pro.push_back(name_of(f));
        if (f.end == "__" && rtrim(f.p2).empty() && rtrim(f.part) == "EPI") r.epi.push_back(name_of(f));
        if (f.end == "C_" && rtrim(f.p2) == rtrim(q.p2) && isdigit(f.part[0])) r.segs.push_back(name_of(f));
    }
    std::sort(r.segs.begin(), r.segs.end());
    return r;
}

bool same_file(const string& a, const string& b)
{
    struct stat x, y;
    return stat(a.c_str(), &x) == 0 && stat(b.c_str(), &y) == 0 && x.st_ino == y.st_ino && x.st_dev == y.st_dev;
}

string base(const string& p) { size_t n = p.rfind('/'); return n == string::npos ? p : p.substr(n + 1); }

/// Compare what the library finds for a name with the model
void check(const string& name, const string& realdir, const vector<File>& files, const Query& q, const char* what)
{
    Selection want = select(files, q);
    mc::count(want.segs.size() + want.pro.size() + want.epi.size() > 0);
    string key = mc::fmt("%s %s:%s:%s:%s", what, q.res.c_str(), q.p1.c_str(), q.p2.c_str(), q.time.c_str());
    if (!isValid(name)) { mc::fail(key, "the name %s is not recognised", name.c_str()); return; }
    FileAccess fa;
    try { fa = FileAccess(name); }
    catch (std::exception& e) { mc::fail(key, "the name %s is rejected: %s", name.c_str(), e.what()); return; }
    auto one = [&](const char* kind, const vector<string>& w, std::function<string()> get) {
        string got;
        bool failed = false;
        try { got = get(); } catch (std::exception&) { failed = true; }
        if (w.size() == 1)
        {
            if (failed) mc::fail(key, "%s of %s is not found, it is %s", kind, name.c_str(), w[0].c_str());
            else if (base(got) != w[0] || !same_file(got, realdir + "/" + w[0])) mc::fail(key, "%s of %s is %s instead of %s", kind, name.c_str(), got.c_str(), w[0].c_str());
        }
        else if (!failed) mc::fail(key, "%s of %s is %s, although there are %zu", kind, name.c_str(), got.c_str(), w.size());
    };
    one("the prologue", want.pro, [&] { return fa.prologueFile(); });
    one("the epilogue", want.epi, [&] { return fa.epilogueFile(); });
    vector<string> got;
    bool failed = false;
    try { got = fa.segmentFiles(); } catch (std::exception&) { failed = true; }
    if (want.segs.empty() ? !failed : failed) { mc::fail(key, "segments of %s: %s, there are %zu", name.c_str(), failed ? "an error" : "no error", want.segs.size()); return; }
    vector<string> names;
    for (auto& g : got)
    {
        names.push_back(base(g));
        if (!same_file(g, realdir + "/" + base(g))) mc::fail(key, "segment %s of %s is not in %s", g.c_str(), name.c_str(), realdir.c_str());
    }
    std::sort(names.begin(), names.end());
    if (names != want.segs)
    {
        string d;
        for (auto& n : names) d += " " + n;
        mc::fail(key, "segments of %s: found%s, there are %zu", name.c_str(), d.c_str(), want.segs.size());
    }
}

void populate(const string& dir, const vector<File>& files)
{
    mc::make_dirs(dir);
    for (auto& f : files) mc::write_file(dir + "/" + name_of(f), "");
}

// The forms of a name in a directory
vector<string> forms(const string& prefix, const Query& q, unsigned seg)
{
    vector<string> r;
    r.push_back(prefix + q.res + ":" + q.p1 + ":" + q.p2 + ":" + q.time);
    r.push_back(prefix + q.res + ":" + pad(q.p1, 12) + ":" + pad(q.p2, 9) + ":" + q.time);
    r.push_back(prefix + q.res + ":" + pad(q.p1, 12) + ":" + q.p2 + ":" + q.time);
    File f{q.res, "000", "MSG1", q.p1, q.p2, mc::fmt("%06u", seg), q.time, "C_"};
    r.push_back(prefix + name_of(f));
    f.num = "999"; f.sat = "XXXXXX";       // parts that do not take part in the identity
    r.push_back(prefix + name_of(f));
    return r;
}

const vector<string> RES{"H", "L"}, P1{"MSG1", "MSG2", "MSG1_RSS", "MSG", "MSG1_RSS_LONG"}, P2{"IR_108", "IR_10", "HRV", "VIS006", "IR_108_XX"}, TIME{"200611141200", "200611141215", "20061114120", "200711141200"};

}

// Every identity against a directory that holds all identities
static void cross(unsigned part)
{
    vector<File> files;
    for (auto& r : RES)
        for (auto& p1 : P1)
            for (auto& t : TIME)
            {
                if (p1.size() > 12) continue;      // cannot be a file
                files.push_back({r, "000", "MSG1", p1, "", "PRO", t, "__"});
                files.push_back({r, "000", "MSG1", p1, "", "EPI", t, "__"});
                for (auto& p2 : P2)
                {
                    for (unsigned s : {1u, 2u, 24u}) files.push_back({r, "000", "MSG1", p1, p2, mc::fmt("%06u", s), t, "C_"});
                    // not decompressed, and other parts
                    files.push_back({r, "000", "MSG1", p1, p2, "000003", t, "__"});
                    files.push_back({r, "000", "MSG1", p1, p2, "000003", t, "CE"});
                    files.push_back({r, "000", "MSG1", p1, p2, "PRO", t, "__"});
                    files.push_back({r, "000", "MSG1", p1, p2, "PRO", t, "C_"});
                }
                files.push_back({r, "000", "MSG1", p1, "", "PRO", t, "C_"});
                files.push_back({r, "000", "MSG1", p1, "", "PRO2", t, "__"});
            }
    string dir = mc::work + "/cross";
    populate(dir, files);
    unsigned n = 0;
    for (auto& r : RES)
        for (auto& p1 : P1)
            for (auto& p2 : {"IR_108", "IR_10", "HRV", "VIS006", "IR_108_XX", "IR_1", "IR_108_XXY", "IR_108___X", "HRV______"})
                for (auto& t : {"200611141200", "200611141215", "20061114120", "200711141200", "2006", ""})
                {
                    if (n++ % 2 != part) continue;
                    Query q{r, p1, p2, t};
                    if (string(t).empty()) continue;
                    for (auto& name : forms(dir + "/", q, 1))
                    {
                        if (!mc::begin("cross %s", base(name).c_str())) continue;
                        // a long name pads to the field width: over-long identities only fit the short form
                        if (name.find(':') == string::npos && (p1.size() > 12 || strlen(p2) > 9)) continue;
                        check(name, dir, files, q, "cross");
                    }
                }
    mc::sample("a directory of %zu files: every identity finds its own", files.size());
}
MC_GROUP(cross_0) { cross(0); }
MC_GROUP(cross_1) { cross(1); }

// Every subset of a small population: missing and doubled parts
MC_GROUP(populations)
{
    Query q{"H", "MSG1", "HRV", "200611141200"};
    vector<File> pool{
        {"H", "000", "MSG1", "MSG1", "", "PRO", q.time, "__"},
        {"H", "000", "MSG2", "MSG1", "", "PRO", q.time, "__"},     // the same image from another disseminating satellite
        {"H", "000", "MSG1", "MSG1", "", "EPI", q.time, "__"},
        {"H", "001", "MSG1", "MSG1", "", "EPI", q.time, "__"},
        {"H", "000", "MSG1", "MSG1", "HRV", "000001", q.time, "C_"},
        {"H", "000", "MSG1", "MSG1", "HRV", "000024", q.time, "C_"},
        {"H", "000", "MSG1", "MSG1", "HRV_X", "000001", q.time, "C_"},
        {"H", "000", "MSG1", "MSG2", "", "PRO", q.time, "__"},
        {"H", "000", "MSG1", "MSG1", "", "EPI", "200611141215", "__"},
        {"L", "000", "MSG1", "MSG1", "HRV", "000001", q.time, "C_"}};
    for (unsigned mask = 0; mask < (1u << pool.size()); ++mask)
    {
        if (!mc::begin("population %03x", mask)) continue;
        string dir = mc::work + "/pop";
        vector<File> files;
        for (unsigned i = 0; i < pool.size(); ++i)
            if (mask >> i & 1) files.push_back(pool[i]);
        populate(dir, files);
        for (auto& name : forms(dir + "/", q, 1)) check(name, dir, files, q, mc::fmt("population-%03x", mask).c_str());
        mc::clean(dir);
    }
    mc::sample("all 1024 subsets of 10 files");
}

// Directory forms
MC_GROUP(directories)
{
    Query q{"H", "MSG1", "HRV", "200611141200"};
    vector<File> files{{"H", "000", "MSG1", "MSG1", "", "PRO", q.time, "__"}, {"H", "000", "MSG1", "MSG1", "", "EPI", q.time, "__"},
                       {"H", "000", "MSG1", "MSG1", "HRV", "000001", q.time, "C_"}, {"H", "000", "MSG1", "MSG1", "HRV", "000002", q.time, "C_"}};
    vector<File> other = files;
    if (chdir(mc::work.c_str())) return;
    // directories whose names contain significant characters, next to those they could be taken for
    const char* names[] = {"d", "with blank", "a:b", "a:b:c:d", "H-000-MSG1__-MSG1________-HRV______-000001___-200611141200", "x-C_", "[ab]", "*", "?", "a*", "back\\slash", "{a,b}", "~", "a", "b", "$x", ".hid", "..."};
    for (auto n : names)
    {
        populate(string("dirs/") + n, files);
        populate(string("dirs/") + n + "/sub", files);
    }
    string root = mc::work + "/dirs";
    if (chdir("dirs")) return;
    for (auto n : names)
    {
        string d = n;
        for (string prefix : {d + "/", "./" + d + "/", d + "//", d + "/./", root + "/" + d + "/", d + "/sub/../", d + "/sub/", "../dirs/" + d + "/"})
        {
            string real = root + "/" + d + (prefix == d + "/sub/" ? "/sub" : "");
            for (auto& name : forms(prefix, q, 2))
            {
                if (!mc::begin("directory %s", name.c_str())) continue;
                check(name, real, files, q, "directory");
            }
        }
    }
    // current directory
    if (chdir("d")) return;
    for (string prefix : {"", "./", "../d/", "sub/../"})
        for (auto& name : forms(prefix, q, 2))
        {
            if (!mc::begin("directory %s in d", name.c_str())) continue;
            check(name, root + "/d", files, q, "cwd");
        }
    // other channels of the same image
    for (const char* chan : {"HRV", "HRV______", "IR_108"})
    {
        if (!mc::begin("channel %s of an image", chan)) continue;
        FileAccess fa(FileAccess("./H:MSG1:IR_108:200611141200"), chan);
        vector<string> segs;
        try { segs = fa.segmentFiles(); } catch (std::exception&) {}
        size_t want = string(chan).substr(0, 3) == "HRV" ? 2 : 0;
        mc::count();
        if (segs.size() != want) mc::fail(mc::fmt("channel %s", chan), "%zu segments instead of %zu", segs.size(), want);
    }
    if (chdir("/")) return;
    mc::sample("18 directory names x 8 ways to write them x 5 name forms");
}

// Names of neither form, over all strings of significant characters
static bool long_form(const string& b)
{ return b.size() >= 3 && b.substr(b.size() - 3) == "-C_" && std::count(b.begin(), b.end(), '-') >= 7; }
static bool short_form(const string& b) { return std::count(b.begin(), b.end(), ':') >= 3; }

static void judge(const string& s, const char* what)
{
    string b = base(s);
    bool good = long_form(b) || (short_form(b) && !(b.size() >= 3 && b.substr(b.size() - 3) == "-C_"));
    mc::count(good);
    bool valid = isValid(s), parsed = false;
    FileAccess fa;
    if (valid)
        try { fa = FileAccess(s); parsed = true; } catch (std::exception&) {}
    if (parsed != good) { mc::fail(mc::fmt("%s %s", what, mc::show(s).c_str()), "the name \"%s\" is %s", s.c_str(), parsed ? "accepted" : "rejected"); return; }
    // also without asking first
    bool p2 = false;
    try { FileAccess f2(s); p2 = true; } catch (std::exception&) {}
    if (p2 != good) { mc::fail(mc::fmt("%s %s", what, mc::show(s).c_str()), "the name \"%s\" is %s", s.c_str(), p2 ? "parsed" : "not parsed"); return; }
    if (!good) return;
    // the fields
    vector<string> f(1);
    char sep = long_form(b) ? '-' : ':';
    for (char c : b)
        if (c == sep && (sep == '-' || f.size() < 4)) f.push_back("");
        else f.back() += c;
    string res = f[0], p1, p2f, t;
    if (sep == '-') { p1 = f[3]; p2f = f[4]; t = f[6]; if (f.size() > 8) return; }
    else { p1 = f[1]; p2f = f[2]; t = f[3]; }
    if (fa.resolution != res || rtrim(fa.productid1) != rtrim(p1) || rtrim(fa.productid2) != rtrim(p2f) || rtrim(fa.timing) != rtrim(t))
        mc::fail(mc::fmt("%s %s", what, mc::show(s).c_str()), "the name \"%s\" is read as %s", s.c_str(), fa.toString().c_str());
}
MC_GROUP(strings)
{
    mc::all_strings(":/-_aC", mc::thorough ? 8 : 7, [](const string& s) {
        static unsigned n = 0;
        if (n++ % 256 == 0 || !mc::only_case.empty())
            if (!mc::begin("string %s", mc::show(s).c_str())) return;
        judge(s, "string");
    });
    mc::sample("all strings up to length %d over \":/-_aC\"", mc::thorough ? 8 : 7);
}
MC_GROUP(long_names)
{
    // every way to fill, shorten or drop the fields of a long name
    const vector<vector<string>> fields{{"H", ""}, {"000", ""}, {"MSG1__", "______", ""}, {"MSG1________", "____________", "MSG1", ""}, {"HRV______", "_________", "IR_108___", "x", ""}, {"000018___", ""}, {"200611141200", "2006________", ""}, {"C_", "C", "__", ""}};
    vector<unsigned> idx(8, 0);
    std::function<void(unsigned, string)> rec = [&](unsigned i, string s) {
        if (i == 8)
        {
            for (auto& pre : {"", "/", "d/", "a-b/"})
            {
                if (!mc::begin("long name %s%s", pre, s.c_str())) continue;
                judge(pre + s, "long-name");
            }
            return;
        }
        for (auto& v : fields[i]) rec(i + 1, s + (i ? "-" : "") + v);
        if (i) rec(i + 1, s);         // field missing altogether
    };
    rec(0, "");
    mc::sample("all ways to fill, empty or drop the 8 fields of a long name");
}
