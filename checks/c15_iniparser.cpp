// C15: the ini dictionary against a map, over all operation sequences up to a
// depth, over all small files of a line grammar, and over save/reload.
#include "mc.hpp"
#include "enumerate.hpp"
#include <msat/iniparser.h>
#include <algorithm>
#include <deque>

using std::string;
using std::vector;

namespace {

struct Val { bool null; string s; bool operator==(const Val& o) const { return null == o.null && s == o.s; } };
typedef std::map<string, Val> Model;    // lower case key -> value

string lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

dictionary* load(const string& text)
{
    string f = mc::work + "/f.ini";
    mc::write_file(f, text);
    return iniparser_new((char*)f.c_str());
}

struct Dict
{
    dictionary* d;
    explicit Dict(const string& text = "") : d(load(text)) {}
    explicit Dict(dictionary* x) : d(x) {}
    ~Dict() { if (d) iniparser_free(d); }
};

string dump(dictionary* d)
{
    char* buf = nullptr; size_t n = 0;
    FILE* f = open_memstream(&buf, &n);
    iniparser_dump(d, f);
    fclose(f);
    string s(buf, n);
    free(buf);
    return s;
}
string dump_ini(dictionary* d)
{
    char* buf = nullptr; size_t n = 0;
    FILE* f = open_memstream(&buf, &n);
    iniparser_dump_ini(d, f);
    fclose(f);
    string s(buf, n);
    free(buf);
    return s;
}

char* C(const string& s) { return (char*)s.c_str(); }

int ref_int(const string& s) { return atoi(s.c_str()); }

// Compare every lookup with the model. keys: the keys to ask for
void compare(dictionary* d, const Model& m, const vector<string>& keys, const string& hist)
{
    string def = "the default";
    for (const auto& k : keys)
    {
        auto i = m.find(lower(k));
        bool found = i != m.end();
        bool null = found && i->second.null;
        char* got = iniparser_getstring(d, C(k), C(def));
        char* got2 = iniparser_getstr(d, C(k));
        if (!found)
        {
            if (got != def.c_str()) mc::fail("getstring default", "after %s: key [%s] is not there but getstring gives [%s]", hist.c_str(), k.c_str(), got ? got : "NULL");
            if (got2) mc::fail("getstr default", "after %s: key [%s] is not there but getstr gives [%s]", hist.c_str(), k.c_str(), got2);
        } else if (null) {
            if (got || got2) mc::fail("getstring null", "after %s: key [%s] has no value but gives [%s]", hist.c_str(), k.c_str(), got ? got : "NULL");
        } else {
            if (!got || i->second.s != got) mc::fail("getstring value", "after %s: key [%s] gives [%s] instead of [%s]", hist.c_str(), k.c_str(), got ? got : "NULL", i->second.s.c_str());
            if (!got2 || i->second.s != got2) mc::fail("getstr value", "after %s: key [%s] gives [%s] instead of [%s]", hist.c_str(), k.c_str(), got2 ? got2 : "NULL", i->second.s.c_str());
        }
        if (!!iniparser_find_entry(d, C(k)) != found)
            mc::fail("find_entry", "after %s: find_entry(%s) is %d", hist.c_str(), k.c_str(), !found);
        bool val = found && !null;
        int wi = val ? ref_int(i->second.s) : -77;
        if (iniparser_getint(d, C(k), -77) != wi)
            mc::fail("getint", "after %s: getint(%s) is %d instead of %d", hist.c_str(), k.c_str(), iniparser_getint(d, C(k), -77), wi);
        double wd = val ? strtod(i->second.s.c_str(), nullptr) : -7.5;
        if (iniparser_getdouble(d, C(k), -7.5) != wd)
            mc::fail("getdouble", "after %s: getdouble(%s) is %g instead of %g", hist.c_str(), k.c_str(), iniparser_getdouble(d, C(k), -7.5), wd);
        char c0 = val && !i->second.s.empty() ? i->second.s[0] : 0;
        int wb = c0 && strchr("yY1tT", c0) ? 1 : c0 && strchr("nN0fF", c0) ? 0 : 42;
        if (iniparser_getboolean(d, C(k), 42) != wb)
            mc::fail("getboolean", "after %s: getboolean(%s) is %d instead of %d", hist.c_str(), k.c_str(), iniparser_getboolean(d, C(k), 42), wb);
    }
    // Sections: entries without a colon, each listed once
    vector<string> want, got;
    for (const auto& i : m) if (i.first.find(':') == string::npos) want.push_back(i.first);
    int n = iniparser_getnsec(d);
    if (n != (int)want.size()) mc::fail("getnsec", "after %s: %d sections instead of %zu", hist.c_str(), n, want.size());
    for (int i = 0; i < n; ++i)
    {
        char* s = iniparser_getsecname(d, i);
        got.push_back(s ? s : "NULL");
    }
    std::sort(got.begin(), got.end());
    if (got != want) mc::fail("getsecname", "after %s: the section names differ", hist.c_str());
    if (iniparser_getsecname(d, n) != nullptr || iniparser_getsecname(d, -1) != nullptr)
        mc::fail("getsecname range", "after %s: a section is returned outside 0..%d", hist.c_str(), n - 1);
    // Complete contents
    vector<string> lw, lg;
    for (const auto& i : m)
        lw.push_back("[" + i.first + "]=" + (i.second.null ? string("UNDEF") : "[" + i.second.s + "]"));
    string t = dump(d), line;
    for (char c : t) if (c == '\n') { lg.push_back(line); line.clear(); } else line += c;
    std::sort(lw.begin(), lw.end());
    std::sort(lg.begin(), lg.end());
    if (lw != lg) mc::fail("contents", "after %s: the contents are %s", hist.c_str(), t.c_str());
    mc::count(!m.empty());
}

struct Op { bool set; string key; bool null; string val; };
string show(const Op& o)
{
    if (!o.set) return "unset(" + o.key + ")";
    return "set(" + o.key + "," + (o.null ? "NULL" : o.val) + ")";
}
void apply(dictionary* d, Model& m, const Op& o)
{
    if (o.set)
    {
        iniparser_setstr(d, C(o.key), o.null ? nullptr : C(o.val));
        m[lower(o.key)] = Val{o.null, o.null ? "" : o.val};
    } else {
        iniparser_unset(d, C(o.key));
        m.erase(lower(o.key));
    }
}

// The published one-at-a-time hash, used only to choose keys that collide
unsigned hash(const string& k)
{
    unsigned h = 0;
    for (char c : k) { h += (unsigned)(int)c; h += h << 10; h ^= h >> 6; }
    h += h << 3; h ^= h >> 11; h += h << 15;
    return h;
}
const vector<std::pair<string, string>>& collisions()
{
    static vector<std::pair<string, string>> res;
    if (res.empty())
    {
        std::map<unsigned, string> seen;
        mc::all_sequences(4, 26, [&](const vector<unsigned>& v) {
            if (res.size() >= 6) return;
            string s = "s:";
            for (unsigned c : v) s += (char)('a' + c);
            auto r = seen.insert(std::make_pair(hash(s), s));
            if (!r.second) res.push_back(std::make_pair(r.first->second, s));
        });
    }
    return res;
}

}

// All sequences of operations up to a depth, no state merged
MC_GROUP(all_sequences)
{
    auto col = collisions();
    vector<Op> ops;
    for (const char* k : {"a", "A:X", "a:x", ""})
    {
        ops.push_back(Op{true, k, true, ""});
        ops.push_back(Op{true, k, false, "Yes"});
        ops.push_back(Op{false, k, false, ""});
    }
    ops.push_back(Op{true, "a:y", false, "12"});
    for (auto& k : {col[0].first, col[0].second})
    {
        ops.push_back(Op{true, k, false, "no"});
        ops.push_back(Op{false, k, false, ""});
    }
    vector<string> keys{"a", "A", "a:x", "A:X", "a:X", "a:y", "", "b", ":", "a:", "a:xx", col[0].first, col[0].second, col[1].first};
    mc::sample("colliding keys %s and %s", col[0].first.c_str(), col[0].second.c_str());
    unsigned depth = mc::thorough ? 5 : 4;
    for (unsigned n = 0; n <= depth; ++n)
        mc::all_sequences(n, ops.size(), [&](const vector<unsigned>& v) {
            string hist;
            for (unsigned i : v) hist += show(ops[i]) + " ";
            if (!mc::begin("ops %s", hist.c_str())) return;
            static string empty;
            if (empty.empty()) { empty = mc::work + "/empty.ini"; mc::write_file(empty, ""); }
            Dict d(iniparser_new(C(empty)));
            Model m;
            for (unsigned i : v) { apply(d.d, m, ops[i]); ++mc::sh->transitions; }
            compare(d.d, m, keys, hist);
            ++mc::sh->traces;
        });
}

// Breadth-first search of the states reachable with more keys and values; the
// state is the observable contents with its order
MC_GROUP(reachable_states)
{
    auto col = collisions();
    vector<Op> ops;
    vector<string> k1{"s", "S:One", "s:two", "t", "T:one", col[1].first, col[1].second};
    for (auto& k : k1)
    {
        ops.push_back(Op{true, k, false, "1"});
        ops.push_back(Op{false, k, false, ""});
    }
    ops.push_back(Op{true, "s:ONE", false, "-2.5"});
    ops.push_back(Op{true, "s", true, ""});
    vector<string> keys = k1;
    for (auto k : {"", "s:one", "S:TWO", "t:one", "t:two", "u"}) keys.push_back(k);
    std::set<string> seen;
    std::deque<vector<unsigned>> todo;
    todo.push_back({});
    seen.insert("");
    unsigned max_states = mc::thorough ? 40000 : 6000;
    unsigned depth_done = 0;
    bool capped = false;
    while (!todo.empty())
    {
        auto h = todo.front();
        todo.pop_front();
        depth_done = h.size();
        for (unsigned o = 0; o < ops.size(); ++o)
        {
            auto h2 = h;
            h2.push_back(o);
            string hist;
            for (unsigned i : h2) hist += show(ops[i]) + " ";
            if (!mc::begin("bfs %s", hist.c_str())) continue;
            Dict d("");
            Model m;
            for (unsigned i : h2) apply(d.d, m, ops[i]);
            compare(d.d, m, keys, hist);
            ++mc::sh->transitions;
            ++mc::sh->traces;
            string key = dump(d.d);
            if (seen.size() < max_states)
            {
                if (seen.insert(key).second) todo.push_back(h2);
            } else capped = true;
        }
        if (capped) break;
    }
    mc::sh->states += seen.size();
    mc::sample("%zu states, %s at depth %u", seen.size(), capped ? "bound on states reached" : "closed", depth_done);
}

// The table grows at 128, 256, ... entries: fill to every size around these,
// then remove and set again around the boundary
MC_GROUP(growth)
{
    vector<unsigned> sizes;
    for (unsigned s : {1u, 127u, 128u, 129u, 130u, 255u, 256u, 257u, 258u, 300u}) sizes.push_back(s);
    if (mc::thorough) for (unsigned s : {511u, 512u, 513u, 600u}) sizes.push_back(s);
    for (unsigned n : sizes)
        for (unsigned removed : {0u, 1u, 2u, 3u})
            for (unsigned pos = 0; pos < n; pos += (n > 140 && !mc::thorough ? 17 : 9))
                for (int sections = 0; sections < 2; ++sections)
                {
                    if (!mc::begin("fill %u, remove %u at %u, set again, %s", n, removed, pos, sections ? "sections" : "one section")) continue;
                    Dict d("");
                    Model m;
                    vector<string> keys{"none", ""};
                    for (unsigned i = 0; i < n; ++i)
                    {
                        string k = sections ? mc::fmt("Sec%u", i) : mc::fmt("s:K%u", i);
                        keys.push_back(k);
                        apply(d.d, m, Op{true, k, sections != 0, sections ? "" : mc::fmt("%u", i)});
                    }
                    for (unsigned i = 0; i < removed && pos + i < n; ++i)
                        apply(d.d, m, Op{false, keys[2 + pos + i], false, ""});
                    for (unsigned i = 0; i <= removed; ++i)
                    {
                        string k = mc::fmt("s:new%u", i);
                        keys.push_back(k);
                        apply(d.d, m, Op{true, k, false, "n" + k});
                        if (i == 0) apply(d.d, m, Op{true, keys[2], false, "again"});
                    }
                    compare(d.d, m, keys, "the filling");
                    ++mc::sh->transitions;
                    ++mc::sh->traces;
                }
    mc::sample("tables of 1..300 entries, growing past 128 and 256 slots");
}

namespace {
struct Line { string text; int kind; string name; string val; };  // kind 0 nothing, 1 section, 2 entry

vector<Line> grammar(bool full)
{
    vector<Line> r;
    auto add = [&](const string& t, int k, const string& n = "", const string& v = "") { r.push_back(Line{t, k, n, v}); };
    add("", 0);
    add("   \t ", 0);
    add("# comment = x", 0);
    add("  ; [s] a=b", 0);
    add("[Sec]", 1, "sec");
    add("  [t]  ; c", 1, "t");
    add("a=1", 2, "a", "1");
    add("\tKey = Some Value  ", 2, "key", "Some Value");
    add("b   =   two words ; comment", 2, "b", "two words");
    add("c = x#y", 2, "c", "x");
    add("d = \"quoted ; # value\" ; comment", 2, "d", "quoted ; # value");
    if (full)
    {
        add("[sec 2]", 1, "sec 2");
        add("[SEC]", 1, "sec");
        add("e = 'single \"quoted\"'", 2, "e", "single \"quoted\"");
        add("f = \"\"", 2, "f", "");
        add("g = ''", 2, "g", "");
        add("h = \"\"   ; nothing", 2, "h", "");
        add("A = No", 2, "a", "No");
        add("i=it's", 2, "i", "it's");
        add("j = a=b:c", 2, "j", "a=b:c");
        add("k k = 3", 2, "k k", "3");
        add("l = -4.5e1", 2, "l", "-4.5e1");
        add("m = [x]", 2, "m", "[x]");
        add("n=\"1\"", 2, "n", "1");
        add("just words", 0);
        add("b = True", 2, "b", "True");
    }
    return r;
}

void check_file(const vector<const Line*>& lines, bool last_nl)
{
    string text, sec, hist;
    Model m;
    for (size_t i = 0; i < lines.size(); ++i)
    {
        const Line& l = *lines[i];
        text += l.text;
        if (i + 1 < lines.size() || last_nl) text += "\n";
        if (l.kind == 1) { sec = l.name; m[sec] = Val{true, ""}; }
        if (l.kind == 2) m[sec + ":" + l.name] = Val{false, l.val};
        hist += l.text + " | ";
    }
    if (!mc::begin("file %s%s", hist.c_str(), last_nl ? "" : "(no newline at the end)")) return;
    Dict d(text);
    if (!d.d) { mc::fail("load", "the file is not loaded"); return; }
    vector<string> keys{"", ":", "sec", "SEC:A", ":a", ":KEY", "T:b", "sec:none", "t:d", "sec 2:a", "none"};
    for (auto& i : m) keys.push_back(i.first);
    compare(d.d, m, keys, "loading " + hist);
    ++mc::sh->traces;
    // Save and reload, where the format can express the values
    bool ok = true, hassec = false;
    for (auto& i : m)
    {
        const string& v = i.second.s;
        if (i.second.null) { hassec = true; continue; }
        if (v.empty() || v.find_first_of(";#\"'") != string::npos || v[0] == ' ' || v.back() == ' ') ok = false;
    }
    (void)hassec;
    if (!ok) return;
    Dict d2(dump_ini(d.d));
    compare(d2.d, m, keys, "loading, saving and loading " + hist);
}
}

MC_GROUP(files_full)
{
    auto g = grammar(true);
    for (unsigned n = 0; n <= 3; ++n)
        mc::all_sequences(n, g.size(), [&](const vector<unsigned>& v) {
            vector<const Line*> l;
            for (unsigned i : v) l.push_back(&g[i]);
            check_file(l, true);
            if (n && n < 3) check_file(l, false);
        });
    mc::sample("all files of up to 3 lines over %zu line shapes", g.size());
}

MC_GROUP(files_deep)
{
    auto g = grammar(false);
    for (unsigned n = 4; n <= (mc::thorough ? 5u : 4u); ++n)
        mc::all_sequences(n, g.size(), [&](const vector<unsigned>& v) {
            vector<const Line*> l;
            for (unsigned i : v) l.push_back(&g[i]);
            check_file(l, false);
        });
    mc::sample("all files of 4 lines over %zu line shapes", g.size());
}

// Save and reload after edits, and every conversion
MC_GROUP(save_reload)
{
    const char* vals[] = {"1", "No", "two words", "a=b", "0", "true", "x:y", "-3.25", "/path/to file", "[z]"};
    const char* keys[] = {"s:a", "s:Bb", "t:a", "t:key with blanks", "long section name:a", "s:c"};
    for (unsigned mask = 0; mask < 64; ++mask)
        for (unsigned rot = 0; rot < 10; ++rot)
            for (unsigned victim = 0; victim < 7; ++victim)
            {
                if (!mc::begin("save mask %u values %u unset %u", mask, rot, victim)) continue;
                Dict d("");
                Model m;
                for (auto s : {"S", "t", "long section name"}) apply(d.d, m, Op{true, s, true, ""});
                for (unsigned i = 0; i < 6; ++i)
                    if (mask & (1u << i)) apply(d.d, m, Op{true, keys[i], false, vals[(i + rot) % 10]});
                if (victim < 6) apply(d.d, m, Op{false, keys[victim], false, ""});
                vector<string> ks(keys, keys + 6);
                ks.push_back("s"); ks.push_back("u");
                compare(d.d, m, ks, "edits");
                Dict d2(dump_ini(d.d));
                compare(d2.d, m, ks, "save and reload");
                Dict d3(dump_ini(d2.d));
                compare(d3.d, m, ks, "save and reload twice");
                ++mc::sh->traces;
                ++mc::sh->transitions;
            }
    // conversions of every value shape
    for (const char* s : {"", "0", "00", "1", "-1", "+7", " 8", "9x", "x9", "1.5", "-2.5e3", ".5", "1e-3", "yes", "Y", "y", "no", "N", "nope",
                          "true", "T", "t", "false", "F", "f", "maybe", "10", "2147483647", "-2147483648", "0x10", "010", "on", "off"})
    {
        if (!mc::begin("conversion of [%s]", s)) continue;
        Dict d("");
        Model m;
        apply(d.d, m, Op{true, "s:v", false, s});
        compare(d.d, m, {"s:v", "S:V", "s", ""}, mc::fmt("setting %s", s));
    }
    // null arguments
    {
        mc::begin("null arguments");
        string k = "a";
        if (iniparser_getnsec(nullptr) != -1) mc::fail("null getnsec", "not -1");
        if (iniparser_getsecname(nullptr, 0)) mc::fail("null getsecname", "not NULL");
        if (iniparser_getint(nullptr, C(k), 5) != 5) mc::fail("null getint", "not the default");
        if (iniparser_find_entry(nullptr, C(k))) mc::fail("null find_entry", "found");
        if (iniparser_new(C(mc::work + "/does-not-exist"))) mc::fail("missing file", "a missing file is loaded");
        mc::count();
    }
    // long names: section and key as long as a line allows
    for (unsigned len : {1u, 29u, 30u, 31u, 100u, 1000u, 1022u, 1023u, 1024u})
    {
        if (!mc::begin("section name of %u characters", len)) continue;
        Dict d("");
        string sec(len, 'q');
        iniparser_setstr(d.d, C(sec), nullptr);
        iniparser_setstr(d.d, C(string("s:") + sec.substr(0, len > 1000 ? 1000 : len)), C(string("v")));
        string t = dump_ini(d.d);
        if (t.find("[" + sec + "]") == string::npos) mc::fail("long section", "section name of %u characters is not saved", len);
        mc::count();
    }
    mc::sample("all subsets of 6 keys x 10 value assignments x unset of each key, saved and reloaded twice");
}
