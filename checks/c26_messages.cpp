// C26: xRIT files that are not images (GTS messages, texts, keys, binary
// messages, prologues of other satellites) are kept exactly as they are
//
// Exhaustive enumeration of small files, names, sizes, cuts and histories of
// files read by one object, against a model of each kind of file.
#include "mc.hpp"
#include "enumerate.hpp"
#include "synth.hpp"
#include <msat/hrit/MSG_HRIT.h>
#include <dirent.h>
#include <fstream>
#include <memory>
#include <sstream>

using std::string;
using std::vector;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace {

enum { IMAGE = 0, GTS = 1, TEXT = 2, KEY = 3, PROLOGUE = 128, EPILOGUE = 129, DCP = 130, BINARY = 144 };
const size_t KEYLEN = 197, SGS = 46;

string text(unsigned long long v) { return std::to_string(v); }
unsigned long long num(const string& s, size_t p, unsigned n) { unsigned long long v = 0; for (unsigned i = 0; i < n; ++i) v = v << 8 | (unsigned char)s[p + i]; return v; }

// A file, its size as declared and the bytes that are there
struct File
{
    unsigned type = TEXT;
    string annotation;      // empty: without annotation
    string data;
    size_t missing = 0;     // bytes of data that are not there
    string records;         // other records
    string bytes() const
    {
        string s = synth::xrit_file(type, (annotation.empty() ? "" : synth::rec_annotation(annotation)) + records, data);
        s.resize(s.size() - missing);
        return s;
    }
    string product() const { return annotation.substr(13, 12); }
    bool has(const char* name) const { return product().find(name) != string::npos; }
    bool foreign() const
    {
        if (type != PROLOGUE || has("MSG")) return false;
        for (const char* n : { "GOES", "GMS", "MTSAT", "NOAA", "METOP" }) if (has(n)) return true;
        return false;
    }
    /// Whether it is a file that can be read
    bool valid() const
    {
        if (missing) return false;
        switch (type)
        {
            case IMAGE: return !records.empty();
            case GTS: return data.size() && !annotation.empty() && annotation.find('/') == string::npos;
            case TEXT: return data.size();
            case KEY: return data.size() >= KEYLEN && data.size() / KEYLEN <= 65536;
            case PROLOGUE:
                if (annotation.empty()) return false;
                if (has("MSG")) return data.size() >= synth::PRO_IMPF;
                if (foreign()) return data.size() >= SGS + 8 && num(data, SGS + 4, 4) >= 9 && num(data, SGS + 4, 4) <= data.size() - SGS;
                return true;
            case EPILOGUE: return !annotation.empty() && (!has("MSG") || data.size() >= synth::EPI_SIZE);
            case DCP: return true;
            case BINARY: return !annotation.empty() && annotation.find('/') == string::npos;
        }
        return false;
    }
    /// The name of the copy of the data
    string copy() const { return type == GTS || type == BINARY ? annotation + ".bin" : ""; }
};

string name_for(const string& product)
{
    string s = "L-000-MSG1__-" + product;
    s.resize(25, '_');
    s += "-123456789-123456789-201503041245-__";
    return s;
}

string dir;     // the current directory
vector<string> files()
{
    vector<string> r;
    DIR* d = opendir(".");
    while (struct dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.push_back(e->d_name);
    closedir(d);
    return r;
}
void empty_dir() { for (auto& f : files()) if (unlink(f.c_str()) != 0) rmdir(f.c_str()); }
string printable(const string& s) { return s.size() > 90 ? mc::show(s.substr(0, 60)) + mc::fmt("... (%zu bytes)", s.size()) : mc::show(s); }

void setup()
{
    dir = mc::work + "/a/b/c";
    mc::make_dirs(dir);
    mc::write_root = mc::work;
    if (chdir(dir.c_str()) != 0) _exit(3);
    // What the library says is not of interest
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
}

const string& input() { static string s; s = mc::work + "/input"; return s; }

template<class T> string shown(T& t) { std::ostringstream s; s << t; return s.str(); }

/// The value of a label
string label(const string& all, const string& name)
{
    size_t p = all.find("\n" + name);
    if (p == string::npos) return "(nothing)";
    p = all.find(": ", p);
    return all.substr(p + 2, all.find('\n', p) - p - 2);
}

string cstring(const string& s) { return s.substr(0, s.find('\0')); }

/// Compare what was read with the file
void compare(const File& f, MSG_data& d, const char* when = "")
{
    string out = shown(d);
    unsigned present = !!d.image | !!d.gts_message << 1 | !!d.text_message << 2 | !!d.key_message << 3 | !!d.prologue << 4 | !!d.sdsprologue << 5 | !!d.epilogue << 6;
    unsigned want = f.type == IMAGE ? 1 : f.type == GTS ? 2 : f.type == TEXT ? 4 : f.type == KEY ? 8 : f.type == PROLOGUE && f.has("MSG") ? 16 : f.foreign() ? 32
        : f.type == EPILOGUE && f.has("MSG") ? 64 : 0;
    if (present != want) { mc::fail("what", "%sa file of type %u gives the parts %#x and not %#x", when, f.type, present, want); return; }
    switch (f.type)
    {
        case IMAGE:
            if (d.image->len != f.data.size() / 2 || memcmp(d.image->data, f.data.data(), f.data.size()) != 0) mc::fail("image", "%simage of %zu samples", when, (size_t)d.image->len);
            break;
        case TEXT:
        {
            string m = "****************\n";
            if (out.find(m + f.data + "\n" + m) == string::npos) mc::fail("text", "%sthe text %s is printed as %s", when, printable(f.data).c_str(), printable(out).c_str());
            break;
        }
        case KEY:
        {
            size_t n = f.data.size() / KEYLEN, found = 0;
            if (n > 1000) break;    // That they are read is enough
            for (size_t p = out.find("User Station Number"); p != string::npos; p = out.find("User Station Number", p + 1))
            {
                if (found < n)
                {
                    string k = "\n" + out.substr(p), e = f.data.substr(found * KEYLEN, KEYLEN);
                    string key = e.substr(3, 192);
                    if (key.find('\n') == string::npos && label(k, "Public Key  ") != cstring(key)) { mc::fail("key", "%skey %zu of %zu is printed as %s and not %s", when, found, n, printable(label(k, "Public Key  ")).c_str(), printable(cstring(key)).c_str()); break; }
                    if (label(k, "User Station") != text(num(e, 0, 2)) || label(k, "Key Number") != text(num(e, 2, 1)) || label(k, "Public Key CRC") != text(num(e, 195, 2)))
                    { mc::fail("key", "%skey %zu of %zu: %s", when, found, n, printable(k).c_str()); break; }
                }
                ++found;
            }
            if (found != n) mc::fail("keys", "%s%zu keys are printed and not %zu", when, found, n);
            break;
        }
        case PROLOGUE:
            if (f.foreign())
            {
                struct { const char* name; string want; } const labels[] = {
                    { "Product Quality", text(num(f.data, 10, 1)) }, { "Product Completen", text(num(f.data, 11, 1)) },
                    { "Product Timeliness", text(num(f.data, 12, 1)) }, { "Proc. Instance Id", text(num(f.data, 13, 1)) },
                    { "Base Algorithm", cstring(f.data.substr(14, 16)) }, { "Product Algorithm", cstring(f.data.substr(30, 16)) } };
                for (auto& l : labels)
                    if (label(out, l.name) != l.want) { mc::fail(mc::fmt("foreign %s", l.name), "%s%s is printed as %s and not %s", when, l.name, printable(label(out, l.name)).c_str(), printable(l.want).c_str()); return; }
                auto& h = d.sdsprologue->SGSCommonHeader;
                auto& p = d.sdsprologue->SGSProductSpecificHeader.ImageProductSpecificHeader;
                if (h.NominalSGSProductTime.get_day_from_epoch() != num(f.data, 4, 2) || h.NominalSGSProductTime.get_msec_in_day() != num(f.data, 6, 4))
                    mc::fail("foreign time", "%sday %u, millisecond %u", when, h.NominalSGSProductTime.get_day_from_epoch(), h.NominalSGSProductTime.get_msec_in_day());
                if (h.SGSProductQuality != num(f.data, 10, 1) || h.SGSProductCompleteness != num(f.data, 11, 1) || h.SGSProductTimeliness != num(f.data, 12, 1)
                    || h.SGSProcessingInstanceId != num(f.data, 13, 1) || memcmp(h.BaseAlgorithmVersion, f.data.data() + 14, 16) || memcmp(h.ProductAlgorithmVersion, f.data.data() + 30, 16))
                    mc::fail("foreign values", "%svalues differ from the file", when);
                size_t n = num(f.data, SGS + 4, 4);
                if (p.ImageProductSpecificHeaderLenght != n || memcmp(p.ImageProductSpecificHeaderData, f.data.data() + SGS + 8, n - 8)) mc::fail("foreign data", "%s%u bytes of data", when, p.ImageProductSpecificHeaderLenght);
            }
            break;
    }
}

/// Read a file and look at what was made of it
void run(const File& f, const char* what)
{
    mc::write_file(input(), f.bytes());
    mc::written_elsewhere.clear();
    size_t before = __sanitizer_get_current_allocated_bytes();
    bool ok = true;
    {
        MSG_header h;
        MSG_data d;
        std::ifstream in(input(), std::ios::binary);
        try { h.read_from(in); d.read_from(in, h); } catch (std::exception&) { ok = false; }
        if (ok != f.valid()) mc::fail(ok ? "no error" : "error", "%s: %s", what, ok ? "is read" : "is refused");
        else if (ok) compare(f, d);
    }
    size_t after = __sanitizer_get_current_allocated_bytes();
    static int warm = 0;
    if (after > before && ++warm > 1) mc::fail("leak", "%s: %zu bytes are not released", what, after - before);
    vector<string> there = files();
    string copy = f.copy();
    if (f.valid() && copy.size())
    {
        if (there.size() != 1 || there[0] != copy) mc::fail("copy", "%s: the copy is %s and not %s", what, there.empty() ? "nowhere" : printable(there[0]).c_str(), printable(copy).c_str());
        else if (mc::read_file(dir + "/" + copy) != f.data) mc::fail("copy", "%s: the copy is %s and not %s", what, printable(mc::read_file(dir + "/" + copy)).c_str(), printable(f.data).c_str());
    }
    else if (there.size() && !(f.missing == 0 && ok)) mc::fail("written", "%s: writes %s", what, printable(there[0]).c_str());
    else if (there.size() && !copy.size()) mc::fail("written", "%s: writes %s", what, printable(there[0]).c_str());
    if (mc::written_elsewhere.size()) mc::fail("elsewhere", "%s: would write %s", what, mc::written_elsewhere[0].c_str());
    struct stat st;
    for (const char* p : { "/a", "/a/b" })
    {
        DIR* e = opendir((mc::work + p).c_str());
        while (struct dirent* x = readdir(e))
            if (x->d_name[0] != '.' && string(x->d_name) != (p[2] ? "c" : "b") && stat((mc::work + p + "/" + x->d_name).c_str(), &st) == 0)
            {
                mc::fail("elsewhere", "%s: writes %s in another directory", what, printable(x->d_name).c_str());
                unlink((mc::work + p + "/" + x->d_name).c_str());
            }
        closedir(e);
    }
    empty_dir();
    mc::count();
}

string pattern(size_t n, unsigned salt) { string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)((i + salt) * 167 + (i >> 8)); return s; }

string sgs(size_t len, size_t extra, unsigned salt, const string& v1 = "", const string& v2 = "")
{
    string s = pattern(SGS, salt);
    string a = v1, b = v2;
    if (!salt) { a.resize(16); b.resize(16); s = s.substr(0, 14) + a + b; }
    for (size_t p = 14; salt && p < SGS; ++p) if (s[p] == '\n') s[p] = ' ';
    s += string("\1\2\3\4", 4) + synth::be(len, 4);
    return s + pattern((len > 8 ? len - 8 : 0) + extra, salt + 1);
}

const char* const foreigners[] = { "GOES", "GMS", "MTSAT", "NOAA", "METOP" };

/// All sizes of messages and texts, all single bytes
MC_GROUP(sizes)
{
    setup();
    for (unsigned type : { GTS, TEXT, BINARY })
    {
        for (unsigned b = 0; b < 256; ++b)
        {
            if (!mc::begin("type %u, one byte %u", type, b)) continue;
            File f;
            f.type = type; f.annotation = name_for("MSG1"); f.data = string(1, (char)b);
            run(f, mc::fmt("type %u", type).c_str());
        }
        vector<size_t> sizes;
        for (size_t i = 0; i <= (mc::thorough ? 1200 : 300); ++i) sizes.push_back(i);
        for (size_t i : { 4095, 4096, 8191, 8192, 14999, 15000, 15001, 65535, 65536, 70000, 1000003 }) sizes.push_back(i);
        for (size_t n : sizes)
            for (int annotated = 0; annotated < 2; ++annotated)
                for (unsigned salt : { 0, 77 })
                {
                    if (!mc::begin("type %u, %zu bytes, annotation %d, pattern %u", type, n, annotated, salt)) continue;
                    File f;
                    f.type = type; f.data = pattern(n, salt);
                    if (annotated) f.annotation = name_for("MSG1");
                    run(f, mc::fmt("type %u of %zu bytes", type, n).c_str());
                }
    }
}

/// All characters at every place of the name of the copy
MC_GROUP(names)
{
    setup();
    for (unsigned type : { GTS, BINARY })
        for (unsigned p = 0; p < 61; ++p)
            for (unsigned c = 1; c < 256; ++c)
            {
                if (p == 0 && c == '/') continue;   // Below, with a directory where it does no harm
                if (!mc::begin("type %u, character %u at %u", type, c, p)) continue;
                File f;
                f.type = type; f.annotation = name_for("GTS"); f.annotation[p] = c; f.data = pattern(5, c);
                run(f, mc::fmt("type %u, character %u at %u of the name", type, c, p).c_str());
            }
    // Other directories, that are there or not
    for (unsigned type : { GTS, BINARY })
        for (string start : { "../", "../../", "./", "=", "=/a/", "b/", "../c/", "=/a/b/", "../b/../", "../../b/", "./../c/" })
        {
            if (!mc::begin("type %u, name that starts with %s", type, start.c_str())) continue;
            if (start[0] == '=') start = mc::work + start.substr(1) + "/";
            if (start.size() > 50) { mc::fail("harness", "the directory of the check has a long name"); continue; }
            File f;
            f.type = type; f.annotation = start + name_for("GTS"); f.annotation.resize(61); f.data = "xyz";
            run(f, mc::fmt("type %u, name that starts with %s", type, start.c_str()).c_str());
        }
}

/// Files that end before the end of their data
MC_GROUP(cuts)
{
    setup();
    for (unsigned type : { GTS, TEXT, KEY, PROLOGUE, BINARY })
        for (size_t n : { 1, 2, 30, 197, 394, 500 })
            for (size_t missing = 1; missing <= n; ++missing)
            {
                if (!mc::begin("type %u, %zu of %zu bytes are missing", type, missing, n)) continue;
                File f;
                f.type = type; f.annotation = name_for("GOES"); f.data = type == PROLOGUE && n > SGS + 9 ? sgs(n - SGS, 0, 3) : pattern(n, 3);
                f.missing = std::min(missing, f.data.size());
                run(f, mc::fmt("type %u, %zu of %zu bytes are missing", type, missing, n).c_str());
            }
}

/// Copies that cannot be written
MC_GROUP(unwritable)
{
    setup();
    for (unsigned type : { GTS, BINARY })
        for (size_t n : { 1, 100, 5000, 100000 })
            for (int how = 0; how < 3; ++how)
            {
                if (!mc::begin("type %u, %zu bytes, obstacle %d", type, n, how)) continue;
                File f;
                f.type = type; f.annotation = name_for("MSG1"); f.data = pattern(n, 1);
                mc::write_file(input(), f.bytes());
                if (how == 0) mkdir(f.copy().c_str(), 0777);
                else if (how == 1) { if (symlink("/dev/full", f.copy().c_str()) != 0) mc::fail("harness", "symlink"); }
                else if (symlink("nowhere/file", f.copy().c_str()) != 0) mc::fail("harness", "symlink");
                mc::write_root = "";
                bool ok = true;
                {
                    MSG_header h;
                    MSG_data d;
                    std::ifstream in(input(), std::ios::binary);
                    try { h.read_from(in); d.read_from(in, h); } catch (std::exception&) { ok = false; }
                }
                mc::write_root = mc::work;
                if (ok) mc::fail("no error", "type %u of %zu bytes, obstacle %d: the copy was not written and there is no error", type, n, how);
                empty_dir();
                mc::count();
            }
}

/// The functions that write the content
MC_GROUP(dumps)
{
    setup();
    for (int kind = 0; kind < 2; ++kind)
        for (int how = 0; how < 3; ++how)
            for (size_t n : { 1, 2, 255, 4096, 20000 })
                for (int full = 0; full < 2; ++full)
                    for (int times = 1; times <= 3; ++times)
                    {
                        if (!mc::begin("kind %d, function %d, %zu bytes, full %d, %d times", kind, how, n, full, times)) continue;
                        string data = pattern(n, kind), file = how == 0 ? kind ? "text_dump.bin" : "gts_dump.bin" : "out";
                        if (full && symlink("/dev/full", file.c_str()) != 0) mc::fail("harness", "symlink");
                        mc::write_root = "";
                        bool ok = true;
                        try {
                            MSG_data_gts g;
                            MSG_data_text t;
                            if (kind) t.read_from((const unsigned char*)data.data(), n); else g.read_from((const unsigned char*)data.data(), n);
                            char name[] = "out";
                            for (int i = 0; i < times; ++i)
                            {
                                if (kind) { if (how == 0) t.dump(); else if (how == 1) t.dump(name); else t.dump(string("out")); }
                                else { if (how == 0) g.dump(); else if (how == 1) g.dump(name); else g.dump(string("out")); }
                            }
                        } catch (std::exception&) { ok = false; }
                        mc::write_root = mc::work;
                        if (ok == (bool)full) mc::fail(ok ? "no error" : "error", "kind %d, function %d, %zu bytes, full %d", kind, how, n, full);
                        if (!full)
                        {
                            // Messages are added to the file, except with the name as a string
                            string want;
                            for (int i = 0; i < (kind == 0 && how < 2 ? times : 1); ++i) want += data;
                            if (mc::read_file(dir + "/" + file) != want) mc::fail("dump", "kind %d, function %d, %d times: %zu bytes and not %zu", kind, how, times, mc::read_file(dir + "/" + file).size(), want.size());
                        }
                        empty_dir();
                        mc::count();
                    }
}

/// Key messages of all sizes
MC_GROUP(keys)
{
    setup();
    vector<size_t> sizes;
    for (size_t i = 0; i <= (mc::thorough ? 2000 : 600); ++i) sizes.push_back(i);
    for (size_t k : { 255, 256, 257, 65535, 65536, 65537, 70000 }) for (size_t d : { 0, 1, 196 }) sizes.push_back(k * KEYLEN + d);
    for (size_t n : sizes)
    {
        if (!mc::begin("keys, %zu bytes", n)) continue;
        File f;
        f.type = KEY; f.data = pattern(n, n);
        // Keys are printed as text
        for (size_t p = 0; p < n; ++p) if (p % KEYLEN >= 3 && p % KEYLEN < 195) f.data[p] = 'a' + p % 23;
        run(f, mc::fmt("keys of %zu bytes", n).c_str());
    }
}

/// Prologues of other satellites
MC_GROUP(foreign)
{
    setup();
    for (const char* who : foreigners)
    {
        for (size_t len = 0; len < 60; ++len)
            for (int extra : { 0, 1, 7, -1, -3, -40 })
            {
                if (!mc::begin("prologue of %s, length %zu, %d more", who, len, extra)) continue;
                File f;
                f.type = PROLOGUE; f.annotation = name_for(who);
                f.data = sgs(len, extra > 0 ? extra : 0, 1 + len);
                if (extra < 0) f.data.resize(f.data.size() > (size_t)-extra ? f.data.size() + extra : 0);
                run(f, mc::fmt("prologue of %s, length %zu, %d more", who, len, extra).c_str());
            }
        for (size_t len : { 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffff8u, 0xffffffd2u })
        {
            if (!mc::begin("prologue of %s, length %zu", who, len)) continue;
            File f;
            f.type = PROLOGUE; f.annotation = name_for(who); f.data = sgs(60, 0, 1);
            f.data.replace(SGS + 4, 4, synth::be(len, 4));
            run(f, mc::fmt("prologue of %s, length %zu", who, len).c_str());
        }
    }
    for (unsigned salt = 1; salt < 256; ++salt)
    {
        if (!mc::begin("prologue with pattern %u", salt)) continue;
        File f;
        f.type = PROLOGUE; f.annotation = name_for("NOAA"); f.data = sgs(30, 0, salt);
        run(f, "prologue");
    }
    for (unsigned a = 0; a <= 16; ++a)
        for (unsigned b = 0; b <= 16; ++b)
        {
            if (!mc::begin("prologue with versions of %u and %u characters", a, b)) continue;
            File f;
            f.type = PROLOGUE; f.annotation = name_for("METOP"); f.data = sgs(30, 0, 0, string("1.2.3.4.5.6.7.8.", a), string("abcdefghijklmnop", b));
            run(f, mc::fmt("versions of %u and %u characters", a, b).c_str());
        }
    // Other prologues and epilogues, DCP messages and unknown types
    for (const char* who : { "MET5", "OTHER", "GOE", "METO", "", "NO_AA" })
        for (size_t n : { 0, 1, 100 })
            for (unsigned type : { (unsigned)PROLOGUE, (unsigned)EPILOGUE, (unsigned)DCP, 4u, 127u, 131u, 143u, 145u, 255u })
            {
                if (!mc::begin("type %u of %s, %zu bytes", type, who, n)) continue;
                File f;
                f.type = type; f.annotation = name_for(who); f.data = pattern(n, 1);
                run(f, mc::fmt("type %u of %s, %zu bytes", type, who, n).c_str());
            }
    // Without annotation
    for (unsigned type : { PROLOGUE, EPILOGUE, DCP, BINARY, GTS, TEXT, KEY })
        for (size_t n : { 0, 1, 400 })
        {
            if (!mc::begin("type %u without annotation, %zu bytes", type, n)) continue;
            File f;
            f.type = type; f.data = pattern(n, 1);
            for (auto& c : f.data) c |= 1;
            run(f, mc::fmt("type %u without annotation, %zu bytes", type, n).c_str());
        }
}

/// Histories of files read by one object
MC_GROUP(histories)
{
    setup();
    vector<File> kinds;
    auto add = [&](unsigned type, const char* who, const string& data, size_t missing = 0) {
        File f;
        f.type = type; f.annotation = name_for(who); f.data = data; f.missing = missing;
        if (type == IMAGE) f.records = synth::rec_structure(16, 3, 2, 0);
        kinds.push_back(f);
    };
    add(IMAGE, "MSG1", pattern(12, 9));
    add(GTS, "GTS", pattern(20, 1));
    add(TEXT, "MSG1", "a text");
    add(TEXT, "MSG1", "another text, that is longer");
    add(KEY, "MSG1", string(2 * KEYLEN, 'k'));
    add(PROLOGUE, "GOES", sgs(30, 0, 5));
    add(BINARY, "MSG1", pattern(10, 2));
    add(DCP, "MSG1", pattern(10, 2));
    add(PROLOGUE, "MET5", "x");
    add(TEXT, "MSG1", "");
    add(KEY, "MSG1", "short");
    add(PROLOGUE, "NOAA", sgs(7, 0, 5));
    add(GTS, "GTS", pattern(20, 1), 5);
    add(PROLOGUE, "MSG1", string(synth::PRO_SIZE, 1));
    add(EPILOGUE, "MSG1", string(synth::EPI_SIZE, 1));
    for (unsigned i = 0; i < kinds.size(); ++i) mc::write_file(mc::work + mc::fmt("/f%u", i), kinds[i].bytes());
    unsigned big = 13, small = kinds.size();
    for (unsigned depth = 1; depth <= (mc::thorough ? 4 : 3); ++depth)
        mc::all_sequences(depth, depth <= 2 ? small : big, [&](const vector<unsigned>& seq) {
            string s;
            for (unsigned i : seq) s += mc::fmt(" %u", i);
            if (!mc::begin("history%s", s.c_str())) return;
            size_t before = __sanitizer_get_current_allocated_bytes();
            {
                MSG_data d;
                for (unsigned i : seq)
                {
                    const File& f = kinds[i];
                    MSG_header h;
                    std::ifstream in(mc::work + mc::fmt("/f%u", i), std::ios::binary);
                    bool ok = true;
                    try { h.read_from(in); d.read_from(in, h); } catch (std::exception&) { ok = false; }
                    ++mc::sh->transitions;
                    if (ok != f.valid()) mc::fail(ok ? "no error" : "error", "history%s: file %u", s.c_str(), i);
                    if (ok) compare(f, d, mc::fmt("history%s: ", s.c_str()).c_str());
                    else
                    {
                        // Nothing of the files before; what is printed is at most the part that was read
                        unsigned others = (f.type != IMAGE && d.image) + (f.type != GTS && d.gts_message) + (f.type != TEXT && d.text_message) + (f.type != KEY && d.key_message)
                            + (f.type != PROLOGUE && (d.prologue || d.sdsprologue)) + (f.type != EPILOGUE && d.epilogue);
                        if (others) mc::fail("stale", "history%s: after an error there is something of a file before", s.c_str());
                        string out = shown(d);
                        if (out.find("a text") != string::npos || out.find("another") != string::npos) mc::fail("stale", "history%s: after an error the text of a file before is printed", s.c_str());
                    }
                }
            }
            size_t after = __sanitizer_get_current_allocated_bytes();
            static int warm = 0;
            if (after > before && ++warm > 1) mc::fail("leak", "history%s: %zu bytes are not released", s.c_str(), after - before);
            empty_dir();
            ++mc::sh->traces;
            mc::count();
        });
    mc::sh->states = kinds.size() * kinds.size();
    // The same with an object that opens the files
    mc::all_sequences(2, small, [&](const vector<unsigned>& seq) {
        if (!mc::begin("object history %u %u", seq[0], seq[1])) return;
        std::unique_ptr<MSG_HRIT> o(new MSG_HRIT);
        for (unsigned i : seq)
        {
            string name = mc::work + mc::fmt("/f%u", i);
            if (!o->open(&name[0])) mc::fail("open", "history %u %u: file %u cannot be opened", seq[0], seq[1], i);
            bool ok = true;
            try { o->read(); } catch (std::exception&) { ok = false; }
            if (ok != kinds[i].valid()) mc::fail(ok ? "no error" : "error", "history %u %u: file %u", seq[0], seq[1], i);
            string out = shown((const MSG_HRIT&)*o);
            if (ok && i == 2 && out.find("\na text\n") == string::npos) mc::fail("text", "history %u %u: the text is not printed", seq[0], seq[1]);
            o->close();
            ++mc::sh->transitions;
        }
        empty_dir();
        ++mc::sh->traces;
        mc::count();
    });
}

/// Histories of messages read by one object of each class, and objects not read
MC_GROUP(objects)
{
    setup();
    vector<string> data = { "", "m", "message", string(300, 'z'), string(KEYLEN, 1), string(KEYLEN * 2, 2) };
    for (int kind = 0; kind < 4; ++kind)
        for (unsigned depth = 0; depth <= 4; ++depth)
            mc::all_sequences(depth, data.size(), [&](const vector<unsigned>& seq) {
                string s;
                for (unsigned i : seq) s += mc::fmt(" %u", i);
                if (!mc::begin("object of kind %d, history%s", kind, s.c_str())) return;
                size_t before = __sanitizer_get_current_allocated_bytes();
                {
                    MSG_data_gts g;
                    MSG_data_text t;
                    MSG_data_key k;
                    MSG_data_SGS_header h;
                    string held;
                    auto look = [&] {
                        if (kind == 0)
                        {
                            try { g.dump(string("out")); } catch (std::exception&) { mc::fail("error", "message not written"); }
                            if (mc::read_file(dir + "/out") != held) mc::fail("message", "history%s: %s is written and not %s", s.c_str(), printable(mc::read_file(dir + "/out")).c_str(), printable(held).c_str());
                        }
                        else if (kind == 1)
                        {
                            string m = "****************\n", out = shown(t);
                            if (out.find(m + held + "\n" + m) == string::npos) mc::fail("text", "history%s: %s is printed and not %s", s.c_str(), printable(out).c_str(), printable(held).c_str());
                        }
                        else if (kind == 2)
                        {
                            string out = shown(k);
                            size_t n = 0;
                            for (size_t p = out.find("User Station"); p != string::npos; p = out.find("User Station", p + 1)) ++n;
                            if (n != held.size() / KEYLEN) mc::fail("keys", "history%s: %zu keys are printed and not %zu", s.c_str(), n, held.size() / KEYLEN);
                        }
                    };
                    look();
                    for (unsigned i : seq)
                    {
                        const unsigned char* p = (const unsigned char*)data[i].data();
                        size_t n = data[i].size();
                        bool ok = true, want = kind == 2 ? n >= KEYLEN : kind == 3 ? true : n > 0;
                        try {
                            if (kind == 0) g.read_from(p, n);
                            else if (kind == 1) t.read_from(p, n);
                            else if (kind == 2) k.read_from(p, n);
                            else { string v = sgs(20 + n, 0, 1 + i); h.read_from((const unsigned char*)v.data(), v.size()); }
                        } catch (std::exception&) { ok = false; }
                        if (ok != want) mc::fail(ok ? "no error" : "error", "kind %d, history%s, %zu bytes", kind, s.c_str(), n);
                        held = ok ? data[i] : "";
                        look();
                        ++mc::sh->transitions;
                    }
                }
                size_t after = __sanitizer_get_current_allocated_bytes();
                static int warm = 0;
                if (after > before && ++warm > 4) mc::fail("leak", "kind %d, history%s: %zu bytes are not released", kind, s.c_str(), after - before);
                empty_dir();
                ++mc::sh->traces;
                mc::count(!seq.empty());
            });
    mc::sh->states = data.size() * 4;
    if (mc::begin("an object that has read nothing"))
    {
        // Also in memory that is not clear
        alignas(MSG_data) static unsigned char room[sizeof(MSG_data)];
        for (int v = 0; v < 256; ++v)
        {
            memset(room, v, sizeof(room));
            MSG_data* d = new (room) MSG_data;
            string out = shown(*d);
            if (out.find("message") != string::npos || out.find("Unknown") != string::npos) mc::fail("unread", "an object that has read nothing is printed as %s", printable(out).c_str());
            d->~MSG_data();
            mc::count(false);
        }
    }
}

}
