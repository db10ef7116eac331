// C25: command line tools do all of what they are asked, or end with an error
//
// The tools run in a process of their own on every small set of input files of
// a bounded space: what they write is compared with the input, and input that
// is damaged, or that they are asked for and is not there, must be an error.
#include "mc.hpp"
#include "enumerate.hpp"
#include "native.hpp"
#include "omtp.hpp"
#include "synth.hpp"
#include <msat/msg-native/MSG_native.h>
#include <msat/openmtp/OpenMTP.h>
#include <msat/hrit/MSG_HRIT.h>
#include <Magick++.h>
#include <getopt.h>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <fstream>
#include <sstream>

int tool_xritdump(int, char**);
int tool_XRIT2Image(int, char**);
int tool_nativedump(int, char**);
int tool_native2Image(int, char**);
int tool_ids_debug(int, char**);
int tool_ids_sector(int, char**);
int tool_ids_to_pgm(int, char**);
int tool_ids_write(int, char**);
int tool_OpenMTP_info(int, char**);
int tool_db1_to_image(int, char**);

namespace {

typedef int (*Tool)(int, char**);

struct Run
{
    int rc;
    string out;                     // standard output
    std::map<string, string> files; // made in the current directory
    bool ok() const { return rc == 0; }
    bool crashed() const { return rc >= 1000 || rc == 99; }
};

std::map<string, string> files_in(const string& dir)
{
    std::map<string, string> m;
    if (DIR* d = opendir(dir.c_str()))
    {
        while (struct dirent* e = readdir(d))
            if (e->d_type == DT_REG) m[e->d_name] = mc::read_file(dir + "/" + e->d_name);
        closedir(d);
    }
    return m;
}

string here() { return mc::work + "/here"; }

/// Run a tool in an empty directory (where what "before" makes is)
Run run(Tool tool, const char* name, const vector<string>& args, const std::function<void()>& before = nullptr, const char* to = nullptr)
{
    static bool init = false;
    if (!init) { Magick::InitializeMagick(nullptr); init = true; }
    mc::clean(here());
    mc::make_dirs(here());
    if (before) before();
    Run r;
    string out = mc::work + "/stdout", log;
    unlink(out.c_str());
    r.rc = mc::isolated([&] {
        if (chdir(here().c_str()) != 0) return 3;
        int fd = open(to ? to : out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1);
        close(fd);
        vector<vector<char>> a;
        auto add = [&](const string& s) { a.emplace_back(s.c_str(), s.c_str() + s.size() + 1); };
        add(name);
        for (auto& s : args) add(s);
        vector<char*> argv;
        for (auto& s : a) argv.push_back(s.data());
        argv.push_back(nullptr);
        optind = 0;
        int rc = tool(a.size(), argv.data());
        std::cout.flush();
        return rc & 255;
    }, 60, 120, &log);
    r.out = mc::read_file(out);
    r.files = files_in(here());
    if (r.crashed())
        mc::fail("crash", "%s %s; %s", name, mc::outcome(r.rc).c_str(), log.substr(0, 300).c_str());
    ++mc::sh->traces;
    return r;
}

/// The tool has to end with an error
void refused(const Run& r, const string& what)
{
    if (r.ok()) mc::fail("no error", "%s: ended as if all was well", what.c_str());
    for (auto& f : r.files) mc::fail("output of an error", "%s: makes %s", what.c_str(), f.first.c_str());
}

struct Pgm
{
    int w = 0, h = 0;
    long max = 0;
    vector<long> v;
    bool read(const string& s)
    {
        std::istringstream in(s);
        string m;
        in >> m;
        in >> std::ws;
        while (in.peek() == '#') { string l; std::getline(in, l); in >> std::ws; }
        in >> w >> h >> max;
        in.get();
        if (!in || m != "P5" || max < 1 || max > 65535) return false;
        size_t n = (size_t)w * h, b = max > 255 ? 2 : 1;
        string d = s.substr(in.tellg());
        if (d.size() != n * b) return false;
        for (size_t i = 0; i < n; ++i)
            v.push_back(b == 1 ? (unsigned char)d[i] : (unsigned char)d[2 * i] << 8 | (unsigned char)d[2 * i + 1]);
        // In units of 1/65535
        for (long& x : v) x = x * 65535 / max;
        return true;
    }
};

/// The only file made, as an image
bool picture(const Run& r, const string& name, Pgm& p, const string& what)
{
    if (!r.ok()) { mc::fail("error", "%s: %s", what.c_str(), mc::outcome(r.rc).c_str()); return false; }
    for (auto& f : r.files) if (f.first != name) mc::fail("other file", "%s: makes %s", what.c_str(), f.first.c_str());
    auto f = r.files.find(name);
    if (f == r.files.end()) { mc::fail("no output", "%s: does not make %s", what.c_str(), name.c_str()); return false; }
    if (!p.read(f->second)) { mc::fail("output", "%s: %s is not a whole PGM image", what.c_str(), name.c_str()); return false; }
    return true;
}

/// Samples in their order, stretched between black and white
void check_stretched(const vector<long>& got, const vector<long>& want, const string& what, bool all = true)
{
    if (got.size() != want.size()) { mc::fail("size", "%s: %zu pixels and not %zu", what.c_str(), got.size(), want.size()); return; }
    std::map<long, long> level;
    for (size_t i = 0; i < want.size(); ++i)
    {
        auto l = level.find(want[i]);
        if (l == level.end()) level[want[i]] = got[i];
        else if (l->second != got[i]) { mc::fail("pixel", "%s: pixel %zu of value %ld is %ld, and another is %ld", what.c_str(), i, want[i], got[i], l->second); return; }
    }
    long last = -1;
    for (auto& l : level)
    {
        // (few pixels at the ends may get the same black or white)
        if (l.second < last || (l.second == last && last != 0 && last != 65535)) { mc::fail("order", "%s: value %ld is shown as %ld, after %ld", what.c_str(), l.first, l.second, last); return; }
        last = l.second;
    }
    if (all && level.size() > 1 && (level.begin()->second != 0 || level.rbegin()->second != 65535))
        mc::fail("stretch", "%s: from %ld to %ld", what.c_str(), level.begin()->second, level.rbegin()->second);
}

}

// -------------------------------------------------------------------- xRIT

namespace {

string xdir() { return mc::work + "/xrit"; }

synth::Image image(int columns, int seglines, int segments)
{
    synth::Image im;
    im.dir = xdir();
    im.columns = columns;
    im.seglines = seglines;
    im.segments = segments;
    im.sample = [](int l, int c) { return (unsigned)(17 + l * 101 + c * 13) & 1023; };
    mc::clean(xdir());
    mc::make_dirs(xdir());
    return im;
}

/// As shown: north up, west left; segments not in the mask are black
vector<long> shown(const synth::Image& im, unsigned mask)
{
    vector<long> v;
    for (int y = im.segments * im.seglines - 1; y >= 0; --y)
        for (int x = 0; x < im.columns; ++x)
            v.push_back((mask >> (y / im.seglines)) & 1 ? im.sample(y, x) : 0);
    return v;
}

vector<string> xargs(const synth::Image& im, const vector<string>& more = {})
{
    vector<string> a = { "-d", im.dir, "-r", im.resolution, "-s", im.product, "-c", im.channel, "-t", im.timing };
    a.insert(a.end(), more.begin(), more.end());
    return a;
}

string xname(const synth::Image& im, const string& format)
{ return im.resolution + "-" + im.product + "-" + im.channel + "-" + im.timing + "." + format; }

}

MC_GROUP(xrit_images)
{
    for (int columns : { 1, 3, 8 })
        for (int seglines : { 1, 2, 5 })
            for (int segments = 1; segments <= (mc::thorough ? 5 : 4); ++segments)
                for (unsigned mask = 1; mask < (1u << segments); ++mask)
                    for (int fmt : { synth::FMT_WAVELET, synth::FMT_JPEG, synth::FMT_T4 })
                    {
                        if (fmt != synth::FMT_WAVELET && mask != 1 && mask + 1 != (1u << segments)) continue;
                        if (!mc::begin("XRIT2Image of %dx%d, %d segments %x, format %d", columns, seglines, segments, mask, fmt)) continue;
                        auto im = image(columns, seglines, segments);
                        im.format = fmt;
                        for (int i = 0; i < segments; ++i) if ((mask >> i) & 1) im.write_segment(i + 1);
                        Run r = run(tool_XRIT2Image, "XRIT2Image", xargs(im, { "-f", "pgm" }));
                        Pgm p;
                        string what = mc::fmt("%dx%d, segments %x of %d", columns, seglines, mask, segments);
                        mc::count();
                        ++mc::sh->states;
                        if (!picture(r, xname(im, "pgm"), p, what)) continue;
                        if (p.w != columns || p.h != seglines * segments) mc::fail("size", "%s: %dx%d", what.c_str(), p.w, p.h);
                        else if (p.v != shown(im, mask))
                            for (size_t i = 0; i < p.v.size(); ++i)
                                if (p.v[i] != shown(im, mask)[i]) { mc::fail("pixel", "%s: pixel %zu is %ld and not %ld", what.c_str(), i, p.v[i], shown(im, mask)[i]); break; }
                    }
    mc::sample("segments 1 and 3 of 3: north up, the second third is black");
}

MC_GROUP(xrit_options)
{
    struct Ch { const char* name; unsigned id; };
    const Ch channels[] = { { "VIS006", 1 }, { "IR_108", 9 }, { "HRV", 12 } };
    string opath = mc::work + "/overlay.pgm";
    for (const Ch& ch : channels)
        for (const char* res : { "H", "L" })
            for (int normalize = 0; normalize < 2; ++normalize)
                for (int overlay = 0; overlay < 2; ++overlay)
                    for (double scale : { 1.0, 0.75, 0.5, 0.25 })
                        for (int style = 0; style < 3; ++style)
                        {
                            if (!mc::begin("XRIT2Image of %s %s, normalize %d, overlay %d, scale %g, options %d", res, ch.name, normalize, overlay, scale, style)) continue;
                            auto im = image(8, 4, 2);
                            im.resolution = res;
                            im.channel = ch.name;
                            im.channel_id = ch.id;
                            // Blocks of 4 x 4 have one value, so that scaling keeps them
                            im.sample = [](int l, int c) { return 10u + l / 4 * 300 + c / 4 * 77; };
                            for (int i = 1; i <= 2; ++i) im.write_segment(i);
                            vector<long> o;
                            string od = "P5\n8 8\n65535\n";
                            for (int i = 0; i < 64; ++i) { unsigned v = i / 4 % 2 * 2000 + i / 32 * 9000 + (i == 0 ? 0 : 0); o.push_back(v); od += (char)(v >> 8); od += (char)v; }
                            mc::write_file(opath, od);
                            vector<string> more = { "-f", "pgm" };
                            auto opt = [&](const char* s, const char* l, const string& v) {
                                if (style == 0) { more.push_back(s); more.push_back(v); }
                                else if (style == 1) { more.push_back(string("--") + l); more.push_back(v); }
                                else more.push_back(string("--") + l + "=" + v);
                            };
                            if (normalize) more.push_back(style ? "--normalize" : "-n");
                            if (overlay) opt("-o", "overlay", opath);
                            if (scale != 1) opt("-g", "outscale", mc::fmt("%g", scale));
                            Run r = run(tool_XRIT2Image, "XRIT2Image", xargs(im, more));
                            Pgm p;
                            string what = mc::fmt("%s normalize %d overlay %d scale %g", ch.name, normalize, overlay, scale);
                            mc::count();
                            ++mc::sh->states;
                            if (!picture(r, xname(im, "pgm"), p, what)) continue;
                            int n = 8 * scale;
                            if (p.w != n || p.h != n) { mc::fail("size", "%s: %dx%d", what.c_str(), p.w, p.h); continue; }
                            vector<long> full = shown(im, 3), want;
                            long lo = 10, hi = 10 + 300 + 77;
                            for (int y = 0; y < n; ++y)
                                for (int x = 0; x < n; ++x)
                                {
                                    int at = (int)(y / scale) * 8 + (int)(x / scale);
                                    double v = full[at];
                                    if (normalize) v = (v - lo) * 65535 / (hi - lo);
                                    if (overlay && ch.id < 12) v += o[at];
                                    want.push_back(std::min(65535L, lrint(v)));
                                }
                            for (size_t i = 0; i < want.size(); ++i)
                                if (labs(p.v[i] - want[i]) > 2) { mc::fail("pixel", "%s: pixel %zu is %ld and not %ld", what.c_str(), i, p.v[i], want[i]); break; }
                        }
    // Names that are shorter than their place, and other images beside
    for (const char* prod : { "MSG1", "M", "MSG1__________", "GOES10", "ABCDEFGHIJKL" })
        for (const char* chan : { "IR_108", "V", "ABCDEFGHI", "VIS006" })
        {
            if (!mc::begin("XRIT2Image of product %s %s", prod, chan)) continue;
            auto im = image(3, 2, 2);
            string p12 = string(prod).substr(0, 12), c9 = chan;
            im.product = p12;
            im.channel = chan;
            for (int i = 1; i <= 2; ++i) im.write_segment(i);
            // Others, that have to be left alone
            auto other = im;
            other.sample = [](int, int) { return 999u; };
            other.timing = "200611141215"; other.write_segment(1); other.timing = im.timing;
            other.channel = "IR_120"; other.write_segment(1); other.channel = im.channel;
            other.product = "MSG2"; other.write_segment(2); other.product = im.product;
            other.resolution = "L"; other.write_segment(1);
            other.resolution = im.resolution;
            other.write_prologue(); other.write_epilogue();
            im.product = prod;
            Run r = run(tool_XRIT2Image, "XRIT2Image", xargs(im, { "-f", "pgm" }));
            Pgm p;
            mc::count();
            string what = mc::fmt("product %s %s", prod, chan);
            if (picture(r, xname(im, "pgm"), p, what) && p.v != shown(im, 3)) mc::fail("pixel", "%s: other pixels", what.c_str());
        }
    // Missing arguments, nothing to read, nowhere to write
    auto im = image(3, 2, 2);
    for (int i = 1; i <= 2; ++i) im.write_segment(i);
    for (unsigned without = 0; without < 16; ++without)
    {
        if (!mc::begin("XRIT2Image, arguments without %x", without)) continue;
        vector<string> a = { "-d", im.dir, "-f", "pgm" };
        const char* o[] = { "-r", "-s", "-c", "-t" };
        const string v[] = { im.resolution, im.product, im.channel, im.timing };
        for (int i = 0; i < 4; ++i) if (!((without >> i) & 1)) { a.push_back(o[i]); a.push_back(v[i]); }
        Run r = run(tool_XRIT2Image, "XRIT2Image", a);
        mc::count();
        if (without) refused(r, mc::fmt("arguments without %x", without));
        else if (!r.ok()) mc::fail("error", "all arguments: %s", mc::outcome(r.rc).c_str());
    }
    const char* wrong[] = { "directory", "resolution", "product", "channel", "time", "overlay", "output" };
    for (int i = 0; i < 7; ++i)
    {
        if (!mc::begin("XRIT2Image, wrong %s", wrong[i])) continue;
        auto w = im;
        vector<string> more = { "-f", "pgm" };
        switch (i)
        {
            case 0: w.dir = mc::work + "/none"; break;
            case 1: w.resolution = "L"; break;
            case 2: w.product = "MSG2"; break;
            case 3: w.channel = "IR_120"; break;
            case 4: w.timing = "200611141201"; break;
            case 5: more = { "-f", "pgm", "-o", mc::work + "/none.pgm" }; break;
        }
        string name = xname(w, "pgm");
        Run r = run(tool_XRIT2Image, "XRIT2Image", xargs(w, more), [&] { if (i == 6) mc::make_dirs(here() + "/" + name); });
        mc::count();
        refused(r, mc::fmt("wrong %s", wrong[i]));
    }
    {
        // The current directory, and the default format
        if (mc::begin("XRIT2Image in the current directory"))
        {
            auto w = im;
            w.dir = here();
            Run r = run(tool_XRIT2Image, "XRIT2Image", { "-r", "H", "-s", im.product, "-c", im.channel, "-t", im.timing }, [&] { for (int i = 1; i <= 2; ++i) w.write_segment(i); });
            mc::count();
            if (!r.ok() || r.files[xname(im, "jpg")].substr(0, 3) != "\xff\xd8\xff") mc::fail("default", "no JPEG image made: %s", mc::outcome(r.rc).c_str());
        }
    }
}

MC_GROUP(xrit_damaged)
{
    auto im = image(3, 2, 3);
    vector<string> seg;
    for (int i = 1; i <= 3; ++i) seg.push_back(im.segment_file(i));
    auto attempt = [&](int which, const string& s, const string& what, bool must_fail) {
        mc::clean(xdir());
        mc::make_dirs(xdir());
        for (int i = 0; i < 3; ++i) mc::write_file(im.segment_name(i + 1), i == which ? s : seg[i]);
        Run r = run(tool_XRIT2Image, "XRIT2Image", xargs(im, { "-f", "pgm" }));
        mc::count();
        ++mc::sh->states;
        if (must_fail) { refused(r, what); return; }
        // (other products than images are written as they are)
        if (!r.ok()) { if (r.files.count(xname(im, "pgm"))) mc::fail("output of an error", "%s: makes an image", what.c_str()); return; }
    };
    for (int which = 0; which < 3; ++which)
        for (size_t cut = 0; cut < seg[which].size(); cut += mc::thorough ? 1 : 1 + 2 * (cut % 2))
        {
            if (!mc::begin("XRIT2Image, segment %d cut at %zu", which, cut)) continue;
            attempt(which, seg[which].substr(0, cut), mc::fmt("segment %d cut at %zu", which, cut), true);
        }
    // Every byte with other values: any image or an error, and no crash
    for (int which = 0; which < (mc::thorough ? 3 : 1); ++which)
        for (size_t at = 0; at < seg[which].size(); ++at)
            for (int bit = 0; bit < 8; bit += mc::thorough ? 1 : 7)
            {
                if (!mc::begin("XRIT2Image, segment %d with bit %d of byte %zu", which, bit, at)) continue;
                string s = seg[which];
                s[at] ^= 1 << bit;
                attempt(which, s, mc::fmt("bit %d of byte %zu", bit, at), false);
            }
    struct Odd { const char* what; std::function<string(int)> make; };
    auto with = [&](std::function<void(synth::Image&)> f, int seq = 0) { return [=](int w) { auto o = im; f(o); return o.segment_file(seq ? seq : w + 1); }; };
    auto records = [&](int skip, int fmt) {
        return [=](int w) {
            const string r[] = { synth::rec_structure(10, 3, 2, 1), synth::rec_navigation("GEOS(+000.0)", -13642337, -13642337, 1856, 1856), synth::rec_timestamp(1, 2),
                                 synth::rec_segment(321, 9, w + 1, 1, 3, fmt) };
            string s;
            for (int i = 0; i < 4; ++i) if (i != skip) s += r[i];
            return synth::xrit_file(0, s, string(12, '\1'));
        };
    };
    const Odd odd[] = {
        { "more columns", with([](synth::Image& o) { o.columns = 4; }) },
        { "fewer columns", with([](synth::Image& o) { o.columns = 2; }) },
        { "more lines", with([](synth::Image& o) { o.seglines = 3; }) },
        { "fewer lines", with([](synth::Image& o) { o.seglines = 1; }) },
        { "columns for lines", with([](synth::Image& o) { o.columns = 2; o.seglines = 3; }) },
        { "number 0", with([](synth::Image&) {}, -1) },
        { "number 4", with([](synth::Image&) {}, 4) },
        { "number 255", with([](synth::Image&) {}, 255) },
        { "number 65535", with([](synth::Image&) {}, 65535) },
        { "no format", with([](synth::Image& o) { o.format = 0; }) },
        { "an image that is not compressed, without format", [&](int w) { return synth::xrit_file(0, synth::rec_structure(10, 3, 2, 0) + synth::rec_segment(321, 9, w + 1, 1, 3, 0), string(12, '\1')); } },
        { "unknown compression", with([](synth::Image& o) { o.format = 9; }) },
        { "a prologue", [&](int) { return im.prologue_file(); } },
        { "an epilogue", [&](int) { return im.epilogue_file(); } },
        { "nothing", [](int) { return string(); } },
        { "text", [](int) { return string("this is not an image"); } },
        { "no structure", records(0, synth::FMT_WAVELET) },
        { "no segment", records(3, synth::FMT_WAVELET) },
    };
    for (auto& o : odd)
        for (int which = 0; which < 3; ++which)
        {
            if (!mc::begin("XRIT2Image, segment %d is odd: %s", which, o.what)) continue;
            string s = o.make(which);
            if (!strcmp(o.what, "number 0"))
            {
                s = seg[which];
                string was = synth::rec_segment(im.spacecraft, im.channel_id, which + 1, 1, im.segments, im.format), is = synth::rec_segment(im.spacecraft, im.channel_id, 0, 1, im.segments, im.format);
                size_t p = s.find(was);
                if (p == string::npos) { mc::fail("harness", "no segment record"); continue; }
                s.replace(p, was.size(), is);
            }
            // The first file says if there is something to convert
            attempt(which, s, o.what, which == 0 || !strstr(o.what, "not compressed"));
        }
    // Products that are not images are written as they are
    for (int type : { 1, 144 })
        for (int files = 1; files <= 3; ++files)
            for (int headers = 0; headers < 2; ++headers)
            {
                if (!mc::begin("XRIT2Image of %d files of type %d, headers %d", files, type, headers)) continue;
                mc::clean(xdir());
                mc::make_dirs(xdir());
                std::map<string, string> want;
                for (int i = 1; i <= files; ++i)
                {
                    string data = mc::fmt("content %d of type %d\xff", i, type), note = im.annotation(im.channel, mc::fmt("%06d", i)) + "C_";
                    if (type == 1) data[1] = '\0';
                    want[note + ".bin"] = data;
                    mc::write_file(im.segment_name(i), synth::xrit_file(type, (headers ? synth::rec_structure(8, 1, 1, 0) : "") + synth::rec_annotation(note) + (headers ? synth::rec_segment(321, 0, i, 1, files, 0) : ""), data));
                }
                Run r = run(tool_XRIT2Image, "XRIT2Image", xargs(im, { "-f", "pgm" }));
                mc::count();
                if (!r.ok()) mc::fail("error", "products of type %d: %s", type, mc::outcome(r.rc).c_str());
                if (r.files != want)
                {
                    string names;
                    for (auto& f : r.files) names += " " + f.first + mc::fmt(" (%zu)", f.second.size());
                    mc::fail("dump", "products of type %d are not what is written:%s", type, names.c_str());
                }
            }
    mc::sample("segment 2 of 3 with a line more: refused");
}

namespace {

string line_starting(const string& s, const string& what)
{
    std::istringstream in(s);
    string l;
    while (std::getline(in, l)) if (l.compare(0, what.size(), what) == 0) return l.substr(what.size());
    return "none";
}

}

MC_GROUP(xrit_dump)
{
    for (int columns : { 1, 50, 60 })
        for (int seglines : { 1, 3, 4, 5, 7, 8 })
            for (int segments = 1; segments <= 3; ++segments)
                for (unsigned mask = 1; mask < (1u << segments); ++mask)
                    for (int pat = 0; pat < 5; ++pat)
                    {
                        if (!mc::begin("xritdump of %dx%d, %d segments %x, pattern %d", columns, seglines, segments, mask, pat)) continue;
                        auto im = image(columns, seglines, segments);
                        if (pat == 0) im.sample = [](int, int) { return 0u; };
                        if (pat == 1) im.sample = [](int l, int c) { return l % 2 ? 1023u : 0u; };
                        if (pat == 2) im.sample = [](int, int) { return 500u; };
                        if (pat == 4) im.sample = [](int l, int) { return l * 37 % 1024 + 0u; };
                        if (pat == 3) im.channel = "HRV", im.channel_id = 12;
                        im.write_prologue();
                        im.write_epilogue();
                        for (int i = 0; i < segments; ++i) if ((mask >> i) & 1) im.write_segment(i + 1);
                        Run r = run(tool_xritdump, "xritdump", { im.short_name() });
                        string what = mc::fmt("%dx%d, segments %x of %d, pattern %d", columns, seglines, mask, segments, pat);
                        mc::count();
                        ++mc::sh->states;
                        if (!r.ok()) { mc::fail("error", "%s: %s", what.c_str(), mc::outcome(r.rc).c_str()); continue; }
                        auto line = [&](const char* k, const string& want) {
                            string g = line_starting(r.out, string(k) + ": ");
                            if (g != want) mc::fail("dump", "%s: %s is '%s' and not '%s'", what.c_str(), k, g.c_str(), want.c_str());
                        };
                        line("Columns", mc::fmt("%d", columns));
                        line("Lines", mc::fmt("%d", segments * seglines));
                        line("Scanlines per segment", mc::fmt("%d", seglines));
                        line("Pixels per segment", mc::fmt("%d", columns * seglines));
                        line("HRV", pat == 3 ? "yes" : "no");
                        int last = 0;
                        for (int i = 0; i < segments; ++i) if ((mask >> i) & 1) last = i;
                        for (int i = 0; i <= last; ++i)
                        {
                            if (!((mask >> i) & 1)) { line(mc::fmt("Segment %d", i).c_str(), "missing."); continue; }
                            unsigned lo = 65535, hi = 0;
                            for (int l = 0; l < seglines; ++l)
                                for (int c = 0; c < columns; ++c)
                                {
                                    unsigned v = im.sample(i * seglines + l, c);
                                    lo = std::min(lo, v);
                                    hi = std::max(hi, v);
                                }
                            line(mc::fmt("Segment %d", i).c_str(), mc::fmt("min %u max %u", lo, hi));
                            // Its picture: three lines of 50 characters
                            size_t p = r.out.find(mc::fmt("Segment %d: ", i));
                            p = r.out.find('\n', p) + 1;
                            for (int y = 0; y < 3; ++y)
                            {
                                string row = r.out.substr(p, r.out.find('\n', p) - p);
                                p += row.size() + 1;
                                if (row.size() != 53) { mc::fail("picture", "%s: line %d of segment %d is '%s'", what.c_str(), y, i, row.c_str()); break; }
                                for (int x = 0; x < 50; ++x)
                                {
                                    unsigned v = im.sample(i * seglines + y * seglines / 3, columns - 1 - x * columns / 50);
                                    unsigned shade = hi == lo ? 0 : std::min(7u, (v - lo) * 8 / (hi - lo));
                                    if (row[3 + x] != " .,-:=$#"[shade]) { mc::fail("picture", "%s: character %d of line %d of segment %d is '%c'", what.c_str(), x, y, i, row[3 + x]); break; }
                                }
                            }
                        }
                        // And the composite
                        size_t p = r.out.find("Composite image:\n");
                        if (p == string::npos) { mc::fail("composite", "%s: there is none", what.c_str()); continue; }
                        p += 17;
                        for (int y = 0; y < 24; ++y)
                        {
                            size_t e = r.out.find('\n', p);
                            if (e == string::npos || e - p != 50) { mc::fail("composite", "%s: line %d has %zu characters", what.c_str(), y, e - p); break; }
                            for (size_t i = p; i < e; ++i) if (!strchr(" .,-:=$#", r.out[i])) { mc::fail("composite", "%s: character %d", what.c_str(), r.out[i]); break; }
                            p = e + 1;
                        }
                    }
    auto im = image(5, 2, 2);
    im.write_all();
    const string good = im.short_name();
    struct Bad { const char* what; std::function<void()> make; vector<string> args; };
    const Bad bad[] = {
        { "no arguments", [] {}, {} },
        { "unknown option", [] {}, { "--nothing", good } },
        { "unknown image", [] {}, { "/H:MSG1:IR_108:200611141200" } },
        { "bad name", [] {}, { "x" } },
        { "good and unknown image", [] {}, { good, im.dir + "/H:MSG1:IR_120:200611141200" } },
        { "no prologue", [&] { unlink(im.file_name("", "PRO", "__").c_str()); }, { good } },
        { "no segments", [&] { unlink(im.segment_name(1).c_str()); unlink(im.segment_name(2).c_str()); }, { good } },
        { "empty segment", [&] { mc::write_file(im.segment_name(2), ""); }, { good } },
        { "smaller segment", [&] { auto o = im; o.columns = 4; o.write_segment(2); }, { good } },
        { "lower segment", [&] { auto o = im; o.seglines = 1; o.write_segment(2); }, { good } },
        { "cut segment", [&] { string s = im.segment_file(1); mc::write_file(im.segment_name(1), s.substr(0, s.size() - 1)); }, { good } },
        { "prologue for a segment", [&] { mc::write_file(im.segment_name(1), im.prologue_file()); }, { good } },
        { "epilogue for a segment", [&] { mc::write_file(im.segment_name(2), im.epilogue_file()); }, { good } },
        { "cut epilogue", [&] { string s = im.epilogue_file(); mc::write_file(im.file_name("", "EPI", "__"), s.substr(0, s.size() / 2)); }, { good } },
    };
    for (auto& b : bad)
    {
        if (!mc::begin("xritdump: %s", b.what)) continue;
        mc::clean(im.dir);
        im.write_all();
        b.make();
        Run r = run(tool_xritdump, "xritdump", b.args);
        mc::count();
        refused(r, b.what);
    }
    if (mc::begin("xritdump of two images"))
    {
        mc::clean(im.dir);
        im.write_all();
        Run one = run(tool_xritdump, "xritdump", { good }), two = run(tool_xritdump, "xritdump", { good, good });
        mc::count();
        if (!two.ok() || two.out != one.out + one.out) mc::fail("two images", "%s, %zu bytes and %zu for one", mc::outcome(two.rc).c_str(), two.out.size(), one.out.size());
    }
}

// ------------------------------------------------------------------ native

namespace {

string npath() { return mc::work + "/in.nat"; }

Run native(File& f, const vector<string>& args, const string* cut = nullptr, Tool tool = tool_native2Image, const char* name = "native2Image")
{
    mc::write_file(npath(), cut ? *cut : f.encode());
    return run(tool, name, args);
}

template<typename T> string text_of(T& t)
{
    std::ostringstream o;
    o << t;
    return o.str();
}

}

MC_GROUP(native_images)
{
    auto compare = [&](File& f, int ch, const Run& r, const string& what) {
        Pgm p;
        ++mc::sh->states;
        mc::count();
        if (!picture(r, "MSG1.pgm", p, what)) return;
        int w = ch == 11 ? f.hcols : f.ncols, h = ch == 11 ? f.hlines : f.nlines;
        if (p.w != w || p.h != h) { mc::fail("size", "%s: %dx%d and not %dx%d", what.c_str(), p.w, p.h, w, h); return; }
        vector<long> want;
        for (int y = h - 1; y >= 0; --y)
        {
            vector<unsigned> l;
            if (y < (int)f.lines[ch].size()) l = unpack10(f.lines[ch][y].substr(65));
            l.resize(w, 0);
            for (int x = w - 1; x >= 0; --x) want.push_back(l[x]);
        }
        check_stretched(p.v, want, what);
    };
    for (unsigned mask : { 1u, 0x800u, 0x801u, 0x7ffu, 0xfffu, 0x0a4u })
        for (int ch = 0; ch < 12; ++ch)
            for (unsigned groups : { 1u, 3u })
                for (unsigned size : { 5u, 10u })
                {
                    if (!mc::begin("native2Image, channels %03x, channel %d, %u groups, %u bytes", mask, ch, groups, size)) continue;
                    File f;
                    f.mask = mask;
                    f.groups = groups;
                    f.nlines = groups; f.hlines = 3 * groups;
                    f.vsize = size; f.hsize = 2 * size;
                    f.ncols = size * 4 / 5; f.hcols = 2 * f.ncols;
                    f.salt = ch * 3 + groups;
                    Run r = native(f, { npath(), mc::fmt("%d", ch), "pgm", "1" });
                    string what = mc::fmt("channel %d of %03x, %u groups", ch, mask, groups);
                    if (!((mask >> ch) & 1)) { mc::count(); refused(r, what); }
                    else compare(f, ch, r, what);
                }
    for (const char* ch : { "-1", "12", "99", "2147483647", "-2147483648" })
    {
        if (!mc::begin("native2Image, channel %s", ch)) continue;
        File f;
        f.mask = 0xfff;
        Run r = native(f, { npath(), ch, "pgm", "1" });
        mc::count();
        refused(r, mc::fmt("channel %s", ch));
    }
    // Scales, on images of blocks of one value each
    for (double scale : { 1.0, 0.5, 0.25, 2.0 })
        for (int cols : { 4, 8 })
            for (int lines : { 4, 8 })
            {
                if (!mc::begin("native2Image of %dx%d, scale %g", cols, lines, scale)) continue;
                File f;
                f.nlines = f.groups = lines;
                f.ncols = cols;
                for (int y = 0; y < lines; ++y)
                {
                    vector<unsigned> v;
                    for (int x = 0; x < cols; ++x) v.push_back(100 + y / 4 * 300 + x / 4 * 150);
                    f.data_of[y] = pack10(v);
                }
                f.vsize = cols * 10 / 8;
                Run r = native(f, { npath(), "0", "pgm", mc::fmt("%g", scale) });
                Pgm p;
                mc::count();
                ++mc::sh->states;
                string what = mc::fmt("%dx%d, scale %g", cols, lines, scale);
                if (!picture(r, "MSG1.pgm", p, what)) continue;
                int w = cols * scale, h = lines * scale;
                if (p.w != w || p.h != h) { mc::fail("scale", "%s: %dx%d and not %dx%d", what.c_str(), p.w, p.h, w, h); continue; }
                vector<long> want;
                for (int y = 0; y < h; ++y)
                    for (int x = 0; x < w; ++x)
                        want.push_back(100 + (lines - 1 - (int)(y / scale)) / 4 * 300 + (cols - 1 - (int)(x / scale)) / 4 * 150);
                if (cols > 4 || lines > 4) check_stretched(p.v, want, what);
            }
    File f;
    f.mask = 3;
    string all = f.encode();
    struct Bad { const char* what; vector<string> args; };
    const Bad bad[] = { { "no arguments", {} }, { "no channel", { npath() } }, { "no format", { npath(), "0" } }, { "no scale", { npath(), "0", "pgm" } },
                        { "no file", { mc::work + "/none", "0", "pgm", "1" } }, { "a directory", { mc::work, "0", "pgm", "1" } } };
    for (auto& b : bad)
    {
        if (!mc::begin("native2Image: %s", b.what)) continue;
        Run r = native(f, b.args);
        mc::count();
        refused(r, b.what);
    }
    if (mc::begin("native2Image: nowhere to write"))
    {
        mc::write_file(npath(), all);
        Run r = run(tool_native2Image, "native2Image", { npath(), "0", "pgm", "1" }, [] { mc::make_dirs(here() + "/MSG1.pgm"); });
        mc::count();
        refused(r, "nowhere to write");
    }
    const int sizes[] = { -1, 0, 1, 1000, 40000, 2000000000 };
    for (int lines : sizes)
        for (int cols : sizes)
        {
            if (!mc::begin("native2Image, %d lines and %d columns", lines, cols)) continue;
            File g;
            g.mask = 1;
            g.groups = 2;
            g.nlines = lines;
            g.ncols = cols;
            Run r = native(g, { npath(), "0", "pgm", "1" });
            mc::count();
            if (lines < 1 || cols < 1 || lines > 2) refused(r, mc::fmt("%d lines and %d columns", lines, cols));
        }
    mc::sample("channel 11 with 3 groups of lines: 9 lines, upside down in the image");
}

MC_GROUP(native_dump)
{
    for (unsigned mask : { 1u, 0x800u, 0xfffu, 0x0a4u })
        for (unsigned groups : { 1u, 2u })
        {
            if (!mc::begin("nativedump, channels %03x, %u groups", mask, groups)) continue;
            File f;
            f.mask = mask;
            f.groups = f.nlines = groups;
            f.hlines = 3 * groups;
            Run r = native(f, { npath() }, nullptr, tool_nativedump, "nativedump");
            mc::count();
            ++mc::sh->states;
            // What the library makes of it (which has a check of its own)
            MSG_native n;
            if (!n.open(const_cast<char*>(npath().c_str()))) { mc::fail("harness", "not opened"); continue; }
            n.read();
            string want = text_of(n);
            if (!r.ok()) mc::fail("error", "%03x: %s", mask, mc::outcome(r.rc).c_str());
            else if (r.out != want) mc::fail("dump", "%03x: %zu bytes and not the %zu of the file", mask, r.out.size(), want.size());
        }
    File f;
    f.mask = 0x801;
    string all = f.encode();
    vector<size_t> cuts;
    for (size_t i = 0; i < all.size(); i += mc::thorough ? 6001 : 40009) cuts.push_back(i);
    for (size_t i = 1; i <= 3; ++i) cuts.push_back(all.size() - i);
    for (size_t i : { 5113, 5114, 5115, 5130, 5152, 5153 }) cuts.push_back(i);
    for (size_t cut : cuts)
        for (int tool = 0; tool < 2; ++tool)
        {
            if (!mc::begin("%s of a file cut at %zu", tool ? "native2Image" : "nativedump", cut)) continue;
            string s = all.substr(0, cut);
            Run r = tool ? native(f, { npath(), "0", "pgm", "1" }, &s) : native(f, { npath() }, &s, tool_nativedump, "nativedump");
            mc::count();
            refused(r, mc::fmt("cut at %zu", cut));
        }
    for (int i = 0; i < 2; ++i)
    {
        if (!mc::begin("nativedump, bad arguments %d", i)) continue;
        Run r = run(tool_nativedump, "nativedump", i ? vector<string>{ mc::work + "/none" } : vector<string>{});
        mc::count();
        refused(r, i ? "no such file" : "no file");
    }
}

// ------------------------------------------------------------- OpenMTP-IDS

namespace {

string ipath() { return mc::work + "/in.ids"; }

Run ids(Tool tool, const char* name, const string& data)
{
    mc::write_file(ipath(), data);
    return run(tool, name, { ipath() });
}

enum { H_VIS = 10, H_WV = 11, H_IR = 12 };

string pgm_of(const MImage& m, unsigned id)
{
    unsigned n = 0, w = 0;
    string d;
    for (auto& l : m.lines()) if (l.field[4] == id) { ++n; w = l.pixels.size(); d += l.pixels; }
    return n && w ? mc::fmt("P5\n%u %u\n255\n", w, n) + d : "";
}

}

MC_GROUP(ids_images)
{
    const char* id_names[] = { "", "vis", "vis", "vis", "vis", "vis", "vis", "vis", "vis", "ir", "ir", "wv", "wv" };
    unsigned vis_ids[16], nvis = 0, ir_ids[2] = { IR_1, IR_2 }, wv_ids[2] = { WV_1, WV_2 };
    for (unsigned i : { VIS_1, VIS_2, VIS_1_2, VIS_3, VIS_4, VIS_2_3, VIS_2_4, VIS_3_4 }) vis_ids[nvis++] = i;
    (void)id_names;
    // All arrangements of lines of three channels and of none of them
    for (unsigned nlines = 1; nlines <= (mc::thorough ? 5 : 4); ++nlines)
        for (unsigned recs = 1; recs <= 2; ++recs)
            mc::all_sequences(nlines, 4, [&](const vector<unsigned>& kinds) {
                if (recs == 2 && nlines < 2) return;
                string name;
                for (unsigned k : kinds) name += "viw-"[k];
                if (!mc::begin("OpenMTP-IDS_to_pgm of lines %s in %u records", name.c_str(), recs)) return;
                Shape sh(recs);
                for (unsigned i = 0; i < nlines; ++i) sh[recs == 1 ? 0 : i % 2 ? 1 : 0].push_back({ 3, 0 });
                MImage m = make_image(sh);
                unsigned v = vis_ids[(nlines + kinds[0]) % nvis], i = ir_ids[kinds[0] % 2], w = wv_ids[kinds.back() % 2];
                m.h[H_VIS] = v; m.h[H_IR] = i; m.h[H_WV] = w;
                unsigned at = 0;
                for (auto& r : m.recs) for (auto& l : r.lines) { unsigned k = kinds[at++]; l.field[4] = k == 0 ? v : k == 1 ? i : k == 2 ? w : 999; }
                std::map<string, string> want;
                if (pgm_of(m, v) != "") want["vis.pgm"] = pgm_of(m, v);
                if (pgm_of(m, i) != "") want["ir.pgm"] = pgm_of(m, i);
                if (pgm_of(m, w) != "") want["wv.pgm"] = pgm_of(m, w);
                Run r = ids(tool_ids_to_pgm, "OpenMTP-IDS_to_pgm", m.encode());
                mc::count();
                ++mc::sh->states;
                if (r.ok() != !want.empty()) mc::fail("result", "lines %s: %s", name.c_str(), mc::outcome(r.rc).c_str());
                if (r.files != want)
                {
                    string made;
                    for (auto& f : r.files) made += " " + f.first + (want.count(f.first) && want[f.first] == f.second ? "" : " (other)");
                    mc::fail("images", "lines %s: makes%s", name.c_str(), made.c_str());
                }
            });
    // Channels that are not there, and every identity
    for (unsigned v = 0; v < 14; ++v)
        for (unsigned i = 0; i < 14; i += mc::thorough ? 1 : 3)
            for (unsigned w = 0; w < 14; w += mc::thorough ? 1 : 3)
            {
                auto file = [&](unsigned id) -> string {
                    for (unsigned k = 0; k < nvis; ++k) if (vis_ids[k] == id) return "vis.pgm";
                    return id == IR_1 || id == IR_2 ? "ir.pgm" : id == WV_1 || id == WV_2 ? "wv.pgm" : "unknown-channel.pgm";
                };
                if ((v && i && file(v) == file(i)) || (v && w && file(v) == file(w)) || (i && w && file(i) == file(w))) continue;
                if (!mc::begin("OpenMTP-IDS_to_pgm of channels %u, %u and %u", v, i, w)) continue;
                MImage m = make_image({ { { 2, 0 }, { 2, 0 }, { 2, 0 }, { 2, 0 } } });
                m.h[H_VIS] = v; m.h[H_IR] = i; m.h[H_WV] = w;
                unsigned id[] = { v, i, w, 0 };
                for (unsigned k = 0; k < 4; ++k) m.recs[0].lines[k].field[4] = id[k];
                std::map<string, string> want;
                for (unsigned k = 0; k < 3; ++k) if (id[k]) want[file(id[k])] = pgm_of(m, id[k]);
                Run r = ids(tool_ids_to_pgm, "OpenMTP-IDS_to_pgm", m.encode());
                mc::count();
                ++mc::sh->states;
                if (r.ok() != !want.empty()) mc::fail("result", "channels %u, %u, %u: %s", v, i, w, mc::outcome(r.rc).c_str());
                if (r.files != want) mc::fail("images", "channels %u, %u, %u: %zu images, others than those of the file", v, i, w, r.files.size());
            }
    // Nowhere to write one of the images, or all
    for (unsigned mask = 0; mask < 8; ++mask)
    {
        if (!mc::begin("OpenMTP-IDS_to_pgm, %x cannot be written", mask)) continue;
        MImage m = make_image({ { { 2, 0 }, { 2, 0 }, { 2, 0 } } });
        m.h[H_VIS] = VIS_1; m.h[H_IR] = IR_1; m.h[H_WV] = WV_1;
        for (unsigned k = 0; k < 3; ++k) m.recs[0].lines[k].field[4] = m.h[k == 0 ? H_VIS : k == 1 ? H_IR : H_WV];
        mc::write_file(ipath(), m.encode());
        const char* n[] = { "vis.pgm", "ir.pgm", "wv.pgm" };
        Run r = run(tool_ids_to_pgm, "OpenMTP-IDS_to_pgm", { ipath() }, [&] {
            for (unsigned k = 0; k < 3; ++k) if ((mask >> k) & 1) mc::make_dirs(here() + "/" + n[k]);
        });
        mc::count();
        if (r.ok() != (mask != 7)) mc::fail("result", "%x cannot be written: %s", mask, mc::outcome(r.rc).c_str());
        for (unsigned k = 0; k < 3; ++k)
            if (!((mask >> k) & 1) && r.files[n[k]] != pgm_of(m, m.recs[0].lines[k].field[4])) mc::fail("images", "%x cannot be written: %s is another", mask, n[k]);
    }
    mc::sample("lines v i w - in two records: vis.pgm, ir.pgm and wv.pgm, of one line each");
}

MC_GROUP(ids_copies)
{
    vector<Shape> shapes = { {}, { {} }, { { { 0, 0 } } }, { { { 3, 0 }, { 3, 0 } } }, { { { 3, 1 } }, { { 5, 0 }, { 1, 2 } } }, { { { 300, 0 } }, {}, { { 2, 2 } } } };
    for (unsigned i = 0; i < shapes.size(); ++i)
        for (unsigned pad : { 0u, 40u })
        {
            MImage m = make_image(shapes[i], pad);
            string data = m.encode();
            if (mc::begin("OpenMTP-IDS_write of shape %u, padding %u", i, pad))
            {
                Run r = ids(tool_ids_write, "OpenMTP-IDS_write", data);
                mc::count();
                ++mc::sh->states;
                std::map<string, string> want = { { "test.omtp-ids", data } };
                if (!r.ok()) mc::fail("error", "shape %u: %s", i, mc::outcome(r.rc).c_str());
                else if (r.files != want) mc::fail("copy", "shape %u: %zu bytes and not the %zu of the file", i, r.files["test.omtp-ids"].size(), data.size());
                mc::write_file(ipath(), data);
                r = run(tool_ids_write, "OpenMTP-IDS_write", { ipath() }, [] { mc::make_dirs(here() + "/test.omtp-ids"); });
                refused(r, "nowhere to write");
            }
            if (mc::begin("OpenMTP-IDS_debug of shape %u, padding %u", i, pad))
            {
                Run r = ids(tool_ids_debug, "OpenMTP-IDS_debug", data);
                mc::count();
                std::ostringstream o;
                OpenMTP_IDS(ipath().c_str()).debug(o);
                if (!r.ok()) mc::fail("error", "shape %u: %s", i, mc::outcome(r.rc).c_str());
                else if (r.out != o.str()) mc::fail("dump", "shape %u: %zu bytes and not %zu", i, r.out.size(), o.str().size());
            }
        }
    // Cut anywhere, by all tools
    MImage m = make_image({ { { 3, 1 }, { 2, 0 } }, { { 4, 0 } } }, 6);
    m.h[H_VIS] = m.recs[0].lines[0].field[4] = 1;
    string all = m.encode();
    struct T { Tool tool; const char* name; };
    const T tools[] = { { tool_ids_write, "OpenMTP-IDS_write" }, { tool_ids_debug, "OpenMTP-IDS_debug" }, { tool_ids_to_pgm, "OpenMTP-IDS_to_pgm" }, { tool_ids_sector, "OpenMTP-IDS_sector" } };
    for (auto& t : tools)
    {
        for (size_t cut = 0; cut < all.size(); cut += mc::thorough ? 1 : 3)
        {
            if (!mc::begin("%s of a file cut at %zu", t.name, cut)) continue;
            Run r = ids(t.tool, t.name, all.substr(0, cut));
            mc::count();
            refused(r, mc::fmt("%s cut at %zu", t.name, cut));
        }
        for (int i = 0; i < 3; ++i)
        {
            if (!mc::begin("%s, bad arguments %d", t.name, i)) continue;
            Run r = run(t.tool, t.name, i == 0 ? vector<string>{} : vector<string>{ i == 1 ? mc::work + "/none" : mc::work });
            mc::count();
            refused(r, mc::fmt("bad arguments %d", i));
        }
        // Records or lines more than there are
        for (unsigned h : { 0u, 1u, 2u, 4u, 65535u })
        {
            if (!mc::begin("%s of a file with %u records", t.name, h)) continue;
            MImage n = m;
            n.h[H_RECORDS] = h;
            Run r = ids(t.tool, t.name, n.encode());
            mc::count();
            // (fewer of them are another image)
            if (h != 1 && h != 2) refused(r, mc::fmt("%s of a file with %u records", t.name, h));
        }
    }
}

MC_GROUP(ids_sectors)
{
    const unsigned L0 = 2655, L1 = 3165, P0 = 546, P1 = 802;
    struct Size { unsigned lines, pixels; };
    const Size sizes[] = { { L1, P1 }, { L1 + 1, P1 + 1 }, { L1 + 100, 2500 }, { L1 - 1, P1 }, { L1, P1 - 1 }, { L0, P1 }, { L0 + 1, P1 }, { L1, P0 }, { L1, 1 }, { L1, 0 }, { 1, 1 }, { 0, 0 } };
    for (auto& s : sizes)
        for (unsigned per : { 1u, 4u, 1000u })
        {
            if (!mc::begin("OpenMTP-IDS_sector of %ux%u, %u lines in a record", s.pixels, s.lines, per)) continue;
            Shape sh;
            for (unsigned i = 0; i < s.lines; i += per)
                sh.push_back(vector<std::pair<unsigned, unsigned>>(std::min(per, s.lines - i), { s.pixels, 0 }));
            MImage m = make_image(sh);
            string what = mc::fmt("%ux%u", s.pixels, s.lines);
            Run r = ids(tool_ids_sector, "OpenMTP-IDS_sector", m.encode());
            mc::count();
            ++mc::sh->states;
            if (s.lines < L1 || s.pixels < P1) { refused(r, what); continue; }
            if (!r.ok()) { mc::fail("error", "%s: %s", what.c_str(), mc::outcome(r.rc).c_str()); continue; }
            const string& d = r.files["omtp-ids-sector.ids"];
            if (r.files.size() != 1 || d.empty()) { mc::fail("no output", "%s: %zu files", what.c_str(), r.files.size()); continue; }
            // The header is that of the file, but for the records
            auto num = [&](size_t p) { return p + 1 < d.size() ? (unsigned char)d[p] << 8 | (unsigned char)d[p + 1] : -1; };
            MImage w = m;
            w.h[H_RECORDS] = num(2);
            int reclen = -1;
            {
                MImage probe = m;
                probe.h[H_RECLEN] = 0;
                string a = probe.encode_header();
                probe.h[H_RECLEN] = 0x0101;
                string b = probe.encode_header();
                for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] != b[i]) { reclen = num(i); break; }
            }
            w.h[H_RECLEN] = reclen;
            string head = w.encode_header();
            if (reclen < 0 || d.compare(0, head.size(), head) != 0) { mc::fail("header", "%s: the header of the sector is another", what.c_str()); continue; }
            // Records of as many lines each, filled up with empty lines
            size_t p = head.size();
            vector<MLine> lines = m.lines();
            unsigned n = L0, records = 0;
            bool bad = false;
            while (p < d.size() && !bad)
            {
                int nl = num(p + 4), len = num(p + 6);
                p += 10;
                ++records;
                if (nl < 1 || len != reclen || len != 8 + nl * (int)(16 + P1 - P0)) { mc::fail("record", "%s: record %u of %d lines and %d bytes, with %d in the header", what.c_str(), records, nl, len, reclen); bad = true; break; }
                for (int i = 0; i < nl; ++i)
                {
                    string got = d.substr(std::min(p, d.size()), 16 + P1 - P0);
                    p += 16 + P1 - P0;
                    MLine l;
                    if (n < L1)
                    {
                        l = lines[n++];
                        l.pixels = l.pixels.substr(P0, P1 - P0);
                        l.field[2] = P0;
                        l.sizes();
                    }
                    else
                    {
                        // Not a line of the sector
                        string zeros(P1 - P0, '\0');
                        if (got.size() != 16 + zeros.size() || got.substr(16) != zeros || got[6] != (char)((P1 - P0) >> 8) || got[7] != (char)(P1 - P0)) { mc::fail("fill", "%s: line %d of record %u fills up", what.c_str(), i, records); bad = true; break; }
                        continue;
                    }
                    if (got != l.encode()) { mc::fail("line", "%s: line %u of the image is another in the sector", what.c_str(), n - 1); bad = true; break; }
                }
            }
            if (!bad && (n != L1 || records + 1 != w.h[H_RECORDS])) mc::fail("records", "%s: %u records and lines up to %u, %u records in the header", what.c_str(), records, n, w.h[H_RECORDS]);
        }
    if (mc::begin("OpenMTP-IDS_sector, nowhere to write"))
    {
        MImage m = make_image(Shape(1, vector<std::pair<unsigned, unsigned>>(L1, { P1, 0 })));
        mc::write_file(ipath(), m.encode());
        Run r = run(tool_ids_sector, "OpenMTP-IDS_sector", { ipath() }, [] { mc::make_dirs(here() + "/omtp-ids-sector.ids"); });
        mc::count();
        refused(r, "nowhere to write");
    }
}

// ------------------------------------------------------------ OpenMTP, DB1

MC_GROUP(openmtp_info)
{
    const size_t ASCII = 1345, SEC1 = 5175, SEC2 = 2636, SEC3 = 136704, SEC3_VIS = 185188;
    string path = mc::work + "/in.omtp";
    auto make = [&](int chan, int proc, int lines, int pixels) {
        string a(ASCII, 'A'), b(SEC1 + SEC2 + (chan == 3 ? SEC3_VIS : SEC3), '\0');
        auto put = [&](size_t p, int v) { for (int i = 0; i < 4; ++i) b[p + i] = (char)(v >> (24 - 8 * i)); };
        put(8, 1999); put(24, 991231); put(28, 1230); b.replace(32, 2, "M7"); b.replace(44, 13, "0763905012014");
        put(36, proc); put(40, chan); put(131, lines); put(135, pixels);
        string s = a + b;
        for (int y = 0; y < lines; ++y) { s += string(32, 'h'); for (int x = 0; x < pixels; ++x) s += (char)(y * 16 + x); }
        return s;
    };
    for (int chan : { 1, 3, 4, 7 })
        for (int lines : { 1, 5 })
        {
            if (!mc::begin("OpenMTP_info, channel %d, %d lines", chan, lines)) continue;
            mc::write_file(path, make(chan, 5, lines, 4));
            Run r = run(tool_OpenMTP_info, "OpenMTP_info", { path });
            mc::count();
            ++mc::sh->states;
            OpenMTP o;
            o.open(const_cast<char*>(path.c_str()));
            string want = text_of(o);
            if (!r.ok()) mc::fail("error", "channel %d: %s", chan, mc::outcome(r.rc).c_str());
            // (the library may say something before)
            else if (r.out.size() < want.size() || r.out.substr(r.out.size() - want.size()) != want) mc::fail("dump", "channel %d: %zu bytes and not %zu", chan, r.out.size(), want.size());
        }
    string all = make(4, 5, 3, 4);
    vector<size_t> cuts = { 0, 1, ASCII - 1, ASCII, ASCII + 1, all.size() - 1, all.size() - 5, all.size() - 36 };
    for (size_t c = 700; c < all.size(); c += mc::thorough ? 997 : 9973) cuts.push_back(c);
    for (size_t cut : cuts)
    {
        if (!mc::begin("OpenMTP_info of a file cut at %zu", cut)) continue;
        mc::write_file(path, all.substr(0, cut));
        Run r = run(tool_OpenMTP_info, "OpenMTP_info", { path });
        mc::count();
        refused(r, mc::fmt("cut at %zu", cut));
    }
    struct Size { int lines, pixels; };
    for (auto& z : vector<Size>{ { -1, 4 }, { 4, -1 }, { 0x7fffffff, 0x7fffffff } })
    {
        if (!mc::begin("OpenMTP_info of %d lines of %d", z.lines, z.pixels)) continue;
        string s = make(4, 5, 1, 1);
        for (int i = 0; i < 4; ++i) { s[ASCII + 131 + i] = (char)(z.lines >> (24 - 8 * i)); s[ASCII + 135 + i] = (char)(z.pixels >> (24 - 8 * i)); }
        mc::write_file(path, s);
        Run r = run(tool_OpenMTP_info, "OpenMTP_info", { path });
        mc::count();
        refused(r, mc::fmt("%d lines of %d", z.lines, z.pixels));
    }
    for (int i = 0; i < 3; ++i)
    {
        if (!mc::begin("OpenMTP_info, bad arguments %d", i)) continue;
        Run r = run(tool_OpenMTP_info, "OpenMTP_info", i == 0 ? vector<string>{} : vector<string>{ i == 1 ? mc::work + "/none" : mc::work });
        mc::count();
        refused(r, mc::fmt("bad arguments %d", i));
    }
}

MC_GROUP(db1_images)
{
    string dir = mc::work + "/db1", opath = mc::work + "/overlay.pgm";
    struct Db
    {
        int pixels = 8, lines = 8, given = 64;
        string northsouth = "no", start = "01/02/2006 10:30:00.000", satellite = "MSG 1";
        std::function<unsigned(int)> value = [](int i) { return 100u + i / 32 * 300 + i / 4 % 2 * 150; };
    };
    auto store = [&](const Db& d) {
        mc::clean(dir);
        mc::make_dirs(dir);
        mc::write_file(dir + "/AoI", "nPixels = 8\nnLines = 8\n");
        mc::write_file(dir + "/INFO.DBI", "[Satellite]\nName = " + d.satellite + "\n[Schedule]\nStart = " + d.start + "\nNorthSouth = " + d.northsouth + "\n[Image]\nPixels = "
                       + mc::fmt("%d\nLines = %d\nBitsPerPixel = 10\n[Channel1]\nName = VIS006\nVariable = Radiance\n[Channel2]\nName = IR_108\nVariable = Temperature\n", d.pixels, d.lines));
        for (const char* c : { "VIS006", "IR_108" })
        {
            string s;
            for (int i = 0; i < d.given; ++i) { unsigned v = d.value(i) + (*c == 'I' ? 5 * (i % 8 < 4) : 0); s += (char)v; s += (char)(v >> 8); }
            mc::write_file(dir + "/" + c + ".RAW", s);
        }
    };
    auto name = [](const Db& d, const string& ch) {
        string s = d.satellite + "_" + ch + "_" + d.start + ".pgm";
        for (char& c : s) c = c == '/' || c == ':' ? '-' : c == ' ' ? '_' : c;
        return s;
    };
    for (const char* ch : { "VIS006", "IR_108" })
        for (const char* ns : { "no", "yes" })
            for (double scale : { 1.0, 0.75, 0.5, 0.25 })
                for (int shape = 0; shape < 2; ++shape)
                    for (int overlay = 0; overlay < 2; ++overlay)
                    {
                        if (!mc::begin("db1_to_image of %s, north to south %s, scale %g, shape %d, overlay %d", ch, ns, scale, shape, overlay)) continue;
                        Db d;
                        d.northsouth = ns;
                        if (shape) { d.pixels = 4; d.lines = 16; d.value = [](int i) { return 77u + i / 16 * 200; }; }
                        store(d);
                        vector<string> args = { dir, ch, "pgm", mc::fmt("%g", scale) };
                        string od = mc::fmt("P5\n%d %d\n65535\n", d.pixels, d.lines);
                        vector<long> o;
                        for (int i = 0; i < 64; ++i)
                        {
                            // White in the block at the top left
                            unsigned v = i / d.pixels < 4 && i % d.pixels < 4 ? 65535 : 0;
                            o.push_back(v);
                            od += (char)(v >> 8); od += (char)v;
                        }
                        mc::write_file(opath, od);
                        if (overlay) args.push_back(opath);
                        Run r = run(tool_db1_to_image, "db1_to_image", args);
                        mc::count();
                        ++mc::sh->states;
                        Pgm p;
                        string what = mc::fmt("%s, north to south %s, scale %g, overlay %d", ch, ns, scale, overlay);
                        if (!picture(r, name(d, ch), p, what)) continue;
                        int w = d.pixels * scale, h = d.lines * scale;
                        if (p.w != w || p.h != h) { mc::fail("size", "%s: %dx%d and not %dx%d", what.c_str(), p.w, p.h, w, h); continue; }
                        vector<long> want;
                        for (int y = 0; y < h; ++y)
                            for (int x = 0; x < w; ++x)
                            {
                                int at = (int)(y / scale) * d.pixels + (int)(x / scale), from = *ns == 'y' ? at : 63 - at;
                                long v = d.value(from) + (*ch == 'I' ? 5 * (from % 8 < 4) : 0);
                                want.push_back(overlay && o[at] ? 100000 : v);
                            }
                        if (shape && *ch == 'I') continue;      // values in a block differ
                        check_stretched(p.v, want, what, !overlay);
                    }
    // Of another size than the data
    for (int pixels : { -1, 0, 1, 8, 40000 })
        for (int lines : { -1, 0, 1, 8, 40000, 2000000000 })
            for (int given : { 0, 1, 63, 64, 65 })
            {
                if (!mc::begin("db1_to_image of %dx%d with %d values", pixels, lines, given)) continue;
                Db d;
                d.pixels = pixels; d.lines = lines; d.given = given;
                store(d);
                Run r = run(tool_db1_to_image, "db1_to_image", { dir, "VIS006", "pgm", "1" });
                mc::count();
                ++mc::sh->states;
                string what = mc::fmt("%dx%d with %d values", pixels, lines, given);
                if (pixels < 1 || lines < 1 || (long)pixels * lines > given) refused(r, what);
                else { Pgm p; if (picture(r, name(d, "VIS006"), p, what) && (p.w != pixels || p.h != lines)) mc::fail("size", "%s: %dx%d", what.c_str(), p.w, p.h); }
            }
    struct Bad { const char* what; vector<string> args; };
    const Bad bad[] = { { "no arguments", {} }, { "no channel", { dir } }, { "no format", { dir, "VIS006" } }, { "no scale", { dir, "VIS006", "pgm" } },
                        { "no directory", { mc::work + "/none", "VIS006", "pgm", "1" } }, { "other channel", { dir, "IR_120", "pgm", "1" } },
                        { "no overlay", { dir, "VIS006", "pgm", "1", mc::work + "/none.pgm" } } };
    Db d;
    for (auto& b : bad)
    {
        if (!mc::begin("db1_to_image: %s", b.what)) continue;
        store(d);
        Run r = run(tool_db1_to_image, "db1_to_image", b.args);
        mc::count();
        refused(r, b.what);
    }
    if (mc::begin("db1_to_image: nowhere to write"))
    {
        store(d);
        Run r = run(tool_db1_to_image, "db1_to_image", { dir, "VIS006", "pgm", "1" }, [&] { mc::make_dirs(here() + "/" + name(d, "VIS006")); });
        mc::count();
        refused(r, "nowhere to write");
    }
    for (const char* gone : { "AoI", "INFO.DBI", "VIS006.RAW" })
    {
        if (!mc::begin("db1_to_image without %s", gone)) continue;
        store(d);
        unlink((dir + "/" + gone).c_str());
        Run r = run(tool_db1_to_image, "db1_to_image", { dir, "VIS006", "pgm", "1" });
        mc::count();
        if (strcmp(gone, "AoI")) refused(r, mc::fmt("without %s", gone));
    }
    mc::sample("VIS006 of an image from south to north, scale 0.5: turned, and each block of 2x2 is a pixel");
}

// -------------------------------------------------------------- a full disk

MC_GROUP(full_disk)
{
    struct Case { const char* name; Tool tool; string output; vector<string> args; };
    auto im = image(4, 3, 2);
    im.write_all();
    File f;
    f.mask = 1;
    mc::write_file(npath(), f.encode());
    MImage m = make_image(Shape(1, vector<std::pair<unsigned, unsigned>>(3165, { 802, 0 })));
    m.h[H_VIS] = 0; m.h[H_WV] = 0; m.h[H_IR] = IR_1;
    for (auto& l : m.recs[0].lines) l.field[4] = IR_1;
    mc::write_file(ipath(), m.encode());
    MImage tiny = make_image({ { { 2, 0 } } });
    tiny.h[H_IR] = tiny.recs[0].lines[0].field[4] = IR_1;
    tiny.h[H_VIS] = tiny.h[H_WV] = 0;
    string small = mc::work + "/small.ids";
    mc::write_file(small, tiny.encode());
    const vector<Case> cases = {
        { "XRIT2Image", tool_XRIT2Image, xname(im, "pgm"), xargs(im, { "-f", "pgm" }) },
        { "native2Image", tool_native2Image, "MSG1.pgm", { npath(), "0", "pgm", "1" } },
        { "OpenMTP-IDS_to_pgm", tool_ids_to_pgm, "ir.pgm", { ipath() } },
        { "OpenMTP-IDS_to_pgm", tool_ids_to_pgm, "ir.pgm", { small } },
        { "OpenMTP-IDS_write", tool_ids_write, "test.omtp-ids", { ipath() } },
        { "OpenMTP-IDS_write", tool_ids_write, "test.omtp-ids", { small } },
        { "OpenMTP-IDS_sector", tool_ids_sector, "omtp-ids-sector.ids", { ipath() } },
        { "xritdump", tool_xritdump, "", { im.short_name() } },
        { "nativedump", tool_nativedump, "", { npath() } },
        { "OpenMTP-IDS_debug", tool_ids_debug, "", { ipath() } },
        { "OpenMTP-IDS_debug", tool_ids_debug, "", { small } },
    };
    unsigned n = 0;
    for (auto& c : cases)
        for (int full = 0; full < 2; ++full)
        {
            if (!mc::begin("%s (%u) to a disk that is %s", c.name, n++ / 2, full ? "full" : "not full")) continue;
            bool out = c.output.empty();
            Run r = run(c.tool, c.name, c.args, [&] { if (full && !out && symlink("/dev/full", (here() + "/" + c.output).c_str()) != 0) mc::fail("harness", "symlink"); }, full && out ? "/dev/full" : nullptr);
            mc::count();
            if (full) refused(r, mc::fmt("%s to a full disk", c.name));
            else if (!r.ok()) mc::fail("error", "%s: %s", c.name, mc::outcome(r.rc).c_str());
        }
}
