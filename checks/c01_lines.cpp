// C01: scan lines of xRIT images against a model of the image, over segment
// subsets, file names and orders, HRV windows, and all read histories up to a
// depth.
#include "mc.hpp"
#include "enumerate.hpp"
#include "synth.hpp"
#include <msat/hrit/MSG_HRIT.h>
#include <msat/xrit/dataaccess.h>
#include <msat/xrit/fileaccess.h>
#include <memory>

using namespace msat::xrit;
using std::string;
using std::vector;
using synth::Image;

namespace {

/// A scanned image
struct Scanned
{
    MSG_data pro, epi;
    MSG_header header;
    DataAccess da;
    explicit Scanned(const Image& img) { da.scan(FileAccess(img.short_name()), pro, epi, header); }
};

/// Model: the samples of a line counted from north, or nothing
bool model_line(const Image& img, unsigned present, int line, vector<unsigned>& out)
{
    int south = (img.channel_id == 12 ? 11136 : 3712) - 1 - line;
    out.assign(img.columns, 0);
    int seg = south / img.seglines;
    if (south < 0 || seg >= img.segments || !(present >> seg & 1)) return false;
    for (int c = 0; c < img.columns; ++c) out[c] = img.sample(south, c);
    return true;
}

string vals(const MSG_SAMPLE* p, size_t n)
{
    string r;
    for (size_t i = 0; i < n; ++i) r += mc::fmt("%s%u", i ? "," : "", (unsigned)p[i]);
    return r;
}

/// Read a line and compare. The buffer is exactly as long as documented.
void check_line(const DataAccess& da, const Image& img, unsigned present, int line, const char* what)
{
    std::unique_ptr<MSG_SAMPLE[]> buf(new MSG_SAMPLE[img.columns]);
    memset(buf.get(), 0x5a, img.columns * sizeof(MSG_SAMPLE));
    da.line_read(line, buf.get());
    vector<unsigned> want;
    bool some = model_line(img, present, line, want);
    mc::count(some);
    ++mc::sh->transitions;
    for (int c = 0; c < img.columns; ++c)
        if (buf[c] != want[c])
        {
            vector<MSG_SAMPLE> w(want.begin(), want.end());
            mc::fail(mc::fmt("%s line-%d", what, line), "line %d (segments present %x of %d, %s first): read %s, the file has %s", line, present, img.segments,
                     img.east_first ? "east" : "west", vals(buf.get(), img.columns).c_str(), vals(w.data(), w.size()).c_str());
            return;
        }
}

Image base(const char* name)
{
    Image img;
    img.dir = mc::work + "/" + name;
    mc::make_dirs(img.dir);
    return img;
}

void write(const Image& img, unsigned present)
{
    mc::make_dirs(img.dir);
    img.write_prologue();
    img.write_epilogue();
    for (int s = 0; s < img.segments; ++s)
        if (present >> s & 1) img.write_segment(s + 1);
}

struct Chan { const char* name; unsigned id; };
const Chan channels[] = {{"VIS006", 1}, {"VIS008", 2}, {"IR_016", 3}, {"IR_039", 4}, {"WV_062", 5}, {"WV_073", 6}, {"IR_087", 7}, {"IR_097", 8}, {"IR_108", 9}, {"IR_120", 10}, {"IR_134", 11}};

}

// Every line of complete images: segment sizes, widths, orientation, codec
static void all_lines(int from, int to)
{
    const int segs[] = {1, 2, 4, 8, 16, 29};
    for (int si = from; si < to; ++si)
        for (int columns : {1, 2, 3, 7})
            for (bool east : {true, false})
                for (int format : {synth::FMT_WAVELET, synth::FMT_JPEG, synth::FMT_T4})
                {
                    if (!mc::thorough && format != synth::FMT_WAVELET && columns != 3) continue;
                    if (!mc::begin("all lines, %d segments, %d columns, east first %d, codec %d", segs[si], columns, east, format)) continue;
                    Image img = base("i");
                    img.segments = segs[si];
                    img.seglines = 3712 / segs[si];
                    img.columns = columns;
                    img.east_first = east;
                    img.format = format;
                    const Chan& ch = channels[(si * 7 + columns + format) % 11];
                    img.channel = ch.name;
                    img.channel_id = ch.id;
                    unsigned all = img.segments == 32 ? ~0u : (1u << img.segments) - 1;
                    write(img, all);
                    Scanned s(img);
                    ++mc::sh->traces;
                    if ((int)s.da.columns != columns || (int)s.da.lines != 3712)
                        mc::fail("geometry", "columns %zu lines %zu", s.da.columns, s.da.lines);
                    for (int l = 0; l < 3712; ++l)
                        check_line(s.da, img, all, l, "all");
                    // and backwards, and the place where lines start
                    for (int l = 3711; l >= 0; l -= 5)
                    {
                        check_line(s.da, img, all, l, "backwards");
                        if (s.da.line_start(l) != 0) mc::fail("line-start", "line %d starts at %zu", l, s.da.line_start(l));
                    }
                    mc::sample("%d segments of %d lines, %d columns: 3712 lines equal", img.segments, img.seglines, columns);
                    mc::clean(img.dir);
                }
}
MC_GROUP(lines_few_segments) { all_lines(0, 3); }
MC_GROUP(lines_many_segments) { all_lines(3, 6); }

// Every subset of segments
static void subsets(int nseg)
{
    Image img = base("s");
    img.segments = nseg;
    img.seglines = 3712 / nseg;
    img.columns = 2;
    write(img, 0);
    for (unsigned mask = 1; mask < (1u << nseg); ++mask)
    {
        if (!mc::begin("subset %x of %d segments", mask, nseg)) continue;
        for (int s = 0; s < nseg; ++s)
            if (mask >> s & 1) img.write_segment(s + 1);
            else unlink(img.segment_name(s + 1).c_str());
        Scanned sc(img);
        ++mc::sh->states;
        ++mc::sh->traces;
        for (int s = 0; s < nseg; ++s)
            for (int k : {0, 1, img.seglines / 2, img.seglines - 1})
                check_line(sc.da, img, mask, 3711 - (s * img.seglines + k), "subset");
        // the segments themselves
        for (int s = 0; s < nseg + 2; ++s)
        {
            auto d = sc.da.segment(s);
            bool there = s < nseg && (mask >> s & 1);
            if ((d ? true : false) != there) mc::fail(mc::fmt("segment-%d", s), "segment %d is %s, present %x", s, d ? "found" : "missing", mask);
            mc::count();
        }
    }
    mc::sample("all %u non-empty subsets of %d segments", (1u << nseg) - 1, nseg);
}
MC_GROUP(subsets_2) { subsets(2); }
MC_GROUP(subsets_4) { subsets(4); }
MC_GROUP(subsets_8) { subsets(8); }

/// Call f on a sequence over 0..k-1 in which every window of n values appears
/// exactly once (a de Bruijn sequence, closed with its first n-1 values)
template<typename F> static void de_bruijn(unsigned k, unsigned n, F f)
{
    vector<unsigned> a(k * n, 0), seq;
    std::function<void(unsigned, unsigned)> db = [&](unsigned t, unsigned p) {
        if (t > n)
        {
            if (n % p == 0)
                for (unsigned j = 1; j <= p; ++j) seq.push_back(a[j]);
            return;
        }
        a[t] = a[t - p];
        db(t + 1, p);
        for (unsigned j = a[t - p] + 1; j < k; ++j)
        {
            a[t] = j;
            db(t + 1, t);
        }
    };
    a.resize(k * n + n + 2, 0);
    db(1, 1);
    for (unsigned i = 0; i + 1 < n; ++i) seq.push_back(seq[i]);
    for (unsigned v : seq) f(v);
}

/// Explore read histories: all histories of up to two reads from a freshly
/// scanned image, and one long history in which every sequence of depth reads
/// occurs (so every state of the cache with each of those futures)
static void explore(const Image& img, unsigned present, const vector<int>& lines, unsigned fresh, unsigned depth, const char* what)
{
    for (unsigned n = 1; n <= fresh; ++n)
        mc::all_sequences(n, lines.size(), [&](const vector<unsigned>& v) {
            string h;
            for (unsigned i : v) h += mc::fmt(" %d", lines[i]);
            if (!mc::begin("%s present %x of %d, from the start:%s", what, present, img.segments, h.c_str())) return;
            Scanned f(img);
            ++mc::sh->traces;
            for (unsigned i : v) check_line(f.da, img, present, lines[i], what);
        });
    if (!mc::begin("%s present %x of %d, %u reads", what, present, img.segments, depth)) return;
    Scanned sc(img);
    std::set<vector<unsigned>> states;
    vector<unsigned> last;
    de_bruijn(lines.size(), depth, [&](unsigned i) {
        if (mc::sh->transitions % 64 == 0) mc::begin("%s present %x of %d, %u reads", what, present, img.segments, depth);
        check_line(sc.da, img, present, lines[i], what);
        last.push_back(i);
        if (last.size() > depth) last.erase(last.begin());
        if (last.size() == depth) ++mc::sh->traces;
        if (last.size() >= 2 && states.insert({last[last.size() - 2], last.back()}).second) ++mc::sh->states;
    });
}

// Every read history over the first and last line of each segment
static void histories(int nseg, unsigned depth, const vector<unsigned>& presents, bool east)
{
    Image img = base("h");
    img.segments = nseg;
    img.seglines = 3712 / nseg;
    img.columns = 2;
    img.east_first = east;
    vector<int> lines;
    for (int s = 0; s < nseg; ++s)
    {
        lines.push_back(3711 - s * img.seglines);
        lines.push_back(3711 - (s * img.seglines + img.seglines - 1));
    }
    for (unsigned present : presents)
    {
        mc::clean(img.dir);
        write(img, present);
        explore(img, present, lines, 2, depth, "history");
    }
    mc::sample("all histories of %u reads over %zu lines of %d segments", depth, lines.size(), nseg);
}
MC_GROUP(histories_2) { histories(2, mc::thorough ? 9 : 7, {3, 1, 2}, true); }
MC_GROUP(histories_4) { histories(4, mc::thorough ? 7 : 6, {15, 11, 6}, true); }
MC_GROUP(histories_4w) { histories(4, mc::thorough ? 7 : 6, {13, 14}, false); }
MC_GROUP(histories_8) { histories(8, mc::thorough ? 5 : 4, {255, 0xdb, 0x7e}, true); }

// The numbers in the file names and the order of the files do not matter: the
// header of the file says which segment it is
MC_GROUP(names)
{
    Image img = base("n");
    img.segments = 4;
    img.seglines = 928;
    img.columns = 2;
    int perm[4] = {0, 1, 2, 3};
    do
        for (int drop = -1; drop < 4; ++drop)
        {
            if (!mc::begin("names %d%d%d%d without segment %d", perm[0], perm[1], perm[2], perm[3], drop)) continue;
            mc::clean(img.dir);
            write(img, 0);
            unsigned present = 0;
            for (int s = 0; s < 4; ++s)
                if (s != drop) { img.write_segment(s + 1, 11 + perm[s]); present |= 1u << s; }
            Scanned sc(img);
            ++mc::sh->traces;
            for (int l = 3711; l >= 0; l -= 232) check_line(sc.da, img, present, l, "names");
            for (int l = 0; l < 3712; l += 232) check_line(sc.da, img, present, l, "names");
        }
    while (std::next_permutation(perm, perm + 4));
    mc::sample("24 assignments of names to 4 segments, with one or none missing");
}

// Two images open at the same time, reads interleaved in every way
MC_GROUP(two_images)
{
    Image a = base("a"), b = base("b");
    a.segments = b.segments = 4;
    a.seglines = b.seglines = 928;
    a.columns = 2;
    b.columns = 3;
    b.sample = [](int l, int c) { return 1023u - synth::pattern(l, c); };
    write(a, 15);
    write(b, 11);
    Scanned sa(a), sb(b);
    const int lines[] = {3711, 2783, 927};
    unsigned depth = mc::thorough ? 7 : 6;
    if (!mc::begin("interleaved reads")) return;
    vector<unsigned> last;
    de_bruijn(6, depth, [&](unsigned i) {
        if (i < 3) check_line(sa.da, a, 15, lines[i], "interleaved");
        else check_line(sb.da, b, 11, lines[i - 3], "interleaved");
        ++mc::sh->traces;
    });
    mc::sample("all interleavings of %u reads of two images", depth);
}

// HRV: geometry of the two windows
MC_GROUP(hrv_windows)
{
    Image img = base("v");
    img.channel = "HRV";
    img.channel_id = 12;
    img.segments = 24;
    img.seglines = 464;
    img.columns = 2;
    for (int s = 1; s <= 24; ++s) img.write_segment(s);
    img.write_prologue();
    struct Split { int ls, ln, us, un; };
    const Split splits[] = {{1, 8064, 8065, 11136}, {1, 5568, 5569, 11136}, {1, 464, 465, 11136}, {1, 1, 2, 11136}, {1, 11135, 11136, 11136},
                            {100, 8000, 8001, 11136}, {100, 8000, 8010, 11136}, {8065, 11136, 0, 0}, {1, 11136, 0, 0}, {8193, 11136, 0, 0}, {465, 928, 929, 11136}};
    for (auto& sp : splits)
        for (int lw : {5568, 8224, 11136, 2})
            for (int uw : {5568, 6656, 11136, 2})
            {
                if (!mc::begin("HRV windows %d-%d at %d, %d-%d at %d", sp.ls, sp.ln, lw, sp.us, sp.un, uw)) continue;
                img.hrv.ls = sp.ls; img.hrv.ln = sp.ln; img.hrv.us = sp.us; img.hrv.un = sp.un;
                img.hrv.lw = lw; img.hrv.le = lw - 1; img.hrv.uw = uw; img.hrv.ue = uw - 1;
                img.write_epilogue();
                Scanned sc(img);
                ++mc::sh->traces;
                std::set<int> grid;      // lines of the reference grid, 1 = south
                for (int e : {sp.ls, sp.ln, sp.us, sp.un})
                    for (int k = -2; k <= 2; ++k) grid.insert(e + k);
                for (int g = 1; g <= 11136; g += mc::thorough ? 7 : 97) grid.insert(g);
                for (int g : grid)
                {
                    if (g < 1 || g > 11136) continue;
                    int line = 11136 - g;
                    bool low = g >= sp.ls && g <= sp.ln, up = sp.un && g >= sp.us && g <= sp.un;
                    if (!low && !up) continue;   // not part of the image
                    size_t want = 11136 - (low ? lw : uw);
                    size_t got = sc.da.line_start(line);
                    if (got != want) mc::fail(mc::fmt("hrv-start line-%d", line), "line %d (grid line %d) starts at column %zu instead of %zu", line, g, got, want);
                    check_line(sc.da, img, 0xffffff, line, "hrv");
                }
            }
    mc::sample("11 line splits x 4 x 4 columns of the HRV windows");
}

// HRV: every line, with missing segments
MC_GROUP(hrv_lines)
{
    Image img = base("w");
    img.channel = "HRV";
    img.channel_id = 12;
    img.segments = 24;
    img.seglines = 464;
    img.columns = 3;
    for (unsigned present : {0xffffffu, 0xfffffeu, 0x7fffffu, 0xaaaaaau, 0x3fc0ffu, 0x800001u, 0xfe0000u})
        for (bool east : {true, false})
        {
            if (!mc::begin("HRV segments %06x east first %d", present, east)) continue;
            img.east_first = east;
            mc::clean(img.dir);
            write(img, present);
            Scanned sc(img);
            ++mc::sh->traces;
            for (int l = 0; l < 11136; ++l) check_line(sc.da, img, present, l, "hrv");
        }
    mc::sample("11136 HRV lines with 7 sets of segments");
}
MC_GROUP(hrv_histories)
{
    Image img = base("x");
    img.channel = "HRV";
    img.channel_id = 12;
    img.segments = 24;
    img.seglines = 464;
    img.columns = 2;
    unsigned present = 0xffffff & ~(1u << 5);
    write(img, present);
    // grid lines at both sides of segment and window boundaries
    vector<int> lines;
    for (int g : {1, 464, 465, 464 * 5 + 1, 464 * 6, 8064, 8065, 11136}) lines.push_back(11136 - g);
    explore(img, present, lines, 2, mc::thorough ? 6 : 5, "hrv-history");
}
