// C18: MSG native files give the lines, samples and header they carry
//
// Complete enumeration of sample phases and values, widths, channel
// selections, header records, cuts, copies of line objects and histories of
// reading, against an encoder of the format written here from its layout.
#include "mc.hpp"
#include "enumerate.hpp"
#include "native.hpp"
#include <msat/msg-native/MSG_native.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <list>
#include <memory>
#include <sstream>

using std::string;
using std::vector;

namespace {

struct Quiet
{
    std::ostringstream sink;
    std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

vector<unsigned> samples(MSG_native_linedata& d)
{
    unsigned short* s = 0;
    long n = -1;
    d.to_sample(&s, &n);
    vector<unsigned> r(s, s + n);
    delete[] s;
    return r;
}

/// Fill a line object with data, as a reader does
void set_data(MSG_native_linedata& d, const string& s)
{
    d.datasize = s.size();
    d.data_10bit = new unsigned char[s.size()];
    memcpy(d.data_10bit, s.data(), s.size());
}

string show(const vector<unsigned>& v)
{
    string s;
    for (unsigned i = 0; i < v.size() && i < 12; ++i) s += mc::fmt(" %u", v[i]);
    return s;
}

}

MC_GROUP(samples)
{
    // All lengths of lines, all values in all phases
    for (unsigned size = 0; size <= (mc::thorough ? 121u : 41u); ++size)
        for (int given = 0; given < 2; ++given)
            for (unsigned pat = 0; pat < 5; ++pat)
            {
                if (!mc::begin("samples of %u bytes, %s buffer, pattern %u", size, given ? "given" : "new", pat)) continue;
                string s(size, pat == 1 ? '\xff' : 0);
                if (pat > 1) for (unsigned i = 0; i < size; ++i) s[i] = (char)(pat == 2 ? i + 1 : pat == 3 ? i * 37 + 0x80 : 0xaa ^ -(int)(i & 1));
                MSG_native_linedata d;
                set_data(d, s);
                vector<unsigned> want = unpack10(s);
                std::unique_ptr<unsigned short[]> buf(new unsigned short[want.size() + 1]);
                // One more than needed, that has to stay
                buf[want.size()] = 0x1234;
                unsigned short* p = given ? buf.get() : 0;
                long n = -1;
                d.to_sample(&p, &n);
                if (n != (long)want.size()) mc::fail("sample count", "%ld samples in %u bytes", n, size);
                else
                    for (unsigned i = 0; i < want.size(); ++i)
                        if (p[i] != want[i]) { mc::fail("sample", "sample %u of %u bytes is %u and not %u", i, size, p[i], want[i]); break; }
                if (given && p != buf.get()) mc::fail("sample buffer", "the given buffer is not used");
                if (given && buf[want.size()] != 0x1234) mc::fail("sample overrun", "written after the samples of %u bytes", size);
                if (!given) delete[] p;
                mc::count(size > 0);
            }
    for (unsigned len = 4; len <= 8; ++len)
        for (unsigned pos = 0; pos < len; ++pos)
            for (unsigned bg = 0; bg < 3; ++bg)
            {
                if (!mc::begin("values of sample %u of %u over %u", pos, len, bg)) continue;
                for (unsigned v = 0; v < 1024; ++v)
                {
                    vector<unsigned> w(len, bg == 0 ? 0 : bg == 1 ? 1023 : 0x155);
                    w[pos] = v;
                    MSG_native_linedata d;
                    set_data(d, pack10(w));
                    vector<unsigned> got = samples(d);
                    got.resize(len);
                    if (got != w) { mc::fail("sample value", "samples%s are read as%s", show(w).c_str(), show(got).c_str()); break; }
                    mc::count();
                }
            }
    mc::sample("a line of 6 bytes ff ff ff ff ff ff: 4 samples of 1023");
}

// ------------------------------------------------------------------- lines

namespace {

struct BField
{
    const char* name;
    unsigned off, len;
    unsigned long (*get)(const MSG_native_line&);
};
#define B(n, off, len, e) { n, off, len, [](const MSG_native_line& l) -> unsigned long { return l.e; } }
const BField bfields[] = {
    B("HeaderVersionNo", 0, 1, pkh.gp_packet_header.HeaderVersionNo),
    B("PacketType", 1, 1, pkh.gp_packet_header.PacketType),
    B("SubHeaderType", 2, 1, pkh.gp_packet_header.SubHeaderType),
    B("SourceFacilityId", 3, 1, pkh.gp_packet_header.SourceFacilityId),
    B("SourceEnvId", 4, 1, pkh.gp_packet_header.SourceEnvId),
    B("SourceInstanceId", 5, 1, pkh.gp_packet_header.SourceInstanceId),
    B("SourceSUId", 6, 4, pkh.gp_packet_header.SourceSUId),
    B("SourceCPUId0", 10, 1, pkh.gp_packet_header.SourceCPUId[0]),
    B("SourceCPUId1", 11, 1, pkh.gp_packet_header.SourceCPUId[1]),
    B("SourceCPUId2", 12, 1, pkh.gp_packet_header.SourceCPUId[2]),
    B("SourceCPUId3", 13, 1, pkh.gp_packet_header.SourceCPUId[3]),
    B("DestFacilityId", 14, 1, pkh.gp_packet_header.DestFacilityId),
    B("DestEnvId", 15, 1, pkh.gp_packet_header.DestEnvId),
    B("SequenceCount", 16, 2, pkh.gp_packet_header.SequenceCount),
    B("SubHeaderVersionNo", 22, 1, pkh.gp_packet_subheader.SubHeaderVersionNo),
    B("ChecksumFlag", 23, 1, pkh.gp_packet_subheader.ChecksumFlag),
    B("Acknowledgement0", 24, 1, pkh.gp_packet_subheader.Acknowledgement[0]),
    B("Acknowledgement1", 25, 1, pkh.gp_packet_subheader.Acknowledgement[1]),
    B("Acknowledgement2", 26, 1, pkh.gp_packet_subheader.Acknowledgement[2]),
    B("Acknowledgement3", 27, 1, pkh.gp_packet_subheader.Acknowledgement[3]),
    B("ServiceType", 28, 1, pkh.gp_packet_subheader.ServiceType),
    B("ServiceSubtype", 29, 1, pkh.gp_packet_subheader.ServiceSubtype),
    B("PacketTime day", 30, 2, pkh.gp_packet_subheader.PacketTime.get_day_from_epoch()),
    B("PacketTime ms", 32, 4, pkh.gp_packet_subheader.PacketTime.get_msec_in_day()),
    B("SpacecraftId", 36, 2, pkh.gp_packet_subheader.SpacecraftId),
    B("LINE1_5Version", 38, 1, header.LINE1_5Version),
    B("SatelliteId", 39, 2, header.SatelliteId),
    B("TrueRepeatCycleStart day", 41, 2, header.TrueRepeatCycleStart.get_day_from_epoch()),
    B("TrueRepeatCycleStart ms", 43, 4, header.TrueRepeatCycleStart.get_msec_in_day()),
    { "TrueRepeatCycleStart us", 47, 2, [](const MSG_native_line& l) -> unsigned long { MSG_time_cds_expanded t = l.header.TrueRepeatCycleStart; return t.get_microsecs(); } },
    { "TrueRepeatCycleStart ns", 49, 2, [](const MSG_native_line& l) -> unsigned long { MSG_time_cds_expanded t = l.header.TrueRepeatCycleStart; return t.get_nanosecs(); } },
    B("LineNumberInGrid", 51, 4, header.LineNumberInGrid),
    B("ChannelId", 55, 1, header.ChannelId),
    B("L10LineMeanAcquisitionTime day", 56, 2, header.L10LineMeanAcquisitionTime.get_day_from_epoch()),
    B("L10LineMeanAcquisitionTime ms", 58, 4, header.L10LineMeanAcquisitionTime.get_msec_in_day()),
    B("LineValidity", 62, 1, header.LineValidity.value),
    B("LineRadiometricQuality", 63, 1, header.LineRadiometricQuality.value),
    B("LineGeometricQuality", 64, 1, header.LineGeometricQuality.value),
};
#undef B
const unsigned NB = sizeof(bfields) / sizeof(bfields[0]);

unsigned long field_of(const string& s, const BField& f)
{
    unsigned long v = 0;
    for (unsigned i = 0; i < f.len; ++i) v = v << 8 | (unsigned char)s[f.off + i];
    return v;
}

/// Read one line from a file; text of the error, or ""
string read_line(MSG_native_line& l, const string& path)
{
    Quiet q;
    std::ifstream in(path, std::ios::binary);
    try { l.read(in); }
    catch (std::exception& e) { return string("error: ") + e.what(); }
    return "";
}

void check_line(const MSG_native_line& l, const string& s, const string& what)
{
    for (unsigned f = 0; f < NB; ++f)
        if (bfields[f].get(l) != field_of(s, bfields[f]))
            mc::fail(bfields[f].name, "%s: %s is %lu and not %lu", what.c_str(), bfields[f].name, bfields[f].get(l), field_of(s, bfields[f]));
    size_t n = s.size() - 65;
    if (l.data.datasize != n || memcmp(l.data.data_10bit, s.data() + 65, n)) mc::fail("line data", "%s: the data is not that of the file", what.c_str());
}

}

MC_GROUP(lines)
{
    string path = mc::work + "/line";
    Line base;
    base.data = pack10({ 1, 2, 3, 1023, 512 });
    // Each byte of the headers: all values
    for (unsigned at = 0; at < 65; ++at)
    {
        if (at >= 18 && at < 22) continue; // packet length
        for (unsigned v = 0; v < 256; v += mc::thorough ? 1 : 3)
        {
            if (!mc::begin("line header byte %u = %u", at, v)) continue;
            string s = base.encode();
            s[at] = (char)v;
            mc::write_file(path, s);
            MSG_native_line l;
            string err = read_line(l, path);
            if (!err.empty()) mc::fail("line", "%s", err.c_str());
            else check_line(l, s, mc::fmt("byte %u = %u", at, v));
            std::ostringstream o;
            Quiet q;
            o << l;
            if (!q.sink.str().empty()) mc::fail("line text", "a line printed on a stream is printed elsewhere too");
            for (const char* x : { "\n1\n2\n3\n1023\n512\n" })
                if (o.str().find(x) == string::npos) mc::fail("line text", "no samples in the text of a line");
            mc::count();
        }
    }
    // Packet lengths, and cuts
    for (unsigned size = 0; size <= 30; ++size)
    {
        Line m = base;
        m.data = string(size, 'x');
        string s = m.encode();
        for (unsigned cut = 0; cut <= s.size(); ++cut)
        {
            if (size % 10 && cut + 3 < s.size()) continue;
            if (!mc::begin("line of %u bytes cut at %u", size, cut)) continue;
            mc::write_file(path, s.substr(0, cut));
            MSG_native_line l;
            string err = read_line(l, path);
            if (err.empty() != (cut == s.size())) mc::fail("line cut", "line of %u bytes cut at %u: %s", size, cut, err.empty() ? "read" : err.c_str());
            else if (err.empty()) check_line(l, s, mc::fmt("%u bytes", size));
            mc::count();
        }
    }
    for (unsigned len = 0; len < 42 + 4; ++len)
    {
        if (!mc::begin("packet length %u", len)) continue;
        string s = base.encode();
        s.replace(18, 4, be4(len));
        mc::write_file(path, s);
        MSG_native_line l;
        string err = read_line(l, path);
        if (err.empty() != (len >= 42)) mc::fail("packet length", "packet length %u: %s", len, err.empty() ? "read" : err.c_str());
        mc::count();
    }
    for (uint32_t len : { 0x7fffffffu, 0x80000000u })
    {
        if (!mc::begin("packet length %u", len)) continue;
        string s = base.encode();
        s.replace(18, 4, be4(len));
        mc::write_file(path, s);
        MSG_native_line l;
        if (read_line(l, path).empty()) mc::fail("packet length", "packet length %u read", len);
        mc::count();
    }
}

// Copies, assignments and containers of lines, against a model of values
MC_GROUP(copies)
{
    string path[3];
    vector<string> text(3);
    for (unsigned i = 0; i < 3; ++i)
    {
        Line l;
        l.num(i, 100 + i);
        l.data = i == 2 ? "" : pack10(vector<unsigned>(4 + 5 * i, 7 + i));
        text[i] = l.encode();
        path[i] = mc::work + mc::fmt("/copy%u", i);
        mc::write_file(path[i], text[i]);
    }
    mc::write_file(mc::work + "/short", text[0].substr(0, 50));
    // Three objects; -1 is a new one
    struct State
    {
        std::unique_ptr<MSG_native_line> o[2];
        std::list<MSG_native_line> list;
        int m[2] = { -1, -1 };
        vector<int> ml;
    };
    static const char* names[] = { "read0", "read1", "read2", "copy 0 to 1", "copy 1 to 0", "self", "renew 0", "keep 0", "keep 1", "assign kept to 0", "sort kept", "fail 1", "return 0" };
    const unsigned NOPS = sizeof(names) / sizeof(names[0]);
    auto apply = [&](State& s, unsigned op) {
        switch (op)
        {
            case 0: case 1: case 2: if (read_line(*s.o[0], path[op]) != "") mc::fail("copies", "read"); s.m[0] = op; break;
            case 3: *s.o[1] = *s.o[0]; s.m[1] = s.m[0]; break;
            case 4: *s.o[0] = *s.o[1]; s.m[0] = s.m[1]; break;
            case 5: { MSG_native_line& x = *s.o[0]; *s.o[0] = x; break; }
            case 6: s.o[0].reset(new MSG_native_line); s.m[0] = -1; break;
            case 7: case 8: s.list.push_back(*s.o[op - 7]); s.ml.push_back(s.m[op - 7]); break;
            case 9: if (!s.list.empty()) { *s.o[0] = s.list.front(); s.m[0] = s.ml.front(); } break;
            case 10:
            {
                vector<MSG_native_line> v(s.list.begin(), s.list.end());
                std::reverse(v.begin(), v.end());
                s.list.assign(v.begin(), v.end());
                std::reverse(s.ml.begin(), s.ml.end());
                break;
            }
            // What is left of an object after a failed read is its business,
            // as long as it can be used
            case 11: read_line(*s.o[1], mc::work + "/short"); s.o[1].reset(new MSG_native_line); s.m[1] = -1; break;
            case 12: { auto f = [](const MSG_native_line& l) { MSG_native_line r(l); return r; }; *s.o[0] = f(*s.o[0]); break; }
        }
    };
    auto check = [&](State& s, const string& what) {
        auto one = [&](MSG_native_line& l, int m) {
            if (m == -1) { if (l.data.datasize != 0 || !samples(l.data).empty()) mc::fail("copies", "%s: an empty line has data", what.c_str()); return; }
            check_line(l, text[m], what);
            if (samples(l.data) != unpack10(text[m].substr(65))) mc::fail("copies", "%s: wrong samples", what.c_str());
        };
        for (unsigned i = 0; i < 2; ++i) one(*s.o[i], s.m[i]);
        unsigned k = 0;
        for (auto& l : s.list) one(l, s.ml[k++]);
    };
    std::set<string> seen;
    unsigned depth = mc::thorough ? 5 : 4;
    mc::all_sequences(depth, NOPS, [&](const vector<unsigned>& v) {
        string name;
        for (unsigned i : v) name += mc::fmt("; %s", names[i]);
        if (!mc::begin("copies%s", name.c_str())) return;
        State s;
        for (auto& o : s.o) o.reset(new MSG_native_line);
        for (unsigned i : v)
        {
            apply(s, i);
            ++mc::sh->transitions;
        }
        check(s, name);
        string st = mc::fmt("%d %d", s.m[0], s.m[1]);
        for (int i : s.ml) st += mc::fmt(" %d", i);
        if (seen.insert(st).second) ++mc::sh->states;
        ++mc::sh->traces;
        mc::count();
    });
}

// ------------------------------------------------------------------- files

namespace {

struct Native : MSG_native {};

string read_native(MSG_native& n, const string& path)
{
    Quiet q;
    try
    {
        if (!n.open(const_cast<char*>(path.c_str()))) return "not opened";
        n.read();
    }
    catch (std::exception& e) { return string("error: ") + e.what(); }
    return "";
}

void check_native(MSG_native& n, File& f, const string& what)
{
    for (unsigned ch = 0; ch < 12; ++ch)
    {
        bool on = (f.mask >> ch) & 1;
        int wl = !on ? 0 : ch == 11 ? f.hlines : f.nlines, wc = !on ? 0 : ch == 11 ? f.hcols : f.ncols;
        if (n.lines(ch) != wl || n.pixels(ch) != wc)
            mc::fail("size", "%s: channel %u is %d x %d and not %d x %d", what.c_str(), ch, n.pixels(ch), n.lines(ch), wc, wl);
        if (n.line[ch].size() != f.lines[ch].size())
        {
            mc::fail("line count", "%s: %zu lines of channel %u and not %zu", what.c_str(), n.line[ch].size(), ch, f.lines[ch].size());
            continue;
        }
        unsigned k = 0;
        for (auto& l : n.line[ch]) { check_line(l, f.lines[ch][k], mc::fmt("%s: channel %u line %u", what.c_str(), ch, k)); ++k; }
        std::unique_ptr<unsigned short[]> d(n.data(ch));
        if (!on)
        {
            if (d) mc::fail("data", "%s: data of channel %u, that is not there", what.c_str(), ch);
            continue;
        }
        if (!d) { mc::fail("data", "%s: no data of channel %u", what.c_str(), ch); continue; }
        vector<unsigned> all;
        for (int y = 0; y < wl; ++y)
        {
            vector<unsigned> w;
            if (y < (int)f.lines[ch].size()) w = unpack10(f.lines[ch][y].substr(65));
            for (int x = 0; x < wc; ++x)
            {
                unsigned want = x < (int)w.size() ? w[x] : 0;
                all.push_back(want);
                if (d[y * wc + x] != want)
                {
                    mc::fail("data", "%s: channel %u line %d column %d is %u and not %u", what.c_str(), ch, y, x, d[y * wc + x], want);
                    y = wl;
                    break;
                }
            }
        }
        if (all.size() != (size_t)wl * wc) continue;
        // And its PGM
        string path = mc::work + "/dump.pgm";
        if (!n.pgmdump(ch, const_cast<char*>(path.c_str()))) { mc::fail("pgm", "%s: no dump of channel %u", what.c_str(), ch); continue; }
        string p = mc::read_file(path);
        std::istringstream in(p);
        string l;
        std::getline(in, l);
        if (l != "P5") mc::fail("pgm", "%s: starts with '%s'", what.c_str(), l.c_str());
        while (std::getline(in, l) && l[0] == '#');
        if (l != mc::fmt("%d %d", wc, wl)) mc::fail("pgm", "%s: dump of channel %u has size '%s'", what.c_str(), ch, l.c_str());
        std::getline(in, l);
        if (l != "1023") mc::fail("pgm", "%s: largest sample '%s'", what.c_str(), l.c_str());
        string want;
        for (unsigned v : all) want += be2(v);
        if (p.substr(std::min((size_t)in.tellg(), p.size())) != want && !want.empty()) mc::fail("pgm", "%s: the samples in the dump of channel %u are others", what.c_str(), ch);
    }
    for (int ch : { -1, 12, 2147483647 })
        if (n.lines(ch) || n.pixels(ch) || n.data(ch) || n.pgmdump(ch, const_cast<char*>("/dev/null"))) mc::fail("channel range", "%s: channel %d", what.c_str(), ch);
}

template<typename T> string text(T& t)
{
    std::ostringstream o;
    o << t;
    return o.str();
}

void check_sections(MSG_native& n, const File& f)
{
    string h = f.section(HLEN), t = f.section(TLEN);
    const unsigned char* p = (const unsigned char*)h.data() + 1;
    std::unique_ptr<MSG_data_level_15_header> wh(new MSG_data_level_15_header);
    wh->sat_status.read_from(p);
    wh->image_acquisition.read_from(p += hsec[0]);
    wh->celestial_events.read_from(p += hsec[1]);
    wh->image_description.read_from(p += hsec[2]);
    wh->radiometric_proc.read_from(p += hsec[3]);
    wh->geometric_proc.read_from(p += hsec[4]);
    wh->IMPF_config.read_from(p += hsec[5]);
    auto& g = n.header.l15;
#define S(x) if (text(g.x) != text(wh->x)) mc::fail("header " #x, "the " #x " of the header is not that of the file");
    S(sat_status) S(image_acquisition) S(celestial_events) S(image_description) S(radiometric_proc) S(geometric_proc) S(IMPF_config)
#undef S
    p = (const unsigned char*)t.data() + 1;
    std::unique_ptr<MSG_data_level_15_trailer> wt(new MSG_data_level_15_trailer);
    wt->product_stats.read_from(p);
    wt->navig_result.read_from(p += tsec[0]);
    wt->radiometric_qlty.read_from(p += tsec[1]);
    wt->geometric_qlty.read_from(p += tsec[2]);
    wt->timelin_comple.read_from(p += tsec[3]);
    auto& e = n.trailer.l15;
#define S(x) if (text(e.x) != text(wt->x)) mc::fail("trailer " #x, "the " #x " of the trailer is not that of the file");
    S(product_stats) S(navig_result) S(radiometric_qlty) S(geometric_qlty) S(timelin_comple)
#undef S
}

void masks(unsigned part)
{
    string path = mc::work + "/masks.nat";
    for (unsigned m = part * 1024; m < (part + 1) * 1024; ++m)
    {
        unsigned bits = __builtin_popcount(m);
        if (!mc::thorough && bits > 2 && bits < 11 && m % 64 != 21) continue;
        if (!mc::begin("channels %03x", m)) continue;
        File f;
        f.mask = m;
        f.salt = m;
        f.vsize = f.hsize = 10;
        f.ncols = f.hcols = 8;
        mc::write_file(path, f.encode());
        std::unique_ptr<MSG_native> n(new MSG_native);
        string err = read_native(*n, path);
        if (!err.empty()) mc::fail("read", "channels %03x: %s", m, err.c_str());
        else check_native(*n, f, mc::fmt("channels %03x", m));
        mc::count(m != 0);
    }
    unlink(path.c_str());
}

}

MC_GROUP(masks_0) { masks(0); }
MC_GROUP(masks_1) { masks(1); }
MC_GROUP(masks_2) { masks(2); }
MC_GROUP(masks_3) { masks(3); }

namespace {

void widths(bool hrv)
{
    string path = mc::work + "/widths.nat";
    // Columns of the header and bytes of the lines, that are rounded in
    // different ways by who writes the files
    for (int cols = 0; cols <= (mc::thorough ? 21 : 13); ++cols)
        for (int how = 0; how < 5; ++how)
            for (int dl = -2; dl <= 2; ++dl)
            {
                if (!hrv && dl) continue;
                if (hrv && dl && !mc::thorough && cols % 4 != 1) continue;
                unsigned bytes = how == 0 ? (cols * 10 + 7) / 8 : how == 1 ? (cols + 3) / 4 * 5 : how == 2 ? cols * 10 / 8 : how == 3 ? (cols * 10 + 7) / 8 + 7 : 3;
                if (!mc::begin("%s %d columns in %u bytes, %d lines more", hrv ? "HRV" : "VIS", cols, bytes, dl)) continue;
                File f;
                f.mask = hrv ? 0x801 : 0x005;
                f.groups = 3;
                f.nlines = 3;
                f.hlines = 9 + dl;
                f.ncols = hrv ? 4 : cols;
                f.hcols = hrv ? cols : 4;
                f.vsize = hrv ? 5 : bytes;
                f.hsize = hrv ? bytes : 5;
                f.salt = cols * 5 + how;
                f.trailer_first = how % 2;
                mc::write_file(path, f.encode());
                std::unique_ptr<MSG_native> n(new MSG_native);
                string err = read_native(*n, path);
                if (!err.empty()) mc::fail("read", "%d columns: %s", cols, err.c_str());
                else check_native(*n, f, mc::fmt("%d columns in %u bytes", cols, bytes));
                mc::count();
            }
    unlink(path.c_str());
}

}

MC_GROUP(widths_vis) { widths(false); }
MC_GROUP(widths_hrv) { widths(true); }

MC_GROUP(headers)
{
    string path = mc::work + "/headers.nat";
    for (int term = 0; term < 2; ++term)
        for (unsigned salt = 0; salt < (mc::thorough ? 16 : 4); ++salt)
        {
            if (!mc::begin("headers %d %u", term, salt)) continue;
            File f;
            f.mask = 0x803;
            f.terminated = term;
            f.salt = salt * 9;
            string all = f.encode();
            mc::write_file(path, all);
            std::unique_ptr<MSG_native> n(new MSG_native);
            string err = read_native(*n, path);
            if (!err.empty()) { mc::fail("read", "headers: %s", err.c_str()); continue; }
            check_native(*n, f, mc::fmt("records %sterminated", term ? "" : "not "));
            check_sections(*n, f);
            for (unsigned i = 0; i < 48; ++i)
            {
                const string& s = n->header.mph_sph_header.mphinfo[i];
                unsigned at = i < 6 ? i * 80 : i < 11 ? 480 + (i - 6) * 62 : 2154 + (i - 11) * 80;
                string w = all.substr(at, i < 6 || i > 10 ? 80 : 62);
                // The text, without what fills the space
                auto squeeze = [](const string& s) { string r; for (char c : s) if (c && c != '\n' && c != ' ') r += c; return r; };
                if (squeeze(s) != squeeze(w)) mc::fail("record", "record %u of the main header is '%s' and not '%s'", i, s.c_str(), w.c_str());
            }
            if (n->header.impf_packet_header.gp_packet_header.PacketLength != HLEN + 15 || n->trailer.impf_packet_header.gp_packet_header.PacketLength != TLEN + 15)
                mc::fail("packet", "packet headers of header and trailer");
            // The text of the file is that of its parts, on the given stream
            Quiet q;
            string want = text(n->header) + text(n->trailer);
            for (auto& l : n->line) for (auto& x : l) want += text(x);
            if (text(*n) != want) mc::fail("text", "the text of the file is not that of its parts");
            if (!q.sink.str().empty()) mc::fail("text", "printed on another stream");
            mc::count();
        }
    // Records without a value, and lists of bands
    for (unsigned i = 39; i < 48; ++i)
    {
        if (!mc::begin("no value in record %u", i)) continue;
        File f;
        f.mask = 0x800;
        f.info[i] = "none";
        mc::write_file(path, f.encode());
        std::unique_ptr<MSG_native> n(new MSG_native);
        string err = read_native(*n, path);
        if (err.empty() && i != 39) mc::fail("no value", "record %u has no value", i);
        mc::count();
    }
    for (unsigned len = 1; len <= 49; ++len)
    {
        if (!mc::begin("list of %u bands", len)) continue;
        File f;
        f.mask = 0;
        for (unsigned i = 0; i < 12 && i < len; ++i) f.mask |= 1 << i;
        f.bands = string(len, 'X');
        mc::write_file(path, f.encode());
        std::unique_ptr<MSG_native> n(new MSG_native);
        string err = read_native(*n, path);
        // A list that is too long may be an error
        if (!err.empty() && len <= 12) mc::fail("bands", "list of %u bands: %s", len, err.c_str());
        if (err.empty()) check_native(*n, f, mc::fmt("list of %u bands", len));
        mc::count();
    }
    unlink(path.c_str());
}

MC_GROUP(cuts)
{
    string path = mc::work + "/cuts.nat";
    for (int first = 0; first < 2; ++first)
    {
        File f;
        f.mask = 0x801;
        f.trailer_first = first;
        string all = f.encode();
        std::set<size_t> at;
        const size_t marks[] = { 0, 5114, 5114 + 38, 5114 + 38 + HLEN, 5114 + 76 + HLEN, 5114 + 76 + HLEN + TLEN, all.size() - TLEN - 38, all.size() - TLEN };
        for (size_t m : marks) for (int d = -2; d <= 2; ++d) if (m + d < all.size()) at.insert(m + d);
        size_t data = all.size() - 8 * 70;
        if (first) for (size_t p = data; p < all.size(); ++p) at.insert(p);
        for (size_t p = 1; p < all.size(); p += mc::thorough ? 2003 : 20011) at.insert(p);
        at.insert(all.size() - 1);
        mc::write_file(path, all);
        for (auto i = at.rbegin(); i != at.rend(); ++i)
        {
            if (!mc::begin("%s cut at %zu", first ? "trailer before data" : "data before trailer", *i)) continue;
            if (truncate(path.c_str(), *i)) { mc::fail("harness", "truncate"); return; }
            std::unique_ptr<MSG_native> n(new MSG_native);
            if (read_native(*n, path).empty()) mc::fail("cut", "a file of %zu bytes is read from its first %zu", all.size(), *i);
            mc::count();
        }
        // Wrong lengths of the header packets
        size_t hp = 5114 + 18, tp = first ? 5114 + 38 + HLEN + 18 : all.size() - TLEN - 38 + 18;
        for (size_t p : { hp, tp })
            for (unsigned d : { 0u, 1u, 15u, 42u, HLEN, TLEN, HLEN + 14, HLEN + 16, TLEN + 14, TLEN + 16, 0x7fffffffu, 0xffffffffu })
            {
                if (!mc::begin("packet at %zu of length %u", p, d)) continue;
                string s = all;
                s.replace(p, 4, be4(d));
                mc::write_file(path, s);
                std::unique_ptr<MSG_native> n(new MSG_native);
                if (read_native(*n, path).empty()) mc::fail("header length", "packet length %u is not refused", d);
                mc::count();
            }
    }
    for (const char* p : { "", "/nonexistent/file" })
    {
        if (!mc::begin("no file '%s'", p)) continue;
        std::unique_ptr<MSG_native> n(new MSG_native);
        if (read_native(*n, p).empty()) mc::fail("no file", "a file that is not there is read");
        mc::count();
    }
    unlink(path.c_str());
}

MC_GROUP(histories)
{
    // open, read and close of the same object
    File f[4];
    string path[5];
    f[0].mask = 0x001;
    f[1].mask = 0x804; f[1].groups = 1; f[1].nlines = 1; f[1].hlines = 3; f[1].salt = 3; f[1].vsize = 10; f[1].ncols = 8;
    f[2].mask = 0x004; f[2].groups = 3; f[2].nlines = 3; f[2].salt = 7;
    f[3].mask = 0x801;
    for (unsigned i = 0; i < 4; ++i)
    {
        string s = f[i].encode();
        if (i == 3) { f[i].trailer_first = true; s = f[i].encode(); s.resize(s.size() - 30); }
        path[i] = mc::work + mc::fmt("/h%u.nat", i);
        mc::write_file(path[i], s);
    }
    path[4] = mc::work + "/none.nat";
    vector<string> fresh(3);
    for (unsigned i = 0; i < 3; ++i)
    {
        std::unique_ptr<MSG_native> n(new MSG_native);
        string err = read_native(*n, path[i]);
        if (!err.empty()) { mc::fail("read", "%s", err.c_str()); return; }
        fresh[i] = text(*n);
    }
    for (unsigned depth = 1; depth <= (mc::thorough ? 4 : 3); ++depth)
        mc::all_sequences(depth, 5, [&](const vector<unsigned>& v) {
            if (v.back() > 2) return;
            string name;
            for (unsigned i : v) name += mc::fmt(" %u", i);
            if (!mc::begin("history%s", name.c_str())) return;
            std::unique_ptr<MSG_native> n(new MSG_native);
            string err;
            for (unsigned k = 0; k < v.size(); ++k)
            {
                if (k)
                {
                    n->close();
                    for (int ch = 0; ch < 12; ++ch)
                        if (n->lines(ch) || n->pixels(ch) || n->data(ch) || !n->line[ch].empty()) mc::fail("close", "after%s: channel %d has data after being closed", name.c_str(), ch);
                }
                err = read_native(*n, path[v[k]]);
                ++mc::sh->transitions;
                if (err.empty() != (v[k] < 3)) mc::fail("history", "after%s: %s", name.c_str(), err.c_str());
            }
            check_native(*n, f[v.back()], "after" + name);
            string got = text(*n), &want = fresh[v.back()];
            if (got != want)
            {
                size_t p = std::mismatch(got.begin(), got.begin() + std::min(got.size(), want.size()), want.begin()).first - got.begin();
                p -= std::min(p, (size_t)60);
                mc::fail("history", "after%s: '%s' and not '%s'", name.c_str(), mc::show(got.substr(p, 120)).c_str(), mc::show(want.substr(p, 120)).c_str());
            }
            ++mc::sh->traces;
            mc::count();
        });
}
