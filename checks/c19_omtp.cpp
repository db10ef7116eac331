// C19: OpenMTP-IDS files survive writing and reading unchanged, line by line
//
// Exhaustive enumeration of small images against an encoder of the format
// written here from its layout: FORTRAN marks and 16 bit big-endian fields,
// lines padded to their length, the file header padded to a record.
#include "mc.hpp"
#include "enumerate.hpp"
#include "omtp.hpp"
#include <msat/omtp-ids/OpenMTP-IDS.hh>
#include <msat/omtp-ids/Constants.hh>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <stdexcept>

using namespace omtp_ids;
using std::string;
using std::vector;

namespace {

void to_lib(const MLine& l, ScanLine& s)
{
    LineHeader h;
    for (unsigned i = 0; i < 6; ++i) { auto set = lfields[i].set; (h.*set)(l.field[i]); }
    int pad[2] = { (int)l.pad[0], (int)l.pad[1] };
    h.pad(pad);
    s.lineheader(h);
    s.linepixel(vector<unsigned char>(l.pixels.begin(), l.pixels.end()));
}

void to_lib(const MImage& m, OpenMTP_IDS& o)
{
    FileHeader h;
    for (unsigned i = 0; i < NH; ++i) { auto set = hfields[i].set; (h.*set)(m.h[i]); }
    h.satellite(m.satellite.c_str());
    o.fileheader(h);
    vector<Record> recs;
    for (auto& r : m.recs)
    {
        Record lr;
        lr.recordheader().record_header_length(r.hlen);
        lr.recordheader().no_scanlines(r.lines.size());
        lr.recordheader().record_length(r.len);
        lr.recordheader().zero(r.zero);
        vector<ScanLine> ls;
        for (auto& l : r.lines) { ls.emplace_back(); to_lib(l, ls.back()); }
        lr.scanline(ls);
        recs.push_back(lr);
    }
    o.record(recs);
}

bool same(const MLine& l, const ScanLine& s, string& why)
{
    for (unsigned i = 0; i < 6; ++i)
    {
        auto get = lfields[i].get; int v = (s.lineheader().*get)();
        if (v != (int)l.field[i]) { why = mc::fmt("line %s is %d instead of %u", lfields[i].name, v, l.field[i]); return false; }
    }
    for (unsigned i = 0; i < 2; ++i)
        if (s.lineheader().pad()[i] != (int)l.pad[i]) { why = "line pad differs"; return false; }
    if (s.linepixel().size() != l.pixels.size()) { why = mc::fmt("%zu pixels instead of %zu", s.linepixel().size(), l.pixels.size()); return false; }
    for (unsigned i = 0; i < l.pixels.size(); ++i)
        if (s.linepixel()[i] != (unsigned char)l.pixels[i] || s[i] != (unsigned char)l.pixels[i])
        { why = mc::fmt("pixel %u is %d instead of %d", i, s[i], (unsigned char)l.pixels[i]); return false; }
    return true;
}

bool same(const vector<MLine>& m, const vector<ScanLine>& s, string& why)
{
    if (m.size() != s.size()) { why = mc::fmt("%zu lines instead of %zu", s.size(), m.size()); return false; }
    for (unsigned i = 0; i < m.size(); ++i)
        if (!same(m[i], s[i], why)) { why = mc::fmt("line %u: ", i) + why; return false; }
    return true;
}

bool same_header(const MImage& m, const FileHeader& h, string& why)
{
    for (unsigned i = 0; i < NH; ++i)
    {
        auto get = hfields[i].get; int v = (h.*get)();
        if (v != (int)m.h[i]) { why = mc::fmt("%s is %d instead of %u", hfields[i].name, v, m.h[i]); return false; }
    }
    string sat(h.satellite());
    if (sat != m.satellite) { why = mc::fmt("the satellite is %s instead of %s", mc::show(sat).c_str(), m.satellite.c_str()); return false; }
    return true;
}

bool same(const MImage& m, const OpenMTP_IDS& o, string& why)
{
    if (!same_header(m, o.fileheader(), why)) return false;
    if (o.record().size() != m.recs.size()) { why = mc::fmt("%zu records instead of %zu", o.record().size(), m.recs.size()); return false; }
    for (unsigned i = 0; i < m.recs.size(); ++i)
    {
        auto& h = o.record()[i].recordheader();
        if (h.record_header_length() != (int)m.recs[i].hlen || h.no_scanlines() != (int)m.recs[i].lines.size()
            || h.record_length() != (int)m.recs[i].len || h.zero() != (int)m.recs[i].zero)
        { why = mc::fmt("record %u: its header differs", i); return false; }
        if (!same(m.recs[i].lines, o.record()[i].scanline(), why)) { why = mc::fmt("record %u: ", i) + why; return false; }
    }
    return true;
}

/// Read with the stream operator or from a file. 0: ok, 1: error (with its text)
int try_read(OpenMTP_IDS& o, const string& data, bool file, string& err)
{
    try {
        if (file)
        {
            string fn = mc::work + "/in.ids";
            mc::write_file(fn, data);
            if (!o.read(fn.c_str())) { err = "read returns false"; return 1; }
            return 0;
        }
        std::istringstream in(data);
        in >> o;
        if (!in.good()) { err = "stream not good"; return 1; }
        return 0;
    } catch (const char* e) { err = e; return 1; }
    catch (std::exception& e) { err = e.what(); return 1; }
}

int try_write(OpenMTP_IDS& o, string& data, bool file, string& err)
{
    try {
        if (file)
        {
            string fn = mc::work + "/out.ids";
            unlink(fn.c_str());
            if (!o.write(fn.c_str())) { err = "write returns false"; return 1; }
            data = mc::read_file(fn);
            return 0;
        }
        std::ostringstream out;
        out << o;
        if (!out.good()) { err = "stream not good"; return 1; }
        data = out.str();
        return 0;
    } catch (const char* e) { err = e; return 1; }
    catch (std::exception& e) { err = e.what(); return 1; }
}

/// Everything about one image: write, read back, read again into a used object
void check_image(const MImage& m, OpenMTP_IDS& used, const string& key, bool file)
{
    string why, err, data;
    OpenMTP_IDS o;
    to_lib(m, o);
    if (!same(m, o, why)) { mc::fail(key + " set", "%s", why.c_str()); return; }
    string want = m.encode();
    if (try_write(o, data, file, err)) { mc::fail(key + " write", "%s", err.c_str()); return; }
    if (data != want)
    {
        size_t p = std::mismatch(data.begin(), data.begin() + std::min(data.size(), want.size()), want.begin()).first - data.begin();
        mc::fail(key + " bytes", "%zu bytes instead of %zu, first difference at %zu", data.size(), want.size(), p);
        return;
    }
    for (char padbyte : { '\0', '\x5a' })
    {
        string in = m.encode(padbyte);
        OpenMTP_IDS* objs[2];
        OpenMTP_IDS fresh;
        objs[0] = &fresh; objs[1] = &used;
        for (int i = 0; i < 2; ++i)
        {
            if (try_read(*objs[i], in, file, err)) { mc::fail(key + " read", "%s", err.c_str()); return; }
            if (!same(m, *objs[i], why)) { mc::fail(key + (i ? " read again" : " read"), "%s", why.c_str()); return; }
            if (!same(m.lines(), objs[i]->scanline(), why)) { mc::fail(key + " lines", "%s", why.c_str()); return; }
            OpenMTP_IDS copy(*objs[i]);
            if (try_write(copy, data, file, err) || data != want) { mc::fail(key + " rewrite", "the file read and written again differs"); return; }
        }
        mc::count(!m.recs.empty());
    }
    std::ostringstream dbg;
    o.debug(dbg);
    if (dbg.str().empty()) mc::fail(key + " debug", "nothing printed");
}

const unsigned bounds[] = { 0, 1, 2, 9, 10, 13, 26, 58, 127, 128, 255, 256, 257, 511, 512, 2560, 3338, 6656, 32767, 32768, 65279, 65280, 65534, 65535 };

}

MC_GROUP(header_values)
{
    // Each field with each boundary value, the others being distinct
    OpenMTP_IDS used;
    for (unsigned f = 0; f < NH; ++f)
    {
        for (unsigned k = 0; k < (mc::thorough ? 65536u : sizeof(bounds) / sizeof(bounds[0])); ++k)
        {
            unsigned v = mc::thorough ? k : bounds[k];
            if (!mc::begin("header %s = %u", hfields[f].name, v)) continue;
            MImage m = make_image({});
            m.h[f] = v;
            if (f == H_RECLEN && v < 58) continue;
            string why;
            FileHeader h;
            for (unsigned i = 0; i < NH; ++i) { auto set = hfields[i].set; (h.*set)(m.h[i]); }
            std::ostringstream out;
            out << h;
            if (!out.good() || out.str() != m.encode_header()) { mc::fail(mc::fmt("header %s", hfields[f].name), "wrong bytes written for %u", v); continue; }
            std::istringstream in(m.encode_header('\x33'));
            FileHeader r;
            in >> r;
            if (!in.good()) { mc::fail(mc::fmt("header %s", hfields[f].name), "cannot read the header with %u", v); continue; }
            if (!same_header(m, r, why)) { mc::fail(mc::fmt("header %s", hfields[f].name), "%s", why.c_str()); continue; }
            if (in.peek() != EOF) mc::fail(mc::fmt("header %s", hfields[f].name), "the header is not read to its end");
            mc::count();
        }
    }
    mc::sample("all %u header fields with values 0..65535, in place and read back", NH);
}

MC_GROUP(line_values)
{
    for (unsigned f = 0; f < 8; ++f)
        for (unsigned k = 0; k < (mc::thorough ? 65536u : sizeof(bounds) / sizeof(bounds[0])); ++k)
        {
            unsigned v = mc::thorough ? k : bounds[k];
            if (f == 0 && v < 19) continue;
            if (f == 3 && v > 3000 && !mc::thorough && v != 65279) continue;
            if (!mc::begin("line field %u = %u", f, v)) continue;
            tick = 5;
            MLine l = make_line(3, 0);
            if (f == 0) l.npad = v - 19;
            else if (f == 3) { l.pixels.resize(v); for (unsigned i = 0; i < v; ++i) l.pixels[i] = i * 7; }
            else if (f < 6) l.field[f] = v;
            else l.pad[f - 6] = v;
            l.sizes();
            if (l.field[0] > 65535) continue;
            ScanLine s, r;
            to_lib(l, s);
            std::ostringstream out;
            out << s;
            string why;
            if (!out.good() || out.str() != l.encode()) { mc::fail(mc::fmt("line field %u", f), "wrong bytes written for %u", v); continue; }
            std::istringstream in(l.encode('\x44'));
            in >> r;
            if (!in.good()) { mc::fail(mc::fmt("line field %u", f), "cannot read the line with %u", v); continue; }
            if (!same(l, r, why)) { mc::fail(mc::fmt("line field %u", f), "%s", why.c_str()); continue; }
            if (in.peek() != EOF) mc::fail(mc::fmt("line field %u", f), "the line is not read to its end");
            mc::count();
        }
    // All pixel values
    if (mc::begin("all pixel values"))
    {
        tick = 0;
        MLine l = make_line(256, 0);
        for (unsigned i = 0; i < 256; ++i) l.pixels[i] = i;
        ScanLine r;
        std::istringstream in(l.encode());
        in >> r;
        string why;
        if (!in.good() || !same(l, r, why)) mc::fail("pixel values", "%s", why.c_str());
        mc::count();
    }
}

MC_GROUP(satellite)
{
    // All pairs of names set one after the other, of all lengths
    string letters = "ABCDEFGH";
    for (unsigned a = 0; a <= 9; ++a)
        for (unsigned b = 0; b <= 9; ++b)
        {
            if (!mc::begin("satellite name of %u then %u characters", a, b)) continue;
            MImage m = make_image({});
            FileHeader h;
            for (unsigned i = 0; i < NH; ++i) { auto set = hfields[i].set; (h.*set)(m.h[i]); }
            string na = string("METEOSAT9").substr(0, a), nb = string("abcdefghi").substr(0, b);
            h.satellite(na.c_str());
            h.satellite(nb.c_str());
            m.satellite = nb.substr(0, 8);
            string why;
            if (!same_header(m, h, why)) { mc::fail("satellite", "%s", why.c_str()); continue; }
            std::ostringstream out;
            out << h;
            FileHeader r;
            r.satellite("ZZZZZZZZ");
            std::istringstream in(out.str());
            in >> r;
            if (!in.good() || !same_header(m, r, why)) mc::fail("satellite", "read back: %s", why.c_str());
            mc::count(a && b);
        }
}

// All shapes with up to R records of up to L lines, each line one of the kinds
static void shapes(unsigned R, unsigned L, const vector<std::pair<unsigned, unsigned>>& kinds, const std::function<void(const Shape&, const string&)>& f)
{
    vector<std::pair<vector<std::pair<unsigned, unsigned>>, string>> recs;
    for (unsigned n = 0; n <= L; ++n)
        mc::all_sequences(n, kinds.size(), [&](const vector<unsigned>& v) {
            vector<std::pair<unsigned, unsigned>> r;
            string name = "[";
            for (unsigned k : v) { r.push_back(kinds[k]); name += mc::fmt("%u+%u ", kinds[k].first, kinds[k].second); }
            recs.emplace_back(r, name + "]");
        });
    for (unsigned n = 0; n <= R; ++n)
        mc::all_sequences(n, recs.size(), [&](const vector<unsigned>& v) {
            Shape s;
            string name;
            for (unsigned k : v) { s.push_back(recs[k].first); name += recs[k].second; }
            f(s, name);
        });
}

MC_GROUP(images)
{
    vector<std::pair<unsigned, unsigned>> kinds = { {0, 0}, {1, 0}, {3, 2}, {2, 5} };
    if (mc::thorough) { kinds.push_back({0, 3}); kinds.push_back({300, 1}); }
    OpenMTP_IDS used;
    shapes(2, 2, kinds, [&](const Shape& s, const string& name) {
        for (unsigned hp : { 0u, 1u, 40u })
        {
            if (!mc::begin("image %s header padding %u", name.c_str(), hp)) continue;
            check_image(make_image(s, hp), used, "image", false);
        }
    });
    mc::sample("images of up to 2 records of up to 2 lines, written, read, and read into objects that had another image");
}

MC_GROUP(images_deep)
{
    vector<std::pair<unsigned, unsigned>> kinds = { {2, 1}, {1, 0} };
    OpenMTP_IDS used;
    shapes(mc::thorough ? 4 : 3, 2, kinds, [&](const Shape& s, const string& name) {
        if (!mc::begin("image %s", name.c_str())) return;
        check_image(make_image(s, 3), used, "image", false);
    });
}

MC_GROUP(files)
{
    vector<std::pair<unsigned, unsigned>> kinds = { {1, 0}, {3, 2} };
    OpenMTP_IDS used;
    shapes(2, 2, kinds, [&](const Shape& s, const string& name) {
        if (!mc::begin("file %s", name.c_str())) return;
        check_image(make_image(s, 6), used, "file", true);
    });
    // A real size
    for (unsigned lines : { 1u, 12u, 36u, 48u })
    {
        if (!mc::begin("file of 3 records of %u lines of 1248 pixels", lines)) continue;
        Shape s(3, vector<std::pair<unsigned, unsigned>>(lines, { 1248u, 0u }));
        check_image(make_image(s, 15142), used, "file", true);
    }
}

MC_GROUP(ranges)
{
    // All ranges over all shapes, within and outside the image
    unsigned R = mc::thorough ? 4 : 3;
    shapes(R, 3, { {2, 0} }, [&](const Shape& s, const string& name) {
        MImage m = make_image(s);
        OpenMTP_IDS o;
        to_lib(m, o);
        vector<MLine> all = m.lines();
        string why;
        if (mc::begin("all lines of %s", name.c_str()))
        {
            if (!same(all, o.scanline(), why)) mc::fail("all lines", "%s", why.c_str());
            mc::count();
        }
        unsigned N = all.size() + 2;
        for (unsigned a = 0; a <= N; ++a)
        {
            if (mc::begin("line %u of %s", a, name.c_str()))
            {
                vector<MLine> want;
                if (a < all.size()) want.push_back(all[a]);
                if (!same(want, o.scanline(a), why)) mc::fail("line", "%s", why.c_str());
                mc::count();
            }
            for (unsigned b = 0; b <= N + 1; ++b)
            {
                unsigned to = b == N + 1 ? 0xffffffffu : b;
                if (!mc::begin("lines %u to %u of %s", a, to, name.c_str())) continue;
                vector<MLine> want;
                for (unsigned i = a; i < to && i < all.size(); ++i) want.push_back(all[i]);
                if (!same(want, o.scanline(a, to), why)) mc::fail("range", "%s", why.c_str());
                mc::count(a < b);
            }
        }
    });
    mc::sample("all line ranges of all images of up to %u records of up to 3 lines", R);
}

// Damage: every cut, every number of records and lines that does not fit
MC_GROUP(cuts)
{
    vector<std::pair<unsigned, unsigned>> kinds = { {1, 0}, {3, 2} };
    OpenMTP_IDS used;
    shapes(2, mc::thorough ? 2 : 1, kinds, [&](const Shape& s, const string& name) {
        MImage m = make_image(s, 4);
        string data = m.encode('\x77');
        for (size_t cut = 0; cut < data.size(); ++cut)
            for (int file = 0; file < 2; ++file)
            {
                if (!mc::begin("%s %s cut to %zu of %zu bytes", file ? "file" : "stream", name.c_str(), cut, data.size())) continue;
                string err;
                OpenMTP_IDS o;
                if (!try_read(o, data.substr(0, cut), file, err)) mc::fail("cut", "a file of %zu bytes cut to %zu is read without error", data.size(), cut);
                else if (err.empty()) mc::fail("cut", "no error text");
                if (!try_read(used, data.substr(0, cut), file, err)) mc::fail("cut", "a file of %zu bytes cut to %zu is read without error into an object used before", data.size(), cut);
                mc::count();
            }
    });
    mc::sample("images cut at every byte are refused");
}

MC_GROUP(counts)
{
    Shape s = { { {2, 1}, {3, 0} }, { {1, 0} } };
    // Numbers of records other than those in the file
    for (unsigned n = 0; n <= 65535; n = n < 16 ? n + 1 : n * 2 + 1)
    {
        if (!mc::begin("file of 3 records declaring %u", n)) continue;
        MImage m = make_image(s);
        m.h[H_RECORDS] = n;
        OpenMTP_IDS o;
        string err;
        int rc = try_read(o, m.encode(), false, err);
        if (n == 0 || n > 3)
        {
            if (!rc) mc::fail("records", "a file of 3 records declaring %u is read without error", n);
        }
        else if (rc) mc::fail("records", "a file of 3 records declaring %u: %s", n, err.c_str());
        else if (o.record().size() != n - 1) mc::fail("records", "%zu records read of %u", o.record().size(), n);
        mc::count();

        // Written with a wrong number of records: an error, or the records there are
        OpenMTP_IDS w;
        to_lib(make_image(s), w);
        w.fileheader().no_records(n);
        string data;
        rc = try_write(w, data, false, err);
        if (n != 3 && !rc)
        {
            OpenMTP_IDS back;
            string why;
            MImage full = make_image(s);
            if (try_read(back, data, false, err) || back.record().size() != 2)
                mc::fail("records written", "an image of 3 records declaring %u is written as something else", n);
        }
        mc::count();
    }
    if (mc::begin("default object"))
    {
        OpenMTP_IDS o;
        string data, err, why;
        if (!o.scanline().empty() || !o.scanline(0).empty() || !o.scanline(0, 5).empty()) mc::fail("default", "an empty image has lines");
        try_write(o, data, false, err);
        mc::count();
    }
    // Lengths of lines that are smaller than the pixels
    for (unsigned len = 0; len < 24; ++len)
    {
        if (!mc::begin("line of 3 pixels with length %u", len)) continue;
        MImage m = make_image({ { {3, 2} }, { {1, 0} } });
        m.recs[0].lines[0].field[0] = len;
        OpenMTP_IDS o;
        string err;
        int rc = try_read(o, m.encode(), false, err);
        if (len < 19 && !rc) mc::fail("line length", "a line of 3 pixels with length %u is read without error", len);
        mc::count();
    }
    for (unsigned len = 0; len < 58; ++len)
    {
        if (!mc::begin("file header with record length %u", len)) continue;
        MImage m = make_image({ { {3, 2} } });
        m.h[H_RECLEN] = len;
        OpenMTP_IDS o;
        string err;
        if (!try_read(o, m.encode(), false, err)) mc::fail("record length", "a file with records of %u bytes is read without error", len);
        mc::count();
    }
}

MC_GROUP(errors)
{
    // What is thrown names the file, and is intact
    string missing = mc::work + "/there is no such directory/with a long name to be sure/file.ids";
    for (int op = 0; op < 4; ++op)
    {
        if (!mc::begin("error of operation %d", op)) continue;
        string err, fn = missing;
        bool failed = false;
        OpenMTP_IDS o;
        to_lib(make_image({ { {2, 1} } }, op == 3 ? 30000 : 5), o);
        if (op == 2 || op == 3) fn = "/dev/full";
        try {
            if (op == 0) o.read(fn.c_str());
            else o.write(fn.c_str());
        } catch (const char* e) { failed = true; err = e; }
        catch (std::exception& e) { failed = true; err = e.what(); }
        if (!failed) mc::fail("errors", "no error from %s", fn.c_str());
        else if (err.find(fn) == string::npos) mc::fail("errors", "the error is %s", mc::show(err).c_str());
        mc::count();
    }
    // An image cannot be read from a directory
    if (mc::begin("read a directory"))
    {
        OpenMTP_IDS o;
        bool failed = false;
        try { o.read(mc::work.c_str()); } catch (...) { failed = true; }
        if (!failed) mc::fail("errors", "a directory is read without error");
        mc::count();
    }
    // Cut files read by name at every stage name the failure
    if (mc::begin("constructor"))
    {
        mc::write_file(mc::work + "/c.ids", make_image({ { {2, 1} } }).encode());
        OpenMTP_IDS o((mc::work + "/c.ids").c_str());
        string why;
        if (!same(make_image({ { {2, 1} } }), o, why)) mc::fail("constructor", "%s", why.c_str());
        mc::count();
    }
}

// Histories on several objects: copies do not share anything
MC_GROUP(copies)
{
    MImage imgs[3] = { make_image({ { {2, 1}, {1, 0} } }), make_image({ { {3, 0} }, { {1, 1}, {2, 2} } }), make_image({}) };
    unsigned depth = mc::thorough ? 5 : 4;
    // objects a, b; ops: read image i into a/b, a=b, b=a, change pixel of a/b, copy construct
    const unsigned NOPS = 10;
    mc::all_sequences(depth, NOPS, [&](const vector<unsigned>& ops) {
        string name;
        for (unsigned o : ops) name += (char)('0' + o);
        if (!mc::begin("operations %s", name.c_str())) return;
        OpenMTP_IDS obj[2];
        MImage mod[2];
        to_lib(imgs[2], obj[0]); to_lib(imgs[2], obj[1]);
        mod[0] = mod[1] = imgs[2];
        string err, why;
        for (unsigned op : ops)
        {
            unsigned t = op & 1;
            switch (op / 2)
            {
                case 0: if (try_read(obj[t], imgs[0].encode(), false, err)) { mc::fail("copies", "%s", err.c_str()); return; } mod[t] = imgs[0]; break;
                case 1: if (try_read(obj[t], imgs[1].encode(), false, err)) { mc::fail("copies", "%s", err.c_str()); return; } mod[t] = imgs[1]; break;
                case 2: obj[t] = obj[1 - t]; mod[t] = mod[1 - t]; break;
                case 3:
                    if (mod[t].recs.empty()) { obj[t].fileheader().year(7); mod[t].h[1] = 7; }
                    else { obj[t].record()[0].scanline()[0].linepixel()[0] ^= 0x55; mod[t].recs[0].lines[0].pixels[0] ^= 0x55; }
                    break;
                case 4: { OpenMTP_IDS c(obj[t]); obj[1 - t] = c; mod[1 - t] = mod[t]; c.fileheader().year(9); break; }
            }
            ++mc::sh->transitions;
        }
        for (unsigned i = 0; i < 2; ++i)
            if (!same(mod[i], obj[i], why)) mc::fail("copies", "object %u: %s", i, why.c_str());
        mc::count();
    });
}
