#include "synth.hpp"
#include "mc.hpp"

namespace synth {

void p1(std::string& s, size_t pos, unsigned v) { s.at(pos) = (char)v; }
void p2(std::string& s, size_t pos, unsigned v) { p1(s, pos, v >> 8 & 0xff); p1(s, pos + 1, v & 0xff); }
void p4(std::string& s, size_t pos, uint32_t v) { p2(s, pos, v >> 16); p2(s, pos + 2, v & 0xffff); }
void p8(std::string& s, size_t pos, uint64_t v) { p4(s, pos, v >> 32); p4(s, pos + 4, (uint32_t)v); }
void pf4(std::string& s, size_t pos, float v) { uint32_t i; memcpy(&i, &v, 4); p4(s, pos, i); }
void pf8(std::string& s, size_t pos, double v) { uint64_t i; memcpy(&i, &v, 8); p8(s, pos, i); }
std::string be(uint64_t v, unsigned bytes)
{
    std::string r(bytes, 0);
    for (unsigned i = 0; i < bytes; ++i) r[i] = (char)(v >> 8 * (bytes - 1 - i) & 0xff);
    return r;
}

static std::string record(unsigned type, const std::string& body) { return be(type, 1) + be(body.size() + 3, 2) + body; }
static std::string padded(const std::string& s, size_t n) { std::string r = s; r.resize(n, 0); return r; }

std::string rec_structure(int bpp, int columns, int lines, int compression)
{ return record(1, be(bpp, 1) + be(columns, 2) + be(lines, 2) + be(compression, 1)); }
std::string rec_navigation(const std::string& projection, int32_t cfac, int32_t lfac, int32_t coff, int32_t loff)
{ return record(2, padded(projection, 32) + be((uint32_t)cfac, 4) + be((uint32_t)lfac, 4) + be((uint32_t)coff, 4) + be((uint32_t)loff, 4)); }
std::string rec_datafunc(const std::string& text) { return record(3, text); }
std::string rec_annotation(const std::string& text) { return record(4, padded(text, 61)); }
std::string rec_timestamp(unsigned day, uint32_t ms) { return record(5, be(0x40, 1) + be(day, 2) + be(ms, 4)); }
std::string rec_text(const std::string& text) { return record(6, text); }
std::string rec_key(unsigned number, uint64_t seed) { return record(7, be(number, 1) + be(seed, 8)); }
std::string rec_segment(unsigned spacecraft, unsigned channel, unsigned seq, unsigned start, unsigned end, unsigned format)
{ return record(128, be(spacecraft, 2) + be(channel, 1) + be(seq, 2) + be(start, 2) + be(end, 2) + be(format, 1)); }
std::string rec_quality(const std::vector<LineQuality>& lines)
{
    std::string b;
    for (auto& l : lines)
        b += be((uint32_t)l.line, 4) + be(l.day, 2) + be(l.ms, 4) + be(l.validity, 1) + be(l.radiometric, 1) + be(l.geometric, 1);
    return record(129, b);
}
std::string xrit_file(unsigned type, const std::string& records, const std::string& data)
{ return be(0, 1) + be(16, 2) + be(type, 1) + be(16 + records.size(), 4) + be(data.size() * 8, 8) + records + data; }

int day1958(int year, int month, int day)
{
    // Days since 1958-01-01 by counting
    static const int len[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    int n = 0;
    for (int y = 1958; y < year; ++y) n += y % 4 == 0 && (y % 100 || y % 400 == 0) ? 366 : 365;
    for (int m = 1; m < month; ++m) n += len[m - 1] + (m == 2 && year % 4 == 0 && (year % 100 || year % 400 == 0));
    return n + day - 1;
}

unsigned pattern(int l, int c) { return 1 + (unsigned)(l * 37u + c * 101u + (l / 464) * 11u) % 1023; }

Image::Image()
{
    for (int i = 0; i < 12; ++i) { slope[i] = 0.01 * (i + 1); offset[i] = -0.5 * (i + 1); }
    acq_day = day1958(2006, 11, 14);
    acq_ms = 12 * 3600000;
    sample = pattern;
}

static std::string us(std::string s, size_t n) { s.resize(n, '_'); return s; }

std::string Image::annotation(const std::string& chan, const std::string& part) const
{ return resolution + "-000-" + us(product, 6) + "-" + us(product, 12) + "-" + us(chan, 9) + "-" + us(part, 9) + "-" + timing + "-"; }
std::string Image::file_name(const std::string& chan, const std::string& part, const std::string& end) const
{ return dir + "/" + annotation(chan, part) + end; }

std::string Image::prologue_data() const
{
    std::string s(PRO_SIZE, 0);
    p2(s, PRO_SATELLITE, spacecraft);
    p2(s, PRO_ACQUISITION, acq_day);
    p4(s, PRO_ACQUISITION + 2, acq_ms);
    p1(s, PRO_DESCRIPTION, 1);
    pf4(s, PRO_DESCRIPTION + 1, longitude);
    p4(s, PRO_DESCRIPTION + 5, 3712);
    p4(s, PRO_DESCRIPTION + 9, 3712);
    pf4(s, PRO_DESCRIPTION + 13, step_visir);
    pf4(s, PRO_DESCRIPTION + 17, step_visir);
    p1(s, PRO_DESCRIPTION + 21, 2);
    p4(s, PRO_DESCRIPTION + 22, 11136);
    p4(s, PRO_DESCRIPTION + 26, 11136);
    pf4(s, PRO_DESCRIPTION + 30, step_hrv);
    pf4(s, PRO_DESCRIPTION + 34, step_hrv);
    p1(s, PRO_DESCRIPTION + 38, 2);
    for (int i = 0; i < 12; ++i)
    {
        pf8(s, PRO_RADIOMETRIC + 72 + 16 * i, slope[i]);
        pf8(s, PRO_RADIOMETRIC + 72 + 16 * i + 8, offset[i]);
    }
    return s;
}

std::string Image::epilogue_data() const
{
    std::string s(EPI_SIZE, 0);
    p2(s, EPI_STATS, spacecraft);
    int v[12] = { 1, 3712, 1, 3712, hrv.ls, hrv.ln, hrv.le, hrv.lw, hrv.us, hrv.un, hrv.ue, hrv.uw };
    for (int i = 0; i < 12; ++i) p4(s, EPI_COVERAGE_VISIR + 4 * i, (uint32_t)v[i]);
    return s;
}

std::string Image::prologue_file() const
{ return xrit_file(128, rec_annotation(annotation("", "PRO") + "__") + rec_timestamp(acq_day, acq_ms), prologue_data()); }
std::string Image::epilogue_file() const
{ return xrit_file(129, rec_annotation(annotation("", "EPI") + "__") + rec_timestamp(acq_day, acq_ms), epilogue_data()); }

std::string Image::segment_file(int seq) const
{
    unsigned key = format == FMT_JPEG ? 0x155 : format == FMT_T4 ? 0x2aa : 0;
    std::string data((size_t)columns * seglines * 2, 0);
    for (int l = 0; l < seglines; ++l)
        for (int c = 0; c < columns; ++c)
        {
            unsigned v = sample((seq - 1) * seglines + l, east_first ? columns - 1 - c : c) ^ key;
            size_t p = ((size_t)l * columns + c) * 2;
            data[p] = (char)(v & 0xff);
            data[p + 1] = (char)(v >> 8);
        }
    char proj[40];
    snprintf(proj, 40, "GEOS(%+06.1f)", longitude);
    bool h = channel_id == 12;
    char part[10];
    snprintf(part, 10, "%06d", seq);
    return xrit_file(0, rec_structure(bpp, columns, seglines, 1)
                      + rec_navigation(proj, (east_first ? -1 : 1) * (h ? 40927000 : 13642337), (east_first ? -1 : 1) * (h ? 40927000 : 13642337), h ? 5566 : 1856, h ? 5566 : 1856)
                      + rec_annotation(annotation(channel, part) + "C_") + rec_timestamp(acq_day, acq_ms)
                      + rec_segment(spacecraft, channel_id, seq, 1, segments, format), data);
}

std::string Image::segment_name(int number) const
{
    char part[16];
    snprintf(part, 16, "%06d", number);
    return file_name(channel, part, "C_");
}
std::string Image::short_name() const { return dir + "/" + resolution + ":" + product + ":" + channel + ":" + timing; }
void Image::write_prologue() const { mc::write_file(file_name("", "PRO", "__"), prologue_file()); }
void Image::write_epilogue() const { mc::write_file(file_name("", "EPI", "__"), epilogue_file()); }
void Image::write_segment(int seq, int number) const { mc::write_file(segment_name(number < 0 ? seq : number), segment_file(seq)); }
void Image::write_all() const
{
    mc::make_dirs(dir);
    write_prologue();
    write_epilogue();
    for (int i = 1; i <= segments; ++i) write_segment(i);
}

}
