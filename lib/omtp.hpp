// OpenMTP-IDS files, written from the layout of the format
#pragma once
#include "mc.hpp"
#include <msat/omtp-ids/OpenMTP-IDS.hh>
#include <msat/omtp-ids/Constants.hh>
#include <algorithm>
#include <string>
#include <vector>

namespace {

using namespace omtp_ids;
using std::string;
using std::vector;

struct HField
{
    const char* name;
    int (FileHeader::*get)() const;
    void (FileHeader::*set)(const int);
};
#define HF(n) { #n, &FileHeader::n, &FileHeader::n }
// In the order of the file; the satellite name is before satellite_id
const HField hfields[] = {
    HF(no_records), HF(year), HF(julian_day), HF(hour), HF(minute),
    HF(process_year), HF(process_julian_day), HF(process_hour), HF(process_minute),
    HF(no_channels), HF(vis_id), HF(wv_id), HF(ir_id), HF(satellite_id), HF(record_length),
    HF(no_vis_average), HF(no_wv_average), HF(no_ir_average), HF(averaging_type),
    HF(sample_interval), HF(ir_calibration), HF(wv_calibration), HF(fine_adjustment),
    HF(ir_space_count), HF(wv_space_count),
};
const unsigned NH = sizeof(hfields) / sizeof(hfields[0]);
enum { H_RECORDS = 0, H_SATID = 13, H_RECLEN = 14 };

struct LField
{
    const char* name;
    int (LineHeader::*get)() const;
    void (LineHeader::*set)(const int);
};
#define LF(n) { #n, &LineHeader::n, &LineHeader::n }
const LField lfields[] = { LF(length), LF(line), LF(start), LF(no_pixels), LF(channel_id), LF(quality) };

void put2(string& s, unsigned v) { s += (char)(v >> 8); s += (char)v; }

struct MLine
{
    unsigned field[6] = {};
    unsigned pad[2] = {};
    string pixels;
    unsigned npad = 0;
    void sizes() { field[3] = pixels.size(); field[0] = 16 + pixels.size() + npad; }
    string encode(char padbyte = 0) const
    {
        string s;
        for (unsigned v : field) put2(s, v);
        for (unsigned v : pad) put2(s, v);
        return s + pixels + string(npad, padbyte);
    }
    bool operator==(const MLine& o) const
    {
        return std::equal(field, field + 6, o.field) && pad[0] == o.pad[0] && pad[1] == o.pad[1] && pixels == o.pixels;
    }
};

struct MRecord
{
    unsigned hlen = 8, len = 0, zero = 0;
    vector<MLine> lines;
    string encode(char padbyte = 0) const
    {
        string s("\0\1", 2);
        put2(s, hlen); put2(s, lines.size()); put2(s, len); put2(s, zero);
        for (auto& l : lines) s += l.encode(padbyte);
        return s;
    }
};

struct MImage
{
    unsigned h[NH] = {};
    string satellite = "METEOSAT";
    vector<MRecord> recs;
    string encode_header(char padbyte = 0) const
    {
        string s("\0\1", 2);
        for (unsigned i = 0; i < NH; ++i)
        {
            if (i == H_SATID) { string n = satellite; n.resize(8); s += n; }
            put2(s, h[i]);
        }
        if (h[H_RECLEN] + 2 > s.size()) s.resize(h[H_RECLEN] + 2, padbyte);
        return s;
    }
    string encode(char padbyte = 0) const
    {
        string s = encode_header(padbyte);
        for (auto& r : recs) s += r.encode(padbyte);
        return s;
    }
    vector<MLine> lines() const
    {
        vector<MLine> v;
        for (auto& r : recs) v.insert(v.end(), r.lines.begin(), r.lines.end());
        return v;
    }
};

// Distinct values everywhere
unsigned tick;
MLine make_line(unsigned pixels, unsigned npad)
{
    MLine l;
    for (unsigned i = 1; i < 6; ++i) l.field[i] = (++tick * 2654435761u) >> 16;
    l.pad[0] = ++tick & 65535; l.pad[1] = 65535 - l.pad[0];
    for (unsigned i = 0; i < pixels; ++i) l.pixels += (char)(++tick * 37);
    l.npad = npad;
    l.sizes();
    return l;
}

// shape: for each record its lines, given as (pixels, padding)
typedef vector<vector<std::pair<unsigned, unsigned>>> Shape;
MImage make_image(const Shape& shape, unsigned header_pad = 0)
{
    MImage m;
    tick = 0;
    for (unsigned i = 0; i < NH; ++i) m.h[i] = 1000 + 257 * i;
    m.h[H_RECORDS] = shape.size() + 1;
    m.h[H_RECLEN] = 58 + header_pad;
    for (auto& r : shape)
    {
        MRecord mr;
        mr.len = 20000 + m.recs.size();
        mr.zero = m.recs.size() * 300;
        for (auto& l : r) mr.lines.push_back(make_line(l.first, l.second));
        m.recs.push_back(mr);
    }
    return m;
}

}
