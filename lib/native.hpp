// MSG native format files, written from the layout of the format
#pragma once
#include "mc.hpp"
#include <map>
#include <string>
#include <vector>

namespace {

using std::string;
using std::vector;

string be2(unsigned v) { string s; s += (char)(v >> 8); s += (char)v; return s; }
string be4(uint32_t v) { return be2(v >> 16) + be2(v & 0xffff); }

/// Samples as a string of 10 bit numbers, most significant bit first
string pack10(const vector<unsigned>& v)
{
    string s((v.size() * 10 + 7) / 8, '\0');
    for (unsigned i = 0; i < v.size(); ++i)
        for (unsigned b = 0; b < 10; ++b)
            if ((v[i] >> (9 - b)) & 1) s[(i * 10 + b) / 8] |= 0x80 >> ((i * 10 + b) % 8);
    return s;
}

vector<unsigned> unpack10(const string& s)
{
    vector<unsigned> v(s.size() * 8 / 10);
    for (unsigned i = 0; i < v.size(); ++i)
        for (unsigned b = 0; b < 10; ++b)
            v[i] = v[i] << 1 | (((unsigned char)s[(i * 10 + b) / 8] >> (7 - (i * 10 + b) % 8)) & 1);
    return v;
}

struct Line
{
    string pk = string(38, 0);  // packet header
    string lh = string(27, 0);  // line header
    string data;
    Line() { cds(pk, 30); pk[36] = 1; pk[37] = 66; cds(lh, 5); lh[3] = 23; lh[4] = 112; cds(lh, 18); lh[24] = lh[25] = lh[26] = 1; }
    static void cds(string& s, unsigned at) { s.replace(at, 6, be2(0x4321 >> 1) + be4(12345678)); }
    Line& num(unsigned ch, unsigned n) { lh.replace(13, 4, be4(n)); lh[17] = (char)ch; return *this; }
    string encode() const
    {
        string p = pk;
        p.replace(18, 4, be4(15 + 27 + data.size()));
        return p + lh + data;
    }
};

const unsigned HLEN = 445248, TLEN = 380325;
const unsigned hsec[] = { 60134, 700, 326058, 101, 20815, 17653, 19786 };
const unsigned tsec[] = { 340, 5680, 371256, 2916, 132 };

struct File
{
    unsigned mask = 1;                // channels in the file
    int nlines = 2, ncols = 4;        // of the header
    int hlines = 6, hcols = 4;
    unsigned groups = 2;              // in the file
    unsigned vsize = 5, hsize = 5;    // bytes of data of each line
    bool trailer_first = false;
    bool terminated = true;           // header records end with a zero
    string bands;                     // or made from the mask
    unsigned salt = 0;
    vector<string> info = vector<string>(48);
    vector<string> lines[12];
    std::map<unsigned, string> data_of;  // of lines with given data

    string line(unsigned ch, unsigned n)
    {
        Line l;
        l.num(ch + 1, 1000 + n);
        if (data_of.count(n)) l.data = data_of.find(n)->second;
        else for (unsigned i = 0; i < (ch == 11 ? hsize : vsize); ++i) l.data += (char)(salt + ch * 17 + n * 29 + i * 83 + 5);
        string s = l.encode();
        lines[ch].push_back(s);
        return s;
    }
    static string packet(unsigned len)
    {
        Line l;
        string p = l.pk;
        p.replace(18, 4, be4(len + 15));
        return p;
    }
    string section(unsigned len) const
    {
        string s(len, 0);
        s[0] = 1;
        for (unsigned i = 1; i < len; ++i) s[i] = (char)((i * 7 + i / 251 + salt) & 0x3f);
        return s;
    }
    string rec(const string& name, const string& value, unsigned vlen) const
    {
        string s = name;
        s.resize(28, ' ');
        s += ": " + value;
        if (terminated) { s += "\n"; s.resize(30 + vlen, '\0'); }
        else { s.resize(30 + vlen - 1, ' '); s += "\n"; }
        return s;
    }
    string encode()
    {
        for (auto& l : lines) l.clear();
        string data;
        for (unsigned g = 0; g < groups; ++g)
            for (unsigned ch = 0; ch < 12; ++ch)
            {
                if (!((mask >> ch) & 1)) continue;
                if (ch < 11) data += line(ch, g);
                else for (unsigned k = 0; k < 3; ++k) data += line(ch, 3 * g + k);
            }
        string h = packet(HLEN) + section(HLEN), t = packet(TLEN) + section(TLEN);
        size_t hpos = 5114, dpos, tpos;
        if (trailer_first) { tpos = hpos + h.size(); dpos = tpos + t.size(); }
        else { dpos = hpos + h.size(); tpos = dpos + data.size(); }

        string m;
        for (unsigned i = 0; i < 6; ++i) m += rec(mc::fmt("Record%u", i), mc::fmt("VALUE%u", i), 50);
        const size_t pos[] = { 0, 0, hpos, dpos, tpos };
        const size_t size[] = { 0, 5114, h.size(), data.size(), t.size() };
        for (unsigned i = 0; i < 27; ++i)
        {
            string num = i < 5 ? mc::fmt("%zu", size[i]) : "0", at = i < 5 ? mc::fmt("%zu", pos[i]) : "0";
            string r = mc::fmt("Product%u", i);
            r.resize(28, ' ');
            r += ": " + num;
            if (terminated) { r += "\n"; r.resize(46, '\0'); at += "\n"; at.resize(16, '\0'); }
            else { r.resize(46, ' '); at.resize(15, ' '); at += "\n"; }
            m += r + at;
        }
        string b = bands;
        if (b.empty()) for (unsigned i = 0; i < 12; ++i) b += (mask >> i) & 1 ? 'X' : '-';
        for (unsigned i = 11; i < 48; ++i)
        {
            string v = mc::fmt("%u", i * 11);
            switch (i)
            {
                case 39: v = b; break;
                case 40: v = "1"; break;
                case 41: v = mc::fmt("%d", nlines); break;
                case 42: v = "1"; break;
                case 43: v = mc::fmt("%d", ncols); break;
                case 44: v = mc::fmt("%d", nlines); break;
                case 45: v = mc::fmt("%d", ncols); break;
                case 46: v = mc::fmt("%d", hlines); break;
                case 47: v = mc::fmt("%d", hcols); break;
            }
            if (!info[i].empty()) v = info[i];
            m += rec(mc::fmt("SecondaryRecord%u", i), v == "none" ? "" : v, 50);
        }
        if (m.size() != 5114) { mc::fail("harness", "main header of %zu", m.size()); abort(); }
        return trailer_first ? m + h + t + data : m + h + data + t;
    }
};

}
