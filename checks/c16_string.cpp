// C16: the helpers of msat::str against their specification, on every string
// over the significant characters up to a bound.
#include "mc.hpp"
#include "enumerate.hpp"
#include <msat/utils/string.h>
#include <iterator>

using namespace msat;
using std::string;
using std::vector;
using mc::all_strings;
using mc::show;

static void eq(const char* what, const string& in, const string& got, const string& want)
{
    mc::count(!in.empty());
    if (got != want)
        mc::fail(mc::fmt("%s(%s)", what, show(in).c_str()), "%s of \"%s\" is \"%s\" instead of \"%s\"", what, show(in).c_str(), show(got).c_str(), show(want).c_str());
}

static bool is_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

MC_GROUP(strip)
{
    const string alpha(" \t\n\v\f\r" "a\0\x85\xa0", 10);
    all_strings(alpha, mc::thorough ? 6 : 5, [](const string& s) {
        if (!mc::begin("strip %s", show(s).c_str())) return;
        size_t b = 0, e = s.size();
        while (b < s.size() && is_space(s[b])) ++b;
        while (e > b && is_space(s[e - 1])) --e;
        size_t e2 = s.size();
        while (e2 > 0 && is_space(s[e2 - 1])) --e2;
        eq("lstrip", s, str::lstrip(s), s.substr(b));
        eq("rstrip", s, str::rstrip(s), s.substr(0, e2));
        eq("strip", s, str::strip(s), s.substr(b, e - b));
    });
    // every byte value alone and around a letter
    for (int c = 0; c < 256; ++c)
    {
        if (!mc::begin("strip byte %d", c)) continue;
        string s = string(1, (char)c) + "x" + string(1, (char)c);
        string l = is_space((char)c) ? s.substr(1) : s;
        eq("lstrip", s, str::lstrip(s), l);
        eq("rstrip", s, str::rstrip(s), is_space((char)c) ? s.substr(0, 2) : s);
        eq("strip", s, str::strip(s), is_space((char)c) ? "x" : s);
        string s1(1, (char)c);
        eq("strip", s1, str::strip(s1), is_space((char)c) ? "" : s1);
    }
    mc::sample("strip(\" \\ta \") = \"%s\"", str::strip(" \ta ").c_str());
}

MC_GROUP(affixes)
{
    const string alpha("ab\0", 3);
    vector<string> all;
    all_strings(alpha, 4, [&](const string& s) { all.push_back(s); });
    for (const auto& s : all)
        for (const auto& p : all)
        {
            if (!mc::begin("affix %s|%s", show(s).c_str(), show(p).c_str())) continue;
            bool st = true, en = true;
            if (p.size() > s.size()) st = en = false;
            else for (size_t i = 0; i < p.size(); ++i)
            {
                if (s[i] != p[i]) st = false;
                if (s[s.size() - p.size() + i] != p[i]) en = false;
            }
            mc::count(!p.empty());
            if (str::startswith(s, p) != st) mc::fail("startswith", "startswith(\"%s\", \"%s\") is %d", show(s).c_str(), show(p).c_str(), !st);
            if (str::endswith(s, p) != en) mc::fail("endswith", "endswith(\"%s\", \"%s\") is %d", show(s).c_str(), show(p).c_str(), !en);
        }
    mc::sample("startswith/endswith on %zu x %zu string pairs", all.size(), all.size());
}

MC_GROUP(join_case)
{
    const char* toks[] = {"", "a", "bc", ",", " "};
    const char* seps[] = {"", ",", ", ", "ab"};
    for (unsigned n = 0; n <= 5; ++n)
        mc::all_sequences(n, 5, [&](const vector<unsigned>& v) {
            for (const char* sep : seps)
            {
                if (!mc::begin("join n=%u sep=%s first=%u", n, sep, n ? v[0] : 0)) continue;
                vector<string> items;
                string want;
                for (unsigned i = 0; i < n; ++i)
                {
                    items.push_back(toks[v[i]]);
                    if (i) want += sep;
                    want += toks[v[i]];
                }
                eq("join", want, str::join(sep, items), want);
                eq("join(iterators)", want, str::join(sep, items.begin(), items.end()), want);
            }
        });
    vector<int> nums{1, -2, 30};
    eq("join", "ints", str::join(";", nums), "1;-2;30");
    eq("join(iterators)", "ints", str::join(";", nums.begin(), nums.end()), "1;-2;30");
    for (int a = 0; a < 256; ++a)
        for (int b = 0; b < 256; ++b)
        {
            string s{(char)a, (char)b}, u = s, l = s;
            for (auto& c : u) if (c >= 'a' && c <= 'z') c -= 32;
            for (auto& c : l) if (c >= 'A' && c <= 'Z') c += 32;
            if (!mc::begin("case %d %d", a, b)) continue;
            eq("upper", s, str::upper(s), u);
            eq("lower", s, str::lower(s), l);
        }
}

// Components of a path: the maximal runs of characters that are not '/'
static vector<string> components(const string& p)
{
    vector<string> r;
    string cur;
    for (char c : p)
        if (c == '/') { if (!cur.empty()) r.push_back(cur); cur.clear(); }
        else cur += c;
    if (!cur.empty()) r.push_back(cur);
    return r;
}

MC_GROUP(base_dir_name)
{
    all_strings("/a.b", mc::thorough ? 9 : 8, [](const string& s) {
        if (!mc::begin("basename %s", s.c_str())) return;
        string base;
        for (char c : s) if (c == '/') base.clear(); else base += c;
        eq("basename", s, str::basename(s), base);

        // Drop trailing slashes, the last component, and the slashes before it
        string want;
        if (s.empty()) want = ".";
        else
        {
            string t = s;
            while (!t.empty() && t.back() == '/') t.pop_back();
            if (t.empty()) want = "/";
            else if (t.find('/') == string::npos) want = ".";
            else
            {
                while (t.back() != '/') t.pop_back();
                while (!t.empty() && t.back() == '/') t.pop_back();
                want = t.empty() ? "/" : t;
            }
        }
        eq("dirname", s, str::dirname(s), want);
    });
    mc::sample("dirname(\"//a/b//\") = %s", str::dirname("//a/b//").c_str());
}

static string ref_append(const string& a, const string& b)
{
    if (b.empty()) return a;
    if (a.empty()) return b;
    bool sa = a.back() == '/', sb = b.front() == '/';
    if (sa && sb) return a + b.substr(1);
    if (sa || sb) return a + b;
    return a + "/" + b;
}

MC_GROUP(append_join)
{
    vector<string> all, few;
    all_strings("/a.", 4, [&](const string& s) { all.push_back(s); if (s.size() <= 2) few.push_back(s); });
    for (const auto& a : all)
        for (const auto& b : all)
        {
            if (!mc::begin("append %s|%s", a.c_str(), b.c_str())) continue;
            string in = a + "|" + b, want = ref_append(a, b);
            string d = a;
            str::appendpath(d, b);
            eq("appendpath(string)", in, d, want);
            d = a;
            str::appendpath(d, b.c_str());
            eq("appendpath(chars)", in, d, want);
            eq("joinpath", in, str::joinpath(a, b), want);
        }
    for (const auto& a : few)
        for (const auto& b : few)
            for (const auto& c : few)
            {
                if (!mc::begin("join %s|%s|%s", a.c_str(), b.c_str(), c.c_str())) continue;
                string in = a + "|" + b + "|" + c, want = ref_append(ref_append(a, b), c);
                eq("joinpath", in, str::joinpath(a, b, c.c_str()), want);
                string d = a;
                str::appendpath(d, b, c.c_str());
                eq("appendpath(several)", in, d, want);
                d = a;
                str::appendpath(d, b.c_str(), c, a);
                eq("appendpath(several)", in + "|" + a, d, ref_append(want, a));
            }
    mc::sample("joinpath(\"a/\", \"/b\", \"c\") = %s", str::joinpath("a/", "/b", "c").c_str());
}

MC_GROUP(normpath)
{
    all_strings("/.ab", mc::thorough ? 10 : 9, [](const string& s) {
        if (!mc::begin("normpath %s", s.c_str())) return;
        bool abs = !s.empty() && s[0] == '/';
        vector<string> st;
        for (const auto& c : components(s))
        {
            if (c == ".") continue;
            if (c == "..")
            {
                if (!st.empty() && st.back() != "..") { st.pop_back(); continue; }
                if (abs) continue;
            }
            st.push_back(c);
        }
        string want = abs ? "/" : "";
        for (size_t i = 0; i < st.size(); ++i) want += (i ? "/" : "") + st[i];
        if (want.empty()) want = ".";
        eq("normpath", s, str::normpath(s), want);
    });
    mc::sample("normpath(\"../a/./b/../..\") = %s", str::normpath("../a/./b/../..").c_str());
}

MC_GROUP(split)
{
    const char* seps[] = {"", ",", ",,", "a", "ab", "aba", ",a", ",a,"};
    all_strings("ab,", mc::thorough ? 9 : 7, [&](const string& s) {
        for (const char* sepc : seps)
            for (int skip = 0; skip < 2; ++skip)
            {
                string sep = sepc;
                if (!mc::begin("split [%s] on [%s] skip %d", s.c_str(), sepc, skip)) continue;
                // Tokens with the position right after their separator
                vector<string> want;
                vector<string> rem;
                if (!s.empty())
                {
                    size_t pos = 0;
                    while (true)
                    {
                        size_t e;
                        if (sep.empty()) e = pos < s.size() ? pos + 1 : string::npos;
                        else e = s.find(sep, pos);
                        if (e == string::npos)
                        {
                            want.push_back(s.substr(pos));
                            rem.push_back("");
                            break;
                        }
                        want.push_back(s.substr(pos, e - pos));
                        pos = e + sep.size();
                        rem.push_back(s.substr(pos));
                    }
                }
                if (skip)
                {
                    vector<string> w;
                    for (auto& t : want) if (!t.empty()) w.push_back(t);
                    want = w;
                }
                mc::count(!s.empty());
                str::Split sp(s, sep, skip);
                vector<string> got, got2, gotrem;
                size_t guard = 0;
                for (auto i = sp.begin(); i != sp.end() && guard < 50; ++i, ++guard)
                {
                    got.push_back(*i);
                    if (i->size() != (*i).size()) mc::fail("split ->", "operator-> differs from operator*");
                    auto copy = i;
                    if (!(copy == i) || copy != i) mc::fail("split ==", "a copied iterator is not equal");
                    gotrem.push_back(i.remainder());
                }
                std::copy(sp.begin(), sp.end(), std::back_inserter(got2));
                if (got != want)
                    mc::fail(mc::fmt("split [%s] on [%s] skip %d", s.c_str(), sepc, skip), "tokens are [%s] instead of [%s]",
                             str::join("|", got).c_str(), str::join("|", want).c_str());
                else if (got2 != want)
                    mc::fail("split copy", "std::copy gives [%s] instead of [%s]", str::join("|", got2).c_str(), str::join("|", want).c_str());
                else if (!skip && gotrem != rem)
                    mc::fail("split remainder", "remainders are [%s] instead of [%s]", str::join("|", gotrem).c_str(), str::join("|", rem).c_str());
                if (guard == 50) mc::fail("split endless", "iteration does not end");
            }
    });
    mc::sample("Split(\"a,,b\", \",\") gives a||b");
}

static string ref_encode_c(const string& s)
{
    string r;
    for (unsigned char c : s)
    {
        if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 0x20 || c == 0x7f) r += mc::fmt("\\x%02x", c);
        else if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else r += (char)c;
    }
    return r;
}

static void check_cstring(const string& s)
{
    string enc = str::encode_cstring(s);
    eq("encode_cstring", s, enc, ref_encode_c(s));
    size_t len = 12345;
    eq("decode_cstring(encode_cstring)", s, str::decode_cstring(enc, len), s);
    if (len != enc.size()) mc::fail(mc::fmt("decode_cstring length %s", show(s).c_str()), "%zu characters parsed instead of %zu", len, enc.size());
    len = 12345;
    eq("decode_cstring(quoted)", s, str::decode_cstring(enc + "\"tail", len), s);
    if (len != enc.size() + 1) mc::fail(mc::fmt("decode_cstring quoted length %s", show(s).c_str()), "%zu characters parsed instead of %zu", len, enc.size() + 1);
}

MC_GROUP(cstring)
{
    for (int a = 0; a < 256; ++a)
    {
        if (!mc::begin("cstring byte %d", a)) continue;
        check_cstring(string(1, (char)a));
        for (int b = 0; b < 256; ++b)
            check_cstring(string{(char)a, (char)b});
    }
    all_strings(string("\n\t\0\x01\x7f\"\\xnf1\x80", 12), mc::thorough ? 5 : 4, [](const string& s) {
        if (!mc::begin("cstring %s", show(s).c_str())) return;
        check_cstring(s);
    });
    // Decoding anything: escapes as documented by the encoder, stop at a quote
    all_strings("\\xnt1f\"a", mc::thorough ? 7 : 6, [](const string& s) {
        if (!mc::begin("decode_cstring %s", show(s).c_str())) return;
        string want;
        size_t i = 0;
        bool defined = true;
        while (i < s.size() && s[i] != '"')
        {
            if (s[i] != '\\' || i + 1 == s.size()) { want += s[i++]; continue; }
            char e = s[i + 1];
            i += 2;
            if (e == 'n') want += '\n';
            else if (e == 't') want += '\t';
            else if (e == 'x')
            {
                unsigned v = 0, n = 0;
                while (n < 2 && i < s.size() && isxdigit((unsigned char)s[i])) { v = v * 16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' : s[i] - 'a' + 10); ++i; ++n; }
                if (!n) defined = false;    // \x without digits has no meaning
                want += (char)v;
            }
            else want += e;
        }
        if (i < s.size()) ++i;
        size_t len = 0;
        string got = str::decode_cstring(s, len);
        mc::count();
        if (!defined) return;
        eq("decode_cstring", s, got, want);
        if (len != i) mc::fail("decode_cstring length", "%zu characters parsed instead of %zu", len, i);
    });
    mc::sample("encode_cstring(\"\\x01f\\\"\") = %s", str::encode_cstring("\x01" "f\"").c_str());
}

static void check_url(const string& s)
{
    string enc = str::encode_url(s);
    string plain;
    for (size_t i = 0; i < enc.size(); ++i)
    {
        unsigned char c = enc[i];
        if (c == '%')
        {
            if (i + 2 >= enc.size() || !isxdigit((unsigned char)enc[i + 1]) || !isxdigit((unsigned char)enc[i + 2]))
            { mc::fail(mc::fmt("encode_url(%s)", show(s).c_str()), "\"%s\" is not a valid encoding", show(enc).c_str()); break; }
            plain += (char)strtoul(enc.substr(i + 1, 2).c_str(), nullptr, 16);
            i += 2;
        }
        else
        {
            if (c >= 0x80 || (!isalnum(c) && !strchr("-_!*'()", c)))
            { mc::fail(mc::fmt("encode_url(%s)", show(s).c_str()), "\"%s\" has an unencoded reserved character", show(enc).c_str()); break; }
            plain += (char)c;
        }
    }
    for (unsigned char c : s)
        if (c && c < 0x80 && (isalnum(c) || strchr("-_!*'()", c)) && enc.find(c) == string::npos)
            mc::fail(mc::fmt("encode_url(%s)", show(s).c_str()), "character %c should stay as it is in \"%s\"", c, show(enc).c_str());
    eq("encode_url", s, plain, s);
    eq("decode_url(encode_url)", s, str::decode_url(enc), s);
}

MC_GROUP(url)
{
    for (int a = 0; a < 256; ++a)
    {
        if (!mc::begin("url byte %d", a)) continue;
        check_url(string(1, (char)a));
        for (int b = 0; b < 256; ++b)
            check_url(string{(char)a, (char)b});
    }
    all_strings(string("%4f/ \0a\xff", 8), mc::thorough ? 6 : 4, [](const string& s) {
        if (!mc::begin("url %s", show(s).c_str())) return;
        check_url(s);
    });
    all_strings("%41fAG", mc::thorough ? 7 : 6, [](const string& s) {
        if (!mc::begin("decode_url %s", show(s).c_str())) return;
        string want;
        bool defined = true;
        for (size_t i = 0; i < s.size(); ++i)
        {
            if (s[i] != '%') { want += s[i]; continue; }
            if (i + 2 >= s.size()) break;   // partial escape at the end: ignored
            if (!isxdigit((unsigned char)s[i + 1]) || !isxdigit((unsigned char)s[i + 2])) { defined = false; break; }
            want += (char)strtoul(s.substr(i + 1, 2).c_str(), nullptr, 16);
            i += 2;
        }
        string got = str::decode_url(s);
        mc::count();
        if (defined) eq("decode_url", s, got, want);
    });
    mc::sample("encode_url(\"a/b\") = %s", str::encode_url("a/b").c_str());
}

static const char* B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string ref_b64(const string& s)
{
    string r;
    size_t i = 0;
    unsigned acc = 0, bits = 0;
    for (; i < s.size(); ++i)
    {
        acc = (acc << 8) | (unsigned char)s[i];
        bits += 8;
        while (bits >= 6) { bits -= 6; r += B64[(acc >> bits) & 63]; }
    }
    if (bits) r += B64[(acc << (6 - bits)) & 63];
    while (r.size() % 4) r += '=';
    return r;
}
static void check_b64(const string& s)
{
    string enc = str::encode_base64(s);
    eq("encode_base64", s, enc, ref_b64(s));
    char* exact = (char*)malloc(s.size() ? s.size() : 1);
    memcpy(exact, s.data(), s.size());
    eq("encode_base64(buffer)", s, str::encode_base64(exact, s.size()), enc);
    free(exact);
    eq("decode_base64(encode_base64)", s, str::decode_base64(enc), s);
}

MC_GROUP(base64_codes)
{
    check_b64("");
    for (int a = 0; a < 256; ++a)
    {
        if (!mc::begin("base64 first byte %d", a)) continue;
        check_b64(string(1, (char)a));
        for (int b = 0; b < 256; ++b)
        {
            check_b64(string{(char)a, (char)b});
            if (mc::thorough || (a % 17 == 0 && b % 17 == 0))
                for (int c = 0; c < 256; ++c)
                    check_b64(string{(char)a, (char)b, (char)c});
        }
    }
    all_strings(string("\0\xff" "a\x80", 4), mc::thorough ? 9 : 7, [](const string& s) {
        if (!mc::begin("base64 %s", show(s).c_str())) return;
        check_b64(s);
    });
    // every length up to 64
    for (size_t n = 0; n <= 64; ++n)
    {
        string s;
        for (size_t i = 0; i < n; ++i) s += (char)(i * 37 + n);
        if (!mc::begin("base64 length %zu", n)) continue;
        check_b64(s);
    }
    mc::sample("encode_base64(\"ab\") = %s", str::encode_base64("ab").c_str());
}

MC_GROUP(base64_any)
{
    // decoding arbitrary strings: no failure, and never more than 3 bytes for 4
    all_strings("Az+/=-{\x80", mc::thorough ? 7 : 6, [](const string& s) {
        if (!mc::begin("decode_base64 %s", show(s).c_str())) return;
        string got = str::decode_base64(s);
        mc::count();
        if (got.size() > (s.size() + 3) / 4 * 3)
            mc::fail("decode_base64 length", "%zu bytes from %zu characters", got.size(), s.size());
    });
    for (int c = 0; c < 256; ++c)
    {
        if (!mc::begin("decode_base64 byte %d", c)) continue;
        for (int pos = 0; pos < 4; ++pos)
        {
            string s = "AAAA";
            s[pos] = (char)c;
            string got = str::decode_base64(s + "AAAA");
            mc::count();
            const char* f = c ? strchr(B64, c) : nullptr;
            if (f)
            {
                unsigned v = (unsigned)(f - B64) << (18 - 6 * pos);
                string want{(char)(v >> 16), (char)(v >> 8), (char)v, 0, 0, 0};
                if (got != want) mc::fail("decode_base64 digit", "wrong value for %c at %d", c, pos);
            }
        }
    }
    mc::sample("decode_base64 of all strings up to 6 characters over valid, padding and invalid characters");
}
