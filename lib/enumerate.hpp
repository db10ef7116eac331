// Complete enumeration of small spaces
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace mc {

/// Call f on every string of length 0..max over the alphabet, shortest first
template<typename F>
void all_strings(const std::string& alphabet, unsigned max, F f)
{
    for (unsigned len = 0; len <= max; ++len)
    {
        std::vector<unsigned> idx(len, 0);
        std::string s(len, len ? alphabet[0] : 0);
        while (true)
        {
            f((const std::string&)s);
            int p = (int)len - 1;
            while (p >= 0 && idx[p] + 1 == alphabet.size())
            {
                idx[p] = 0;
                s[p] = alphabet[0];
                --p;
            }
            if (p < 0) break;
            s[p] = alphabet[++idx[p]];
        }
    }
}

/// Call f on every sequence of n values in 0..k-1
template<typename F>
void all_sequences(unsigned n, unsigned k, F f)
{
    std::vector<unsigned> v(n, 0);
    if (k == 0 && n) return;
    while (true)
    {
        f((const std::vector<unsigned>&)v);
        int p = (int)n - 1;
        while (p >= 0 && v[p] + 1 == k) v[p--] = 0;
        if (p < 0) break;
        ++v[p];
    }
}

/// Printable form of a byte string
inline std::string show(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
        if (c < 0x20 || c >= 0x7f || c == '\\')
        {
            char b[8];
            snprintf(b, 8, "\\x%02x", c);
            r += b;
        }
        else r += (char)c;
    return r;
}

}
