// Stand-in for the PublicDecompWT codec library, which is not available here
// (its sources are an empty submodule of the repository). It has the interface
// that MSG_data_image.cpp uses. The "compressed" form is the plain sequence of
// samples, 16 bits little endian; a short sequence is padded with zeros. Each
// codec XORs the samples with a constant of its own, so that a file decoded
// with the wrong one is noticed.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <cstring>
#include <vector>

typedef int64_t __int64;

namespace Util {
struct CDataFieldCompressedImage
{
    const unsigned char* buf; __int64 bits; int bpp, nx, ny;
    CDataFieldCompressedImage(unsigned char* b, __int64 l, unsigned char bpp_, unsigned short nx_, unsigned short ny_)
        : buf(b), bits(l), bpp(bpp_), nx(nx_), ny(ny_) {}
};
struct CDataFieldUncompressedImage { std::vector<unsigned short> px; };
}
namespace COMP {
inline void stub_decode(Util::CDataFieldCompressedImage& c, Util::CDataFieldUncompressedImage& u, unsigned short key)
{
    size_t n = (size_t)c.nx * c.ny;
    u.px.assign(n, 0);
    size_t have = (size_t)(c.bits / 16);
    for (size_t i = 0; i < n && i < have; ++i)
        u.px[i] = (unsigned short)((c.buf[2 * i] | c.buf[2 * i + 1] << 8) ^ key);
    delete[] c.buf;
    c.buf = nullptr;
}
template<class Q> void DecompressJPEG(Util::CDataFieldCompressedImage& c, int, Util::CDataFieldUncompressedImage& u, Q&) { stub_decode(c, u, 0x155); }
template<class Q> void DecompressWT(Util::CDataFieldCompressedImage& c, int, Util::CDataFieldUncompressedImage& u, Q&) { stub_decode(c, u, 0); }
template<class Q> void DecompressT4(Util::CDataFieldCompressedImage& c, Util::CDataFieldUncompressedImage& u, Q&) { stub_decode(c, u, 0x2aa); }
struct CImage
{
    std::vector<unsigned short> px;
    explicit CImage(const Util::CDataFieldUncompressedImage& u) : px(u.px) {}
    unsigned short* Get() { return px.data(); }
};
}
