// Opening of files by the code under test can be observed and confined
#include "mc.hpp"
#include <cerrno>

namespace mc {
std::string write_root;
std::vector<std::string> written_elsewhere;
}

static bool refused(const char* path, const char* mode)
{
    if (mc::write_root.empty() || !strpbrk(mode, "wa+")) return false;
    std::string p = path;
    if (p.compare(0, mc::write_root.size(), mc::write_root) == 0) return false;
    mc::written_elsewhere.push_back(p);
    errno = EACCES;
    return true;
}

extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __real_fopen64(const char*, const char*);
FILE* __wrap_fopen(const char* path, const char* mode) { return refused(path, mode) ? nullptr : __real_fopen(path, mode); }
FILE* __wrap_fopen64(const char* path, const char* mode) { return refused(path, mode) ? nullptr : __real_fopen64(path, mode); }
}
