// The address sanitizer's glob() interceptor does not know GLOB_DOOFFS and
// reads the reserved (null) slots: calls go to the C library directly.
#include <dlfcn.h>
#include <glob.h>

extern "C" {
int __wrap_glob64(const char* p, int f, int (*e)(const char*, int), glob64_t* g)
{
    static auto fn = (int (*)(const char*, int, int (*)(const char*, int), glob64_t*))dlsym(dlopen("libc.so.6", RTLD_LAZY), "glob64");
    return fn(p, f, e, g);
}
int __wrap_glob(const char* p, int f, int (*e)(const char*, int), void* g)
{
    static auto fn = (int (*)(const char*, int, int (*)(const char*, int), void*))dlsym(dlopen("libc.so.6", RTLD_LAZY), "glob");
    return fn(p, f, e, g);
}
}
