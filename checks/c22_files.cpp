// C22: file helpers. Every system call that the helpers make is under the
// control of the checker: each can fail, be short, be interrupted, be the last
// one of a process that dies, or be preceded by something that another process
// does to the same files.
#include "mc.hpp"
#include "enumerate.hpp"
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <filesystem>
#include <memory>
#include <msat/utils/sys.h>
#include <sys/fsuid.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <system_error>

using std::string;
using std::vector;
namespace sys = msat::sys;
namespace fs = std::filesystem;

// ---- the system calls under control

namespace {

struct Control
{
    bool armed = false;
    int n = 0;                          // calls so far
    int at[2] = { -1, -1 };             // calls that fail
    int variant[2] = { 0, 0 };          // how
    bool hard = false;                  // a call was made to fail
    bool faulted = false;               // a call was made to fail, or to do a part
    bool impossible = false;            // no such variant for that call
    int crash_at = -1;                  // the process dies before this call
    std::function<void(int)> event;     // before each call
    bool unknown_types = false;         // directories do not tell the types
    bool no_dirents = false;
    vector<string> log;
    std::set<int> fds;                  // opened and not closed
    std::set<int> before;               // open when the operation starts
    std::set<void*> maps, dirs;
    vector<string> bad;                 // calls that are wrong whatever happens
    vector<int> script;                 // what each read or write does
    unsigned script_pos = 0;
    long now_ns = -1;                   // if not negative, what clocks say
} ctl;

string root;                            // destructive calls stay below it

bool below_root(int dirfd, const char* path)
{
    string dir;
    char buf[PATH_MAX];
    if (path[0] == '/') ;
    else if (dirfd == AT_FDCWD) { if (!syscall(SYS_getcwd, buf, sizeof buf)) return false; dir = string(buf) + "/"; }
    else
    {
        ssize_t n = syscall(SYS_readlink, mc::fmt("/proc/self/fd/%d", dirfd).c_str(), buf, sizeof(buf) - 1);
        if (n < 0) return true;         // not open: it fails anyway
        dir = string(buf, n) + "/";
    }
    string p = dir + path;
    while (p.size() > 1 && p.back() == '/') p.pop_back();
    string parent = p.substr(0, p.rfind('/'));
    if (parent.empty()) parent = "/";
    char* r = realpath(parent.c_str(), nullptr);
    if (!r) return true;                // no such directory: it fails anyway
    bool ok = string(r) == root || string(r).compare(0, root.size() + 1, root + "/") == 0;
    free(r);
    return ok;
}

void as_nobody();
void as_root();

bool refuse(const char* name, int dirfd, const char* path)
{
    if (below_root(dirfd, path)) return false;
    ctl.bad.push_back(string(name) + " of " + path + " outside of the scratch directory");
    errno = EACCES;
    return true;
}

/// What happens to this call: 0 nothing special, else an errno; -1 half of it
/// is done, -2 one byte of it
int decide(const char* name, std::initializer_list<int> variants)
{
    if (!ctl.armed) return 0;
    int k = ctl.n++;
    ctl.log.push_back(name);
    if (ctl.event)
    {
        ctl.armed = false;
        as_root();
        ctl.event(k);
        as_nobody();
        ctl.armed = true;
    }
    if (k == ctl.crash_at) _exit(77);
    for (int i = 0; i < 2; ++i)
        if (k == ctl.at[i])
        {
            if (ctl.variant[i] >= (int)variants.size()) { ctl.impossible = true; return 0; }
            ctl.faulted = true;
            ctl.hard |= *(variants.begin() + ctl.variant[i]) > 0;
            return *(variants.begin() + ctl.variant[i]);
        }
    return 0;
}

template<typename F> F next(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

size_t part(int how, size_t n) { return how == -1 ? (n + 1) / 2 : how == -2 ? std::min<size_t>(n, 1) : n; }

int did_open(int fd) { if (ctl.armed && fd >= 0) ctl.fds.insert(fd); return fd; }

}

#define FAIL(name, ...) if (int e = decide(name, { __VA_ARGS__ })) { errno = e; return -1; }

extern "C" {

int open64(const char* p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    if (ctl.armed && (flags & (O_CREAT | O_TRUNC)) && refuse("open", AT_FDCWD, p)) return -1;
    FAIL("open", EMFILE, EIO)
    return did_open(syscall(SYS_openat, AT_FDCWD, p, flags, m));
}
int openat64(int d, const char* p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    if (ctl.armed && (flags & (O_CREAT | O_TRUNC)) && refuse("openat", d, p)) return -1;
    FAIL("openat", EMFILE, EIO)
    return did_open(syscall(SYS_openat, d, p, flags, m));
}
int mkstemp64(char* t)
{
    if (ctl.armed && refuse("mkstemp", AT_FDCWD, t)) return -1;
    FAIL("mkstemp", ENOSPC, EMFILE)
    static auto real = next<int (*)(char*)>("mkstemp64");
    return did_open(real(t));
}
int mkostemp64(char* t, int f)
{
    if (ctl.armed && refuse("mkostemp", AT_FDCWD, t)) return -1;
    FAIL("mkostemp", ENOSPC, EMFILE)
    static auto real = next<int (*)(char*, int)>("mkostemp64");
    return did_open(real(t, f));
}
char* mkdtemp(char* t)
{
    static auto real = next<char* (*)(char*)>("mkdtemp");
    if (ctl.armed && refuse("mkdtemp", AT_FDCWD, t)) return nullptr;
    if (int e = decide("mkdtemp", { ENOSPC })) { errno = e; return nullptr; }
    return real(t);
}
int close(int fd)
{
    if (!ctl.armed) return syscall(SYS_close, fd);
    if (!ctl.fds.erase(fd) && (ctl.before.count(fd) || syscall(SYS_fcntl, fd, F_GETFD) == -1)) ctl.bad.push_back(mc::fmt("close of file descriptor %d, which it has not opened or has closed", fd));
    if (int e = decide("close", { EIO, EINTR }))
    {
        if (e == EIO)
        {
            // Data that was accepted could not be stored after all
            struct stat st;
            int fl = syscall(SYS_fcntl, fd, F_GETFL);
            if (syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode) && (fl & O_ACCMODE) != O_RDONLY && !(fl & O_PATH))
                (void)!syscall(SYS_ftruncate, fd, st.st_size / 2);
        }
        syscall(SYS_close, fd);
        errno = e;
        return -1;
    }
    return syscall(SYS_close, fd);
}
ssize_t read(int fd, void* b, size_t n)
{
    if (!ctl.armed) return syscall(SYS_read, fd, b, n);
    int how = ctl.script_pos < ctl.script.size() ? (++ctl.n, ctl.script[ctl.script_pos++]) : decide("read", { EIO, EINTR, -1, -2 });
    if (how > 0) { errno = how; return -1; }
    if (how == -3) return 0;
    return syscall(SYS_read, fd, b, part(how, n));
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (!ctl.armed) return syscall(SYS_write, fd, b, n);
    int how = ctl.script_pos < ctl.script.size() ? (++ctl.n, ctl.script[ctl.script_pos++]) : decide("write", { ENOSPC, EIO, EINTR, -1, -2 });
    if (how > 0) { errno = how; return -1; }
    return syscall(SYS_write, fd, b, part(how, n));
}
ssize_t pread64(int fd, void* b, size_t n, off_t o)
{
    int how = decide("pread", { EIO, EINTR, -1 });
    if (how > 0) { errno = how; return -1; }
    return syscall(SYS_pread64, fd, b, part(how, n), o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o)
{
    int how = decide("pwrite", { EIO, EINTR, -1 });
    if (how > 0) { errno = how; return -1; }
    return syscall(SYS_pwrite64, fd, b, part(how, n), o);
}
off_t lseek64(int fd, off_t o, int w) { FAIL("lseek", EINVAL) return syscall(SYS_lseek, fd, o, w); }
int ftruncate64(int fd, off_t l) { FAIL("ftruncate", EIO) return syscall(SYS_ftruncate, fd, l); }
int fstat64(int fd, struct stat64* st) { FAIL("fstat", EIO) return syscall(SYS_fstat, fd, st); }
int stat64(const char* p, struct stat64* st) { FAIL("stat", EACCES) return syscall(SYS_stat, p, st); }
int lstat64(const char* p, struct stat64* st) { FAIL("lstat", EACCES) return syscall(SYS_lstat, p, st); }
int fstatat64(int d, const char* p, struct stat64* st, int f) { FAIL("fstatat", EACCES) return syscall(SYS_newfstatat, d, p, st, f); }
int fchmod(int fd, mode_t m) { FAIL("fchmod", EPERM) return syscall(SYS_fchmod, fd, m); }
int fsync(int fd) { FAIL("fsync", EIO) return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { FAIL("fdatasync", EIO) return syscall(SYS_fdatasync, fd); }
int dup(int fd) { FAIL("dup", EMFILE) return did_open(syscall(SYS_dup, fd)); }
int futimens(int fd, const struct timespec* ts) { FAIL("futimens", EPERM) return syscall(SYS_utimensat, fd, nullptr, ts, 0); }
int rename(const char* a, const char* b)
{
    if (ctl.armed && (refuse("rename", AT_FDCWD, a) || refuse("rename", AT_FDCWD, b))) return -1;
    FAIL("rename", ENOSPC, EACCES)
    return syscall(SYS_rename, a, b);
}
int unlinkat(int d, const char* p, int f)
{
    if (ctl.armed && refuse("unlinkat", d, p)) return -1;
    FAIL("unlinkat", EACCES, EIO)
    return syscall(SYS_unlinkat, d, p, f);
}
int unlink(const char* p)
{
    if (ctl.armed && refuse("unlink", AT_FDCWD, p)) return -1;
    FAIL("unlink", EACCES)
    return syscall(SYS_unlink, p);
}
int rmdir(const char* p)
{
    if (ctl.armed && refuse("rmdir", AT_FDCWD, p)) return -1;
    FAIL("rmdir", EACCES)
    return syscall(SYS_rmdir, p);
}
int remove(const char* p)
{
    if (ctl.armed && refuse("remove", AT_FDCWD, p)) return -1;
    FAIL("remove", EACCES)
    int r = syscall(SYS_unlink, p);
    return r == -1 && (errno == EISDIR || errno == EPERM) ? syscall(SYS_rmdir, p) : r;
}
int mkdirat(int d, const char* p, mode_t m) { if (ctl.armed && refuse("mkdirat", d, p)) return -1; FAIL("mkdirat", ENOSPC) return syscall(SYS_mkdirat, d, p, m); }
int symlinkat(const char* t, int d, const char* p) { if (ctl.armed && refuse("symlinkat", d, p)) return -1; FAIL("symlinkat", ENOSPC) return syscall(SYS_symlinkat, t, d, p); }
void* mmap64(void* a, size_t l, int pr, int f, int fd, off_t o)
{
    if (int e = decide("mmap", { ENOMEM })) { errno = e; return MAP_FAILED; }
    void* r = (void*)syscall(SYS_mmap, a, l, pr, f, fd, o);
    if (ctl.armed && r != MAP_FAILED) ctl.maps.insert(r);
    return r;
}
int munmap(void* a, size_t l)
{
    if (ctl.armed && !ctl.maps.erase(a)) ctl.bad.push_back("unmapping of memory that is not mapped");
    FAIL("munmap", EINVAL)
    return syscall(SYS_munmap, a, l);
}
DIR* fdopendir(int fd)
{
    static auto real = next<DIR* (*)(int)>("fdopendir");
    if (int e = decide("fdopendir", { ENOMEM })) { errno = e; return nullptr; }
    bool a = ctl.armed;
    ctl.armed = false;
    DIR* d = real(fd);
    ctl.armed = a;
    if (a && d) { ctl.fds.erase(fd); ctl.dirs.insert(d); }
    return d;
}
DIR* opendir(const char* p)
{
    static auto real = next<DIR* (*)(const char*)>("opendir");
    if (int e = decide("opendir", { EMFILE, EIO })) { errno = e; return nullptr; }
    DIR* d = real(p);
    if (ctl.armed && d) ctl.dirs.insert(d);
    return d;
}
struct dirent64* readdir64(DIR* d)
{
    static auto real = next<struct dirent64* (*)(DIR*)>("readdir64");
    if (int e = decide("readdir", { EIO })) { errno = e; return nullptr; }
    struct dirent64* r = real(d);
    if (ctl.armed && r && ctl.unknown_types) r->d_type = DT_UNKNOWN;
    return r;
}
int closedir(DIR* d)
{
    static auto real = next<int (*)(DIR*)>("closedir");
    if (!ctl.armed) return real(d);
    if (!ctl.dirs.erase(d)) { ctl.bad.push_back("closedir of a directory that is not open"); errno = EBADF; return -1; }
    ctl.armed = false;
    int r = real(d);
    ctl.armed = true;
    return r;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
    FAIL("fcntl", EINTR, EINVAL)
    return syscall(SYS_fcntl, fd, cmd, a);
}
int setrlimit64(__rlimit_resource_t r, const struct rlimit64* l) { FAIL("setrlimit", EPERM) return syscall(SYS_prlimit64, 0, r, l, nullptr); }
int clock_gettime(clockid_t c, struct timespec* t)
{
    if (ctl.armed && ctl.now_ns >= 0) { t->tv_sec = ctl.now_ns / 1000000000; t->tv_nsec = ctl.now_ns % 1000000000; return 0; }
    return syscall(SYS_clock_gettime, c, t);
}

}

// ---- running one operation

namespace {

void as_nobody() { (void)!setresgid(65534, 65534, 0); (void)!setresuid(65534, 65534, 0); }
void as_root() { (void)!setresuid(0, 0, 0); (void)!setresgid(0, 0, 0); }

/// The calls made while it lives are under control, by an unprivileged user
struct Armed
{
    Armed() { as_nobody(); ctl.armed = true; }
    ~Armed() { ctl.armed = false; as_root(); }
};

struct Result { bool threw = false; string what, value; };

/// fn returns what it observed
template<typename F> Result run(F fn)
{
    Result r;
    ctl.n = 0;
    ctl.log.clear();
    ctl.impossible = false;
    ctl.faulted = false;
    ctl.hard = false;
    ctl.script_pos = 0;
    ctl.bad.clear();
    ctl.fds.clear();
    ctl.maps.clear();
    ctl.dirs.clear();
    ctl.before.clear();
    for (int i = 0; i < 40; ++i) if (syscall(SYS_fcntl, i, F_GETFD) != -1) ctl.before.insert(i);
    {
        Armed a;
        try { r.value = fn(); }
        catch (std::exception& e) { r.threw = true; r.what = e.what(); }
        catch (...) { r.threw = true; r.what = "not a std::exception"; }
    }
    return r;
}

string call_name(int k) { return k >= 0 && k < (int)ctl.log.size() ? ctl.log[k] : string("none"); }

/// What must be right however an operation ends
void tidy(const string& key, bool balanced = true)
{
    for (auto& b: ctl.bad) mc::fail(key + "-misuse-" + b.substr(0, b.find(' ')), "%s", b.c_str());
    if (!balanced) return;
    if (!ctl.fds.empty()) mc::fail(key + "-fd-leak", "%zu file descriptors are still open", ctl.fds.size());
    if (!ctl.dirs.empty()) mc::fail(key + "-dir-leak", "%zu directories are still open", ctl.dirs.size());
    if (!ctl.maps.empty()) mc::fail(key + "-map-leak", "%zu files are still mapped", ctl.maps.size());
    for (int f: ctl.fds) syscall(SYS_close, f);
    for (void* d: ctl.dirs) closedir((DIR*)d);
}

/// Runs one(k, variant) for no fault (k = -1) and for every fault of every call
template<typename F> void all_faults(F one, bool pairs = false)
{
    auto set = [](int i, int k, int v) { ctl.at[i] = k; ctl.variant[i] = v; };
    set(0, -1, 0); set(1, -1, 0);
    one();
    for (int k = 0; k < 2000; ++k)
    {
        bool over = false;
        for (int v = 0; ; ++v)
        {
            set(0, k, v); set(1, -1, 0);
            one();
            if (ctl.n <= k) { over = true; break; }
            if (ctl.impossible) break;
            if (!pairs) continue;
            for (int k2 = k + 1; k2 < 2000; ++k2)
            {
                bool over2 = false;
                for (int v2 = 0; ; ++v2)
                {
                    set(1, k2, v2);
                    one();
                    if (ctl.n <= k2) { over2 = true; break; }
                    if (ctl.impossible) break;
                }
                if (over2) break;
            }
        }
        if (over) break;
    }
    set(0, -1, 0); set(1, -1, 0);
}

string fault_text()
{
    string r;
    for (int i = 0; i < 2; ++i)
        if (ctl.at[i] >= 0) r += mc::fmt(" fault=%d.%d", ctl.at[i], ctl.variant[i]);
    return r;
}

// ---- the file system, read without the code under test

void own(const string& p) { (void)!lchown(p.c_str(), 65534, 65534); }
void mk_dir(const string& p, mode_t m = 0777) { mkdir(p.c_str(), 0777); chmod(p.c_str(), m); own(p); }
void mk_file(const string& p, const string& d, mode_t m = 0666) { mc::write_file(p, d); chmod(p.c_str(), m); own(p); }
void mk_link(const string& p, const string& t) { (void)!symlink(t.c_str(), p.c_str()); own(p); }
void mk_fifo(const string& p) { mkfifo(p.c_str(), 0666); own(p); }
void mk_sock(const string& p)
{
    mknod(p.c_str(), S_IFSOCK | 0666, 0);
    own(p);
}

/// Scratch directory, empty
string fresh(const string& name = "d")
{
    string p = mc::work + "/" + name;
    mc::clean(p);
    mc::make_dirs(p);
    own(p);
    chmod(p.c_str(), 0777);
    return p;
}

/// All that a directory contains
std::map<string, string> snapshot(const string& top, const string& rel = "")
{
    std::map<string, string> res;
    string p = rel.empty() ? top : top + "/" + rel;
    DIR* d = opendir(p.c_str());
    if (!d) return res;
    while (struct dirent* e = readdir(d))
    {
        string n = e->d_name;
        if (n == "." || n == "..") continue;
        string r = rel.empty() ? n : rel + "/" + n, f = top + "/" + r;
        struct stat st;
        if (lstat(f.c_str(), &st)) continue;
        string v = mc::fmt("%o", st.st_mode);
        char buf[4096];
        if (S_ISLNK(st.st_mode)) { ssize_t s = readlink(f.c_str(), buf, sizeof buf); v += " " + string(buf, std::max<ssize_t>(s, 0)); }
        if (S_ISREG(st.st_mode)) v += " " + mc::read_file(f);
        res[r] = v;
        if (S_ISDIR(st.st_mode)) { auto sub = snapshot(top, r); res.insert(sub.begin(), sub.end()); }
    }
    closedir(d);
    return res;
}

bool lexists(const string& p) { struct stat st; return lstat(p.c_str(), &st) == 0; }

void setup()
{
    mc::make_dirs(mc::work);
    own(mc::work);
    chmod(mc::work.c_str(), 0777);
    char* r = realpath(mc::work.c_str(), nullptr);
    root = r;
    free(r);
    mc::work = root;
    umask(022);
    signal(SIGPIPE, SIG_IGN);
}

string pattern(size_t n, int seed)
{
    string r(n, 0);
    for (size_t i = 0; i < n; ++i) r[i] = (char)(i * 31 + (i >> 8) * 7 + seed);
    return r;
}

const vector<size_t> sizes = { 0, 1, 2, 4095, 4096, 4097, 20000 };

// ---- whole files

enum Before { ABSENT, OLD, OLD_EMPTY, OLD_MODE, LINK, DANGLING, DIRECTORY, NO_DIR, BEFORES };
const char* before_name[] = { "absent", "file", "empty", "mode", "link", "dangling", "directory", "nodir" };

string prepare(Before b)
{
    string d = fresh(), f = d + "/f";
    if (b == OLD) mk_file(f, "old content");
    if (b == OLD_EMPTY) mk_file(f, "");
    if (b == OLD_MODE) mk_file(f, "old content", 0640);
    if (b == LINK) { mk_file(d + "/t", "old content", 0644); mk_link(f, "t"); }
    if (b == DANGLING) mk_link(f, "t");
    if (b == DIRECTORY) { mk_dir(f); mk_file(f + "/x", "inside"); }
    if (b == NO_DIR) f = d + "/no/f";
    return f;
}

mode_t mode_of(const string& f) { struct stat st; return lstat(f.c_str(), &st) ? 0xffff : st.st_mode & 07777; }

void check_atomic(Before b, size_t size, mode_t mode, mode_t mask, bool pairs)
{
    string data = pattern(size, 5);
    all_faults([&] {
        if (!mc::begin("write_file_atomically over %s, %zu bytes, mode %o, umask %o%s", before_name[b], size, mode, mask, fault_text().c_str())) return;
        mc::count();
        ++mc::sh->transitions;
        string f = prepare(b);
        auto was = snapshot(mc::work + "/d");
        umask(mask);
        // Nobody sees anything but the old or the new file
        string seen;
        ctl.event = [&](int k) {
            auto is = snapshot(mc::work + "/d");
            auto fv = was.find("f");
            auto nv = is.find("f");
            if (fv == was.end() ? nv == is.end() : (nv != is.end() && nv->second == fv->second)) return;
            if (nv != is.end() && mc::read_file(f) == data && S_ISREG([&] { struct stat st; lstat(f.c_str(), &st); return st.st_mode; }())) return;
            if (seen.empty()) seen = mc::fmt("before call %d (%s)", k, call_name(k).c_str());
        };
        Result r = run([&] { sys::write_file_atomically(fs::path(f), data, mode); return ""; });
        ctl.event = nullptr;
        mode_t m2 = umask(022);
        string key = mc::fmt("atomic-%s-%s%s", before_name[b], call_name(ctl.at[0]).c_str(), ctl.at[1] >= 0 ? ("-" + call_name(ctl.at[1])).c_str() : "");
        if (!seen.empty()) mc::fail(key + "-seen", "a file that is neither the old nor the new one is seen %s", seen.c_str());
        if (m2 != mask) mc::fail(key + "-umask", "the umask is left %o instead of %o", m2, mask);
        tidy(key);
        auto is = snapshot(mc::work + "/d");
        bool faulty = ctl.hard;
        if (r.threw)
        {
            if (!faulty && b != DIRECTORY && b != NO_DIR) mc::fail(key + "-threw", "%s", r.what.c_str());
            // What was not done is not done at all; a leftover is allowed if
            // it could not be removed
            auto now = is;
            bool cleanup_failed = false;
            for (int i: ctl.at) if (i >= 0) cleanup_failed |= call_name(i) == "remove" || call_name(i).find("nlink") != string::npos;
            if (cleanup_failed) for (auto i = now.begin(); i != now.end();) i = was.count(i->first) ? std::next(i) : now.erase(i);
            if (now != was) mc::fail(key + "-leftover", "after the error (%s) the directory has %zu entries, not the %zu it had", r.what.c_str(), is.size(), was.size());
        }
        else
        {
            auto want = was;
            want["f"] = mc::fmt("%o ", S_IFREG | (mode & ~mask)) + data;
            if (is != want)
                mc::fail(key + "-content", "it succeeds with %zu entries, %zu bytes of content (%zu to write), mode %o", is.size(), mc::read_file(f).size(), size, mode_of(f));
        }
    }, pairs);
}

} // namespace

MC_GROUP(atomic)
{
    setup();
    for (int b = 0; b < BEFORES; ++b)
        for (size_t s: sizes)
            for (mode_t mode: { 0777, 0666, 0600, 0444 })
                for (mode_t mask: { 0, 022, 077, 0777 })
                    if (mc::thorough || (mode == 0666 && mask == 022) || s == 1) check_atomic((Before)b, s, mode, mask, s == 2 || (mc::thorough && s == 20000));
    // A process that dies
    for (int b = 0; b < BEFORES; ++b)
        for (size_t s: sizes)
        {
            string data = pattern(s, 9);
            for (int k = 0; k < 100; ++k)
            {
                if (!mc::begin("process dies in write_file_atomically over %s, %zu bytes, at call %d", before_name[b], s, k)) continue;
                mc::count();
                string f = prepare((Before)b);
                auto was = snapshot(mc::work + "/d");
                int rc = mc::isolated([&] {
                    ctl.crash_at = k;
                    run([&] { sys::write_file_atomically(fs::path(f), data, 0666); return ""; });
                    return 0;
                });
                if (rc == 0) break;
                if (rc != 77) mc::fail(mc::fmt("atomic-die-%s", before_name[b]), "%s", mc::outcome(rc).c_str());
                ++mc::sh->traces;
                auto is = snapshot(mc::work + "/d");
                auto with = was, now = is;
                with["f"] = mc::fmt("%o ", S_IFREG | 0644) + data;
                for (auto i = now.begin(); i != now.end();) i = with.count(i->first) ? std::next(i) : now.erase(i);
                if (now != was && now != with) mc::fail(mc::fmt("atomic-die-%s", before_name[b]), "after call %d the file is neither the old nor the new one", k);
            }
        }
}

MC_GROUP(whole)
{
    setup();
    for (int b = 0; b < BEFORES; ++b)
        for (size_t s: sizes)
            for (mode_t mode: { 0777, 0666, 0600 })
                for (mode_t mask: { 0, 022, 077 })
                {
                    string data = pattern(s, 3);
                    all_faults([&] {
                        if (!mc::begin("write_file over %s, %zu bytes, mode %o, umask %o%s", before_name[b], s, mode, mask, fault_text().c_str())) return;
                        mc::count();
                        ++mc::sh->transitions;
                        string f = prepare((Before)b);
                        auto want = snapshot(mc::work + "/d");
                        umask(mask);
                        Result r = run([&] { sys::write_file(fs::path(f), data, mode); return ""; });
                        umask(022);
                        string key = mc::fmt("write-%s-%s", before_name[b], call_name(ctl.at[0]).c_str());
                        tidy(key);
                        bool faulty = ctl.hard;
                        if (r.threw)
                        {
                            if (!faulty && b != DIRECTORY && b != NO_DIR) mc::fail(key + "-threw", "%s", r.what.c_str());
                            return;
                        }
                        string target = b == LINK || b == DANGLING ? "t" : "f";
                        mode_t m = b == OLD || b == OLD_EMPTY ? 0666 : b == OLD_MODE ? 0640 : b == LINK ? 0644 : mode & ~mask;
                        want[target] = mc::fmt("%o ", S_IFREG | m) + data;
                        auto is = snapshot(mc::work + "/d");
                        if (is != want)
                            mc::fail(key + "-content", "it succeeds with %zu bytes of content (%zu to write), mode %o", mc::read_file(f).size(), s, mode_of(mc::work + "/d/" + target));
                    }, s <= 2);
                }
    for (size_t s: sizes)
        for (int link = 0; link < 2; ++link)
        {
            string d = fresh(), f = d + "/f", data = pattern(s, 1);
            mk_file(link ? d + "/t" : f, data);
            if (link) mk_link(f, "t");
            all_faults([&] {
                if (!mc::begin("read_file of %zu bytes, link %d%s", s, link, fault_text().c_str())) return;
                mc::count();
                ++mc::sh->transitions;
                Result r = run([&] { return sys::read_file(fs::path(f)); });
                string key = "read-" + call_name(ctl.at[0]);
                tidy(key);
                bool faulty = ctl.hard;
                if (r.threw && !faulty) mc::fail(key + "-threw", "%s", r.what.c_str());
                if (!r.threw && r.value != data) mc::fail(key + "-content", "%zu bytes are read of %zu", r.value.size(), s);
            }, true);
            // Another process changes the file meanwhile
            for (size_t to: { size_t(0), size_t(1), s / 2, s, s + 5000 })
                for (int k = 0; k < 60; ++k)
                {
                    if (!mc::begin("read_file of %zu bytes, link %d, cut or extended to %zu before call %d", s, link, to, k)) continue;
                    mc::count();
                    mc::write_file(f, data);
                    string now = data;
                    now.resize(to, 'x');
                    int used = -1;
                    FILE* out = fopen((mc::work + "/used").c_str(), "w+");
                    int rc = mc::isolated([&] {
                        ctl.event = [&](int i) { if (i == k) mc::write_file(f, now); };
                        Result r = run([&] { return sys::read_file(fs::path(f)); });
                        ctl.event = nullptr;
                        fprintf(out, "%d", ctl.n);
                        fflush(out);
                        if (r.threw) return 1;
                        if (r.value == data || r.value == now) return 0;
                        if (r.value.size() <= std::max(s, to) && (data.compare(0, r.value.size(), r.value) == 0 || now.compare(0, r.value.size(), r.value) == 0)) return 0;
                        return 2;
                    });
                    rewind(out);
                    if (fscanf(out, "%d", &used) != 1) used = 1000;
                    fclose(out);
                    ++mc::sh->traces;
                    string key = to < s ? "read-cut-meanwhile" : "read-extended-meanwhile";
                    if (rc == 2) mc::fail(key, "what is read was never in the file");
                    else if (rc != 0 && rc != 1) mc::fail(key, "%s", mc::outcome(rc).c_str());
                    mc::write_file(f, data);
                    if (used <= k) break;
                    if (!mc::thorough && k > 8) break;
                }
        }
    // What has no size
    if (mc::begin("read_file of a file without a known size"))
    {
        mc::count();
        string want = mc::read_file("/proc/self/limits");
        Result r = run([&] { return sys::read_file(fs::path("/proc/self/limits")); });
        if (!want.empty() && !r.threw && r.value != want) mc::fail("read-no-size", "%zu bytes are read of %zu", r.value.size(), want.size());
    }
    for (const char* what: { "absent", "directory" })
        if (mc::begin("read_file of %s", what))
        {
            mc::count(false);
            string d = fresh();
            Result r = run([&] { return sys::read_file(fs::path(*what == 'a' ? d + "/no" : d)); });
            tidy(mc::fmt("read-%s", what));
            if (!r.threw) mc::fail(mc::fmt("read-%s", what), "no error");
        }
}

// ---- descriptors

namespace {

/// What each system call does: an errno, 0 all, -1 half, -2 one byte, -3 end of file
const vector<int> steps = { 0, -2, -1, EINTR, EIO, -3 };

string show_script(const vector<int>& s)
{
    string r;
    for (int i: s) r += i == 0 ? " all" : i == -1 ? " half" : i == -2 ? " one" : i == -3 ? " end" : i == EINTR ? " EINTR" : " EIO";
    return r;
}

/// A file whose descriptor is ours
struct Raw
{
    int fd;
    Raw(const string& f, int flags) { fd = syscall(SYS_openat, AT_FDCWD, f.c_str(), flags, 0666); }
    ~Raw() { syscall(SYS_close, fd); }
};

}

MC_GROUP(partial)
{
    setup();
    string d = fresh(), f = d + "/f";
    for (unsigned len = 0; len <= (mc::thorough ? 5u : 4u); ++len)
        mc::all_sequences(len, steps.size(), [&](const vector<unsigned>& v) {
            vector<int> script;
            for (unsigned i: v) script.push_back(steps[i]);
            bool bad_write = std::count(script.begin(), script.end(), -3);
            for (size_t want: { 0, 1, 2, 3, 5, 8 })
                for (size_t have: { 0, 1, 2, 3, 5, 8 })
                    for (int op = 0; op < 4; ++op)
                    {
                        if (op >= 2 && (have || bad_write)) continue;
                        const char* names[] = { "read_all_or_retry", "read_all_or_throw", "write_all_or_retry", "write_all_or_throw" };
                        if (!mc::begin("%s of %zu bytes where there are %zu, calls do:%s", names[op], want, have, show_script(script).c_str())) continue;
                        mc::count(want);
                        string content = op < 2 ? pattern(have, 40) : pattern(want, 60);
                        mk_file(f, op < 2 ? content : "");
                        Raw raw(f, op < 2 ? O_RDONLY : O_WRONLY);
                        sys::FileDescriptor fd(raw.fd);
                        string buf(want + 8, '#');
                        bool ret = true;
                        int calls = 0;
                        ctl.script = script;
                        Result r = run([&] {
                            switch (op)
                            {
                                case 0: ret = fd.read_all_or_retry(&buf[0], want); break;
                                case 1: fd.read_all_or_throw(&buf[0], want); break;
                                case 2: fd.write_all_or_retry(content.data(), want); break;
                                case 3: fd.write_all_or_throw(content); break;
                            }
                            return "";
                        });
                        calls = ctl.n;
                        ctl.script.clear();
                        tidy(names[op]);
                        // The first calls of the script that were used
                        bool error = false, eintr = false, eof = false, part = false;
                        for (int i = 0; i < std::min<int>(calls, script.size()); ++i)
                        {
                            error |= script[i] == EIO;
                            eintr |= script[i] == EINTR;
                            eof |= script[i] == -3;
                            part |= script[i] < 0;
                        }
                        string key = mc::fmt("%s-%s", names[op], error ? "error" : eintr ? "eintr" : eof ? "eof" : part ? "partial" : "plain");
                        if (error && !r.threw) { mc::fail(key, "an error is not reported"); continue; }
                        if (buf.substr(want) != "########") mc::fail(key + "-overrun", "bytes after the buffer are changed");
                        if (op < 2)
                        {
                            bool all = buf.compare(0, want, content, 0, want) == 0 && want <= have;
                            if (want == 0) { if (!error && !eintr && (!ret || r.threw)) mc::fail(key, "reading 0 bytes fails"); }
                            else if (!r.threw && ret && !all) mc::fail(key, "it says that %zu bytes were read, and they were not", want);
                            else if (!r.threw && !ret && op == 0 && (all || buf[0] != '#')) mc::fail(key, "it says that nothing is left, and bytes were read");
                            else if (r.threw && !error && !eintr && !eof && !part && have >= want) mc::fail(key, "%s", r.what.c_str());
                            else if (r.threw && op == 0 && !error && !eintr && !eof && have >= want) mc::fail(key, "partial reads are not continued: %s", r.what.c_str());
                            else if (r.threw && op == 0 && have == 0 && !error && !eintr) mc::fail(key, "the end of the file is an error: %s", r.what.c_str());
                        }
                        else
                        {
                            string is = mc::read_file(f);
                            if (!r.threw && is != content) mc::fail(key, "it succeeds with %zu bytes of %zu in the file", is.size(), want);
                            else if (r.threw && !error && !eintr && (op == 2 || !part)) mc::fail(key, "%s", r.what.c_str());
                            else if (is != content.substr(0, is.size())) mc::fail(key, "other bytes are written");
                        }
                    }
        });
}

MC_GROUP(descriptor)
{
    setup();
    string d = fresh(), f = d + "/f";
    // Histories of operations on an open file, against the bytes it has
    struct Model { string data; size_t pos; };
    const int ops = 12;
    unsigned depth = mc::thorough ? 5 : 4;
    mc::all_sequences(depth, ops, [&](const vector<unsigned>& h) {
        if (!mc::begin("operations %s", [&] { string s; for (unsigned i: h) s += mc::fmt(" %u", i); return s; }().c_str())) return;
        mc::count();
        ++mc::sh->traces;
        mk_file(f, "0123456789");
        Raw raw(f, O_RDWR);
        sys::FileDescriptor fd(raw.fd);
        Model m { "0123456789", 0 };
        auto put = [&](size_t at, const string& s) {
            if (s.empty()) return;
            if (m.data.size() < at + s.size()) m.data.resize(at + s.size(), 0);
            m.data.replace(at, s.size(), s);
        };
        for (unsigned i = 0; i < h.size(); ++i)
        {
            string got, want;
            char b[32];
            memset(b, '#', sizeof b);
            Result r = run([&]() -> string {
                switch (h[i])
                {
                    case 0: { size_t n = fd.read(b, 4); return mc::fmt("%zu ", n) + string(b, n); }
                    case 1: return mc::fmt("%zu", fd.write("ABC", 3));
                    case 2: return mc::fmt("%zd", (ssize_t)fd.lseek(2));
                    case 3: return mc::fmt("%zd", (ssize_t)fd.lseek(-1, SEEK_CUR));
                    case 4: return mc::fmt("%zd", (ssize_t)fd.lseek(0, SEEK_END));
                    case 5: { size_t n = fd.pread(b, 3, 5); return mc::fmt("%zu ", n) + string(b, n); }
                    case 6: return mc::fmt("%zu", fd.pwrite("xy", 2, 11));
                    case 7: return mc::fmt("%zu", fd.pwrite(string("q"), 1));
                    case 8: fd.ftruncate(6); return "";
                    case 9: fd.ftruncate(15); return "";
                    case 10: { struct stat st; fd.fstat(st); return mc::fmt("%zd", (ssize_t)st.st_size); }
                    default: { size_t n = fd.pread(b, 20, 0); return mc::fmt("%zu ", n) + string(b, n); }
                }
            });
            bool threw = false;
            auto sub = [&](size_t at, size_t n) { string s = at < m.data.size() ? m.data.substr(at, n) : ""; return mc::fmt("%zu ", s.size()) + s; };
            switch (h[i])
            {
                case 0: want = sub(m.pos, 4); m.pos += std::min<size_t>(4, m.data.size() > m.pos ? m.data.size() - m.pos : 0); break;
                case 1: put(m.pos, "ABC"); m.pos += 3; want = "3"; break;
                case 2: m.pos = 2; want = "2"; break;
                case 3: if (m.pos == 0) threw = true; else want = mc::fmt("%zu", --m.pos); break;
                case 4: m.pos = m.data.size(); want = mc::fmt("%zu", m.pos); break;
                case 5: want = sub(5, 3); break;
                case 6: put(11, "xy"); want = "2"; break;
                case 7: put(1, "q"); want = "1"; break;
                case 8: m.data.resize(6, 0); break;
                case 9: m.data.resize(15, 0); break;
                case 10: want = mc::fmt("%zu", m.data.size()); break;
                default: want = sub(0, 20); break;
            }
            tidy("descriptor");
            if (r.threw != threw) { mc::fail(mc::fmt("descriptor-op%u", h[i]), "error: \"%s\"", r.what.c_str()); return; }
            if (!threw && r.value != want) { mc::fail(mc::fmt("descriptor-op%u", h[i]), "gives \"%s\" instead of \"%s\"", mc::show(r.value).c_str(), mc::show(want).c_str()); return; }
        }
        if (mc::read_file(f) != m.data) mc::fail("descriptor-content", "the file has other bytes");
    });
    // Every call that fails is reported
    mk_file(f, "0123456789");
    for (int op = 0; op < 18; ++op)
        all_faults([&] {
            if (!mc::begin("operation %d%s", op, fault_text().c_str())) return;
            mc::count();
            Raw raw(f, O_RDWR);
            sys::NamedFileDescriptor fd(raw.fd, "a name");
            struct flock lk = {};
            lk.l_type = F_WRLCK;
            struct timespec ts[2] = { { 10, 5 }, { 20, 7 } };
            char b[16];
            int extra = -1;
            Result r = run([&]() -> string {
                struct stat st;
                switch (op)
                {
                    case 0: fd.fstat(st); break;
                    case 1: fd.fchmod(0640); break;
                    case 2: fd.futimens(ts); break;
                    case 3: fd.fsync(); break;
                    case 4: fd.fdatasync(); break;
                    case 5: extra = fd.dup(); break;
                    case 6: fd.read(b, 5); break;
                    case 7: fd.write("ab", 2); break;
                    case 8: fd.lseek(3); break;
                    case 9: fd.pread(b, 4, 1); break;
                    case 10: fd.pwrite("abc", 3, 0); break;
                    case 11: fd.ftruncate(8); break;
                    case 12: { auto m = fd.mmap(10, PROT_READ, MAP_SHARED); break; }
                    case 13: return fd.ofd_setlk(lk) ? "" : "not locked";
                    case 14: return fd.ofd_setlkw(lk) ? "" : "not locked";
                    case 15: return fd.ofd_getlk(lk) ? "" : "locked";
                    case 16: fd.getfl(); break;
                    case 17: fd.setfl(O_APPEND); break;
                }
                return "";
            });
            string key = mc::fmt("descriptor-%s-fails", call_name(0).c_str());
            if (extra != -1) { ctl.fds.erase(extra); syscall(SYS_close, extra); }
            tidy(key);
            bool faulty = ctl.at[0] == 0 && !ctl.impossible;
            bool partial_ok = op == 6 || op == 7 || op == 9 || op == 10;
            bool eintr = ctl.variant[0] == 0 && call_name(0) == "fcntl";
            if (!faulty) { if (r.threw || r.value != "") mc::fail(key, "without fault: %s %s", r.what.c_str(), r.value.c_str()); }
            else if (op == 14 && eintr) { if (r.threw || r.value != "") mc::fail(key, "waiting for a lock is not retried after a signal"); }
            else if (op == 12 && call_name(ctl.at[0]) == "munmap") ;
            else if (!r.threw && !(partial_ok && ctl.variant[0] >= 1)) mc::fail(key, "the error is not reported");
            else if (r.threw && r.what.find("a name") == string::npos) mc::fail(key, "the error does not name the file: %s", r.what.c_str());
        });
    // Without retrying
    if (mc::begin("lock interrupted by a signal, without retrying"))
    {
        mc::count();
        Raw raw(f, O_RDWR);
        sys::FileDescriptor fd(raw.fd);
        struct flock lk = {};
        lk.l_type = F_WRLCK;
        ctl.at[0] = 0; ctl.variant[0] = 0;
        Result r = run([&] { return fd.ofd_setlkw(lk, false) ? "locked" : "interrupted"; });
        ctl.at[0] = -1;
        if (r.value != "interrupted") mc::fail("lock-no-retry", "%s%s", r.value.c_str(), r.what.c_str());
    }
}

MC_GROUP(locks)
{
    setup();
    // Histories of locks of two descriptions, against the ranges they hold
    string f = fresh() + "/f";
    mk_file(f, "0123456789");
    struct Op { int who, type, start, len; bool test; };
    vector<Op> ops;
    for (int who = 0; who < 2; ++who)
        for (int type: { F_RDLCK, F_WRLCK, F_UNLCK })
            for (auto range: { std::pair<int, int>{ 0, 4 }, { 2, 4 }, { 0, 0 } })
                for (bool test: { false, true })
                    if (!test || type != F_UNLCK) ops.push_back(Op { who, type, range.first, range.second, test });
    unsigned depth = mc::thorough ? 4 : 3;
    mc::all_sequences(depth, ops.size(), [&](const vector<unsigned>& h) {
        if (!mc::begin("locks %s", [&] { string s; for (unsigned i: h) s += mc::fmt(" %u", i); return s; }().c_str())) return;
        mc::count();
        ++mc::sh->traces;
        Raw a(f, O_RDWR), b(f, O_RDWR);
        sys::FileDescriptor fd[2] = { sys::FileDescriptor(a.fd), sys::FileDescriptor(b.fd) };
        // held[who][byte], the last is all the bytes that follow
        int held[2][12];
        for (auto& w: held) for (int& i: w) i = F_UNLCK;
        for (unsigned i: h)
        {
            const Op& o = ops[i];
            struct flock lk = {};
            lk.l_type = o.type;
            lk.l_whence = SEEK_SET;
            lk.l_start = o.start;
            lk.l_len = o.len;
            int end = o.len ? o.start + o.len : 12;
            bool can = true;
            if (o.type != F_UNLCK)
                for (int p = o.start; p < end; ++p)
                    can &= held[1 - o.who][p] == F_UNLCK || (held[1 - o.who][p] == F_RDLCK && o.type == F_RDLCK);
            Result r = run([&] { return (o.test ? fd[o.who].ofd_getlk(lk) : fd[o.who].ofd_setlk(lk)) ? "yes" : "no"; });
            if (r.threw || r.value != (can ? "yes" : "no"))
            {
                mc::fail(mc::fmt("lock-%s", o.test ? "getlk" : "setlk"), "%s%s instead of %s", r.value.c_str(), r.what.c_str(), can ? "yes" : "no");
                return;
            }
            if (!o.test && can) for (int p = o.start; p < end; ++p) held[o.who][p] = o.type;
        }
    });
}

MC_GROUP(mapped)
{
    setup();
    string d = fresh();
    mk_file(d + "/a", pattern(5000, 1));
    mk_file(d + "/b", pattern(9000, 2));
    unsigned depth = mc::thorough ? 6 : 5;
    mc::all_sequences(depth, 8, [&](const vector<unsigned>& h) {
        if (!mc::begin("memory maps: %s", [&] { string s; for (unsigned i: h) s += mc::fmt(" %u", i); return s; }().c_str())) return;
        mc::count();
        ++mc::sh->traces;
        Raw ra(d + "/a", O_RDONLY), rb(d + "/b", O_RDONLY);
        string err;
        Result r = run([&]() -> string {
            sys::FileDescriptor fa(ra.fd), fb(rb.fd);
            std::unique_ptr<sys::MMap> m[2];
            int what[2] = { 0, 1 };     // content of each: 0 file a, 1 file b, 2 nothing
            m[0].reset(new sys::MMap(fa.mmap(5000, PROT_READ, MAP_SHARED)));
            m[1].reset(new sys::MMap(fb.mmap(9000, PROT_READ, MAP_SHARED)));
            for (unsigned op: h)
            {
                switch (op)
                {
                    case 0: *m[0] = std::move(*m[1]); what[0] = what[1]; what[1] = 2; break;
                    case 1: *m[1] = std::move(*m[0]); what[1] = what[0]; what[0] = 2; break;
                    case 2: *m[0] = fa.mmap(5000, PROT_READ, MAP_SHARED); what[0] = 0; break;
                    case 3: *m[1] = fb.mmap(9000, PROT_READ, MAP_PRIVATE); what[1] = 1; break;
                    case 4: m[0]->munmap(); what[0] = 2; break;
                    case 5: { auto* t = new sys::MMap(std::move(*m[0])); m[0].reset(t); break; }
                    case 6: { sys::MMap& self = *m[0]; *m[0] = std::move(self); break; }
                    case 7: m[1]->munmap(); what[1] = 2; break;
                }
                for (int i = 0; i < 2; ++i)
                {
                    size_t want = what[i] == 0 ? 5000 : what[i] == 1 ? 9000 : 0;
                    if (m[i]->size() != want) return mc::fmt("after operation %u, size of %d is %zu instead of %zu", op, i, m[i]->size(), want);
                    if (want && memcmp((const char*)*m[i], pattern(want, what[i] + 1).data(), want)) return mc::fmt("after operation %u, content of %d", op, i);
                }
                size_t live = (what[0] != 2) + (what[1] != 2);
                if (ctl.maps.size() != live) return mc::fmt("after operation %u, %zu files are mapped instead of %zu", op, ctl.maps.size(), live);
            }
            return "";
        });
        if (r.threw) mc::fail("map-threw", "%s", r.what.c_str());
        else if (!r.value.empty()) mc::fail("map-state", "%s", r.value.c_str());
        tidy("map");
    });
}

MC_GROUP(objects)
{
    setup();
    string d = fresh();
    mk_file(d + "/a", "aa");
    mk_file(d + "/b", "bbb");
    // Which file each of two objects has open, along histories, with the close
    // calls that fail
    unsigned depth = mc::thorough ? 5 : 4;
    for (int fail_close = -1; fail_close < (int)depth; ++fail_close)
        mc::all_sequences(depth, 11, [&](const vector<unsigned>& h) {
            if (!mc::begin("file objects: %s, close call %d fails", [&] { string s; for (unsigned i: h) s += mc::fmt(" %u", i); return s; }().c_str(), fail_close)) return;
            mc::count();
            ++mc::sh->traces;
            int closes = 0;
            Result r = run([&]() -> string {
                sys::File f[2] = { sys::File(fs::path(d + "/a")), sys::File(fs::path(d + "/b")) };
                bool open[2] = { false, false };
                string path[2] = { d + "/a", d + "/b" };
                bool dead[2] = { false, false };
                for (unsigned op: h)
                {
                    bool threw = false, failing = false;
                    auto closing = [&](int i) { if (open[i] && closes++ == fail_close) { ctl.at[0] = ctl.n; ctl.variant[0] = 1; failing = true; } };
                    bool was[2] = { open[0], open[1] };
                    // What was moved has no path to open
                    if ((op == 5 || op == 0 || op == 2 || op == 6 || op == 8 || op == 9) && dead[0]) continue;
                    if ((op == 4 || op == 1 || op == 3 || op == 7 || op == 10) && dead[1]) continue;
                    try
                    {
                        switch (op)
                        {
                            case 0: closing(0); f[0].open(O_RDONLY); open[0] = true; break;
                            case 1: closing(1); open[1] = f[1].open_ifexists(O_RDONLY); break;
                            case 2: closing(0); open[0] = false; f[0].close(); break;
                            case 3: closing(1); open[1] = false; f[1].close(); break;
                            case 4: closing(0); f[0] = std::move(f[1]); open[0] = open[1]; path[0] = path[1]; open[1] = false; break;
                            case 5: closing(1); f[1] = std::move(f[0]); open[1] = open[0]; path[1] = path[0]; open[0] = false; break;
                            case 6: { sys::File t(std::move(f[0])); f[0] = std::move(t); break; }
                            case 7: { sys::File& s = f[1]; f[1] = std::move(s); break; }
                            case 8: { if (!open[0]) break; sys::File t(d + "/a", O_RDONLY); int fd = t; (void)fd; break; }
                            case 9: { if (open[0]) { int x = f[0].dup(); sys::File t(x, "dup"); } break; }
                            case 10: { if (open[1]) { struct stat st; f[1].fstat(st); if (st.st_size != (path[1] == d + "/a" ? 2 : 3)) return "another file is open"; } break; }
                        }
                    }
                    catch (std::system_error&) { threw = true; }
                    ctl.at[0] = -1;
                    // A close that fails closes nonetheless
                    if (threw)
                    {
                        if (!failing) return mc::fmt("operation %u throws", op);
                        int i = op == 0 || op == 2 || op == 4 ? 0 : 1;
                        open[i] = false;
                        if (op == 4) open[1] = was[1];
                        if (op == 5) open[0] = was[0];
                    }
                    if (op == 4 || op == 5) { dead[op == 4] = !threw; dead[op == 5] = false; }
                    for (int i = 0; i < 2; ++i)
                        if (f[i].is_open() != open[i]) return mc::fmt("after operation %u%s, object %d is %s", op, threw ? ", with close failing" : "", i, open[i] ? "closed" : "open");
                }
                return "";
            });
            ctl.at[0] = -1;
            if (r.threw) mc::fail("object-threw", "%s", r.what.c_str());
            else if (!r.value.empty()) mc::fail(fail_close >= 0 ? "object-close-fails" : "object-state", "%s", r.value.c_str());
            tidy(fail_close >= 0 ? "object-close-fails" : "object");
        });
}

// ---- trees

namespace {

enum Kind { FILE_, DIR_, LINK_DIR, LINK_FILE, LINK_NONE, LINK_UP, FIFO_, SOCK_, KINDS };

struct Node { Kind kind; int parent; };     // parent -1: the top

const char* node_names[] = { "a", ".b", "..c", "d\n*", "e" };

string path_of(const vector<Node>& t, int i)
{
    string n = node_names[i % 5];
    if (i == 2) n = string(250, 'n');
    return t[i].parent < 0 ? n : path_of(t, t[i].parent) + "/" + n;
}

void make_outside(const string& d)
{
    mk_dir(d + "/outside");
    mk_file(d + "/outside/x", "keep");
    mk_file(d + "/outside/a", "keep");
    mk_dir(d + "/outside/.b");
    mk_dir(d + "/outside/e");
    mk_file(d + "/outside/e/y", "keep");
    mk_file(d + "/file", "keep");
    mk_dir(d + "/topmost");
}

void make_node(const string& p, Kind k, const string& d)
{
    switch (k)
    {
        case FILE_: mk_file(p, "data", 0444); break;
        case DIR_: mk_dir(p); break;
        case LINK_DIR: mk_link(p, d + "/outside"); break;
        case LINK_FILE: mk_link(p, d + "/file"); break;
        case LINK_NONE: mk_link(p, "nowhere"); break;
        case LINK_UP: mk_link(p, ".."); break;
        case FIFO_: mk_fifo(p); break;
        case SOCK_: mk_sock(p); break;
        default: break;
    }
}

string make_tree(const vector<Node>& t)
{
    string d = fresh();
    make_outside(d);
    mk_dir(d + "/top");
    for (unsigned i = 0; i < t.size(); ++i) make_node(d + "/top/" + path_of(t, i), t[i].kind, d);
    return d;
}

string show_tree(const vector<Node>& t)
{
    string r;
    for (auto& n: t) r += mc::fmt(" %d<%d", n.kind, n.parent);
    return r;
}

/// All trees of n nodes, each in the top or in one of the directories before it
template<typename F> void all_trees(unsigned n, F f)
{
    vector<Node> t;
    std::function<void()> rec = [&] {
        if (t.size() == n) { f((const vector<Node>&)t); return; }
        int last = t.empty() ? -1 : t.back().parent;
        for (int p = last; p < (int)t.size(); ++p)
            if (p == -1 || t[p].kind == DIR_)
                for (int k = 0; k < KINDS; ++k) { t.push_back(Node { (Kind)k, p }); rec(); t.pop_back(); }
    };
    rec();
}

void remove_tree(const vector<Node>& t, int how, bool unknown, const string& key, std::function<void(int, const string&)> event = nullptr)
{
    string d = make_tree(t);
    auto was = snapshot(d);
    for (auto i = was.begin(); i != was.end();) i = i->first.compare(0, 3, "top") == 0 && i->first != "topmost" ? was.erase(i) : std::next(i);
    bool changed = false;
    if (event) ctl.event = [&](int k) { event(k, d); changed = lexists(mc::work + "/moved"); };
    ctl.unknown_types = unknown;
    Result r = run([&]() -> string {
        switch (how)
        {
            case 0: sys::rmtree(fs::path(d + "/top")); return "";
            case 1: return sys::rmtree_ifexists(fs::path(d + "/top")) ? "" : "false";
            case 2: { sys::Path p(d + "/top"); p.rmtree(); return ""; }
            default: return sys::rmtree_ifexists((d + "/top").c_str()) ? "" : "false";
        }
    });
    ctl.unknown_types = false;
    ctl.event = nullptr;
    tidy(key);
    auto is = snapshot(d);
    bool gone = !lexists(d + "/top");
    for (auto i = is.begin(); i != is.end();) i = i->first.compare(0, 3, "top") == 0 && i->first != "topmost" ? is.erase(i) : std::next(i);
    if (is != was)
    {
        string what;
        for (auto& i: was) if (!is.count(i.first)) what += " " + i.first;
        mc::fail(key + "-outside", "removed outside of the tree:%s", what.c_str());
    }
    bool faulty = ctl.faulted;
    if (!event && !faulty && r.threw) mc::fail(key + "-threw", "%s", r.what.c_str());
    if (!event && !faulty && !gone) mc::fail(key + "-remains", "the tree is still there, without error");
    if (faulty && !r.threw && !gone) mc::fail(key + "-unreported", "the tree is not removed, and no error is reported");
    if (r.value == "false") mc::fail(key + "-false", "the tree existed");
}

}

MC_GROUP(trees)
{
    setup();
    unsigned max = mc::thorough ? 4 : 3;
    for (unsigned n = 0; n <= max; ++n)
        all_trees(n, [&](const vector<Node>& t) {
            for (int unknown = 0; unknown < 2; ++unknown)
            {
                if (!mc::begin("removal of the tree%s, types %s", show_tree(t).c_str(), unknown ? "unknown" : "known")) continue;
                mc::count(n);
                ++mc::sh->states;
                remove_tree(t, n < 2 ? (int)(t.size() + unknown) : unknown, unknown, unknown ? "tree-unknown-types" : "tree");
            }
        });
    for (int how = 0; how < 4; ++how)
        for (int unknown = 0; unknown < 2; ++unknown)
        {
            vector<Node> t = { { FILE_, -1 }, { DIR_, -1 }, { LINK_DIR, -1 }, { DIR_, 1 }, { LINK_DIR, 3 } };
            if (!mc::begin("removal %d, types %s", how, unknown ? "unknown" : "known")) continue;
            mc::count();
            remove_tree(t, how, unknown, "tree");
        }
    // Deep and wide
    for (int wide: { 0, 1 })
        if (mc::begin("removal of a %s tree", wide ? "wide" : "deep"))
        {
            mc::count();
            string d = fresh(), p = d + "/top";
            mk_dir(p);
            for (int i = 0; i < (wide ? 3000 : 60); ++i)
                if (wide) mk_file(p + mc::fmt("/a longer name of a file, number %d", i), "");
                else { p += "/sub"; mk_dir(p); mk_file(p + "/f", ""); }
            Result r = run([&] { sys::rmtree(fs::path(d + "/top")); return ""; });
            tidy("tree");
            if (r.threw || lexists(d + "/top")) mc::fail(wide ? "tree-wide" : "tree-deep", "%s", r.what.c_str());
        }
    for (const char* what: { "absent", "file", "link to file", "file/x" })
        if (mc::begin("removal of %s", what))
        {
            mc::count();
            string d = fresh();
            make_outside(d);
            mk_link(d + "/lf", d + "/file");
            auto was = snapshot(d);
            string p = d + "/" + (*what == 'a' ? "no" : *what == 'l' ? "lf" : what);
            Result r = run([&] { return sys::rmtree_ifexists(fs::path(p)) ? "true" : "false"; });
            tidy("tree-not");
            if (*what == 'a' && (r.threw || r.value != "false")) mc::fail("tree-absent", "%s%s", r.value.c_str(), r.what.c_str());
            if (*what != 'a' && !r.threw && r.value == "true") mc::fail("tree-not-dir", "it says it is removed");
            r = run([&] { sys::rmtree(fs::path(p)); return ""; });
            tidy("tree-not");
            if (!r.threw) mc::fail("tree-not-dir", "no error");
            if (snapshot(d) != was) mc::fail("tree-not-dir", "something is removed");
        }
}

MC_GROUP(tree_faults)
{
    setup();
    vector<vector<Node>> some = {
        {}, { { FILE_, -1 } }, { { DIR_, -1 } }, { { DIR_, -1 }, { FILE_, 0 } }, { { LINK_DIR, -1 }, { DIR_, -1 } }, { { DIR_, -1 }, { LINK_DIR, 0 } },
        { { DIR_, -1 }, { DIR_, 0 } }, { { FILE_, -1 }, { FIFO_, -1 }, { SOCK_, -1 } }, { { DIR_, -1 }, { DIR_, 0 }, { FILE_, 1 } }, { { DIR_, -1 }, { DIR_, -1 }, { LINK_FILE, 1 } },
    };
    for (auto& t: some)
        for (int unknown = 0; unknown < 2; ++unknown)
        {
            all_faults([&] {
                if (!mc::begin("removal of the tree%s, types %s%s", show_tree(t).c_str(), unknown ? "unknown" : "known", fault_text().c_str())) return;
                mc::count();
                ++mc::sh->transitions;
                remove_tree(t, 0, unknown, "tree-fault" + (ctl.at[0] >= 0 ? "-" + call_name(ctl.at[0]) : ""));
            }, mc::thorough);
            // Another process puts a link in the place of a directory
            for (unsigned i = 0; i < t.size(); ++i)
                if (t[i].kind == DIR_)
                    for (int target = 0; target < 2; ++target)
                        for (int k = 0; k < 400; ++k)
                        {
                            if (!mc::begin("removal of the tree%s, types %s, directory %u becomes a link %d before call %d", show_tree(t).c_str(), unknown ? "unknown" : "known", i, target, k)) continue;
                            mc::count();
                            ++mc::sh->traces;
                            mc::clean(mc::work + "/moved");
                            remove_tree(t, 0, unknown, "tree-swap", [&](int c, const string& d) {
                                if (c != k) return;
                                string p = d + "/top/" + path_of(t, i);
                                if (!lexists(p)) return;
                                if (::rename(p.c_str(), (mc::work + "/moved").c_str()) == 0)
                                    mk_link(p, target ? d : d + "/outside");
                            });
                            if (ctl.n <= k) break;
                        }
        }
    mc::clean(mc::work + "/moved");
}

MC_GROUP(entries)
{
    setup();
    // What an iteration says of each entry
    for (int unknown = 0; unknown < 2; ++unknown)
        for (int mask = 0; mask < 256; ++mask)
        {
            if (!mc::begin("entries %d, types %s", mask, unknown ? "unknown" : "known")) continue;
            mc::count(mask);
            string d = fresh();
            make_outside(d);
            mk_dir(d + "/top");
            std::map<string, int> want;
            for (int k = 0; k < KINDS; ++k)
                if (mask >> k & 1)
                {
                    string n = k == 3 ? string(255, 'l') : node_names[k % 5] + std::to_string(k);
                    make_node(d + "/top/" + n, (Kind)k, d);
                    want[n] = k;
                }
            ctl.unknown_types = unknown;
            Result r = run([&]() -> string {
                sys::Path p(d + "/top");
                std::map<string, int> got;
                int dots = 0;
                for (auto i = p.begin(); i != p.end(); ++i)
                {
                    string n = i->d_name;
                    if (n == "." || n == "..") { ++dots; if (!i.isdir() || i.isreg() || i.islnk()) return n + " is not a directory"; continue; }
                    if (got.count(n)) return n + " comes twice";
                    int is[] = { i.isreg(), i.isdir(), i.islnk(), i.islnk(), i.islnk(), i.islnk(), i.isfifo(), i.issock() };
                    if (!want.count(n)) return "there is no " + n;
                    int k = want[n], sum = i.isreg() + i.isdir() + i.islnk() + i.isfifo() + i.issock() + i.isblk() + i.ischr();
                    if (!is[k] || sum != 1) return mc::fmt("entry of kind %d: reg %d dir %d lnk %d fifo %d sock %d blk %d chr %d", k, i.isreg(), i.isdir(), i.islnk(), i.isfifo(), i.issock(), i.isblk(), i.ischr());
                    got[n] = k;
                    sys::Path sub = i.open_path(O_NOFOLLOW);
                    struct stat a, b;
                    sub.fstat(a);
                    p.lstatat(n.c_str(), b);
                    if (a.st_ino != b.st_ino) return "open_path opens another entry than " + n;
                    if (sub.path() != fs::path(d + "/top") / n) return "path of " + n;
                }
                if (got != want) return mc::fmt("%zu entries instead of %zu", got.size(), want.size());
                // A moved iterator goes on, in its directory
                auto first = p.begin();
                sys::Path::iterator moved(std::move(first));
                int count = 0;
                for (; moved != p.end(); ++moved)
                {
                    ++count;
                    if (unknown) moved.isdir();
                    moved.open_path(O_NOFOLLOW);
                }
                if (count != dots + (int)want.size()) return mc::fmt("a moved iterator gives %d entries", count);
                if (p.end() != p.end() || !(p.end() == p.end())) return "two ends differ";
                if (p.begin() == p.end() || !(p.begin() != p.end())) return "the beginning is the end";
                return "";
            });
            ctl.unknown_types = false;
            string key = unknown ? "entries-unknown-types" : "entries";
            if (r.threw || !r.value.empty()) mc::fail(key, "%s%s", r.value.c_str(), r.what.c_str());
            tidy(key);
        }
    if (mc::begin("moved iterator"))
    {
        // On its own, as it may be a crash
        mc::count();
        string d = fresh();
        mk_file(d + "/x", "");
        int rc = mc::isolated([&] {
            Result r = run([&]() -> string {
                sys::Path p(d);
                auto first = p.begin();
                sys::Path::iterator moved(std::move(first));
                for (; moved != p.end(); ++moved) moved.open_path(O_NOFOLLOW);
                return "";
            });
            return r.threw ? 1 : 0;
        });
        if (rc) mc::fail("entries-moved", "%s", mc::outcome(rc).c_str());
    }
    for (int n: { 0, 1, 5 })
        all_faults([&] {
            if (!mc::begin("iteration of %d entries%s", n, fault_text().c_str())) return;
            mc::count();
            string d = fresh();
            for (int i = 0; i < n; ++i) mk_file(d + mc::fmt("/%d", i), "");
            int seen = 0;
            Result r = run([&]() -> string {
                sys::Path p(d);
                for (auto& e: p) { (void)e; ++seen; }
                return "";
            });
            string key = "entries-fault-" + call_name(ctl.at[0]);
            tidy(key);
            bool faulty = ctl.faulted;
            if (!faulty && r.threw) mc::fail(key, "%s", r.what.c_str());
            if (!r.threw && seen != n + 2) mc::fail(key, "%d entries instead of %d, and no error", seen, n + 2);
        });
}

MC_GROUP(at)
{
    setup();
    // Operations relative to a directory
    for (int k = -1; k < KINDS; ++k)
        for (int op = 0; op < 14; ++op)
            all_faults([&] {
                if (!mc::begin("operation %d on an entry of kind %d%s", op, k, fault_text().c_str())) return;
                mc::count();
                string d = fresh(), p = d + "/top/n";
                make_outside(d);
                mk_dir(d + "/top");
                if (k >= 0) make_node(p, (Kind)k, d);
                chmod(p.c_str(), 0777);
                auto want = snapshot(d);
                struct stat st = {}, lst = {}, tst = {};
                bool lex = lstat(p.c_str(), &lst) == 0, ex = ::stat(p.c_str(), &tst) == 0;
                Result r = run([&]() -> string {
                    sys::Path t(d + "/top");
                    auto fd = [&](int f) -> string { if (f == -1) return "-1"; struct stat s; if (syscall(SYS_fstat, f, &s)) return "bad"; ctl.fds.erase(f); syscall(SYS_close, f); return s.st_ino == tst.st_ino ? "same" : "other"; };
                    switch (op)
                    {
                        case 0: return fd(t.openat("n", O_RDONLY | O_NONBLOCK));
                        case 1: return fd(t.openat_ifexists("n", O_RDONLY | O_NONBLOCK));
                        case 2: return t.faccessat("n", R_OK) ? "yes" : "no";
                        case 3: t.fstatat("n", st); return st.st_ino == tst.st_ino ? "same" : "other";
                        case 4: return !t.fstatat_ifexists("n", st) ? "no" : st.st_ino == tst.st_ino ? "same" : "other";
                        case 5: t.lstatat("n", st); return st.st_ino == lst.st_ino ? "same" : "other";
                        case 6: return !t.lstatat_ifexists("n", st) ? "no" : st.st_ino == lst.st_ino ? "same" : "other";
                        case 7: t.unlinkat("n"); return "";
                        case 8: t.mkdirat("n", 0750); return "";
                        case 9: t.rmdirat("n"); return "";
                        case 10: t.symlinkat("some/where", "n"); return "";
                        case 11: return t.readlinkat("n");
                        case 12: { sys::Path s(t, "n"); struct stat x; s.fstat(x); return x.st_ino == tst.st_ino && s.path() == fs::path(p) ? "same" : "other"; }
                        default: { sys::Path s(t, "n", O_NOFOLLOW); struct stat x; s.fstat(x); return x.st_ino == lst.st_ino ? "same" : "other"; }
                    }
                });
                bool faulty = ctl.faulted;
                string key = mc::fmt("at-%d%s", op, faulty ? "-fault" : "");
                tidy(key);
                // A descriptor that is only closed when the directory goes away
                bool late = faulty && call_name(ctl.at[0]) == "close";
                bool threw = false;
                string value;
                switch (op)
                {
                    case 0: threw = !ex || k == SOCK_; value = "same"; break;
                    case 1: threw = k == SOCK_; value = ex ? "same" : "-1"; break;
                    case 2: value = ex ? "yes" : "no"; break;
                    case 3: threw = !ex; value = "same"; break;
                    case 4: value = ex ? "same" : "no"; break;
                    case 5: threw = !lex; value = "same"; break;
                    case 6: value = lex ? "same" : "no"; break;
                    case 7: threw = !lex || k == DIR_; if (!threw) want.erase("top/n"); break;
                    case 8: threw = lex; if (!threw) want["top/n"] = mc::fmt("%o", S_IFDIR | 0750); break;
                    case 9: threw = k != DIR_; if (!threw) want.erase("top/n"); break;
                    case 10: threw = lex; if (!threw) want["top/n"] = mc::fmt("%o some/where", S_IFLNK | 0777); break;
                    case 11: threw = !(k >= LINK_DIR && k <= LINK_UP); if (!threw) value = k == LINK_DIR ? d + "/outside" : k == LINK_FILE ? d + "/file" : k == LINK_NONE ? "nowhere" : ".."; break;
                    case 12: threw = !ex; value = "same"; break;
                    default: threw = !lex; value = "same"; break;
                }
                if (faulty && !late) { if (!r.threw) mc::fail(key, "the error of %s is not reported", call_name(ctl.at[0]).c_str()); return; }
                if (r.threw != threw || (!threw && r.value != value)) mc::fail(key + mc::fmt("-kind%d", k), "gives %s%s instead of %s", r.value.c_str(), r.what.c_str(), threw ? "an error" : value.c_str());
                if (snapshot(d) != want) mc::fail(key + mc::fmt("-kind%d", k), "the directory is not as it should be");
            });
    // Targets of links, of every length
    string d = fresh();
    for (int n = 1; n < 4096; n += n < 1100 ? 1 : 97)
    {
        if (!mc::begin("link of %d bytes", n)) continue;
        mc::count();
        string t;
        while ((int)t.size() < n) t += mc::fmt("%d/", (int)t.size());
        t.resize(n);
        mk_link(d + "/l", t);
        Result r = run([&] { sys::Path p(d); return p.readlinkat("l"); });
        tidy("readlink");
        if (r.threw || r.value != t) mc::fail("readlink", "%zu bytes instead of %d %s", r.value.size(), n, r.what.c_str());
        ::unlink((d + "/l").c_str());
    }
}

// ---- temporary files and directories

MC_GROUP(temporary)
{
    setup();
    // Histories of a temporary file or directory, and what others do to it
    unsigned depth = mc::thorough ? 4 : 3;
    for (int dir = 0; dir < 2; ++dir)
        mc::all_sequences(depth, 8, [&](const vector<unsigned>& h) {
            if (!mc::begin("temporary %s: %s", dir ? "directory" : "file", [&] { string s; for (unsigned i: h) s += mc::fmt(" %u", i); return s; }().c_str())) return;
            mc::count();
            ++mc::sh->traces;
            string d = fresh();
            mk_dir(d + "/in");
            bool remove = true, there = true, odd = false, locked = false;
            int rc = mc::isolated([&] {
                Result r = run([&]() -> string {
                    std::unique_ptr<sys::Tempfile> f;
                    std::unique_ptr<sys::Tempdir> t;
                    if (dir) t.reset(new sys::Tempdir(fs::path(d + "/in/tmp"))); else f.reset(new sys::Tempfile(fs::path(d + "/in/tmp")));
                    string p = (dir ? t->path() : f->path()).native();
                    if (p.compare(0, d.size() + 7, d + "/in/tmp") || p.size() != d.size() + 13 || !lexists(p)) return "path " + p;
                    for (unsigned op: h)
                        switch (op)
                        {
                            case 0: if (dir) t->rmtree_on_exit(false); else f->unlink_on_exit(false); break;
                            case 1: if (dir) t->rmtree_on_exit(true); else f->unlink_on_exit(true); break;
                            case 2: if (dir) t->rmtree(); else f->unlink(); break;
                            case 3: if (dir) (void)!mkdirat(*t, "sub", 0777); else f->write_all_or_retry("data", 4); break;
                            case 4: ctl.armed = false; as_root(); mc::clean(p); as_nobody(); ctl.armed = true; break;
                            case 5: ctl.armed = false; as_root(); mc::clean(p); mk_dir(p); mk_file(p + "/other", ""); as_nobody(); ctl.armed = true; break;
                            case 6: chmod((d + "/in").c_str(), 0500); break;
                            case 7: if (dir) t->close(); else f->close(); break;
                        }
                    return "";
                });
                return r.threw ? 1 : r.value.empty() ? 0 : 2;
            });
            (void)odd; (void)locked;
            // An error is possible only in a call that can fail
            bool can_throw = false, replaced = false, closed = false;
            for (unsigned op: h)
                switch (op)
                {
                    case 0: remove = false; break;
                    case 1: remove = true; break;
                    case 2: if (locked || replaced || closed || !there) can_throw = true; there = false; break;
                    case 3: if (closed) can_throw = true; if (dir && !there) can_throw = true; break;
                    case 4: there = false; replaced = false; break;
                    case 5: there = true; replaced = true; break;
                    case 6: locked = true; break;
                    case 7: closed = true; break;
                }
            string key = dir ? "tempdir" : "tempfile";
            if (rc == 2) mc::fail(key + "-path", "it has another name");
            else if (rc != 0 && !(rc == 1 && can_throw)) mc::fail(key + (rc > 1 ? "-crash" : "-threw"), "%s", mc::outcome(rc).c_str());
            chmod((d + "/in").c_str(), 0777);
            auto left = snapshot(d + "/in");
            bool simple = !locked && !replaced && !(dir && closed) && rc == 0;
            if (simple && left.empty() != (remove || !there)) mc::fail(key + "-left", "%zu entries are left", left.size());
        });
    for (int dir = 0; dir < 2; ++dir)
        all_faults([&] {
            if (!mc::begin("temporary %s%s", dir ? "directory" : "file", fault_text().c_str())) return;
            mc::count();
            string d = fresh();
            FILE* out = fopen((mc::work + "/calls").c_str(), "w+");
            string name;
            int rc = mc::isolated([&] {
                Result r = run([&]() -> string {
                    if (dir) { sys::Tempdir t(fs::path(d + "/tmp")); } else { sys::Tempfile t(fs::path(d + "/tmp")); }
                    return "";
                });
                tidy(dir ? "tempdir" : "tempfile");
                fprintf(out, "%d %d %d", ctl.n, ctl.impossible, r.threw);
                fflush(out);
                return 0;
            });
            int threw = 0, imp = 0;
            rewind(out);
            if (fscanf(out, "%d %d %d", &ctl.n, &imp, &threw) != 3) { ctl.n = ctl.at[0] + 1; imp = ctl.variant[0] > 8; }
            ctl.impossible = imp;
            fclose(out);
            string key = dir ? "tempdir-fault" : "tempfile-fault";
            if (rc) mc::fail(key, "%s", mc::outcome(rc).c_str());
            if (!threw && ctl.at[0] < 0 && !snapshot(d).empty()) mc::fail(key, "it is left");
        });
    // Names from prefixes
    string d = fresh();
    for (const char* prefix: { "", "x", "a b", "aXXXXXX", "XXX", ".", "long-prefix-that-goes-on-and-on" })
    {
        if (!mc::begin("temporary names with prefix %s", prefix)) continue;
        mc::count();
        string p = d + "/" + prefix;
        std::set<string> seen;
        Result r = run([&]() -> string {
            for (int i = 0; i < 4; ++i)
            {
                sys::File f = i % 2 ? sys::File::mkstemp(p.c_str()) : sys::File::mkstemp(fs::path(p));
                string n = f.path().native();
                if (n.compare(0, p.size(), p) || n.size() != p.size() + 6 || !seen.insert(n).second) return "file " + n;
                struct stat a, b;
                f.fstat(a);
                if (::stat(n.c_str(), &b) || a.st_ino != b.st_ino || (a.st_mode & 0777) != 0600) return "another file " + n;
                string t = i % 2 ? sys::Path::mkdtemp(p.c_str()) : sys::Path::mkdtemp(fs::path(p));
                if (t.compare(0, p.size(), p) || t.size() != p.size() + 6 || !seen.insert(t).second) return "directory " + t;
                if (::stat(t.c_str(), &b) || !S_ISDIR(b.st_mode)) return "no directory " + t;
            }
            return "";
        });
        tidy("names");
        if (r.threw || !r.value.empty()) mc::fail("temporary-names", "%s%s", r.value.c_str(), r.what.c_str());
    }
}

// ---- questions about files, and moves

MC_GROUP(paths)
{
    setup();
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
    const char* kinds[] = { "absent", "file", "empty", "dir", "full", "lfile", "ldir", "dangling", "loop", "fifo", "sock", "exec", "noaccess/x", "file/x" };
    auto populate = [&] {
        string d = fresh();
        mk_file(d + "/file", "12345", 0644);
        mk_file(d + "/empty", "", 0400);
        mk_file(d + "/exec", "#!", 0755);
        mk_dir(d + "/dir");
        mk_dir(d + "/full");
        mk_file(d + "/full/in", "x");
        mk_link(d + "/lfile", "file");
        mk_link(d + "/ldir", "full");
        mk_link(d + "/dangling", "nowhere");
        mk_link(d + "/loop", "loop");
        mk_fifo(d + "/fifo");
        mk_sock(d + "/sock");
        mk_dir(d + "/noaccess");
        mk_file(d + "/noaccess/x", "x");
        chmod((d + "/noaccess").c_str(), 0);
        return d;
    };
    auto done = [&](const string& d) { chmod((d + "/noaccess").c_str(), 0777); };
    for (auto kind: kinds)
        for (int op = 0; op < 24; ++op)
            for (int fault = 0; fault < 2; ++fault)
            {
                if (!mc::begin("question %d about %s%s", op, kind, fault ? ", the first call fails" : "")) continue;
                mc::count();
                string d = populate(), p = d + "/" + kind;
                struct timeval tv[2] = { { 1000000, 0 }, { 1234567, 0 } };
                utimes((d + "/file").c_str(), tv);
                as_nobody();
                struct stat st = {}, lst = {};
                int e = ::stat(p.c_str(), &st) ? errno : 0, le = lstat(p.c_str(), &lst) ? errno : 0;
                as_root();
                ctl.at[0] = fault ? 0 : -1;
                ctl.variant[0] = 0;
                Result r = run([&]() -> string {
                    fs::path q(p);
                    struct stat s;
                    auto b = [](bool v) { return string(v ? "yes" : "no"); };
                    switch (op)
                    {
                        case 0: return b(sys::isdir(p));
                        case 1: return b(sys::isblk(p));
                        case 2: return b(sys::ischr(p));
                        case 3: return b(sys::isfifo(p));
                        case 4: return b(sys::islnk(p));
                        case 5: return b(sys::isreg(p));
                        case 6: return b(sys::issock(p));
                        case 7: return mc::fmt("%ld", (long)sys::timestamp(q));
                        case 8: return mc::fmt("%ld", (long)sys::timestamp(q, (time_t)77));
                        case 9: return mc::fmt("%zu", sys::size(q));
                        case 10: return mc::fmt("%zu", sys::size(q, (size_t)77));
                        case 11: return mc::fmt("%ld", (long)sys::inode(q));
                        case 12: return mc::fmt("%ld", (long)sys::inode(q, (ino_t)0));
                        case 13: { auto x = sys::stat(p.c_str()); return x ? mc::fmt("%ld", (long)x->st_ino) : "none"; }
                        case 14: { auto x = sys::stat(q); return x ? mc::fmt("%ld", (long)x->st_ino) : "none"; }
                        case 15: sys::stat(p.c_str(), s); return mc::fmt("%ld", (long)s.st_ino);
                        case 16: sys::stat(q, s); return mc::fmt("%ld", (long)s.st_ino);
                        case 17: { auto x = sys::stat(p); return x ? mc::fmt("%ld", (long)x->st_ino) : "none"; }
                        case 18: sys::stat(p, s); return mc::fmt("%ld", (long)s.st_ino);
                        case 19: return b(sys::access(q, F_OK));
                        case 20: return b(sys::access(q, R_OK));
                        case 21: return b(sys::access(q, X_OK));
                        case 22: { sys::File f(q); bool o = f.open_ifexists(O_RDONLY | O_NONBLOCK); if (o != f.is_open()) return "inconsistent"; return b(o); }
                        default: { sys::File f(p.c_str()); f.open(O_RDONLY | O_NONBLOCK); return b(f.is_open()); }
                    }
                });
                bool faulty = fault && ctl.n > 0;
                ctl.at[0] = -1;
                string key = mc::fmt("question-%d%s", op, faulty ? "-fault" : "");
                tidy(key);
                done(d);
                if (fault)
                {
                    // (access and is...() may answer without being able to see)
                    if (faulty && !r.threw && (op < 19 || op > 21) && call_name(0) != "close") mc::fail(key, "the error of %s is not reported", call_name(0).c_str());
                    continue;
                }
                string want;
                bool threw = false, either = false;
                auto b = [](bool v) { return string(v ? "yes" : "no"); };
                bool gone = e == ENOENT;
                mode_t m = e ? 0 : st.st_mode, lm = le ? 0 : lst.st_mode;
                switch (op)
                {
                    case 0: want = b(S_ISDIR(m)); break;
                    case 1: want = b(S_ISBLK(m)); break;
                    case 2: want = b(S_ISCHR(m)); break;
                    case 3: want = b(S_ISFIFO(m)); break;
                    case 4: want = b(S_ISLNK(lm)); break;
                    case 5: want = b(S_ISREG(m)); break;
                    case 6: want = b(S_ISSOCK(m)); break;
                    case 7: threw = e; want = mc::fmt("%ld", (long)st.st_mtime); break;
                    case 8: threw = e && !gone; want = gone ? "77" : mc::fmt("%ld", (long)st.st_mtime); break;
                    case 9: threw = e; want = mc::fmt("%zu", (size_t)st.st_size); break;
                    case 10: threw = e && !gone; want = gone ? "77" : mc::fmt("%zu", (size_t)st.st_size); break;
                    case 11: threw = e; want = mc::fmt("%ld", (long)st.st_ino); break;
                    case 12: threw = e && !gone; want = gone ? "0" : mc::fmt("%ld", (long)st.st_ino); break;
                    case 13: case 14: case 17: threw = e && !gone; want = gone ? "none" : mc::fmt("%ld", (long)st.st_ino); break;
                    case 15: case 16: case 18: threw = e; want = mc::fmt("%ld", (long)st.st_ino); break;
                    case 19: want = b(!e); break;
                    case 20: want = b(!e && strcmp(kind, "noaccess/x")); break;
                    case 21: want = b(!e && (m & 0100)); break;
                    case 22: threw = (e && !gone) || S_ISSOCK(m); want = b(!e); break;
                    default: threw = e || S_ISSOCK(m); want = "yes"; break;
                }
                if (op < 7 && e && !gone) either = op != 4 || (le && le != ENOENT);
                if (op >= 7 && e == ENOTDIR && (r.threw || r.value == "77" || r.value == "0" || r.value == "none" || r.value == "no")) either = true;
                if (either) { if (!r.threw && r.value == "yes") mc::fail(key, "%s: yes", kind); continue; }
                if (r.threw != threw || (!threw && r.value != want)) mc::fail(key + "-" + string(kind, strcspn(kind, "/")), "gives %s%s instead of %s", r.value.c_str(), r.what.c_str(), threw ? "an error" : want.c_str());
            }
    // What changes the names
    for (auto a: kinds)
        for (auto b: kinds)
            for (int fault = 0; fault < 2; ++fault)
            {
                if (!mc::begin("%s renamed to %s%s", a, b, fault ? ", the call fails" : "")) continue;
                mc::count();
                string d = populate(), pa = d + "/" + a, pb = d + "/" + b;
                auto was = snapshot(d);
                // What the system itself does, in a copy
                as_nobody();
                int e = ::rename(pa.c_str(), pb.c_str()) ? errno : 0;
                as_root();
                auto want = snapshot(d);
                done(d);
                d = populate();
                ctl.at[0] = fault ? 0 : -1;
                ctl.variant[0] = 1;
                Result r = run([&]() -> string { return sys::rename_ifexists(fs::path(pa), fs::path(pb)) ? "yes" : "no"; });
                ctl.at[0] = -1;
                tidy("rename");
                auto is = snapshot(d);
                done(d);
                if (fault) { if (!r.threw || is != was) mc::fail("rename-fault", "%s", r.threw ? "the files are changed" : "the error is not reported"); continue; }
                bool threw = e && e != ENOENT;
                if (r.threw != threw || (!threw && r.value != (e ? "no" : "yes"))) mc::fail("rename", "gives %s%s instead of %s", r.value.c_str(), r.what.c_str(), threw ? "an error" : e ? "no" : "yes");
                if (is != want) mc::fail("rename", "the files are not as they should be");
            }
    for (auto a: kinds)
        for (int op = 0; op < 9; ++op)
        {
            if (!mc::begin("operation %d on %s", op, a)) continue;
            mc::count();
            string d = populate(), p = d + "/" + a;
            as_nobody();
            int e;
            struct stat st;
            bool isdir = ::stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode), deep = false;
            switch (op)
            {
                case 0: case 1: case 2: case 3: e = ::unlink(p.c_str()) ? errno : 0; break;
                case 4: e = ::rmdir(p.c_str()) ? errno : 0; break;
                case 5: e = ::mkdir(p.c_str(), 0777) ? errno : 0; break;
                case 6: { struct timeval tv[2] = { { 4242, 0 }, { 4242, 0 } }; e = utimes(p.c_str(), tv) ? errno : 0; break; }
                case 7: e = ::rename(p.c_str(), (d + "/new").c_str()) ? errno : 0; break;
                default: deep = !isdir && strcmp(a, "absent") == 0; e = deep ? 0 : isdir ? EEXIST : ENOTDIR; if (deep) { ::mkdir(p.c_str(), 0777); } if (deep || isdir) ::mkdir((p + "/y").c_str(), 0777); break;
            }
            as_root();
            auto want = snapshot(d);
            done(d);
            d = populate();
            Result r = run([&]() -> string {
                fs::path q(p);
                switch (op)
                {
                    case 0: return sys::unlink_ifexists(q) ? "yes" : "no";
                    case 1: return sys::unlink_ifexists(p) ? "yes" : "no";
                    case 2: return sys::unlink_ifexists(p.c_str()) ? "yes" : "no";
                    case 3: sys::unlink(q); return "";
                    case 4: sys::rmdir(q); return "";
                    case 5: return sys::mkdir_ifmissing(q) ? "yes" : "no";
                    case 6: sys::touch(q, 4242); return mc::fmt("%ld", (long)sys::timestamp(q));
                    case 7: sys::rename(p, d + "/new"); return "";
                    default: return sys::makedirs(q / "y") ? "yes" : "no";
                }
            });
            string key = mc::fmt("operation-%d", op);
            tidy(key);
            auto is = snapshot(d);
            done(d);
            bool threw = e;
            string value;
            switch (op)
            {
                case 0: case 1: case 2: threw = e && e != ENOENT; value = e ? "no" : "yes"; break;
                case 5: threw = e && !isdir; value = e ? "no" : "yes"; break;
                case 6: value = "4242"; break;
                case 8: threw = e && !isdir; value = isdir || deep ? "yes" : "no"; break;
            }
            if (op == 8 && threw && !r.threw && is == want) continue;
            if (r.threw != threw || (!threw && r.value != value)) mc::fail(key + "-" + string(a, strcspn(a, "/")), "gives %s%s instead of %s", r.value.c_str(), r.what.c_str(), threw ? "an error" : value.c_str());
            if (is != want) mc::fail(key + "-" + string(a, strcspn(a, "/")), "the files are not as they should be");
        }
}

MC_GROUP(which)
{
    setup();
    // Lists of directories in which the program is or is not
    string d = fresh();
    const char* dirs[] = { "none", "absent", "plain", "exec", "dir", "exec2", "link", "" };
    for (auto n: dirs) if (*n && strcmp(n, "absent")) mk_dir(d + "/" + n);
    mk_file(d + "/plain/prog", "", 0644);
    mk_file(d + "/exec/prog", "", 0755);
    mk_file(d + "/exec2/prog", "", 0755);
    mk_dir(d + "/dir/prog");
    mk_link(d + "/link/prog", "../exec/prog");
    mk_file(d + "/prog2", "", 0755);
    string old = getenv("PATH");
    char* cwd = getcwd(nullptr, 0);
    (void)!chdir(d.c_str());
    for (unsigned n = 0; n <= (mc::thorough ? 5u : 4u); ++n)
        mc::all_sequences(n, 8, [&](const vector<unsigned>& v) {
            for (int rel = 0; rel < 2; ++rel)
            {
                string path, want = "prog";
                bool found = false;
                for (unsigned i = 0; i < n; ++i)
                {
                    string e = dirs[v[i]];
                    path += (i ? ":" : "") + (e.empty() ? e : rel ? e : d + "/" + e);
                    if (!found && (e == "exec" || e == "exec2" || e == "link")) { found = true; want = d + "/" + e + "/prog"; }
                }
                if (!mc::begin("which, PATH=%s", path.c_str())) continue;
                mc::count(found);
                setenv("PATH", path.c_str(), 1);
                Result r = run([&] { return sys::which("prog").native(); });
                if (r.threw || r.value != want) mc::fail("which", "\"%s\"%s instead of \"%s\"", r.value.c_str(), r.what.c_str(), want.c_str());
            }
        });
    for (auto c: vector<std::pair<string, string>>{ { "/a/b", "/a/b" }, { "./prog2", d + "/./prog2" }, { "exec/prog", d + "/exec/prog" }, { "no/where", d + "/no/where" } })
        if (mc::begin("which of %s", c.first.c_str()))
        {
            mc::count();
            Result r = run([&] { return sys::which(c.first).native(); });
            if (r.threw || fs::path(r.value).lexically_normal() != fs::path(c.second).lexically_normal() || r.value[0] != '/') mc::fail("which-path", "\"%s\" instead of \"%s\"", r.value.c_str(), c.second.c_str());
        }
    if (mc::begin("which without PATH"))
    {
        mc::count();
        unsetenv("PATH");
        Result r = run([&] { return sys::which("prog").native(); });
        if (r.threw || r.value != "prog") mc::fail("which-no-path", "%s", r.value.c_str());
    }
    setenv("PATH", old.c_str(), 1);
    (void)!chdir(cwd);
    free(cwd);
}

MC_GROUP(small)
{
    setup();
    // Suffixes
    for (string suffix: { "", ".x", "/y", "z" })
        mc::all_strings("a/.", mc::thorough ? 8 : 6, [&](const string& s) {
            if (!mc::begin("with_suffix(\"%s\", \"%s\")", s.c_str(), suffix.c_str())) return;
            mc::count(!s.empty());
            bool named = !s.empty() && s.back() != '/';
            string got;
            bool threw = false;
            try { got = sys::with_suffix(fs::path(s), suffix).native(); }
            catch (std::invalid_argument&) { threw = true; }
            if (threw != !named || (named && got != s + suffix)) mc::fail("suffix", "\"%s\"%s", got.c_str(), threw ? "(refused)" : "");
        });
    // Elapsed times
    vector<long> secs = { 0, 1, 2, 1000, 2147483647, 2147483648, 4294967295, 4294967296, 9000000000 };
    vector<long> nsecs = { 0, 1, 2, 499999999, 500000000, 999999998, 999999999 };
    for (long s1: secs) for (long s2: secs) for (long n1: nsecs) for (long n2: nsecs)
    {
        if (!mc::begin("from %ld.%09ld to %ld.%09ld", s1, n1, s2, n2)) continue;
        mc::count();
        struct timespec a = { s1, n1 }, b = { s2, n2 };
        __int128 want = (__int128)(s2 - s1) * 1000000000 + n2 - n1;
        if (want < 0) want = 0;
        unsigned long long got = sys::timesec_elapsed(a, b);
        if (got != (unsigned long long)want) mc::fail("elapsed", "%llu instead of %llu", got, (unsigned long long)want);
        if (s2 < 9000000000)
        {
            long t1 = s1 * 1000000000 + n1, t2 = s2 * 1000000000 + n2;
            if (s1 >= 9000000000) continue;
            ctl.now_ns = t1;
            ctl.armed = true;
            sys::Clock c(CLOCK_MONOTONIC);
            ctl.now_ns = t2;
            unsigned long long e = c.elapsed();
            ctl.armed = false;
            ctl.now_ns = -1;
            if (e != (unsigned long long)want) mc::fail("clock", "%llu instead of %llu", e, (unsigned long long)want);
        }
    }
    // Limits that are overridden
    for (unsigned n = 1; n <= 3; ++n)
        mc::all_sequences(n, 5, [&](const vector<unsigned>& v) {
            for (int fault = -1; fault < 4; ++fault)
            {
                if (!mc::begin("limits %s, call %d fails", [&] { string s; for (unsigned i: v) s += mc::fmt(" %u", i); return s; }().c_str(), fault)) continue;
                mc::count();
                ++mc::sh->traces;
                int rc = mc::isolated([&] {
                    struct rlimit l = { 100, 200 }, is;
                    setrlimit(RLIMIT_NOFILE, &l);
                    const rlim_t vals[] = { 50, 100, 150, 200, 300 };
                    int bad = 0;
                    ctl.at[0] = fault;
                    Result r = run([&]() -> string {
                        sys::OverrideRlimit o(RLIMIT_NOFILE, vals[v[0]]);
                        for (unsigned i = 0; i < n; ++i)
                        {
                            if (i) o.set(vals[v[i]]);
                            syscall(SYS_prlimit64, 0, RLIMIT_NOFILE, nullptr, &is);
                            if (is.rlim_cur != vals[v[i]] || is.rlim_max != 200) bad = 3;
                        }
                        return "";
                    });
                    bool faulty = fault >= 0 && ctl.n > fault;
                    bool fatal = false;
                    for (unsigned i = 0; i < n; ++i) fatal |= v[i] == 4 || fault == (int)i;
                    if (bad) return bad;
                    if (r.threw != fatal) return 4;
                    ctl.at[0] = -1;
                    syscall(SYS_prlimit64, 0, RLIMIT_NOFILE, nullptr, &is);
                    if (!faulty && (is.rlim_cur != 100 || is.rlim_max != 200)) return 5;
                    return 0;
                });
                if (rc) mc::fail(rc > 10 ? "limits-crash" : "limits", "%s", rc > 10 ? mc::outcome(rc).c_str() : rc == 3 ? "the limit is not set" : rc == 4 ? "errors are not reported" : "the limit is not restored");
            }
        });
    // Times that are preserved
    string f = fresh() + "/f";
    for (int how = 0; how < 4; ++how)
        for (int fault = -1; fault < 3; ++fault)
        {
            if (!mc::begin("times preserved, what happens: %d, call %d fails", how, fault)) continue;
            mc::count();
            int rc = mc::isolated([&] {
                mk_file(f, "content");
                struct timespec ts[2] = { { 1000, 123456789 }, { 2000, 987654321 } };
                utimensat(AT_FDCWD, f.c_str(), ts, 0);
                Raw raw(f, O_RDWR);
                ctl.at[0] = fault;
                Result r = run([&]() -> string {
                    sys::PreserveFileTimes p { sys::FileDescriptor(raw.fd) };
                    if (how == 1) (void)!syscall(SYS_write, raw.fd, "x", 1);
                    if (how == 2) { struct timespec t2[2] = { { 5, 5 }, { 6, 6 } }; syscall(SYS_utimensat, raw.fd, nullptr, t2, 0); }
                    if (how == 3) throw std::runtime_error("other");
                    return "";
                });
                if (fault == 0) return r.threw ? 0 : 4;
                if (r.threw != (how == 3)) return 5;
                struct stat st;
                stat(f.c_str(), &st);
                if (fault < 0 && (st.st_atim.tv_sec != 1000 || st.st_atim.tv_nsec != 123456789 || st.st_mtim.tv_sec != 2000 || st.st_mtim.tv_nsec != 987654321)) return 6;
                return 0;
            });
            if (rc) mc::fail(rc > 10 ? "times-crash" : "times", "%s", rc == 6 ? "the times are not restored" : rc > 10 ? mc::outcome(rc).c_str() : "errors");
        }
    // The mask of modes
    for (mode_t m = 0; m < 01000; ++m)
    {
        if (!mc::begin("umask %o", m)) continue;
        mc::count();
        mode_t was = sys::umask(m), is = ::umask(022);
        if (was != 022 || is != m) mc::fail("umask", "%o then %o", was, is);
    }
}
