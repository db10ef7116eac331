#include "mc.hpp"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fstream>
#include <sstream>

namespace mc {

Shared* sh = nullptr;
bool thorough = false;
long seed = 1;
std::string work;
std::string only_case;
static FILE* events = nullptr;   // one JSON object per line
static std::set<std::string> seen_keys;
static int nsamples = 0;

struct G { const char* name; group_fn fn; };
static std::vector<G>& groups() { static std::vector<G> g; return g; }
Reg::Reg(const char* name, group_fn fn) { groups().push_back(G{name, fn}); }

static std::string vfmt(const char* f, va_list ap)
{
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, f, ap2);
    va_end(ap2);
    std::string s(n + 1, 0);
    vsnprintf(&s[0], n + 1, f, ap);
    s.resize(n);
    return s;
}
std::string fmt(const char* f, ...)
{
    va_list ap; va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}
static std::string q(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    return r + "\"";
}
bool begin(const char* f, ...)
{
    va_list ap; va_start(ap, f);
    vsnprintf(sh->cur, sizeof(sh->cur), f, ap);
    va_end(ap);
    ++sh->case_no;
    if (sh->case_no <= sh->skip_to) return false;
    return only_case.empty() || only_case == sh->cur;
}
static std::string cur_group;
void fail(const std::string& key, const char* f, ...)
{
    ++sh->violations;
    if (seen_keys.size() > 400 || !seen_keys.insert(key).second) return;
    va_list ap; va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    fprintf(events, "{\"ev\":\"violation\",\"group\":%s,\"key\":%s,\"case\":%s,\"detail\":%s}\n",
            q(cur_group).c_str(), q(key).c_str(), q(sh->cur).c_str(), q(s).c_str());
    fflush(events);
}
void sample(const char* f, ...)
{
    if (nsamples++ >= 3) return;
    va_list ap; va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    fprintf(events, "{\"ev\":\"sample\",\"group\":%s,\"text\":%s}\n", q(cur_group).c_str(), q(s).c_str());
    fflush(events);
}

static double now()
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// Waits for pid, killing it after wall_s seconds, or after stall_s seconds in
// which no new case was started. true if it ended by itself
static bool reap(pid_t pid, int wall_s, int& status, int stall_s = 0)
{
    double t0 = now(), tprog = t0;
    uint64_t prog = ~0ull;
    useconds_t nap = 200;
    while (true)
    {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) return true;
        if (r < 0 && errno != EINTR) { status = 0; return false; }
        uint64_t p = sh->case_no + sh->evaluations + sh->transitions;
        if (p != prog) { prog = p; tprog = now(); }
        if (now() - t0 > wall_s || (stall_s && now() - tprog > stall_s))
        {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            return false;
        }
        usleep(nap);
        if (nap < 5000) nap *= 2;
    }
}

int isolated(const std::function<int()>& fn, int cpu_s, int wall_s, std::string* log)
{
    std::string logf = work + "/.isolated.log";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0)
    {
        struct rlimit rl; rl.rlim_cur = cpu_s; rl.rlim_max = cpu_s + 2;
        setrlimit(RLIMIT_CPU, &rl);
        int fd = open(log ? logf.c_str() : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1); dup2(fd, 2); close(fd);
        int rc = fn();
        fflush(stdout); fflush(stderr);
        _exit(rc);
    }
    int status = 0;
    bool ended = reap(pid, wall_s, status);
    if (log) *log = read_file(logf);
    if (!ended) return 2000;
    if (WIFSIGNALED(status))
        return WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL ? 2000 : 1000 + WTERMSIG(status);
    return WEXITSTATUS(status);
}
std::string outcome(int rc)
{
    if (rc == 2000) return "does not end";
    if (rc > 1000) return fmt("killed by signal %d (%s)", rc - 1000, strsignal(rc - 1000));
    if (rc == 99) return "memory error reported by the address sanitizer";
    return fmt("exit code %d", rc);
}

void write_file(const std::string& path, const std::string& data)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f || fwrite(data.data(), 1, data.size(), f) != data.size() || fclose(f) != 0)
    {
        fprintf(stderr, "harness: cannot write %s: %s\n", path.c_str(), strerror(errno));
        _exit(3);
    }
}
std::string read_file(const std::string& path)
{
    std::ifstream in(path, std::ios::binary);
    std::stringstream s; s << in.rdbuf();
    return s.str();
}
void make_dirs(const std::string& path)
{
    for (size_t p = 1; p <= path.size(); ++p)
        if (p == path.size() || path[p] == '/')
            mkdir(path.substr(0, p).c_str(), 0777);
}
static void rm_tree(const std::string& p)
{
    struct stat st;
    if (lstat(p.c_str(), &st) != 0) return;
    if (S_ISDIR(st.st_mode))
    {
        if (DIR* d = opendir(p.c_str()))
        {
            while (struct dirent* e = readdir(d))
                if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) rm_tree(p + "/" + e->d_name);
            closedir(d);
        }
        rmdir(p.c_str());
    }
    else unlink(p.c_str());
}
static std::string work_root;
void clean(const std::string& path)
{
    if (work_root.empty() || path.compare(0, work_root.size(), work_root) != 0 || path.find("..") != std::string::npos)
    {
        fprintf(stderr, "harness: refusing to clean %s\n", path.c_str());
        _exit(3);
    }
    rm_tree(path);
}
}

extern "C" const char* __asan_default_options();
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0:max_allocation_size_mb=6000:max_malloc_fill_size=1000000:malloc_fill_byte=190";
}
extern "C" const char* __ubsan_default_options();
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=1"; }

int main(int argc, char* argv[])
{
    using namespace mc;
    std::string out, only_group;
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--out" && i + 1 < argc) out = argv[++i];
        else if (a == "--work" && i + 1 < argc) work_root = argv[++i];
        else if (a == "--group" && i + 1 < argc) only_group = argv[++i];
        else if (a == "--case" && i + 1 < argc) only_case = argv[++i];
        else if (a == "--seed" && i + 1 < argc) seed = atol(argv[++i]);
        else if (a == "--list") list = true;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    if (list)
    {
        for (auto& g : groups()) puts(g.name);
        return 0;
    }
    if (out.empty() || work_root.empty()) { fprintf(stderr, "--out and --work needed\n"); return 2; }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int bad = 0;
    int wall = thorough ? 14000 : 800;
    for (auto& g : groups())
    {
        if (!only_group.empty() && only_group != g.name) continue;
        memset(sh, 0, sizeof(*sh));
        events = fopen(out.c_str(), "a");
        if (!events) { perror(out.c_str()); return 2; }
        cur_group = g.name;
        work = work_root + "/" + g.name;
        rm_tree(work);
        make_dirs(work);
        double t0 = now();
        for (int restart = 0; ; ++restart)
        {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0)
        {
            // sanitizer reports of the group go to a file, to be quoted
            int fd = open((work_root + "/" + g.name + ".stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(fd, 2);
            g.fn();
            fflush(nullptr);
            _exit(0);
        }
        int status = 0;
        bool ended = reap(pid, wall, status, 60);
        if (ended && WIFEXITED(status) && WEXITSTATUS(status) == 0) break;
        std::string err = read_file(work_root + "/" + g.name + ".stderr");
        if (ended && WIFEXITED(status) && WEXITSTATUS(status) == 3)
        {
            fprintf(stderr, "harness error in group %s case %s\n%s\n", g.name, sh->cur, err.substr(0, 3000).c_str());
            bad = 3;
            break;
        }
        std::string what = !ended ? "does not end" : WIFSIGNALED(status) ? fmt("killed by signal %d", WTERMSIG(status)) : fmt("exit %d", WEXITSTATUS(status));
        size_t p = err.find("ERROR: ");
        if (p == std::string::npos) p = err.find("runtime error");
        if (p == std::string::npos) p = err.size() > 1500 ? err.size() - 1500 : 0;
        ++sh->violations;
        fprintf(events, "{\"ev\":\"violation\",\"group\":%s,\"key\":%s,\"case\":%s,\"detail\":%s}\n", q(g.name).c_str(),
                q(fmt("crash:%s:%s", g.name, sh->cur)).c_str(), q(sh->cur).c_str(),
                q("the process " + what + ": " + err.substr(p, 1500)).c_str());
        fflush(events);
        // go on with the case after the one that failed
        if (restart >= (ended ? 30 : 2) || sh->case_no <= sh->skip_to) break;
        sh->skip_to = sh->case_no;
        sh->case_no = 0;
        }
        fprintf(events, "{\"ev\":\"group\",\"group\":%s,\"evaluations\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"violations\":%llu,\"wall\":%.2f}\n",
                q(g.name).c_str(), (unsigned long long)sh->evaluations, (unsigned long long)sh->nontrivial, (unsigned long long)sh->states,
                (unsigned long long)sh->transitions, (unsigned long long)sh->traces, (unsigned long long)sh->violations, now() - t0);
        fclose(events);
        rm_tree(work);
    }
    return bad;
}
