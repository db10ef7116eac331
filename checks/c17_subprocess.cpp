// C17: child processes. Histories of operations on children whose end is under
// the checker's control, all points at which a child can end while it is waited
// for, and everything that is handed to a program that is started.
#include "mc.hpp"
#include "enumerate.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <map>
#include <memory>
#include <msat/utils/subprocess.h>
#include <poll.h>
#include <set>
#include <stdexcept>
#include <sys/stat.h>
#include <system_error>

using std::string;
using std::vector;
using msat::subprocess::Child;
using msat::subprocess::Popen;
using msat::subprocess::Redirect;

// ---- the system calls under control

namespace {

enum Point { PRE_WAIT, POST_WAIT, PRE_SLEEP, MID_SLEEP, END_SLEEP };
void (*hook)(Point) = nullptr;
/// Signal that arrived since the last look, to interrupt a virtual sleep
volatile int arrived = 0;
long virtual_ns = 0;
bool armed = false;         // sleeps are virtual
bool fail_fork = false;
std::set<pid_t> may_kill;   // only these get signals
vector<pid_t> refused;      // others that were to get one

bool interrupts(int sig)
{
    struct sigaction sa;
    sigaction(sig, nullptr, &sa);
    return sa.sa_handler != SIG_DFL && sa.sa_handler != SIG_IGN;
}

}

extern "C" pid_t waitpid(pid_t pid, int* status, int options)
{
    static auto real = (pid_t (*)(pid_t, int*, int))dlsym(RTLD_NEXT, "waitpid");
    if (hook) hook(PRE_WAIT);
    pid_t res = real(pid, status, options);
    int e = errno;
    if (hook) hook(POST_WAIT);
    errno = e;
    return res;
}

extern "C" int nanosleep(const struct timespec* req, struct timespec* rem)
{
    static auto real = (int (*)(const struct timespec*, struct timespec*))dlsym(RTLD_NEXT, "nanosleep");
    if (!armed) return real(req, rem);
    if (req->tv_nsec < 0 || req->tv_nsec > 999999999 || req->tv_sec < 0) { errno = EINVAL; return -1; }
    if (hook) hook(PRE_SLEEP);
    arrived = 0;
    long ns = req->tv_sec * 1000000000L + req->tv_nsec, half = ns / 2;
    virtual_ns += half;
    if (hook) hook(MID_SLEEP);
    if (arrived && interrupts(arrived))
    {
        ns -= half;
        if (rem) { rem->tv_sec = ns / 1000000000L; rem->tv_nsec = ns % 1000000000L; }
        errno = EINTR;
        return -1;
    }
    virtual_ns += ns - half;
    if (hook) hook(END_SLEEP);
    return 0;
}

extern "C" pid_t fork()
{
    static auto real = (pid_t (*)())dlsym(RTLD_NEXT, "fork");
    if (fail_fork) { errno = EAGAIN; return -1; }
    return real();
}

extern "C" int kill(pid_t pid, int sig)
{
    static auto real = (int (*)(pid_t, int))dlsym(RTLD_NEXT, "kill");
    if (may_kill.count(pid)) return real(pid, sig);
    refused.push_back(pid);
    errno = ESRCH;
    return -1;
}

namespace {

void few_files()
{
    // All file descriptors up to the limit are closed in children
    struct rlimit rl = { 64, 64 };
    setrlimit(RLIMIT_NOFILE, &rl);
    struct rlimit core = { 0, 0 };
    setrlimit(RLIMIT_CORE, &core);
}

std::set<int> open_fds()
{
    std::set<int> r;
    for (int i = 0; i < 64; ++i) if (fcntl(i, F_GETFD) != -1) r.insert(i);
    return r;
}

/// Something waits to be reaped, or runs
bool has_children()
{
    siginfo_t si;
    return waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0;
}

// ---- lifecycle

/// Does what it is told through a pipe
struct Puppet : Child
{
    int cmd[2];
    Puppet() { if (::pipe(cmd) == -1) abort(); pass_fds = { cmd[0] }; }
    ~Puppet() { ::close(cmd[0]); ::close(cmd[1]); }
    int main() noexcept override
    {
        unsigned char c[2];
        ::close(cmd[1]);
        if (::read(cmd[0], c, 2) != 2) return 200;
        if (!c[0]) return c[1];
        signal(c[1], SIG_DFL);
        ::raise(c[1]);
        return 201;
    }
    void tell(int how, int code) { unsigned char c[2] = { (unsigned char)how, (unsigned char)code }; if (::write(cmd[1], c, 2) != 2) abort(); }
};

/// Wait until it has ended, leaving it to be reaped
void ended(pid_t pid)
{
    siginfo_t si;
    while (waitid(P_PID, pid, &si, WEXITED | WNOWAIT) == -1 && errno == EINTR) ;
}

struct Model
{
    enum { NEW, RUNNING, ZOMBIE, REAPED } state = NEW;
    int raw = 0;
    int code() const { return WIFSIGNALED(raw) ? -WTERMSIG(raw) : WEXITSTATUS(raw); }
};

enum OpCode { POLL, WAIT0, WAITT, WAIT, EXIT, KILL, TERM, SIG0, START, NOPCODES };
const char* const names[] = { "poll", "wait(0)", "wait(30)", "wait", "exit", "kill", "terminate", "signal 0", "start" };

struct Actor
{
    std::unique_ptr<Puppet> c;
    Model m;
    int code = 0, how = 0;
    pid_t pid = 0;
    void end()
    {
        if (!c) return;
        if (m.state == Model::RUNNING) { c->tell(0, 0); ended(pid); }
        int st;
        if (m.state == Model::RUNNING || m.state == Model::ZOMBIE) waitpid(pid, &st, 0);
        may_kill.erase(pid);
        c.reset();
    }
};

/// Run one operation and compare
bool step(Actor& a, int op)
{
    Puppet& c = *a.c;
    Model& m = a.m;
    bool started = m.state != Model::NEW;
    bool threw = false, res = false;
    int code = 0;
    refused.clear();
    ++mc::sh->transitions;
    auto reap = [&] { if (m.state == Model::ZOMBIE) { m.state = Model::REAPED; may_kill.erase(a.pid); } };
    if (op == EXIT)
    {
        if (m.state != Model::RUNNING) return true;
        c.tell(a.how, a.code);
        ended(a.pid);
        m.state = Model::ZOMBIE;
        m.raw = a.how ? a.code : a.code << 8;
        return true;
    }
    if (op == WAIT && m.state == Model::RUNNING)
    {
        // It ends while it is waited for
        c.tell(a.how, a.code);
        m.raw = a.how ? a.code : a.code << 8;
        m.state = Model::ZOMBIE;
    }
    try {
        switch (op)
        {
            case POLL: res = c.poll(); break;
            case WAIT0: res = c.wait(0); break;
            case WAITT: res = c.wait(30); break;
            case WAIT: code = c.wait(); break;
            case KILL: c.kill(); break;
            case TERM: c.terminate(); break;
            case SIG0: c.send_signal(0); break;
            case START: c.fork(); break;
        }
    } catch (std::exception& e) { threw = true; }
    if (!refused.empty()) { mc::fail("signal-to-others", "%s sent a signal to process %d", names[op], (int)refused[0]); return false; }
    switch (op)
    {
        case START:
            if (threw) { mc::fail("start", "fork failed"); return false; }
            a.pid = c.pid();
            may_kill.insert(a.pid);
            m.state = Model::RUNNING;
            break;
        case POLL: case WAIT0: case WAITT:
            if (!started) { if (!threw) mc::fail("not-started", "%s of a child not started did not fail", names[op]); return threw; }
            if (threw) { mc::fail(string("threw-") + names[op], "failed"); return false; }
            if (res != (m.state != Model::RUNNING)) { mc::fail(string("result-") + names[op], "says %d in state %d", res, m.state); return false; }
            reap();
            break;
        case WAIT:
            if (!started) { if (!threw) mc::fail("not-started", "wait of a child not started did not fail"); return threw; }
            if (threw) { mc::fail("threw-wait", "failed"); return false; }
            if (code != m.code()) { mc::fail("wait-code", "returned %d instead of %d", code, m.code()); return false; }
            reap();
            break;
        default:
            if (!started) { if (!threw) mc::fail("not-started", "%s of a child not started did not fail", names[op]); return threw; }
            if (m.state == Model::REAPED) break;
            if (threw) { mc::fail(string("threw-") + names[op], "failed"); return false; }
            if (m.state == Model::RUNNING && op != SIG0)
            {
                ended(a.pid);
                m.state = Model::ZOMBIE;
                m.raw = op == KILL ? SIGKILL : SIGTERM;
            }
    }
    if (c.started() != (m.state != Model::NEW)) { mc::fail("started", "started is %d", c.started()); return false; }
    if (c.terminated() != (m.state == Model::REAPED)) { mc::fail("terminated", "terminated is %d in state %d", c.terminated(), m.state); return false; }
    if (m.state == Model::REAPED)
    {
        if (c.returncode() != m.code()) { mc::fail("returncode", "returncode is %d instead of %d", c.returncode(), m.code()); return false; }
        if (c.raw_returncode() != m.raw) { mc::fail("raw-returncode", "raw code is %x instead of %x", c.raw_returncode(), m.raw); return false; }
        if (c.pid() != a.pid) { mc::fail("pid", "pid changed"); return false; }
    }
    return true;
}

const struct { int how, code; } endings[] = { { 0, 0 }, { 0, 1 }, { 0, 255 }, { 1, SIGSEGV }, { 0, 128 }, { 1, SIGHUP }, { 0, 42 } };

/// All histories of one child, started at any point
void histories(int part, int parts)
{
    few_files();
    armed = true;
    auto before = open_fds();
    unsigned n = mc::thorough ? 6 : 5, no = 0;
    mc::all_sequences(n, NOPCODES, [&](const vector<unsigned>& s) {
        // At most one start; without one, only short histories differ
        int starts = 0, first = n;
        for (unsigned i = 0; i < n; ++i) if (s[i] == START && ++starts == 1) first = i;
        if (starts > 1 || (starts == 0 && (s[0] || s[1]))) return;
        for (int i = 0; i < first; ++i) if (s[i] == EXIT) return;
        // Nothing happens on exits after the first
        unsigned exits = 0;
        for (auto o : s) if (o == EXIT) ++exits;
        if (exits > 1) return;
        if (no++ % parts != (unsigned)part) return;
        string t;
        for (auto o : s) t += string(" ") + names[o];
        auto& e = endings[no / parts % 7];
        if (!mc::begin("%s; ends with %s %d", t.c_str(), e.how ? "signal" : "code", e.code)) return;
        Actor a;
        a.c.reset(new Puppet);
        a.how = e.how;
        a.code = e.code;
        for (auto o : s) if (!step(a, o)) break;
        bool reaped = a.m.state == Model::REAPED;
        if (reaped && has_children()) mc::fail("left-behind", "a child is left behind");
        a.end();
        if (open_fds() != before) mc::fail("open-files", "file descriptors were left open or closed");
        mc::count(starts);
        ++mc::sh->traces;
    });
    mc::sh->states += 4 * 7;
}

/// All histories of two children
void two(int part, int parts)
{
    few_files();
    armed = true;
    const int ops[] = { POLL, WAITT, WAIT, EXIT, KILL };
    unsigned no = 0;
    mc::all_sequences(mc::thorough ? 6 : 4, 10, [&](const vector<unsigned>& s) {
        if (no++ % parts != (unsigned)part) return;
        string t;
        for (auto o : s) t += mc::fmt(" %c.%s", 'A' + o / 5, names[ops[o % 5]]);
        if (!mc::begin("two children:%s", t.c_str())) return;
        Actor a[2];
        for (int i = 0; i < 2; ++i)
        {
            auto& e = endings[(no / parts + 3 * i) % 7];
            a[i].c.reset(new Puppet);
            a[i].how = e.how;
            a[i].code = e.code;
            if (!step(a[i], START)) return;
        }
        for (auto o : s) if (!step(a[o / 5], ops[o % 5])) break;
        a[0].end();
        a[1].end();
        if (has_children()) mc::fail("left-behind", "a child is left behind");
        mc::count();
        ++mc::sh->traces;
    });
    mc::sh->states += 9;
}

/// Every exit code and every signal, found in each way
void codes()
{
    few_files();
    armed = true;
    for (int how = 0; how < 2; ++how)
        for (int code = how; code < (how ? 65 : 256); ++code)
        {
            if (how)
                switch (code)
                {
                    case SIGCHLD: case SIGURG: case SIGWINCH: case SIGCONT: case SIGSTOP: case SIGTSTP: case SIGTTIN: case SIGTTOU: case 32: case 33: continue;
                }
            for (int way : { POLL, WAIT0, WAITT, WAIT })
            {
                if (!mc::begin("%s %d found by %s", how ? "signal" : "exit code", code, names[way])) continue;
                Actor a;
                a.c.reset(new Puppet);
                a.how = how;
                a.code = code;
                for (int o : { (int)START, (int)EXIT, way, (int)WAIT, (int)WAITT, (int)POLL }) if (!step(a, o)) break;
                string want = how ? mc::fmt("was interrupted, killed by signal %d", code) : code ? mc::fmt("exited with code %d", code) : "terminated successfully";
                string got = Child::format_raw_returncode(a.c->raw_returncode());
                if (got != want) mc::fail("format", "[%s] instead of [%s]", got.c_str(), want.c_str());
                a.end();
                mc::count();
                ++mc::sh->traces;
            }
        }
    for (int raw = 0; raw < 65536; ++raw)
    {
        if (raw % 256 == 0) mc::begin("formatting %x", raw);
        int sig = raw & 0x7f;
        if (sig == 0x7f || (sig && raw >> 8) || (!sig && (raw & 0x80))) continue;   // not of a process that has ended
        string want = sig ? mc::fmt("was interrupted, killed by signal %d", sig) + (raw & 0x80 ? " (core dumped)" : "")
                          : raw ? mc::fmt("exited with code %d", raw >> 8) : "terminated successfully";
        string got = Child::format_raw_returncode(raw);
        mc::count();
        if (got != want) mc::fail("format", "%x is [%s] instead of [%s]", raw, got.c_str(), want.c_str());
    }
}

// ---- all points at which something happens during wait(msecs)

struct Event { int what; unsigned point; bool fired; };   // 0: A ends, 1: B ends, 2: SIGUSR1
struct Sched
{
    vector<Event> ev;
    unsigned point = 0;
    Actor* a[2];
    long a_ended_at = -1;
} *sched = nullptr;

void fire(Event& e)
{
    e.fired = true;
    if (e.what == 2) { raise(SIGUSR1); arrived = SIGUSR1; return; }
    Actor& x = *sched->a[e.what];
    x.c->tell(x.how, x.code);
    ended(x.pid);
    x.m.state = Model::ZOMBIE;
    x.m.raw = x.how ? x.code : x.code << 8;
    if (e.what == 0) sched->a_ended_at = virtual_ns;
    // SIGCHLD is delivered before the child can be waited for
    arrived = SIGCHLD;
}

void on_point(Point)
{
    Sched* s = sched;
    if (!s) return;
    hook = nullptr;
    for (auto& e : s->ev) if (!e.fired && e.point == s->point) fire(e);
    ++s->point;
    hook = on_point;
}

void nothing(int) {}

void schedules(int ms)
{
    few_files();
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = nothing;
    sigaction(SIGUSR1, &sa, nullptr);
    const unsigned POINTS = mc::thorough ? 16 : 11;
    // Every combination of points for the three events, or never
    for (unsigned pa = 0; pa <= POINTS; ++pa)
        for (unsigned pb = 0; pb <= POINTS; ++pb)
            for (unsigned pu = 0; pu <= POINTS; ++pu)
            {
                if (!mc::begin("wait(%d): A ends at point %u, B at %u, a signal comes at %u (%u: never)", ms, pa, pb, pu, POINTS)) continue;
                Actor a[2];
                for (int i = 0; i < 2; ++i)
                {
                    a[i].c.reset(new Puppet);
                    a[i].code = 7 + i;
                    if (!step(a[i], START)) return;
                }
                Sched s;
                s.a[0] = &a[0];
                s.a[1] = &a[1];
                s.ev = { { 0, pa, pa == POINTS }, { 1, pb, pb == POINTS }, { 2, pu, pu == POINTS } };
                sched = &s;
                virtual_ns = 0;
                armed = true;
                struct sigaction old, now;
                sigaction(SIGCHLD, nullptr, &old);
                struct timespec t0, t1;
                clock_gettime(CLOCK_MONOTONIC, &t0);
                hook = on_point;
                bool res = false, threw = false;
                try { res = a[0].c->wait(ms); } catch (std::exception& e) { threw = true; mc::fail("wait-threw", "%s", e.what()); }
                hook = nullptr;
                sched = nullptr;
                clock_gettime(CLOCK_MONOTONIC, &t1);
                sigaction(SIGCHLD, nullptr, &now);
                double took = virtual_ns / 1e6, real = (t1.tv_sec - t0.tv_sec) * 1e3 + (t1.tv_nsec - t0.tv_nsec) / 1e6;
                ++mc::sh->transitions;
                bool gone = a[0].m.state == Model::ZOMBIE;
                if (!threw)
                {
                    if (res && !gone) mc::fail("wait-early", "says that a running child has ended");
                    if (!res && gone && s.a_ended_at >= 0 && s.a_ended_at < ms * 1000000L && ms > 0)
                        mc::fail("wait-missed", "did not see the child that ended after %.1f of %d ms", s.a_ended_at / 1e6, ms);
                    if (!res && took + real < ms - 0.5) mc::fail("wait-short", "gave up after %.1f of %d ms", took, ms);
                    if (took > ms + 0.5) mc::fail("wait-long", "slept %.1f ms instead of %d", took, ms);
                    if (res && a[0].c->returncode() != 7) mc::fail("wait-code", "return code is %d", a[0].c->returncode());
                    if (res != a[0].c->terminated()) mc::fail("terminated", "terminated is %d after wait said %d", a[0].c->terminated(), res);
                    if (res) a[0].m.state = Model::REAPED;
                }
                if (old.sa_handler != now.sa_handler) mc::fail("handler", "the SIGCHLD handler was not put back");
                // The other child is not affected
                if (a[1].m.state == Model::ZOMBIE) step(a[1], WAIT);
                else if (a[1].c->poll()) mc::fail("other", "the other child is said to have ended");
                if (gone && !res) step(a[0], POLL);
                a[0].end();
                a[1].end();
                if (has_children()) mc::fail("left-behind", "a child is left behind");
                mc::count();
                ++mc::sh->traces;
                ++mc::sh->states;
            }
    mc::sample("wait(%d): %u^3 placements of three events", ms, POINTS + 1);
}

// ---- starting programs

const char* const helper_source = R"X(
#include <sys/auxv.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char** environ;
int main(int argc, char** argv)
{
    struct stat st[64]; int ok[64], fl[64];
    for (int i = 0; i < 64; ++i) { ok[i] = fstat(i, &st[i]) == 0; fl[i] = ok[i] ? fcntl(i, F_GETFL) : 0; }
    const char* me = (const char*)getauxval(AT_EXECFN);
    char path[4096];
    snprintf(path, 4096, "%s.mode", me);
    if (access(path, F_OK) == 0)
    {
        unsigned char buf[7000]; long n;
        while ((n = read(0, buf, sizeof(buf))) > 0)
            for (int fd = 1; fd <= 2; ++fd)
            {
                if (fd == 2) for (long i = 0; i < n; ++i) buf[i] ^= 0x5a;
                for (long p = 0; p < n; ) { long w = write(fd, buf + p, n - p); if (w <= 0) return 9; p += w; }
            }
        return 0;
    }
    snprintf(path, 4096, "%s.out", me);
    FILE* f = fopen(path, "w");
    fprintf(f, "%d\n", argc);
    for (int i = 0; i < argc; ++i) { fprintf(f, "%zu\n", strlen(argv[i])); fwrite(argv[i], 1, strlen(argv[i]), f); }
    int n = 0; while (environ[n]) ++n;
    fprintf(f, "%d\n", n);
    for (int i = 0; i < n; ++i) { fprintf(f, "%zu\n", strlen(environ[i])); fwrite(environ[i], 1, strlen(environ[i]), f); }
    char cwd[4096]; if (!getcwd(cwd, 4096)) strcpy(cwd, "?");
    fprintf(f, "%zu\n%s%d %d\n", strlen(cwd), cwd, (int)getsid(0) == (int)getpid(), (int)getpid());
    for (int i = 0; i < 64; ++i) if (ok[i]) fprintf(f, "%d %lu %lu %lu %d\n", i, (unsigned long)st[i].st_dev, (unsigned long)st[i].st_ino, (unsigned long)st[i].st_rdev, fl[i] & O_ACCMODE);
    fclose(f);
    return 33;
}
)X";

struct FD { unsigned long dev, ino, rdev; int mode; bool operator==(const FD& o) const { return dev == o.dev && ino == o.ino && rdev == o.rdev; } };
FD fd_of(int fd)
{
    struct stat st;
    if (fstat(fd, &st)) return { 0, 0, 0, -1 };
    return { st.st_dev, st.st_ino, st.st_rdev, fcntl(fd, F_GETFL) & O_ACCMODE };
}

struct Dump
{
    bool ran = false;
    vector<string> args, env;
    string cwd;
    bool leader = false;
    int pid = 0;
    std::map<int, FD> fds;
};

string helper;

void compile_helper()
{
    mc::write_file(mc::work + "/helper.c", helper_source);
    helper = mc::work + "/helper";
    string base = "gcc -O1 -w ", rest = helper + " " + mc::work + "/helper.c >/dev/null 2>&1";
    if (system((base + "-static -o " + rest).c_str()) != 0 && system((base + "-o " + rest).c_str()) != 0)
        mc::fail("helper", "cannot compile the helper program");
}

Dump read_dump()
{
    Dump d;
    string path = helper + ".out";
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return d;
    auto str = [&] {
        size_t n = 0;
        if (fscanf(f, "%zu", &n) != 1) return string("?");
        fgetc(f);
        string s(n, 0);
        if (fread(&s[0], 1, n, f) != n) s = "?";
        return s;
    };
    int n = 0;
    if (fscanf(f, "%d", &n) == 1) for (int i = 0; i < n; ++i) d.args.push_back(str());
    if (fscanf(f, "%d", &n) == 1) for (int i = 0; i < n; ++i) d.env.push_back(str());
    d.cwd = str();
    int leader = 0;
    d.ran = fscanf(f, "%d %d", &leader, &d.pid) == 2;
    d.leader = leader;
    int i;
    FD fd;
    while (fscanf(f, "%d %lu %lu %lu %d", &i, &fd.dev, &fd.ino, &fd.rdev, &fd.mode) == 5) d.fds[i] = fd;
    fclose(f);
    unlink(path.c_str());
    return d;
}

/// Run a program that is expected to be the helper, quietly
Dump run(Popen& p)
{
    unlink((helper + ".out").c_str());
    p.fork();
    int rc = p.wait();
    Dump d = read_dump();
    if (d.ran && rc != 33) mc::fail("exit-code", "exit code %d instead of 33", rc);
    if (d.ran && d.pid != p.pid()) mc::fail("pid", "pid is %d instead of %d", p.pid(), d.pid);
    if (!d.ran && (rc == 0 || rc == 33)) mc::fail("silent-failure", "the program did not run, but return code is %d", rc);
    ++mc::sh->transitions;
    return d;
}

string show(const vector<string>& v)
{
    string s;
    for (auto& a : v) s += "[" + mc::show(a.substr(0, 60)) + "]";
    return s;
}

void arguments()
{
    few_files();
    compile_helper();
    const vector<string> pool = { "", "a", "a b", "\"'$`\\*", "-x=1", "\n\t", "\xc3\xa8\xff", string(5000, 'y') };
    for (unsigned n = 0; n <= (mc::thorough ? 4u : 3u); ++n)
        mc::all_sequences(n, pool.size(), [&](const vector<unsigned>& s) {
            for (int way = 0; way < 2; ++way)
            {
                Popen p({});
                p.args.push_back(way ? "name" : helper);
                for (auto i : s) p.args.push_back(pool[i]);
                if (way) p.executable = helper;
                if (!mc::begin("arguments %s", show(p.args).c_str())) continue;
                Dump d = run(p);
                mc::count();
                ++mc::sh->traces;
                if (!d.ran) mc::fail("not-run", "the program did not run");
                else if (d.args != p.args) mc::fail("arguments", "got %s", show(d.args).c_str());
            }
        });
}

void environments()
{
    few_files();
    compile_helper();
    ::setenv("MC_PARENT", "old value", 1);
    ::setenv("MC", "x", 1);
    // Operations on the environment, with keys that are prefixes of others
    const char* const keys[] = { "MC_PARENT", "MC", "MC_P", "NEW" };
    const char* const values[] = { "1", "", "a=b c" };
    const unsigned NOP = 1 + 4 * 3;
    for (unsigned n = 0; n <= (mc::thorough ? 4u : 3u); ++n)
        mc::all_sequences(n, NOP, [&](const vector<unsigned>& s) {
            for (int direct = 0; direct < (n < 2 ? 2 : 1); ++direct)
            {
                Popen p({ helper });
                if (direct) p.env = { "MC=first", "EMPTY=", "MCX=2", "MC_PARENT=z" };
                string t;
                for (auto o : s) t += o == 0 ? " copy" : mc::fmt(" %s=%s", keys[(o - 1) / 3], values[(o - 1) % 3]);
                if (!mc::begin("environment%s:%s", direct ? " of 4" : "", t.c_str())) continue;
                // Only a first copy keeps the meaning of variables set before
                // or after it well defined
                std::map<string, string> want;
                auto add = [&](const string& e) { size_t q = e.find('='); want.insert({ e.substr(0, q), e.substr(q + 1) }); };
                for (auto& e : p.env) add(e);
                bool defined = true, any = direct;
                for (unsigned i = 0; i < n; ++i)
                {
                    if (s[i] == 0)
                    {
                        if (i || direct) defined = false;
                        for (char** e = environ; *e; ++e) add(*e);
                        p.copy_env_from_parent();
                    } else {
                        want[keys[(s[i] - 1) / 3]] = values[(s[i] - 1) % 3];
                        p.setenv(keys[(s[i] - 1) / 3], values[(s[i] - 1) % 3]);
                    }
                    any = true;
                }
                if (!defined) continue;
                if (!any) for (char** e = environ; *e; ++e) add(*e);
                Dump d = run(p);
                mc::count(any);
                ++mc::sh->traces;
                if (!d.ran) { mc::fail("not-run", "the program did not run"); continue; }
                std::map<string, string> got;
                for (auto& e : d.env)
                {
                    size_t q = e.find('=');
                    if (!got.insert({ e.substr(0, q), e.substr(q + 1) }).second) mc::fail("env-duplicate", "[%s] is there twice", mc::show(e).c_str());
                }
                if (got != want)
                {
                    string diff;
                    for (auto& e : got) if (!want.count(e.first) || want[e.first] != e.second) diff += " has " + e.first + "=" + e.second;
                    for (auto& e : want) if (!got.count(e.first)) diff += " lacks " + e.first;
                    mc::fail("environment", "%s", mc::show(diff.substr(0, 300)).c_str());
                }
            }
        });
}

/// Which streams are redirected to what
void redirections(int mask)
{
    few_files();
    compile_helper();
    string fa = mc::work + "/a", fb = mc::work + "/b", fc = mc::work + "/c";
    for (auto& f : { fa, fb, fc }) mc::write_file(f, f);
    enum Kind { UNCHANGED, PIPE, DEVNULL, FILE_OWN, FILE_SHARED, STD0, STD1, STD2, TO_STDOUT };
    const char* const kinds[] = { "unchanged", "pipe", "/dev/null", "its file", "shared file", "fd 0", "fd 1", "fd 2", "stdout" };
    const vector<Kind> ins = { UNCHANGED, PIPE, DEVNULL, FILE_OWN, FILE_SHARED, STD0, STD2 };
    const vector<Kind> outs = { UNCHANGED, PIPE, DEVNULL, FILE_OWN, FILE_SHARED, STD0, STD1, STD2 };
    const vector<Kind> errs = { UNCHANGED, PIPE, DEVNULL, FILE_OWN, FILE_SHARED, STD1, STD2, TO_STDOUT };
    // Standard streams of the parent that can be told apart
    int save[3], std_files[3], out_files[4];
    for (int i = 0; i < 3; ++i)
    {
        string f = mc::work + mc::fmt("/std%d", i);
        mc::write_file(f, "");
        std_files[i] = open(f.c_str(), O_RDWR | O_CLOEXEC);
        std_files[i] = fcntl(std_files[i], F_DUPFD_CLOEXEC, 40);
        save[i] = fcntl(i, F_DUPFD_CLOEXEC, 50);
    }
    for (Kind in : ins)
        for (Kind out : outs)
            for (Kind err : errs)
                for (bool close_fds : { true, false })
                {
                    if (!mc::begin("parent's streams closed: %d; stdin %s, stdout %s, stderr %s%s", mask, kinds[in], kinds[out], kinds[err], close_fds ? "" : ", keep others")) continue;
                    out_files[0] = open(fa.c_str(), O_RDWR);
                    out_files[1] = open(fb.c_str(), O_RDWR);
                    out_files[2] = open(fc.c_str(), O_RDWR);
                    out_files[3] = open(fa.c_str(), O_RDWR);
                    for (int i = 0; i < 4; ++i) { int n = fcntl(out_files[i], F_DUPFD, 30); ::close(out_files[i]); out_files[i] = n; }
                    for (int i = 0; i < 3; ++i) { if (mask >> i & 1) ::close(i); else dup2(std_files[i], i); }
                    auto before = open_fds();
                    FD parent_fd[3] = { fd_of(0), fd_of(1), fd_of(2) };
                    Dump d;
                    FD want[3], ends[3];
                    bool possible = true, threw = false;
                    string problem;
                    {
                        Popen p({ helper });
                        p.close_fds = close_fds;
                        Kind k[3] = { in, out, err };
                        for (int i = 0; i < 3; ++i)
                        {
                            auto set_r = [&](Redirect r) { if (i == 0) p.set_stdin(r); else if (i == 1) p.set_stdout(r); else p.set_stderr(r); };
                            auto set_f = [&](int f) { if (i == 0) p.set_stdin(f); else if (i == 1) p.set_stdout(f); else p.set_stderr(f); };
                            switch (k[i])
                            {
                                case UNCHANGED: want[i] = parent_fd[i]; break;
                                case PIPE: set_r(Redirect::PIPE); break;
                                case DEVNULL: set_r(Redirect::DEVNULL); { struct stat st; stat("/dev/null", &st); want[i] = { st.st_dev, st.st_ino, st.st_rdev, O_RDWR }; } break;
                                case FILE_OWN: set_f(out_files[i]); want[i] = fd_of(out_files[i]); break;
                                case FILE_SHARED: set_f(out_files[3]); want[i] = fd_of(out_files[3]); break;
                                case TO_STDOUT: set_r(Redirect::STDOUT); want[i] = want[1]; break;
                                default: {
                                    int n = k[i] - STD0;
                                    set_f(n);
                                    want[i] = parent_fd[n];
                                    if (mask >> n & 1) possible = false;
                                }
                            }
                        }
                        unlink((helper + ".out").c_str());
                        int rc = -1;
                        try {
                            p.fork();
                            int gets[3] = { p.get_stdin(), p.get_stdout(), p.get_stderr() };
                            for (int i = 0; i < 3; ++i)
                            {
                                ends[i] = fd_of(gets[i]);
                                if (k[i] == PIPE)
                                {
                                    want[i] = ends[i];
                                    if (ends[i].mode != (i == 0 ? O_WRONLY : O_RDONLY)) problem = mc::fmt("wrong end of pipe for stream %d", i);
                                    want[i].mode = i == 0 ? O_RDONLY : O_WRONLY;
                                }
                                else if (gets[i] != -1) problem = mc::fmt("stream %d has a pipe", i);
                            }
                            if (err == TO_STDOUT) want[2] = want[1];
                            rc = p.wait();
                        } catch (std::exception& e) { threw = true; problem = e.what(); }
                        if (err == TO_STDOUT && out == UNCHANGED && (mask & 2)) possible = false;
                        // Restore before anything is opened
                        for (int i = 0; i < 3; ++i) dup2(save[i], i);
                        d = read_dump();
                        if (possible && !threw && rc != 33) problem += mc::fmt(" exit code %d", rc);
                        // A pipe may get the number of a closed stream
                        bool pipes = in == PIPE || out == PIPE || err == PIPE;
                        if (!possible && !pipes && !threw && rc == 33) problem += " did not fail";
                        for (int i = 0; i < 3; ++i) { if (mask >> i & 1) ::close(i); else dup2(std_files[i], i); }
                    }
                    auto after = open_fds();
                    for (int i = 0; i < 3; ++i) dup2(save[i], i);
                    for (int i = 0; i < 4; ++i) ::close(out_files[i]);
                    if (!problem.empty()) mc::fail("redirection", "%s", problem.c_str());
                    if (after != before) mc::fail("open-files", "file descriptors of the parent were left open or closed");
                    if (possible && d.ran)
                    {
                        for (int i = 0; i < 3; ++i)
                        {
                            bool open = d.fds.count(i), w = want[i].mode != -1;
                            if (open != w) mc::fail("redirection", "stream %d is %s", i, open ? "open" : "closed");
                            else if (w && !(d.fds[i] == want[i])) mc::fail("redirection", "stream %d goes elsewhere", i);
                            else if (w && d.fds[i].mode != want[i].mode) mc::fail("redirection", "stream %d has access mode %d instead of %d", i, d.fds[i].mode, want[i].mode);
                        }
                        for (auto& f : d.fds)
                        {
                            if (f.first < 3) continue;
                            if (close_fds) mc::fail("close-fds", "file descriptor %d is open", f.first);
                            for (int i = 0; i < 3; ++i)
                                if ((i == 0 ? in : i == 1 ? out : err) == PIPE && f.second == ends[i]) mc::fail("pipe-ends", "file descriptor %d is the pipe of stream %d", f.first, i);
                        }
                    }
                    mc::count(in || out || err);
                    ++mc::sh->traces;
                    ++mc::sh->transitions;
                }
}

/// File descriptors that are passed and closed, directory, session
void surroundings()
{
    few_files();
    compile_helper();
    mc::make_dirs(mc::work + "/dir with space");
    for (int pass = 0; pass < 16; ++pass)
        for (bool close_fds : { true, false })
        {
            if (!mc::begin("pass %d%s", pass, close_fds ? "" : ", do not close")) continue;
            vector<int> fds;
            const int at[] = { 3, 10, 62, 63 };
            std::set<int> was = open_fds();
            for (int i = 0; i < 4; ++i)
            {
                int f = open("/dev/null", O_RDONLY);
                int n = fcntl(f, F_DUPFD, at[i]);
                if (n != f) ::close(f);
                fds.push_back(n);
            }
            Popen p({ helper });
            p.close_fds = close_fds;
            for (int i = 0; i < 4; ++i) if (pass >> i & 1) p.pass_fds.push_back(fds[i]);
            Dump d = run(p);
            for (int i = 0; i < 4; ++i)
            {
                bool want = pass ? (pass >> i & 1) : !close_fds;
                if (d.ran && (d.fds.count(fds[i]) > 0) != want) mc::fail("pass-fds", "file descriptor %d is %s", fds[i], want ? "closed" : "open");
            }
            if (!d.ran) mc::fail("not-run", "the program did not run");
            for (auto f : fds) ::close(f);
            if (open_fds() != was) mc::fail("open-files", "file descriptors of the parent were left open or closed");
            mc::count();
            ++mc::sh->traces;
        }
    char here[4096];
    if (!getcwd(here, 4096)) return;
    const struct { string cwd, want; } dirs[] = { { "", here }, { "/", "/" }, { mc::work, mc::work }, { mc::work + "/dir with space", mc::work + "/dir with space" }, { ".", here },
                                                  { mc::work + "/missing", "" }, { helper, "" } };
    for (auto& c : dirs)
        for (bool session : { false, true })
        {
            if (!mc::begin("directory %s%s", c.cwd.c_str(), session ? ", new session" : "")) continue;
            Popen p({ helper });
            p.cwd = c.cwd;
            p.start_new_session = session;
            p.set_stderr(Redirect::PIPE);
            Dump d = run(p);
            if (d.ran != !c.want.empty()) mc::fail("directory", "the program %s", d.ran ? "ran elsewhere" : "did not run");
            if (d.ran && d.cwd != c.want) mc::fail("directory", "ran in [%s]", d.cwd.c_str());
            if (d.ran && d.leader != session) mc::fail("session", "session leader: %d", d.leader);
            if (!d.ran)
            {
                char buf[200];
                if (read(p.get_stderr(), buf, 200) <= 0) mc::fail("silent-failure", "no error message");
            }
            char now[4096];
            if (!getcwd(now, 4096) || string(now) != here) mc::fail("directory", "the parent moved to [%s]", now);
            mc::count();
            ++mc::sh->traces;
        }
    // Programs that cannot run
    mc::write_file(mc::work + "/noexec", "x");
    mc::write_file(mc::work + "/badint", "#!/nonexistent/interpreter\n");
    chmod((mc::work + "/noexec").c_str(), 0644);
    chmod((mc::work + "/badint").c_str(), 0755);
    for (auto exe : { mc::work + "/missing", mc::work + "/noexec", mc::work + "/badint", mc::work, string("no-such-command"), mc::work + "/helper.c/x" })
        for (int way = 0; way < 3; ++way)
        {
            if (!mc::begin("program %s, way %d", exe.c_str(), way)) continue;
            Popen p({ way ? "x" : exe });
            if (way) p.executable = exe;
            if (way == 2) p.env = { "PATH=/nowhere" };
            p.set_stderr(Redirect::PIPE);
            p.fork();
            int rc = p.wait();
            if (rc == 0) mc::fail("silent-failure", "return code is 0");
            char buf[200];
            if (read(p.get_stderr(), buf, 200) <= 0) mc::fail("silent-failure", "no error message");
            mc::count();
            ++mc::sh->traces;
        }
    if (has_children()) mc::fail("left-behind", "a child is left behind");
}

/// Failing system calls while starting
void start_failures()
{
    few_files();
    compile_helper();
    for (int pipes = 0; pipes < 8; ++pipes)
        for (int room = 0; room <= 7; ++room)       // 7: enough, but fork fails
            for (int times = 1; times <= 2; ++times)
            {
                if (!mc::begin("pipes %d, room for %d more files, tried %d times", pipes, room, times)) continue;
                int need = 2 * __builtin_popcount(pipes);
                bool want = room < need || room == 7;
                auto before = open_fds();
                vector<int> fill;
                {
                    Popen p({ helper });
                    if (pipes & 1) p.set_stdin(Redirect::PIPE);
                    if (pipes & 2) p.set_stdout(Redirect::PIPE);
                    if (pipes & 4) p.set_stderr(Redirect::PIPE);
                    for (int i = 0; i < times; ++i)
                    {
                        int f;
                        if (room < 7)
                        {
                            while ((f = open("/dev/null", O_RDONLY | O_CLOEXEC)) != -1) fill.push_back(f);
                            for (int r = 0; r < room && !fill.empty(); ++r) { ::close(fill.back()); fill.pop_back(); }
                        }
                        else fail_fork = true;
                        bool threw = false;
                        try { p.fork(); } catch (std::system_error&) { threw = true; }
                        fail_fork = false;
                        for (auto x : fill) ::close(x);
                        fill.clear();
                        if (threw != want) { mc::fail("start-failure", "%s", threw ? "failed" : "did not fail"); break; }
                        if (threw && (p.started() || p.pid())) mc::fail("start-failure", "says that it has started");
                        if (!threw) { p.wait(); break; }
                        if (open_fds() != before) mc::fail("open-files", "file descriptors are open after a failed start");
                    }
                    // It can still be started
                    if (want)
                    {
                        Dump d = run(p);
                        if (!d.ran) mc::fail("restart", "cannot be started after a failure");
                    }
                }
                unlink((helper + ".out").c_str());
                if (open_fds() != before) mc::fail("open-files", "file descriptors were left open or closed");
                if (has_children()) mc::fail("left-behind", "a child is left behind");
                mc::count(want);
                ++mc::sh->traces;
            }
}

/// Data through pipes
void data()
{
    few_files();
    compile_helper();
    mc::write_file(helper + ".mode", "");
    signal(SIGPIPE, SIG_IGN);
    for (size_t n : { (size_t)0, (size_t)1, (size_t)255, (size_t)256, (size_t)4095, (size_t)4096, (size_t)4097, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)300000 })
        for (int chunk : { 1 << 20, 4096, 333 })
            for (int errto = 0; errto < 3; ++errto)
            {
                if (!mc::begin("%zu bytes in chunks of %d, stderr %d", n, chunk, errto)) continue;
                string in(n, 0);
                for (size_t i = 0; i < n; ++i) in[i] = (char)(i * 7 + i / 256);
                auto before = open_fds();
                {
                    Popen p({ helper });
                    p.set_stdin(Redirect::PIPE);
                    p.set_stdout(Redirect::PIPE);
                    p.set_stderr(errto == 0 ? Redirect::PIPE : errto == 1 ? Redirect::DEVNULL : Redirect::STDOUT);
                    p.fork();
                    fcntl(p.get_stdin(), F_SETFL, O_NONBLOCK);
                    string out, err;
                    size_t pos = 0;
                    int fo = p.get_stdout(), fe = p.get_stderr();
                    if (n == 0) p.close_stdin();
                    while (fo != -1 || fe != -1)
                    {
                        struct pollfd pf[3] = { { pos < n ? p.get_stdin() : -1, POLLOUT, 0 }, { fo, POLLIN, 0 }, { fe, POLLIN, 0 } };
                        if (::poll(pf, 3, 20000) <= 0) { mc::fail("data-stuck", "nothing more comes after %zu bytes written", pos); p.kill(); break; }
                        if (pf[0].revents)
                        {
                            ssize_t w = ::write(p.get_stdin(), &in[pos], std::min((size_t)chunk, n - pos));
                            if (w > 0) pos += w; else if (errno != EAGAIN) { mc::fail("data-write", "write failed"); pos = n; }
                            if (pos == n) p.close_stdin();
                        }
                        char buf[5000];
                        for (int i = 1; i < 3; ++i)
                            if (pf[i].revents)
                            {
                                ssize_t r = ::read(pf[i].fd, buf, sizeof(buf));
                                if (r > 0) (i == 1 ? out : err).append(buf, r); else (i == 1 ? fo : fe) = -1;
                            }
                    }
                    if (errto == 2)
                    {
                        // Both in one stream, in blocks as the helper reads them
                        if (out.size() != 2 * n) mc::fail("data", "%zu bytes instead of %zu", out.size(), 2 * n);
                    }
                    else if (out != in) mc::fail("data", "%zu bytes came back changed", n);
                    if (errto == 0)
                    {
                        string x = in;
                        for (auto& c : x) c ^= 0x5a;
                        if (err != x) mc::fail("data", "%zu bytes came back changed from stderr", n);
                    }
                    may_kill.insert(p.pid());
                    int rc = p.wait();
                    may_kill.clear();
                    if (rc != 0) mc::fail("exit-code", "return code is %d", rc);
                    if (n % 2) { p.close_stdout(); if (errto == 0) p.close_stderr(); }
                }
                if (open_fds() != before) mc::fail("open-files", "file descriptors were left open or closed");
                mc::count(n);
                ++mc::sh->traces;
            }
}

}

MC_GROUP(history0) { histories(0, 6); }
MC_GROUP(history1) { histories(1, 6); }
MC_GROUP(history2) { histories(2, 6); }
MC_GROUP(history3) { histories(3, 6); }
MC_GROUP(history4) { histories(4, 6); }
MC_GROUP(history5) { histories(5, 6); }
MC_GROUP(two0) { two(0, 2); }
MC_GROUP(two1) { two(1, 2); }
MC_GROUP(codes) { codes(); }
MC_GROUP(schedule0) { schedules(0); }
MC_GROUP(schedule1) { schedules(1); }
MC_GROUP(schedule50) { schedules(50); }
MC_GROUP(schedule2500) { schedules(2500); }
MC_GROUP(arguments) { arguments(); }
MC_GROUP(environments) { environments(); }
MC_GROUP(surroundings) { surroundings(); }
MC_GROUP(start_failures) { start_failures(); }
MC_GROUP(data) { data(); }
MC_GROUP(redirect0) { redirections(0); }
MC_GROUP(redirect1) { redirections(1); }
MC_GROUP(redirect2) { redirections(2); }
MC_GROUP(redirect3) { redirections(3); }
MC_GROUP(redirect4) { redirections(4); }
MC_GROUP(redirect5) { redirections(5); }
MC_GROUP(redirect6) { redirections(6); }
MC_GROUP(redirect7) { redirections(7); }
