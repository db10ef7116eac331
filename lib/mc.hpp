// Runtime of the bounded model checkers in /verif/checks.
//
// A checker registers groups. Each group enumerates a finite space completely
// and runs in its own forked process, so that a crash or a hang of the code
// under test is attributed to the case that was running and does not hide the
// other groups. Counters live in shared memory.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace mc {

struct Shared
{
    char cur[4096];          // case being executed
    uint64_t evaluations;    // cases executed on the implementation
    uint64_t nontrivial;     // distinct non-trivial ones
    uint64_t states;         // model states reached
    uint64_t transitions;    // model transitions explored
    uint64_t traces;         // model traces replayed on the implementation
    uint64_t violations;     // all violating observations
    uint64_t case_no;        // number of cases announced by this process
    uint64_t skip_to;        // cases not to run again after a crash
};

extern Shared* sh;
extern bool thorough;
extern long seed;
extern std::string work;     // scratch directory, private to the running group
extern std::string only_case;

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

/// Announce the case about to run (false: not selected by --case)
bool begin(const char* f, ...) __attribute__((format(printf, 1, 2)));

/// Record a violation. key identifies what fails, and is matched with the
/// known findings; detail says what was seen.
void fail(const std::string& key, const char* f, ...) __attribute__((format(printf, 2, 3)));

/// Record one actual case for the evidence (the first few are kept)
void sample(const char* f, ...) __attribute__((format(printf, 1, 2)));

inline void count(bool nontrivial = true)
{
    ++sh->evaluations;
    if (nontrivial) ++sh->nontrivial;
}

/// Run fn in a child process. Returns its exit code (0..255), or 1000+signal,
/// or 2000 when it used more than cpu_s seconds of CPU or wall_s of wall time.
/// Sanitizer reports end the child with code 99. Output of the child goes to
/// log (if not null).
int isolated(const std::function<int()>& fn, int cpu_s = 20, int wall_s = 120, std::string* log = nullptr);
/// Text for an isolated() result
std::string outcome(int rc);

typedef void (*group_fn)();
struct Reg { Reg(const char* name, group_fn fn); };

void write_file(const std::string& path, const std::string& data);
std::string read_file(const std::string& path);
void make_dirs(const std::string& path);
/// Remove a scratch tree below mc::work
void clean(const std::string& path);

/// If not empty, the code under test can open files for writing (with fopen)
/// only below it; others are refused and listed in written_elsewhere
extern std::string write_root;
extern std::vector<std::string> written_elsewhere;

} // namespace mc

#define MC_GROUP(name) \
    static void mc_group_##name(); \
    static mc::Reg mc_reg_##name(#name, mc_group_##name); \
    static void mc_group_##name()
