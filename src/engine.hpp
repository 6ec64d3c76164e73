// Property-based testing engine: choice sequences, forked isolation, shrinking, replay, evidence.
// A case is a pure function of (code under test, choice sequence); every random decision (inputs,
// schedules, crash points, faults) is drawn from Src.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <cstdarg>

namespace eng
{
constexpr size_t MAXCH = 1 << 16;
constexpr size_t MAXSPAN = 1 << 14;

// Shared (MAP_SHARED) state of the case being run, so that it survives crashes of forked children.
struct CaseShm
{
    uint64_t rng;
    uint32_t nch;      // choices recorded so far
    uint32_t nreplay;  // length of the replayed prefix (when replaying)
    uint32_t replaying;
    uint32_t nspan;
    uint64_t ch[MAXCH];
    struct Span { uint32_t a, b; } span[MAXSPAN];
    // outcome
    uint32_t failed;
    uint32_t inconclusive;
    char sig[128];
    char msg[16384];
    uint32_t nontrivial;
    uint64_t labels;   // bit set of labels seen in this case
    char desc[8192];   // human-readable description of the case
    uint32_t desclen;
    uint32_t overflow;
};
extern CaseShm *shm;

uint64_t splitmix(uint64_t &s);

struct Src
{
    // Uniform in [0,n). 0 is the simplest value.
    uint64_t below(uint64_t n);
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); } // inclusive
    bool chance(uint64_t num, uint64_t den); // true with probability num/den; false is simplest
    uint64_t bits64();
    // biased size: mostly small
    uint64_t small(uint64_t max);
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[below(N)]; }
    size_t weighted(std::initializer_list<unsigned> w);
    int open_span();
    void close_span(int id);
};
struct Span
{
    Src &s; int id;
    Span(Src &s) : s(s), id(s.open_span()) {}
    ~Span() { s.close_span(id); }
};

// Record a violation. Does not return when `fatal` (throws eng::Failed).
struct Failed {};
[[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// Records a violation and leaves the process at once (usable on fibers and in any context).
[[noreturn]] void fail_exit(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note_fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void desc(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool verbose();
// label: counted per case; returns quickly
int label_id(const char *name);
void label(const char *name);
void mark_nontrivial();

// Run f in a forked child; returns true if it exited normally through the end of f.
// If the child died or called fail, the failure is recorded in shm and Failed is thrown here.
// what: names the phase for crash messages.
void in_child(const char *what, const std::function<void()> &f);

using RunFn = void (*)(Src &);
struct Mode
{
    const char *prop;
    const char *name;
    RunFn run;
    uint64_t quick, thorough; // number of cases
    unsigned batch = 200;     // cases per forked child
    unsigned cpu_limit = 20;  // CPU seconds for one case before it is called non-terminating
};
struct PropInfo
{
    const char *prop;
    const char *rule;     // how cases are made; what is non-trivial
    const char *level;    // evidence level
    std::vector<const char *> assumptions;
};
void add_mode(Mode m);
void add_prop(PropInfo p);
struct RegMode { RegMode(Mode m) { add_mode(m); } };
struct RegProp { RegProp(PropInfo p) { add_prop(p); } };
// hook run at the start of each batch child (after fork)
extern void (*batch_init)();
// scratch directory of this process (created by the driver, removed at exit)
const std::string &scratch();
std::string fresh_dir(); // new empty directory below scratch, for one case
void remove_tree(const std::string &path); // only below scratch()
// shared memory allocated once (before batch children fork) and zero-initialised
void *shared_alloc(size_t n);

// environment for the harness (it restarts itself once); fill before driver_main
extern std::vector<std::pair<const char *, const char *>> extra_env;
int driver_main(int argc, char **argv);
}
