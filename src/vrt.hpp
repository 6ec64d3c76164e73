// Controlled scheduler. Code compiled with -fsanitize=thread calls the __tsan_* hooks that vrt.cpp
// defines (libtsan itself is not linked): every memory access of the code under test becomes a point
// at which the generated schedule may switch threads, suspend one, or cut the power.
#pragma once
#include "engine.hpp"
#include <functional>
#include <vector>
#include <string>

namespace vrt
{
enum Kind { K_LOAD = 0, K_RMW = 1, K_PLAIN = 2, K_FLUSH = 3, K_SYS = 4, K_LOCK = 5 };

struct Cfg
{
    bool real_threads = false; // OS threads passing a token (needed for thread-local state) or fibers
    bool end_threads = false;  // OS threads end for good at the end of the run, in their order
    unsigned kinds = 1u << K_LOAD | 1u << K_RMW | 1u << K_FLUSH | 1u << K_SYS | 1u << K_LOCK; // kinds at which a switch may happen
    uint64_t gapmax = 64;      // upper bound of the number of points between two switches
    unsigned geo = 0;          // 0: uniform gaps, else mixture favouring short gaps
    int stall_thread = -1;     // suspended after its stall_at-th point ...
    uint64_t stall_at = 0;
    uint64_t stall_len = ~0ull; // ... until this many points of the others (~0: until all others are done)
    bool stall_soft = false;   // code with locks: the suspended thread goes on when the others wait for it
    uint64_t crash_at = 0;     // power failure at this point (0: none)
    unsigned crash_kinds = ~0u; // only points of these kinds count for crash_at
    int crash_thread = -1;      // only points of this thread count for crash_at
    uint64_t fair_after = 60000; // from here on round robin
    uint64_t limit = 600000;   // give up: no termination
    bool limit_is_failure = true;
    int ndaemon = 0;           // the last bodies run in the background: the run ends without them
    uint64_t hook_at = 0;      // on_hook is called once at this point
    uint64_t tick = 0;         // virtual clocks: nanoseconds that pass at every point (0: the real clocks)
    unsigned spurious = 0;     // one in so many waits on a condition variable ends without a reason (0: none)
};
enum End { DONE, CRASHED, LIMIT, BLOCKED, DEADLOCK };
struct Result { End end; uint64_t points; uint64_t switches; int blocked_by; bool stalled; };

// random schedule parameters for n threads
Cfg gen_cfg(eng::Src &s, int n);
Result run(const Cfg &c, const std::vector<std::function<void()>> &bodies, eng::Src &s);

int self();           // index of the running controlled thread, -1 outside
bool active();
uint64_t stamp();     // next logical time stamp
void point(Kind k);   // explicit scheduling point
void yield_blocked(); // the running thread cannot proceed: let others run
void forever_blocked_check();
uint64_t points();    // number of points so far
int64_t now_ns(int clock); // virtual time of CLOCK_REALTIME or CLOCK_MONOTONIC
// invoked at the moment of the simulated power failure (on the failing thread); may not return
extern void (*on_crash)();
extern void (*on_hook)();
extern void (*on_sleep)(); // called when the running thread goes to sleep (usleep)
// Threads that the code under test starts itself are recorded (while this is set) and run as bodies.
extern bool adopt_threads;
std::vector<std::function<void()>> take_adopted();
extern void (*on_join)(); // called when the code under test joins a recorded thread that has not been run yet
// called before every instrumented write to memory / on reads (may be null)
extern void (*on_write)(void *addr, size_t n);
// ranges whose plain accesses never count as points (e.g. harness data)
void set_plain_filter(bool (*shared)(const void *));
// run with all hooks passive
struct Pause { Pause(); ~Pause(); };
}
