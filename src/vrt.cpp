#include "vrt.hpp"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <csignal>
#include <dlfcn.h>
#include <execinfo.h>
#include <pthread.h>
#include <semaphore>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <memory>
#include <sys/syscall.h>

extern "C" char __executable_start, end;

namespace vrt
{
void (*on_sleep)();
void (*on_crash)() = nullptr;
void (*on_hook)() = nullptr;
bool adopt_threads = false;
void (*on_join)() = nullptr;
struct Adopted { void *(*fn)(void *); void *arg; bool taken, done; };
static std::vector<Adopted *> adopted;
std::vector<std::function<void()>> take_adopted()
{
    std::vector<std::function<void()>> v;
    for (auto *a : adopted) if (!a->taken) { a->taken = true; v.push_back([a] { a->fn(a->arg); a->done = true; }); }
    return v;
}
void (*on_write)(void *, size_t) = nullptr;
static bool (*g_shared)(const void *) = nullptr;
void set_plain_filter(bool (*f)(const void *)) { g_shared = f; }

constexpr size_t STACK = 1 << 20;
struct EhGlobals { void *caught; unsigned int uncaught; };

struct Thr
{
    int id;
    std::function<void()> body;
    bool done = false;
    bool waiting = false;  // blocked on a lock at its last step
    uint64_t npoints = 0;
    // fiber
    void *sp = nullptr;
    char *stack = nullptr;
    EhGlobals eh{nullptr, 0};
    // real thread
    std::binary_semaphore sem{0};
    char *slo = nullptr, *shi = nullptr;
};

static struct State
{
    bool active = false;
    int pause = 0;
    Cfg cfg;
    eng::Src *src = nullptr;
    std::vector<Thr *> thr;
    int cur = -1;
    uint64_t total = 0, switches = 0, stamp = 0, crash_count = 0;
    uint64_t gap = 0;
    bool gap_inf = false;
    int stalled = -1;        // index of the suspended thread
    uint64_t stall_until = 0;
    bool stall_done = false, stall_happened = false;
    uint64_t consecutive_blocked = 0;
    void *main_sp = nullptr;
    EhGlobals main_eh{nullptr, 0};
    std::binary_semaphore main_sem{0};
    End end = DONE;
    int blocked_by = -1;
    int64_t vtime = 0;                // virtual nanoseconds since the start
    std::vector<int64_t> deadlines;   // of the threads in timed waits
} S;
constexpr int64_t REALTIME0 = 1700000000987654321ll, MONOTONIC0 = 5000123456789ll;
int64_t now_ns(int clock) { return (clock == CLOCK_REALTIME ? REALTIME0 : MONOTONIC0) + S.vtime; }
static thread_local int t_self = -1; // real-thread back end

static std::vector<char *> stack_pool;

extern "C" void vrt_switch(void **save, void *to);
asm(R"(
.text
.globl vrt_switch
.type vrt_switch,@function
vrt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vrt_switch,.-vrt_switch
)");

int self() { return S.active ? S.cur : -1; }
bool active() { return S.active; }
uint64_t stamp() { return ++S.stamp; }
uint64_t points() { return S.total; }
Pause::Pause() { ++S.pause; }
Pause::~Pause() { --S.pause; }

static EhGlobals *eh() { return (EhGlobals *)__cxxabiv1::__cxa_get_globals(); }

static void to_thread(int i)
{
    int from = S.cur;
    if (i == from) return;
    S.cur = i;
    ++S.switches;
    Thr *t = S.thr[i];
    if (S.cfg.real_threads)
    {
        t->sem.release();
        if (from >= 0 && !S.thr[from]->done) S.thr[from]->sem.acquire();
        return;
    }
    void **save; EhGlobals *se;
    if (from < 0) { save = &S.main_sp; se = &S.main_eh; }
    else { save = &S.thr[from]->sp; se = &S.thr[from]->eh; }
    *se = *eh(); *eh() = t->eh;
    vrt_switch(save, t->sp);
}
[[noreturn]] static void to_main_abandon()
{
    // The current thread is never resumed.
    int from = S.cur;
    S.active = false;
    S.cur = -1;
    if (S.cfg.real_threads)
    {
        S.main_sem.release();
        while (true) pause();
    }
    Thr *t = S.thr[from];
    t->eh = *eh(); *eh() = S.main_eh;
    vrt_switch(&t->sp, S.main_sp);
    __builtin_unreachable();
}

static void new_gap()
{
    uint64_t g = S.cfg.gapmax;
    uint64_t v;
    if (S.cfg.geo)
    {
        static const uint64_t m[4] = {2, 6, 24, 0};
        uint64_t w = m[S.src->below(4)];
        if (w) g = std::min(g, w);
    }
    v = S.src->below(g + 1);
    S.gap_inf = false;
    S.gap = v == 0 ? (S.cfg.gapmax <= 8 ? 9 : S.cfg.gapmax * 4) : g + 1 - v;
}
static bool runnable(int i) { return !S.thr[i]->done && i != S.stalled; }
static int pick_other(bool fair)
{
    int n = S.thr.size();
    int cand[64], c = 0;
    for (int k = 1; k <= n; ++k)
    {
        int i = (S.cur + k) % n;
        if (i != S.cur && runnable(i)) { cand[c++] = i; if (c == 64) break; }
    }
    if (c == 0) return -1;
    // prefer threads that are not waiting for a lock
    if (fair) return cand[0];
    return cand[S.src->below(c)];
}
static void dump_bt(int sig = 0)
{
    void *b[40];
    if (FILE *f = fopen(getenv("VRT_BT"), "a")) { backtrace_symbols_fd(b, backtrace(b, 40), fileno(f)); fclose(f); }
    if (sig) { if (getenv("VRT_PAUSE")) sleep(30); signal(sig, SIG_DFL); raise(sig); }
}
static void finish(End e)
{
    if (e != CRASHED && getenv("VRT_BT")) dump_bt(); // where the last thread is: written to that file
    S.end = e;
    to_main_abandon();
}
static void reschedule()
{
    bool fair = S.total >= S.cfg.fair_after;
    if (fair) S.gap = 97; else new_gap();
    int t = pick_other(fair);
    if (t >= 0) to_thread(t);
}
static inline void maybe_crash(Kind k)
{
    if (!S.cfg.crash_at || !(S.cfg.crash_kinds >> k & 1) || (S.cfg.crash_thread >= 0 && S.cfg.crash_thread != S.cur)) return;
    if (++S.crash_count < S.cfg.crash_at) return;
    if (on_crash) on_crash();
    finish(CRASHED);
}
void yield_blocked()
{
    if (!S.active || S.pause) return;
    ++S.total;
    ++S.consecutive_blocked;
    maybe_crash(K_LOCK);
    int t = pick_other(true);
    S.vtime += S.cfg.tick;
    if (!S.deadlines.empty() && (t < 0 || S.consecutive_blocked > 16 * S.thr.size() + 16))
    {
        // everybody waits, somebody not for ever: time passes
        S.vtime = std::max(S.vtime, *std::min_element(S.deadlines.begin(), S.deadlines.end()));
        S.consecutive_blocked = 0;
        if (t < 0) return;
    }
    if (S.stalled >= 0 && S.cfg.stall_soft && (t < 0 || S.consecutive_blocked > 16 * S.thr.size() + 16))
    {
        t = S.stalled;
        S.stalled = -1; S.stall_done = true;
        S.consecutive_blocked = 0;
    }
    if (t < 0)
    {
        if (S.stalled >= 0)
        {
            S.blocked_by = S.stalled;
            finish(BLOCKED);
        }
        finish(DEADLOCK);
    }
    if (S.consecutive_blocked > 64 * S.thr.size() + 64)
    {
        if (S.stalled >= 0) { S.blocked_by = S.stalled; finish(BLOCKED); }
        finish(DEADLOCK);
    }
    to_thread(t);
}
static inline void hit(Kind k)
{
    if (!S.active || S.pause) return;
    if (S.cfg.real_threads && t_self != S.cur) return; // a thread outside the scheduler's control
    Thr *t = S.thr[S.cur];
    ++S.total; ++t->npoints;
    S.vtime += S.cfg.tick;
    if (k != K_LOCK) S.consecutive_blocked = 0;
    maybe_crash(k);
    if (S.cfg.hook_at && S.total == S.cfg.hook_at && on_hook) { ++S.pause; on_hook(); --S.pause; }
    if (S.total >= S.cfg.limit)
    {
        if (S.stalled >= 0 && !S.cfg.stall_soft) { S.blocked_by = S.stalled; finish(BLOCKED); }
        finish(LIMIT);
    }
    if (S.stalled >= 0 && (S.total >= S.stall_until || (S.cfg.stall_soft && S.total >= S.cfg.fair_after))) { S.stalled = -1; S.stall_done = true; }
    if (S.cfg.stall_thread == S.cur && !S.stall_done && S.stalled < 0 && t->npoints >= S.cfg.stall_at)
    {
        // suspend the current thread, if anybody else can run
        int o = pick_other(true);
        if (o >= 0)
        {
            S.stalled = S.cur;
            S.stall_happened = true;
            S.stall_until = S.cfg.stall_len == ~0ull ? ~0ull : S.total + S.cfg.stall_len;
            new_gap();
            o = pick_other(S.total >= S.cfg.fair_after);
            to_thread(o);
            return;
        }
        S.stall_done = true;
    }
    if (!(S.cfg.kinds >> k & 1) && S.total < S.cfg.fair_after) return;
    if (S.gap) --S.gap;
    if (S.gap == 0) reschedule();
}
void point(Kind k) { hit(k); }

// Called when the current thread's body has returned.
static void thread_end()
{
    Thr *t = S.thr[S.cur];
    t->done = true;
    S.consecutive_blocked = 0;
    bool all = true;
    for (size_t i = 0; i + S.cfg.ndaemon < S.thr.size(); ++i) if (!S.thr[i]->done) all = false;
    bool ends = S.cfg.real_threads && S.cfg.end_threads;
    if (all)
    {
        S.end = DONE;
        if (!ends) to_main_abandon();
        S.active = false;
        S.cur = -1;
        S.main_sem.release();
        t->sem.acquire();
        return;
    }
    int c[64], n = 0;
    for (size_t i = 0; i < S.thr.size() && n < 64; ++i) if (runnable(i)) c[n++] = i;
    if (n == 0)
    {
        // only the suspended thread is left: resume it
        int s = S.stalled;
        S.stalled = -1; S.stall_done = true;
        c[0] = s; n = 1;
    }
    int next = c[S.src->below(n)];
    if (S.cfg.real_threads)
    {
        S.cur = next; ++S.switches;
        S.thr[next]->sem.release();
        if (ends) { t->sem.acquire(); return; }
        while (true) pause(); // never exits: its thread-local state would be torn down in parallel to the others
    }
    to_thread(next);
    __builtin_unreachable();
}
static void run_body(Thr *t)
{
    try { t->body(); }
    catch (eng::Failed &) { _exit(77); }
    catch (std::exception &e) { eng::note_fail("exception", "thread %d: unexpected exception: %s", t->id, e.what()); _exit(77); }
    catch (...) { eng::note_fail("exception", "thread %d: unexpected exception of type %s", t->id, abi::__cxa_current_exception_type() ? abi::__cxa_current_exception_type()->name() : "?"); _exit(77); }
}
extern "C" void vrt_trampoline()
{
    Thr *t = S.thr[S.cur];
    run_body(t);
    thread_end();
}
asm(R"(
.text
vrt_entry:
  xorl %ebp, %ebp
  call vrt_trampoline
  ud2
)");
extern "C" void vrt_entry();

static char *get_stack()
{
    if (!stack_pool.empty()) { char *p = stack_pool.back(); stack_pool.pop_back(); return p; }
    char *p = (char *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap stack"); _exit(3); }
    mprotect(p, 4096, PROT_NONE);
    return p + 4096;
}

Cfg gen_cfg(eng::Src &s, int n)
{
    Cfg c;
    switch (s.below(6))
    {
    case 0: c.gapmax = 400; break;
    case 1: c.gapmax = 1500; break;
    case 2: c.gapmax = 120; break;
    case 3: c.gapmax = 30; c.geo = 1; break;
    case 4: c.gapmax = 300; c.geo = 1; break;
    case 5: c.gapmax = 8; c.kinds = 1u << K_RMW | 1u << K_LOCK; break;
    }
    if (n > 1 && s.chance(1, 3))
    {
        c.stall_thread = s.below(n);
        static const uint64_t m[] = {30, 120, 500, 2000};
        c.stall_at = 1 + s.below(m[s.below(4)]);
        static const uint64_t l[] = {~0ull, 100, 400, 2000};
        c.stall_len = l[s.below(4)];
    }
    return c;
}

Result run(const Cfg &c, const std::vector<std::function<void()>> &bodies, eng::Src &s)
{
    if (getenv("VRT_BT")) for (int g : {SIGSEGV, SIGABRT, SIGBUS}) signal(g, dump_bt);
    Result r{};
    if (bodies.empty()) return r;
    S.cfg = c; S.src = &s; S.total = S.switches = S.crash_count = 0; S.cur = -1; S.pause = 0;
    S.stalled = -1; S.stall_done = false; S.stall_happened = false; S.consecutive_blocked = 0; S.end = DONE; S.blocked_by = -1; S.vtime = 0; S.deadlines.clear();
    S.thr.clear();
    for (size_t i = 0; i < bodies.size(); ++i)
    {
        Thr *t = new Thr;
        t->id = i; t->body = bodies[i];
        if (!c.real_threads)
        {
            t->stack = get_stack();
            void **sp = (void **)(t->stack + STACK);
            *--sp = nullptr; *--sp = nullptr; // alignment / end of chain
            *--sp = (void *)&vrt_entry;     // return address
            for (int k = 0; k < 6; ++k) *--sp = nullptr;
            t->sp = sp;
            t->slo = t->stack; t->shi = t->stack + STACK;
        }
        S.thr.push_back(t);
    }
    bool adopt = adopt_threads;
    adopt_threads = false;
    std::vector<std::thread> os;
    if (c.real_threads)
        for (auto *t : S.thr)
            os.emplace_back([t] {
                t_self = t->id;
                pthread_attr_t a; void *p; size_t n;
                pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a);
                t->slo = (char *)p; t->shi = (char *)p + n;
                t->sem.acquire();
                run_body(t);
                thread_end();
            });
    if (!c.end_threads) for (auto &t : os) t.detach();
    adopt_threads = adopt;
    S.active = true;
    new_gap();
    int first = s.below(bodies.size());
    if (c.real_threads)
    {
        S.cur = first;
        S.thr[first]->sem.release();
        S.main_sem.acquire();
    }
    else to_thread(first);
    S.active = false;
    S.cur = -1;
    r.end = S.end; r.points = S.total; r.switches = S.switches; r.blocked_by = S.blocked_by; r.stalled = S.stall_happened;
    if (S.end == DONE && !c.real_threads)
        for (auto *t : S.thr) { stack_pool.push_back(t->stack); delete t; }
    if (c.real_threads && c.end_threads)
        for (size_t i = 0; i < os.size(); ++i)
        {
            if (S.end != DONE) { os[i].detach(); continue; }
            S.thr[i]->sem.release(); // one after the other
            os[i].join();
        }
    S.thr.clear();
    return r;
}

static inline bool plain_point(const void *a)
{
    if (!S.active || S.pause) return false;
    if (S.cfg.real_threads && t_self != S.cur) return false;
    Thr *t = S.thr[S.cur];
    if ((char *)a >= t->slo && (char *)a < t->shi) return false;
    if ((char *)a >= &__executable_start && (char *)a < &end) return false;
    if (g_shared && !g_shared(a)) return false;
    return true;
}
}
using namespace vrt;

static inline void rd(const void *a)
{
    if (plain_point(a)) hit(K_PLAIN);
}
static inline void wr(void *a, size_t n)
{
    if (plain_point(a)) hit(K_PLAIN);
    if (on_write) on_write(a, n);
}
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void *a) { rd(a); } \
    void __tsan_write##n(void *a) { wr(a, n); } \
    void __tsan_read##n##_pc(void *a, void *) { rd(a); } \
    void __tsan_write##n##_pc(void *a, void *) { wr(a, n); } \
    void __tsan_unaligned_read##n(void *a) { rd(a); } \
    void __tsan_unaligned_write##n(void *a) { wr(a, n); } \
    void __tsan_volatile_read##n(void *a) { rd(a); } \
    void __tsan_volatile_write##n(void *a) { wr(a, n); } \
    void __tsan_unaligned_volatile_read##n(void *a) { rd(a); } \
    void __tsan_unaligned_volatile_write##n(void *a) { wr(a, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) rd(a); }
void __tsan_write_range(void *a, unsigned long n) { if (n) wr(a, n); }
void __tsan_vptr_update(void *a, void *) { wr(a, 8); }
void __tsan_vptr_read(void *a) { rd(a); }

#define PRE_LD hit(K_LOAD)
#define PRE_RMW(p, n) do { hit(K_RMW); if (on_write) on_write((void *)p, n); } while (0)
#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { PRE_LD; return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { PRE_RMW(p, sizeof(T)); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { PRE_RMW(p, sizeof(T)); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { PRE_RMW(p, sizeof(T)); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { PRE_RMW(p, sizeof(T)); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { PRE_RMW(p, sizeof(T)); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { PRE_RMW(p, sizeof(T)); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { PRE_RMW(p, sizeof(T)); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { PRE_RMW(p, sizeof(T)); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { PRE_RMW(p, sizeof(T)); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { PRE_RMW(p, sizeof(T)); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { PRE_RMW(p, sizeof(T)); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { hit(K_LOAD); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

void __assert_fail(const char *a, const char *f, unsigned l, const char *fn)
{
    const char *b = strrchr(f, '/');
    std::string m = std::string("assert:") + (b ? b + 1 : f);
    eng::note_fail(m.c_str(), "assertion failed: %s (%s:%u, %s)", a, b ? b + 1 : f, l, fn);
    _exit(77);
}

// Busy-waiting code yields through these.
int sched_yield(void)
{
    if (S.active && !S.pause && (!S.cfg.real_threads || t_self == S.cur)) { hit(K_LOCK); S.gap = 1; hit(K_LOCK); return 0; }
    return 0;
}
int usleep(useconds_t u)
{
    if (S.active && !S.pause && (!S.cfg.real_threads || t_self == S.cur)) { if (vrt::on_sleep) { ++S.pause; vrt::on_sleep(); --S.pause; } sched_yield(); return 0; }
    timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
// Locks: never block while holding the schedule's token.
#define CTRL (S.active && !S.pause && (!S.cfg.real_threads || t_self == S.cur))
#define REAL(name, ...) static auto real = (int (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
#define REALV(name, ...) static auto real = (int (*)(__VA_ARGS__))dlvsym(RTLD_NEXT, #name, "GLIBC_2.3.2") // not the old implementation
static void contended() { S.gap = 1; hit(K_LOCK); }
#define TRYLOCK(name, T) \
    static int real_##name(T *m) { REAL(name, T *); return real(m); } \
    int name(T *m) \
    { \
        if (!CTRL) return real_##name(m); \
        hit(K_LOCK); \
        int r = real_##name(m); \
        if (r) contended(); \
        return r; \
    }
#define LOCK(name, try, T) \
    int name(T *m) \
    { \
        REAL(name, T *); \
        if (!CTRL) return real(m); \
        hit(K_LOCK); \
        int r; \
        while ((r = real_##try(m)) == EBUSY) yield_blocked(); \
        S.consecutive_blocked = 0; \
        return r; \
    }
TRYLOCK(pthread_mutex_trylock, pthread_mutex_t)
TRYLOCK(pthread_rwlock_tryrdlock, pthread_rwlock_t)
TRYLOCK(pthread_rwlock_trywrlock, pthread_rwlock_t)
LOCK(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    REAL(pthread_mutex_unlock, pthread_mutex_t *);
    if (!CTRL) return real(m);
    int r = real(m);
    S.consecutive_blocked = 0;
    hit(K_LOCK);
    return r;
}
// Time limits and condition variables, with virtual time
struct Deadline
{
    int64_t at;
    Deadline(const timespec *t) : at(t->tv_sec * 1000000000ll + t->tv_nsec - REALTIME0) { S.deadlines.push_back(at); }
    ~Deadline() { S.deadlines.erase(std::find(S.deadlines.begin(), S.deadlines.end(), at)); }
    bool over() const { return S.vtime >= at; }
};
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *abs)
{
    REAL(pthread_mutex_timedlock, pthread_mutex_t *, const timespec *);
    if (!CTRL || !S.cfg.tick) return real(m, abs);
    hit(K_LOCK);
    int r = real_pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    if (abs->tv_nsec < 0 || abs->tv_nsec >= 1000000000) return EINVAL;
    Deadline d(abs);
    while ((r = real_pthread_mutex_trylock(m)) == EBUSY)
    {
        if (d.over()) return ETIMEDOUT;
        yield_blocked();
    }
    S.consecutive_blocked = 0;
    return r;
}
struct Waiter { pthread_cond_t *c; bool woken; uint64_t spurious_at; };
static std::vector<Waiter *> waiters;
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *abs)
{
    if (abs && (abs->tv_nsec < 0 || abs->tv_nsec >= 1000000000)) return EINVAL;
    hit(K_LOCK);
    Waiter w{c, false, S.cfg.spurious && S.src->below(S.cfg.spurious) == 1 ? S.total + S.src->below(200) : ~0ull};
    waiters.push_back(&w);
    pthread_mutex_unlock(m);
    int r = 0;
    {
        std::unique_ptr<Deadline> d(abs ? new Deadline(abs) : nullptr);
        while (!w.woken && S.total < w.spurious_at)
        {
            if (d && d->over()) { r = ETIMEDOUT; break; }
            yield_blocked();
        }
    }
    if (!w.woken) waiters.erase(std::find(waiters.begin(), waiters.end(), &w));
    S.consecutive_blocked = 0;
    pthread_mutex_lock(m);
    return r;
}
static int cond_wake(pthread_cond_t *c, bool all)
{
    hit(K_LOCK);
    std::vector<Waiter *> v;
    for (auto *w : waiters) if (w->c == c) v.push_back(w);
    if (v.size() && !all) v = {v[S.src->below(v.size())]};
    for (auto *w : v) { w->woken = true; waiters.erase(std::find(waiters.begin(), waiters.end(), w)); }
    if (v.size()) S.consecutive_blocked = 0;
    hit(K_LOCK);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    REALV(pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
    return CTRL && S.cfg.tick ? cond_wait(c, m, nullptr) : real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *abs)
{
    REALV(pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const timespec *);
    return CTRL && S.cfg.tick ? cond_wait(c, m, abs) : real(c, m, abs);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    REALV(pthread_cond_signal, pthread_cond_t *);
    return CTRL && S.cfg.tick ? cond_wake(c, false) : real(c);
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    REALV(pthread_cond_broadcast, pthread_cond_t *);
    return CTRL && S.cfg.tick ? cond_wake(c, true) : real(c);
}
int clock_gettime(clockid_t k, timespec *t) noexcept
{
    if (!CTRL || !S.cfg.tick) return syscall(SYS_clock_gettime, k, t);
    S.vtime += S.cfg.tick;
    int64_t n = now_ns(k);
    t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
    return 0;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    if (!vrt::adopt_threads) return real(t, a, fn, arg);
    auto *x = new vrt::Adopted{fn, arg, false, false};
    vrt::adopted.push_back(x);
    *t = (pthread_t)x;
    return 0;
}
int pthread_join(pthread_t t, void **r)
{
    static auto real = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
    for (auto *x : vrt::adopted)
        if ((pthread_t)x == t)
        {
            if (r) *r = nullptr;
            if (!x->taken && vrt::on_join && !S.active) vrt::on_join();
            while (CTRL && x->taken && !x->done) sched_yield();
            return 0;
        }
    return real(t, r);
}
int pthread_detach(pthread_t t)
{
    static auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
    for (auto *x : vrt::adopted) if ((pthread_t)x == t) return 0;
    return real(t);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    REAL(pthread_rwlock_unlock, pthread_rwlock_t *);
    if (!CTRL) return real(m);
    int r = real(m);
    S.consecutive_blocked = 0;
    hit(K_LOCK);
    return r;
}
}
