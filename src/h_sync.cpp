// Properties C31 (locks and condition variables that live in pools) and C32 (pools and per-session state).
#include <algorithm>
#include <cinttypes>
#include <chrono>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <sched.h>
#include <set>
#include <shared_mutex>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
#include <libpmemobj++/condition_variable.hpp>
#include <libpmemobj++/detail/volatile_state.hpp>
#include <libpmemobj++/experimental/v.hpp>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_atomic.hpp>
#include <libpmemobj++/mutex.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/shared_mutex.hpp>
#include <libpmemobj++/timed_mutex.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/utils.hpp>
#include "engine.hpp"
#include "pm.hpp"
#include "vrt.hpp"
using eng::Src;
using eng::Span;
using std::string;
using std::vector;
namespace nv = pmem::obj;
namespace
{
string g_tmpl;
struct Shared { uint64_t a[64]; } *sh;
void session_start()
{
    pm::enabled = true;
    pm::clamp_pool = 0;
    vrt::set_plain_filter(pm::tracked);
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
}
// ---- C31 ----
constexpr unsigned NL = 6, NC = 2; // locks 0,1: mutex; 2,3: timed_mutex; 4,5: shared_mutex
struct Made { nv::mutex m; nv::timed_mutex t; nv::shared_mutex s; nv::condition_variable c; };
struct Root
{
    nv::mutex m[2]; nv::timed_mutex t[2]; nv::shared_mutex s[2]; nv::condition_variable c[NC];
    nv::persistent_ptr<Made> made;
    nv::p<uint64_t> phase;
};
nv::pool<Root> g_pop;
Root *R;
Made *M; // locks that a constructor has made take the place of the second ones
nv::mutex &mx(unsigned i) { return i && M ? M->m : R->m[i]; }
nv::timed_mutex &tm(unsigned i) { return i && M ? M->t : R->t[i]; }
nv::shared_mutex &sm(unsigned i) { return i && M ? M->s : R->s[i]; }
nv::condition_variable &cv(unsigned i) { return i && M ? M->c : R->c[i]; }
void batch()
{
    sh = (Shared *)eng::shared_alloc(sizeof(Shared));
    pm::enabled = false;
    if (g_tmpl.empty())
    {
        string dir = eng::fresh_dir();
        eng::in_child("creation of the pool", [&] {
            session_start();
            auto pop = nv::pool<Root>::create(dir + "/t", "sync", PMEMOBJ_MIN_POOL, 0600);
            auto r = pop.root();
            nv::transaction::run(pop, [&] { r->made = nv::make_persistent<Made>(); });
            pop.close();
            pm::sync_all();
        });
        g_tmpl = dir + "/t";
        pm::shrink_lanes(g_tmpl, 64);
    }
}
void open_pool(const string &f, bool made)
{
    g_pop = nv::pool<Root>::open(f, "sync");
    R = g_pop.root().get();
    M = made ? R->made.get() : nullptr;
}
enum Prim { P_LOCK, P_TRY, P_TIMED };
const char *pname[] = {"lock", "try_lock", "timed"};
struct LOp
{
    Prim p;
    unsigned lock;
    bool shared;
    int how;        // which interface
    int64_t dur;    // nanoseconds
    unsigned inside; // points while it is held
    vector<LOp> body;
};
bool is_shared(unsigned l) { return l >= 4; }
bool is_timed(unsigned l) { return l == 2 || l == 3; }
string show(const LOp &o)
{
    char b[100];
    snprintf(b, sizeof b, "%s%s(%u)/%d", pname[o.p], o.shared ? "_shared" : "", o.lock, o.how);
    string r = b;
    if (o.p == P_TIMED) r += " " + std::to_string(o.dur) + "ns";
    if (o.body.size()) { r += "{"; for (auto &x : o.body) r += show(x) + "; "; r += "}"; }
    return r;
}
LOp gen_lop(Src &s, int depth, int above, bool timed_only = false)
{
    LOp o{};
    o.p = (Prim)s.weighted({3, 3, 2});
    if (timed_only) o.p = P_TIMED;
    o.how = s.below(12);
    if (o.p == P_TIMED) o.lock = 2 + s.below(2);
    else if (o.p == P_TRY) o.lock = s.below(NL);
    else { if (above + 1 >= (int)NL) { o.p = P_TRY; o.lock = s.below(NL); } else o.lock = above + 1 + s.below(NL - above - 1); }
    o.shared = is_shared(o.lock) && s.below(2);
    if (o.p == P_TIMED)
    {
        static const int64_t d[] = {0, 1000, 20000, 300000, 5000000, 1000000000, 3600ll * 1000000000, 400ll * 86400 * 1000000000, -5000, -2000000000};
        o.dur = d[s.below(10)];
        if (o.dur > 0) o.dur += s.below(o.dur);
    }
    o.inside = s.below(3) ? s.below(4) : s.below(40);
    if (depth < 2)
    {
        unsigned n = s.weighted({4, 2, 1});
        for (unsigned i = 0; i < n; ++i) { Span sp(s); o.body.push_back(gen_lop(s, depth + 1, o.p == P_LOCK ? o.lock : std::max(above, (int)o.lock), timed_only && s.below(2))); }
    }
    return o;
}
struct Track
{
    int writer = -1;           // who holds it
    unsigned readers = 0, rd[8] = {};
    unsigned mw[8] = {}, mr[8] = {}; // who may be holding it (or be about to)
    uint64_t nw[8] = {}, nr[8] = {}; // how often they began to
} T[NL];
unsigned g_n; // threads
struct Conflict // does anybody else (or the thread itself) get in the way during a call?
{
    unsigned l; bool shared; int me;
    uint64_t before;
    bool at_start;
    uint64_t count() const { uint64_t n = 0; for (unsigned i = 0; i < g_n; ++i) if ((int)i != me) n += T[l].nw[i] + (shared ? 0 : T[l].nr[i]); return n; }
    bool now() const { for (unsigned i = 0; i < g_n; ++i) if (T[l].mw[i] || (!shared && T[l].mr[i])) return true; return false; }
    Conflict(unsigned l, bool shared, int me) : l(l), shared(shared), me(me) { before = count(); at_start = now(); }
    bool any() const { return at_start || count() != before; }
};
struct May
{
    unsigned &c;
    May(unsigned l, bool shared, int me) : c(shared ? T[l].mr[me] : T[l].mw[me]) { ++c; ++(shared ? T[l].nr[me] : T[l].nw[me]); }
    ~May() { --c; }
};
void acquired(unsigned l, bool shared, int me, const char *by)
{
    auto &t = T[l];
    if (t.writer >= 0) eng::fail_exit("exclusion", "%s of lock %u by thread %d succeeds while thread %d holds it exclusively", by, l, me, t.writer);
    if (!shared && t.readers) eng::fail_exit("exclusion", "%s of lock %u by thread %d succeeds while %u threads share it", by, l, me, t.readers);
    if (shared) { t.readers++; t.rd[me]++; if (t.readers > 1) sh->a[0]++; } else t.writer = me;
}
void releasing(unsigned l, bool shared, int me)
{
    auto &t = T[l];
    if (shared) { t.readers--; t.rd[me]--; }
    else { if (t.writer != me) eng::fail_exit("exclusion", "lock %u was taken over by thread %d while thread %d held it", l, t.writer, me); t.writer = -1; }
}
void inside(unsigned n) { for (unsigned i = 0; i < n; ++i) vrt::point(vrt::K_RMW); }
using namespace std::chrono;
template <class F> bool with_duration(int how, int64_t ns, F f)
{
    switch (how % 4)
    {
    case 0: return f(nanoseconds(ns));
    case 1: return f(microseconds(ns / 1000 + (ns % 1000 > 0)));
    case 2: return f(duration<double>(ns / 1e9));
    default: return f(duration<long long, std::ratio<1, 256>>(ns / (1000000000 / 256) + (ns % (1000000000 / 256) > 0)));
    }
}
struct MyClock // a clock of the caller's own
{
    using duration = std::chrono::duration<int64_t, std::ratio<1, 2000000>>;
    using rep = duration::rep; using period = duration::period;
    using time_point = std::chrono::time_point<MyClock>;
    static constexpr bool is_steady = true;
    static time_point now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration_cast<duration>(seconds(t.tv_sec + 777) + nanoseconds(t.tv_nsec))); }
};
template <class F> bool with_point(int how, int64_t ns, F f)
{
    switch (how % 3)
    {
    case 0: return f(system_clock::now() + nanoseconds(ns));
    case 1: return f(steady_clock::now() + nanoseconds(ns));
    default: return f(MyClock::now() + ceil<MyClock::duration>(nanoseconds(ns)));
    }
}
bool timed(unsigned l, int how, int64_t ns)
{
    auto &m = tm(l - 2);
    if (how & 1) return with_duration(how / 2, ns, [&](auto d) { return m.try_lock_for(d); });
    return with_point(how / 2, ns, [&](auto t) { return m.try_lock_until(t); });
}
// A caller who gives a duration in floating point gets no better than a microsecond since the epoch.
int64_t vnow() { return vrt::now_ns(CLOCK_REALTIME); }
bool trylock(unsigned l, bool shared, int how)
{
    bool native = how % 4 == 3; // through the handle
    if (l < 2) return native ? pmemobj_mutex_trylock(g_pop.handle(), mx(l).native_handle()) == 0 : mx(l).try_lock();
    if (l < 4) return native ? pmemobj_mutex_trylock(g_pop.handle(), tm(l - 2).native_handle()) == 0 : tm(l - 2).try_lock();
    if (shared) return native ? pmemobj_rwlock_tryrdlock(g_pop.handle(), sm(l - 4).native_handle()) == 0 : sm(l - 4).try_lock_shared();
    return native ? pmemobj_rwlock_trywrlock(g_pop.handle(), sm(l - 4).native_handle()) == 0 : sm(l - 4).try_lock();
}
void unlock(unsigned l, bool shared)
{
    if (l < 2) mx(l).unlock();
    else if (l < 4) tm(l - 2).unlock();
    else if (shared) sm(l - 4).unlock_shared();
    else sm(l - 4).unlock();
}
void run_lop(const LOp &o, int me);
void held(const LOp &o, int me, const char *by)
{
    acquired(o.lock, o.shared, me, by);
    inside(o.inside);
    for (auto &x : o.body) run_lop(x, me);
    if (!o.shared && T[o.lock].writer != me) eng::fail_exit("exclusion", "lock %u was taken over by thread %d while thread %d held it", o.lock, T[o.lock].writer, me);
    releasing(o.lock, o.shared, me);
}
template <class L> void guarded(L &m, const LOp &o, int me)
{
    switch (o.how % 3)
    {
    case 0: m.lock(); held(o, me, "lock"); m.unlock(); break;
    case 1: { std::lock_guard<L> g(m); held(o, me, "lock_guard"); break; }
    default: { std::unique_lock<L> g(m); held(o, me, "unique_lock"); break; }
    }
}
uint64_t g_waited; // outcomes that depend on others
void run_lop(const LOp &o, int me)
{
    bool self = T[o.lock].writer == me || T[o.lock].rd[me];
    if (o.p == P_LOCK)
    {
        if (self) return; // would wait for itself
        if (T[o.lock].writer >= 0) ++g_waited;
        May may(o.lock, o.shared, me);
        if (o.lock < 2) guarded(mx(o.lock), o, me);
        else if (o.lock < 4) guarded(tm(o.lock - 2), o, me);
        else if (!o.shared) guarded(sm(o.lock - 4), o, me);
        else switch (o.how % 2)
        {
        case 0: sm(o.lock - 4).lock_shared(); held(o, me, "lock_shared"); sm(o.lock - 4).unlock_shared(); break;
        default: { std::shared_lock<nv::shared_mutex> g(sm(o.lock - 4)); held(o, me, "shared_lock"); break; }
        }
        return;
    }
    Conflict c(o.lock, o.shared, me);
    May may(o.lock, o.shared, me);
    bool must_fail = T[o.lock].writer == me || (!o.shared && T[o.lock].rd[me]); // its own
    int64_t t0 = vnow();
    bool r = o.p == P_TRY ? trylock(o.lock, o.shared, o.how) : timed(o.lock, o.how, o.dur);
    const char *by = o.p == P_TRY ? "try_lock" : "try_lock_for/until";
    if (r && must_fail) eng::fail_exit("exclusion", "%s of lock %u succeeds although the thread itself holds it", by, o.lock);
    if (!r)
    {
        if (!c.any()) eng::fail_exit("refused", "%s of lock %u by thread %d fails, though nobody held or wanted it during the call", by, o.lock, me);
        if (o.p == P_TIMED && vnow() < t0 + o.dur - 2000) eng::fail_exit("early", "a wait of %" PRId64 " ns for lock %u gives up after %" PRId64 " ns", o.dur, o.lock, vnow() - t0);
        ++g_waited;
        return;
    }
    held(o, me, by);
    unlock(o.lock, o.shared);
}
void verdict(const vrt::Result &r)
{
    if (r.end == vrt::DEADLOCK) eng::fail("deadlock", "all threads wait, though no lock is held for ever");
    if (r.end == vrt::LIMIT || r.end == vrt::BLOCKED) eng::fail("hang", "the threads do not finish");
}
vrt::Cfg gen_cfg(Src &s, unsigned nt)
{
    vrt::Cfg c = vrt::gen_cfg(s, nt);
    if (s.below(2)) c.gapmax = 1 + s.below(30);
    c.stall_soft = true;
    static const uint64_t tk[] = {10, 100, 1000, 100000, 10000000};
    c.tick = tk[s.below(5)];
    c.spurious = s.pick({0u, 2u, 6u});
    c.limit = 400000; c.fair_after = 100000;
    return c;
}
bool all_free()
{
    for (unsigned l = 0; l < NL; ++l)
    {
        if (!trylock(l, false, 0)) return false;
        unlock(l, false);
        if (is_shared(l)) { if (!trylock(l, true, 0)) return false; unlock(l, true); }
    }
    return true;
}
void lock_case(Src &s)
{
    pm::durable = false;
    unsigned nt = 2 + s.below(3);
    bool made = s.below(2), patience = s.chance(1, 6);
    vector<vector<LOp>> pr(nt);
    eng::desc("%u threads%s", nt, made ? ", constructed locks" : "");
    unsigned pl = 2 + s.below(2);
    for (unsigned t = 0; t < nt; ++t)
    {
        unsigned n = 1 + s.below(5);
        eng::desc("; [%u]", t);
        if (patience && t == 0) { eng::desc(" holds lock %u until the others have given up", pl); continue; }
        for (unsigned i = 0; i < n; ++i)
        {
            Span sp(s);
            pr[t].push_back(gen_lop(s, patience ? 2 : 0, -1, patience));
            if (patience) { pr[t][i].lock = pl; pr[t][i].dur = std::min<int64_t>(pr[t][i].dur, 10000000000ll); }
            eng::desc(" %s", show(pr[t].back()).c_str());
        }
    }
    auto c = gen_cfg(s, nt);
    sh->a[0] = 0;
    eng::in_child("locking", [&] {
        session_start();
        open_pool(g_tmpl, made);
        g_n = nt;
        vector<std::function<void()>> b;
        unsigned ready = 0, done = 0;
        for (unsigned t = 0; t < nt; ++t)
            b.push_back([&, t] {
                if (patience && t == 0)
                {
                    May may(pl, false, 0);
                    std::unique_lock<nv::timed_mutex> g(tm(pl - 2));
                    acquired(pl, false, 0, "lock");
                    ready = 1;
                    while (done < nt - 1) vrt::yield_blocked();
                    releasing(pl, false, 0);
                    return;
                }
                if (patience) while (!ready) vrt::yield_blocked();
                for (auto &o : pr[t])
                {
                    run_lop(o, t);
                    if (patience && T[pl].writer != 0) eng::fail_exit("exclusion", "lock %u was lost", pl);
                }
                ++done;
            });
        auto r = vrt::run(c, b, s);
        verdict(r);
        if (!all_free()) eng::fail("stuck", "a lock is still held after all threads have released everything");
        if (r.switches >= 3 && (g_waited || sh->a[0])) eng::mark_nontrivial();
        if (g_waited) eng::label("waited or refused");
        if (sh->a[0]) eng::label("shared by two");
        if (patience) eng::label("timeouts while held");
        _exit(0);
    });
}
// Condition variables: consumers of tokens and threads that wait for a gate, in every form of waiting.
int g_holder = -1; // of the mutex
unsigned g_tokens, g_gate;
struct Held
{
    static void take(int me) { if (g_holder >= 0) eng::fail_exit("cv-lock", "thread %d runs with the mutex while thread %d holds it", me, g_holder); g_holder = me; }
    static void drop(int me) { if (g_holder != me) eng::fail_exit("cv-lock", "the mutex of thread %d was taken over by %d", me, g_holder); g_holder = -1; }
};
bool g_spurious;
unsigned g_nbegun[2], g_ndone[2]; // calls of notify
// Waits until pred, or not; true when pred holds afterwards. The caller has the mutex.
template <class P> bool wait_how(int how, int64_t ns, nv::mutex &m, std::unique_lock<nv::mutex> &ul, nv::condition_variable &c, unsigned w, int me, P pred)
{
    bool last = false;
    uint64_t evals = 0;
    auto pd = [&] { Held::take(me); inside(1); last = pred(); ++evals; inside(1); Held::drop(me); return last; };
    bool given = how & 1, viapred = how >> 1 & 1; // mutex or unique_lock; with a predicate or a loop of one's own
    int kind = how / 4 % 3;                       // wait, wait_for, wait_until
    int64_t t0 = vnow();
    auto late = [&](const char *w) { if (vnow() < t0 + ns - 2000) eng::fail_exit("early", "%s with %" PRId64 " ns gives up after %" PRId64 " ns", w, ns, vnow() - t0); };
    Held::drop(me);
    bool r;
    if (viapred)
    {
        if (kind == 0) { if (given) c.wait(m, pd); else c.wait(ul, pd); r = true; }
        else if (kind == 1) r = with_duration(how / 12, ns, [&](auto d) { return given ? c.wait_for(m, d, pd) : c.wait_for(ul, d, pd); });
        else r = with_point(how / 12, ns, [&](auto t) { return given ? c.wait_until(m, t, pd) : c.wait_until(ul, t, pd); });
        if (!evals) eng::fail_exit("cv-pred", "the predicate was not asked");
        if (r != last) eng::fail_exit("cv-pred", "wait returns %d, but the predicate was %d when it was last asked", r, last);
        if (!r) late("a wait with a predicate");
    }
    else
    {
        r = pd();
        if (!r)
        {
            std::cv_status st = std::cv_status::no_timeout;
            unsigned done0 = g_ndone[w];
            if (kind == 0) { if (given) c.wait(m); else c.wait(ul); }
            else if (kind == 1) with_duration(how / 12, ns, [&](auto d) { st = given ? c.wait_for(m, d) : c.wait_for(ul, d); return true; });
            else with_point(how / 12, ns, [&](auto t) { st = given ? c.wait_until(m, t) : c.wait_until(ul, t); return true; });
            if (st == std::cv_status::timeout) late("a wait");
            else if (!g_spurious && g_nbegun[w] == done0) eng::fail_exit("no-wait", "a wait (kind %d) of %" PRId64 " ns ends as if notified after %" PRId64 " ns, but nobody called notify", kind, ns, vnow() - t0); // spurious wake-ups are off in this run
            r = pd();
        }
    }
    Held::take(me);
    if (!ul.owns_lock()) eng::fail_exit("cv-lock", "the mutex is not held after a wait");
    if (r != pred()) eng::fail_exit("cv-pred", "a wait (kind %d) of %" PRId64 " ns reports %d, but under the mutex its predicate is %d", kind, ns, r, !r); // what it depends on changes under the mutex only
    return r;
}
void cond_case(Src &s)
{
    pm::durable = false;
    unsigned nc = 1 + s.below(3), np = 1 + s.below(2), nw = s.below(3); // consumers, producers, waiters at the gate
    bool made = s.below(2);
    eng::desc("%u consumers, %u producers, %u at the gate%s", nc, np, nw, made ? ", constructed" : "");
    struct C { unsigned want; int how; int64_t dur; unsigned give_up; };
    vector<C> cs(nc), gs(nw);
    static const int64_t durs[] = {0, 500, 20000, 3000000, 2000000000, 86400ll * 1000000000, -100000};
    unsigned demand = 0;
    auto gen = [&](C &x) { x.want = 1 + s.below(3); x.how = s.below(144); x.dur = durs[s.below(7)]; if (x.dur > 0) x.dur += s.below(x.dur); x.give_up = s.chance(1, 4) ? 1 + s.below(3) : ~0u; };
    for (auto &x : cs) { Span sp(s); gen(x); demand += x.want; eng::desc("; wants %u (how %d, %" PRId64 " ns, %d times)", x.want, x.how, x.dur, (int)x.give_up); }
    for (auto &x : gs) { Span sp(s); gen(x); eng::desc("; gate (how %d, %" PRId64 " ns)", x.how, x.dur); }
    struct P { unsigned n, pause; bool all, in; };
    vector<vector<P>> ps(np);
    unsigned made_n = 0;
    for (unsigned i = 0; i < np; ++i)
        while (made_n < demand * (i + 1) / np)
        {
            Span sp(s);
            P p{1 + (unsigned)s.below(2), (unsigned)s.below(3) ? (unsigned)s.below(10) : (unsigned)s.below(120), (bool)s.below(2), (bool)s.below(2)};
            p.n = std::min(p.n, demand - made_n);
            made_n += p.n;
            ps[i].push_back(p);
            eng::desc("; producer %u: %u %s%s", i, p.n, p.all ? "notify_all" : "notify_one each", p.in ? " while locked" : "");
        }
    bool gate_all = s.below(2) || nw == 0;
    unsigned gate_pause = s.below(200);
    unsigned nt = nc + np + nw + (nw ? 1 : 0);
    auto c = gen_cfg(s, nt);
    g_spurious = c.spurious;
    eng::in_child("waiting", [&] {
        session_start();
        open_pool(g_tmpl, made);
        auto &m = mx(made ? 1 : 0);
        auto &c0 = cv(made ? 1 : 0), &c1 = cv(made ? 0 : 1);
        unsigned got = 0, blocked = 0;
        vector<std::function<void()>> b;
        for (unsigned i = 0; i < nc; ++i)
            b.push_back([&, i] {
                int me = i;
                for (unsigned k = 0; k < cs[i].want; ++k)
                    for (unsigned tries = 0; tries < cs[i].give_up; ++tries)
                    {
                        std::unique_lock<nv::mutex> ul(m);
                        Held::take(me);
                        if (!g_tokens) ++blocked;
                        bool r = wait_how(tries < 12 ? cs[i].how : cs[i].how % 4, cs[i].dur, m, ul, c0, 0, me, [&] { return g_tokens > 0; });
                        if (r) { if (!g_tokens) eng::fail_exit("cv-pred", "the predicate does not hold any more after the wait"); --g_tokens; ++got; }
                        Held::drop(me);
                        ul.unlock();
                        if (r) break;
                        sched_yield();
                    }
            });
        for (unsigned i = 0; i < nw; ++i)
            b.push_back([&, i] {
                int me = nc + i;
                for (unsigned tries = 0;; ++tries)
                {
                    std::unique_lock<nv::mutex> ul(m);
                    Held::take(me);
                    bool r = wait_how(tries < 12 ? gs[i].how : gs[i].how % 4, gs[i].dur, m, ul, c1, 1, me, [&] { return g_gate > 0; });
                    Held::drop(me);
                    ul.unlock();
                    if (r) break;
                    sched_yield();
                }
            });
        for (unsigned i = 0; i < np; ++i)
            b.push_back([&, i] {
                int me = nc + nw + i;
                for (auto &p : ps[i])
                {
                    inside(p.pause);
                    auto wake = [&] { ++g_nbegun[0]; if (p.all) c0.notify_all(); else for (unsigned k = 0; k < p.n; ++k) c0.notify_one(); ++g_ndone[0]; };
                    m.lock();
                    Held::take(me);
                    g_tokens += p.n;
                    inside(2);
                    if (p.in) wake();
                    Held::drop(me);
                    m.unlock();
                    if (!p.in) wake();
                }
            });
        if (nw)
            b.push_back([&] {
                inside(gate_pause);
                { std::lock_guard<nv::mutex> g(m); Held::take(40); g_gate = 1; inside(1); Held::drop(40); }
                ++g_nbegun[1];
                if (gate_all) c1.notify_all(); else for (unsigned i = 0; i < nw; ++i) c1.notify_one();
                ++g_ndone[1];
            });
        auto r = vrt::run(c, b, s);
        verdict(r);
        if (got + g_tokens != demand) eng::fail("cv-count", "%u tokens made, %u taken, %u left", demand, got, g_tokens);
        if (!all_free()) eng::fail("stuck", "a lock is still held after all threads have released everything");
        if (blocked && r.switches >= 3) eng::mark_nontrivial();
        if (blocked) eng::label("consumer waited");
        _exit(0);
    });
}
// Locks held when the pool is closed or the power fails are free in the next session; locks outside of pools are refused.
template <class T> bool refused()
{
    try { T x; (void)x; }
    catch (pmem::lock_error &) { return true; }
    return false;
}
// A lock that is constructed where another lock (held or not) used to be is free.
template <class T> void built_over(const T &old, const char *what)
{
    PMEMoid o;
    if (pmemobj_alloc(g_pop.handle(), &o, sizeof(T) + 64, 9, nullptr, nullptr)) return;
    void *raw = pmemobj_direct(o);
    memcpy(raw, (const void *)&old, sizeof(T));
    asm volatile("" : "+r"(raw) : : "memory"); // the old contents stay
    T *x = new (raw) T;
    bool a = x->try_lock(), b = a && x->try_lock();
    if (a) x->unlock();
    if (!a) eng::fail("built", "a %s constructed in memory that held another one is not free", what);
    if (b) eng::fail("built", "a %s is acquired twice", what);
    x->~T();
    pmemobj_free(&o);
}
void reset_case(Src &s)
{
    pm::durable = true;
    string dir = eng::fresh_dir(), f = dir + "/p";
    pm::copy_sparse(g_tmpl, f);
    unsigned ns = 1 + s.below(3);
    for (unsigned ss = 0; ss < ns; ++ss)
    {
        Span sp(s);
        unsigned n = s.below(6), how = s.below(3);
        bool made = s.below(2);
        struct H { unsigned l; bool shared; bool unlock; };
        vector<H> hs;
        for (unsigned i = 0; i < n; ++i) { H h{(unsigned)s.below(NL), false, s.chance(1, 3)}; h.shared = is_shared(h.l) && s.below(2); hs.push_back(h); }
        int pol = s.below(5); uint64_t seed = s.bits64();
        uint64_t evict = s.chance(1, 2) ? s.bits64() : 0;
        eng::desc("%s session %u:", ss ? " |" : "", ss);
        for (auto &h : hs) eng::desc(" %u%s%s", h.l, h.shared ? " shared" : "", h.unlock ? " and released" : "");
        eng::desc(how == 0 ? "; closed" : how == 1 ? "; power failure" : "; closed and opened again");
        if (n) eng::mark_nontrivial();
        eng::in_child("session", [&] {
            session_start();
            open_pool(f, made);
            if (!all_free()) eng::fail("reset", "session %u: a lock that was held before is not free after the pool has been opened", ss);
            cv(0).notify_all(); cv(1).notify_one();
            if (!refused<nv::mutex>() || !refused<nv::timed_mutex>() || !refused<nv::shared_mutex>() || !refused<nv::condition_variable>()) eng::fail("outside", "a lock can be constructed outside of persistent memory");
            unsigned w[NL] = {}, r[NL] = {};
            for (auto &h : hs)
            {
                bool ok = trylock(h.l, h.shared, 0), want = !w[h.l] && (h.shared || !r[h.l]);
                if (ok != want) eng::fail("try", "try_lock%s of lock %u: %d, expected %d", h.shared ? "_shared" : "", h.l, ok, want);
                if (ok) { (h.shared ? r : w)[h.l]++; if (h.unlock) { unlock(h.l, h.shared); (h.shared ? r : w)[h.l]--; } }
            }
            for (unsigned i = 0; i < 2; ++i) { built_over(mx(i), "mutex"); built_over(tm(i), "timed_mutex"); built_over(sm(i), "shared_mutex"); }
            if (evict) pm::evict(evict, 1, 2);
            if (how == 1) { pm::power_failure(pol, seed); pm::crash_exit(); }
            g_pop.close();
            if (how == 2)
            {
                open_pool(f, !made);
                if (!all_free()) eng::fail("reset", "session %u: a lock that was held is not free after the pool has been closed and opened again", ss);
                g_pop.close();
            }
            pm::sync_all();
        });
    }
    eng::remove_tree(dir);
}
#include "sync_pool.inc"
#define EXPL "exploration"
const char *A_SC = "schedules interleave whole memory accesses in a sequentially consistent order";
const char *A_PT = "the system's pthread objects under libpmemobj are replaced by a scheduler-controlled model (waiting, waking, time)";
const char *A_NVM = "power-failure model: 64-byte lines, durable once flushed and drained; unflushed lines are kept or lost line by line; libpmemobj itself (the system library) is run, not modelled";
eng::RegProp props[] = {
    {{"C31", "mode lock: 2-4 threads with trees of blocking, trying and timed acquisitions (exclusive and shared, through guards, clocks and durations of several kinds, through the native handle) of six locks under generated schedules and virtual time: exclusion, sharing, no refusal without a contender, no early timeout, time limits end a wait, no deadlock, nothing held at the end; mode cond: consumers, producers and a gate over condition variables with every form of waiting, spurious wake-ups, notify_one and notify_all: the mutex is held whenever the predicate runs and after the wait, results match the predicate, no wake-up is lost, no early timeout; mode reset: locks held at close or power failure are free when the pool is opened again, and locks cannot be constructed outside of pools; non-trivial: a thread had to wait or was refused, two shared a lock, or a lock was held when the session ended", EXPL, {A_SC, A_PT, "locks are acquired in a fixed order where threads wait without a limit"}}},
    {{"C32", POOL_RULE, EXPL, {A_NVM}}},
};
eng::RegMode modes[] = {
    {{"C31", "lock", lock_case, 16000, 600000, 200}},
    {{"C31", "cond", cond_case, 16000, 600000, 200}},
    {{"C31", "reset", reset_case, 2000, 60000, 100}},
    {{"C32", "pool", pool_case, 3000, 100000, 50}},
    {{"C32", "volatile", volatile_case, 6000, 200000, 100}},
};
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch;
    return eng::driver_main(argc, argv);
}
