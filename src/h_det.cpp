// Property C34: per-thread persistent storage (enumerable_thread_specific) and pointers without a pool
// (persistent_pool_ptr, compound_pool_ptr), the building blocks of the hash maps.
#include <algorithm>
#include <cassert>
#include <cinttypes>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <sys/mman.h>
#include <vector>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/mutex.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/shared_mutex.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/container/segment_vector.hpp>
#include <libpmemobj++/detail/compound_pool_ptr.hpp>
#include <libpmemobj++/detail/enumerable_thread_specific.hpp>
#include <libpmemobj++/detail/persistent_pool_ptr.hpp>
#include "engine.hpp"
#include "pm.hpp"
#include "vrt.hpp"
using eng::Src;
using eng::Span;
using std::string;
using std::vector;
namespace nv = pmem::obj;
namespace pd = pmem::detail;
namespace
{
struct Elem { uint64_t tag = 0; uint64_t pad[2] = {}; };
using TA = pd::enumerable_thread_specific<Elem>;
using TB = pd::enumerable_thread_specific<uint64_t, nv::mutex>;
struct B1 { int a; };
struct D : B1 { int d; long e; };
constexpr int PQ = 4, PN = 8;
struct PTab { pd::persistent_pool_ptr<D> q[PQ]; pd::persistent_pool_ptr<B1> b[PQ]; pd::compound_pool_ptr<D> c[PQ]; nv::persistent_ptr<D[]> arr; };
struct Root { nv::persistent_ptr<TA> a[2]; nv::persistent_ptr<TB> b; nv::persistent_ptr<PTab> p; };
constexpr unsigned NTAB = 3;
nv::pool<Root> pop;
string g_tmpl;
void session_start()
{
    pm::enabled = true;
    pm::clamp_pool = 0;
    vrt::set_plain_filter(pm::tracked);
}
struct Rec { uint64_t off, acked, pending; bool has_pending; };
struct Sh
{
    unsigned n[NTAB];
    Rec r[NTAB][64];
    int clearing; // table that is being cleared, or -1
    unsigned lost, cut;
} *sh;
void batch()
{
    pm::enabled = false;
    pm::durable = true;
    sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_tmpl.empty())
    {
        string dir = eng::fresh_dir();
        eng::in_child("creation of the pool", [&] {
            session_start();
            pop = nv::pool<Root>::create(dir + "/t", "det", 16 << 20, 0600);
            auto r = pop.root();
            nv::transaction::run(pop, [&] {
                for (auto &x : r->a) x = nv::make_persistent<TA>();
                r->b = nv::make_persistent<TB>();
                r->p = nv::make_persistent<PTab>();
                r->p->arr = nv::make_persistent<D[]>(PN + 1);
            });
            pop.close();
        });
        g_tmpl = dir + "/t";
        pm::shrink_lanes(g_tmpl, 64);
    }
}
struct File
{
    string dir = eng::fresh_dir(), f = dir + "/p";
    File() { pm::durable = true; pm::copy_sparse(g_tmpl, f); }
    ~File() { eng::remove_tree(dir); }
    void open() { pop = nv::pool<Root>::open(f, "det"); }
};
uint64_t *local(unsigned t)
{
    auto r = pop.root().get();
    return t < 2 ? &r->a[t]->local().tag : &r->b->local();
}
size_t size(unsigned t)
{
    auto r = pop.root().get();
    bool e = t < 2 ? r->a[t]->empty() : r->b->empty();
    size_t n = t < 2 ? r->a[t]->size() : r->b->size();
    if (e != !n) eng::fail_exit("size", "table %u: empty() is %d with size() %zu", t, e, n);
    return n;
}
vector<uint64_t *> all(unsigned t)
{
    vector<uint64_t *> v;
    auto r = pop.root().get();
    if (t < 2)
    {
        for (auto &e : *r->a[t]) v.push_back(&e.tag);
        const TA &c = *r->a[t];
        size_t i = 0;
        for (auto &e : c) { if (i >= v.size() || &e.tag != v[i]) eng::fail_exit("iterate", "table %u: constant iteration differs at %zu", t, i); ++i; }
        if (i != v.size()) eng::fail_exit("iterate", "table %u: constant iteration ends early", t);
    }
    else for (auto &e : *r->b) v.push_back(&e);
    if (v.size() != size(t)) eng::fail_exit("size", "table %u: %zu elements seen, size() is %zu", t, v.size(), size(t));
    std::set<uint64_t *> u(v.begin(), v.end());
    if (u.size() != v.size()) eng::fail_exit("iterate", "table %u: an element is visited twice", t);
    return v;
}
void wipe(unsigned t, bool init, vector<uint64_t *> *seen)
{
    auto r = pop.root().get();
    if (!init) { if (t < 2) r->a[t]->clear(); else r->b->clear(); }
    else if (t < 2) r->a[t]->initialize([&](Elem &e) { if (seen) seen->push_back(&e.tag); });
    else r->b->initialize([&](uint64_t &e) { if (seen) seen->push_back(&e); });
}
uint64_t off(const void *p) { return pmemobj_oid(p).off; }
struct TOp { unsigned tab, k; uint64_t val; };
enum { T_STORE, T_READ };
struct Wave { vector<vector<TOp>> th; unsigned after, tab; bool fail; uint64_t failn; };
enum { W_NONE, W_CLEAR, W_INIT, W_REOPEN, W_MAIN };
Wave gen_wave(Src &s, uint64_t &val, unsigned maxt, bool crash)
{
    Wave w;
    unsigned nt = 1 + s.below(maxt);
    for (unsigned t = 0; t < nt; ++t)
    {
        Span sp(s);
        vector<TOp> v;
        unsigned n = 1 + s.below(4);
        for (unsigned i = 0; i < n; ++i) v.push_back({(unsigned)s.below(NTAB), s.below(3) ? (unsigned)T_STORE : (unsigned)T_READ, ++val});
        w.th.push_back(v);
    }
    w.after = s.weighted({4, 1, 1, crash ? 0u : 2u, crash ? 0u : 1u});
    w.tab = s.below(NTAB);
    w.fail = !crash && nt == 1 && s.chance(1, 3);
    w.failn = 1 + s.below(3);
    eng::desc("; %u threads", nt);
    for (auto &v : w.th) { eng::desc(" ["); for (auto &o : v) eng::desc("%c%u", o.k == T_STORE ? 'w' : 'r', o.tab); eng::desc("]"); }
    static const char *an[] = {"", ", clear", ", initialize", ", reopened", ", main thread"};
    eng::desc("%s", an[w.after]);
    if (w.after == W_CLEAR || w.after == W_INIT || w.after == W_MAIN) eng::desc(" %u", w.tab);
    if (w.fail) eng::desc(", allocation %u fails", (unsigned)w.failn);
    return w;
}
void verdict(const vrt::Result &r)
{
    if (r.end == vrt::DEADLOCK) eng::fail("deadlock", "all threads wait");
    if (r.end == vrt::LIMIT || r.end == vrt::BLOCKED) eng::fail("hang", "the threads do not finish");
}
vrt::Cfg cfg(Src &s, unsigned nt)
{
    vrt::Cfg c = vrt::gen_cfg(s, nt);
    c.stall_soft = true;
    c.real_threads = c.end_threads = true; // thread-local state
    c.limit = 1000000; c.fair_after = 200000;
    if (s.below(2)) c.kinds |= 1u << vrt::K_PLAIN;
    return c;
}
void tls_case(Src &s)
{
    pm::durable = false;
    uint64_t val = 100;
    vector<Wave> ws;
    vector<vrt::Cfg> cs;
    unsigned nw = 1 + s.below(5);
    for (unsigned i = 0; i < nw; ++i) { Span sp(s); ws.push_back(gen_wave(s, val, 4, false)); cs.push_back(cfg(s, ws[i].th.size())); }
    unsigned others = s.chance(1, 30) ? 1018 + s.below(12) : s.chance(1, 4) ? 1 + s.below(9) : 0;
    if (others) eng::desc("; %u more threads have numbers", others);
    File file;
    pm::durable = true;
    eng::in_child("threads", [&] {
        session_start();
        file.open();
        std::deque<pd::thread_id_type> more;
        std::set<size_t> ids;
        for (unsigned i = 0; i < others; ++i) { more.emplace_back(); if (!ids.insert(more.back().get()).second) eng::fail("numbers", "two threads have number %zu", more.back().get()); }
        std::map<uint64_t, uint64_t> m[NTAB]; // contents by offset
        unsigned held = 0, bound = others, main_held = others, most = 0;
        bool main_used[2] = {};
        for (unsigned wi = 0; wi < nw; ++wi)
        {
            auto &w = ws[wi];
            unsigned nt = w.th.size();
            most = std::max(most, nt);
            held = 0;
            for (auto &v : w.th) { bool u[2] = {}; for (auto &o : v) u[o.tab == 2] = true; held += u[0] + u[1]; }
            bound = std::max(bound, held + main_held);
            static uint64_t *mine[8][NTAB];
            memset(mine, 0, sizeof mine);
            static struct { uint64_t off, val; bool used; } seen[8][NTAB]; // what a thread found first
            memset(seen, 0, sizeof seen);
            vector<std::function<void()>> b;
            for (unsigned t = 0; t < nt; ++t)
                b.push_back([&, t] {
                    if (w.fail) pm::fail_alloc_at = pm::allocs + w.failn;
                    uint64_t cur[NTAB] = {};
                    for (auto &o : w.th[t])
                    {
                        uint64_t *p = nullptr;
                        for (unsigned tries = 0; !p; ++tries)
                            try { p = local(o.tab); }
                            catch (pmem::transaction_error &e)
                            {
                                if (!w.fail || tries) eng::fail_exit("throws", "local() throws %s", e.what());
                                pm::fail_alloc_at = 0;
                            }
                        if (!mine[t][o.tab])
                        {
                            for (unsigned x = 0; x < nt; ++x) if (mine[x][o.tab] == p) eng::fail_exit("shared", "threads %u and %u have the same element of table %u", x, t, o.tab);
                            mine[t][o.tab] = p;
                            cur[o.tab] = *p;
                            seen[t][o.tab] = {off(p), *p, true};
                        }
                        if (mine[t][o.tab] != p) eng::fail_exit("moved", "the element of thread %u in table %u has moved", t, o.tab);
                        if (*p != cur[o.tab]) eng::fail_exit("value", "the element of thread %u in table %u holds %" PRIu64 ", not %" PRIu64, t, o.tab, *p, cur[o.tab]);
                        if (o.k == T_STORE) { *p = o.val; cur[o.tab] = o.val; }
                    }
                    pm::fail_alloc_at = 0;
                });
            auto r = vrt::run(cs[wi], b, s);
            verdict(r);
            for (unsigned t = 0; t < nt; ++t)
                for (unsigned k = 0; k < NTAB; ++k)
                    if (seen[t][k].used)
                    {
                        auto it = m[k].find(seen[t][k].off);
                        uint64_t want = it == m[k].end() ? 0 : it->second;
                        if (seen[t][k].val != want) eng::fail("value", "wave %u: thread %u finds %" PRIu64 " in its element of table %u, expected %" PRIu64, wi, t, seen[t][k].val, k, want);
                        m[k][seen[t][k].off] = seen[t][k].val;
                        for (auto &o : w.th[t]) if (o.tab == k && o.k == T_STORE) m[k][seen[t][k].off] = o.val;
                    }
            auto verify = [&](const char *when) {
                for (unsigned k = 0; k < NTAB; ++k)
                {
                    std::set<uint64_t> u;
                    for (auto *p : all(k))
                    {
                        auto it = m[k].find(off(p));
                        uint64_t want = it == m[k].end() ? 0 : it->second;
                        if (*p != want) eng::fail("value", "wave %u, %s: an element of table %u holds %" PRIu64 ", expected %" PRIu64, wi, when, k, *p, want);
                        u.insert(off(p));
                    }
                    for (auto &x : m[k]) if (!u.count(x.first)) eng::fail("iterate", "wave %u, %s: an element of table %u that a thread has used is not visited", wi, when, k);
                    if (size(k) > bound) eng::fail("grows", "wave %u: table %u has %zu elements, but no more than %u were ever in use at once", wi, k, size(k), bound);
                }
            };
            verify("after the threads");
            switch (w.after)
            {
            case W_CLEAR: case W_INIT:
            {
                vector<uint64_t *> a = all(w.tab), v;
                wipe(w.tab, w.after == W_INIT, &v);
                if (w.after == W_INIT && v != a) eng::fail("handler", "initialize calls its handler for %zu elements, not each of the %zu once", v.size(), a.size());
                if (size(w.tab)) eng::fail("clear", "table %u has %zu elements after %s", w.tab, size(w.tab), w.after == W_INIT ? "initialize" : "clear");
                m[w.tab].clear();
                break;
            }
            case W_REOPEN: pop.close(); file.open(); break;
            case W_MAIN:
            {
                if (!main_used[w.tab == 2]) { main_used[w.tab == 2] = true; ++main_held; bound = std::max(bound, main_held); }
                uint64_t *p = local(w.tab);
                auto it = m[w.tab].find(off(p));
                uint64_t want = it == m[w.tab].end() ? 0 : it->second;
                if (*p != want) eng::fail("value", "wave %u: the main thread finds %" PRIu64 " in table %u, expected %" PRIu64, wi, *p, w.tab, want);
                *p = 7000 + wi;
                m[w.tab][off(p)] = *p;
                if (local(w.tab) != p) eng::fail("moved", "the main thread's element has moved");
                break;
            }
            }
            if (w.after) verify("afterwards");
            if (r.switches >= 2) eng::mark_nontrivial();
        }
        if (most >= 2 && nw >= 2) eng::mark_nontrivial();
        _exit(0);
    });
}
int g_policy; uint64_t g_pseed;
void power_off()
{
    auto st = pm::power_failure(g_policy, g_pseed);
    sh->lost += st.lost;
    pm::crash_exit();
}
Rec *rec(unsigned k, uint64_t o, bool make)
{
    for (unsigned i = 0; i < sh->n[k]; ++i) if (sh->r[k][i].off == o) return &sh->r[k][i];
    if (!make || sh->n[k] >= 64) return nullptr;
    Rec *r = &sh->r[k][sh->n[k]];
    *r = {o, 0, 0, false};
    ++sh->n[k];
    return r;
}
// The elements as they may be after a power failure.
void recovered(const char *when)
{
    for (unsigned k = 0; k < NTAB; ++k)
    {
        auto v = all(k);
        if (sh->clearing == (int)k && v.empty()) { sh->n[k] = 0; continue; }
        std::set<uint64_t> u;
        for (auto *p : v)
        {
            Rec *r = rec(k, off(p), false);
            u.insert(off(p));
            if (!r) { if (*p) eng::fail("recovered", "%s: an element of table %u that no thread has used holds %" PRIu64, when, k, *p); continue; }
            if (*p != r->acked && !(r->has_pending && *p == r->pending)) eng::fail("recovered", "%s: an element of table %u holds %" PRIu64 ", expected %" PRIu64 "%s", when, k, *p, r->acked, r->has_pending ? " or the value being stored" : "");
            r->acked = *p;
            r->has_pending = false;
            pop.persist(p, sizeof *p); // from here on it is this value
        }
        for (unsigned i = 0; i < sh->n[k]; ++i) if (!u.count(sh->r[k][i].off)) eng::fail("recovered", "%s: an element of table %u that held %" PRIu64 " is gone", when, k, sh->r[k][i].acked);
    }
    sh->clearing = -1;
}
void crash_case(Src &s)
{
    File file;
    memset(sh, 0, sizeof *sh);
    sh->clearing = -1;
    vrt::on_crash = power_off;
    uint64_t val = 100;
    unsigned ns = 1 + s.below(3);
    for (unsigned ss = 0; ss < ns; ++ss)
    {
        Span sp(s);
        eng::desc(" | session %u", ss);
        vector<Wave> ws;
        vector<vrt::Cfg> cs;
        unsigned nw = 1 + s.below(3);
        for (unsigned i = 0; i < nw; ++i) { Span sp2(s); ws.push_back(gen_wave(s, val, 3, true)); cs.push_back(cfg(s, ws[i].th.size())); }
        unsigned at = s.below(nw);
        bool in_wipe = s.chance(1, 4);
        vrt::Cfg wc = cfg(s, 1);
        wc.crash_at = cs[at].crash_at = 1 + s.below(1ull << (3 + s.below(9)));
        if (s.chance(1, 2)) { wc.crash_kinds = cs[at].crash_kinds = 1u << vrt::K_FLUSH; wc.crash_at = cs[at].crash_at = 1 + s.below(1ull << (2 + s.below(5))); }
        if (in_wipe) { cs[at].crash_at = 0; if (ws[at].after == W_NONE) ws[at].after = W_CLEAR; }
        g_policy = s.below(5); g_pseed = s.bits64();
        bool orderly = s.chance(1, 6);
        if (orderly) wc.crash_at = cs[at].crash_at = 0;
        if (!orderly) eng::desc(": power fails at %" PRIu64 " of %s %u (policy %d)", in_wipe ? wc.crash_at : cs[at].crash_at, in_wipe ? "the end of wave" : "wave", at, g_policy);
        eng::in_child("session", [&] {
            session_start();
            file.open();
            recovered("at the start");
            for (unsigned wi = 0; wi < nw; ++wi)
            {
                auto &w = ws[wi];
                vector<std::function<void()>> b;
                for (unsigned t = 0; t < w.th.size(); ++t)
                    b.push_back([&, t] {
                        for (auto &o : w.th[t])
                        {
                            uint64_t *p = local(o.tab);
                            if (o.k == T_READ) continue;
                            Rec *r = rec(o.tab, off(p), true);
                            if (!r) continue;
                            r->pending = o.val; r->has_pending = true;
                            *p = o.val;
                            pop.persist(p, sizeof *p);
                            r->acked = o.val; r->has_pending = false;
                        }
                    });
                verdict(vrt::run(cs[wi], b, s));
                if (w.after == W_CLEAR || w.after == W_INIT)
                {
                    auto go = [&] {
                        sh->clearing = w.tab;
                        wipe(w.tab, w.after == W_INIT, nullptr);
                        sh->n[w.tab] = 0;
                        sh->clearing = -1;
                    };
                    if (in_wipe && wi == at) verdict(vrt::run(wc, {go}, s)); else go();
                }
            }
            if (orderly) { pop.close(); pm::sync_all(); _exit(0); }
            power_off();
        });
        eng::in_child("recovery", [&] {
            session_start();
            file.open();
            recovered("after the power failure");
            for (unsigned k = 0; k < NTAB; ++k)
            {
                uint64_t *p = local(k);
                Rec *r = rec(k, off(p), false);
                uint64_t want = r ? r->acked : 0;
                if (*p != want) eng::fail("recovered", "local() of table %u gives an element that holds %" PRIu64 ", expected %" PRIu64, k, *p, want);
            }
            recovered("after use");
            if (ss & 1) power_off();
            pop.close(); pm::sync_all(); _exit(0);
        });
    }
    if (sh->lost) { eng::mark_nontrivial(); eng::label("unflushed lines lost"); }
}
// pointers without a pool
struct POp { unsigned k, how, i, j; int n; };
enum { P_SET, P_STEP, P_ADD, P_COPY, P_CONV, P_SWAP, P_NULL, P_RAW, P_CMP, P_GET, P_CSET, P_CNEXT, P_CCOPY, P_NK };
void pptr_case(Src &s)
{
    struct Tx { vector<POp> ops; unsigned end; }; // end: 0 commit, 1 abort, 2 outside of transactions
    vector<Tx> txs;
    unsigned n = 1 + s.below(8);
    static const char *nm[] = {"set", "step", "add", "copy", "convert", "swap", "null", "raw", "compare", "get", "mark", "next", "marked copy"};
    for (unsigned i = 0; i < n; ++i)
    {
        Span sp(s);
        Tx t;
        t.end = s.below(3);
        unsigned m = 1 + s.below(6);
        eng::desc("%s", t.end == 0 ? " {" : t.end == 1 ? " aborted {" : " plain {");
        for (unsigned k = 0; k < m; ++k)
        {
            POp o{(unsigned)s.below(P_NK), (unsigned)s.below(8), (unsigned)s.below(PQ), (unsigned)s.below(PQ), (int)s.below(PN)};
            eng::desc(" %s/%u(%u,%u,%d)", nm[o.k], o.how, o.i, o.j, o.n);
            t.ops.push_back(o);
        }
        eng::desc(" }");
        txs.push_back(t);
    }
    File file;
    eng::in_child("pointers", [&] {
        session_start();
        file.open();
        auto &t = *pop.root()->p;
        uint64_t uuid = pmemobj_oid(&t).pool_uuid_lo;
        D *arr = t.arr.get();
        uint64_t base = t.arr.raw().off;
        for (int i = 0; i <= PN; ++i) { arr[i].a = i; arr[i].d = 100 + i; arr[i].e = 1000 + i; }
        auto at = [&](int i) { return i < 0 ? 0 : base + i * sizeof(D); };
        struct M { int q[PQ], b[PQ], c[PQ]; unsigned mark[PQ], hi[PQ]; } m;
        for (int i = 0; i < PQ; ++i) { m.q[i] = m.b[i] = m.c[i] = -1; m.mark[i] = m.hi[i] = 0; }
        bool aborted = false;
        auto check = [&](const char *when) {
            for (int i = 0; i < PQ; ++i)
            {
                auto &q = t.q[i];
                auto bad = [&](const char *w) { eng::fail("pointer", "%s: %s of pointer %d, which should be at element %d", when, w, i, m.q[i]); };
                const auto &cq = q;
                if (cq.raw() != at(m.q[i])) bad("raw()");
                if ((bool)q != (m.q[i] >= 0) || (q == nullptr) != (m.q[i] < 0) || (nullptr == q) != (m.q[i] < 0) || (q != nullptr) != (m.q[i] >= 0) || (nullptr != q) != (m.q[i] >= 0)) bad("comparison with null");
                D *want = m.q[i] < 0 ? nullptr : arr + m.q[i];
                if (q.get(uuid) != want || q(uuid) != want) bad("get");
                if (q.raw_oid(uuid).off != at(m.q[i]) || q.raw_oid(uuid).pool_uuid_lo != uuid) bad("raw_oid");
                if (want && q.get_persistent_ptr(uuid).get() != want) bad("get_persistent_ptr");
                if (t.b[i].get(uuid) != (m.b[i] < 0 ? nullptr : (B1 *)(arr + m.b[i]))) eng::fail("pointer", "%s: base pointer %d, which should be at element %d", when, i, m.b[i]);
                auto &c = t.c[i];
                D *cw = m.c[i] < 0 ? nullptr : arr + m.c[i];
                if ((cw && (c.get_address(uuid) != cw || c(uuid) != cw)) || c.get_offset() != at(m.c[i]) || c.raw_ptr(uuid).off != at(m.c[i]) || c.raw_ptr(uuid).pool_uuid_lo != uuid) eng::fail("compound", "%s: compound pointer %d, which should be at element %d", when, i, m.c[i]);
                if (c.get_marker() != m.mark[i] || c.raw() != (at(m.c[i]) | m.mark[i] | (uint64_t)m.hi[i] << 48)) eng::fail("compound", "%s: compound pointer %d has marker %u, expected %u", when, i, c.get_marker(), m.mark[i]);
                if (c.next_state() != ((c.raw() & ~3ull) | (m.mark[i] + 1))) eng::fail("compound", "%s: next_state of pointer %d", when, i);
                if ((c == nullptr) != (c.raw() == 0) || (nullptr == c) != (c.raw() == 0) || (c != nullptr) != (c.raw() != 0) || (nullptr != c) != (c.raw() != 0) || (bool)c != (c.raw() != 0)) eng::fail("compound", "%s: compound pointer %d compared with null", when, i);
            }
        };
        auto go = [&](const POp &o) {
            auto &x = t.q[o.i], &y = t.q[o.j];
            int &mx = m.q[o.i], &my = m.q[o.j];
            switch (o.k)
            {
            case P_SET:
                switch (o.how % 4)
                {
                case 0: x = nv::persistent_ptr<D>(PMEMoid{uuid, at(o.n)}); break;
                case 1: x = PMEMoid{uuid, at(o.n)}; break;
                case 2: x = pd::persistent_pool_ptr<D>(at(o.n)); break;
                default: { pd::persistent_pool_ptr<D> z(nv::persistent_ptr<D>(PMEMoid{uuid, at(o.n)})); x = z; }
                }
                mx = o.n;
                break;
            case P_STEP:
                if (mx < 0) break;
                if (o.how & 1) { if (mx == PN) break; if (o.how & 2) { auto r = ++x; if (!(r == x)) eng::fail_exit("pointer", "++x"); } else { auto z = x; auto r = x++; if (!(r == z)) eng::fail_exit("pointer", "x++"); } ++mx; }
                else { if (!mx) break; if (o.how & 2) { auto r = --x; if (!(r == x)) eng::fail_exit("pointer", "--x"); } else { auto z = x; auto r = x--; if (!(r == z)) eng::fail_exit("pointer", "x--"); } --mx; }
                break;
            case P_ADD:
            {
                if (mx < 0) break;
                int st = o.how & 4 ? std::min(o.n, PN - mx) : -std::min(o.n, mx);
                switch (o.how % 4) { case 0: x += st; mx += st; break; case 1: x -= -st; mx += st; break; case 2: y = x + st; my = mx + st; break; default: y = x - -st; my = mx + st; }
                break;
            }
            case P_COPY: if (o.how & 1) x = y; else { auto z = y; x = std::move(z); } mx = my; break;
            case P_CONV:
                if (o.how & 1) { t.b[o.j] = x; m.b[o.j] = mx; }
                else if (o.how & 2) { t.b[o.j] = nv::persistent_ptr<D>(PMEMoid{uuid, at(o.n)}); m.b[o.j] = o.n; }
                else { x = pd::static_persistent_pool_pointer_cast<D>(t.b[o.j]); mx = m.b[o.j]; }
                break;
            case P_SWAP: x.swap(y); std::swap(mx, my); break;
            case P_NULL: x = nullptr; mx = -1; break;
            case P_RAW: x.raw() = at(o.n); mx = o.n; break;
            case P_CMP: if ((x == y) != (mx == my) || (x != y) != (mx != my) || (x == t.b[o.j]) != (mx == m.b[o.j])) eng::fail_exit("pointer", "comparison of pointers at %d and %d", mx, my); break;
            case P_GET: if (mx >= 0) { D *d = x.get(uuid); if (d->a != mx || d->d != 100 + mx || x.get_persistent_ptr(uuid)->e != 1000 + mx) eng::fail_exit("pointer", "the pointer at element %d gives another", mx); } break;
            case P_CSET: { unsigned mk = o.how % 3, hi = o.how & 4 ? 0x8001 : 0; t.c[o.i] = o.how & 1 || mk || hi ? pd::compound_pool_ptr<D>(at(o.n) | mk | (uint64_t)hi << 48) : pd::compound_pool_ptr<D>(PMEMoid{uuid, at(o.n)}); m.c[o.i] = o.n; m.mark[o.i] = mk; m.hi[o.i] = hi; break; }
            case P_CNEXT:
            {
                if (m.mark[o.i] >= 3) break;
                pd::compound_pool_ptr<D> old = t.c[o.i];
                t.c[o.i] = pd::compound_pool_ptr<D>(old.next_state());
                ++m.mark[o.i];
                if (!t.c[o.i].is_next_state_of(old) || old.is_next_state_of(t.c[o.i]) || old == t.c[o.i]) eng::fail_exit("compound", "the next state of a pointer is not recognized");
                break;
            }
            case P_CCOPY:
                if (o.how % 3 == 0) { t.c[o.i] = t.c[o.j]; }
                else if (o.how % 3 == 1) { t.c[o.i].swap(t.c[o.j]); std::swap(m.c[o.i], m.c[o.j]); std::swap(m.mark[o.i], m.mark[o.j]); std::swap(m.hi[o.i], m.hi[o.j]); break; }
                else { t.c[o.i] = nullptr; m.c[o.i] = -1; m.mark[o.i] = m.hi[o.i] = 0; break; }
                m.c[o.i] = m.c[o.j]; m.mark[o.i] = m.mark[o.j]; m.hi[o.i] = m.hi[o.j];
                if (!(t.c[o.i] == t.c[o.j]) || t.c[o.i] != t.c[o.j]) eng::fail_exit("compound", "a copy is not equal");
                break;
            }
        };
        for (auto &x : txs)
        {
            M before = m;
            if (x.end == 2) for (auto &o : x.ops) go(o);
            else
                try
                {
                    nv::transaction::run(pop, [&] {
                        for (auto &o : x.ops) if (x.end == 0 || o.k < P_CSET) go(o); // compound pointers take no part in transactions
                        check("in the transaction");
                        if (x.end == 1) nv::transaction::abort(5);
                    });
                }
                catch (pmem::manual_tx_abort &) { m = before; aborted = true; }
            check(x.end == 0 ? "after the commit" : x.end == 1 ? "after the abort" : "after plain operations");
        }
        pop.close();
        if (aborted || txs.size() >= 3) eng::mark_nontrivial();
        _exit(0);
    });
}
eng::RegProp props[] = {
    {{"C34", "mode tls: waves of 1-4 threads under generated schedules use three per-thread tables (two types) in a pool: every thread has one element of its own, which stays where it is and keeps what was put into it, also for the thread that takes it over later and in the next session; iteration, size, empty, clear, initialize, bounded growth, failing allocations; mode crash: the same with a power failure at a generated point of a wave or of clear: elements whose values were persisted are there, others zero, clear all or nothing; mode pptr: random expressions over persistent_pool_ptr and compound_pool_ptr in committed and aborted transactions against element numbers; non-trivial: several threads met, unflushed lines were lost, a transaction aborted", "exploration", {"schedules interleave whole memory accesses in a sequentially consistent order", "power-failure model: 64-byte lines, durable once flushed and drained; libpmemobj itself is run, not modelled"}}},
};
eng::RegMode modes[] = {
    {{"C34", "tls", tls_case, 5000, 200000, 100}},
    {{"C34", "crash", crash_case, 3000, 100000, 100}},
    {{"C34", "pptr", pptr_case, 4000, 150000, 100}},
};
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch;
    return eng::driver_main(argc, argv);
}
