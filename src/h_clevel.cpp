// Properties C19-C21: the level hash map with its expansion thread.
#include "engine.hpp"
#include "kv.hpp"
#include "pm.hpp"
#include "sut_clevel.hpp"
#include "vrt.hpp"
#include <algorithm>
#include <iostream>
#include <sched.h>
#include <unistd.h>
using eng::Src;
using eng::Span;
using std::vector;
namespace
{
constexpr unsigned MAXK = 256, MAXT = 5;
struct Ev { uint64_t inv, res; uint8_t kind, thr, r; uint16_t key; uint64_t v; };
struct Shared
{
    uint32_t n;
    Ev e[4096];
    bool present[MAXK]; uint64_t val[MAXK]; // before the history
    uint64_t flag[16];
    uint32_t nkeys;
} *sh;
std::string g_tmpl;
enum { INS, SEA, ERA, UPD };
const char *kname[] = {"insert", "search", "erase", "update"};

// ---- quiescence: no client is inside the map and the expansion thread has found nothing to do ----
unsigned g_nt, g_arrived, g_round, g_sleeps;
bool g_alone; // the expansion thread does not exist (reopened map)
void on_sleep() { ++g_sleeps; }
void barrier(unsigned round)
{
    if (++g_arrived == g_nt * round) { g_sleeps = 0; g_round = round; }
    // two rounds of the expansion thread: the first may have begun before the last client arrived
    while (g_round < round || (!g_alone && g_sleeps < 2)) sched_yield();
}
void session_start()
{
    pm::enabled = true;
    pm::clamp_pool = 0;
    vrt::adopt_threads = true;
    vrt::on_sleep = on_sleep;
    vrt::set_plain_filter(pm::tracked);
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
    g_arrived = g_round = g_sleeps = 0;
    g_alone = false;
}
void batch()
{
    sh = (Shared *)eng::shared_alloc(sizeof(Shared));
    pm::enabled = false;
    if (g_tmpl.empty())
    {
        std::string dir = eng::fresh_dir();
        eng::in_child("creation of the pool", [&] {
            session_start();
            clv::create((dir + "/t").c_str());
        });
        g_tmpl = dir + "/t";
        pm::shrink_lanes(g_tmpl, 64);
    }
}
struct Pool
{
    std::string dir, file;
    bool own;
    Pool(bool durable) : own(durable)
    {
        memset(sh, 0, sizeof *sh);
        pm::durable = durable;
        if (durable) { dir = eng::fresh_dir(); file = dir + "/p"; pm::copy_sparse(g_tmpl, file); }
        else file = g_tmpl;
    }
    ~Pool() { if (own) eng::remove_tree(dir); }
};
// ---- programs: rounds of operations per client; between two rounds the map is at rest ----
struct Op { uint8_t kind; uint16_t key; uint64_t v; bool copy; };
struct Prog
{
    unsigned nt, nk, ncommon; // the first ncommon keys belong to nobody: all may insert them, none erases them
    bool reader_only0;
    vector<vector<vector<Op>>> r; // round, client
};
// growth: insertions and searches; otherwise erasures, updates and searches
Prog gen_prog(Src &s, unsigned nt, unsigned nk, unsigned ncommon, unsigned rounds, unsigned len, bool overlap = false)
{
    Prog p{nt, nk, ncommon, false, {}};
    unsigned fresh = ncommon; // next key that was not inserted yet, per client below
    vector<unsigned> next(nt, 0);
    for (unsigned r = 0; r < rounds; ++r)
    {
        Span sp(s);
        bool growth = r == 0 || s.below(3) != 2;
        if (overlap) growth = true;
        p.r.emplace_back(nt);
        eng::desc(" | round %u (%s):", r, overlap ? "all" : growth ? "insert, search" : "erase, update, search");
        for (unsigned t = 0; t < nt; ++t)
        {
            unsigned n = s.below(2) ? 1 + s.small(len) : len;
            eng::desc(" [%u]", t);
            for (unsigned i = 0; i < n; ++i)
            {
                Span sp2(s);
                Op o{};
                if (overlap) { static const uint8_t k[] = {INS, ERA, UPD, SEA}; o.kind = k[s.weighted({6, 2, 1, 1})]; }
                else if (growth) o.kind = s.weighted({5, 1}) ? SEA : INS;
                else { static const uint8_t k[] = {ERA, UPD, SEA}; o.kind = k[s.weighted({3, 2, 1})]; }
                unsigned per = (nk - ncommon) / nt; // own keys
                if (o.kind == SEA)
                {
                    unsigned w = s.below(4), c = s.below(nt), c1 = next[c];
                    if (w && per && c1) o.key = ncommon + (w == 1 ? s.below(std::min(per, c1)) : std::min(per, c1) - 1 - s.below(std::min({per, c1, 3u}))) * nt + c;
                    else o.key = s.below(nk);
                }
                else if (o.kind == INS && ncommon && s.chance(1, 4)) o.key = s.below(ncommon);
                else if (per == 0) { o.kind = SEA; o.key = s.below(nk); }
                else
                {
                    unsigned w = s.below(4);
                    unsigned own = w < 2 || !next[t] ? next[t] % per : s.below(std::min(per, next[t] + 1));
                    if (w < 2 && o.kind == INS) ++next[t];
                    else if (o.kind != INS && next[t]) own = s.below(2) ? s.below(std::min(per, next[t])) : std::min(per, next[t]) - 1 - s.below(std::min({per, next[t], 3u}));
                    o.key = ncommon + own * nt + t;
                }
                o.v = s.below(1000); o.copy = s.below(2);
                if (o.kind != INS && o.kind != UPD) o.v = 0;
                p.r[r][t].push_back(o);
                eng::desc(" %s(%u)", kname[o.kind], o.key);
            }
        }
    }
    (void)fresh;
    return p;
}
bool g_values; // compare values, too
void apply(const Op &o, unsigned t)
{
    if (sh->n >= 4096) eng::fail_exit("harness", "history overflow");
    auto &e = sh->e[sh->n++];
    e.res = 0; e.kind = o.kind; e.key = o.key; e.thr = t; e.v = o.v;
    e.inv = vrt::stamp();
    uint64_t v = o.v;
    bool r = false;
    switch (o.kind)
    {
    case INS: r = clv::insert(o.key, o.v, t + 1, o.copy); break;
    case ERA: r = clv::erase(o.key, t + 1); break;
    case UPD: r = clv::update(o.key, o.v, t + 1, o.copy); break;
    default: r = clv::search(o.key, &v); break;
    }
    e.r = r; e.v = v;
    e.res = vrt::stamp();
}
vector<std::function<void()>> bodies(const Prog &p, vrt::Cfg &c)
{
    vector<std::function<void()>> b;
    g_nt = p.nt;
    for (unsigned t = 0; t < p.nt; ++t)
        b.push_back([&p, t] {
            uint64_t cap = 0;
            for (unsigned r = 0; r < p.r.size(); ++r)
            {
                if (r) barrier(r);
                for (auto &o : p.r[r][t])
                {
                    apply(o, t);
                    uint64_t n = clv::capacity();
                    if (n < cap) eng::fail_exit("capacity", "the capacity falls from %" PRIu64 " to %" PRIu64, cap, n);
                }
            }
        });
    auto d = vrt::take_adopted();
    c.ndaemon = d.size();
    g_alone = d.empty();
    for (auto &x : d) b.push_back(x);
    return b;
}
std::string show(unsigned key)
{
    std::string r = "  before: ";
    char b[200];
    snprintf(b, sizeof b, sh->present[key] ? "%" PRIu64 "\n" : "absent\n", sh->val[key]); r += b;
    for (unsigned i = 0; i < sh->n; ++i)
        if (sh->e[i].key == key)
        {
            auto &x = sh->e[i];
            snprintf(b, sizeof b, "  [%" PRIu64 "..%" PRIu64 "] client %d: %s(%" PRIu64 ") %s\n", x.inv, x.res, x.thr, kname[x.kind], x.v, !x.res ? "(cut off)" : x.r ? "= true" : "= false");
            r += b;
        }
    return r;
}
// common keys: inserted by several at once, never erased. Whoever's insertion counted is open; presence is not.
void check_common(unsigned k, bool fin, bool crashed)
{
    uint64_t sure = sh->present[k] ? 0 : ~0ull, maybe = sh->present[k] ? 0 : ~0ull;
    for (unsigned i = 0; i < sh->n; ++i)
        if (auto &e = sh->e[i]; e.key == k && e.kind == INS) { maybe = std::min(maybe, e.inv); if (e.res) sure = std::min(sure, e.res); }
    uint64_t seen = ~0ull; // the end of the first search that found it
    for (unsigned i = 0; i < sh->n; ++i)
        if (auto &e = sh->e[i]; e.key == k && e.kind == SEA && e.res && e.r) seen = std::min(seen, e.res);
    for (unsigned i = 0; i < sh->n; ++i)
        if (auto &e = sh->e[i]; e.key == k && e.res)
        {
            if (e.kind == SEA && !e.r && (e.inv > sure || e.inv > seen)) eng::fail("lost", "key %u was inserted, a later search does not find it:\n%s", k, show(k).c_str());
            if (e.kind == SEA && e.r && e.res < maybe) eng::fail("ghost", "key %u is found before anyone inserts it:\n%s", k, show(k).c_str());
            if (e.kind == INS && e.r && sh->present[k]) eng::fail("insert", "insert returns true, key %u was there:\n%s", k, show(k).c_str());
        }
    if (!fin && (sure != ~0ull || (seen != ~0ull && !crashed))) eng::fail("lost", "key %u was inserted and is not found in the end:\n%s", k, show(k).c_str());
    if (fin && maybe == ~0ull) eng::fail("ghost", "key %u is found in the end, but was never inserted", k);
}
void check(const Prog &p, const vector<kv::St> &fin, const char *sig, bool crashed = false)
{
    for (unsigned k = 0; k < p.nk; ++k)
    {
        if (k < p.ncommon) { check_common(k, fin[k].p, crashed); continue; }
        vector<lin::Entry<kv::Op>> v;
        for (unsigned i = 0; i < sh->n; ++i)
            if (auto &e = sh->e[i]; e.key == k && (!crashed || e.kind != SEA)) // what another client saw may still be lost
            {
                kv::Op o{};
                static const kv::Kind kk[] = {kv::INS, kv::GET, kv::ERA, kv::UPD};
                o.kind = kk[e.kind]; o.arg = e.v; o.rb = e.r; o.rv = e.v; o.noval = !g_values;
                v.push_back({e.inv, e.res ? e.res : ~0ull - 2, !e.res, o});
            }
        kv::Op g{};
        g.kind = kv::GET; g.rb = fin[k].p; g.rv = fin[k].v; g.noval = !g_values;
        v.push_back({~0ull - 1, ~0ull, false, g});
        bool gave = false;
        kv::St init{sh->present[k] ? 1ull : 0, sh->present[k] ? sh->val[k] : 0};
        if (!lin::linearizable(v, init, kv::step, &gave))
            eng::fail(sig, "no order of the calls on key %u explains the results:\n%s  found afterwards: %s %" PRIu64, k, show(k).c_str(), fin[k].p ? "present" : "absent", fin[k].v);
        if (gave) eng::label("search-gave-up");
    }
}
vector<kv::St> read_back(unsigned nk)
{
    vector<kv::St> r(nk);
    for (unsigned k = 0; k < nk; ++k) { uint64_t v = 0; r[k].p = clv::search(k, &v); r[k].v = r[k].p ? v : 0; }
    for (unsigned k = nk; k < nk + 5; ++k) if (clv::search(k, nullptr)) eng::fail("ghost", "key %u is found, but was never inserted", k);
    return r;
}
void verdict(const vrt::Result &r)
{
    if (r.end == vrt::DEADLOCK) eng::fail("deadlock", "all threads wait for each other");
    if (r.end == vrt::LIMIT || r.end == vrt::BLOCKED) eng::fail("hang", "the operations do not finish");
}
// erasures that overlap an expansion: is a key there again although its client erased it last?
void check_overlap(const Prog &p, const vector<kv::St> &fin)
{
    for (unsigned k = 0; k < p.nk; ++k)
    {
        bool there = false;
        for (unsigned i = 0; i < sh->n; ++i)
            if (auto &e = sh->e[i]; e.key == k && (e.kind == INS || e.kind == ERA)) there = e.kind == INS;
        if (!there && fin[k].p) eng::fail("resurrected", "key %u was erased and is found again:\n%s", k, show(k).c_str());
    }
}
void run_case(Src &s, unsigned nt, unsigned ncommon, bool seq, bool overlap = false)
{
    Pool p(false);
    unsigned hm = s.below(5), hp = 2 + s.below(3), nk = s.pick({16u, 100u, 250u});
    if (overlap) nk = 250, hp = 2, hm = 3;
    if (hm == 1 || hm == 4) nk = std::min(nk, 40u);
    ncommon = std::min(ncommon, nk / 4);
    eng::desc("2^%u buckets, hash %u, %u keys (%u common)", hp, hm, nk, ncommon);
    Prog pr = gen_prog(s, nt, nk, ncommon, 1 + s.below(seq ? 8 : 4), overlap ? 150u : s.pick({10u, seq ? 150u : 60u, seq ? 250u : 90u}), overlap);
    vrt::Cfg c = vrt::gen_cfg(s, nt + 1);
    c.stall_soft = true; // libpmemobj's allocator has locks
    if (c.stall_thread >= 0 && c.stall_len == ~0ull) c.stall_len = 500ull << s.below(8);
    c.kinds |= 1u << vrt::K_PLAIN;
    c.real_threads = true;
    c.limit = 6000000; c.fair_after = 2000000;
    eng::in_child("operations", [&] {
        session_start();
        clv::hash_mode = hm;
        clv::open(p.file.c_str());
        clv::make(hp, nt + 1);
        uint64_t cap0 = clv::capacity();
        auto b = bodies(pr, c);
        auto r = vrt::run(c, b, s);
        verdict(r);
        uint64_t cap = clv::capacity();
        if (cap > cap0) { eng::label("grew"); eng::mark_nontrivial(); }
        if (cap > 2 * cap0) eng::label("grew twice or more");
        vrt::Pause ps;
        auto fin = read_back(nk);
        if (overlap) check_overlap(pr, fin);
        else check(pr, fin, seq ? "semantics" : "linearizability");
        _exit(0);
    });
}
void seq_case(Src &s) { g_values = true; run_case(s, 1, 0, true); }
void conc_case(Src &s) { g_values = true; run_case(s, 2 + s.below(3), s.pick({0u, 6u}), false); }
// the recorded finding: what else happens once a freed entry is back in the table is not looked at
void overlap_case(Src &s)
{
    g_values = true;
    try { run_case(s, 1 + s.below(2), 0, false, true); }
    catch (eng::Failed &)
    {
        if (!eng::shm->failed || !strcmp(eng::shm->sig, "resurrected")) throw;
        eng::shm->failed = 0;
        eng::label("aftermath");
    }
}
int g_policy; uint64_t g_pseed;
void power_off()
{
    auto st = pm::power_failure(g_policy, g_pseed);
    sh->flag[1] += st.lost;
    pm::crash_exit();
}
void crash_case(Src &s)
{
    Pool p(true);
    g_values = true;
    unsigned hm = s.below(5), hp = 2 + s.below(2), nk = s.pick({8u, 40u, 120u}), nt = s.weighted({3, 1, 1}) + 1;
    if (hm == 1 || hm == 4) nk = std::min(nk, 40u);
    unsigned ncommon = nt > 1 ? std::min(s.pick({0u, 4u}), nk / 4) : 0;
    eng::desc("2^%u buckets, hash %u, %u keys (%u common)", hp, hm, nk, ncommon);
    Prog pr = gen_prog(s, nt, nk, ncommon, 1 + s.below(4), s.pick({10u, 60u, 100u}));
    vrt::Cfg c = vrt::gen_cfg(s, nt + 1);
    c.stall_soft = true; // libpmemobj's allocator has locks
    if (c.stall_thread >= 0 && c.stall_len == ~0ull) c.stall_len = 500ull << s.below(8);
    c.kinds |= 1u << vrt::K_PLAIN;
    c.real_threads = true;
    c.limit = 6000000; c.fair_after = 2000000;
    unsigned at = s.weighted({3, 2, 2}); // any point, any flush, a flush of the expansion thread
    c.crash_at = 1 + s.below(1ull << (at ? 2 + s.below(at == 1 ? 10 : 8) : 6 + s.below(13)));
    if (at) c.crash_kinds = 1u << vrt::K_FLUSH;
    if (at == 2) c.crash_thread = nt;
    g_policy = s.below(5); g_pseed = s.bits64();
    uint64_t ev_at = s.chance(1, 3) ? 1 + s.below(at ? 20000 : c.crash_at) : 0;
    static uint64_t es;
    es = ev_at ? s.bits64() : 0;
    vrt::on_hook = [] { pm::evict(es, 1, 3); };
    c.hook_at = ev_at;
    vrt::on_crash = power_off;
    static const char *what[] = {"", " (flushes)", " (flushes of the expansion thread)"};
    eng::desc("; power fails at %" PRIu64 "%s (policy %d)", c.crash_at, what[at], g_policy);
    eng::in_child("session", [&] {
        session_start();
        clv::hash_mode = hm;
        clv::open(p.file.c_str());
        clv::make(hp, nt + 1);
        auto b = bodies(pr, c);
        auto r = vrt::run(c, b, s);
        verdict(r);
        power_off();
    });
    unsigned done = 0, cut = 0;
    for (unsigned i = 0; i < sh->n; ++i) (sh->e[i].res ? done : cut)++;
    if (cut) eng::label("operations cut off");
    if (sh->flag[1]) eng::label("unflushed lines lost");
    if (done && (cut || sh->flag[1])) eng::mark_nontrivial();
    eng::in_child("recovery", [&] {
        session_start();
        clv::hash_mode = hm;
        clv::open(p.file.c_str());
        clv::attach();
        auto fin = read_back(nk);
        check(pr, fin, "durability", true);
        _exit(0);
    });
}
#define EXPL "exploration"
const char *A_NVM = "a cache line reaches the medium by flush and fence or by eviction; libpmemobj itself is executed, not modelled";
const char *A_SC = "schedules interleave whole memory accesses in a sequentially consistent order";
eng::RegProp props[] = {
    {{"C19",
      "A case creates a table of 4 to 16 buckets (one of five hash functions, some of which make keys share the tag or the buckets or both) and lets one client run up to 8 rounds of operations (up to 250 each) on up to 250 keys "
      "while the map's own expansion thread runs under the generated schedule, preempted at every memory access. Rounds of insertions and searches (the table grows) alternate with rounds of erasures, updates and searches; between "
      "two rounds the expansion finishes. Every result and the contents afterwards (every key, values too) are compared with a reference map; the capacity may never fall. Non-trivial: the table grew.", EXPL, {A_SC}}},
    {{"C20",
      "As C19, with two to four clients at once, each with keys of its own, and (in half of the cases) up to 6 keys that all clients insert and search and nobody erases. Per own key: a linearizability checker over all calls, including the searches of "
      "the other clients and the contents afterwards. Per common key: a search that begins after an insertion ended (or after another search found it) finds it, and none finds it before an insertion began. "
      "Non-trivial: the table grew. Mode overlap lets erasures and updates overlap expansions and looks only for erased keys that come back (a recorded finding).", EXPL, {A_SC}}},
    {{"C21",
      "As C19 and C20 with one to three clients on a pool of its own; the power fails at a generated point of the schedule (any access, or a generated flush of any thread or of the expansion thread): lines that were not flushed and fenced are lost, kept or torn by one of five policies, "
      "after generated evictions. The pool is reopened and every key is searched; the recovered contents must be explained by the completed calls plus any subset of the ones cut off. "
      "Non-trivial: at least one call completed, and a call was cut off or unflushed lines were lost.", EXPL, {A_SC, A_NVM}}},
};
eng::RegMode modes[] = {
    {{"C19", "seq", seq_case, 6000, 300000, 100}},
    {{"C20", "conc", conc_case, 6000, 300000, 100}},
    {{"C20", "overlap", overlap_case, 600, 6000, 100}},
    {{"C21", "crash", crash_case, 12000, 300000, 100}},
};
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch;
    return eng::driver_main(argc, argv);
}
