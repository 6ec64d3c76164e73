// Properties C16-C18: the PMDK concurrent hash map.
#include "engine.hpp"
#include "kv.hpp"
#include "pm.hpp"
#include "sut_chm.hpp"
#include "vrt.hpp"
#include <algorithm>
#include <iostream>
#include <set>
#include <unistd.h>
using eng::Src;
using eng::Span;
using std::vector;
namespace
{
constexpr unsigned NID = 1300; // element numbers
struct Shared
{
    bool present[2][NID]; uint64_t val[2][NID];
    kv::Hist h;
    uint64_t flag[16];
};
Shared *sh;
std::string g_tmpl;

void session_start()
{
    pm::enabled = true;
    pm::clamp_pool = 0;
    vrt::set_plain_filter(pm::tracked);
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
}
const std::string &tmpl()
{
    if (g_tmpl.empty())
    {
        std::string dir = eng::fresh_dir();
        eng::in_child("creation of the pool", [&] {
            session_start();
            chm::create((dir + "/t").c_str());
            chm::close();
        });
        g_tmpl = dir + "/t";
        pm::shrink_lanes(g_tmpl, 64);
    }
    return g_tmpl;
}
void batch()
{
    sh = (Shared *)eng::shared_alloc(sizeof(Shared));
    pm::enabled = false;
    tmpl();
}
struct Pool // pool file of one case
{
    std::string dir, file;
    bool own;
    Pool(bool durable) : own(durable)
    {
        memset(sh->present, 0, sizeof sh->present);
        sh->h.start(0);
        memset(sh->flag, 0, sizeof sh->flag);
        pm::durable = durable;
        if (durable) { dir = eng::fresh_dir(); file = dir + "/p"; pm::copy_sparse(tmpl(), file); }
        else file = tmpl();
    }
    ~Pool() { if (own) eng::remove_tree(dir); }
};
uint64_t key_of(unsigned style, unsigned i)
{
    switch (style)
    {
    case 0: return i;
    case 1: return (uint64_t)i << 8;
    case 2: return (uint64_t)i * 0x9E3779B97F4A7C15ull;
    case 3: return (uint64_t)i << 32;
    case 5: // the first keys change their bucket at every growth
        return (i * 37 & 255) | (i < 8 ? 0xffff00 : (uint64_t)i << 32 | (i * 0x9E3779B97F4A7C15ull >> 40) << 8);
    default: return ~(uint64_t)i;
    }
}
unsigned g_style;
uint64_t K(unsigned i) { return key_of(g_style, i); }

void check_map(int m, const char *when)
{
    uint64_t n = 0;
    for (unsigned i = 0; i < NID; ++i) n += sh->present[m][i];
    if (chm::size(m) != n) eng::fail("size", "%s: map %d: size() = %" PRIu64 ", %" PRIu64 " elements expected", when, m, chm::size(m), n);
    if (chm::empty(m) != (n == 0)) eng::fail("empty", "%s: map %d: empty() is wrong for %" PRIu64 " elements", when, m, n);
    vector<std::pair<uint64_t, uint64_t>> it, ex;
    for (int c = 0; c < 2; ++c)
    {
        it.clear(); ex.clear();
        chm::iterate(m, it, c);
        for (unsigned i = 0; i < NID; ++i) if (sh->present[m][i]) ex.push_back({K(i), sh->val[m][i]});
        std::sort(it.begin(), it.end()); std::sort(ex.begin(), ex.end());
        if (it != ex)
        {
            std::string d;
            char b[80];
            for (auto &e : it) if (!std::binary_search(ex.begin(), ex.end(), e) && d.size() < 500) { snprintf(b, sizeof b, " extra (%" PRIu64 ",%" PRIu64 ")", e.first, e.second); d += b; }
            for (auto &e : ex) if (!std::binary_search(it.begin(), it.end(), e) && d.size() < 500) { snprintf(b, sizeof b, " missing (%" PRIu64 ",%" PRIu64 ")", e.first, e.second); d += b; }
            eng::fail("iteration", "%s: map %d: iteration yields %zu elements, %zu expected:%s", when, m, it.size(), ex.size(), d.c_str());
        }
    }
}
void check_keys(int m, unsigned nk, const char *when)
{
    for (unsigned i = 0; i < nk; ++i)
    {
        uint64_t v = 0;
        bool f = chm::get(m, K(i), &v, i & 1, nullptr);
        if (f != sh->present[m][i] || (f && v != sh->val[m][i]))
            eng::fail("lookup", "%s: map %d: find of element %u gives %s %" PRIu64 ", expected %s %" PRIu64, when, m, i, f ? "true" : "false", v, sh->present[m][i] ? "true" : "false", sh->val[m][i]);
        if (chm::count(m, K(i)) != sh->present[m][i]) eng::fail("count", "%s: map %d: count of element %u is wrong", when, m, i);
    }
}
// ---- C16 ----
struct SOp { unsigned kind; int m; unsigned id; uint64_t v; int how; unsigned n; };
const char *sname[] = {"insert", "insert_or_assign", "erase", "find", "count", "increment", "update", "insert(range)", "rehash", "clear", "swap", "operator=", "operator={}", "reconstruct", "iterate", "defragment", "in transaction", "aborted"};
SOp gen_sop(Src &s, unsigned nk)
{
    SOp o{};
    o.kind = s.weighted({20, 12, 16, 10, 4, 5, 5, 5, 5, 3, 4, 3, 2, 4, 4, 1, 2, 2});
    o.m = s.below(4) == 1;
    o.id = s.below(nk);
    o.v = s.below(100);
    o.how = s.below(6);
    o.n = s.below(3) ? s.below(8) : s.below(300);
    return o;
}
void do_sop(const SOp &o, unsigned idx)
{
    auto *P = sh->present[o.m]; auto *V = sh->val[o.m];
    int ot = !o.m;
    char when[80];
    snprintf(when, sizeof when, "operation %u (%s)", idx, sname[o.kind]);
    auto expect = [&](bool r, bool e) { if (r != e) eng::fail("result", "%s on map %d, element %u: %s, expected %s", when, o.m, o.id, r ? "true" : "false", e ? "true" : "false"); };
    auto copy_model = [&](int to, int from) { memcpy(sh->present[to], sh->present[from], sizeof sh->present[0]); memcpy(sh->val[to], sh->val[from], sizeof sh->val[0]); };
    auto clear_model = [&](int m) { memset(sh->present[m], 0, sizeof sh->present[0]); };
    vector<uint64_t> kv;
    auto range = [&](unsigned n) { for (unsigned j = 0; j < n && o.id + j < NID; ++j) { kv.push_back(K(o.id + j)); kv.push_back(o.v + j); } return (int)kv.size() / 2; };
    switch (o.kind)
    {
    case 0: { bool r = chm::insert(o.m, K(o.id), o.v, o.how); expect(r, !P[o.id]); if (!P[o.id]) { P[o.id] = true; V[o.id] = o.v; } break; }
    case 1: { bool r = chm::put(o.m, K(o.id), o.v, o.how & 1); expect(r, !P[o.id]); P[o.id] = true; V[o.id] = o.v; break; }
    case 2: { bool r = chm::erase(o.m, K(o.id)); expect(r, P[o.id]); P[o.id] = false; break; }
    case 3:
    {
        uint64_t v = 0;
        bool r = chm::get(o.m, K(o.id), &v, o.how & 1, nullptr);
        expect(r, P[o.id]);
        if (r && v != V[o.id]) eng::fail("result", "%s: %" PRIu64 ", expected %" PRIu64, when, v, V[o.id]);
        break;
    }
    case 4: expect(chm::count(o.m, K(o.id)), P[o.id]); break;
    case 5:
    {
        uint64_t e = (P[o.id] ? V[o.id] : 0) + 1, r = chm::increment(o.m, K(o.id), nullptr);
        if (r != e) eng::fail("result", "%s: %" PRIu64 ", expected %" PRIu64, when, r, e);
        P[o.id] = true; V[o.id] = e;
        break;
    }
    case 6: { bool r = chm::update(o.m, K(o.id), o.v, nullptr); expect(r, P[o.id]); if (r) V[o.id] = o.v; break; }
    case 7:
    {
        int n = range(o.how == 0 ? 2 : o.n);
        chm::insert_range(o.m, kv.data(), n, o.how == 0 && n == 2);
        for (int j = 0; j < n; ++j) if (!P[o.id + j]) { P[o.id + j] = true; V[o.id + j] = o.v + j; }
        break;
    }
    case 8: chm::rehash(o.m, o.how == 0 ? 0 : o.n * 4); break;
    case 9: chm::clear(o.m); clear_model(o.m); break;
    case 10:
        chm::swap_maps(o.how & 1);
        for (unsigned i = 0; i < NID; ++i) { std::swap(sh->present[0][i], sh->present[1][i]); std::swap(sh->val[0][i], sh->val[1][i]); }
        break;
    case 11: chm::assign(o.m, o.how == 0 ? o.m : ot); if (o.how) copy_model(o.m, ot); break;
    case 12:
    {
        int n = range(o.how & 3);
        chm::assign_list(o.m, kv.data(), n);
        clear_model(o.m);
        for (int j = 0; j < n; ++j) { P[o.id + j] = true; V[o.id + j] = o.v + j; }
        break;
    }
    case 13:
    {
        int how = o.how % 5, n = range(how == 4 ? o.n : 0);
        chm::reconstruct(o.m, how, o.n, kv.data(), n);
        clear_model(o.m);
        if (how == 2 || how == 3) copy_model(o.m, ot);
        if (how == 3) clear_model(ot);
        for (int j = 0; j < n; ++j) { P[o.id + j] = true; V[o.id + j] = o.v + j; }
        break;
    }
    case 14: check_map(o.m, when); break;
    case 15: chm::defrag(o.m); break;
    case 16:
        if (!chm::in_tx(o.how % 5, o.m, K(o.id))) eng::fail("in-tx", "%s: operation %d was not refused inside a transaction", when, o.how % 5);
        break;
    case 17: chm::aborted(o.how % 3, o.m); break;
    }
}
void seq_case(Src &s)
{
    Pool p(true);
    g_style = s.below(5);
    unsigned hm = s.below(4);
    unsigned nk = s.pick({4u, 12u, 40u, 300u});
    unsigned sessions = 1 + s.below(3);
    eng::desc("hash %u, key style %u;", hm, g_style);
    unsigned total = 0, kinds = 0;
    for (unsigned ss = 0; ss < sessions; ++ss)
    {
        Span sp(s);
        unsigned n = s.small(60);
        vector<SOp> ops;
        for (unsigned i = 0; i < n; ++i) { Span sp(s); ops.push_back(gen_sop(s, nk)); }
        for (auto &o : ops)
        {
            eng::desc(" %s[%d](%u,%" PRIu64 ",%d,%u)", sname[o.kind], o.m, o.id, o.v, o.how, o.n);
            if (o.kind == 8) eng::label("rehash");
            if (o.kind == 10) eng::label("swap");
            if (o.kind == 13) eng::label("reconstruct");
            kinds |= 1u << o.kind;
        }
        total += n;
        if (ss) eng::label("reopened");
        eng::in_child("session", [&] {
            session_start();
            chm::hash_mode = hm;
            chm::open(p.file.c_str());
            char when[60];
            snprintf(when, sizeof when, "session %u, start", ss);
            for (int m = 0; m < 2; ++m) { check_map(m, when); if (ss) check_keys(m, nk, when); }
            unsigned i = 0;
            for (auto &o : ops) do_sop(o, i++);
            snprintf(when, sizeof when, "session %u, end", ss);
            for (int m = 0; m < 2; ++m) { check_map(m, when); check_keys(m, nk, when); }
            for (unsigned j = 0; j < NID; ++j) if (sh->present[0][j] || sh->present[1][j]) sh->flag[0]++;
            chm::close();
            pm::sync_all();
        });
        eng::desc(" | reopen:");
    }
    if (sh->flag[0] >= 2 && total >= 5) eng::mark_nontrivial();
}
// ---- C17, C18 ----
kv::Op gen_kop(Src &s, unsigned nk, bool crash)
{
    kv::Op o{};
    static const kv::Kind a[] = {kv::INS, kv::ERA, kv::GET, kv::PUT, kv::CNT, kv::UPD, kv::INC};
    o.kind = a[crash ? s.weighted({6, 6, 2, 5, 1, 3, 0}) : s.weighted({6, 6, 4, 3, 1, 3, 4})];
    o.key = s.below(nk);
    o.arg = 1000 + s.below(50);
    o.noval = false;
    return o;
}
void inside()
{
    for (int i = 0; i < 3; ++i) vrt::point(vrt::K_RMW);
}
void apply(const kv::Op &o0, int thr, unsigned how, int serial)
{
    kv::Op o = o0;
    o.thr = thr;
    o.arg += 64 * serial; // values are unique
    int i = sh->h.begin(o);
    bool rb = false; uint64_t rv = 0;
    auto in = how & 1 ? inside : nullptr;
    switch (o.kind)
    {
    case kv::INS: rb = chm::insert(0, K(o.key), o.arg, how % 5); break;
    case kv::PUT: rb = chm::put(0, K(o.key), o.arg, how & 1); break;
    case kv::ERA: rb = chm::erase(0, K(o.key)); break;
    case kv::GET: rb = chm::get(0, K(o.key), &rv, how & 2, in); break;
    case kv::CNT: rb = chm::count(0, K(o.key)); break;
    case kv::INC: rv = chm::increment(0, K(o.key), in); rb = true; break;
    case kv::UPD: rb = chm::update(0, K(o.key), o.arg, in); break;
    }
    sh->h.end(i, rb, rv);
}
// reads back the state of the history's keys
vector<kv::St> read_back(unsigned nk)
{
    vector<kv::St> r;
    for (unsigned i = 0; i < nk; ++i)
    {
        uint64_t v = 0;
        bool f = chm::get(0, K(i), &v, false, nullptr);
        if (chm::count(0, K(i)) != f) eng::fail("count", "count and find disagree on element %u", i);
        r.push_back({f, f ? v : 0});
    }
    return r;
}
void adopt(const vector<kv::St> &st)
{
    for (unsigned i = 0; i < st.size(); ++i) { sh->present[0][i] = st[i].p; sh->val[0][i] = st[i].v; }
}
void usable(unsigned nk, const char *when)
{
    // every key can be erased and inserted again, and more can be added
    for (unsigned i = 0; i < nk; ++i)
    {
        if (chm::erase(0, K(i)) != sh->present[0][i]) eng::fail("usable", "%s: erase of element %u gives the wrong result", when, i);
        if (!chm::insert(0, K(i), i, 0)) eng::fail("usable", "%s: insert of element %u refused", when, i);
        sh->present[0][i] = true; sh->val[0][i] = i;
    }
    for (unsigned i = nk; i < nk + 20; ++i)
    {
        if (chm::insert(0, K(i), i, 0) == sh->present[0][i]) eng::fail("usable", "%s: insert of element %u gives the wrong result", when, i);
        if (!sh->present[0][i]) { sh->present[0][i] = true; sh->val[0][i] = i; }
    }
    check_map(0, when);
    check_keys(0, nk + 20, when);
}
struct Prog { vector<vector<kv::Op>> t; vector<vector<unsigned>> how; };
Prog gen_prog(Src &s, unsigned nt, unsigned nk, unsigned maxops, bool crash)
{
    Prog p;
    for (unsigned i = 0; i < nt; ++i)
    {
        p.t.emplace_back(); p.how.emplace_back();
        unsigned n = 1 + s.below(maxops);
        eng::desc("; thread %u:", i);
        for (unsigned j = 0; j < n; ++j)
        {
            Span sp(s);
            p.t[i].push_back(gen_kop(s, nk, crash));
            p.how[i].push_back(s.below(20));
            eng::desc(" %s(%u)/%u", kv::kind_name[p.t[i][j].kind], p.t[i][j].key, p.how[i][j]);
        }
    }
    return p;
}
vector<std::function<void()>> bodies(const Prog &p)
{
    vector<std::function<void()>> b;
    for (unsigned i = 0; i < p.t.size(); ++i)
        b.push_back([&p, i] { for (unsigned j = 0; j < p.t[i].size(); ++j) apply(p.t[i][j], i, p.how[i][j], i * 16 + j); });
    return b;
}
unsigned gen_preload(Src &s)
{
    // sizes at which the table grows
    static const unsigned around[] = {0, 1, 3, 7, 15, 31, 63, 127, 255};
    unsigned n = around[s.below(9)] + s.below(4);
    return n > 1 ? n - 1 : n;
}
void preload(unsigned n, unsigned from)
{
    for (unsigned i = 0; i < n; ++i)
    {
        chm::insert(0, K(from + i), i, 0);
        sh->present[0][from + i] = true; sh->val[0][from + i] = i;
    }
}
void verdict(const vrt::Result &r)
{
    if (r.end == vrt::DEADLOCK) eng::fail("deadlock", "all threads wait for locks");
    if (r.end == vrt::LIMIT) eng::fail("hang", "the operations do not finish");
    if (r.end == vrt::BLOCKED) eng::fail("hang", "threads wait for a suspended one");
}
void conc(Src &s, bool growth)
{
    Pool p(false);
    g_style = s.below(4);
    unsigned hm = s.below(4), nk = 1 + s.below(4), pre = gen_preload(s), nt = 2 + s.below(growth ? 2 : 3);
    // one thread inserts many elements: the table can grow more than once (at 256, 512 elements) while another
    // thread is in one operation
    unsigned bulk = 0, bulk_at = 0;
    if (growth)
    {
        static const unsigned styles[] = {5, 2, 1, 3, 0};
        g_style = styles[s.weighted({5, 3, 2, 1, 1})];
        hm = s.weighted({4, 1, 0, 1});
        if (s.chance(3, 5)) pre = 250 + s.below(8);
        bulk = s.chance(1, 4) ? 1 + s.below(500) : (pre < 250 ? 512 - pre : 260) + s.below(60);
        bulk_at = s.weighted({4, 1, 1});
    }
    const unsigned bulk_from = nk + pre;
    bool rehashed = s.chance(1, 2); // element buckets already used once
    eng::desc("hash %u, key style %u, %u elements before%s", hm, g_style, pre, rehashed ? ", touched" : "");
    if (growth) eng::desc(", thread 0 inserts %u more after %u operations", bulk, bulk_at);
    Prog pr = gen_prog(s, nt, nk, nt > 3 ? 3 : 6, false);
    vrt::Cfg c = vrt::gen_cfg(s, nt);
    if (growth)
    {
        if (s.chance(1, 2)) { c.gapmax = 1ull << (6 + s.below(13)); c.geo = 0; }
        if (s.chance(3, 4))
        {
            static const unsigned at[] = {50, 150, 600};
            c.stall_thread = 1 + s.below(nt - 1); c.stall_at = 1 + s.below(at[s.below(3)]);
            c.stall_len = s.chance(1, 2) ? ~0ull : 1ull << (10 + s.below(13));
        }
    }
    c.stall_soft = true; // the map uses locks
    c.real_threads = true;
    c.limit = growth ? 8000000 : 2000000; c.fair_after = growth ? 4000000 : 200000;
    eng::in_child("concurrent operations", [&] {
        session_start();
        chm::hash_mode = hm;
        chm::open(p.file.c_str());
        preload(pre, s.chance(1, growth ? 4 : 2) ? nk : 0);
        if (rehashed) for (unsigned i = 0; i < nk + pre; ++i) chm::count(0, K(i));
        sh->h.start(nk);
        for (unsigned i = 0; i < nk; ++i) { sh->h.present[i] = sh->present[0][i]; sh->h.val[i] = sh->val[0][i]; }
        auto bs = bodies(pr);
        uint64_t buckets = 0;
        if (growth)
        {
            bs[0] = [&] {
                auto rest = [&](unsigned a, unsigned b) { for (unsigned j = a; j < b && j < pr.t[0].size(); ++j) apply(pr.t[0][j], 0, pr.how[0][j], j); };
                rest(0, bulk_at);
                for (unsigned e = bulk_from; e < bulk_from + bulk; ++e)
                    if (!chm::insert(0, K(e), e, e % 5)) eng::fail_exit("bulk", "insert of the new element %u refused", e);
                rest(bulk_at, 99);
            };
            buckets = chm::buckets(0);
        }
        auto r = vrt::run(c, bs, s);
        if (r.switches >= 3) eng::mark_nontrivial();
        verdict(r);
        for (unsigned e = bulk_from; e < bulk_from + bulk; ++e) { sh->present[0][e] = true; sh->val[0][e] = e; }
        if (growth && chm::buckets(0) >= 4 * buckets) eng::label("grew twice");
        auto fin = read_back(nk);
        kv::check(sh->h, &fin, true, "linearizability");
        adopt(fin);
        check_map(0, "after the concurrent operations");
        check_keys(0, bulk_from + bulk, "after the concurrent operations");
        _exit(0);
    });
}
void conc_case(Src &s) { conc(s, false); }
void growth_case(Src &s) { conc(s, true); }
int g_policy; uint64_t g_pseed;
void power_off()
{
    auto st = pm::power_failure(g_policy, g_pseed);
    sh->flag[1] += st.lost;
    sh->flag[2] = 1;
    pm::crash_exit();
}
void crash_case(Src &s)
{
    Pool p(true);
    g_style = s.below(4);
    unsigned hm = s.below(4), nk = 1 + s.below(5), pre = gen_preload(s);
    unsigned sessions = 1 + s.below(3);
    eng::desc("hash %u, key style %u, %u elements before", hm, g_style, pre);
    vrt::on_crash = power_off;
    unsigned from = s.chance(1, 2) ? 0 : nk;
    if (pre)
        eng::in_child("preparation", [&] {
            session_start();
            chm::hash_mode = hm;
            chm::open(p.file.c_str());
            preload(pre, from);
            chm::close();
            pm::sync_all();
        });
    for (unsigned ss = 0; ss < sessions; ++ss)
    {
        Span sp(s);
        unsigned nt = s.weighted({3, 1, 1}) + 1;
        eng::desc(" | session %u", ss);
        Prog pr = gen_prog(s, nt, nk, nt == 1 ? 8 : 3, true);
        vrt::Cfg c = vrt::gen_cfg(s, nt);
        c.stall_soft = true;
        c.real_threads = nt > 1;
        c.limit = 2000000; c.fair_after = 200000;
        if (s.below(2)) c.kinds |= 1u << vrt::K_PLAIN;
        bool in_recovery = (ss || pre) && s.chance(1, 3);
        c.crash_at = 1 + s.below(1ull << (4 + s.below(in_recovery ? 7 : 9)));
        if (s.chance(1, 3)) { c.crash_kinds = 1u << vrt::K_FLUSH; c.crash_at = 1 + s.below(1ull << (3 + s.below(6))); }
        g_policy = s.below(5); g_pseed = s.bits64();
        uint64_t ev_at = s.chance(1, 3) ? 1 + s.below(1000) : 0, ev_seed = ev_at ? s.bits64() : 0;
        eng::desc(" power fails at %" PRIu64 "%s%s (policy %d)", c.crash_at, ~c.crash_kinds ? " (flushes)" : "", in_recovery ? " of recovery" : "", g_policy);
        static uint64_t es; es = ev_seed;
        vrt::on_hook = [] { pm::evict(es, 1, 3); };
        c.hook_at = ev_at;
        sh->flag[2] = 0;
        sh->h.start(0);
        eng::in_child("session", [&] {
            session_start();
            chm::hash_mode = hm;
            if (in_recovery)
            {
                auto r = vrt::run(c, {[&] { chm::open(p.file.c_str()); }}, s);
                verdict(r);
                power_off();
            }
            chm::open(p.file.c_str());
            char when[60];
            snprintf(when, sizeof when, "session %u, after opening", ss);
            check_map(0, when);
            sh->h.start(nk);
            for (unsigned i = 0; i < nk; ++i) { sh->h.present[i] = sh->present[0][i]; sh->h.val[i] = sh->val[0][i]; }
            auto r = vrt::run(c, bodies(pr), s);
            verdict(r);
            power_off();
        });
        unsigned done = 0, cut = 0;
        for (unsigned i = 0; i < sh->h.n; ++i) (sh->h.e[i].res ? done : cut)++;
        if (cut || sh->flag[1]) eng::mark_nontrivial();
        if (cut) eng::label("operations cut off");
        if (in_recovery) eng::label("power failure in recovery");
        if (sh->flag[1]) eng::label("unflushed lines lost");
        bool last = ss + 1 == sessions;
        eng::in_child("recovery", [&] {
            session_start();
            chm::hash_mode = hm;
            chm::open(p.file.c_str());
            if (sh->h.nkeys)
            {
                auto fin = read_back(nk);
                kv::check(sh->h, &fin, true, "durability");
                adopt(fin);
            }
            check_map(0, "after the power failure");
            check_keys(0, std::min(NID, nk + pre), "after the power failure");
            if (last) usable(nk, "after the power failure");
            if (s.chance(1, 2)) { chm::close(); pm::sync_all(); _exit(0); }
            // otherwise what the recovery did is itself cut off
            power_off();
        });
    }
}
#define EXPL "exploration"
const char *A_SC = "schedules interleave whole memory accesses in a sequentially consistent order";
const char *A_NVM = "power-failure model: 64-byte lines, durable once flushed and drained; unflushed lines are kept or lost line by line, with the contents they had at the failure or at a generated eviction; libpmemobj itself (the system library) is run, not modelled";
const char *A_KEY = "initializer lists and ranges for construction hold no key twice";
eng::RegProp props[] = {
    {{"C16", "random sequences over two maps in one pool (every insert overload, insert_or_assign, erase, find, count, accessors, range insertion, rehash, clear, swap, assignment, re-construction, iteration, defragmentation, calls inside and aborts of transactions), up to three sessions of the pool, four hash functions and five key styles; every result and all contents compared with a reference map; non-trivial: at least five operations and two elements at the end", EXPL, {A_KEY}}},
    {{"C17", "2-4 threads with up to 6 operations each on 1-4 keys in a map preloaded to sizes around its growth points, generated schedules that switch at memory accesses, locks and flushes, also while accessors are held; per-key linearizability, iteration and size afterwards, no deadlock; non-trivial: at least three context switches", EXPL, {A_SC}}},
    {{"C18", "1-3 threads, power failure at a generated memory access or flush (also during recovery, repeatedly), five policies for unflushed lines and evictions; reopened map against the history (durable linearizability), size, iteration, and use afterwards; non-trivial: operations were cut off or unflushed lines lost", EXPL, {A_SC, A_NVM}}},
};
eng::RegMode modes[] = {
    {{"C16", "seq", seq_case, 12000, 600000, 100}},
    {{"C17", "conc", conc_case, 30000, 3000000, 100}},
    {{"C17", "growth", growth_case, 5000, 500000, 50}},
    {{"C18", "crash", crash_case, 12000, 1000000, 100}},
};
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch;
    return eng::driver_main(argc, argv);
}
