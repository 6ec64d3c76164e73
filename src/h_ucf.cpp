// Properties C01-C13: the PMap core.
#include "engine.hpp"
#include "lin.hpp"
#include "nvm.hpp"
#include "sut_ucf.hpp"
#include "vrt.hpp"
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

using eng::Src;
using eng::Span;
using std::vector;
void *map_cells(int fd);

namespace
{
const char *PM = "/mnt/pmem/pm1";
const char *TABLES = "/mnt/pmem/pm1/tables/";
uint64_t ABS; // the 'absent' value
std::string g_dir;

void setup()
{
    ABS = sut::absent();
    nvm::reset();
    g_dir = eng::fresh_dir();
    mkdir((g_dir + "/tables").c_str(), 0700);
    nvm::redirect(PM, g_dir);
    vrt::on_write = nvm::on_write;
    sut::reset_process();
    sut::hash_mode = 0;
}
void teardown()
{
    nvm::reset();
    nvm::redirect("", "");
    eng::remove_tree(g_dir);
}
struct Env { Env() { setup(); } ~Env() { teardown(); } };

// ---- keys and values ------------------------------------------------------------------------
struct Keys { vector<uint64_t> k; };
// `incs`: keep away from the reserved values, so that counting does not run into them
uint64_t gen_value(Src &s, bool incs = false)
{
    uint64_t v;
    switch (s.below(6))
    {
    case 0: v = s.below(8) * 8; break;
    case 1: v = s.below(64) * 8; break;
    case 2: v = (s.bits64() & ~7ull); break;
    case 3: v = (ABS - 8 * (6 + s.below(16))); break;
    case 4: v = s.below(4) * 8; break;
    default: v = 1ull << (3 + s.below(61)); break;
    }
    if (incs) v >>= 3, v &= ~7ull;
    while (sut::value_reserved(v)) v -= 64;
    return v;
}
// a pool of distinct keys; colliding pools share home slots
vector<uint64_t> gen_keys(Src &s, size_t n)
{
    std::set<uint64_t> seen;
    vector<uint64_t> ks;
    uint64_t stride = 8, base = 0;
    unsigned style = s.below(6);
    switch (style)
    {
    case 0: stride = 8; break;
    case 1: stride = 64; break;
    case 2: stride = 256; break;
    case 3: stride = 1ull << (3 + s.below(6)); break;
    case 4: stride = 8 * (1 + s.below(64)); base = s.below(1000) * 8; break;
    case 5: stride = 0; break;
    }
    for (size_t i = 0; i < n; ++i)
    {
        uint64_t k;
        if (stride) k = base + i * stride;
        else k = s.below(2) ? s.below(256) * 8 : (s.bits64() & ~7ull);
        while (sut::key_reserved(k) || seen.count(k)) k += 8;
        seen.insert(k);
        ks.push_back(k);
    }
    return ks;
}

// ---- operations -----------------------------------------------------------------------------
enum OpK { PUT, GET, HAS, REM, REMIF, REPL, PUTABS, INC, UPD };
const char *opname[] = {"put", "get", "containsKey", "remove", "remove", "replace", "putIfAbsent", "increment", "update"};
struct Op { OpK k; uint64_t key, a, b; uint64_t r; };
struct St { uint64_t present, v; };
std::string show(uint64_t v)
{
    char b[40];
    if (v == ABS) return "absent";
    snprintf(b, sizeof b, v < 100000 ? "%" PRIu64 : "0x%" PRIx64, v);
    return b;
}
std::string show(const Op &o, bool res = true)
{
    std::string t = std::string(opname[o.k]) + "(" + show(o.key);
    if (o.k == PUT || o.k == PUTABS || o.k == REMIF || o.k == UPD) t += "," + show(o.a);
    if (o.k == REPL) t += "," + show(o.a) + "," + show(o.b);
    t += ")";
    if (res) t += "=" + (o.k == HAS || o.k == REM || o.k == REMIF || o.k == REPL ? std::string(o.r ? "true" : "false") : show(o.r));
    return t;
}
// Applies o to the state; false if its result is impossible (not checked for optional operations).
bool step(St &s, const Op &o, bool optional)
{
    uint64_t prev = s.present ? s.v : ABS;
    switch (o.k)
    {
    case PUT: case UPD: if (!optional && o.r != prev) return false; s = {1, o.a}; return true;
    case GET: return optional || o.r == prev;
    case HAS: return optional || (o.r != 0) == (s.present != 0);
    case REM: if (!optional && (o.r != 0) != (s.present != 0)) return false; s = {0, 0}; return true;
    case REMIF:
    {
        bool hit = s.present && s.v == o.a;
        if (!optional && (o.r != 0) != hit) return false;
        if (hit) s = {0, 0};
        return true;
    }
    case REPL:
    {
        bool hit = s.present && s.v == o.a;
        if (!optional && (o.r != 0) != hit) return false;
        if (hit) s = {1, o.b};
        return true;
    }
    case PUTABS: if (!optional && o.r != prev) return false; if (!s.present) s = {1, o.a}; return true;
    case INC: if (!optional && o.r != prev) return false; s = {1, s.present ? ((s.v >> 3) + 1) << 3 : 8}; return true;
    }
    return true;
}
void apply(sut::Map *m, Op &o)
{
    switch (o.k)
    {
    case PUT: o.r = sut::put(m, o.key, o.a); break;
    case UPD: o.r = sut::update_to(m, o.key, o.a); break;
    case GET: o.r = sut::get(m, o.key); break;
    case HAS: o.r = sut::contains(m, o.key); break;
    case REM: o.r = sut::remove(m, o.key); break;
    case REMIF: o.r = sut::remove_if(m, o.key, o.a); break;
    case REPL: o.r = sut::replace(m, o.key, o.a, o.b); break;
    case PUTABS: o.r = sut::put_if_absent(m, o.key, o.a); break;
    case INC: o.r = sut::increment(m, o.key); break;
    }
}
struct Mix { unsigned w[9]; bool seqvals; };
const Mix MIX_ALL = {{6, 4, 2, 4, 2, 3, 3, 2, 1}, false};
const Mix MIX_BASIC = {{6, 5, 2, 4, 0, 0, 2, 1, 1}, false};
const Mix MIX_COND = {{2, 2, 1, 1, 5, 6, 5, 0, 0}, false};
const Mix MIX_INC = {{1, 1, 0, 1, 0, 0, 1, 8, 0}, false};
const Mix MIX_GROW = {{10, 3, 1, 3, 0, 1, 3, 2, 1}, false};
const Mix MIX_PUTREM = {{6, 1, 0, 5, 1, 0, 2, 0, 0}, false};
Op gen_op(Src &s, const vector<uint64_t> &ks, const Mix &mx, const vector<uint64_t> &vals)
{
    Op o{};
    unsigned tot = 0;
    for (unsigned x : mx.w) tot += x;
    uint64_t v = s.below(tot);
    int k = 0;
    for (; k < 9; ++k) { if (v < mx.w[k]) break; v -= mx.w[k]; }
    o.k = (OpK)k;
    o.key = ks[s.below(ks.size())];
    if (k == PUT || k == REMIF || k == REPL || k == PUTABS || k == UPD) o.a = vals[s.below(vals.size())];
    if (k == REPL) o.b = vals[s.below(vals.size())];
    return o;
}

// ---- sequential model -----------------------------------------------------------------------
struct Model
{
    std::map<uint64_t, uint64_t> m;
    uint64_t expect(const Op &o)
    {
        auto it = m.find(o.key);
        St s{it != m.end(), it != m.end() ? it->second : 0};
        uint64_t prev = s.present ? s.v : ABS;
        uint64_t r = 0;
        switch (o.k)
        {
        case PUT: case UPD: case GET: case PUTABS: case INC: r = prev; break;
        case HAS: case REM: r = s.present; break;
        case REMIF: case REPL: r = s.present && s.v == o.a; break;
        }
        step(s, o, true);
        if (s.present) m[o.key] = s.v; else m.erase(o.key);
        return r;
    }
};
bool bool_op(OpK k) { return k == HAS || k == REM || k == REMIF || k == REPL; }

void check_all(sut::Map *m, const Model &md, const vector<uint64_t> &keys, const char *when, bool size = true)
{
    for (uint64_t k : keys)
    {
        auto it = md.m.find(k);
        uint64_t e = it == md.m.end() ? ABS : it->second;
        uint64_t g = sut::get(m, k);
        if (g != e) eng::fail("contents", "%s: get(%s) = %s, expected %s", when, show(k).c_str(), show(g).c_str(), show(e).c_str());
        bool h = sut::contains(m, k);
        if (h != (e != ABS)) eng::fail("contents", "%s: containsKey(%s) = %d although get gives %s", when, show(k).c_str(), h, show(g).c_str());
    }
    if (!size) return;
    size_t n = sut::size(m);
    if (n != md.m.size()) eng::fail("size", "%s: size() = %zu but %zu keys are present", when, n, md.m.size());
    if (sut::is_empty(m) != (n == 0)) eng::fail("size", "%s: isEmpty() = %d with size %zu", when, sut::is_empty(m), n);
}

// Runs f under the scheduler as a single thread, so that endless loops are noticed and power can fail.
vrt::Result run1(Src &s, const std::function<void()> &f, uint64_t crash_at = 0, uint64_t limit = 3000000)
{
    vrt::Cfg c;
    c.gapmax = 1; c.crash_at = crash_at; c.limit = limit; c.fair_after = ~0ull;
    c.kinds = 0;
    vrt::Result r = vrt::run(c, {f}, s);
    if (r.end == vrt::LIMIT) eng::fail("nontermination", "an operation did not finish within %" PRIu64 " memory accesses", limit);
    if (r.end == vrt::DEADLOCK) eng::fail("deadlock", "a single thread blocked for ever");
    return r;
}

size_t gen_cap(Src &s)
{
    static const size_t c[] = {8, 8, 16, 32, 64};
    return c[s.below(5)];
}

// C01 etc.: sequential operation sequences against a model
void seq_case(Src &s, const Mix &mx, bool checksize)
{
    Env env;
    sut::hash_mode = s.weighted({5, 2, 1});
    size_t cap = gen_cap(s);
    vector<uint64_t> keys = gen_keys(s, 1 + s.small(60));
    vector<uint64_t> vals;
    for (size_t i = 0, n = 1 + s.below(6); i < n; ++i) vals.push_back(gen_value(s, mx.w[INC]));
    vals.push_back(keys[0]);
    if (sut::value_reserved(vals.back()) || mx.w[INC]) vals.pop_back();
    size_t nops = 1 + s.small(160);
    eng::desc("capacity %zu, hash %d, %zu keys: ", cap, sut::hash_mode, keys.size());
    vector<Op> ops;
    for (size_t i = 0; i < nops; ++i) { Span sp(s); ops.push_back(gen_op(s, keys, mx, vals)); }
    Model md;
    sut::Map *m = nullptr;
    bool grew = false, removed = false;
    run1(s, [&] {
        m = sut::open_map(TABLES, cap, false);
        for (size_t i = 0; i < ops.size(); ++i)
        {
            Op &o = ops[i];
            if (i < 60) eng::desc("%s ", show(o, false).c_str());
            uint64_t e = md.expect(o);
            apply(m, o);
            if (bool_op(o.k) ? (o.r != 0) != (e != 0) : o.r != e)
            {
                std::string got = show(o);
                o.r = e;
                eng::fail("result", "operation %zu: %s, expected %s", i, got.c_str(), show(o).c_str());
            }
            if (o.k == REM && e) removed = true;
            if (checksize)
            {
                size_t n = sut::size(m);
                if (n != md.m.size()) eng::fail("size", "after operation %zu (%s): size() = %zu but %zu keys are present", i, show(o).c_str(), n, md.m.size());
            }
            if (i % 16 == 15 && keys.size() <= 20) check_all(m, md, keys, "during the sequence", checksize);
        }
        check_all(m, md, keys, "at the end", checksize);
        grew = nvm::calls(nvm::SYS_MMAP) > 1;
    });
    if (grew) eng::label("grew");
    if (removed) eng::label("removed a present key");
    if (md.m.size() >= 2) eng::mark_nontrivial();
}
void seq_all(Src &s) { seq_case(s, MIX_ALL, false); }
void seq_size(Src &s) { seq_case(s, MIX_ALL, true); }
void seq_cond(Src &s) { seq_case(s, MIX_COND, false); }
void seq_inc(Src &s) { seq_case(s, MIX_INC, false); }

// C04: the same operations give the same results for every initial capacity
void metamorphic(Src &s)
{
    sut::hash_mode = 0;
    ABS = sut::absent();
    vector<uint64_t> keys = gen_keys(s, 2 + s.small(200));
    vector<uint64_t> vals;
    for (size_t i = 0, n = 1 + s.below(6); i < n; ++i) vals.push_back(gen_value(s, true));
    size_t nops = 1 + s.small(400);
    vector<Op> ops;
    bool bulk = s.chance(1, 2);
    if (bulk)
        for (uint64_t k : keys) { Op o{}; o.k = PUT; o.key = k; o.a = vals[0]; ops.push_back(o); }
    for (size_t i = 0; i < nops; ++i) { Span sp(s); ops.push_back(gen_op(s, keys, MIX_GROW, vals)); }
    size_t caps[3] = {8, (size_t)16 << s.below(4), 1024};
    vector<vector<uint64_t>> res;
    eng::desc("%zu keys (%s, %s, ...), %zu operations, capacities %zu %zu %zu", keys.size(), show(keys[0]).c_str(), show(keys[1]).c_str(), ops.size(), caps[0], caps[1], caps[2]);
    unsigned grows = 0;
    for (size_t c : caps)
    {
        Env env;
        vector<uint64_t> r;
        Model md;
        run1(s, [&] {
            sut::Map *m = sut::open_map(TABLES, c, false);
            size_t i = 0;
            for (Op o : ops)
            {
                uint64_t e = md.expect(o);
                apply(m, o);
                if (bool_op(o.k)) o.r = o.r != 0;
                if (o.r != e) eng::fail("result", "capacity %zu, operation %zu: %s, expected %s", c, i, show(o).c_str(), show(e).c_str());
                r.push_back(o.r);
                ++i;
            }
            check_all(m, md, keys, "at the end", false);
            if (nvm::calls(nvm::SYS_MMAP) > 1) grows += nvm::calls(nvm::SYS_MMAP) - 1;
        }, 0, 20000000);
        res.push_back(r);
    }
    for (size_t i = 1; i < res.size(); ++i)
        if (res[i] != res[0]) eng::fail("metamorphic", "capacities %zu and %zu give different results", caps[0], caps[i]);
    if (grows) { eng::mark_nontrivial(); eng::label("grew"); }
    if (grows > 3) eng::label("grew more than three times");
}

// ---- concurrent histories -------------------------------------------------------------------
struct Rec { uint64_t inv, res; int thr; bool done; Op op; };

struct Hist
{
    vector<Rec> recs; // in invocation order
    void begin(int thr, const Op &o) { recs.push_back({vrt::stamp(), ~0ull, thr, false, o}); }
};
std::string hist_text(const vector<Rec> &h, uint64_t key)
{
    std::string t;
    for (auto &r : h)
        if (r.op.key == key)
        {
            char b[200];
            snprintf(b, sizeof b, "  [%" PRIu64 ",%s] t%d %s\n", r.inv, r.done ? std::to_string(r.res).c_str() : "cut off", r.thr, show(r.op, r.done).c_str());
            t += b;
        }
    return t;
}
// Each key's history must be linearizable from `init` (absent if not listed).
void check_lin(const vector<Rec> &h, const Model &init, const char *what)
{
    std::set<uint64_t> keys;
    for (auto &r : h) keys.insert(r.op.key);
    for (uint64_t k : keys)
    {
        vector<lin::Entry<Op>> e;
        for (auto &r : h)
            if (r.op.key == k)
            {
                if (!r.done && (r.op.k == GET || r.op.k == HAS)) continue;
                e.push_back({r.inv, r.res, !r.done, r.op});
            }
        auto it = init.m.find(k);
        St st{it != init.m.end(), it != init.m.end() ? it->second : 0};
        bool gaveup = false;
        if (!lin::linearizable(e, st, step, &gaveup))
            eng::fail("linearizability", "%s: no sequential order explains the history of key %s (initially %s):\n%s", what, show(k).c_str(), st.present ? show(st.v).c_str() : "absent", hist_text(h, k).c_str());
        if (gaveup) eng::label("linearizability search gave up");
    }
}
uint64_t present_count(const vector<Rec> &h) { uint64_t n = 0; for (auto &r : h) if (r.op.k == GET && r.op.r != ABS) ++n; return n; }

struct ConcOpts
{
    const Mix *mix = &MIX_BASIC;
    unsigned maxthreads = 4, maxops = 6;
    bool check_lin = true, check_size = false, check_inc = false;
    bool stall = false;      // suspend one thread for ever
    bool quiet_keys = true;
    int grow = -1;           // -1 random, 0 never, 1 always
    unsigned shared_keys = 3;
};

void conc_case(Src &s, const ConcOpts &co)
{
    Env env;
    unsigned nt = 2 + s.below(co.maxthreads - 1);
    bool grow = co.grow < 0 ? s.chance(3, 5) : co.grow;
    sut::hash_mode = grow ? s.weighted({6, 1, 1}) : s.weighted({3, 2, 1});
    size_t cap = grow ? (s.chance(1, 5) ? 16 : 8) : 64;
    // fill so that growth is near
    vector<uint64_t> pool = gen_keys(s, grow ? 28 : 8);
    unsigned nfill = grow ? (s.chance(3, 4) ? 5 + s.below(10) : s.below(5)) : s.below(4);
    unsigned nshared = 1 + s.below(co.shared_keys);
    vector<uint64_t> vals;
    for (unsigned i = 0; i < 6; ++i) vals.push_back((i + 1 + (s.chance(1, 8) ? (1ull << 50) : 0)) * 8);
    if (s.chance(1, 4)) vals[0] = 0;
    vector<uint64_t> shared, all;
    // shared keys: some of the prefilled ones, some new
    for (unsigned i = 0; i < nshared; ++i)
    {
        uint64_t k = pool[s.below(pool.size())];
        if (std::find(shared.begin(), shared.end(), k) == shared.end()) shared.push_back(k);
    }
    vector<vector<Op>> prog(nt);
    std::set<uint64_t> used(shared.begin(), shared.end());
    for (unsigned t = 0; t < nt; ++t)
    {
        unsigned n = 1 + s.below(co.maxops);
        for (unsigned i = 0; i < n; ++i)
        {
            Span sp(s);
            Op o;
            if (grow && s.chance(1, 4))
            {
                // a fresh key, to push the table towards growth
                o = Op{}; o.k = PUT; o.key = pool[s.below(pool.size())]; o.a = vals[s.below(vals.size())];
            }
            else o = gen_op(s, shared, *co.mix, vals);
            prog[t].push_back(o);
            used.insert(o.key);
        }
    }
    Model init;
    sut::Map *m = nullptr;
    vector<Op> pre;
    for (unsigned i = 0; i < nfill; ++i)
    {
        Op o{}; o.k = PUT; o.key = pool[i]; o.a = vals[i % vals.size()];
        pre.push_back(o);
        used.insert(o.key);
        if (s.chance(1, 6)) { Op r{}; r.k = REM; r.key = pool[i]; pre.push_back(r); }
    }
    eng::desc("capacity %zu hash %d; before:", cap, sut::hash_mode);
    for (auto &o : pre) eng::desc(" %s", show(o, false).c_str());
    run1(s, [&] {
        m = sut::open_map(TABLES, cap, false);
        for (Op o : pre) { init.expect(o); apply(m, o); }
    });
    vrt::Cfg cfg = vrt::gen_cfg(s, nt);
    if (co.stall)
    {
        cfg.stall_thread = s.below(nt);
        static const uint64_t mm[] = {20, 60, 200, 600, 2000};
        cfg.stall_at = 1 + s.below(mm[s.below(5)]);
        cfg.stall_len = ~0ull;
    }
    for (unsigned t = 0; t < nt; ++t)
    {
        eng::desc(" | t%u:", t);
        for (auto &o : prog[t]) eng::desc(" %s", show(o, false).c_str());
    }
    Hist h;
    h.recs.reserve(4096);
    vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < nt; ++t)
        bodies.push_back([&, t] {
            for (Op o : prog[t])
            {
                size_t i = h.recs.size();
                h.recs.push_back({vrt::stamp(), ~0ull, (int)t, false, o});
                apply(m, o);
                h.recs[i].op = o;
                h.recs[i].res = vrt::stamp();
                h.recs[i].done = true;
            }
        });
    vrt::Result r = vrt::run(cfg, bodies, s);
    eng::desc(" | %" PRIu64 " points, %" PRIu64 " switches", r.points, r.switches);
    auto pending = [&] {
        std::string t;
        for (auto &x : h.recs) if (!x.done) t += " t" + std::to_string(x.thr) + ":" + show(x.op, false);
        return t;
    };
    if (r.end == vrt::BLOCKED) eng::fail("blocked", "with thread %d suspended in the middle of an operation the other threads did not complete theirs in %" PRIu64 " steps; pending:%s", r.blocked_by, r.points, pending().c_str());
    if (r.end == vrt::LIMIT) eng::fail("nontermination", "operations did not complete in %" PRIu64 " steps of a fair schedule; pending:%s", r.points, pending().c_str());
    if (r.end == vrt::DEADLOCK) eng::fail("deadlock", "all threads wait; pending:%s", pending().c_str());
    // quiet: read everything back
    vector<uint64_t> allk(used.begin(), used.end());
    std::map<uint64_t, uint64_t> fin;
    size_t sz = 0; bool em = false;
    run1(s, [&] {
        if (co.check_size) { sz = sut::size(m); em = sut::is_empty(m); }
        for (uint64_t k : allk)
        {
            Op o{}; o.k = GET; o.key = k;
            size_t i = h.recs.size();
            h.recs.push_back({vrt::stamp(), ~0ull, 99, false, o});
            apply(m, o);
            h.recs[i].op = o; h.recs[i].res = vrt::stamp(); h.recs[i].done = true;
            fin[k] = o.r;
        }
    });
    if (co.check_lin) check_lin(h.recs, init, "concurrent history");
    if (co.check_size)
    {
        size_t n = 0;
        for (auto &f : fin) n += f.second != ABS;
        if (sz != n) eng::fail("size", "all threads are done: size() = %zu but %zu keys are present", sz, n);
        if (em != (n == 0)) eng::fail("size", "all threads are done: isEmpty() = %d but %zu keys are present", em, n);
        size_t sz2 = 0;
        run1(s, [&] { sz2 = sut::size(m); });
        if (sz2 != n) eng::fail("size", "after reading every key: size() = %zu but %zu keys are present", sz2, n);
    }
    bool grew = nvm::calls(nvm::SYS_MMAP) > 1;
    if (grew) eng::label("grew");
    if (nvm::calls(nvm::SYS_MMAP) > 3) eng::label("three or more tables");
    if (r.stalled) eng::label("a thread was suspended");
    if (r.switches >= 3) eng::mark_nontrivial();
}
void conc_mixed(Src &s) { ConcOpts o; o.mix = &MIX_ALL; conc_case(s, o); }
void conc_hot(Src &s) { ConcOpts o; o.mix = &MIX_ALL; o.grow = 0; o.shared_keys = 1; o.maxops = 4; conc_case(s, o); }
void conc_grow(Src &s) { ConcOpts o; o.mix = &MIX_GROW; o.grow = 1; o.shared_keys = 6; o.maxops = 8; conc_case(s, o); }
void conc_putrem(Src &s) { ConcOpts o; o.mix = &MIX_PUTREM; o.grow = 1; o.shared_keys = 3; o.maxops = 8; conc_case(s, o); }
void conc_cond(Src &s) { ConcOpts o; o.mix = &MIX_COND; o.shared_keys = 2; o.maxops = 5; conc_case(s, o); }
void conc_inc(Src &s) { ConcOpts o; o.mix = &MIX_INC; o.shared_keys = 2; o.maxops = 8; conc_case(s, o); }
void conc_size(Src &s) { ConcOpts o; o.mix = &MIX_PUTREM; o.check_size = true; o.check_lin = false; o.shared_keys = 5; o.maxops = 8; conc_case(s, o); }
void conc_stall(Src &s) { ConcOpts o; o.mix = &MIX_GROW; o.stall = true; o.check_lin = false; o.shared_keys = 5; conc_case(s, o); }
void conc_stall_grow(Src &s) { ConcOpts o; o.mix = &MIX_GROW; o.stall = true; o.check_lin = false; o.grow = 1; o.shared_keys = 5; conc_case(s, o); }

// ---- sessions ended by power failures or orderly exits ---------------------------------------
struct SessOpts
{
    unsigned maxsessions = 1;  // crashed/ended sessions before the last
    unsigned maxthreads = 3;
    bool crash_recovery = false;
    bool orderly = false;      // sessions may also end orderly
    bool use_after = false;    // run operations in the last session
    int grow = -1;
    const Mix *mix = &MIX_BASIC;
};
void sessions_case(Src &s, const SessOpts &so)
{
    Env env;
    bool grow = so.grow < 0 ? s.chance(2, 3) : so.grow;
    sut::hash_mode = s.weighted({5, 1, 1});
    size_t cap = grow ? 8 : 32;
    vector<uint64_t> pool = gen_keys(s, grow ? 26 : 6);
    vector<uint64_t> vals;
    for (unsigned i = 0; i < 5; ++i) vals.push_back((i + (s.chance(1, 8) ? (1ull << 40) : 0)) * 8);
    unsigned ns = 1 + s.below(so.maxsessions);
    vector<Rec> h;
    h.reserve(8192);
    std::set<uint64_t> used;
    Model init; // empty
    bool first = true;
    bool nontriv = false;
    unsigned crashes = 0, lost = 0;
    for (unsigned sess = 0; sess <= ns; ++sess)
    {
        Span sp(s);
        bool last = sess == ns;
        sut::Map *m = nullptr;
        // opening; it may be cut off itself
        unsigned tries = 0;
        while (true)
        {
            uint64_t crash_at = 0;
            if (so.crash_recovery && tries < 2 && s.chance(1, 3))
            {
                static const uint64_t mm[] = {20, 60, 150, 400};
                crash_at = 1 + s.below(mm[s.below(4)]);
            }
            bool rec = !first;
            vrt::Result r = run1(s, [&] { m = sut::open_map(TABLES, cap, rec); }, crash_at);
            if (r.end != vrt::CRASHED) break;
            int pol = s.below(3);
            auto st = nvm::power_failure(pol, s);
            eng::desc(" [power fails while %s, point %" PRIu64 ", policy %d]", rec ? "recovering" : "creating", crash_at, pol);
            eng::label(rec ? "power failure during recovery" : "power failure during creation");
            nvm::end_session();
            sut::reset_process();
            lost += st.lost_lines;
            first = false;
            ++tries;
        }
        first = false;
        auto scan = [&](const char *what, bool checksize) {
            std::map<uint64_t, uint64_t> fin;
            size_t sz = 0; bool em = false;
            run1(s, [&] {
                sz = sut::size(m); em = sut::is_empty(m);
                for (uint64_t k : used)
                {
                    Op o{}; o.k = GET; o.key = k;
                    size_t i = h.size();
                    h.push_back({vrt::stamp(), ~0ull, 99, false, o});
                    apply(m, o);
                    h[i].op = o; h[i].res = vrt::stamp(); h[i].done = true;
                    fin[k] = o.r;
                }
            });
            check_lin(h, init, what);
            if (checksize)
            {
                size_t n = 0;
                for (auto &f : fin) n += f.second != ABS;
                if (sz != n) eng::fail("size", "%s: size() = %zu but %zu keys are present", what, sz, n);
                if (em != (n == 0)) eng::fail("size", "%s: isEmpty() = %d but %zu keys are present", what, em, n);
            }
        };
        bool scanned = false;
        if (sess > 0 && (last || s.chance(1, 2))) { scan("recovered map", so.use_after); scanned = true; }
        if (last && !so.use_after) break;
        // operations
        unsigned nt = last ? 1 : 1 + s.below(so.maxthreads);
        vector<vector<Op>> prog(nt);
        unsigned nfill = sess == 0 && grow ? s.below(16) : s.below(4);
        for (unsigned t = 0; t < nt; ++t)
        {
            if (t == 0)
                for (unsigned i = 0; i < nfill; ++i)
                {
                    Op o{}; o.k = PUT; o.key = pool[(i + sess * 7) % pool.size()]; o.a = vals[i % vals.size()];
                    prog[t].push_back(o);
                }
            unsigned n = 1 + s.below(last ? 12 : 6);
            for (unsigned i = 0; i < n; ++i) { Span sp2(s); prog[t].push_back(gen_op(s, pool, *so.mix, vals)); }
            for (auto &o : prog[t]) used.insert(o.key);
        }
        bool crash = !last && (!so.orderly || s.chance(2, 3));
        vrt::Cfg cfg = vrt::gen_cfg(s, nt);
        if (crash)
        {
            static const uint64_t mm[] = {60, 250, 1000, 4000};
            cfg.crash_at = 1 + s.below(mm[s.below(4)]);
            if (s.chance(1, 3)) { cfg.crash_kinds = 1u << vrt::K_FLUSH; cfg.crash_at = 1 + (cfg.crash_at - 1) / 8; }
        }
        eng::desc(" session %u:", sess);
        for (unsigned t = 0; t < nt; ++t)
        {
            eng::desc(" | t%u:", t);
            for (auto &o : prog[t]) eng::desc(" %s", show(o, false).c_str());
        }
        vector<std::function<void()>> bodies;
        for (unsigned t = 0; t < nt; ++t)
            bodies.push_back([&, t] {
                for (Op o : prog[t])
                {
                    size_t i = h.size();
                    h.push_back({vrt::stamp(), ~0ull, (int)t, false, o});
                    apply(m, o);
                    h[i].op = o;
                    h[i].res = vrt::stamp();
                    h[i].done = true;
                }
            });
        vrt::Result r = vrt::run(cfg, bodies, s);
        if (r.end == vrt::LIMIT || r.end == vrt::BLOCKED) eng::fail("nontermination", "operations of session %u did not complete in %" PRIu64 " steps", sess, r.points);
        if (r.end == vrt::DEADLOCK) eng::fail("deadlock", "all threads wait in session %u", sess);
        if (last) { scan("final session", true); break; }
        if (r.end == vrt::DONE && s.chance(1, 3)) { scan("running map", so.use_after); }
        (void)scanned;
        if (crash)
        {
            int pol = s.below(3);
            auto st = nvm::power_failure(pol, s);
            lost += st.lost_lines;
            eng::desc(" [power fails at point %" PRIu64 " (%s), policy %d: %u dirty lines, %u lost]", r.points, r.end == vrt::CRASHED ? "running" : "idle", pol, st.dirty_lines, st.lost_lines);
            if (st.lost_lines || st.partial_lines) { eng::label("unflushed lines lost"); nontriv = true; }
            if (r.end == vrt::CRASHED) { eng::label("power failed during operations"); nontriv = true; }
            ++crashes;
            uint64_t now = vrt::stamp();
            for (auto &x : h) if (!x.done && x.res == ~0ull) x.res = now;
        }
        else { eng::desc(" [orderly end]"); eng::label("orderly end"); nontriv = true; }
        nvm::end_session();
        sut::reset_process();
        if (nvm::calls(nvm::SYS_MMAP) > 1) eng::label("grew");
    }
    if (nontriv && used.size() > 0) eng::mark_nontrivial();
}
void crash_basic(Src &s) { SessOpts o; sessions_case(s, o); }
void crash_hot(Src &s) { SessOpts o; o.grow = 0; o.mix = &MIX_ALL; sessions_case(s, o); }
void crash_grow(Src &s) { SessOpts o; o.grow = 1; o.mix = &MIX_GROW; sessions_case(s, o); }
void recover_use(Src &s) { SessOpts o; o.maxsessions = 3; o.orderly = true; o.use_after = true; o.crash_recovery = true; o.mix = &MIX_ALL; sessions_case(s, o); }
void recover_orderly(Src &s)
{
    SessOpts o; o.maxsessions = 4; o.orderly = true; o.use_after = true; o.maxthreads = 1; o.mix = &MIX_ALL; o.grow = 1; sessions_case(s, o);
}

// C10: a new map is empty whatever is lying around
void fresh_case(Src &s)
{
    Env env;
    unsigned nsess = 1 + s.below(3);
    vector<uint64_t> pool = gen_keys(s, 24);
    eng::desc("leftovers:");
    bool left = false;
    for (unsigned i = 0; i < nsess; ++i)
    {
        Span sp(s);
        if (s.chance(1, 3))
        {
            // arbitrary leftover files
            unsigned n = s.below(3), id = s.below(4);
            std::string p = g_dir + "/tables/" + std::to_string(id) + ".dat";
            FILE *f = fopen(p.c_str(), "w");
            size_t len = 16 * (s.below(2) ? (1u << s.below(6)) : s.below(40));
            for (size_t b = 0; b < len; ++b) fputc(n == 0 ? 0 : n == 1 ? (b % 8 == 0 ? 8 : 0) : (int)(b * 37 % 251) & ~7, f);
            fclose(f);
            eng::desc(" file %u.dat of %zu bytes (pattern %u)", id, len, n);
            left = true;
        }
        else
        {
            size_t cap = gen_cap(s);
            unsigned n = s.below(20);
            eng::desc(" map of capacity %zu with %u puts", cap, n);
            run1(s, [&] {
                sut::Map *m = sut::open_map(TABLES, cap, false);
                for (unsigned j = 0; j < n; ++j) sut::put(m, pool[j % pool.size()], 8 * j);
            });
            nvm::end_session();
            sut::reset_process();
            if (n) left = true;
        }
    }
    size_t cap = gen_cap(s);
    unsigned n = 1 + s.below(24);
    bool rec2 = s.chance(1, 3);
    Model md;
    vector<Op> ops;
    vector<uint64_t> vals{8, 16, 24, 0};
    for (unsigned i = 0; i < n; ++i) { Span sp(s); ops.push_back(gen_op(s, pool, MIX_GROW, vals)); }
    eng::desc("; then a new map of capacity %zu:", cap);
    for (auto &o : ops) eng::desc(" %s", show(o, false).c_str());
    run1(s, [&] {
        sut::Map *m = sut::open_map(TABLES, cap, false);
        check_all(m, md, pool, "new map");
        unsigned i = 0;
        for (Op o : ops)
        {
            uint64_t e = md.expect(o);
            apply(m, o);
            if (bool_op(o.k)) o.r = o.r != 0;
            if (o.r != e) eng::fail("leftover", "new map, operation %u: %s, expected %s", i, show(o).c_str(), show(e).c_str());
            ++i;
        }
        check_all(m, md, pool, "new map after its operations");
    });
    if (rec2)
    {
        nvm::end_session();
        sut::reset_process();
        eng::desc("; orderly end; recovered");
        run1(s, [&] {
            sut::Map *m = sut::open_map(TABLES, cap, true);
            check_all(m, md, pool, "recovered new map");
        });
        eng::label("recovered afterwards");
    }
    if (left) eng::mark_nontrivial();
}

// C11: failing system calls
void fault_case(Src &s)
{
    Env env;
    sut::hash_mode = s.weighted({4, 1, 1});
    size_t cap = 8;
    vector<uint64_t> pool = gen_keys(s, 40);
    bool in_ctor = s.chance(1, 6);
    static const int sys[] = {nvm::SYS_OPEN, nvm::SYS_TRUNC, nvm::SYS_MMAP, nvm::SYS_RENAME};
    static const int err[] = {ENOSPC, EMFILE, EACCES, ENOMEM, EIO, EDQUOT};
    nvm::Fault f{sys[s.below(4)], 1, err[s.below(6)], (int)(1 + s.below(3))};
    unsigned before = s.below(20), n = 1 + s.below(30);
    vector<Op> ops;
    vector<uint64_t> vals{8, 16, 24, 32};
    for (unsigned i = 0; i < before; ++i) { Op o{}; o.k = PUT; o.key = pool[i]; o.a = vals[i % 4]; ops.push_back(o); }
    for (unsigned i = 0; i < n; ++i)
    {
        Span sp(s);
        if (s.chance(1, 2)) { Op o{}; o.k = PUT; o.key = pool[s.below(pool.size())]; o.a = vals[s.below(4)]; ops.push_back(o); }
        else ops.push_back(gen_op(s, pool, MIX_ALL, vals));
    }
    unsigned arm_at = in_ctor ? 0 : before + s.below(n);
    unsigned nt = s.chance(1, 3) ? 2 : 1;
    eng::desc("%s fails with errno %d (%d times) from %s %u on; %u threads; ", f.sys == nvm::SYS_OPEN ? "open" : f.sys == nvm::SYS_TRUNC ? "ftruncate" : f.sys == nvm::SYS_MMAP ? "mmap" : "rename", f.err, f.count, in_ctor ? "constructor" : "operation", arm_at, nt);
    Model init;
    sut::Map *m = nullptr;
    unsigned thrown = 0;
    vector<Rec> h; h.reserve(4096);
    std::set<uint64_t> used(pool.begin(), pool.end());
    run1(s, [&] {
        if (in_ctor)
        {
            nvm::arm(f);
            unsigned tries = 0;
            while (true)
            {
                try { m = sut::open_map(TABLES, cap, false); break; }
                catch (std::exception &) { ++thrown; }
                if (++tries > 8) eng::fail("fault", "creating the map keeps failing although storage is available again");
            }
        }
        else m = sut::open_map(TABLES, cap, false);
        for (unsigned i = 0; i < arm_at; ++i) { Op o = ops[i]; init.expect(o); apply(m, o); }
        if (!in_ctor) nvm::arm(f);
    });
    vector<vector<Op>> prog(nt);
    for (unsigned i = arm_at; i < ops.size(); ++i) prog[nt == 1 ? 0 : s.below(nt)].push_back(ops[i]);
    vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < nt; ++t)
        bodies.push_back([&, t] {
            for (Op o : prog[t])
            {
                size_t i = h.size();
                h.push_back({vrt::stamp(), ~0ull, (int)t, false, o});
                bool ok = true;
                try { apply(m, o); }
                catch (std::exception &e) { ok = false; ++thrown; }
                h[i].op = o; h[i].res = vrt::stamp(); h[i].done = ok;
            }
        });
    vrt::Cfg cfg = vrt::gen_cfg(s, nt);
    vrt::Result r = vrt::run(cfg, bodies, s);
    if (r.end != vrt::DONE) eng::fail("nontermination", "operations did not complete after a storage failure");
    unsigned hit = nvm::faults_hit();
    if (hit && !thrown) eng::fail("fault", "%u storage calls failed but no operation reported it", hit);
    if (thrown > hit) eng::fail("fault", "%u operations reported a failure but only %u storage calls failed", thrown, hit);
    nvm::disarm();
    if (nvm::open_fds()) eng::fail("fault", "%d table files are left open", nvm::open_fds());
    // storage is available again: everything works, and nothing is lost
    auto scan = [&](const char *what) {
        run1(s, [&] {
            for (uint64_t k : used)
            {
                Op o{}; o.k = GET; o.key = k;
                size_t i = h.size();
                h.push_back({vrt::stamp(), ~0ull, 99, false, o});
                apply(m, o);
                h[i].op = o; h[i].res = vrt::stamp(); h[i].done = true;
            }
        });
        check_lin(h, init, what);
    };
    scan("after a storage failure");
    run1(s, [&] {
        for (unsigned i = 0; i < 12; ++i)
        {
            Op o{}; o.k = PUT; o.key = pool[(i * 3 + 1) % pool.size()]; o.a = 80 + 8 * i;
            size_t j = h.size();
            h.push_back({vrt::stamp(), ~0ull, 98, false, o});
            apply(m, o);
            h[j].op = o; h[j].res = vrt::stamp(); h[j].done = true;
        }
    });
    scan("after storage became available again");
    if (s.chance(1, 3))
    {
        nvm::end_session();
        sut::reset_process();
        run1(s, [&] { m = sut::open_map(TABLES, cap, true); });
        scan("recovered after a storage failure");
        eng::label("recovered afterwards");
    }
    if (hit) { eng::mark_nontrivial(); eng::label("a storage call failed"); }
    if (thrown) eng::label("reported by an exception");
}

// C12: cells
void cell_case(Src &s)
{
    Env env;
    // one file of a few cells, used through the persistence layer only
    std::string p = std::string(TABLES) + "cells.dat";
    unsigned nc = 1 + s.below(3);
    uint64_t *cells = nullptr;
    int fd = open(p.c_str(), O_RDWR | O_CREAT, 0600);
    if (ftruncate(fd, 4096)) _exit(3);

    cells = (uint64_t *)map_cells(fd);
    close(fd);
    unsigned nt = 1 + s.below(3);
    struct COp { bool cas; unsigned c; uint64_t e, d; };
    vector<vector<COp>> prog(nt);
    uint64_t tag = 1;
    for (unsigned t = 0; t < nt; ++t)
        for (unsigned i = 0, n = 1 + s.below(6); i < n; ++i)
        {
            Span sp(s);
            COp o; o.cas = s.chance(1, 2); o.c = s.below(nc);
            o.e = s.below(3); // 0: expected = what this thread saw last, 1: a fixed value, 2: initial
            o.d = s.chance(1, 4) ? 8 * s.below(3) : 8 * (10 + tag++);
            if (s.chance(1, 8)) o.d |= sut::migration_flag();
            prog[t].push_back(o);
        }
    run1(s, [&] { for (unsigned c = 0; c < nc; ++c) sut::cell_store(&cells[c * (s.below(2) ? 8 : 1)], 0); });
    unsigned mulsel = s.below(2) ? 8 : 1;
    run1(s, [&] { for (unsigned c = 0; c < nc; ++c) sut::cell_store(&cells[c * mulsel], 0); });
    // history per cell: CAS with expected and result, reads
    struct CR { uint64_t inv, res; bool done, cas, ok; uint64_t e, d, r; unsigned c; };
    vector<CR> h; h.reserve(1024);
    vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < nt; ++t)
        bodies.push_back([&, t] {
            uint64_t seen[3] = {0, 0, 0};
            for (auto &o : prog[t])
            {
                size_t i = h.size();
                h.push_back({vrt::stamp(), ~0ull, false, o.cas, false, 0, 0, 0, o.c});
                uint64_t *cell = &cells[o.c * mulsel];
                if (o.cas)
                {
                    uint64_t e = o.e == 0 ? seen[o.c] : o.e == 1 ? 8 : 0;
                    uint64_t x = e;
                    h[i].e = e; h[i].d = o.d;
                    bool ok = sut::cell_cas(cell, x, o.d);
                    h[i].ok = ok; h[i].r = x;
                    seen[o.c] = ok ? o.d : x;
                    if (ok && x != e) eng::fail("cell", "a successful CAS changed the expected value from %s to %s", show(e).c_str(), show(x).c_str());
                }
                else { h[i].r = sut::cell_read(cell); seen[o.c] = h[i].r; }
                if (h[i].r & sut::dirty_flag()) eng::fail("dirty", "%s handed out a value with the dirty mark: %s", o.cas ? "a failed CAS" : "a read", show(h[i].r).c_str());
                h[i].res = vrt::stamp(); h[i].done = true;
            }
        });
    vrt::Cfg cfg = vrt::gen_cfg(s, nt);
    if (s.chance(3, 4)) { static const uint64_t mm[] = {8, 30, 80, 250}; cfg.crash_at = 1 + s.below(mm[s.below(4)]); }
    eng::desc("%u cells, %u threads: ", nc, nt);
    for (unsigned t = 0; t < nt; ++t) { eng::desc(" | t%u:", t); for (auto &o : prog[t]) eng::desc(o.cas ? " cas(c%u,%s)" : " read(c%u)", o.c, show(o.d).c_str()); }
    vrt::Result r = vrt::run(cfg, bodies, s);
    if (r.end == vrt::LIMIT || r.end == vrt::DEADLOCK || r.end == vrt::BLOCKED) eng::fail("nontermination", "cell operations did not complete");
    int pol = s.below(3);
    auto st = nvm::power_failure(pol, s);
    eng::desc(" [power fails at point %" PRIu64 ", policy %d, %u lines lost]", r.points, pol, st.lost_lines);
    uint64_t now = vrt::stamp();
    for (auto &x : h) if (!x.done) x.res = now;
    // after the failure: read the cells in the medium
    for (unsigned c = 0; c < nc; ++c)
    {
        size_t i = h.size();
        h.push_back({vrt::stamp(), ~0ull, false, false, false, 0, 0, 0, c});
        h[i].r = cells[c * mulsel] & ~sut::dirty_flag();
        h[i].res = vrt::stamp(); h[i].done = true;
    }
    struct V { uint64_t v; };
    for (unsigned c = 0; c < nc; ++c)
    {
        vector<lin::Entry<CR>> e;
        for (auto &x : h) if (x.c == c && (x.done || x.cas)) e.push_back({x.inv, x.res, !x.done, x});
        auto stp = [](V &v, const CR &o, bool opt) {
            if (!o.cas) return opt || o.r == v.v;
            bool hit = v.v == o.e;
            if (!opt && o.ok != hit) return false;
            if (!opt && !o.ok && o.r != v.v) return false;
            if (hit) v.v = o.d;
            return true;
        };
        if (!lin::linearizable(e, V{0}, stp))
        {
            std::string t;
            for (auto &x : h) if (x.c == c)
            {
                char b[200];
                snprintf(b, sizeof b, "  [%" PRIu64 ",%" PRIu64 "]%s %s e=%s d=%s -> %s %s\n", x.inv, x.res, x.done ? "" : " cut off", x.cas ? "cas" : "read", show(x.e).c_str(), show(x.d).c_str(), x.cas ? (x.ok ? "true" : "false") : "", show(x.r).c_str());
                t += b;
            }
            eng::fail("cell", "no order explains what was seen of cell %u and what the medium holds after the power failure:\n%s", c, t.c_str());
        }
    }
    if (st.dirty_lines || r.end == vrt::CRASHED) { eng::mark_nontrivial(); }
    if (st.lost_lines) eng::label("unflushed lines lost");
}
// C12: range flush
void range_case(Src &s)
{
    Env env;
    std::string p = std::string(TABLES) + "range.dat";
    int fd = open(p.c_str(), O_RDWR | O_CREAT, 0600);
    if (ftruncate(fd, 8192)) _exit(3);

    unsigned char *b = (unsigned char *)map_cells(fd);
    close(fd);
    size_t off = s.below(2) ? s.below(512) : s.below(8) * 64 + s.below(3) * 63 % 64;
    size_t len = s.small(1500);
    if (len == 0) len = 1;
    for (size_t i = 0; i < len; ++i) { nvm::on_write(b + off + i, 1); b[off + i] = (unsigned char)(1 + i % 250); }
    unsigned how = s.below(3); size_t cut = how == 2 ? s.below(len + 1) : len;
    eng::desc("persist [%zu, +%zu) (%u, %zu)", off, len, how, cut);
    run1(s, [&] {
        if (how == 0) { sut::persist_range(b + off, len); return; }
        if (cut) sut::persist_flush(b + off, cut);
        if (cut < len) sut::persist_flush(b + off + cut, len - cut);
        sut::persist_barrier();
    });
    nvm::power_failure(0, s);
    for (size_t i = 0; i < len; ++i)
        if (b[off + i] != (unsigned char)(1 + i % 250)) eng::fail("range", "byte %zu of the range [%zu,+%zu) was not persisted", i, off, len);
    if (len > 64 || (off % 64) + len > 64) eng::mark_nontrivial();
}
// C12: readers of pending writes on one key, then a power failure that keeps as little as possible
void observe_case(Src &s)
{
    SessOpts o; o.grow = -1; o.mix = &MIX_ALL; o.maxthreads = 4; sessions_case(s, o);
}

// C13
void reserved_case(Src &s)
{
    ABS = sut::absent();
    uint64_t KI = ABS, KT = ABS - 8, TP = (ABS - 8) | sut::migration_flag(), MA = ABS - 16, NM = ABS - 24;
    uint64_t x;
    switch (s.below(4))
    {
    case 0: x = (ABS + 8 - 8 * s.below(20)); break;
    case 1: x = s.bits64() & ~7ull; break;
    case 2: x = 1ull << (3 + s.below(61)); if (s.below(2)) x = ~x & ~7ull; break;
    default: x = s.below(32) * 8; break;
    }
    if (s.chance(1, 10)) x = TP;
    bool kr = x == KI || x == KT, vr = x == KI || x == KT || x == TP || x == MA || x == NM;
    eng::desc("word %s", show(x).c_str());
    if (sut::key_reserved(x) != kr) eng::fail("reserved", "isKeyReserved(0x%" PRIx64 ") = %d", x, !kr);
    if (sut::value_reserved(x) != vr) eng::fail("reserved", "isValueReserved(0x%" PRIx64 ") = %d", x, !vr);
    uint64_t w = s.chance(1, 2) ? x : s.bits64(), f = s.chance(2, 3) ? s.below(8) : s.bits64();
    if (sut::set_mark(w, f) != (w | f) || sut::clear_mark(w, f) != (w & ~f) || sut::is_marked(w, f) != (w & f))
        eng::fail("mark", "marks 0x%" PRIx64 " on 0x%" PRIx64 ": set 0x%" PRIx64 " clear 0x%" PRIx64 " test 0x%" PRIx64, f, w, sut::set_mark(w, f), sut::clear_mark(w, f), sut::is_marked(w, f));
    if (kr || vr) { eng::label("reserved"); }
    eng::mark_nontrivial();
}
void store_case(Src &s)
{
    Env env;
    size_t cap = gen_cap(s);
    auto word = [&](bool key) {
        uint64_t x;
        do
        {
            switch (s.below(5))
            {
            case 0: x = ABS - 8 * s.below(24); break;
            case 1: x = s.bits64() & ~7ull; break;
            case 2: x = 1ull << (3 + s.below(61)); break;
            case 3: x = ~(1ull << (3 + s.below(61))) & ~7ull; break;
            default: x = s.below(4) * 8; break;
            }
            if (key ? x == ABS || x == ABS - 8 : x == ABS || x == ABS - 8 || x == ABS - 16 || x == ABS - 24) x = s.below(8) * 8;
        } while (false);
        return x;
    };
    unsigned n = 1 + s.below(24);
    std::map<uint64_t, uint64_t> md;
    vector<std::pair<uint64_t, uint64_t>> kv;
    // more than ten keys that agree in all bits a table can use as index are not storable (known finding),
    // so at most eight keys may agree in the low twelve bits
    std::map<uint64_t, std::set<uint64_t>> cls;
    for (unsigned i = 0; i < n; ++i)
    {
        Span sp(s);
        uint64_t k = word(true), v = word(false);
        auto &c = cls[k & 0xfff];
        if (c.size() >= 8 && !c.count(k)) continue;
        c.insert(k);
        kv.push_back({k, v});
    }
    eng::desc("capacity %zu:", cap);
    run1(s, [&] {
        sut::Map *m = sut::open_map(TABLES, cap, false);
        for (auto &x : kv)
        {
            eng::desc(" put(0x%" PRIx64 ",0x%" PRIx64 ")", x.first, x.second);
            uint64_t p = sut::put(m, x.first, x.second);
            auto it = md.find(x.first);
            uint64_t e = it == md.end() ? ABS : it->second;
            if (p != e) eng::fail("store", "put(0x%" PRIx64 ") returned 0x%" PRIx64 ", expected 0x%" PRIx64, x.first, p, e);
            md[x.first] = x.second;
            for (auto &y : md)
            {
                uint64_t g = sut::get(m, y.first);
                if (g != y.second) eng::fail("store", "get(0x%" PRIx64 ") = 0x%" PRIx64 ", stored 0x%" PRIx64, y.first, g, y.second);
                if (!sut::contains(m, y.first)) eng::fail("store", "containsKey(0x%" PRIx64 ") is false", y.first);
            }
        }
        // conditional operations treat every usable value as a value
        for (auto &y : md)
        {
            uint64_t nv = y.second == 8 ? 16 : 8;
            if (sut::replace(m, y.first, y.second, nv) != true) eng::fail("store", "replace(0x%" PRIx64 ", its value 0x%" PRIx64 ") is false", y.first, y.second);
            if (sut::replace(m, y.first, nv, y.second) != true) eng::fail("store", "replace(0x%" PRIx64 ", %" PRIu64 ", 0x%" PRIx64 ") is false", y.first, nv, y.second);
            if (sut::get(m, y.first) != y.second) eng::fail("store", "replace did not store 0x%" PRIx64, y.second);
        }
    });
    // and so does recovery
    if (s.chance(1, 3))
    {
        nvm::power_failure(0, s);
        nvm::end_session();
        sut::reset_process();
        run1(s, [&] {
            sut::Map *m = sut::open_map(TABLES, cap, true);
            for (auto &y : md)
            {
                uint64_t g = sut::get(m, y.first);
                if (g != y.second) eng::fail("store", "after recovery get(0x%" PRIx64 ") = 0x%" PRIx64 ", stored 0x%" PRIx64, y.first, g, y.second);
            }
        });
        eng::label("recovered");
    }
    eng::mark_nontrivial();
}
}
void *map_cells(int fd);
#include <sys/mman.h>
void *map_cells(int fd)
{
    void *p = mmap(nullptr, 4096 * 2, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) _exit(3);
    return p;
}

#define EXPL "exploration"
static const char *A_NVM = "power-failure model: 64-byte lines, a line is durable once flushed and fenced, unflushed lines may or may not have been written back (any content a line had since it was last persisted); file creation, size and renaming are durable at once";
static const char *A_SC = "schedules interleave whole memory accesses in a sequentially consistent order; x86 store buffering is not modelled";
static const char *A_LOW = "keys and values are non-reserved multiples of 8 (the map reserves the low three bits)";
static eng::RegProp props[] = {
    {{"C01", "random sequences of put/get/containsKey/remove/replace/putIfAbsent/increment/update on random key pools (colliding, strided, random), initial capacities 8..64, compared call by call with std::map; non-trivial: at least two keys are present at the end", EXPL, {A_LOW}}},
    {{"C02", "random sequences and concurrent programs dominated by conditional operations, on one or two hot keys; sequential results compared with a model, concurrent ones by exhaustive linearizability search per key; non-trivial: at least two keys present (sequential) or three context switches (concurrent)", EXPL, {A_LOW, A_SC}}},
    {{"C03", "2-4 threads with 1-8 operations each under generated schedules that switch at every memory access; history checked for linearizability per key, followed by a read-back of every key; non-trivial: at least three context switches", EXPL, {A_LOW, A_SC}}},
    {{"C04", "the same operation sequence on three initial capacities with adversarial key strides (metamorphic, and against std::map), plus concurrent programs on nearly full tables; non-trivial: the map grew, or three context switches", EXPL, {A_LOW, A_SC}}},
    {{"C05", "increment-heavy sequences and concurrent programs; every returned count and every final count must be explained by one order of the calls; non-trivial: two keys present (sequential) or three context switches", EXPL, {A_LOW, A_SC}}},
    {{"C06", "size() after every call of a sequence and, for concurrent programs, when all threads are done, against the number of keys found; non-trivial: two keys present or three context switches", EXPL, {A_LOW, A_SC}}},
    {{"C07", "concurrent programs in which one thread is suspended at a generated memory access for as long as others run; all others must complete within 600000 accesses of a fair schedule, then the suspended thread too; non-trivial: at least three context switches", EXPL, {A_LOW, A_SC}}},
    {{"C08", "1-3 threads, power failure at a generated memory access, flush or system call, three policies for unflushed lines; the recovered contents must extend the history to a durably linearizable one; non-trivial: power failed while operations ran, or unflushed lines were lost", EXPL, {A_LOW, A_SC, A_NVM}}},
    {{"C09", "up to four sessions, each ended orderly or by a power failure (also inside construction and recovery), with operations, size checks and read-backs in each; non-trivial: a session ended orderly or during operations", EXPL, {A_LOW, A_SC, A_NVM}}},
    {{"C10", "leftover table files (from earlier maps or arbitrary), then a map created without recovery, used and compared with a model; non-trivial: there were leftovers", EXPL, {A_LOW}}},
    {{"C11", "a generated open/ftruncate/mmap/rename call fails during construction or growth, one or two threads; exceptions reported, history still linearizable, map usable and recoverable afterwards; non-trivial: a call failed", EXPL, {A_LOW, A_SC}}},
    {{"C12", "reads and CASes on persistent cells, range flushes, and whole-map histories with readers, cut by a power failure; everything read before must be explained by what the medium holds afterwards; non-trivial: lines were unflushed or the failure came during operations", EXPL, {A_SC, A_NVM}}},
    {{"C13", "words next to the sentinels, powers of two, random words: reserved predicates and marks against their definition; stored and read back, also after recovery; non-trivial: every case", EXPL, {A_LOW}}},
};
static eng::RegMode modes[] = {
    {{"C01", "seq", seq_all, 120000, 8000000, 1}},
    {{"C02", "seq", seq_cond, 50000, 2000000, 1}},
    {{"C02", "conc", conc_cond, 120000, 8000000, 1}},
    {{"C03", "mixed", conc_mixed, 80000, 8000000, 1}},
    {{"C03", "hot", conc_hot, 50000, 4000000, 1}},
    {{"C03", "grow", conc_grow, 80000, 12000000, 1}},
    {{"C03", "putrem", conc_putrem, 50000, 12000000, 1}},
    {{"C04", "metamorphic", metamorphic, 30000, 1200000, 1}},
    {{"C04", "grow", conc_grow, 80000, 6000000, 1}},
    {{"C04", "putrem", conc_putrem, 50000, 6000000, 1}},
    {{"C05", "seq", seq_inc, 40000, 2000000, 1}},
    {{"C05", "conc", conc_inc, 120000, 8000000, 1}},
    {{"C06", "seq", seq_size, 60000, 2000000, 1}},
    {{"C06", "conc", conc_size, 100000, 8000000, 1}},
    {{"C07", "stall", conc_stall, 60000, 4000000, 1}},
    {{"C07", "stall_grow", conc_stall_grow, 80000, 8000000, 1}},
    {{"C08", "basic", crash_basic, 80000, 6000000, 1}},
    {{"C08", "hot", crash_hot, 60000, 4000000, 1}},
    {{"C08", "grow", crash_grow, 60000, 6000000, 1}},
    {{"C09", "sessions", recover_use, 80000, 6000000, 1}},
    {{"C09", "orderly", recover_orderly, 40000, 2000000, 1}},
    {{"C10", "leftovers", fresh_case, 80000, 4000000, 1}},
    {{"C11", "faults", fault_case, 80000, 4000000, 1}},
    {{"C12", "cells", cell_case, 120000, 8000000, 1}},
    {{"C12", "range", range_case, 20000, 400000, 1}},
    {{"C12", "observe", observe_case, 60000, 4000000, 1}},
    {{"C13", "reserved", reserved_case, 20000, 4000000, 500}},
    {{"C13", "store", store_case, 60000, 2000000, 1}},
};
int main(int argc, char **argv) { return eng::driver_main(argc, argv); }
