// Model-based testing of transactional containers in a pool: sequences of operations, in transactions that
// commit or abort, with allocation failures, throwing elements and power failures, over several sessions.
// Included by harnesses after the libpmemobj++ headers; compiled with instrumentation.
#pragma once
#include "engine.hpp"
#include "pm.hpp"
#include "vrt.hpp"
#include <libpmemobj.h>
#include <cinttypes>
#include <cstring>
#include <functional>
#include <iostream>
#include <string>
#include <unistd.h>
#include <vector>
namespace pmx
{
namespace nv = pmem::obj;
using State = std::vector<std::vector<std::string>>; // one entry per container
constexpr int ROOTSLOTS = 16;
struct Root { nv::persistent_ptr<char> slot[ROOTSLOTS]; };
inline nv::pool<Root> pop;
template <class T> T *obj(int i) { return reinterpret_cast<T *>(pop.root()->slot[i].get()); }

struct Shared { uint32_t npre, npost; char pre[1 << 18], post[1 << 18]; uint64_t flag[16]; };
inline Shared *sh;
inline std::string g_tmpl;
inline void session_start()
{
    pm::enabled = true;
    pm::clamp_pool = 0;
    vrt::set_plain_filter(pm::tracked);
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
}
inline const std::string &tmpl()
{
    if (g_tmpl.empty())
    {
        std::string dir = eng::fresh_dir();
        eng::in_child("creation of the pool", [&] {
            session_start();
            pop = nv::pool<Root>::create(dir + "/t", "x", PMEMOBJ_MIN_POOL, 0600);
            pop.root();
            pop.close();
        });
        g_tmpl = dir + "/t";
        pm::shrink_lanes(g_tmpl, 64);
    }
    return g_tmpl;
}
inline void batch()
{
    sh = (Shared *)eng::shared_alloc(sizeof(Shared));
    pm::enabled = false;
    tmpl();
}
struct Pool
{
    std::string dir, file;
    bool own;
    Pool(bool durable) : own(durable)
    {
        memset(sh->flag, 0, sizeof sh->flag);
        pm::durable = durable;
        if (durable) { dir = eng::fresh_dir(); file = dir + "/p"; pm::copy_sparse(tmpl(), file); }
        else file = tmpl();
    }
    ~Pool() { if (own) eng::remove_tree(dir); }
};
inline unsigned live_objects()
{
    unsigned n = 0;
    for (PMEMoid o = pmemobj_first(pop.handle()); !OID_IS_NULL(o); o = pmemobj_next(o)) ++n;
    return n;
}
inline void put_u(std::string &o, uint32_t x) { o.append((char *)&x, 4); }
inline std::string ser(const State &s)
{
    std::string o;
    put_u(o, s.size());
    for (auto &c : s) { put_u(o, c.size()); for (auto &e : c) { put_u(o, e.size()); o += e; } }
    return o;
}
inline State deser(const char *p)
{
    auto get = [&] { uint32_t x; memcpy(&x, p, 4); p += 4; return x; };
    State s(get());
    for (auto &c : s) { c.resize(get()); for (auto &e : c) { uint32_t n = get(); e.assign(p, n); p += n; } }
    return s;
}
inline void set_expect(const State &a, const State &b)
{
    std::string x = ser(a), y = ser(b);
    if (x.size() > sizeof sh->pre || y.size() > sizeof sh->post) eng::fail_exit("harness", "state too big");
    memcpy(sh->pre, x.data(), x.size()); memcpy(sh->post, y.data(), y.size());
}
inline std::string quote(const std::string &e)
{
    std::string o;
    for (unsigned char c : e) { char b[8]; if (c >= 32 && c < 127) o += c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } if (o.size() > 60) { o += "..."; break; } }
    return o;
}
inline std::string show(const State &s)
{
    std::string o;
    for (auto &c : s)
    {
        o += " {";
        for (auto &e : c) { o += " " + quote(e); if (o.size() > 1500) { o += " ..."; break; } }
        o += " }(" + std::to_string(c.size()) + ")";
    }
    return o;
}
// faults
struct Injected {};
inline int throw_at; // countdown of element copies (0: off)
inline void may_throw() { if (throw_at && --throw_at == 0) throw Injected(); }

enum Wrap { PLAIN, COMMIT, THROW, MANUAL_COMMIT, MANUAL_ABORT, AUTO, NESTED, NESTED_THROW, CAUGHT_INNER, NWRAP };
static const char *const wrap_name[] = {"", "tx", "tx!throw", "manual", "manual!abort", "auto", "nested", "nested!throw", "nested!caught"};
template <class Op> struct Unit { int wrap; std::vector<Op> ops; int fault; unsigned fault_at; unsigned inner_from; };

struct Abort {};
inline std::string what_thrown() // call in a catch block
{
    try { throw; }
    catch (Injected &) { return "throw injected"; }
    catch (Abort &) { return "throw abort"; }
    catch (std::out_of_range &) { return "throw out_of_range"; }
    catch (std::length_error &) { return "throw length_error"; }
    catch (pmem::manual_tx_abort &) { return "throw manual_tx_abort"; }
    catch (pmem::transaction_scope_error &) { return "throw scope_error"; }
    catch (pmem::transaction_out_of_memory &) { return "throw out_of_memory"; }
    catch (pmem::transaction_alloc_error &) { return "throw alloc_error"; }
    catch (pmem::transaction_free_error &) { return "throw free_error"; }
    catch (pmem::transaction_error &) { return "throw transaction_error"; }
    catch (pmem::pool_error &) { return "throw pool_error"; }
    catch (std::bad_alloc &) { return "throw bad_alloc"; }
    catch (...) { return "throw something"; }
}
// Sys: using Op; static Op gen(Src&); static std::string name(const Op&); void create(); void attach();
//   State read(); std::string extra(); std::string model(State&, const Op&); std::string apply(const Op&);
//   void settle(bool committed); void finish();
template <class Sys> struct Machine
{
    using Op = typename Sys::Op;
    using U = Unit<Op>;
    Sys &sys;
    State m;
    Machine(Sys &s) : sys(s) {}
    void expect_state(const State &e, const char *when)
    {
        State g = sys.read();
        if (g != e) eng::fail("state", "%s: contents%s, expected%s", when, show(g).c_str(), show(e).c_str());
    }
    // true: committed
    void unit(const U &u, unsigned idx)
    {
        char when[200];
        State before = m;
        std::string ex = sys.extra();
        if (u.wrap == PLAIN)
        {
            for (auto &o : u.ops)
            {
                snprintf(when, sizeof when, "unit %u, %s", idx, sys.name(o).c_str());
                State m2 = m;
                std::string want = sys.model(m2, o), got;
                set_expect(m, m2);
                ex = sys.extra();
                arm(u);
                try { got = sys.apply(o); }
                catch (...) { got = what_thrown(); }
                bool fired = disarm(u);
                if (pmemobj_tx_stage() != TX_STAGE_NONE) eng::fail("stage", "%s: still in a transaction afterwards", when);
                if (fired && !got.compare(0, 5, "throw"))
                {
                    eng::label("fault fired");
                    if (u.fault == 2 && got != "throw injected") eng::fail("exception", "%s: the element's exception became %s", when, got.c_str());
                    if (u.fault == 1 && got != "throw out_of_memory" && got != "throw alloc_error" && got != "throw bad_alloc" && got != "throw transaction_error")
                        eng::fail("exception", "%s: allocation failure reported as %s", when, got.c_str());
                    sys.settle(false);
                    snprintf(when, sizeof when, "unit %u, %s, after a failure", idx, sys.name(o).c_str());
                    expect_state(m, when);
                    if (sys.extra() != ex) eng::fail("extra", "%s: %s, before %s", when, sys.extra().c_str(), ex.c_str());
                    return;
                }
                if (got != want) eng::fail("result", "%s: %s, expected %s; contents before:%s", when, got.c_str(), want.c_str(), show(m).c_str());
                bool thrown = !got.compare(0, 5, "throw");
                m = m2;
                sys.settle(!thrown);
                expect_state(m, when);
                if (thrown && sys.extra() != ex) eng::fail("extra", "%s: %s, before %s", when, sys.extra().c_str(), ex.c_str());
            }
            return;
        }
        // transactions
        State fin = m;
        bool aborts = u.wrap == THROW || u.wrap == MANUAL_ABORT || u.wrap == NESTED_THROW || u.wrap == CAUGHT_INNER;
        bool model_throws = false;
        std::vector<std::string> want;
        std::vector<State> states;
        for (auto &o : u.ops)
        {
            want.push_back(sys.model(fin, o));
            states.push_back(fin);
            if (!want.back().compare(0, 5, "throw")) { model_throws = true; break; }
        }
        set_expect(m, aborts || model_throws ? m : fin);
        bool faultfired = false;
        auto step = [&](unsigned i) {
            auto &o = u.ops[i];
            std::string got;
            try { got = sys.apply(o); }
            catch (...)
            {
                got = what_thrown();
                bool injected = u.fault == 1 ? pm::allocs >= pm::fail_alloc_at : u.fault == 2 ? throw_at == 0 : false;
                if (injected && got != want[i]) { faultfired = true; throw; }
                if (got != want[i]) eng::note_fail("result", "unit %u (%s), %s: %s, expected %s", idx, wrap_name[u.wrap], sys.name(o).c_str(), got.c_str(), want[i].c_str());
                throw;
            }
            if (got != want[i]) eng::fail("result", "unit %u (%s), %s: %s, expected %s", idx, wrap_name[u.wrap], sys.name(o).c_str(), got.c_str(), want[i].c_str());
            snprintf(when, sizeof when, "unit %u (%s), %s, in the transaction", idx, wrap_name[u.wrap], sys.name(o).c_str());
            expect_state(states[i], when);
        };
        unsigned n = want.size(), mid = std::min<unsigned>(n, u.inner_from);
        std::string out = "ok";
        arm(u);
        try
        {
            switch (u.wrap)
            {
            case COMMIT: nv::transaction::run(pop, [&] { for (unsigned i = 0; i < n; ++i) step(i); }); break;
            case THROW: nv::transaction::run(pop, [&] { for (unsigned i = 0; i < n; ++i) step(i); throw Abort(); }); break;
            case MANUAL_COMMIT: { nv::transaction::manual tx(pop); for (unsigned i = 0; i < n; ++i) step(i); nv::transaction::commit(); break; }
            case MANUAL_ABORT: { nv::transaction::manual tx(pop); for (unsigned i = 0; i < n; ++i) step(i); break; }
            case AUTO: { nv::transaction::automatic tx(pop); for (unsigned i = 0; i < n; ++i) step(i); break; }
            case NESTED:
                nv::transaction::run(pop, [&] {
                    for (unsigned i = 0; i < mid; ++i) step(i);
                    nv::transaction::run(pop, [&] { for (unsigned i = mid; i < n; ++i) step(i); });
                });
                break;
            case NESTED_THROW:
                nv::transaction::run(pop, [&] {
                    for (unsigned i = 0; i < mid; ++i) step(i);
                    nv::transaction::run(pop, [&] { for (unsigned i = mid; i < n; ++i) step(i); });
                    throw Abort();
                });
                break;
            case CAUGHT_INNER:
                nv::transaction::run(pop, [&] {
                    for (unsigned i = 0; i < mid; ++i) step(i);
                    try { nv::transaction::run(pop, [&] { for (unsigned i = mid; i < n; ++i) step(i); throw Abort(); }); }
                    catch (Abort &) {}
                });
                break;
            }
        }
        catch (eng::Failed &) { throw; }
        catch (...) { out = what_thrown(); }
        disarm(u);
        if (eng::shm->failed) throw eng::Failed();
        snprintf(when, sizeof when, "unit %u (%s)", idx, wrap_name[u.wrap]);
        if (pmemobj_tx_stage() != TX_STAGE_NONE) eng::fail("stage", "%s: still in a transaction afterwards", when);
        std::string expect = "ok";
        if (model_throws) expect = want.back();
        else if (u.wrap == THROW || u.wrap == NESTED_THROW) expect = "throw abort";
        else if (u.wrap == CAUGHT_INNER) expect = "throw transaction_error";
        bool committed = expect == "ok" && u.wrap != MANUAL_ABORT;
        if (faultfired) { committed = false; eng::label("fault fired"); if (out == "ok") eng::fail("outcome", "%s: reported success although an operation failed", when); }
        else if (model_throws ? out.compare(0, 5, "throw") : out != expect) eng::fail("outcome", "%s: outcome %s, expected %s", when, out.c_str(), expect.c_str());
        if (committed) m = fin;
        else eng::label("aborted");
        sys.settle(committed);
        snprintf(when, sizeof when, "unit %u (%s), after the transaction %s", idx, wrap_name[u.wrap], committed ? "committed" : "aborted");
        expect_state(m, when);
        if (!committed && sys.extra() != ex) eng::fail("extra", "%s: %s, before %s", when, sys.extra().c_str(), ex.c_str());
    }
    void arm(const U &u)
    {
        pm::allocs = 0;
        pm::fail_alloc_at = u.fault == 1 ? u.fault_at : 0;
        throw_at = u.fault == 2 ? u.fault_at : 0;
    }
    bool disarm(const U &u)
    {
        bool f = u.fault == 1 ? pm::allocs >= pm::fail_alloc_at : u.fault == 2 ? throw_at == 0 : false;
        pm::fail_alloc_at = 0;
        throw_at = 0;
        return f;
    }
};
struct Plan
{
    std::vector<int> wraps = {PLAIN, COMMIT, THROW};
    unsigned max_units = 12, max_ops = 5;
    bool throwing = false; // elements can throw
    unsigned crash_num = 1, crash_den = 3;
};
inline int g_policy;
inline uint64_t g_pseed;
inline void power_off()
{
    auto st = pm::power_failure(g_policy, g_pseed);
    sh->flag[1] += st.lost;
    sh->flag[2] = 1;
    pm::crash_exit();
}
template <class Sys> void run_case(eng::Src &s, Plan pl)
{
    using Op = typename Sys::Op;
    bool durable = s.chance(1, 2);
    Pool p(durable);
    unsigned sessions = durable ? 1 + s.below(3) : 1;
    State m; // in the parent: what the next session must find
    std::vector<State> may;
    unsigned total = 0, done_units = 0;
    memset(sh->flag, 0, sizeof sh->flag);
    vrt::on_crash = power_off;
    for (unsigned ss = 0; ss < sessions; ++ss)
    {
        eng::Span sp(s);
        std::vector<Unit<Op>> us;
        unsigned n = 1 + s.small(pl.max_units);
        eng::desc("%s", ss ? " | reopen:" : "");
        for (unsigned i = 0; i < n; ++i)
        {
            eng::Span sp2(s);
            Unit<Op> u;
            u.wrap = pl.wraps[s.below(pl.wraps.size())];
            unsigned k = u.wrap == PLAIN ? 1 + s.below(3) : s.below(pl.max_ops + 1);
            u.inner_from = s.below(k + 1);
            eng::desc(" %s(", wrap_name[u.wrap]);
            for (unsigned j = 0; j < k; ++j) { eng::Span sp3(s); u.ops.push_back(Sys::gen(s)); eng::desc("%s%s", j ? "; " : "", Sys::name(u.ops[j]).c_str()); }
            u.fault = s.chance(1, 5) ? 1 + (pl.throwing ? s.below(2) : 0) : 0;
            u.fault_at = u.fault ? 1 + s.below(u.fault == 1 ? 3 : 12) : 0;
            eng::desc(")");
            if (u.fault) eng::desc("[%s %u]", u.fault == 1 ? "allocation failure" : "throwing element", u.fault_at);
            if (u.wrap != PLAIN) eng::label(wrap_name[u.wrap]);
            total += k;
            us.push_back(u);
        }
        bool crash = durable && s.chance(pl.crash_num, pl.crash_den);
        vrt::Cfg c;
        if (crash)
        {
            c.limit = 50000000;
            if (s.below(2)) c.kinds |= 1u << vrt::K_PLAIN;
            c.crash_at = 1 + s.below(1ull << (3 + s.below(c.kinds >> vrt::K_PLAIN & 1 ? 11 : 8)));
            g_policy = s.below(5); g_pseed = s.bits64();
            eng::desc(" power fails at %" PRIu64 "%s (policy %d)", c.crash_at, c.kinds >> vrt::K_PLAIN & 1 ? "p" : "", g_policy);
        }
        uint64_t ev_at = crash && s.chance(1, 3) ? 1 + s.below(c.crash_at) : 0;
        static uint64_t es; es = ev_at ? s.bits64() : 0;
        vrt::on_hook = [] { pm::evict(es, 1, 3); };
        c.hook_at = ev_at;
        bool last = ss + 1 == sessions;
        sh->flag[2] = 0; sh->flag[3] = 0;
        eng::in_child("session", [&] {
            session_start();
            pop = nv::pool<Root>::open(p.file, "x");
            Sys sys;
            Machine<Sys> mc(sys);
            if (ss == 0) sys.create();
            sys.attach();
            mc.m = sys.read();
            if (ss)
            {
                bool ok = false;
                for (auto &e : may) ok |= e == mc.m;
                if (!ok)
                {
                    std::string all;
                    for (auto &e : may) all += "\n or " + show(e);
                    eng::fail(sh->flag[4] ? "durability" : "reopen", "reopened%s: contents%s, expected%s", sh->flag[4] ? " after a power failure" : "", show(mc.m).c_str(), all.c_str() + 1);
                }
            }
            sys.settle(true);
            set_expect(mc.m, mc.m);
            unsigned i = 0;
            auto body = [&] { for (auto &u : us) { mc.unit(u, i++); sh->flag[0]++; } };
            if (crash)
            {
                static std::string err;
                auto r = vrt::run(c, {[&] { try { body(); } catch (eng::Failed &) { err = "f"; } }}, s);
                if (!err.empty() || eng::shm->failed) throw eng::Failed();
                if (r.end == vrt::LIMIT) eng::fail("hang", "the operations do not finish");
                set_expect(mc.m, mc.m);
                power_off();
            }
            body();
            set_expect(mc.m, mc.m);
            if (last) sys.finish();
            sh->flag[3] = 1;
            pop.close();
            pm::sync_all();
        });
        may.clear();
        may.push_back(deser(sh->pre));
        may.push_back(deser(sh->post));
        sh->flag[4] = sh->flag[2];
        if (sh->flag[2]) eng::label(sh->flag[1] ? "power failure, lines lost" : "power failure");
        done_units += sh->flag[0];
        if (last && sh->flag[2])
        {
            eng::in_child("recovery", [&] {
                session_start();
                pop = nv::pool<Root>::open(p.file, "x");
                Sys sys;
                sys.attach();
                State g = sys.read();
                if (g != may[0] && g != may[1]) eng::fail("durability", "after a power failure: contents%s, expected%s\n or%s", show(g).c_str(), show(may[0]).c_str(), show(may[1]).c_str());
                sys.settle(true);
                sys.finish();
                pop.close();
                pm::sync_all();
            });
        }
    }
    if (total >= 3 && done_units) eng::mark_nontrivial();
}
}
