// Properties C14, C15: the container adapters that the workloads use.
#include "engine.hpp"
#include "kv.hpp"
#include "paths.hpp"
#include "pm.hpp"
#include "sut_ad.hpp"
#include "vrt.hpp"
#include <algorithm>
#include <iostream>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using eng::Src;
using eng::Span;
using std::vector;
namespace
{
const char *PM_DIR = "/mnt/pmem/pm1";
const char *kname[] = {"ucf", "stl", "pmem", "clevel"};
struct Shared
{
    kv::Hist h;
    uint64_t n; struct { uint64_t el, val; bool ctr; } m[512]; // contents expected at the end of a session
    uint64_t nontrivial;
};
Shared *sh;
std::string g_tmpl[4];
constexpr unsigned NTHR = 14; // threads in the options

void session_start(ad::Kind k)
{
    pm::enabled = k == ad::PM || k == ad::CLEVEL;
    pm::clamp_pool = 40 << 20;
    vrt::adopt_threads = true; // the rehashing thread of the level hash map stays out of this
    vrt::set_plain_filter(pm::enabled ? pm::tracked : nullptr);
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
}
ad::Opt opt(const std::string &file, unsigned cap, unsigned threads = NTHR) { return {threads, 40, cap, file, false, false}; }
const std::string &tmpl(ad::Kind k)
{
    if (g_tmpl[k].empty())
    {
        std::string dir = eng::fresh_dir();
        eng::in_child("creation of the pool", [&] {
            session_start(k);
            ad::make(k, opt(dir + "/t", 4), false);
            pm::sync_all();
            _exit(0);
        });
        g_tmpl[k] = dir + "/t";
        pm::shrink_lanes(g_tmpl[k], 64);
    }
    return g_tmpl[k];
}
void batch()
{
    sh = (Shared *)eng::shared_alloc(sizeof(Shared));
    pm::enabled = false;
    pm::durable = true;
    tmpl(ad::PM); tmpl(ad::CLEVEL);
}
struct Store // storage of one case
{
    std::string dir, file;
    ad::Kind k;
    Store(ad::Kind k, bool durable, bool from_template) : k(k)
    {
        pm::durable = durable;
        dir = eng::fresh_dir();
        mkdir((dir + "/tables").c_str(), 0700);
        paths::reset();
        paths::redirect(PM_DIR, dir);
        file = dir + "/pool";
        if (k == ad::PM || k == ad::CLEVEL)
        {
            if (!durable) file = tmpl(k);
            else if (from_template) pm::copy_sparse(tmpl(k), file);
        }
        sh->n = 0;
        sh->h.start(0);
    }
    ~Store() { paths::reset(); eng::remove_tree(dir); }
};
// elements: within the range all containers take
vector<uint64_t> gen_elements(Src &s, unsigned n)
{
    vector<uint64_t> v;
    std::set<uint64_t> seen;
    unsigned style = s.below(5);
    for (unsigned i = 0; i < n; ++i)
    {
        uint64_t e;
        switch (style)
        {
        case 0: e = 1 + i; break;
        case 1: e = 1 + i * 8; break;
        case 2: e = 1 + s.below(5000); break;
        case 3: e = 1 + s.below(1ull << 40); break;
        default: e = 1 + s.below(1ull << (4 + s.below(56))); break;
        }
        while (seen.count(e)) ++e;
        seen.insert(e);
        v.push_back(e);
    }
    return v;
}
enum OpK { INS, ERA, HAS, GET, INC, COUNT };
const char *oname[] = {"insert", "erase", "contains", "get", "increment", "count"};
struct Op { OpK k; unsigned e; };
bool counters(ad::Kind k) { return k == ad::UCF || k == ad::STL; }
bool counts(ad::Kind k) { return k != ad::CLEVEL; }

struct Model
{
    std::map<uint64_t, uint64_t> m;
    void load() { for (uint64_t i = 0; i < sh->n; ++i) m[sh->m[i].el] = sh->m[i].val; }
    void save() { sh->n = 0; for (auto &e : m) { sh->m[sh->n].el = e.first; sh->m[sh->n++].val = e.second; } }
};
void check_all(ad::Kind k, ad::C *c, const Model &m, const vector<uint64_t> &els, const char *when)
{
    for (auto e : els)
    {
        auto it = m.m.find(e);
        bool p = it != m.m.end();
        if (c->contains(e) != p) eng::fail("contains", "%s: %s: contains(%" PRIu64 ") is %d, expected %d", kname[k], when, e, !p, p);
        if (p)
        {
            uint64_t v = c->get(e);
            if (v != it->second) eng::fail("get", "%s: %s: get(%" PRIu64 ") = %" PRIu64 ", expected %" PRIu64, kname[k], when, e, v, it->second);
        }
    }
    if (counts(k) && c->count() != m.m.size()) eng::fail("count", "%s: %s: count() = %" PRIu64 ", expected %zu", kname[k], when, c->count(), m.m.size());
    if (!c->consistent()) eng::fail("consistent", "%s: %s: isConsistent() is false", kname[k], when);
}
void seq_case(Src &s)
{
    auto k = (ad::Kind)s.below(4);
    bool persistent = k != ad::STL;
    unsigned sessions = persistent ? 1 + s.below(3) : 1, cap = s.pick({3u, 4u, 6u, 10u, 16u});
    bool create = s.chance(1, 8);
    Store st(k, sessions > 1 || create, !create);
    unsigned ne = 1 + s.small(60);
    auto els = gen_elements(s, ne);
    vector<bool> ctr(ne);
    if (counters(k)) for (unsigned i = 0; i < ne; ++i) ctr[i] = s.chance(1, 3);
    eng::desc("%s, capacity 2^%u%s;", kname[k], cap, create ? ", new file" : "");
    unsigned total = 0;
    sh->nontrivial = 0;
    for (unsigned ss = 0; ss < sessions; ++ss)
    {
        Span sp(s);
        vector<Op> ops;
        unsigned n = s.small(80);
        for (unsigned i = 0; i < n; ++i)
        {
            Span sp(s);
            Op o;
            o.e = s.below(ne);
            o.k = (OpK)s.weighted({10, 7, 4, 4, 0, 1});
            if (ctr[o.e] && o.k == INS) o.k = INC;
            ops.push_back(o);
            eng::desc(" %s(%" PRIu64 ")", oname[o.k], els[o.e]);
        }
        total += n;
        bool rec = ss && (k == ad::UCF ? s.chance(3, 4) : s.chance(1, 2));
        if (ss) eng::label(rec ? "recovered" : "opened again");
        eng::in_child("session", [&] {
            session_start(k);
            Model m;
            if (ss && (k != ad::UCF || rec)) m.load();
            ad::set_thread(0);
            auto *c = ad::make(k, opt(st.file, cap), rec);
            check_all(k, c, m, els, ss ? (rec ? "after recovery" : "opened again") : "at the start");
            unsigned i = 0;
            for (auto &o : ops)
            {
                uint64_t e = els[o.e];
                bool p = m.m.count(e);
                auto bad = [&](uint64_t got, uint64_t exp) { eng::fail("result", "%s: operation %u, %s(%" PRIu64 ") = %" PRIu64 ", expected %" PRIu64, kname[k], i, oname[o.k], e, got, exp); };
                switch (o.k)
                {
                case INS: { bool r = c->insert(e); if (r == p) bad(r, !p); if (!p) m.m[e] = e; break; }
                case ERA: { bool r = c->erase(e); if (r != p) bad(r, p); m.m.erase(e); break; }
                case HAS: { bool r = c->contains(e); if (r != p) bad(r, p); break; }
                case GET: { uint64_t r = c->get(e); if (p && r != m.m[e]) bad(r, m.m[e]); break; }
                case INC: { c->increment(e); m.m[e] = p ? m.m[e] + 1 : 1; break; }
                case COUNT: { uint64_t r = c->count(); if (counts(k) && r != m.m.size()) bad(r, m.m.size()); break; }
                }
                ++i;
            }
            check_all(k, c, m, els, "at the end");
            m.save();
            if (m.m.size() >= 2) sh->nontrivial = 1;
            if (pm::enabled && pm::durable) pm::sync_all();
            _exit(0);
        });
        eng::desc(" | next session:");
    }
    if (total >= 5 && sh->nontrivial) eng::mark_nontrivial();
}
// ---- C15 ----
void conc_case(Src &s)
{
    auto k = (ad::Kind)s.weighted({3, 1, 3, 3});
    unsigned cap = s.pick({3u, 4u, 5u, 6u}), nk = 1 + s.below(5), nt = 2 + s.below(3), pre = s.below(3) ? s.below(30) : 0;
    Store st(k, false, true);
    vector<uint64_t> els;
    // level hash map: elements in buckets of their own (see known_findings.txt)
    unsigned base = 1 + s.below(1000), stride = s.pick({1u, 1u, 8u, 37u});
    for (unsigned i = 0; i < nk + pre; ++i) els.push_back(base + i * stride);
    eng::desc("%s, capacity 2^%u, elements %u+%u*i, %u before", kname[k], cap, base, stride, pre);
    struct P { vector<kv::Op> ops; };
    vector<P> pr(nt);
    for (unsigned t = 0; t < nt; ++t)
    {
        unsigned n = 1 + s.below(nt > 3 ? 4 : 7);
        eng::desc("; thread %u:", t);
        for (unsigned i = 0; i < n; ++i)
        {
            Span sp(s);
            kv::Op o{};
            static const kv::Kind a[] = {kv::INS, kv::ERA, kv::GET, kv::CNT, kv::INC};
            o.key = s.below(nk);
            o.kind = a[s.weighted({6, 5, 4, 3, 0})];
            // the first element is a counter in containers that have counters
            if (o.key == 0 && counters(k) && o.kind == kv::INS) o.kind = kv::INC;
            o.thr = t;
            o.arg = els[o.key];
            o.noval = o.kind == kv::INC;
            pr[t].ops.push_back(o);
            eng::desc(" %s(%u)", kv::kind_name[o.kind], o.key);
        }
    }
    vector<unsigned> num; // thread numbers
    for (unsigned t = 0; t < nt; ++t)
    {
        unsigned x = s.below(NTHR);
        while (std::count(num.begin(), num.end(), x)) x = (x + 1) % NTHR;
        num.push_back(x);
        eng::desc("; thread %u is number %u", t, x);
    }
    vector<bool> present(nk);
    for (unsigned i = 0; i < nk; ++i) present[i] = s.chance(1, 2);
    vrt::Cfg c = vrt::gen_cfg(s, nt);
    c.stall_soft = k != ad::UCF; // locks (libpmemobj has some, too)
    c.real_threads = true;
    if (s.chance(1, 2)) c.kinds |= 1u << vrt::K_PLAIN;
    c.limit = 2000000; c.fair_after = 300000;
    eng::in_child("concurrent operations", [&] {
        session_start(k);
        ad::set_thread(0);
        auto *cc = ad::make(k, opt(st.file, cap), false);
        for (unsigned i = 0; i < nk; ++i)
            if (present[i]) { if (i == 0 && counters(k)) cc->increment(els[i]); else cc->insert(els[i]); }
        for (unsigned i = nk; i < nk + pre; ++i) cc->insert(els[i]);
        sh->h.start(nk);
        for (unsigned i = 0; i < nk; ++i) { sh->h.present[i] = present[i]; sh->h.val[i] = i == 0 && counters(k) ? 1 : els[i]; }
        vector<std::function<void()>> b;
        for (unsigned t = 0; t < nt; ++t)
            b.push_back([&, t] {
                ad::set_thread(num[t]);
                for (auto &o : pr[t].ops)
                {
                    int i = sh->h.begin(o);
                    bool rb = false; uint64_t rv = 0;
                    switch (o.kind)
                    {
                    case kv::INS: rb = cc->insert(o.arg); break;
                    case kv::ERA: rb = cc->erase(o.arg); break;
                    case kv::GET: rv = cc->get(o.arg); rb = k == ad::UCF ? rv < 1ull << 60 : rv != 0; break;
                    case kv::CNT: rb = cc->contains(o.arg); break;
                    default: cc->increment(o.arg); rb = true; break;
                    }
                    sh->h.end(i, rb, rv);
                }
            });
        auto r = vrt::run(c, b, s);
        if (r.switches >= 3) eng::mark_nontrivial();
        if (r.end == vrt::DEADLOCK) eng::fail("deadlock", "%s: all threads wait for locks", kname[k]);
        if (r.end == vrt::LIMIT || r.end == vrt::BLOCKED) eng::fail("hang", "%s: the operations do not finish", kname[k]);
        vector<kv::St> fin;
        uint64_t n = 0;
        for (unsigned i = 0; i < nk + pre; ++i)
        {
            bool p = cc->contains(els[i]);
            n += p;
            if (i < nk) fin.push_back({p, p ? cc->get(els[i]) : 0});
            else if (!p || cc->get(els[i]) != els[i]) eng::fail("lost", "%s: element %" PRIu64 ", which no thread touched, is %s", kname[k], els[i], p ? "changed" : "lost");
        }
        kv::check(sh->h, &fin, true, "linearizability");
        if (counts(k) && cc->count() != n) eng::fail("count", "%s: count() = %" PRIu64 " afterwards, %" PRIu64 " elements are there", kname[k], cc->count(), n);
        // and it remains usable
        for (unsigned i = 0; i < nk; ++i)
        {
            if (cc->erase(els[i]) != (bool)fin[i].p) eng::fail("usable", "%s: erase(%" PRIu64 ") afterwards gives the wrong result", kname[k], els[i]);
            if (cc->contains(els[i])) eng::fail("usable", "%s: element %" PRIu64 " is still there after its removal", kname[k], els[i]);
            if (!cc->insert(els[i])) eng::fail("usable", "%s: insert(%" PRIu64 ") afterwards gives the wrong result", kname[k], els[i]);
        }
        _exit(0);
    });
    eng::label(kname[k]);
}
#define EXPL "exploration"
const char *A_SC = "schedules interleave whole memory accesses in a sequentially consistent order";
eng::RegProp props[] = {
    {{"C14", "random sequences of insert, erase, contains, get, count and (for elements used as counters) increment on each container adapter (PMap, STL, PMDK, clevel), for the persistent ones over up to three sessions with reopening or recovery; every result, all contents and the size against a reference map; non-trivial: at least five operations and two elements at the end of a session", EXPL, {"elements between 1 and 2^60, which every container can hold; an element is used either as a set member or as a counter (insertion of a present element resets a PMap counter)", "the level hash map is given no more elements than its initial levels hold (its growth is C19-C21)"}}},
    {{"C15", "2-4 threads with up to 7 operations each on 1-5 elements (others present) through each adapter, each thread with its own number as the workloads set it; generated schedules switching at memory accesses, locks and flushes; per-element linearizability, untouched elements, size and use afterwards; non-trivial: at least three context switches", EXPL, {A_SC, "level hash map: the elements are in buckets of their own, and no growth (C19-C21)"}}},
};
eng::RegMode modes[] = {
    {{"C14", "seq", seq_case, 12000, 600000, 100}},
    {{"C15", "conc", conc_case, 24000, 2000000, 100}},
};
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch;
    return eng::driver_main(argc, argv);
}
