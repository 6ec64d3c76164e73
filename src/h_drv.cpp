// Properties C29, C30: the driver (runTest) and what its workloads leave behind.
#include "engine.hpp"
#include "kv.hpp"
#include "paths.hpp"
#include "pm.hpp"
#include "sut_ad.hpp"
#include "sut_drv.hpp"
#include "vrt.hpp"
#include <algorithm>
#include <atomic>
#include <climits>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using eng::Src;
using eng::Span;
using std::string;
using std::vector;
namespace
{
const char *PM_DIR = "/mnt/pmem/pm1", *DATA = "/home/kenneth/PMap/data";
const char *kname[] = {"reference", "ucf", "stl", "pmem", "clevel"}; // 0: the harness's own container
const char *tname[] = {"alternating", "degree", "random", "reddit", "YCSB"};
const char *oname[] = {"insert", "erase", "contains", "get", "count", "increment", "isConsistent"};

// ---- rand() of the workloads -----------------------------------------------------------------
bool g_rand = false;
uint64_t g_rand_state;
unsigned g_nkeys;
std::map<int, uint64_t> g_rand_calls;

// ---- the container behind the driver ---------------------------------------------------------
struct Ev { int what; uint64_t el; int thr; size_t num; uint64_t r; uint64_t inv, res; };
struct Cont
{
    drv::Opt opt;
    bool reconstruct, dead = false, counted = false;
    ad::C *c = nullptr;
    std::map<uint64_t, uint64_t> ref; // reference container
    std::map<uint64_t, uint64_t> before, after; // contents (of real containers, over the universe)
    vector<Ev> ev;
    int run;
    uint64_t printed = 0;
    vector<int> threads; // worker threads started while it was the current one
};
vector<Cont *> g_conts;
vector<uint64_t> g_universe;
int g_kind;
vrt::Cfg g_cfg;
Src *g_src;
vrt::Result g_res;
size_t g_workers; // started at the last join
string g_fail;

const drv::Opt *g_probe; // the expected options; nothing is run
struct MyHooks : drv::Hooks
{
    static void snapshot(Cont *c, std::map<uint64_t, uint64_t> &m)
    {
        vrt::Pause p;
        for (auto e : g_universe)
            if (g_kind ? c->c->contains(e) : c->ref.count(e)) m[e] = g_kind ? c->c->get(e) : c->ref[e];
    }
    void *create(const drv::Opt &o, bool rec) override
    {
        if (g_probe)
        {
            auto &w = *g_probe;
            if (o.threads != w.threads || o.ops != w.ops || o.runs != w.runs || o.capacity != w.capacity || o.file != w.file || o.recover != w.recover || o.wipe != w.wipe)
                eng::fail_exit("settings", "the container is created with threads %zu, operations %zu, runs %zu, capacity %zu, file %s, recover %d, wipe %d", o.threads, o.ops, o.runs, o.capacity, o.file.c_str(), o.recover, o.wipe);
            _exit(0);
        }
        auto *c = new Cont;
        c->opt = o; c->reconstruct = rec; c->run = g_conts.size();
        if (g_kind) c->c = ad::make((ad::Kind)(g_kind - 1), {o.threads, o.ops, o.capacity, o.file, o.recover, o.wipe}, rec);
        vrt::take_adopted(); // the level hash map's own thread is not run (no growth here)
        ad::set_thread(0);
        snapshot(c, c->before);
        g_conts.push_back(c);
        return c;
    }
    void destroy(void *p) override
    {
        auto *c = (Cont *)p;
        if (c->dead) eng::fail_exit("driver", "a container is destroyed twice");
        snapshot(c, c->after);
        c->dead = true;
        if (g_kind) { vrt::Pause p; delete c->c; c->c = nullptr; }
    }
    uint64_t op(void *p, int what, uint64_t el, size_t num) override
    {
        auto *c = (Cont *)p;
        if (c->dead) eng::fail_exit("driver", "%s on a container that was destroyed", oname[what]);
        if (num >= std::max<size_t>(c->opt.threads, 1)) eng::fail_exit("thread-number", "a thread has number %zu, there are %zu threads", num, c->opt.threads);
        Ev e{what, el, vrt::self(), num, 0, vrt::stamp(), 0};
        vrt::point(vrt::K_RMW);
        if (g_kind)
        {
            ad::set_thread(num);
            switch (what)
            {
            case 0: e.r = c->c->insert(el); break;
            case 1: e.r = c->c->erase(el); break;
            case 2: e.r = c->c->contains(el); break;
            case 3: e.r = c->c->get(el); break;
            case 4: e.r = c->c->count(); break;
            case 5: e.r = c->c->increment(el); break;
            default: e.r = c->c->consistent(); break;
            }
        }
        else
            switch (what)
            {
            case 0: e.r = c->ref.emplace(el, el).second; break;
            case 1: e.r = c->ref.erase(el); break;
            case 2: e.r = c->ref.count(el); break;
            case 3: e.r = c->ref.count(el) ? c->ref[el] : 0; break;
            case 4: e.r = c->ref.size(); break;
            case 5: e.r = ++c->ref[el]; break;
            default: e.r = 1; break;
            }
        vrt::point(vrt::K_RMW);
        e.res = vrt::stamp();
        c->ev.push_back(e);
        return e.r;
    }
} g_hooks;

void run_workers()
{
    auto b = vrt::take_adopted();
    g_workers += b.size();
    if (b.size() > 60) eng::fail_exit("threads", "%zu threads are started", b.size());
    for (size_t i = 0; i < b.size(); ++i) if (!g_conts.empty()) g_conts.back()->threads.push_back(i);
    if (b.empty()) return;
    g_res = vrt::run(g_cfg, b, *g_src);
    if (g_res.end == vrt::DEADLOCK) eng::fail_exit("deadlock", "the worker threads wait for each other");
    if (g_res.end != vrt::DONE) eng::fail_exit("hang", "the worker threads do not finish");
}

string g_tmpl[2];
void session_start(int kind)
{
    pm::enabled = kind == 3 || kind == 4;
    pm::clamp_pool = 40 << 20;
    vrt::adopt_threads = true;
    vrt::on_join = run_workers;
    vrt::set_plain_filter(pm::enabled ? pm::tracked : nullptr);
    drv::hooks = &g_hooks;
    g_conts.clear();
    g_kind = kind;
    g_workers = 0;
    g_rand = true;
    g_rand_calls.clear();
}
struct Shared { int rc; bool returned; uint64_t nontrivial; uint64_t made; } *sh;
void batch()
{
    sh = (Shared *)eng::shared_alloc(sizeof(Shared));
    pm::enabled = false;
    pm::durable = true;
    for (int i = 0; i < 2; ++i)
        if (g_tmpl[i].empty())
        {
            string dir = eng::fresh_dir();
            eng::in_child("creation of the pool", [&] {
                session_start(3 + i);
                ad::make((ad::Kind)(2 + i), {16, 40, 4, dir + "/t", false, false}, false);
                pm::sync_all();
                _exit(0);
            });
            g_tmpl[i] = dir + "/t";
            pm::shrink_lanes(g_tmpl[i], 64);
        }
}
struct Dir
{
    string d;
    Dir()
    {
        d = eng::fresh_dir();
        for (auto x : {"/tables", "/cwd", "/data", "/data/rmat", "/data/YCSB"}) mkdir((d + x).c_str(), 0700);
        paths::reset();
        paths::redirect(PM_DIR, d);
        paths::redirect(DATA, d + "/data");
        pm::durable = true;
    }
    ~Dir() { paths::reset(); eng::remove_tree(d); }
};
struct Args
{
    vector<string> a{"runTest"};
    drv::Opt o{8, 40, 1, 16, "/mnt/pmem/pm1/persist.bin", true, false};
    bool numthreads_given = false;
    void add(const string &x, const string &v) { a.push_back(x); a.push_back(v); }
};
string g_out, g_err;
int run_driver(drv::Test t, const Args &a, const string &cwd)
{
    if (chdir(cwd.c_str())) _exit(3);
    std::ostringstream out, err;
    auto *ob = std::cout.rdbuf(out.rdbuf()), *eb = std::cerr.rdbuf(err.rdbuf());
    vector<char *> v;
    for (auto &x : a.a) v.push_back(const_cast<char *>(x.c_str()));
    v.push_back(nullptr);
    int rc = drv::run(t, a.a.size(), v.data());
    std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
    g_out = out.str(); g_err = err.str();
    return rc;
}
void show_args(const Args &a) { eng::desc("arguments:"); for (size_t i = 1; i < a.a.size(); ++i) eng::desc(" %s", a.a[i].find(' ') == string::npos && !a.a[i].empty() ? a.a[i].c_str() : ("'" + a.a[i] + "'").c_str()); }
string num(uint64_t x) { return std::to_string(x); }

// ---- data files ------------------------------------------------------------------------------
struct Data
{
    vector<uint64_t> part[4];  // degree: incoming ends, per file
    vector<uint64_t> reddit;
    vector<uint64_t> load;
    vector<std::pair<int, uint64_t>> ycsb; // 0 insert, 1 read, 2 delete, 3 update
};
uint64_t gen_key(Src &s) { return s.below(g_nkeys); }
Data gen_data(Src &s, drv::Test t, const string &dir)
{
    Data d;
    if (t == drv::DEGREE)
        for (int f = 0; f < 4; ++f)
        {
            std::ofstream o(dir + "/data/rmat/edge_list_rmat_s10_" + num(f) + "_of_4");
            unsigned n = s.small(30);
            eng::desc("; file %d:", f);
            const char *sep = s.below(2) ? " " : "\t";
            for (unsigned i = 0; i < n; ++i)
            {
                Span sp(s);
                uint64_t to = gen_key(s);
                o << s.below(50) << sep << to << "\n";
                d.part[f].push_back(to);
                eng::desc(" %" PRIu64, to);
            }
        }
    if (t == drv::REDDIT)
    {
        std::ofstream o(dir + "/data/reddit_author_hash.uint64_t");
        unsigned n = s.small(60);
        eng::desc("; numbers:");
        for (unsigned i = 0; i < n; ++i) { Span sp(s); uint64_t x = gen_key(s); o << x << "\n"; d.reddit.push_back(x); eng::desc(" %" PRIu64, x); }
    }
    if (t == drv::YCSB)
    {
        static const char *w[] = {"INSERT", "READ", "DELETE", "UPDATE"};
        std::ofstream l(dir + "/data/YCSB/outputLoada.txt"), r(dir + "/data/YCSB/outputRuna.txt");
        unsigned n = s.small(30), m = s.small(60);
        eng::desc("; load:");
        for (unsigned i = 0; i < n; ++i) { Span sp(s); uint64_t x = gen_key(s); l << "INSERT " << x << "\n"; d.load.push_back(x); eng::desc(" %" PRIu64, x); }
        eng::desc("; run:");
        for (unsigned i = 0; i < m; ++i)
        {
            Span sp(s);
            uint64_t x = gen_key(s); int k = s.below(4);
            r << w[k] << " " << x << "\n";
            d.ycsb.push_back({k, x});
            eng::desc(" %s(%" PRIu64 ")", w[k], x);
        }
    }
    return d;
}
using Seq = vector<std::pair<int, uint64_t>>; // operation, element
string show(const Seq &q)
{
    string r;
    for (auto &x : q) { r += string(" ") + oname[x.first] + "(" + num(x.second) + ")"; if (r.size() > 700) { r += " ..."; break; } }
    return r;
}
uint64_t ref_share(uint64_t n, uint64_t total, uint64_t id) { return total / n + (id == 0 ? total % n : 0); }
// what the main thread does before and the worker `id` does (alternating, degree, reddit, YCSB)
Seq expect_prefix(drv::Test t, const drv::Opt &o, const Data &d)
{
    Seq q;
    if (t == drv::ALT) { uint64_t n = ref_share(o.threads, o.ops, 0); for (uint64_t i = 0; i < n / 10; ++i) q.push_back({0, i}); }
    if (t == drv::YCSB) for (auto x : d.load) q.push_back({0, x});
    return q;
}
Seq expect_worker(drv::Test t, const drv::Opt &o, const Data &d, unsigned id)
{
    Seq q;
    if (t == drv::ALT)
    {
        // the share without its tenth: insertions (at odd distances from the end) and removals
        uint64_t max = ref_share(o.threads, o.ops, 0), n = ref_share(o.threads, o.ops, id), w = n / 10, r = w / 2;
        for (uint64_t m = n - n / 10; m; --m)
            if (m % 2) q.push_back({0, id * max + w++});
            else q.push_back({1, id * max + r++});
    }
    if (t == drv::DEGREE && id < 4) for (auto x : d.part[id]) q.push_back({5, x});
    if (t == drv::REDDIT && id == 0) for (auto x : d.reddit) q.push_back({5, x});
    if (t == drv::YCSB) for (size_t i = id; i < d.ycsb.size(); i += o.threads) q.push_back({d.ycsb[i].first == 1 ? 2 : d.ycsb[i].first == 2 ? 1 : 0, d.ycsb[i].second});
    return q;
}
void check_run(drv::Test t, const Cont &c, const Data &d, const Args &a)
{
    const auto &o = a.o;
    // phases: prefix (main), workers, suffix (main)
    vector<Seq> w(o.threads);
    Seq pre;
    bool seen_worker = false;
    uint64_t last = 0, suffix_count = ~0ull;
    std::set<int> numbers;
    std::map<int, std::set<size_t>> nums;
    for (auto &e : c.ev)
    {
        if (e.thr >= 0)
        {
            seen_worker = true;
            nums[e.thr].insert(e.num);
            w[e.num].push_back({e.what, e.el});
            last = std::max(last, e.res);
        }
    }
    for (auto &x : nums)
    {
        if (x.second.size() != 1) eng::fail("thread-number", "a thread changes its number");
        if (!numbers.insert(*x.second.begin()).second) eng::fail("thread-number", "two threads have number %zu", *x.second.begin());
    }
    uint64_t first = ~0ull;
    for (auto &e : c.ev) if (e.thr >= 0) first = std::min(first, e.inv);
    bool counted = false;
    for (auto &e : c.ev)
        if (e.thr < 0)
        {
            if (e.what == 4 && (!seen_worker || e.inv > last) && !counted && (e.inv > last)) { suffix_count = e.r; counted = true; }
            if (e.what == 0 || e.what == 1 || e.what == 5)
            {
                if (seen_worker && e.inv > first) eng::fail("order", "the main thread does %s(%" PRIu64 ") after the workers started", oname[e.what], e.el);
                pre.push_back({e.what, e.el});
            }
        }
    if (suffix_count == ~0ull) eng::fail("driver", "the driver does not ask for the size after the workers finished");
    if (t == drv::RANDOM)
    {
        uint64_t inserts = 0;
        for (auto &x : pre) { if (x.first != 0) eng::fail("work", "random: %s before the workers start", oname[x.first]); ++inserts; }
        if (inserts > o.ops) eng::fail("work", "random: %" PRIu64 " insertions before the workers start, for %zu operations", inserts, o.ops);
        for (unsigned i = 0; i < o.threads; ++i)
            if (w[i].size() > ref_share(o.threads, o.ops, i))
                eng::fail("work", "random: thread %u of %zu performs %zu operations, its share of %zu is %" PRIu64, i, o.threads, w[i].size(), o.ops, ref_share(o.threads, o.ops, i));
        return;
    }
    auto ep = expect_prefix(t, o, d);
    if (pre != ep) eng::fail("work", "%s: before the workers start:%s, expected:%s", tname[t], show(pre).c_str(), show(ep).c_str());
    for (unsigned i = 0; i < o.threads; ++i)
    {
        auto ex = expect_worker(t, o, d, i);
        if (w[i] != ex) eng::fail("work", "%s: thread %u of %zu performs%s, expected:%s", tname[t], i, o.threads, show(w[i]).c_str(), show(ex).c_str());
    }
}
void check_output(drv::Test t, const Args &a, unsigned runs)
{
    auto has = [&](const string &x) { return g_out.find(x + "\n") != string::npos; };
    const auto &o = a.o;
    auto need = [&](const string &x) { if (!has(x)) eng::fail("output", "the output lacks the line '%s':\n%s", x.c_str(), g_out.substr(0, 1500).c_str()); };
    need("***          number of threads: " + num(o.threads));
    need("*** total number of operations: " + num(o.ops));
    need("***       total number of runs: " + num(o.runs));
    need("***  initial capacity (base 2): " + num(o.capacity));
    need("***            actual capacity: " + num(1ull << o.capacity));
    need("***                mapped file: " + o.file);
    need("***                    recover: " + num(o.recover));
    need("***                  wipe file: " + num(o.wipe));
    size_t n = 0, p = 0;
    while ((p = g_out.find("container size = ", p)) != string::npos)
    {
        uint64_t v = strtoull(g_out.c_str() + p + 17, nullptr, 10);
        // the n-th run's container
        size_t k = 0;
        for (auto *c : g_conts)
        {
            bool is_run = !c->threads.empty();
            if (is_run && k++ == n) c->printed = v;
        }
        ++n; p += 17;
    }
    if (n != runs) eng::fail("output", "the output reports %zu runs, %u expected:\n%s", n, runs, g_out.substr(0, 1500).c_str());
    if (g_out.find("average time: ") == string::npos) eng::fail("output", "no average time in the output:\n%s", g_out.substr(0, 1500).c_str());
    (void)t;
}
void gen_args(Src &s, Args &a, drv::Test t, unsigned maxthreads, unsigned maxops, const string &dir)
{
    auto set = [&](int i) {
        auto &o = a.o;
        switch (i)
        {
        case 0: o.threads = 1 + s.below(maxthreads); a.add("-t", num(o.threads)); break;
        case 1: o.ops = s.small(maxops); a.add("-n", num(o.ops)); break;
        case 2: o.runs = 1 + s.below(2); a.add("-p", num(o.runs)); break;
        case 3: o.capacity = 3 + s.below(8); a.add("-c", num(o.capacity)); break;
        case 4: o.file = dir + "/" + s.pick({"pool", "a b.bin", "x", "-t", "p.5", "10"}); a.add("-f", o.file); break;
        case 5: o.recover = s.below(2); a.add("-r", num(o.recover)); break;
        default: o.wipe = s.below(2); a.add("-w", num(o.wipe)); break;
        }
    };
    (void)t;
    unsigned n = s.below(9);
    for (unsigned i = 0; i < n; ++i) { Span sp(s); set(s.below(7)); }
}
// ---- C29 ----
void work_case(Src &s)
{
    Dir dir;
    auto t = (drv::Test)s.below(drv::NTEST);
    g_nkeys = s.pick({3u, 12u, 50u});
    Args a;
    gen_args(s, a, t, s.pick({3u, 8u, 33u}), s.pick({40u, 200u, 400u}), dir.d);
    // the recovery pass of the alternating workload wants a container that a run has filled
    if (t == drv::ALT && a.o.recover) { a.o.recover = false; a.add("-r", "0"); }
    show_args(a);
    Data d = gen_data(s, t, dir.d);
    g_rand_state = s.bits64();
    eng::label(tname[t]);
    auto c = vrt::gen_cfg(s, a.o.threads);
    c.stall_thread = -1; c.real_threads = true;
    c.limit = 4000000; c.fair_after = 200000;
    sh->nontrivial = 0;
    eng::in_child("driver", [&] {
        session_start(0);
        g_universe.clear();
        for (uint64_t i = 0; i < 4096; ++i) g_universe.push_back(i);
        g_cfg = c; g_src = &s;
        int rc = run_driver(t, a, dir.d + "/cwd");
        if (rc) eng::fail("exit", "the driver returns %d", rc);
        if (g_err.find("rror") != string::npos || g_out.find("error in test") != string::npos) eng::fail("error", "the driver reports an error: %s", g_out.substr(g_out.find("error in test") == string::npos ? 0 : g_out.find("error in test"), 300).c_str());
        if (g_workers != a.o.threads * a.o.runs) eng::fail("threads", "%zu threads were started in %zu runs with %zu threads", g_workers, a.o.runs, a.o.threads);
        unsigned runs = 0, rec = 0;
        for (auto *x : g_conts)
        {
            const auto &o = x->opt;
            if (o.threads != a.o.threads || o.ops != a.o.ops || o.runs != a.o.runs || o.capacity != a.o.capacity || o.file != a.o.file || o.recover != a.o.recover || o.wipe != a.o.wipe)
                eng::fail("options", "the container is made with threads %zu, operations %zu, runs %zu, capacity %zu, file '%s', recover %d, wipe %d; expected %zu, %zu, %zu, %zu, '%s', %d, %d", o.threads, o.ops, o.runs, o.capacity, o.file.c_str(), o.recover, o.wipe, a.o.threads, a.o.ops, a.o.runs, a.o.capacity, a.o.file.c_str(), a.o.recover, a.o.wipe);
            if (x->threads.empty()) { ++rec; if (!x->reconstruct || !a.o.recover || runs) eng::fail("recovery", "a container is made that no test uses"); continue; }
            ++runs;
            if (x->reconstruct != a.o.recover) eng::fail("options", "the container is %sreconstructed with -r %d", x->reconstruct ? "" : "not ", a.o.recover);
            if (x->threads.size() != a.o.threads) eng::fail("threads", "%zu threads work on one container, expected %zu", x->threads.size(), a.o.threads);
            check_run(t, *x, d, a);
        }
        if (runs != a.o.runs) eng::fail("runs", "%u runs, expected %zu", runs, a.o.runs);
        if (a.o.recover && !rec) eng::fail("recovery", "the recovery test was not run");
        check_output(t, a, runs);
        if (t == drv::RANDOM)
        {
            // two numbers for every operation of a worker
            uint64_t tot = 0;
            for (auto &x : g_rand_calls) if (x.first >= 0) tot += x.second;
            if (tot != 2 * a.o.ops * a.o.runs) eng::fail("work", "random: the workers perform %" PRIu64 " operations in %zu runs of %zu", tot / 2, a.o.runs, a.o.ops);
        }
        for (auto *x : g_conts)
            if (!x->threads.empty())
            {
                uint64_t n = x->ref.size();
                if (x->printed != n) eng::fail("output", "container size = %" PRIu64 " is printed, the container holds %" PRIu64, x->printed, n);
            }
        // the result file
        std::ifstream f("output.txt");
        string line, all;
        unsigned lines = 0;
        while (std::getline(f, line)) { ++lines; all = line; }
        std::istringstream ls(all);
        string tm, th, tn;
        ls >> tm >> th >> tn;
        if (lines != 1 || th != num(a.o.threads) || tn != drv::test_name(t)) eng::fail("output", "output.txt holds %u lines: %s", lines, all.c_str());
        size_t total = 0;
        for (auto *x : g_conts) for (auto &e : x->ev) total += e.thr >= 0;
        if (a.o.threads >= 2 && total >= 4) sh->nontrivial = 1;
        _exit(0);
    });
    if (sh->nontrivial) eng::mark_nontrivial();
}
void share_case(Src &s)
{
    uint64_t n = 1 + s.below(s.pick({4ull, 100ull, 1000ull})), total = s.below(2) ? s.below(2000) : s.bits64() >> (1 + s.below(60));
    eng::desc("%" PRIu64 " threads, %" PRIu64 " operations", n, total);
    auto t = (drv::Test)s.below(drv::NTEST);
    uint64_t sum = 0, mx = 0, mn = ~0ull;
    for (uint64_t i = 0; i < n; ++i) { uint64_t x = drv::share(t, n, total, i); sum += x; mx = std::max(mx, x); mn = std::min(mn, x); if (drv::main_share(t, x) > x) eng::fail("share", "the main part of %" PRIu64 " operations is %zu", x, drv::main_share(t, x)); }
    if (sum != total) eng::fail("share", "the shares of %" PRIu64 " operations for %" PRIu64 " threads add up to %" PRIu64, total, n, sum);
    if (drv::share(t, n, total, 0) != mx) eng::fail("share", "thread 0 does not have the largest share, by which the elements are numbered");
    if (n > 1 && total >= n) eng::mark_nontrivial();
}
// options of any size reach the container
void option_case(Src &s)
{
    Dir dir;
    Args a;
    auto t = (drv::Test)s.below(drv::NTEST);
    unsigned n = 1 + s.below(7);
    auto big = [&] { uint64_t v = s.bits64() >> s.below(64); return s.chance(1, 6) ? s.pick({0xffffffffull, 0x100000000ull, 0x7fffffffull, 0x80000000ull, ~0ull >> 1}) + s.below(2) : v; };
    for (unsigned i = 0; i < n; ++i)
    {
        Span sp(s);
        auto &o = a.o;
        switch (s.below(7))
        {
        case 0: o.threads = 1 + s.below(60); a.add("-t", num(o.threads)); break;
        case 1: case 2: o.ops = big(); a.add("-n", num(o.ops)); break;
        case 3: o.runs = std::max<uint64_t>(big(), 1); a.add("-p", num(o.runs)); break;
        case 4: o.capacity = 1 + s.below(30); a.add("-c", num(o.capacity)); break;
        case 5: o.recover = s.below(2); a.add("-r", num(o.recover)); break;
        default: o.wipe = s.below(2); a.add("-w", num(o.wipe)); break;
        }
    }
    if (a.o.ops >> 32 || a.o.runs >> 32) eng::mark_nontrivial();
    show_args(a);
    gen_data(s, t, dir.d);
    eng::in_child("options", [&] {
        session_start(0);
        g_cfg = vrt::Cfg(); g_src = &s;
        g_cfg.real_threads = true;
        g_universe.clear();
        g_probe = &a.o;
        run_driver(t, a, dir.d + "/cwd");
        eng::fail_exit("settings", "no container is created");
    });
}
// argument lists that the driver must refuse, and -h
void reject_case(Src &s)
{
    Dir dir;
    Args a;
    auto t = (drv::Test)s.below(drv::NTEST);
    gen_args(s, a, t, 8, 40, dir.d);
    int what = s.weighted({3, 3, 2, 1});
    static const char *unknown[] = {"x", "--help", "-x", "t", "5", "", "-T", "-", "--threads", "-threads", "-num", "-capacity", "-recover", "-hx", "-file", "-tt", "-n5", " -t"};
    static const char *needs[] = {"-t", "-n", "-p", "-c", "-f", "-r", "-w"};
    bool help = false;
    switch (what)
    {
    case 0: a.a.push_back(unknown[s.below(18)]); break;
    case 1: a.a.push_back(unknown[s.below(18)]); gen_args(s, a, t, 8, 40, dir.d); break;
    case 2: a.a.push_back(needs[s.below(7)]); break; // its value is missing
    default: a.a.push_back("-h"); help = true; gen_args(s, a, t, 8, 40, dir.d); break;
    }
    show_args(a);
    gen_data(s, t, dir.d);
    sh->returned = false; sh->made = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
        session_start(0);
        g_cfg = vrt::Cfg(); g_src = &s;
        g_cfg.real_threads = true;
        g_universe.clear();
        if (!freopen("/dev/null", "w", stderr)) _exit(3);
        atexit([] { sh->made = g_conts.size(); });
        std::set_terminate([] { sh->made = g_conts.size(); _exit(99); });
        if (chdir((dir.d + "/cwd").c_str())) _exit(3);
        if (!freopen("out", "w", stdout)) _exit(3);
        vector<char *> v;
        for (auto &x : a.a) v.push_back(const_cast<char *>(x.c_str()));
        v.push_back(nullptr);
        int rc = 99;
        try { rc = drv::run(t, a.a.size(), v.data()); }
        catch (...) { sh->made = g_conts.size(); _exit(99); } // a refusal, if an ugly one
        sh->returned = true;
        fflush(stdout);
        exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (sh->made || sh->returned) eng::fail("accepted", "the arguments are accepted and a test is run");
    if (help)
    {
        if (!WIFEXITED(st) || WEXITSTATUS(st)) eng::fail("help", "-h ends with status %x", st);
        std::ifstream f(dir.d + "/cwd/out");
        string all((std::istreambuf_iterator<char>(f)), {});
        for (auto x : needs) if (all.find(string("\n") + x + " ") == string::npos) eng::fail("help", "-h does not mention %s:\n%s", x, all.substr(0, 1000).c_str());
        if (all.find("default: 40)") == string::npos || all.find("default: 8)") == string::npos || all.find("default: 16)") == string::npos) eng::fail("help", "-h does not give the defaults:\n%s", all.substr(0, 1000).c_str());
    }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) eng::fail("accepted", "the arguments are wrong, but the driver returns success");
    if (a.a.size() > 2) eng::mark_nontrivial();
}
// ---- C30 ----
struct Final { std::map<uint64_t, uint64_t> m; };
Final g_prev;
struct PrevShm { uint64_t n; struct { uint64_t k, v; } e[4096]; } *prevshm;
void content_case(Src &s)
{
    Dir dir;
    auto t = (drv::Test)s.below(drv::NTEST);
    int kind = 1 + s.below(4);
    g_nkeys = s.pick({3u, 12u, 50u});
    unsigned sessions = kind == 2 ? 1 : 1 + s.chance(1, 4);
    if (t == drv::ALT || kind == 4) sessions = 1;
    eng::label(kname[kind]);
    eng::label(tname[t]);
    string pool = dir.d + "/pool";
    if (kind >= 3) pm::copy_sparse(g_tmpl[kind - 3], pool);
    memset(prevshm, 0, 8);
    bool counters = kind <= 2;
    for (unsigned ss = 0; ss < sessions; ++ss)
    {
        Span sp(s);
        Args a;
        a.o.threads = 1 + s.below(s.pick({3u, 6u, 9u}));
        a.o.ops = s.small(s.pick({30u, 150u}));
        a.o.capacity = kind == 1 ? s.pick({3u, 4u, 6u, 9u}) : 4;
        a.o.runs = kind <= 3 && !ss && s.chance(1, 4) ? 2 : 1;
        a.o.file = pool;
        a.o.recover = ss > 0;
        a.add("-t", num(a.o.threads)); a.add("-n", num(a.o.ops)); a.add("-c", num(a.o.capacity)); a.add("-p", num(a.o.runs)); a.add("-f", pool); a.add("-r", num(a.o.recover));
        eng::desc("%s on %s: ", tname[t], kname[kind]);
        show_args(a);
        Data d = gen_data(s, t, dir.d);
        g_rand_state = s.bits64();
        auto c = vrt::gen_cfg(s, a.o.threads);
        if (kind != 1) c.stall_thread = -1;
        if (c.stall_len == ~0ull) c.stall_thread = -1; // the workers wait for each other at the start
        c.real_threads = true;
        c.limit = 6000000; c.fair_after = 400000;
        sh->nontrivial = 0;
        eng::in_child("driver", [&] {
            session_start(kind);
            g_universe.clear();
            uint64_t nu = t == drv::ALT ? a.o.threads * ref_share(a.o.threads, a.o.ops, 0) + 20 : t == drv::RANDOM ? 8 * g_nkeys + 8 : g_nkeys + 5;
            for (uint64_t i = 0; i < nu; ++i) g_universe.push_back(i);
            g_cfg = c; g_src = &s;
            int rc = run_driver(t, a, dir.d + "/cwd");
            if (rc) eng::fail("exit", "the driver returns %d", rc);
            if (g_out.find("error in test") != string::npos) eng::fail("error", "%s", g_out.substr(g_out.find("error in test"), 300).c_str());
            vector<Cont *> runs;
            for (auto *x : g_conts) if (!x->threads.empty()) runs.push_back(x);
            if (runs.size() != a.o.runs) eng::fail("runs", "%zu runs, expected %zu", runs.size(), a.o.runs);
            check_output(t, a, runs.size());
            for (auto *x : runs)
            {
                if (!x->dead) MyHooks::snapshot(x, x->after);
                std::map<uint64_t, uint64_t> start;
                if (ss || (kind == 3 && x != runs[0])) for (uint64_t i = 0; i < prevshm->n; ++i) start[prevshm->e[i].k] = prevshm->e[i].v;
                if (x->before.size() != start.size() || (counters ? x->before != start : !std::equal(start.begin(), start.end(), x->before.begin(), [](auto &p, auto &q) { return p.first == q.first; })))
                    eng::fail("start", "%s: the container holds %zu of the elements at the start of the run, expected %zu", kname[kind], x->before.size(), start.size());
                // expected contents, from the input of the workload alone
                std::map<uint64_t, uint64_t> m = start;
                bool lin = false;
                if (t == drv::ALT)
                {
                    std::set<uint64_t> st;
                    auto doo = [&](const Seq &q) { for (auto &o : q) { if (o.first == 0) st.insert(o.second); else st.erase(o.second); } };
                    doo(expect_prefix(t, a.o, d));
                    for (unsigned i = 0; i < a.o.threads; ++i) doo(expect_worker(t, a.o, d, i));
                    for (auto e : st) m[e] = e;
                }
                else if (t == drv::DEGREE) { for (unsigned i = 0; i < 4 && i < a.o.threads; ++i) for (auto e : d.part[i]) ++m[e]; }
                else if (t == drv::REDDIT) { for (auto e : d.reddit) ++m[e]; }
                else
                {
                    lin = true;
                    for (auto e : g_universe)
                    {
                        if (!start.count(e)) start[e];
                        vector<lin::Entry<kv::Op>> v;
                        unsigned no = 0;
                        for (auto &y : x->ev)
                        {
                            if (y.what == 4 || y.what == 3 || y.what == 6 || y.el != e) continue;
                            kv::Op o{};
                            o.kind = y.what == 0 ? kv::INS : y.what == 1 ? kv::ERA : y.what == 2 ? kv::CNT : kv::INC;
                            if (y.what == 5 && !counters) o.kind = kv::INS; // they only record the element
                            o.rb = y.r; o.noval = true;
                            if (o.kind == kv::INC) { o.kind = kv::PUT; o.rb = true; }
                            v.push_back({y.inv, y.res, false, o});
                            ++no;
                        }
                        kv::Op g{};
                        g.kind = kv::CNT; g.rb = x->after.count(e);
                        v.push_back({~0ull - 1, ~0ull, false, g});
                        kv::St st{x->before.count(e) ? 1ull : 0ull, 0};
                        // increments fit both as insertions of absent elements and as changes of present ones
                        auto step = [](kv::St &z, const kv::Op &o, bool opt) { if (o.kind == kv::PUT) { z.p = 1; return true; } kv::Op w = o; w.arg = 0; return kv::step(z, w, opt); };
                        bool gave = false;
                        if (!lin::linearizable(v, st, step, &gave)) eng::fail("linearizability", "%s: the results of the %u calls for element %" PRIu64 " and its %s at the end do not fit together", kname[kind], no, e, g.rb ? "presence" : "absence");
                        if (gave) eng::label("search-gave-up");
                    }
                }
                if (!lin)
                {
                    for (auto e : g_universe)
                    {
                        bool p = m.count(e), q = x->after.count(e);
                        if (p != q) eng::fail("contents", "%s after the %s workload: element %" PRIu64 " is %s", kname[kind], tname[t], e, p ? "missing" : "there, but should not be");
                        uint64_t v = t == drv::ALT || counters ? (p ? m[e] : 0) : e;
                        if (p && x->after[e] != v && !(kind >= 3 && t != drv::ALT)) eng::fail("counts", "%s after the %s workload: element %" PRIu64 " has %" PRIu64 ", expected %" PRIu64, kname[kind], tname[t], e, x->after[e], v);
                    }
                }
                if (kind != 4 && x->printed != x->after.size()) eng::fail("size", "%s: container size = %" PRIu64 " is printed, there are %zu elements", kname[kind], x->printed, x->after.size());
                if (a.o.threads >= 2 && x->after.size() >= 2) sh->nontrivial = 1;
                prevshm->n = 0;
                for (auto &e : x->after) { prevshm->e[prevshm->n].k = e.first; prevshm->e[prevshm->n++].v = e.second; }
            }
            if (pm::enabled && pm::durable) pm::sync_all();
            _exit(0);
        });
        if (sh->nontrivial) eng::mark_nontrivial();
        if (ss) eng::label("second session");
        eng::desc(" | ");
    }
}
void batch2() { batch(); prevshm = (PrevShm *)eng::shared_alloc(sizeof(PrevShm)); }
#define EXPL "exploration"
const char *A_SC = "schedules interleave whole memory accesses in a sequentially consistent order";
eng::RegProp props[] = {
    {{"C29", "the real driver (main of runTest.cpp) with each of the five workloads, generated arguments (options in any order, repeated, with defaults), thread and operation counts, data files and schedules, over a recording container: settings, number of runs and threads, every thread's exact operation sequence, phases, printed and written results against an independent description of the workload; wrong argument lists must be refused before anything runs; option values of any size must reach the container unchanged; shares of generated totals; non-trivial: at least two threads and four operations (or two arguments, or more operations than threads, or a value beyond 32 bits)", EXPL, {A_SC, "the values of numeric options are numbers", "numbers come from a generator in place of rand()"}}},
    {{"C30", "the real driver with each workload and each container adapter, generated data files, thread counts and schedules, for persistent containers also a second process that recovers and continues; final contents against the input of the workload (degree, reddit: exact counts; alternating: exact elements; YCSB, random: linearizability per element), printed size; non-trivial: at least two threads and two elements at the end", EXPL, {A_SC, "PMDK and level hash map record the presence of an element where the others count (as documented in the workloads)", "the alternating workload's own recovery check is not run (it expects the tenth of the work that only thread 0 pre-inserts)"}}},
};
eng::RegMode modes[] = {
    {{"C29", "work", work_case, 9000, 500000, 100}},
    {{"C29", "share", share_case, 20000, 500000, 500}},
    {{"C29", "options", option_case, 3000, 50000, 100}},
    {{"C29", "reject", reject_case, 6000, 100000, 100}},
    {{"C30", "content", content_case, 9000, 500000, 100}},
};
}
extern "C" int rand(void)
{
    if (!g_rand) return 4;
    ++g_rand_calls[vrt::self()];
    return eng::splitmix(g_rand_state) % (8 * std::max(1u, g_nkeys));
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch2;
    return eng::driver_main(argc, argv);
}
