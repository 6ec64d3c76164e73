#include "engine.hpp"
#include <cxxabi.h>
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <regex>
#include <sys/personality.h>
#include <sys/prctl.h>

namespace eng
{
CaseShm *shm;
void (*batch_init)() = nullptr;
static std::vector<Mode> &modes() { static std::vector<Mode> m; return m; }
static std::vector<PropInfo> &props() { static std::vector<PropInfo> m; return m; }
void add_mode(Mode m) { modes().push_back(m); }
void add_prop(PropInfo p) { props().push_back(p); }

uint64_t splitmix(uint64_t &s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t hash_str(const char *s)
{
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}

uint64_t Src::below(uint64_t n)
{
    if (n <= 1) return 0;
    CaseShm &c = *shm;
    if (c.nch >= MAXCH) { c.overflow = 1; return 0; }
    uint64_t v;
    if (c.replaying)
        v = c.nch < c.nreplay ? c.ch[c.nch] : 0;
    else
        v = splitmix(c.rng);
    if (c.replaying) { if (v >= n) v = n - 1; }
    else v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    c.ch[c.nch++] = v;
    return v;
}
uint64_t Src::bits64()
{
    uint64_t hi = below(1ull << 32);
    return (hi << 32) | below(1ull << 32);
}
bool Src::chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
uint64_t Src::small(uint64_t max)
{
    // half of the time one digit, otherwise anywhere
    if (max <= 8) return below(max + 1);
    switch (below(4))
    {
    case 0: return below(5);
    case 1: return below(std::min<uint64_t>(max, 16) + 1);
    case 2: return below(std::min<uint64_t>(max, 64) + 1);
    default: return below(max + 1);
    }
}
size_t Src::weighted(std::initializer_list<unsigned> w)
{
    uint64_t t = 0;
    for (unsigned x : w) t += x;
    uint64_t v = below(t);
    size_t i = 0;
    for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
}
int Src::open_span()
{
    CaseShm &c = *shm;
    if (c.nspan >= MAXSPAN) return -1;
    int id = c.nspan++;
    c.span[id].a = c.nch; c.span[id].b = c.nch;
    return id;
}
void Src::close_span(int id) { if (id >= 0) shm->span[id].b = shm->nch; }

static bool g_verbose;
bool verbose() { return g_verbose; }
static void set_fail(const char *sig, const char *fmt, va_list ap)
{
    CaseShm &c = *shm;
    if (c.failed) return;
    snprintf(c.sig, sizeof c.sig, "%s", sig);
    vsnprintf(c.msg, sizeof c.msg, fmt, ap);
    c.failed = 1;
}
void note_fail(const char *sig, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); set_fail(sig, fmt, ap); va_end(ap);
}
void fail(const char *sig, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); set_fail(sig, fmt, ap); va_end(ap);
    throw Failed{};
}
void fail_exit(const char *sig, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); set_fail(sig, fmt, ap); va_end(ap);
    _exit(77);
}
void desc(const char *fmt, ...)
{
    CaseShm &c = *shm;
    if (c.desclen + 2 >= sizeof c.desc) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(c.desc + c.desclen, sizeof c.desc - c.desclen, fmt, ap);
    va_end(ap);
    if (n > 0) c.desclen = std::min<uint32_t>(sizeof c.desc - 1, c.desclen + n);
}
void mark_nontrivial() { shm->nontrivial = 1; }

// ---- shared memory -------------------------------------------------------------------------
void *shared_alloc(size_t n)
{
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return p;
}
constexpr int MAXLABEL = 64;
struct Global
{
    std::atomic<uint32_t> nlabel;
    char label[MAXLABEL][48];
    std::atomic<uint64_t> labelcount[MAXLABEL];
    std::atomic<uint64_t> evals, nontriv, inconclusive, overflow;
    std::atomic<uint32_t> stop;
    std::atomic<uint64_t> nhash;
    std::atomic<uint32_t> lock;
    // best (lowest index) failure over workers
    struct { int32_t mode; uint64_t idx; uint32_t have; } failinfo;
};
static Global *G;
static uint64_t *hashes;
static constexpr uint64_t MAXHASH = 1 << 22;

int label_id(const char *name)
{
    uint32_t n = G->nlabel.load();
    for (uint32_t i = 0; i < n; ++i)
        if (!strcmp(G->label[i], name)) return i;
    while (G->lock.exchange(1)) {}
    n = G->nlabel.load();
    int r = -1;
    for (uint32_t i = 0; i < n; ++i)
        if (!strcmp(G->label[i], name)) r = i;
    if (r < 0 && n < MAXLABEL)
    {
        snprintf(G->label[n], sizeof G->label[n], "%s", name);
        G->nlabel.store(n + 1);
        r = n;
    }
    G->lock.store(0);
    return r;
}
void label(const char *name)
{
    int i = label_id(name);
    if (i >= 0) shm->labels |= 1ull << i;
}

// ---- scratch -------------------------------------------------------------------------------
static std::string g_scratch;
const std::string &scratch() { return g_scratch; }
void remove_tree(const std::string &path)
{
    if (g_scratch.size() < 8 || path.compare(0, g_scratch.size(), g_scratch) != 0) return;
    DIR *d = opendir(path.c_str());
    if (d)
    {
        std::vector<std::string> names;
        while (dirent *e = readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
        closedir(d);
        for (auto &n : names)
        {
            std::string p = path + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove_tree(p);
            else unlink(p.c_str());
        }
        rmdir(path.c_str());
    }
    else unlink(path.c_str());
}
std::string fresh_dir()
{
    static uint64_t n;
    while (true) // process numbers come round again
    {
        std::string p = g_scratch + "/c" + std::to_string(getpid()) + "_" + std::to_string(n++);
        if (!mkdir(p.c_str(), 0700)) return p;
        if (errno != EEXIST) { perror("mkdir"); _exit(3); }
    }
}
// removes what a child that has ended left behind
static void clean_after(pid_t c)
{
    std::string pre = "c" + std::to_string(c) + "_";
    std::vector<std::string> v;
    if (DIR *d = opendir(g_scratch.c_str()))
    {
        while (dirent *e = readdir(d)) if (!strncmp(e->d_name, pre.c_str(), pre.size())) v.push_back(g_scratch + "/" + e->d_name);
        closedir(d);
    }
    for (auto &x : v) remove_tree(x);
}

// ---- running one case ----------------------------------------------------------------------
static unsigned g_cpu_limit = 20;
static void cpu_alarm(unsigned sec)
{
    itimerval it{};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(3 * sec);
}
void in_child(const char *what, const std::function<void()> &f)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        cpu_alarm(g_cpu_limit);
        try { f(); }
        catch (Failed &) { _exit(77); }
        catch (std::exception &e) { note_fail("exception", "%s: unexpected exception: %s", what, e.what()); _exit(77); }
        catch (...) { note_fail("exception", "%s: unexpected exception of type %s", what, abi::__cxa_current_exception_type() ? abi::__cxa_current_exception_type()->name() : "?"); _exit(77); }
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !shm->failed) return;
    if (shm->failed) throw Failed{};
    if (WIFSIGNALED(st))
    {
        int sg = WTERMSIG(st);
        if (sg == SIGKILL) { shm->inconclusive = 1; throw Failed{}; }
        if (sg == SIGPROF || sg == SIGXCPU)
            fail("nontermination", "%s: did not finish within its CPU limit", what);
        if (sg == SIGALRM) fail("hang", "%s: did not finish within %u s", what, 3 * g_cpu_limit);
        fail("crash", "%s: killed by signal %d (%s)", what, sg, strsignal(sg));
    }
    fail("crash", "%s: exited with status %d", what, WEXITSTATUS(st));
}

static void reset_case(uint64_t seed, const std::vector<uint64_t> *replay)
{
    CaseShm &c = *shm;
    c.nch = 0; c.nspan = 0; c.failed = 0; c.inconclusive = 0; c.sig[0] = c.msg[0] = 0;
    c.nontrivial = 0; c.labels = 0; c.desc[0] = 0; c.desclen = 0; c.overflow = 0;
    c.rng = seed;
    c.replaying = replay != nullptr;
    c.nreplay = 0;
    if (replay)
    {
        c.nreplay = std::min<size_t>(replay->size(), MAXCH);
        memcpy(c.ch, replay->data(), c.nreplay * sizeof(uint64_t));
    }
}
// Runs in a (batch) child.
static void run_case(const Mode &m)
{
    g_cpu_limit = m.cpu_limit;
    cpu_alarm(m.cpu_limit);
    Src s;
    try { m.run(s); }
    catch (Failed &) {}
    catch (std::exception &e) { note_fail("exception", "unexpected exception: %s", e.what()); }
    cpu_alarm(0);
}
static uint64_t case_seed(uint64_t seed, const Mode &m, uint64_t idx)
{
    uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ hash_str(m.prop) ^ (hash_str(m.name) << 1);
    splitmix(s);
    s ^= idx * 0xd1342543de82ef95ull;
    splitmix(s);
    return s;
}
static int g_errfd = dup(2); // standard error of the driver itself
static void silence()
{
    if (g_verbose) return;
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1); dup2(fd, 2);
    close(fd);
}
struct Outcome { bool failed = false; bool inconclusive = false; std::string sig, msg; };
static Outcome from_status(int st)
{
    Outcome o;
    if (shm->failed) { o.failed = true; o.sig = shm->sig; o.msg = shm->msg; return o; }
    if (WIFSIGNALED(st))
    {
        int sg = WTERMSIG(st);
        if (sg == SIGKILL) { o.inconclusive = true; return o; }
        o.failed = true;
        if (sg == SIGALRM) { o.sig = "hang"; o.msg = "the case did not finish within the wall-clock limit"; }
        else if (sg == SIGPROF || sg == SIGXCPU) { o.sig = "nontermination"; o.msg = "the case did not finish within its CPU limit"; }
        else { o.sig = "crash"; o.msg = std::string("killed by signal ") + std::to_string(sg) + " (" + strsignal(sg) + ")"; }
        return o;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { o.failed = true; o.sig = "crash"; o.msg = "exited with status " + std::to_string(WEXITSTATUS(st)); return o; }
    if (shm->inconclusive) o.inconclusive = true;
    return o;
}
// Run one case given by a choice list in a fresh child.
static Outcome run_choices(const Mode &m, const std::vector<uint64_t> &ch)
{
    reset_case(0, &ch);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        silence();
        if (batch_init) batch_init();
        run_case(m);
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    clean_after(p);
    return from_status(st);
}

static double now()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---- shrinking -----------------------------------------------------------------------------
struct Shrinker
{
    const Mode &m;
    std::vector<uint64_t> best;
    std::vector<std::pair<uint32_t, uint32_t>> spans;
    Outcome out;
    unsigned runs = 0, maxruns;
    double deadline;
    bool attempt(const std::vector<uint64_t> &c)
    {
        if (runs >= maxruns || now() > deadline) return false;
        ++runs;
        Outcome o = run_choices(m, c);
        if (!o.failed || o.sig != out.sig) return false;
        std::vector<uint64_t> used(shm->ch, shm->ch + shm->nch);
        // strip trailing zeros
        while (!used.empty() && used.back() == 0) used.pop_back();
        if (used.size() > best.size() || (used.size() == best.size() && !(used < best))) return false;
        best = used; out = o; grab();
        return true;
    }
    void grab()
    {
        spans.clear();
        for (uint32_t i = 0; i < shm->nspan; ++i)
            if (shm->span[i].b > shm->span[i].a) spans.push_back({shm->span[i].a, shm->span[i].b});
    }
    void go()
    {
        bool progress = true;
        while (progress && runs < maxruns && now() < deadline)
        {
            progress = false;
            // delete spans, largest first
            auto sp = spans;
            std::sort(sp.begin(), sp.end(), [](auto &x, auto &y) { return x.second - x.first > y.second - y.first; });
            for (size_t i = 0; i < sp.size(); ++i)
            {
                if (sp[i].first >= best.size()) continue;
                auto c = best;
                c.erase(c.begin() + sp[i].first, c.begin() + std::min<size_t>(sp[i].second, c.size()));
                if (attempt(c)) { progress = true; sp = spans; std::sort(sp.begin(), sp.end(), [](auto &x, auto &y) { return x.second - x.first > y.second - y.first; }); i = (size_t)-1; }
                if (runs >= maxruns || now() > deadline) return;
            }
            // delete chunks
            for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2)
            {
                for (size_t i = 0; i + len <= best.size();)
                {
                    auto c = best;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c)) progress = true; else i += len;
                    if (runs >= maxruns || now() > deadline) return;
                }
            }
            // lower values
            for (size_t i = 0; i < best.size(); ++i)
            {
                if (best[i] == 0) continue;
                auto c = best; c[i] = 0;
                if (attempt(c)) { progress = true; continue; }
                uint64_t lo = 0, hi = best[i];
                while (hi - lo > 1 && i < best.size())
                {
                    uint64_t mid = lo + (hi - lo) / 2;
                    c = best; c[i] = mid;
                    if (attempt(c)) { progress = true; hi = mid; if (i < best.size() && best[i] < hi) hi = best[i]; }
                    else lo = mid;
                    if (runs >= maxruns || now() > deadline) return;
                }
            }
        }
    }
};

// ---- json helpers --------------------------------------------------------------------------
static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

struct Known { std::string prop, mode, sig, pattern, what; };
// known_findings.txt: lines "finding: property=<id> mode=<m> sig=<s> match=<regex> :: text"
static std::vector<Known> load_known(const std::string &path, const std::string &prop)
{
    std::vector<Known> r;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l))
    {
        if (l.rfind("finding: ", 0) != 0) continue;
        Known k;
        auto field = [&](const char *n) {
            size_t p = l.find(std::string(n) + "=");
            if (p == std::string::npos) return std::string();
            p += strlen(n) + 1;
            size_t e = l.find(!strcmp(n, "match") ? " :: " : " ", p);
            return l.substr(p, e - p);
        };
        k.prop = field("property"); k.mode = field("mode"); k.sig = field("sig"); k.pattern = field("match");
        size_t t = l.find(" :: ");
        k.what = t == std::string::npos ? "" : l.substr(t + 4);
        if (k.prop == prop) r.push_back(k);
    }
    return r;
}
static bool known_match(const std::vector<Known> &ks, const std::string &mode, const Outcome &o)
{
    for (auto &k : ks)
        if ((k.mode.empty() || k.mode == mode) && (k.sig.empty() || k.sig == o.sig) &&
            (k.pattern.empty() || std::regex_search(o.msg, std::regex(k.pattern))))
            return true;
    return false;
}

static bool g_cleanup_owner;
static pid_t g_owner_pid;
static void cleanup()
{
    if (g_cleanup_owner && getpid() == g_owner_pid) remove_tree(g_scratch);
}
static void on_term(int) { cleanup(); _exit(130); }

static int do_replay(const std::string &file)
{
    std::ifstream f(file);
    if (!f) { std::cerr << "cannot read " << file << "\n"; return 3; }
    std::string l, prop, mode;
    std::vector<uint64_t> ch;
    while (std::getline(f, l))
    {
        if (l.rfind("property ", 0) == 0) prop = l.substr(9);
        else if (l.rfind("mode ", 0) == 0) mode = l.substr(5);
        else if (l.rfind("choices", 0) == 0)
        {
            std::istringstream is(l.substr(7));
            uint64_t v;
            while (is >> v) ch.push_back(v);
        }
    }
    for (auto &m : modes())
        if (prop == m.prop && mode == m.name)
        {
            Outcome o = run_choices(m, ch);
            std::cout << shm->desc << "\n";
            if (o.failed)
            {
                std::cout << "[" << o.sig << "] " << o.msg << "\n";
                std::cout << "VIOLATION property=" << prop << " replay=" << file << std::endl;
                return 1;
            }
            std::cout << "the replayed case passes\n";
            return 0;
        }
    std::cerr << "unknown property/mode in " << file << "\n";
    return 3;
}

std::vector<std::pair<const char *, const char *>> extra_env;
int driver_main(int argc, char **argv)
{
    std::string prop, tier = "quick", evidence, replaydir = "replays", replay, knownfile, only_mode;
    uint64_t seed = 1;
    unsigned jobs = 0;
    double scale = 1, budget = 0; bool noshrink = false;
    int64_t one = -1;
    if (const char *e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
    if (const char *e = getenv("VERIF_TIER")) tier = e;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { if (i + 1 >= argc) { std::cerr << "missing value for " << a << "\n"; exit(3); } return std::string(argv[++i]); };
        if (a == "--property") prop = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--evidence") evidence = val();
        else if (a == "--replaydir") replaydir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--known") knownfile = val();
        else if (a == "--mode") only_mode = val();
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--noshrink") noshrink = true;
        else if (a == "--case") one = atoll(val().c_str());
        else if (a == "-v") g_verbose = true;
        else { std::cerr << "unknown argument " << a << "\n"; return 3; }
    }
    // addresses are part of what a replay has to reproduce
    if (!getenv("PMAPVERIF_NOASLR") && personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE))
    {
        for (auto &e : extra_env) setenv(e.first, e.second, 0);
        setenv("PMAPVERIF_NOASLR", "1", 1);
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (!jobs) { jobs = sysconf(_SC_NPROCESSORS_ONLN); if (jobs > 16) jobs = 16; if (jobs < 2) jobs = 2; }
    // scratch
    {
        const char *base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        std::string t = std::string(base) + "/pmapverif.XXXXXX";
        std::vector<char> b(t.begin(), t.end()); b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); return 3; }
        g_scratch = b.data();
        g_cleanup_owner = true; g_owner_pid = getpid();
        atexit(cleanup);
        signal(SIGTERM, on_term); signal(SIGINT, on_term);
    }
    G = (Global *)shared_alloc(sizeof(Global));
    hashes = (uint64_t *)shared_alloc(MAXHASH * sizeof(uint64_t));
    shm = (CaseShm *)shared_alloc(sizeof(CaseShm));
    CaseShm *parent_shm = shm;
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);

    if (!replay.empty()) return do_replay(replay);

    double t0 = now();
    std::vector<const Mode *> ms;
    for (auto &m : modes())
        if (prop == m.prop && (only_mode.empty() || only_mode == m.name)) ms.push_back(&m);
    if (budget <= 0) budget = tier == "thorough" ? 3600 : 300;
    if (ms.empty()) { std::cerr << "no modes for property " << prop << "\n"; return 3; }
    const PropInfo *pi = nullptr;
    for (auto &p : props()) if (prop == p.prop) pi = &p;
    auto known = load_known(knownfile, prop);

    if (one >= 0)
    {
        reset_case(case_seed(seed, *ms[0], one), nullptr);
        pid_t p = fork();
        if (p == 0) { silence(); if (batch_init) batch_init(); run_case(*ms[0]); _exit(0); }
        int st; waitpid(p, &st, 0);
        Outcome o = from_status(st);
        std::cout << shm->desc << "\n" << (o.failed ? "FAILED [" + o.sig + "] " + o.msg : std::string("ok")) << "\n";
        return o.failed;
    }

    std::vector<std::string> samples;
    std::string mode_json;
    bool violated = false;
    std::string vsig, vmsg, vmode, vdesc; std::vector<uint64_t> vch;
    uint64_t known_hits = 0;
    for (auto *&mp : ms)
    {
        const Mode &m = *mp;
        uint64_t n = (uint64_t)((tier == "thorough" ? m.thorough : m.quick) * scale);
        if (n == 0) continue;
        if (violated) break;
        uint64_t ev0 = G->evals, nt0 = G->nontriv;
        double tm = now();
        double left = t0 + budget - tm;
        double mode_deadline = tm + std::max(left, 10.0) / (ms.size() - (&mp - ms.data()));
        G->stop = 0;
        G->failinfo.have = 0;
        // Workers: worker w takes blocks of `batch` consecutive case indices.
        auto *next = (std::atomic<uint64_t> *)shared_alloc(sizeof(std::atomic<uint64_t>));
        unsigned W = std::min<uint64_t>(jobs, (n + m.batch - 1) / m.batch);
        struct Fail { CaseShm c; };
        std::vector<CaseShm *> wshm(W);
        for (unsigned w = 0; w < W; ++w) wshm[w] = (CaseShm *)shared_alloc(sizeof(CaseShm));
        struct WF { uint32_t have; uint64_t idx; uint64_t khits; uint64_t flaky; };
        WF *wf = (WF *)shared_alloc(sizeof(WF) * W);
        fflush(nullptr);
        std::vector<pid_t> pids;
        for (unsigned w = 0; w < W; ++w)
        {
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 3; }
            if (p == 0)
            {
                silence();
                shm = wshm[w];
                auto *cur = (std::atomic<uint64_t> *)shared_alloc(2 * sizeof(std::atomic<uint64_t>));
                while (true)
                {
                    uint64_t b = next->fetch_add(m.batch);
                    if (b >= n || now() > mode_deadline) break;
                    uint64_t e = std::min<uint64_t>(n, b + m.batch);
                    uint64_t i = b;
                    while (i < e)
                    {
                        if (G->stop && wf) { // somebody failed: only lower indices still matter
                            if (b > G->failinfo.idx) { i = e; break; }
                        }
                        cur->store(i);
                        pid_t c = fork();
                        if (c < 0) { usleep(100000); continue; }
                        if (c == 0)
                        {
                            if (batch_init) batch_init();
                            for (uint64_t k = i; k < e; ++k)
                            {
                                cur[0].store(k);
                                reset_case(case_seed(seed, m, k), nullptr);
                                run_case(m);
                                G->evals.fetch_add(1);
                                if (shm->overflow) G->overflow.fetch_add(1);
                                if (shm->inconclusive && !shm->failed) { G->inconclusive.fetch_add(1); continue; }
                                for (int l = 0; l < MAXLABEL; ++l)
                                    if (shm->labels >> l & 1) G->labelcount[l].fetch_add(1);
                                if (shm->nontrivial)
                                {
                                    G->nontriv.fetch_add(1);
                                    uint64_t h = hash_str(m.name);
                                    for (uint32_t q = 0; q < shm->nch; ++q) h = (h ^ shm->ch[q]) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
                                    uint64_t pos = G->nhash.fetch_add(1);
                                    if (pos < MAXHASH) hashes[pos] = h;
                                }
                                if (shm->failed) _exit(78);
                            }
                            _exit(0);
                        }
                        int st;
                        while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
                        clean_after(c);
                        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { i = e; break; }
                        // failure or crash at cur
                        uint64_t at = cur->load();
                        Outcome o = from_status(st);
                        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 78)) G->evals.fetch_add(1);
                        if (o.inconclusive) { G->inconclusive.fetch_add(1); i = at + 1; continue; }
                        if (o.failed && known_match(known, m.name, o)) { wf[w].khits++; i = at + 1; continue; }
                        // confirm: at least three failures in up to ten replays
                        std::vector<uint64_t> ch(shm->ch, shm->ch + shm->nch);
                        int fails = 0;
                        for (int k = 0; k < 10 && fails < 3 && (10 - k) >= 3 - fails; ++k)
                        {
                            Outcome r = run_choices(m, ch);
                            if (r.failed) { ++fails; o = r; }
                        }
                        if (fails < 3)
                        {
                            G->inconclusive.fetch_add(1);
                            wf[w].flaky++;
                            if (wf[w].flaky <= 2) dprintf(g_errfd, "  not reproduced: [%s] %s\n", o.sig.c_str(), o.msg.substr(0, 400).c_str());
                            i = at + 1;
                            continue;
                        }
                        shm->nch = ch.size();
                        std::copy(ch.begin(), ch.end(), shm->ch);
                        snprintf(shm->sig, sizeof shm->sig, "%s", o.sig.c_str()); snprintf(shm->msg, sizeof shm->msg, "%s", o.msg.c_str());
                        wf[w].have = 1; wf[w].idx = at;
                        while (G->lock.exchange(1)) {}
                        if (!G->failinfo.have || at < G->failinfo.idx) { G->failinfo.have = 1; G->failinfo.idx = at; }
                        G->stop = 1;
                        G->lock.store(0);
                        _exit(0);
                    }
                }
                _exit(0);
            }
            pids.push_back(p);
        }
        for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
        int bw = -1;
        for (unsigned w = 0; w < W; ++w)
        {
            known_hits += wf[w].khits;
            if (wf[w].flaky) std::cerr << "  " << wf[w].flaky << " failures of " << m.name << " did not replay\n";
            if (wf[w].have && (bw < 0 || wf[w].idx < wf[bw].idx)) bw = w;
        }
        char mb[256];
        snprintf(mb, sizeof mb, "{\"mode\": \"%s\", \"cases\": %" PRIu64 ", \"nontrivial\": %" PRIu64 ", \"wall_s\": %.1f}", m.name, G->evals - ev0, G->nontriv - nt0, now() - tm);
        mode_json += (mode_json.empty() ? "" : ", ") + std::string(mb);
        std::cerr << "  " << prop << "/" << m.name << ": " << (G->evals - ev0) << " cases, " << (G->nontriv - nt0) << " non-trivial, " << (now() - tm) << " s\n";
        if (bw >= 0)
        {
            CaseShm *c = wshm[bw];
            std::vector<uint64_t> ch(c->ch, c->ch + c->nch);
            shm = parent_shm;
            Outcome o;
            o.failed = true; o.sig = c->sig; o.msg = c->msg;
            Shrinker sh{m, ch, {}, o, 0, 3000, noshrink ? 0 : now() + (tier == "thorough" ? 120 : 25)};
            while (!sh.best.empty() && sh.best.back() == 0) sh.best.pop_back();
            run_choices(m, sh.best);
            sh.grab();
            sh.go();
            Outcome fin;
            for (int k = 0; k < 10 && !fin.failed; ++k) fin = run_choices(m, sh.best);
            if (!fin.failed) { sh.best = ch; for (int k = 0; k < 10 && !fin.failed; ++k) fin = run_choices(m, ch); }
            if (!fin.failed) fin = o;
            violated = true; vsig = fin.sig; vmsg = fin.msg; vmode = m.name; vch = sh.best; vdesc = shm->desc;
            std::cerr << "  shrunk from " << ch.size() << " to " << sh.best.size() << " choices in " << sh.runs << " runs\n";
        }
        // samples: re-run the first cases for their description
        shm = parent_shm;
        if (!violated)
            for (uint64_t i = 0, got = 0; i < std::min<uint64_t>(n, 6) && got < 2; ++i)
            {
                reset_case(case_seed(seed, m, i), nullptr);
                pid_t p = fork();
                if (p == 0) { silence(); if (batch_init) batch_init(); run_case(m); _exit(0); }
                int st; waitpid(p, &st, 0);
                clean_after(p);
                if (shm->nontrivial) { samples.push_back(std::string(m.name) + " #" + std::to_string(i) + ": " + std::string(shm->desc).substr(0, 600)); ++got; }
            }
        munmap(next, sizeof *next);
        for (auto *p : wshm) munmap(p, sizeof(CaseShm));
        munmap(wf, sizeof(WF) * W);
    }
    uint64_t nh = std::min<uint64_t>(G->nhash.load(), MAXHASH);
    std::sort(hashes, hashes + nh);
    uint64_t distinct = std::unique(hashes, hashes + nh) - hashes;
    double wall = now() - t0;

    std::string replay_path;
    if (violated)
    {
        mkdir(replaydir.c_str(), 0755);
        replay_path = replaydir + "/" + prop + "-" + vmode + "-" + std::to_string(seed) + ".replay";
        std::ofstream f(replay_path);
        f << "property " << prop << "\nmode " << vmode << "\nchoices";
        for (auto v : vch) f << " " << v;
        f << "\n# [" << vsig << "] ";
        for (char ch : vmsg) { f << ch; if (ch == '\n') f << "# "; }
        f << "\n# case: ";
        for (char ch : vdesc) { f << ch; if (ch == '\n') f << "# "; }
        f << "\n";
        f.close();
    }
    if (!evidence.empty())
    {
        std::string tmp = evidence + ".tmp";
        std::ofstream f(tmp);
        f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": " << jstr(pi ? pi->level : "exploration") << ",\n \"coverage\": {\n  \"evaluations\": " << G->evals
          << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"rule\": " << jstr(pi ? pi->rule : "")
          << ",\n  \"modes\": [" << mode_json << "],\n  \"inconclusive\": " << G->inconclusive << ",\n  \"known_finding_hits\": " << known_hits
          << ",\n  \"labels\": {";
        bool first = true;
        for (uint32_t i = 0; i < G->nlabel; ++i)
        {
            f << (first ? "" : ", ") << jstr(G->label[i]) << ": " << G->labelcount[i];
            first = false;
        }
        f << "},\n  \"samples\": [";
        if (samples.empty()) samples.push_back(violated ? "violating case: " + vdesc.substr(0, 1500) : "none");
        for (size_t i = 0; i < samples.size(); ++i) f << (i ? ",\n   " : "\n   ") << jstr(samples[i]);
        f << "]\n },\n \"assumptions\": [";
        if (pi) for (size_t i = 0; i < pi->assumptions.size(); ++i) f << (i ? ", " : "") << jstr(pi->assumptions[i]);
        f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (violated ? 1 : 0) << "\n}\n";
        f.close();
        rename(tmp.c_str(), evidence.c_str());
    }
    for (auto &k : known)
        std::cout << "KNOWN-FINDING: property=" << prop << " " << k.what << std::endl;
    std::cout << prop << ": " << G->evals << " cases, " << distinct << " distinct non-trivial, " << G->inconclusive << " inconclusive, " << wall << " s" << std::endl;
    if (violated)
    {
        std::cout << "[" << vsig << "] " << vmsg << "\n" << vdesc << "\n";
        std::cout << "VIOLATION property=" << prop << " replay=" << replay_path << std::endl;
        return 1;
    }
    return 0;
}
}
