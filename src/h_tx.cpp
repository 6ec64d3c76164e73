// Properties C22 (transactions are all-or-nothing) and C27 (construction, destruction and addressing of persistent objects).
// A transaction program is a tree (nested transactions of every style, exceptions caught or not, explicit
// aborts and commits, locks, callbacks, allocations, frees, writes); the model executes the same tree.
#include <cstring>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <libpmemobj++/allocator.hpp>
#include <libpmemobj++/defrag.hpp>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_array.hpp>
#include <libpmemobj++/make_persistent_array_atomic.hpp>
#include <libpmemobj++/make_persistent_atomic.hpp>
#include <libpmemobj++/mutex.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/pext.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/shared_mutex.hpp>
#include <libpmemobj++/timed_mutex.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/utils.hpp>
#include "pmx.hpp"
using namespace pmx;
namespace
{
std::string g_cblog;
std::string g_log; // what happened: constructor and destructor calls, results, callbacks
__attribute__((format(printf, 1, 2))) void lg(const char *f, ...)
{
    char b[300];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    g_log += b;
}
struct CtorThrow {};
constexpr int BAD_X = 13;
bool g_quiet;       // no log
int g_cell_throw;   // the n-th construction of a cell throws
struct Node
{
    nv::p<int> x;
    nv::persistent_ptr<Node> child;
    nv::p<int> y;
    int pad[9];
    Node(int a, int b) : x(a), child(nullptr), y(b) { if (a == BAD_X) throw CtorThrow(); lg("+N%d,%d ", a, b); for (int &q : pad) q = a + b; }
    ~Node() { lg("-N%d,%d ", (int)x, (int)y); if (child) nv::delete_persistent<Node>(child); }
    std::string str() const { for (int q : pad) if (q != pad[0]) return "bad"; char b[60]; snprintf(b, sizeof b, "%d,%d,%d", (int)x, (int)y, pad[0]); return b; }
};
struct Cell
{
    long v;
    int w[3];
    static inline int run;
    static inline const Cell *prev;
    Cell() : v(7), w{1, 2, 3} { if (g_cell_throw && --g_cell_throw == 0) throw CtorThrow(); order('c', this); }
    ~Cell() { order('d', this); }
    static void order(char c, const Cell *p) { if (run && run != c) prev = prev == p ? nullptr : prev; run = c; lg("%c%s", c, prev ? p == prev + 1 ? ">" : p == prev - 1 ? "<" : "?" : ""); prev = p; }
    static void start() { prev = nullptr; run = 0; }
};
// expected log of n constructions, resp. destructions
std::string cells(unsigned n, bool ctor) { std::string o; for (unsigned i = 0; i < n; ++i) o += std::string(ctor ? "c" : "d") + (i ? ctor ? ">" : "<" : ""); return o; }
constexpr size_t OVERFLOWS = ~(size_t)0 / sizeof(Cell) + 1; // as many cells as do not fit in 64 bits
struct Fat // wiped by its destructor
{
    int v[24];
    Fat(int a = 0) { for (int &q : v) q = a; lg("+F%d ", a); }
    Fat(const Fat &o) { memcpy(v, o.v, sizeof v); lg("+F%d ", v[0]); }
    ~Fat() { lg("-F%d ", v[0]); memset(v, 0xee, sizeof v); }
};
struct Big { int q[6]; };
struct Huge { char c[64 << 20]; };
constexpr int NV = 4, NW = 3, NB = 2, NR = 24, NS = 4, NA = 3, NF = 2;
struct Tab
{
    nv::p<int> v[NV];
    nv::p<long long> w[NW];
    nv::p<Big> big[NB];
    uint32_t raw[NR];
    nv::persistent_ptr<Node> s[NS];
    nv::persistent_ptr<Cell[]> a[NA];
    nv::p<unsigned> n[NA];
    nv::persistent_ptr<Cell[5]> fx[NF];
    nv::persistent_ptr<Fat> f[NF];
    nv::p<unsigned> fn[NF];
    nv::persistent_ptr<int[]> in;
    nv::p<unsigned> inn;
    nv::mutex m;
    nv::shared_mutex sm;
    nv::timed_mutex tm;
    template <class F> void for_each_ptr(F fn)
    {
        for (auto &q : a) if (q) fn(q);
        for (auto &q : fx) if (q) fn(q);
        for (auto &q : f) if (q) fn(q);
        if (in) fn(in);
    }
};
Tab *tab() { return obj<Tab>(0); }
// ---- the model
struct MNode { int x, y, pad, child; };
struct Model
{
    int v[NV] = {}; long long w[NW] = {}; int big[NB][6] = {}; unsigned raw[NR] = {};
    std::vector<std::vector<std::vector<int>>> dummy;
    std::vector<std::vector<int>> s = std::vector<std::vector<int>>(NS); // chain: x,y,pad per node
    std::vector<std::vector<int>> a = std::vector<std::vector<int>>(NA); // per cell its value; empty and not null: {-1}
    std::vector<int> an = std::vector<int>(NA, 0);                      // allocated?
    std::vector<int> fx = std::vector<int>(NF, 0);                      // 0: none, else value of the cells
    std::vector<std::vector<int>> f = std::vector<std::vector<int>>(NF);
    std::vector<int> in;
    bool inalloc = false;
    int objects = 2;
    State state(bool count) const
    {
        State st(8);
        for (int q : v) st[0].push_back(std::to_string(q));
        for (long long q : w) st[0].push_back(std::to_string(q));
        for (auto &b : big) for (int q : b) st[1].push_back(std::to_string(q));
        for (unsigned q : raw) st[2].push_back(std::to_string(q));
        for (auto &c : s) { std::string o; for (size_t i = 0; i + 2 < c.size(); i += 3) { char b[64]; snprintf(b, sizeof b, "%d,%d,%d ", c[i], c[i + 1], c[i + 2]); o += b; } st[3].push_back(o); }
        for (int i = 0; i < NA; ++i) { std::string o = an[i] ? "[" : ""; for (int q : a[i]) o += std::to_string(q) + " "; st[4].push_back(o); }
        for (int q : fx) st[5].push_back(std::to_string(q));
        for (auto &c : f) { std::string o; for (int q : c) o += std::to_string(q) + " "; st[6].push_back(o); }
        { std::string o = inalloc ? "[" : ""; for (int q : in) o += std::to_string(q) + " "; st[6].push_back(o); }
        if (count) st[7].push_back(std::to_string(objects));
        return st;
    }
    static std::vector<int> ints(const std::string &s, const char *sep) { std::vector<int> r; const char *p = s.c_str(); while (*p) { char *e; long x = strtol(p, &e, 10); if (e == p) { ++p; continue; } r.push_back(x); p = e; } return r; }
    static Model of(const State &st)
    {
        Model m;
        for (int i = 0; i < NV; ++i) m.v[i] = atoi(st[0][i].c_str());
        for (int i = 0; i < NW; ++i) m.w[i] = atoll(st[0][NV + i].c_str());
        for (int i = 0; i < NB * 6; ++i) m.big[i / 6][i % 6] = atoi(st[1][i].c_str());
        for (int i = 0; i < NR; ++i) m.raw[i] = strtoul(st[2][i].c_str(), 0, 10);
        for (int i = 0; i < NS; ++i) m.s[i] = ints(st[3][i], ", ");
        for (int i = 0; i < NA; ++i) { m.an[i] = st[4][i].size() > 0; m.a[i] = ints(st[4][i], " "); }
        for (int i = 0; i < NF; ++i) m.fx[i] = atoi(st[5][i].c_str());
        for (int i = 0; i < NF; ++i) m.f[i] = ints(st[6][i], " ");
        m.inalloc = st[6][NF].size() > 0; m.in = ints(st[6][NF], " ");
        if (st[7].size()) m.objects = atoi(st[7][0].c_str());
        return m;
    }
};
State read_real(bool count)
{
    Tab *t = tab();
    State st(8);
    for (auto &q : t->v) st[0].push_back(std::to_string(q.get_ro()));
    for (auto &q : t->w) st[0].push_back(std::to_string(q.get_ro()));
    for (auto &b : t->big) for (int q : b.get_ro().q) st[1].push_back(std::to_string(q));
    for (unsigned q : t->raw) st[2].push_back(std::to_string(q));
    for (auto &c : t->s) { std::string o; int k = 0; for (Node *p = c.get(); p; p = p->child.get()) { o += p->str() + " "; if (++k > 40) { o += "cycle"; break; } } st[3].push_back(o); }
    for (int i = 0; i < NA; ++i)
    {
        std::string o = t->a[i] ? "[" : "";
        if (t->a[i]) for (unsigned j = 0; j < t->n[i]; ++j) { auto &c = t->a[i][j]; o += std::to_string(c.v) + (c.w[0] == 1 && c.w[1] == 2 && c.w[2] == 3 ? " " : "bad "); }
        st[4].push_back(o);
    }
    for (auto &p : t->fx)
    {
        if (!p) { st[5].push_back("0"); continue; }
        bool same = true;
        for (int i = 0; i < 5; ++i) same &= p[i].v == p[0].v && p[i].w[2] == 3;
        st[5].push_back(same ? std::to_string(p[0].v) : "bad");
    }
    for (int i = 0; i < NF; ++i)
    {
        std::string o;
        if (t->f[i]) for (unsigned j = 0; j < t->fn[i]; ++j) { Fat *q = t->f[i].get() + j; bool same = true; for (int z : q->v) same &= z == q->v[0]; o += same ? std::to_string(q->v[0]) + " " : "bad "; }
        st[6].push_back(o);
    }
    { std::string o = t->in ? "[" : ""; if (t->in) for (unsigned j = 0; j < t->inn; ++j) o += std::to_string(t->in[j]) + " "; st[6].push_back(o); }
    if (count) st[7].push_back(std::to_string(live_objects()));
    return st;
}
// ---- programs
enum K { TX, V, W, BIG, RAW, NMAKE, NDEL, NSET, NCHILD, NSWAP, NMOVE, AMAKE, ADEL, ASET, AGROW, FXMAKE, FXDEL, FXSET, FMAKE, FDEL, FRENEW, INMAKE, INDEL, CB, TRYLOCK, OUTER, HUGE_, OVER, NULLDEL, SNAPBAD, SWALLOW,
         // outside of transactions
         X_BAD, X_PERSIST, X_NMAKE, X_NDEL, X_AMAKE, X_ADEL, X_FXMAKE, X_FXDEL, X_HUGE, X_DEFRAG, X_INMAKE, X_OVER, NK };
const char *kname[] = {"tx", "int", "long", "big", "raw", "new node", "delete node", "node", "child", "swap nodes", "move node", "new array", "delete array", "cell", "regrow", "new fixed", "delete fixed", "fixed", "new fat", "delete fat", "renew fat", "new ints", "delete ints", "callback", "trylock", "unused", "huge", "overflow", "delete null", "bad snapshot", "swallow",
                       "outside", "persist", "atomic node", "atomic delete node", "atomic array", "atomic delete array", "atomic fixed", "atomic delete fixed", "atomic huge", "defrag", "atomic ints", "atomic overflow"};
enum Style { RUN, MANUAL, AUTO_ };
enum End { NORMAL, THROWS, ABORTS, COMMITS };
const char *style_name[] = {"run", "manual", "automatic"}, *end_name[] = {"", "throw", "abort", "commit()"};
struct Op
{
    int k, how, a, b, c;
    bool caught;
    int style, end, locks;
    bool unwinding; // run by a destructor while an exception is being propagated
    std::vector<Op> body;
};
bool g_life; // weights for C27
Op gen_leaf(eng::Src &s)
{
    Op o{};
    static const std::vector<int> txk = {V, V, V, V, W, W, W, BIG, BIG, RAW, RAW, RAW, NMAKE, NMAKE, NMAKE, NDEL, NDEL, NSET, NSET, NSET, NCHILD, NCHILD, NSWAP, NMOVE, AMAKE, AMAKE, ADEL, ADEL, ASET, ASET, AGROW, FXMAKE, FXDEL, FXSET, FMAKE, FDEL, FRENEW, INMAKE, INDEL, CB, CB, CB, TRYLOCK, TRYLOCK, HUGE_, NULLDEL, SNAPBAD};
    static const std::vector<int> lifek = {NMAKE, NMAKE, NMAKE, NMAKE, NDEL, NDEL, NDEL, NSET, NCHILD, NMOVE, AMAKE, AMAKE, AMAKE, AMAKE, ADEL, ADEL, ADEL, ASET, AGROW, FXMAKE, FXMAKE, FXDEL, FXDEL, FXSET, FMAKE, FMAKE, FDEL, FRENEW, INMAKE, INMAKE, INDEL, HUGE_, OVER, NULLDEL};
    o.k = s.pick(g_life ? lifek : txk);
    o.how = s.below(24);
    o.a = s.below(12);
    o.b = s.below(40);
    o.c = s.below(20);
    o.caught = s.chance(1, 5);
    return o;
}
Op gen_tx(eng::Src &s, int depth)
{
    Op o{};
    o.k = TX;
    o.style = s.below(3);
    o.end = s.weighted({8, 2, 2, 2});
    o.a = 1 + s.below(120); // abort code
    o.locks = s.chance(1, 4) ? 1 + s.below(3) : 0;
    o.caught = s.chance(1, 2);
    o.unwinding = s.chance(1, 6);
    unsigned n = s.below(depth ? 4 : 7);
    for (unsigned i = 0; i < n; ++i)
    {
        eng::Span sp(s);
        o.body.push_back(depth < 3 && s.chance(1, 5) ? gen_tx(s, depth + 1) : gen_leaf(s));
    }
    return o;
}
std::string show_op(const Op &o)
{
    char b[160];
    if (o.k != TX) { snprintf(b, sizeof b, "%s/%d(%d,%d,%d)%s", kname[o.k], o.how, o.a, o.b, o.c, o.caught && o.k < X_BAD ? "?" : ""); return b; }
    snprintf(b, sizeof b, "%s%s%s%d{", o.unwinding ? "~" : "", style_name[o.style], o.locks ? "+lock" : "", o.locks);
    std::string r = b;
    for (auto &q : o.body) r += show_op(q) + "; ";
    r += end_name[o.end];
    if (o.end == ABORTS) r += " " + std::to_string(o.a);
    r += o.caught ? "}?" : "}";
    return r;
}
// arithmetic shared by model and real
template <class T> void arith_model(T &x, T &y, int how, int b)
{
    T k = b % 9 + 1;
    switch (how)
    {
    case 0: x = b; break;
    case 1: x += b; break;
    case 2: x -= b; break;
    case 3: x = (T)((unsigned long long)x * (unsigned long long)k); if (x > 1000000 || x < -1000000) x %= 1000; break;
    case 4: x /= k; break;
    case 5: x %= k; break;
    case 6: x &= b; break;
    case 7: x |= b; break;
    case 8: x ^= b; break;
    case 9: x = (x & 0xffff) << (b % 4); break;
    case 10: x >>= b % 4; break;
    case 11: ++x; break;
    case 12: --x; break;
    case 13: x++; break;
    case 14: x--; break;
    case 15: x = b + 1000; break;
    case 16: std::swap(x, y); break;
    case 17: x = y; break;
    case 18: x += y % 1000; break;
    case 19: x -= y % 1000; break;
    case 20: x |= y; break;
    case 21: x ^= y; break;
    case 22: x &= y; break;
    default: x = (short)(b * 3); break;
    }
}
template <class T> void arith_real(nv::p<T> &x, nv::p<T> &y, int how, int b)
{
    T k = b % 9 + 1;
    switch (how)
    {
    case 0: x = b; break;
    case 1: x += b; break;
    case 2: x -= b; break;
    case 3: x *= k; if (x > 1000000 || x < -1000000) x %= 1000; break;
    case 4: x /= k; break;
    case 5: x %= k; break;
    case 6: x &= b; break;
    case 7: x |= b; break;
    case 8: x ^= b; break;
    case 9: x &= 0xffff; x <<= b % 4; break;
    case 10: x >>= b % 4; break;
    case 11: { auto &r = ++x; if (&r != &x) lg("ref! "); break; }
    case 12: --x; break;
    case 13: { T old = x; T r = x++; if (r != old) lg("post++ gave %ld ", (long)r); break; }
    case 14: { T old = x; T r = x--; if (r != old) lg("post-- gave %ld ", (long)r); break; }
    case 15: x.get_rw() = b + 1000; break;
    case 16: if (b & 1) swap(x, y); else x.swap(y); break;
    case 17: x = y; break;
    case 18: { nv::p<int> z(int(y % 1000)); x += z; break; }
    case 19: { nv::p<int> z(int(y % 1000)); x -= z; break; }
    case 20: x |= y; break;
    case 21: x ^= y; break;
    case 22: x &= y; break;
    default: { nv::p<short> z((short)(b * 3)); x = z; break; }
    }
}
struct Ctx // of one outermost transaction
{
    std::vector<std::pair<int, int>> cbs; // stage, id
    int locks = 0;
    int depth = 0;
    bool doomed = false, committed = false;
};
// ---- the model's execution. Exceptions are strings; "" is none.
using Exc = std::string;
struct MExec
{
    Model m;
    std::string log;
    Ctx c;
    std::vector<State> snaps; // expected state after every leaf (in the transaction)
    void l(const std::string &x) { log += x; }
    static std::string node(char pm, int x, int y) { char b[40]; snprintf(b, sizeof b, "%cN%d,%d ", pm, x, y); return b; }
    static std::string fat(char pm, int x) { char b[40]; snprintf(b, sizeof b, "%cF%d ", pm, x); return b; }
    Exc leaf(const Op &o)
    {
        if (c.doomed) return o.k == V || o.k == W || o.k == BIG || o.k == RAW || o.k == NSET || o.k == NCHILD || o.k == NSWAP || o.k == NMOVE || o.k == ASET || o.k == FXSET || o.k == FRENEW || o.k == TRYLOCK ? "" : o.k == CB ? "scope_error" : o.k == SNAPBAD ? "transaction_error" : "scope_error";
        switch (o.k)
        {
        case V: arith_model(m.v[o.a % NV], m.v[o.c % NV], o.how, o.b); break;
        case W: arith_model(m.w[o.a % NW], m.w[o.c % NW], o.how, o.b); break;
        case BIG: if (o.how & 1) m.big[o.a % NB][o.b % 6] = o.c; else for (int i = 0; i < 6; ++i) m.big[o.a % NB][i] = o.c + i; break;
        case RAW: { int from = o.b % NR, n = std::min(o.c % 9, NR - from); for (int i = 0; i < n; ++i) m.raw[from + i] = o.a * 10 + i; break; }
        case NMAKE:
        {
            auto &s = m.s[o.a % NS];
            if (s.size()) break;
            if (o.b == BAD_X) return "ctor";
            l(node('+', o.b, o.c));
            s = {o.b, o.c, o.b + o.c};
            m.objects++;
            break;
        }
        case NDEL:
        {
            auto &s = m.s[o.a % NS];
            for (size_t i = 0; i < s.size(); i += 3) { l(node('-', s[i], s[i + 1])); m.objects--; }
            s.clear();
            break;
        }
        case NSET: { auto &s = m.s[o.a % NS]; if (s.size()) { size_t d = (o.c % (s.size() / 3)) * 3; s[d + (o.how & 1)] = o.b + 100; } break; }
        case NCHILD: { auto &s = m.s[o.a % NS], &t = m.s[o.c % NS]; if (s.size() == 3 && t.size() && &s != &t && t.size() < 12) { s.insert(s.end(), t.begin(), t.end()); t.clear(); } break; }
        case NSWAP: std::swap(m.s[o.a % NS], m.s[o.c % NS]); break;
        case NMOVE: { auto &s = m.s[o.a % NS], &t = m.s[o.c % NS]; if (s.empty() && &s != &t) { s = t; t.clear(); } break; }
        case AMAKE:
        {
            int i = o.a % NA, n = o.b % 9, at = o.how % 6 == 0 ? 1 + o.c % 9 : 0;
            if (m.an[i]) break;
            if (n == 0) { c.doomed = true; return "alloc_error"; }
            if (at && at <= n) { l(cells(at - 1, true)); l(undo(at - 1)); return "ctor"; }
            l(cells(n, true) + " ");
            m.an[i] = 1; m.a[i].assign(n, 7);
            m.objects++;
            break;
        }
        case ADEL: { int i = o.a % NA; if (!m.an[i]) break; l(cells(m.a[i].size(), false) + " "); m.an[i] = 0; m.a[i].clear(); m.objects--; break; }
        case ASET: { int i = o.a % NA; if (m.a[i].size()) m.a[i][o.c % m.a[i].size()] = o.b; break; }
        case AGROW:
        {
            int i = o.a % NA;
            if (!m.an[i]) break;
            size_t n = m.a[i].size() + 1 + o.b % 20;
            l(cells(n, true) + " "); l(cells(m.a[i].size(), false) + " ");
            m.a[i].resize(n, 7);
            break;
        }
        case FXMAKE: { int i = o.a % NF; if (m.fx[i]) break; int at = o.how % 6 == 0 ? 1 + o.c % 6 : 0; if (at && at <= 5) { l(cells(at - 1, true)); l(undo(at - 1)); return "ctor"; } l(cells(5, true) + " "); m.fx[i] = 7; m.objects++; break; }
        case FXDEL: { int i = o.a % NF; if (!m.fx[i]) break; l(cells(5, false) + " "); m.fx[i] = 0; m.objects--; break; }
        case FXSET: if (m.fx[o.a % NF]) m.fx[o.a % NF] = o.b + 1; break;
        case FMAKE: { auto &f = m.f[o.a % NF]; if (f.size()) break; int n = 1 + o.b % 4; for (int j = 0; j < n; ++j) { if (o.how & 1) l(fat('+', o.c + j)); else l(fat('+', o.c + j) + fat('+', o.c + j) + fat('-', o.c + j)); f.push_back(o.c + j); } m.objects++; break; }
        case FDEL: { auto &f = m.f[o.a % NF]; if (f.empty()) break; for (int q : f) l(fat('-', q)); f.clear(); m.objects--; break; }
        case FRENEW: { auto &f = m.f[o.a % NF]; if (f.empty()) break; int &q = f[o.b % f.size()]; l(fat('-', q) + fat('+', o.c)); q = o.c; break; }
        case INMAKE: if (!m.inalloc) { int n = 1 + o.b; m.in.assign(n, 0); m.inalloc = true; m.objects++; for (int i = 0; i < n; ++i) m.in[i] = o.how % 2 ? 0 : i + o.c; } break;
        case INDEL: if (m.inalloc) { m.inalloc = false; m.in.clear(); m.objects--; } break;
        case CB: c.cbs.push_back({o.how % 4, (int)c.cbs.size()}); break;
        case TRYLOCK: l(std::string("lock ") + ((c.locks >> o.a % 2 & 1) ? "held " : "free ")); break;
        case HUGE_: c.doomed = true; return "out_of_memory";
        case OVER: c.doomed = true; return "out_of_memory";
        case NULLDEL: break;
        case SNAPBAD: c.doomed = true; return "transaction_error";
        }
        return "";
    }
    static std::string undo(unsigned n) { std::string o; for (unsigned i = 0; i < n; ++i) o += i ? "d<" : "d"; return o; }
    Exc tx(const Op &o)
    {
        bool outer = c.depth == 0;
        ++c.depth;
        c.locks |= o.locks;
        Exc e;
        bool committed = false;
        for (auto &q : o.body)
        {
            Exc r;
            if (c.doomed && q.k == TX) continue; // no new transactions once the outer one is being aborted
            if (q.k == TX)
            {
                r = tx(q);
                if (r.size() && q.caught) { l("caught " + r + " "); r = ""; }
                if (r.size()) { e = r; break; }
                continue;
            }
            r = leaf(q);
            if (r.size() && q.caught) { l("caught " + r + " "); r = ""; }
            if (r.size()) { e = r; break; }
            if (!c.doomed) snaps.push_back(m.state(false));
        }
        if (e.empty()) switch (o.end)
        {
        case NORMAL: break;
        case THROWS: e = "user"; break;
        case ABORTS: if (c.doomed) e = "transaction_error"; else { c.doomed = true; e = "manual_tx_abort"; } break;
        case COMMITS: if (c.doomed) e = "transaction_error"; else committed = true; break;
        }
        if (e.size()) c.doomed = true;
        else switch (o.style)
        {
        case RUN: case AUTO_: if (c.doomed) e = "transaction_error"; else committed = true; break;
        case MANUAL: if (!committed) c.doomed = true; break;
        }
        --c.depth;
        if (outer)
        {
            static const char sn[] = "wcaf";
            if (committed) { for (auto &q : c.cbs) if (q.first == 0) call(sn[0], q.second); for (auto &q : c.cbs) if (q.first == 1) call(sn[1], q.second); }
            else for (auto &q : c.cbs) if (q.first == 2) call(sn[2], q.second);
            for (auto &q : c.cbs) if (q.first == 3) call(sn[3], q.second);
            c.committed = committed;
        }
        return e;
    }
    void call(char st, int id) { char b[20]; snprintf(b, sizeof b, "cb%c%d ", st, id); cblog += b; }
    std::string cblog;
};
// ---- the real execution
Exc exc_name()
{
    try { throw; }
    catch (CtorThrow &) { return "ctor"; }
    catch (Abort &) { return "user"; }
    catch (pmem::manual_tx_abort &) { return "manual_tx_abort"; }
    catch (pmem::transaction_scope_error &) { return "scope_error"; }
    catch (pmem::transaction_out_of_memory &) { return "out_of_memory"; }
    catch (pmem::transaction_alloc_error &) { return "alloc_error"; }
    catch (pmem::transaction_free_error &) { return "free_error"; }
    catch (pmem::transaction_error &) { return "transaction_error"; }
    catch (pmem::pool_error &) { return "pool_error"; }
    catch (std::bad_alloc &) { return "bad_alloc"; }
    catch (std::exception &e) { return std::string("exception ") + e.what(); }
    catch (eng::Failed &) { throw; }
}
bool fault_fired() { return pm::fail_alloc_at && pm::allocs >= pm::fail_alloc_at; }
std::vector<State> g_snaps; // of the model
size_t g_snap;
std::vector<std::string> g_tail; // log per leaf is compared as a whole at the end
struct RExec
{
    int ncb = 0;
    int locks = 0, depth = 0;
    bool stop = false; // an allocation failure was injected: the model is of no use any more
    bool doomed() { return pmemobj_tx_stage() != TX_STAGE_WORK; }
    void leaf(const Op &o)
    {
        Tab *t = tab();
        bool dead = doomed();
        if (dead && (o.k == V || o.k == W || o.k == BIG || o.k == RAW || o.k == NSET || o.k == NCHILD || o.k == NSWAP || o.k == NMOVE || o.k == ASET || o.k == FXSET || o.k == FRENEW || o.k == TRYLOCK)) return; // would be writes outside of a transaction
        Cell::start();
        switch (o.k)
        {
        case V: arith_real(t->v[o.a % NV], t->v[o.c % NV], o.how, o.b); break;
        case W: arith_real(t->w[o.a % NW], t->w[o.c % NW], o.how, o.b); break;
        case BIG:
            if (o.how & 1) t->big[o.a % NB].get_rw().q[o.b % 6] = o.c;
            else { Big b; for (int i = 0; i < 6; ++i) b.q[i] = o.c + i; t->big[o.a % NB] = b; }
            break;
        case RAW: { int from = o.b % NR, n = std::min(o.c % 9, NR - from); if (n) nv::transaction::snapshot(t->raw + from, n); for (int i = 0; i < n; ++i) t->raw[from + i] = o.a * 10 + i; break; }
        case NMAKE:
        {
            if (dead) { nv::make_persistent<Node>(o.b, o.c); break; }
            auto &s = t->s[o.a % NS];
            if (s) break;
            switch (o.how % 3)
            {
            case 0: s = nv::make_persistent<Node>(o.b, o.c); break;
            case 1: s = nv::make_persistent<Node>(nv::allocation_flag::none(), o.b, o.c); break;
            default: { nv::persistent_ptr<Node> p = nv::make_persistent<Node>(o.b, o.c); s.swap(p); }
            }
            break;
        }
        case NDEL: { if (dead) { nv::delete_persistent<Node>(nullptr); break; } auto &s = t->s[o.a % NS]; nv::delete_persistent<Node>(s); s = nullptr; break; }
        case NSET:
        {
            auto p = t->s[o.a % NS];
            if (!p) break;
            int n = 0; for (auto q = p; q; q = q->child) ++n;
            for (int d = o.c % n; d; --d) p = p->child;
            if (o.how & 1) (*p).y = o.b + 100; else p->x = o.b + 100;
            break;
        }
        case NCHILD:
        {
            auto &s = t->s[o.a % NS], &u = t->s[o.c % NS];
            int n = 0; for (auto q = u; q; q = q->child) ++n;
            if (s && !s->child && u && &s != &u && n < 4) { if (o.how & 1) { s->child = u; u = nullptr; } else s->child.swap(u); }
            break;
        }
        case NSWAP: if (o.how & 1) t->s[o.a % NS].swap(t->s[o.c % NS]); else swap(t->s[o.a % NS], t->s[o.c % NS]); break;
        case NMOVE: { auto &s = t->s[o.a % NS], &u = t->s[o.c % NS]; if (!s && &s != &u) { if (o.how & 1) s = std::move(u); else s = u; u = nullptr; } break; }
        case AMAKE:
        {
            if (dead) { nv::make_persistent<Cell[]>(1); break; }
            int i = o.a % NA, n = o.b % 9;
            if (t->a[i]) break;
            g_cell_throw = o.how % 6 == 0 ? 1 + o.c % 9 : 0;
            struct Off { ~Off() { g_cell_throw = 0; } } off;
            t->a[i] = nv::make_persistent<Cell[]>(n);
            t->n[i] = n;
            lg(" ");
            break;
        }
        case ADEL: { if (dead) { nv::delete_persistent<Cell[]>(nullptr, 3); break; } int i = o.a % NA; if (!t->a[i]) break; nv::delete_persistent<Cell[]>(t->a[i], t->n[i]); t->a[i] = nullptr; t->n[i] = 0; lg(" "); break; }
        case ASET: { int i = o.a % NA; if (t->a[i] && t->n[i]) { auto &c = t->a[i][o.c % t->n[i]]; nv::transaction::snapshot(&c.v); c.v = o.b; } break; }
        case AGROW:
        {
            if (dead) { nv::make_persistent<Cell[]>(1); break; }
            int i = o.a % NA;
            if (!t->a[i]) break;
            unsigned old = t->n[i], n = old + 1 + o.b % 20;
            auto p = nv::make_persistent<Cell[]>(n);
            lg(" ");
            for (unsigned j = 0; j < old; ++j) p[j].v = t->a[i][j].v;
            Cell::start();
            nv::delete_persistent<Cell[]>(t->a[i], old);
            lg(" ");
            t->a[i] = p; t->n[i] = n;
            break;
        }
        case FXMAKE:
        {
            if (dead) { nv::make_persistent<Cell[5]>(); break; }
            int i = o.a % NF;
            if (t->fx[i]) break;
            g_cell_throw = o.how % 6 == 0 ? 1 + o.c % 6 : 0;
            struct Off { ~Off() { g_cell_throw = 0; } } off;
            t->fx[i] = nv::make_persistent<Cell[5]>(); lg(" ");
            break;
        }
        case FXDEL: { if (dead) { nv::delete_persistent<Cell[5]>(nullptr); break; } int i = o.a % NF; if (!t->fx[i]) break; nv::delete_persistent<Cell[5]>(t->fx[i]); t->fx[i] = nullptr; lg(" "); break; }
        case FXSET: if (t->fx[o.a % NF]) { auto p = t->fx[o.a % NF]; for (int i = 0; i < 5; ++i) { nv::transaction::snapshot(&p[i].v); p[i].v = o.b + 1; } } break;
        case FMAKE:
        {
            nv::allocator<Fat> al;
            if (dead) { al.allocate(1); break; }
            int i = o.a % NF;
            if (t->f[i]) break;
            int n = 1 + o.b % 4;
            auto p = al.allocate(n);
            if (!p) throw std::bad_alloc();
            for (int j = 0; j < n; ++j) { if (o.how & 1) al.construct(p + j, o.c + j); else { const Fat x(o.c + j); al.construct(p + j, x); } }
            t->f[i] = p; t->fn[i] = n;
            break;
        }
        case FDEL:
        {
            nv::allocator<Fat> al;
            if (dead) { al.deallocate(t->f[0], 1); break; }
            int i = o.a % NF;
            if (!t->f[i]) break;
            for (unsigned j = 0; j < t->fn[i]; ++j) al.destroy(t->f[i] + j);
            al.deallocate(t->f[i], t->fn[i]);
            t->f[i] = nullptr; t->fn[i] = 0;
            break;
        }
        case FRENEW: { nv::allocator<Fat> al; int i = o.a % NF; if (!t->f[i]) break; auto p = t->f[i] + o.b % t->fn[i]; al.destroy(p); al.construct(p, o.c); break; }
        case INMAKE:
            if (dead) { nv::make_persistent<int[]>(1); break; }
            if (!t->in) { unsigned n = 1 + o.b; t->in = nv::make_persistent<int[]>(n); t->inn = n; if (o.how % 2 == 0) for (unsigned i = 0; i < n; ++i) t->in[i] = i + o.c; }
            break;
        case INDEL: if (dead) { nv::delete_persistent<int[]>(nullptr, 0); break; } if (t->in) { if (!dead) memset(t->in.get(), 0, 0); nv::delete_persistent<int[]>(t->in, t->inn); t->in = nullptr; t->inn = 0; } break;
        case CB:
        {
            static const nv::transaction::stage st[] = {nv::transaction::stage::work, nv::transaction::stage::oncommit, nv::transaction::stage::onabort, nv::transaction::stage::finally};
            int id = ncb, w = o.how % 4;
            nv::transaction::register_callback(st[w], [id, w] { char b[20]; snprintf(b, sizeof b, "cb%c%d ", "wcaf"[w], id); g_cblog += b; });
            ++ncb;
            break;
        }
        case TRYLOCK:
        {
            bool ok = o.a % 2 ? t->sm.try_lock() : t->m.try_lock();
            if (ok) { if (o.a % 2) t->sm.unlock(); else t->m.unlock(); }
            lg("lock %s ", ok ? "free" : "held");
            break;
        }
        case HUGE_: if (o.how & 1) nv::make_persistent<char[]>(64 << 20); else nv::make_persistent<Huge>(); break;
        case OVER: g_cell_throw = 50; { struct Off { ~Off() { g_cell_throw = 0; } } off; if (o.how & 1) nv::make_persistent<Cell[]>(OVERFLOWS + o.b % 3); else { nv::allocator<Cell> al; if (!al.allocate(OVERFLOWS + o.b % 3)) throw pmem::transaction_out_of_memory("null"); } } break;
        case NULLDEL: nv::delete_persistent<Node>(nullptr); nv::delete_persistent<Cell[]>(nullptr, 4); nv::delete_persistent<Cell[5]>(nullptr); break;
        case SNAPBAD: { static int outside[4]; nv::transaction::snapshot(outside, 4); break; }
        }
    }
    void body(const Op &o)
    {
        for (auto &q : o.body)
        {
            if (q.k == TX && doomed()) continue;
            try
            {
                if (q.k == TX) { ++depth; struct D { int &d; ~D() { --d; } } dd{depth}; tx(q); continue; }
                leaf(q);
            }
            catch (eng::Failed &) { throw; }
            catch (...)
            {
                if (fault_fired()) { stop = true; throw; }
                if (!q.caught) throw;
                lg("caught %s ", exc_name().c_str());
                if (!doomed() && q.k != TX) snap(q);
                continue;
            }
            if (!doomed()) snap(q);
        }
        switch (o.end)
        {
        case THROWS: throw Abort();
        case ABORTS: nv::transaction::abort(o.a);
        case COMMITS: nv::transaction::commit(); break;
        }
    }
    void snap(const Op &q)
    {
        if (g_snap >= g_snaps.size()) return;
        State g = read_real(false), &e = g_snaps[g_snap++];
        if (g != e) eng::fail("in-tx", "after %s, in the transaction: contents%s, expected%s", show_op(q).c_str(), show(g).c_str(), show(e).c_str());
    }
    void tx(const Op &o)
    {
        if (!o.unwinding) { tx_(o); return; }
        struct Propagated {};
        std::exception_ptr e;
        struct Unwound
        {
            RExec *r; const Op &o; std::exception_ptr &e;
            ~Unwound() { try { r->tx_(o); } catch (...) { e = std::current_exception(); } }
        };
        try { Unwound u{this, o, e}; throw Propagated(); }
        catch (Propagated &) {}
        if (e) std::rethrow_exception(e);
    }
    void tx_(const Op &o)
    {
        Tab *t = tab();
        switch (o.style)
        {
        case RUN:
            switch (o.locks)
            {
            case 0: nv::transaction::run(pop, [&] { body(o); }); break;
            case 1: nv::transaction::run(pop, [&] { body(o); }, t->m); break;
            case 2: nv::transaction::run(pop, [&] { body(o); }, t->sm); break;
            default: nv::transaction::run(pop, [&] { body(o); }, t->m, t->sm); break;
            }
            break;
        case MANUAL:
            switch (o.locks)
            {
            case 0: { nv::transaction::manual x(pop); body(o); break; }
            case 1: { nv::transaction::manual x(pop, t->m); body(o); break; }
            case 2: { nv::transaction::manual x(pop, t->sm); body(o); break; }
            default: { nv::transaction::manual x(pop, t->m, t->sm); body(o); break; }
            }
            break;
        default:
            switch (o.locks)
            {
            case 0: { nv::transaction::automatic x(pop); body(o); break; }
            case 1: { nv::transaction::automatic x(pop, t->m); body(o); break; }
            case 2: { nv::transaction::automatic x(pop, t->sm); body(o); break; }
            default: { nv::transaction::automatic x(pop, t->m, t->sm); body(o); break; }
            }
        }
    }
};
struct TxSys
{
    using Op = ::Op;
    static Op gen(eng::Src &s)
    {
        if (s.chance(g_life ? 12 : 17, 20)) return gen_tx(s, 0);
        Op o = gen_leaf(s);
        static const std::vector<int> a = {X_BAD, X_PERSIST}, b = {X_NMAKE, X_NMAKE, X_NMAKE, X_NDEL, X_AMAKE, X_AMAKE, X_AMAKE, X_ADEL, X_FXMAKE, X_FXDEL, X_HUGE, X_DEFRAG, X_DEFRAG, X_INMAKE, X_OVER};
        o.k = s.pick(g_life ? b : a);
        return o;
    }
    static std::string name(const Op &o) { return show_op(o); }
    void create()
    {
        nv::transaction::run(pop, [&] { auto p = nv::make_persistent<char[]>(sizeof(Tab)); memset(p.get(), 0, sizeof(Tab)); pop.root()->slot[0] = nv::persistent_ptr<char>(p.raw()); });
    }
    void attach() {}
    void settle(bool) {}
    void finish() {}
    std::string extra() { return ""; }
    State read()
    {
        Tab *t = tab();
        if (!t->m.try_lock()) eng::fail("lock", "the mutex is still locked outside of transactions");
        t->m.unlock();
        if (!t->sm.try_lock()) eng::fail("lock", "the shared mutex is still locked outside of transactions");
        t->sm.unlock();
        return read_real(true);
    }
    std::string model(State &st, const Op &o)
    {
        MExec e;
        e.m = Model::of(st);
        Model before = e.m;
        g_snaps.clear();
        std::string r;
        auto ret = [&](const Exc &x) { return x.size() ? "throw " + x + " | " + e.log : e.log; };
        auto l = [&](const std::string &x) { e.log += x; };
        switch (o.k)
        {
        case TX:
        {
            Exc x = e.tx(o);
            if (!e.c.committed) e.m = before;
            r = ret(x) + e.cblog;
            g_snaps = e.snaps;
            break;
        }
        case X_BAD:
        {
            static const char *const want[] = {"transaction_error", "transaction_error", "transaction_error", "scope_error", "scope_error", "scope_error", "scope_error", "scope_error", "scope_error", "scope_error", "scope_error"};
            return std::string("throw ") + want[o.how % 11] + " | ";
        }
        case X_PERSIST: e.m.v[o.a % NV] = o.b; break;
        case X_NMAKE: { auto &s = e.m.s[o.a % NS]; if (s.size()) break; if (o.b == BAD_X) return "throw bad_alloc | "; l(MExec::node('+', o.b, o.c)); s = {o.b, o.c, o.b + o.c}; e.m.objects++; r = e.log; break; }
        case X_NDEL: { auto &s = e.m.s[o.a % NS]; if (s.size() == 3) { s.clear(); e.m.objects--; } break; }
        case X_AMAKE:
        {
            int i = o.a % NA, n = o.b % 9, at = o.how % 6 == 0 ? 1 + o.c % 9 : 0;
            if (e.m.an[i]) break;
            if (n == 0) return "throw bad_alloc | ";
            if (at && at <= n) { l(cells(at - 1, true)); return ret("bad_alloc"); }
            l(cells(n, true)); e.m.an[i] = 1; e.m.a[i].assign(n, 7); e.m.objects++; r = e.log;
            break;
        }
        case X_ADEL: { int i = o.a % NA; if (e.m.an[i]) { e.m.an[i] = 0; e.m.a[i].clear(); e.m.objects--; } break; }
        case X_FXMAKE: { int i = o.a % NF; if (e.m.fx[i]) break; int at = o.how % 6 == 0 ? 1 + o.c % 6 : 0; if (at && at <= 5) { l(cells(at - 1, true)); return ret("bad_alloc"); } l(cells(5, true)); e.m.fx[i] = 7; e.m.objects++; r = e.log; break; }
        case X_FXDEL: { int i = o.a % NF; if (e.m.fx[i]) { e.m.fx[i] = 0; e.m.objects--; } break; }
        case X_HUGE: case X_OVER: return "throw bad_alloc | ";
        case X_DEFRAG: break;
        case X_INMAKE: if (!e.m.inalloc) { e.m.inalloc = true; e.m.in.assign(1 + o.b, 0); e.m.objects++; } break;
        }
        st = e.m.state(true);
        return r;
    }
    std::string apply(const Op &o)
    {
        Tab *t = tab();
        g_log.clear();
        g_cblog.clear();
        g_snap = 0;
        RExec r;
        Exc x;
        Cell::start();
        try
        {
            switch (o.k)
            {
            case TX: r.tx(o); break;
            case X_BAD:
                switch (o.how % 11)
                {
                case 0: nv::transaction::abort(5); break;
                case 1: nv::transaction::commit(); break;
                case 2: nv::transaction::snapshot(t->raw, 2); break;
                case 3: nv::transaction::register_callback(nv::transaction::stage::oncommit, [] { lg("cb! "); }); break;
                case 4: nv::make_persistent<Node>(1, 2); break;
                case 5: nv::delete_persistent<Node>(t->s[0]); break;
                case 6: nv::make_persistent<Cell[]>(3); break;
                case 7: nv::delete_persistent<Cell[]>(t->a[0], 3); break;
                case 8: nv::make_persistent<Cell[5]>(); break;
                case 9: nv::allocator<Fat>().allocate(2); break;
                default: nv::delete_persistent<Cell[5]>(t->fx[0]); break;
                }
                break;
            case X_PERSIST:
                t->v[o.a % NV] = o.b;
                switch (o.how % 4)
                {
                case 0: pop.persist(t->v[o.a % NV]); break;
                case 1: pop.persist(&t->v[o.a % NV], sizeof(int)); break;
                case 2: pop.flush(t->v[o.a % NV]); pop.drain(); break;
                default: { nv::persistent_ptr<int> p(&t->v[o.a % NV].get_rw()); p.persist(); break; }
                }
                break;
            case X_NMAKE: { auto &s = t->s[o.a % NS]; if (s) break; if (o.how & 1) nv::make_persistent_atomic<Node>(pop, s, o.b, o.c); else nv::make_persistent_atomic<Node>(pop, s, nv::allocation_flag_atomic::none(), o.b, o.c); break; }
            case X_NDEL: { auto &s = t->s[o.a % NS]; if (s && !s->child) nv::delete_persistent_atomic<Node>(s); break; }
            case X_AMAKE:
            {
                int i = o.a % NA, n = o.b % 9;
                if (t->a[i]) break;
                g_cell_throw = o.how % 6 == 0 ? 1 + o.c % 9 : 0;
                struct Off { ~Off() { g_cell_throw = 0; } } off;
                // the count first: a count without an array reads as no array
                t->n[i] = n; pop.persist(t->n[i]);
                nv::make_persistent_atomic<Cell[]>(pop, t->a[i], n);
                break;
            }
            case X_ADEL: { int i = o.a % NA; if (t->a[i]) nv::delete_persistent_atomic<Cell[]>(t->a[i], t->n[i]); break; }
            case X_FXMAKE: { int i = o.a % NF; if (t->fx[i]) break; g_cell_throw = o.how % 6 == 0 ? 1 + o.c % 6 : 0; struct Off { ~Off() { g_cell_throw = 0; } } off; nv::make_persistent_atomic<Cell[5]>(pop, t->fx[i]); break; }
            case X_FXDEL: { int i = o.a % NF; if (t->fx[i]) nv::delete_persistent_atomic<Cell[5]>(t->fx[i]); break; }
            case X_HUGE: { nv::persistent_ptr<Huge> p; nv::make_persistent_atomic<Huge>(pop, p); break; }
            case X_OVER: { g_cell_throw = 50; struct Off { ~Off() { g_cell_throw = 0; } } off; nv::persistent_ptr<Cell[]> p; nv::make_persistent_atomic<Cell[]>(pop, p, OVERFLOWS + o.b % 3); break; }
            case X_INMAKE: if (!t->in) { t->inn = 1 + o.b; pop.persist(t->inn); nv::make_persistent_atomic<int[]>(pop, t->in, 1 + o.b); } break;
            case X_DEFRAG:
            {
                nv::defrag d(pop);
                for (auto &s : t->s) if (s) d.add(s);
                if (o.how & 1) d.add(*t);
                auto res = d.run();
                if (res.relocated) eng::label("relocated");
                break;
            }
            }
        }
        catch (eng::Failed &) { throw; }
        catch (...) { x = exc_name(); }
        if (r.stop || fault_fired())
        {
            if (!x.size() && r.stop) x = "out_of_memory";
            if (x == "transaction_error" || x == "out_of_memory" || x == "bad_alloc" || x == "alloc_error") return "throw " + x;
        }
        return (x.size() ? "throw " + x + " | " + g_log : g_log) + g_cblog;
    }
};
void tx_case(eng::Src &s)
{
    g_life = false;
    Plan pl; pl.wraps = {PLAIN}; pl.max_units = 5; pl.crash_num = 1; pl.crash_den = 2;
    run_case<TxSys>(s, pl);
}
void life_case(eng::Src &s)
{
    g_life = true;
    Plan pl; pl.wraps = {PLAIN}; pl.max_units = 5; pl.crash_num = 1; pl.crash_den = 2;
    run_case<TxSys>(s, pl);
}
#include "tx_ptr.inc"
const char *A_NVM = "power-failure model: 64-byte lines, durable once flushed and drained; unflushed lines are kept or lost line by line; libpmemobj itself (the system library) is run, not modelled";
eng::RegProp props[] = {
    {{"C22", "random transaction trees (closure, manual and automatic transactions nested up to four deep, exceptions caught at any level or not, transactions in destructors during stack unwinding, explicit aborts and commits, locks, callbacks for every stage, writes through every operator of p<>, snapshots, allocations and frees of objects, graphs and arrays, failing allocations), over several sessions with power failures; a reference interpreter gives the expected contents, number of objects, exceptions, callbacks and lock states; non-trivial: at least three steps", "exploration", {A_NVM, "after a nested transaction has been aborted, no further writes are made in the enclosing ones (libpmemobj does not record them)"}}},
    {{"C27", "mode life: random sequences of transactional and atomic creation and deletion of objects and arrays with throwing constructors, failing and overflowing sizes, allocator, defragmentation, aborted transactions, reopening and power failures; the reference interpreter gives contents, number of objects and the exact log of constructor and destructor calls; mode ptr: random pointer arithmetic, comparison and conversion against plain pointers, before and after reopening; non-trivial: at least three steps", "exploration", {A_NVM}}},
};
eng::RegMode modes[] = {
    {{"C22", "tx", tx_case, 16000, 600000, 100}},
    {{"C27", "life", life_case, 14000, 500000, 100}},
    {{"C27", "ptr", ptr_case, 20000, 500000, 200}},
};
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch;
    return eng::driver_main(argc, argv);
}
