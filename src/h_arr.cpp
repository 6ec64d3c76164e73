// Property C26: the persistent array against std::array, and what slices and iterators record for undo.
#include <algorithm>
#include <array>
#include <cstring>
#include <iostream>
#include <string>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_array.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/container/array.hpp>
#include <libpmemobj++/container/vector.hpp>
#include <libpmemobj++/container/string.hpp>
#include <libpmemobj++/container/segment_vector.hpp>
#include "pmx.hpp"
using namespace pmx;
namespace
{
template <int SZ> struct W
{
    int v;
    char pad[SZ - 4];
    W(int x = 0) : v(x) { memset(pad, x, sizeof pad); }
    bool operator==(const W &o) const { return v == o.v; }
    bool operator<(const W &o) const { return v < o.v; }
    explicit operator int() const { for (char c : pad) if (c != (char)v) return -1; return v; }
};
template <class T> std::string str(const T &x) { char b[16]; snprintf(b, sizeof b, "%03d", (int)x); return b; }
enum K { WRITE, SLICE, CHUNK, FILL, SWAP, ASSIGN, MOVE, ALGO, READ, REL, BAD, NK };
const char *kname[] = {"write", "slice", "chunks", "fill", "swap", "=", "=move", "algorithm", "read", "relation", "bad"};
struct Op { int k, c, how; unsigned i, n, sn; int v; };
// ---- part 1: model-based
template <class T, size_t N> struct ArrSys
{
    using Op = ::Op;
    using C = nv::array<T, N>;
    using M = std::array<T, N>;
    C *c[2];
    static Op gen(eng::Src &s)
    {
        Op o{};
        o.k = s.weighted({10, 8, 10, 3, 4, 3, 3, 5, 6, 2, 3});
        o.c = s.below(2);
        o.how = s.below(12);
        o.i = s.below(N + 1);
        o.n = s.below(N + 2);
        o.sn = s.below(N + 3);
        o.v = s.below(100);
        return o;
    }
    static std::string name(const Op &o)
    {
        char b[100];
        snprintf(b, sizeof b, "%s/%d[%d](%u,%u,%u,%d)", kname[o.k], o.how, o.c, o.i, o.n, o.sn, o.v);
        return b;
    }
    void create() { nv::transaction::run(pop, [&] { for (int i = 0; i < 2; ++i) { auto p = nv::make_persistent<C>(); for (size_t j = 0; j < N; ++j) const_cast<T *>(p->cdata())[j] = T(0); pop.root()->slot[i] = p.raw(); } }); }
    void attach() { refresh(); }
    void refresh() { for (int i = 0; i < 2; ++i) c[i] = obj<C>(i); }
    void settle(bool) {}
    static State show_one(const C &x)
    {
        State s(1);
        for (auto &e : x) s[0].push_back(str(e));
        return s;
    }
    State read()
    {
        State s(2);
        for (int i = 0; i < 2; ++i)
        {
            const C &x = *c[i];
            if (x.size() != N || x.max_size() != N || x.empty()) eng::fail("size", "size %zu, max_size %zu, empty %d", x.size(), x.max_size(), x.empty());
            for (size_t j = 0; j < N; ++j) s[i].push_back(str(x[j]));
        }
        return s;
    }
    std::string extra() { return ""; }
    static void load(M &m, const std::vector<std::string> &v) { for (size_t i = 0; i < N; ++i) m[i] = T(atoi(v[i].c_str())); }
    static void store(const M &m, std::vector<std::string> &v) { for (size_t i = 0; i < N; ++i) v[i] = str(m[i]); }
    template <class It> static void algo(It b, It e, const Op &o)
    {
        size_t n = e - b;
        switch (o.how % 7)
        {
        case 0: std::sort(b, e); break;
        case 1: std::reverse(b, e); break;
        case 2: std::rotate(b, b + (n ? o.v % n : 0), e); break;
        case 3: std::fill(b, e, T(o.v)); break;
        case 4: { int k = o.v; std::generate(b, e, [&] { return T(k++ % 100); }); break; }
        case 5: { std::array<T, N> t; for (size_t i = 0; i < N; ++i) t[i] = T((o.v + i) % 100); std::copy(t.begin(), t.begin() + n, b); break; }
        default: if (n > 1) std::iter_swap(b + o.v % n, b + (o.v + 1) % n); break;
        }
    }
    std::string model(State &s, const Op &o)
    {
        M x, y;
        load(x, s[o.c]); load(y, s[!o.c]);
        size_t i = std::min<size_t>(o.i, N - 1), n = std::min<size_t>(o.n, N - i);
        T v(o.v);
        std::string out;
        switch (o.k)
        {
        case WRITE: if (o.how == 2) i = 0; else if (o.how == 3) i = N - 1; else if (o.how == 9) i = N / 2; x[i] = v; break;
        case SLICE: for (size_t j = i; j < i + n; ++j) x[j] = v; break;
        case CHUNK: for (size_t j = i; j < i + n; ++j) x[j] = T((o.v + j) % 100); break;
        case FILL: x.fill(v); break;
        case SWAP: if (o.how % 3) x.swap(y); break;
        case ASSIGN: if (o.how % 3) x = y; break;
        case MOVE: if (o.how % 3) x = y; break;
        case ALGO: if (o.how < 7) algo(x.begin(), x.end(), o); else algo(x.begin() + i, x.begin() + i + n, o); break;
        case READ: switch (o.how) { case 2: case 6: out = str(x.front()); break; case 3: case 7: out = str(x.back()); break; case 8: case 9: out = str(x[N - 1 - i]); break; case 10: for (size_t j = i; j < i + n; ++j) out += str(x[j]); break; case 11: out = str(x[N / 2]); break; default: out = str(x[i]); } break;
        case REL: out = std::string() + (x == y ? "=" : "!") + (x < y ? "<" : ".") + (y < x ? ">" : ".") + (!(y < x) ? "l" : ".") + (!(x < y) ? "g" : "."); break;
        case BAD: return o.how % 8 == 7 ? "throw pool_error" : "throw out_of_range";
        }
        store(x, s[o.c]); store(y, s[!o.c]);
        return out;
    }
    std::string apply(const Op &o)
    {
        C &x = *c[o.c], &y = *c[!o.c];
        const C &k = x, &ky = y;
        size_t i = std::min<size_t>(o.i, N - 1), n = std::min<size_t>(o.n, N - i);
        T v(o.v);
        std::string out;
        auto tx = [&](auto f) { nv::transaction::run(pop, f); };
        switch (o.k)
        {
        case WRITE:
            tx([&] {
                switch (o.how)
                {
                case 0: x[i] = v; break;
                case 1: x.at(i) = v; break;
                case 2: x.front() = v; break;
                case 3: x.back() = v; break;
                case 4: *(x.begin() + i) = v; break;
                case 5: x.data()[i] = v; break;
                case 6: *(x.rbegin() + (N - 1 - i)) = v; break;
                case 7: x.begin()[i] = v; break;
                case 8: { auto it = x.end(); it -= N - i; *it.operator->() = v; break; }
                case 9: nv::get<N / 2>(x) = v; break;
                case 10: { auto it = nv::begin(x); std::advance(it, i); *it = v; break; }
                default: x.range(0, N)[i] = v; break;
                }
            });
            return "";
        case SLICE:
            tx([&] {
                auto r = x.range(i, n);
                if (r.size() != n) eng::fail("slice", "size of a slice: %zu, expected %zu", (size_t)r.size(), n);
                switch (o.how % 4)
                {
                case 0: for (auto &e : r) e = v; break;
                case 1: for (size_t j = 0; j < n; ++j) r[j] = v; break;
                case 2: for (size_t j = 0; j < n; ++j) r.at(j) = v; break;
                default: for (auto it = r.rbegin(); it != r.rend(); ++it) *it = v; break;
                }
            });
            return "";
        case CHUNK:
            tx([&] {
                auto r = x.range(i, n, o.sn);
                if (r.size() != n) eng::fail("slice", "size of a slice: %zu, expected %zu", (size_t)r.size(), n);
                auto val = [&](size_t j) { return T((o.v + i + j) % 100); };
                auto b = r.begin();
                if (o.sn == 0) { for (size_t j = 0; j < n; ++j) { if (o.how & 1) r[j] = val(j); else if (o.how & 2) r.at(j) = val(j); else b[j] = val(j); } return; }
                switch (o.how)
                {
                case 0: { size_t j = 0; for (auto &e : r) e = val(j++); break; }
                case 1: { size_t j = 0; for (auto it = r.begin(); it != r.end(); it++) *it = val(j++); break; }
                case 2: { size_t j = n; for (auto it = r.end(); it != r.begin();) *--it = val(--j); break; }
                case 3: { size_t j = n; for (auto it = r.rbegin(); it != r.rend(); ++it) *it = val(--j); break; }
                case 4: for (size_t j = 0; j < n; ++j) *(b + j) = val(j); break;
                case 5: for (size_t j = 0; j < n; ++j) *(r.end() - (n - j)) = val(j); break;
                case 6: for (size_t j = 0; j < n; ++j) { auto it = b; it += j; it.operator->()[0] = val(j); } break;
                case 7: for (size_t j = 0; j < n; ++j) { auto it = r.end(); it -= n - j; *it = val(j); } break;
                case 8: for (size_t st = 0; st < 3; ++st) { auto it = b; for (size_t j = st; j < n; j += 3) { if (j == st) it += st; *it = val(j); if (j + 3 < n) it += 3; } } break; // strides
                case 9: { auto it = r.end(); for (size_t j = n; j-- > 0;) { it--; *it = val(j); } break; }
                default: { // a random walk
                    auto it = b; size_t at = 0; unsigned z = o.v * 2654435761u + o.n;
                    std::vector<bool> done(n);
                    for (unsigned t = 0; t < 4 * n; ++t) { z = z * 1103515245 + 12345; size_t to = (z >> 16) % n; it += (std::ptrdiff_t)to - (std::ptrdiff_t)at; at = to; *it = val(at); done[at] = true; }
                    for (size_t j = 0; j < n; ++j) if (!done[j]) { it += (std::ptrdiff_t)j - (std::ptrdiff_t)at; at = j; *it = val(j); }
                }
                }
            });
            return "";
        case FILL: x.fill(v); return "";
        case SWAP: { C &w = o.how % 3 ? y : x; if (o.how & 1) x.swap(w); else { using nv::swap; swap(x, w); } return ""; }
        case ASSIGN: x = o.how % 3 ? ky : k; return "";
        case MOVE: x = std::move(o.how % 3 ? y : x); return "";
        case ALGO:
            tx([&] {
                if (o.how < 7) algo(x.begin(), x.end(), o);
                else if (o.how < 9) { auto r = x.range(i, n); algo(r.begin(), r.end(), o); }
                else { auto r = x.range(i, n, 1 + o.sn); algo(r.begin(), r.end(), o); }
            });
            return "";
        case READ:
            switch (o.how)
            {
            case 0: return str(k[i]);
            case 1: return str(o.v & 1 ? k.at(i) : x.const_at(i));
            case 2: return str(k.front());
            case 3: return str(k.back());
            case 4: return str(*(k.begin() + i));
            case 5: return str(o.v & 1 ? x.cdata()[i] : k.data()[i]);
            case 6: return str(x.cfront());
            case 7: return str(x.cback());
            case 8: return str(*(k.rbegin() + i));
            case 9: return str(*(o.v & 1 ? x.crbegin() + i : nv::crbegin(k) + i));
            case 10: if (o.v & 1) { for (auto &e : k.range(i, n)) out += str(e); } else { auto r = x.crange(i, n); for (size_t j = 0; j < r.size(); ++j) out += str(r[j]); } return out;
            default: return str(nv::get<N / 2>(k));
            }
        case REL: return std::string() + (x == y ? "=" : "!") + (x < y ? "<" : ".") + (x > y ? ">" : ".") + (x <= y ? "l" : ".") + (x >= y ? "g" : ".");
        case BAD:
        {
            size_t st = std::min<size_t>(o.i, N), over = N - st + 1 + o.v;
            if (o.v % 8 > 5) over = st ? ~(size_t)0 - st + 1 + o.v % st : ~(size_t)0 - o.v % 4; // the end is beyond the largest index
            switch (o.how % 8)
            {
            case 0: (void)x.at(N + o.v); break;
            case 1: (void)k.at(N + o.v); break;
            case 2: (void)x.const_at(N + o.v); break;
            case 3: (void)x.range(st, over).size(); break;
            case 4: (void)x.range(st, over, o.sn).size(); break;
            case 5: (void)(o.v & 1 ? k.range(st, over) : x.crange(st, over)).size(); break;
            case 6: if (o.v & 1) (void)x.range(i, n).at(n); else (void)nv::slice<T *>(x.range(i, n).end() + 1, x.range(i, n).begin()).size(); break;
            default: { static C vol, vol2; if (o.v & 1) vol.fill(v); else if (o.v & 2) vol = vol2; else vol.swap(vol2); break; }
            }
            return "no exception";
        }
        }
        return "?";
    }
    void finish()
    {
        nv::transaction::run(pop, [&] { for (int i = 0; i < 2; ++i) nv::delete_persistent<C>(nv::persistent_ptr<C>(pop.root()->slot[i].raw())); });
        if (unsigned n = live_objects()) eng::fail("leak", "%u objects remain allocated after everything was destroyed", n);
    }
};
template <class T> void arr_n(eng::Src &s, unsigned n)
{
    Plan p;
    switch (n)
    {
    case 0: run_case<ArrSys<T, 1>>(s, p); break;
    case 1: run_case<ArrSys<T, 5>>(s, p); break;
    case 2: run_case<ArrSys<T, 16>>(s, p); break;
    default: run_case<ArrSys<T, 33>>(s, p); break;
    }
}
void arr_case(eng::Src &s)
{
    unsigned t = s.below(3), n = s.below(4);
    static const char *tn[] = {"byte", "int", "20 bytes"};
    static const int nn[] = {1, 5, 16, 33};
    eng::desc("array<%s,%d>:", tn[t], nn[n]);
    if (t == 0) arr_n<unsigned char>(s, n);
    else if (t == 1) arr_n<int>(s, n);
    else arr_n<W<20>>(s, n);
}
// ---- part 2: exactly what was exposed is undone
// Elements written through an access path come back when the transaction aborts; an element that no path exposed
// and that is overwritten behind the library's back must keep what was written.
struct Acc { int how; unsigned i, n, sn; int raw_i; };
template <class C, class T> struct Expose
{
    C &x;
    const C &k;
    size_t N;
    std::vector<int> cur, restore;
    std::vector<bool> exposed, maybe;
    std::vector<T *> raw;
    int next = 1;
    Expose(C &c, size_t n) : x(c), k(c), N(n), cur(n), restore(n), exposed(n), maybe(n) { for (size_t i = 0; i < n; ++i) { raw.push_back(const_cast<T *>(&k[i])); cur[i] = (int)k[i]; } }
    int fresh() { next = next % 99 + 1; return next; }
    void write(T &r, size_t i)
    {
        if (&r != raw[i]) eng::fail("address", "access to element %zu yields another address", i);
        if (!exposed[i]) { exposed[i] = true; restore[i] = cur[i]; }
        cur[i] = fresh();
        r = T(cur[i]);
    }
    void could(size_t a, size_t b) { for (size_t i = a; i < b; ++i) maybe[i] = true; }
    void poke(size_t i)
    {
        if (exposed[i] || maybe[i]) return;
        cur[i] = fresh();
        *raw[i] = T(cur[i]);

    }
    void access(const Acc &a)
    {
        constexpr bool isarr = !std::is_same_v<C, nv::segment_vector<T>>;
        size_t i = a.i % N, n = a.n % (N - i + 1);
        auto walk = [&](auto r, unsigned w) {
            switch (w % 5)
            {
            case 0: { size_t j = i; for (auto &e : r) write(e, j++); break; }
            case 1: { size_t j = i + n; for (auto it = r.rbegin(); it != r.rend(); ++it) write(*it, --j); break; }
            case 2: { size_t j = i; for (auto it = r.begin(); it != r.end(); it++) { if (w & 8 || j % 2) write(*it, j); ++j; } break; }
            case 3: for (size_t d = 0; d < n; d += 1 + w / 5) write(*(r.begin() + d), i + d); break;
            default: for (size_t d = n; d > 0; --d) { auto it = r.end(); it -= d; write(*it, i + n - d); } break;
            }
        };
        switch (a.how)
        {
        case 0: write(x[i], i); break;
        case 1: write(x.at(i), i); break;
        case 2: write(x.front(), 0); break;
        case 3: write(x.back(), N - 1); break;
        case 4: write(*(x.begin() + i), i); break;
        case 5: write(*(x.rbegin() + (N - 1 - i)), i); break;
        case 6: write(*(x.end() - (N - i)).operator->(), i); break;
        case 7: if constexpr (isarr) write(x.begin()[i], i); break;
        case 8: could(i, i + n); walk(x.range(i, n), a.sn); break;
        case 9: if constexpr (isarr && !std::is_same_v<C, nv::basic_string<char>>) { could(i, i + n); walk(x.range(i, n, 1 + a.sn % (N + 1)), a.sn / 3 + a.n); } break;
        case 10: if constexpr (isarr && !std::is_same_v<C, nv::basic_string<char>>) { auto r = x.range(i, n, 0); for (size_t d = 0; d < n; d += 1 + a.sn % 3) write(r[d], i + d); } break;
        case 11: if constexpr (isarr) { if (a.sn % 4 == 0) { could(0, N); T *d = x.data(); for (size_t j = i; j < i + n; ++j) write(d[j], j); } } break;
        // reading exposes nothing
        case 12: { int z = 0; for (auto &e : k) z += (int)e; for (auto &e : k.range(i, n)) z += (int)e; (void)z; break; }
        case 13: { auto r = x.crange(i, n); int z = 0; for (auto &e : r) z += (int)e; z += (int)x.const_at(i) + (int)x.cfront() + (int)x.cback() + (int)*x.cbegin() + (int)*x.crbegin(); (void)z; break; }
        case 14: { if constexpr (isarr) { (void)x.cdata(); (void)k.data(); } (void)x.begin(); (void)x.end(); (void)(x.begin() + i); break; }
        }
    }
    void check(bool committed)
    {
        for (size_t i = 0; i < N; ++i)
        {
            int want = committed || !exposed[i] ? cur[i] : restore[i], got = (int)k[i];
            if (got != want)
                eng::fail(exposed[i] ? "undo" : "untouched", "after the transaction %s, element %zu of %zu (%s) is %d, expected %d", committed ? "committed" : "aborted", i, N, exposed[i] ? "written through the container" : "never exposed", got, want);
        }
    }
};
template <class C, class T> void expose_run(eng::Src &s, std::function<nv::persistent_ptr<C>(size_t)> make, size_t N)
{
    std::vector<Acc> as;
    unsigned na = 1 + s.small(6);
    bool commit = s.chance(1, 6);
    for (unsigned i = 0; i < na; ++i)
    {
        eng::Span sp(s);
        Acc a{(int)s.weighted({3, 3, 1, 1, 3, 2, 1, 2, 6, 10, 3, 2, 1, 2, 1}), (unsigned)s.below(N), (unsigned)s.below(N + 1), (unsigned)s.below(40), (int)s.below(N + 1) - 1};
        eng::desc(" %d(%u,%u,%u)", a.how, a.i, a.n, a.sn);
        if (a.raw_i >= 0) eng::desc(" poke %d", a.raw_i);
        as.push_back(a);
    }
    int final_poke = s.below(3);
    eng::desc(commit ? " commit" : " abort");
    Pool p(false);
    eng::in_child("run", [&] {
        session_start();
        pop = nv::pool<Root>::open(p.file, "x");
        nv::transaction::run(pop, [&] { pop.root()->slot[0] = make(N).raw(); });
        C &c = *obj<C>(0);
        Expose<C, T> e(c, N);
        try
        {
            nv::transaction::run(pop, [&] {
                for (auto &a : as) { if (a.raw_i >= 0) e.poke(a.raw_i); e.access(a); }
                if (final_poke) for (size_t i = 0; i < N; i += final_poke) e.poke(i);
                if (!commit) throw Abort();
            });
        }
        catch (Abort &) {}
        e.check(commit);
        unsigned ex = 0, po = 0;
        for (size_t i = 0; i < N; ++i) { ex += e.exposed[i]; po += !e.exposed[i] && e.cur[i] != 0; }
        sh->flag[0] = ex; sh->flag[1] = po;
    });
    if (sh->flag[0] && sh->flag[1]) eng::mark_nontrivial();
    eng::label(commit ? "commit" : "abort");
}
template <class T, size_t N> void expose_arr(eng::Src &s)
{
    expose_run<nv::array<T, N>, T>(s, [](size_t) { auto p = nv::make_persistent<nv::array<T, N>>(); for (size_t j = 0; j < N; ++j) const_cast<T *>(p->cdata())[j] = T(0); return p; }, N);
}
template <class T> void expose_t(eng::Src &s, unsigned c)
{
    size_t N = 2 + s.below(40);
    switch (c)
    {
    case 0: eng::desc("array<%zu bytes,7>:", sizeof(T)); expose_arr<T, 7>(s); break;
    case 1: eng::desc("array<%zu bytes,32>:", sizeof(T)); expose_arr<T, 32>(s); break;
    case 2: eng::desc("vector<%zu bytes>(%zu):", sizeof(T), N); expose_run<nv::vector<T>, T>(s, [](size_t n) { return nv::make_persistent<nv::vector<T>>(n, T(0)); }, N); break;
    default: eng::desc("segment_vector<%zu bytes>(%zu):", sizeof(T), N); expose_run<nv::segment_vector<T>, T>(s, [](size_t n) { return nv::make_persistent<nv::segment_vector<T>>(n, T(0)); }, N); break;
    }
}
void expose_case(eng::Src &s)
{
    unsigned t = s.below(4), c = s.below(4);
    switch (t)
    {
    case 0: expose_t<unsigned char>(s, c); break;
    case 1: expose_t<int>(s, c); break;
    case 2: expose_t<W<20>>(s, c); break;
    default: expose_t<W<72>>(s, c); break;
    }
}
const char *A_NVM = "power-failure model: 64-byte lines, durable once flushed and drained; unflushed lines are kept or lost line by line; libpmemobj itself (the system library) is run, not modelled";
eng::RegProp props[] = {
    {{"C26", "mode arr: random sequences of all accesses, slices of every chunk size and algorithms on two arrays (1, 5, 16 or 33 elements of 1, 4 or 20 bytes), alone or in transactions that commit or abort, with power failures, against std::array, non-trivial: at least three operations; mode expose: random access paths into an array, vector or segment vector in one transaction, other elements overwritten behind its back, exactly the exposed elements are undone, non-trivial: some elements exposed and some not", "exploration", {A_NVM}}},
};
eng::RegMode modes[] = {
    {{"C26", "arr", arr_case, 12000, 500000, 200}},
    {{"C26", "expose", expose_case, 30000, 1000000, 200}},
};
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch;
    return eng::driver_main(argc, argv);
}
