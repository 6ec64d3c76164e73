// Properties C23 and C25: persistent vector and segment vector against std::vector.
#include <chrono>
#include <cmath>
#include <cstring>
#include <iostream>
#include <list>
#include <string>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_array.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/container/vector.hpp>
#include <libpmemobj++/container/string.hpp>
#include <libpmemobj++/container/segment_vector.hpp>
#include "pmx_elem.hpp"
using namespace pmx;
namespace
{
constexpr int NSRC = 6;
enum K { PUSH, PUSH_MOVE, EMPLACE_BACK, POP, INSERT, INSERT_MOVE, INSERT_N, INSERT_RANGE, INSERT_LIST, EMPLACE, ERASE, ERASE_RANGE, RESIZE, RESIZE_V, ASSIGN_N, ASSIGN_RANGE, ASSIGN_LIST,
         ASSIGN_COPY, ASSIGN_MOVE, ASSIGN_STD, SWAP, CLEAR, FREE_DATA, RESERVE, SHRINK, WRITE, READ, REMAKE, COMPARE, ITER, BAD, NK };
const char *kname[] = {"push_back", "push_back(move)", "emplace_back", "pop_back", "insert", "insert(move)", "insert(n)", "insert(range)", "insert{}", "emplace", "erase", "erase(range)", "resize", "resize(v)", "assign(n)", "assign(range)", "assign{}",
                       "=", "=move", "=std", "swap", "clear", "free_data", "reserve", "shrink_to_fit", "write", "read", "remake", "compare", "iterators", "bad"};
struct Op { int k; int c; unsigned pos, n; int src; int how; int x; };
// src: 0..5: an element of the source table; 6..: element src-6 of the same container (aliased)
template <class C, class T, bool SEG> struct VecSys
{
    using Op = ::Op;
    using E = El<T>;
    struct Src { T *t; };
    C *c[2];
    T *src;
    static const C &cc(C *x) { return *x; }
    std::vector<const T *> addr[2];
    long base = 0;
    static Op gen(eng::Src &s)
    {
        Op o{};
        o.k = s.weighted({10, 3, 5, 4, 7, 3, 5, 5, 3, 5, 5, 5, 4, 4, 3, 3, 2, 3, 3, 1, 3, 2, 1, 3, 3, 6, 3, 3, 3, 2, 3});
        o.c = s.below(3) == 1;
        o.pos = s.below(4) ? s.below(100) : 99;
        o.n = s.small(12);
        o.src = s.below(10);
        o.how = s.below(o.k == BAD ? 18 : o.k == COMPARE ? 16 : 12);
        o.x = s.below(100);
        return o;
    }
    static std::string name(const Op &o)
    {
        char b[100];
        snprintf(b, sizeof b, "%s[%d](%u,%u,%d,%d,%d)", kname[o.k], o.c, o.pos, o.n, o.src, o.how, o.x);
        return b;
    }
    // derived parameters (the same for model and container); size of the container at the time
    static unsigned at(const Op &o, size_t sz) { return o.pos == 99 ? sz : sz ? o.pos % (sz + 1) : 0; }
    static unsigned idx(const Op &o, size_t sz) { return o.pos == 99 ? sz - 1 : o.pos % sz; }
    static constexpr unsigned LIMIT = 60;
    static bool too_big(const Op &o, const std::vector<std::string> &v) { return v.size() + o.n > LIMIT; }
    void create()
    {
        nv::transaction::run(pop, [&] {
            for (int i = 0; i < 2; ++i) pop.root()->slot[i] = nv::make_persistent<C>().raw();
            pop.root()->slot[2] = nv::persistent_ptr<char>(pmemobj_tx_alloc(sizeof(T) * NSRC, 99));
            T *t = obj<T>(2);
            for (int i = 0; i < NSRC; ++i) E::make(t + i, i);
            pop.root()->slot[3] = nv::persistent_ptr<char>(pmemobj_tx_zalloc(sizeof(C), 98));
        });
    }
    void attach() { refresh(); }
    void refresh()
    {
        for (int i = 0; i < 2; ++i) c[i] = obj<C>(i);
        src = obj<T>(2);
    }
    void settle(bool ok)
    {
        refresh();
        if constexpr (E::tracked)
        {
            long n = NSRC;
            for (int i = 0; i < 2; ++i) n += cc(c[i]).size();
            if (ok && committed_check && Tr::balance - base != n) { long b = Tr::balance - base; base = Tr::balance - n; eng::fail("lifetime", "%ld elements are alive, %ld exist", b, n); }
            base = Tr::balance - n;
            if (!Tr::live) Tr::live = new std::set<const void *>;
            Tr::live->clear();
            for (int i = 0; i < NSRC; ++i) Tr::live->insert(src + i);
            for (int i = 0; i < 2; ++i) for (auto it = c[i]->cbegin(); it != c[i]->cend(); ++it) Tr::live->insert(&*it);
            if (eng::shm->failed) throw eng::Failed();
        }
        committed_check = true;
    }
    bool committed_check = false;
    State read()
    {
        refresh();
        State s(2);
        for (int i = 0; i < 2; ++i)
        {
            const C &x = *c[i];
            size_t n = x.size();
            if (x.empty() != (n == 0)) eng::fail("empty", "empty() is wrong");
            if (x.capacity() < n) eng::fail("capacity", "capacity %zu < size %zu", x.capacity(), n);
            for (size_t j = 0; j < n && j < 1000; ++j) s[i].push_back(E::str(x[j]));
            size_t k = 0;
            for (auto &e : x) { if (k >= n || E::str(e) != s[i][k]) eng::fail("iteration", "iteration and [] disagree at %zu", k); ++k; }
            if (k != n) eng::fail("iteration", "iteration yields %zu elements, size is %zu", k, n);
        }
        return s;
    }
    std::string extra()
    {
        std::string r;
        for (int i = 0; i < 2; ++i)
        {
            const C &x = *c[i];
            r += " capacity " + std::to_string(x.capacity());
            if (x.size()) { char b[30]; snprintf(b, sizeof b, " first at %p", (void *)&x[0]); r += b; }
        }
        return r;
    }
    const T &value(const Op &o) const
    {
        const C &x = *c[o.c];
        if (o.src >= NSRC && x.size()) return x[(o.src - NSRC) * 7 % x.size()];
        return src[o.src % NSRC];
    }
    static std::string mvalue(const Op &o, const std::vector<std::string> &v)
    {
        if (o.src >= NSRC && v.size()) return v[(o.src - NSRC) * 7 % v.size()];
        return msrc(o.src % NSRC);
    }
    static std::string msrc(int i)
    {
        if constexpr (std::is_same_v<T, S>) return El<S>::src(i);
        else if constexpr (std::is_same_v<T, VI>) { std::string r; for (int e : El<VI>::src(i)) r += (char)('a' + e); return r; }
        else return num(El<int>::src(i));
    }
    std::string model(State &s, const Op &o)
    {
        auto &v = s[o.c]; auto &w = s[!o.c];
        size_t sz = v.size();
        bool big = sz + o.n > LIMIT;
        auto two = [&](size_t i) { return std::to_string(i); };
        switch (o.k)
        {
        case PUSH: { auto x = mvalue(o, v); v.push_back(x); return ""; }
        case PUSH_MOVE: if (w.empty()) return "-"; { auto &x = w[o.pos % w.size()]; v.push_back(x); x = E::moved(x); return ""; }
        case EMPLACE_BACK: v.push_back(E::emplaced(o.x, o.src)); return v.back();
        case POP: if (sz) v.pop_back(); return "";
        case INSERT: { auto x = mvalue(o, v); v.insert(v.begin() + at(o, sz), x); return two(at(o, sz)); }
        case INSERT_MOVE: if (w.empty()) return "-"; { auto &x = w[o.x % w.size()]; v.insert(v.begin() + at(o, sz), x); x = E::moved(x); return two(at(o, sz)); }
        case INSERT_N: { if (big) return "-"; auto x = mvalue(o, v); v.insert(v.begin() + at(o, sz), o.n, x); return two(at(o, sz)); }
        case INSERT_RANGE: { if (big || (o.how & 1 && w.size() + sz > LIMIT)) return "-"; size_t p = at(o, sz); if (o.how & 1) { size_t a = w.size() ? o.x % (w.size() + 1) : 0; v.insert(v.begin() + p, w.begin() + a, w.end()); } else { std::vector<std::string> t; for (unsigned i = 0; i < o.n % NSRC; ++i) t.push_back(msrc(i)); v.insert(v.begin() + p, t.begin(), t.end()); } return two(p); }
        case INSERT_LIST: if constexpr (std::is_same_v<T, int>) { v.insert(v.begin() + at(o, sz), {num(o.x), num(o.src), num(3)}); return two(at(o, sz)); } else return "-";
        case EMPLACE: v.insert(v.begin() + at(o, sz), E::emplaced(o.x, o.src)); return two(at(o, sz));
        case ERASE: if (!sz) return "-"; { size_t i = idx(o, sz); v.erase(v.begin() + i); return two(i); }
        case ERASE_RANGE: { size_t i = at(o, sz), j = std::min<size_t>(sz, i + o.n); v.erase(v.begin() + i, v.begin() + j); return two(i); }
        case RESIZE: { size_t n = rsz(o, sz); v.resize(n, E::dflt()); return ""; }
        case RESIZE_V: { size_t n = rsz(o, sz); auto x = mvalue(o, v); v.resize(n, x); return ""; }
        case ASSIGN_N: { auto x = msrc(o.src % NSRC); v.assign(o.n, x); return ""; }
        case ASSIGN_RANGE: { std::vector<std::string> t; if (o.how & 1) t.assign(w.begin() + (w.size() ? o.x % w.size() : 0), w.end()); else for (unsigned i = 0; i < o.n % NSRC; ++i) t.push_back(msrc(i)); v = t; return ""; }
        case ASSIGN_LIST: if constexpr (std::is_same_v<T, int>) { v = {num(o.x), num(o.src), num(3)}; if (o.how & 1) v.pop_back(); return ""; } else return "-";
        case ASSIGN_COPY: if (o.how) v = w; return "";
        case ASSIGN_MOVE: if (o.how) { v = w; w.clear(); } return "";
        case ASSIGN_STD: if constexpr (std::is_same_v<T, int>) { v.clear(); for (unsigned i = 0; i < o.n; ++i) v.push_back(num(o.x + i)); return ""; } else return "-";
        case SWAP: std::swap(v, w); return "";
        case CLEAR: case FREE_DATA: v.clear(); return "";
        case RESERVE: return "";
        case SHRINK: return "";
        case WRITE: if (!sz) return "-"; write_model(v, o); return "";
        case READ: return read_model(v, o);
        case REMAKE: return remake_model(s, o);
        case COMPARE:
        {
            auto u = other_vec<std::string>(v, w, o, [](int i) { return num(i); });
            return o.how < 2 || !std::is_same_v<T, int> ? rel(v, w) + rel(v, v) : rel(v, u) + rel(u, v);
        }
        case ITER: return iter_model(sz, w.size(), o);
        case BAD:
            switch (o.how % 9)
            {
            case 0: case 1: case 2: return "throw out_of_range";
            case 3: case 6: case 7: case 8: return "throw length_error";
            case 4: return "throw pool_error";
            default: return o.x & 4 || sz + o.n > sz ? "throw out_of_range" : "";
            }
        }
        return "?";
    }
    static size_t rsz(const Op &o, size_t sz) { switch (o.how % 4) { case 0: return o.n; case 1: return sz + o.n > LIMIT ? sz : sz + o.n; case 2: return sz > o.n ? sz - o.n : 0; default: return sz; } }
    typename C::const_iterator cit(C &x, size_t i) { return static_cast<const C &>(x).cbegin() + i; }
    size_t dist(C &x, typename C::iterator it) { return it - x.begin(); }
    std::string pos_result(C &x, size_t n0, typename C::iterator it)
    {
        return std::to_string(dist(x, it));
    }
    static void write_model(std::vector<std::string> &v, const Op &o)
    {
        size_t n = v.size(), i = idx(o, n);
        std::string x = msrc(o.src % NSRC);
        switch (o.how)
        {
        case 2: v.front() = x; break;
        case 3: v.back() = x; break;
        case 7: case 8: { size_t k = std::min<size_t>(o.n, n - i); for (size_t j = 0; j < k; ++j) v[i + j] = x; break; }
        case 9: for (auto &e : v) e = x; break;
        case 10: if (!E::owning) { std::reverse(v.begin(), v.end()); break; } v[i] = x; break;
        case 11: if (!E::owning) { std::sort(v.begin(), v.end()); break; } v[i] = x; break;
        default: v[i] = x; break;
        }
    }
    void write(C &x, const Op &o)
    {
        size_t n = cc(&x).size(), i = idx(o, n);
        const T &e = src[o.src % NSRC];
        switch (o.how)
        {
        case 0: x[i] = e; break;
        case 1: x.at(i) = e; break;
        case 2: x.front() = e; break;
        case 3: x.back() = e; break;
        case 4: *(x.begin() + i) = e; break;
        case 5: if constexpr (SEG) *(x.begin() + i) = e; else x.data()[i] = e; break;
        case 6: *(x.rbegin() + (n - 1 - i)) = e; break;
        case 7: { size_t k = std::min<size_t>(o.n, n - i); for (auto &y : x.range(i, k)) y = e; break; }
        case 8:
        {
            size_t k = std::min<size_t>(o.n, n - i);
            if constexpr (SEG) { auto r = x.range(i, k); for (auto it = r.rbegin(); it != r.rend(); ++it) *it = e; }
            else { auto r = x.range(i, k, o.x % 5); if (o.x % 5 == 0) { for (size_t j = 0; j < k; ++j) r[j] = e; } else if (o.x & 1) for (auto it = r.begin(); it != r.end(); it++) *it = e; else { for (auto it = r.end(); it != r.begin();) *--it = e; } }
            break;
        }
        case 9: for (auto &y : x) y = e; break;
        default:
            if constexpr (E::owning) x[i] = e; // persistent elements cannot be swapped through a temporary on the stack
            else if (o.how == 10) std::reverse(x.begin(), x.end());
            else std::sort(x.begin(), x.end());
            break;
        }
    }
    std::string read_model(const std::vector<std::string> &v, const Op &o)
    {
        size_t n = v.size();
        if (!n) return "-";
        size_t i = idx(o, n);
        switch (o.how)
        {
        case 2: case 6: return v.front();
        case 3: case 7: return v.back();
        case 8: return v[n - 1 - i];
        case 9: { std::string r; for (size_t j = i; j < std::min(n, i + o.n); ++j) r += v[j] + ","; return r; }
        default: return v[i];
        }
    }
    std::string read_sut(C &x, const Op &o)
    {
        const C &k = x;
        size_t n = k.size();
        if (!n) return "-";
        size_t i = idx(o, n);
        switch (o.how)
        {
        case 0: return E::str(k[i]);
        case 1: return E::str(k.at(i));
        case 2: return E::str(k.front());
        case 3: return E::str(k.back());
        case 4: return E::str(x.const_at(i));
        case 5: if constexpr (SEG) return E::str(*(x.cbegin() + i)); else return E::str(o.x & 1 ? k.data()[i] : x.cdata()[i]);
        case 6: return E::str(x.cfront());
        case 7: return E::str(x.cback());
        case 8: return E::str(o.x & 1 ? *(k.rbegin() + i) : *(x.crbegin() + i));
        case 9: { std::string r; size_t m = std::min<size_t>(o.n, n - i); if (o.x & 1) { for (auto &e : k.range(i, m)) r += E::str(e) + ","; } else { auto sl = x.crange(i, m); for (size_t j = 0; j < sl.size(); ++j) r += E::str(*(sl.begin() + j)) + ","; } return r; }
        default: return E::str(o.x & 1 ? *(k.begin() + i) : *(x.cbegin() + i));
        }
    }
    // comparison
    template <class A, class B> static std::string rel(const A &a, const B &b)
    {
        return std::string() + (a == b ? "=" : ".") + (a != b ? "!" : ".") + (a < b ? "<" : ".") + (a > b ? ">" : ".") + (a <= b ? "l" : ".") + (a >= b ? "g" : ".") + " ";
    }
    // a vector that is equal to v, nearly equal to v, or w
    template <class X, class F> static std::vector<X> other_vec(const std::vector<X> &v, const std::vector<X> &w, const Op &o, F num)
    {
        std::vector<X> u = v;
        switch (o.how % 6)
        {
        case 0: case 1: return u;
        case 2: return w;
        case 3: if (u.size()) u.pop_back(); return u;
        case 4: u.push_back(num(o.x)); return u;
        default: if (u.size()) u[idx(o, u.size())] = num(o.x); return u;
        }
    }
    template <class I, class J> static std::string irel(I a, J b)
    {
        std::string r = std::string() + (a == b ? "=" : ".") + (a != b ? "!" : ".");
        if constexpr (!std::is_same_v<I, J> && !SEG) return r + std::to_string(a - b);
        else return r + (a < b ? "<" : ".") + (a > b ? ">" : ".") + (a <= b ? "l" : ".") + (a >= b ? "g" : ".") + std::to_string(a - b);
    }
    static std::string iter_model(size_t n, size_t n2, const Op &o)
    {
        int i = at(o, n), j = n ? o.x % (n + 1) : 0;
        if (SEG && o.how == 11 && (o.src & 3)) return "invalid";
        if (o.how == 11) return "";
        std::string r = irel(i, j);
        if (!SEG && (o.how == 8 || o.how == 9)) r = r.substr(0, 2) + std::to_string(i - j); // only these are defined for mixed iterators of a vector
        return r + " " + std::to_string(i) + "," + std::to_string(j);
    }
    std::string iter_sut(C &x, C &y, const Op &o)
    {
        const C &k = x, &ky = y;
        size_t n = k.size();
        int i = at(o, n), j = n ? o.x % (n + 1) : 0;
        auto b = x.begin();
        auto cb = k.begin();
        auto pos = [&](auto p, auto q) { return " " + std::to_string(p - cb) + "," + std::to_string(q - cb); };
        auto walk = [&](auto p, auto q) -> std::string {
            // p moves from i to j and q from j to i, in the ways iterators move
            auto p0 = p, q0 = q;
            switch (o.how % 4)
            {
            case 0: p += j - i; q -= j - i; break;
            case 1: p = p + (j - i); q = q - (j - i); break;
            case 2: while (p != q0) { if (i < j) { auto t = p; if (t != p++) eng::fail("iterator", "it++ does not return the old position"); } else { auto t = p; if (t != p--) eng::fail("iterator", "it-- does not return the old position"); } } while (q != p0) { if (i < j) --q; else ++q; } break;
            default: while (p != q0) { if (i < j) { if (++p - p0 <= 0) eng::fail("iterator", "++it"); } else { if (--p - p0 >= 0) eng::fail("iterator", "--it"); } } while (q != p0) { if (i < j) q--; else q++; } break;
            }
            if (q != p0 || p != q0) eng::fail("iterator", "an iterator moved by %d from %d is not where it should be", j - i, i);
            return pos(q, p);
        };
        switch (o.how)
        {
        case 8: return irel(b + i, cb + j) + pos(b + i, cb + j);
        case 9: return irel(cb + i, b + j) + pos(cb + i, b + j);
        case 10: { auto e = x.end(), ce = x.end(); auto r = irel(x.rbegin() + (n - i), x.rbegin() + (n - j)); (void)ce; if (irel(k.rbegin() + (n - i), x.crbegin() + (n - j)) != r) eng::fail("iterator", "reverse iterators compare differently when constant"); (void)e; return irel((x.rbegin() + (n - i)).base(), (x.rbegin() + (n - j)).base()) + pos((x.rbegin() + (n - i)).base(), (x.rbegin() + (n - j)).base()); }
        case 11:
            if constexpr (SEG)
            {
                if (!(o.src & 3)) { if (x.begin() == y.begin() || !(x.begin() != ky.begin())) eng::fail("iterator", "iterators of different containers are equal"); return ""; }
                auto c1 = [&](auto p, auto q) { switch (o.src & 3) { case 1: return p < q; case 2: return o.x & 4 ? p > q : p <= q; default: return p >= q; } };
                try { if (o.x & 1) c1(b + i, y.begin()); else if (o.x & 2) c1(cb + i, ky.begin()); else c1(b + i, ky.begin()); } catch (std::invalid_argument &) { return "invalid"; }
                return "compared";
            }
            return "";
        default: return irel(b + i, b + j).compare(irel(cb + i, cb + j)) ? "const iterators compare differently" : o.how & 4 ? (walk(b + i, b + j), irel(b + i, b + j)) + walk(cb + i, cb + j) : (walk(cb + i, cb + j), irel(cb + i, cb + j)) + walk(b + i, b + j);
        }
    }
    // every constructor refuses memory outside a pool, and pool memory outside a transaction
    void bad_ctor(const Op &o, C &y, const C &ky)
    {
        alignas(C) static char mem[sizeof(C)];
        bool in_pool = pmemobj_tx_stage() == TX_STAGE_NONE && (o.x & 1);
        void *at = in_pool ? (void *)obj<C>(3) : (void *)mem;
        for (unsigned i = 0; i < 8; ++i)
        {
            int ok = 0; // 1: outside a transaction, 2: outside a pool
            try
            {
                switch (i)
                {
                case 0: new (at) C(); break;
                case 1: new (at) C((size_t)o.pos % 5, src[o.src % NSRC]); break;
                case 2: new (at) C((size_t)o.pos % 5); break;
                case 3: new (at) C(ky); break;
                case 4: new (at) C(std::move(y)); break;
                case 5: new (at) C(src + 0, src + o.src % NSRC); break;
                case 6: if constexpr (std::is_same_v<T, int>) new (at) C(std::initializer_list<int>{o.x, 7}); else new (at) C(); break;
                default: if constexpr (std::is_same_v<T, int>) { std::vector<int> t(o.pos % 5, 3); new (at) C(t); } else new (at) C(); break;
                }
            }
            catch (pmem::transaction_scope_error &) { ok = 1; }
            catch (pmem::pool_error &) { ok = 2; }
            if (ok != (in_pool ? 1 : 2)) eng::fail("exception", "constructor %u in %s: %s", i, in_pool ? "pool memory outside a transaction" : "memory outside of pools", ok == 1 ? "transaction_scope_error" : ok == 2 ? "pool_error" : "no exception");
        }
        throw pmem::pool_error("as expected");
    }
    static std::string remake_model(State &s, const Op &o)
    {
        auto &v = s[o.c]; auto &w = s[!o.c];
        switch (o.how % 8)
        {
        case 0: v.clear(); break;
        case 1: v.assign(o.n, msrc(o.src % NSRC)); break;
        case 2: v.assign(o.n, E::dflt()); break;
        case 3: v = w; break;
        case 4: v = w; w.clear(); break;
        case 5: v.clear(); for (unsigned i = 0; i < o.n % NSRC; ++i) v.push_back(msrc(i)); break;
        case 6: if constexpr (std::is_same_v<T, int>) v = {num(o.x), num(7)}; else v.clear(); break;
        default: if constexpr (std::is_same_v<T, int>) { v.clear(); for (unsigned i = 0; i < o.n; ++i) v.push_back(num(o.x + i)); } else v.clear(); break;
        }
        return "";
    }
    void remake(const Op &o)
    {
        nv::transaction::run(pop, [&] {
            auto &slot = pop.root()->slot[o.c];
            C &w = *c[!o.c];
            nv::delete_persistent<C>(nv::persistent_ptr<C>(slot.raw()));
            nv::persistent_ptr<C> p;
            switch (o.how % 8)
            {
            case 0: p = nv::make_persistent<C>(); break;
            case 1: p = nv::make_persistent<C>((size_t)o.n, src[o.src % NSRC]); break;
            case 2: p = nv::make_persistent<C>((size_t)o.n); break;
            case 3: p = nv::make_persistent<C>(static_cast<const C &>(w)); break;
            case 4: p = nv::make_persistent<C>(std::move(w)); break;
            case 5: p = nv::make_persistent<C>(src + 0, src + o.n % NSRC); break;
            case 6: if constexpr (std::is_same_v<T, int>) p = nv::make_persistent<C>(std::initializer_list<int>{o.x, 7}); else p = nv::make_persistent<C>(); break;
            default: if constexpr (std::is_same_v<T, int>) { std::vector<int> t; for (unsigned i = 0; i < o.n; ++i) t.push_back(o.x + i); p = nv::make_persistent<C>(t); } else p = nv::make_persistent<C>(); break;
            }
            slot = p.raw();
        });
        refresh();
    }
    std::string apply(const Op &o)
    {
        C &x = *c[o.c], &y = *c[!o.c];
        const C &k = x, &ky = y;
        size_t sz = k.size();
        bool big = sz + o.n > LIMIT;
        std::vector<const T *> before;
        size_t cap = k.capacity();
        const T *data = nullptr;
        if constexpr (!SEG) data = k.cdata();
        bool grows = SEG && (o.k == PUSH || o.k == PUSH_MOVE || o.k == EMPLACE_BACK || o.k == RESERVE || (o.k == RESIZE && rsz(o, sz) >= sz) || (o.k == RESIZE_V && rsz(o, sz) >= sz));
        if (grows) for (size_t i = 0; i < sz; ++i) before.push_back(&k[i]);
        std::string r = apply1(o, x, y, k, ky, sz, big);
        if constexpr (!SEG)
        {
            bool stays = o.k <= RESIZE_V || o.k == CLEAR || o.k == RESERVE;
            if (stays && k.size() <= cap && (o.k != RESERVE || o.n * 5 <= cap) && (k.cdata() != data || k.capacity() != cap))
                eng::fail("stable", "%s: size %zu, capacity %zu: storage was replaced (capacity now %zu)", name(o).c_str(), sz, cap, k.capacity());
        }
        if (grows) for (size_t i = 0; i < sz; ++i) if (&k[i] != before[i]) eng::fail("stable", "%s: element %zu has moved", name(o).c_str(), i);
        return r;
    }
    std::string apply1(const Op &o, C &x, C &y, const C &k, const C &ky, size_t sz, bool big)
    {
        switch (o.k)
        {
        case PUSH: x.push_back(value(o)); return "";
        case PUSH_MOVE: { if (!ky.size()) return "-"; std::string r; nv::transaction::run(pop, [&] { x.push_back(std::move(y[o.pos % ky.size()])); }); return ""; }
        case EMPLACE_BACK: { std::string r; E::emplace(o.x, o.src, [&](auto... a) { r = E::str(x.emplace_back(a...)); }); return r; }
        case POP: x.pop_back(); return "";
        case INSERT: return pos_result(x, sz, x.insert(cit(x, at(o, sz)), value(o)));
        case INSERT_MOVE: { if (!ky.size()) return "-"; std::string r; nv::transaction::run(pop, [&] { r = pos_result(x, sz, x.insert(cit(x, at(o, sz)), std::move(y[o.x % ky.size()]))); }); return r; }
        case INSERT_N: if (big) return "-"; return pos_result(x, sz, x.insert(cit(x, at(o, sz)), (size_t)o.n, value(o)));
        case INSERT_RANGE:
        {
            if (big || (o.how & 1 && ky.size() + sz > LIMIT)) return "-";
            auto p = cit(x, at(o, sz));
            if (o.how & 1) { size_t a = ky.size() ? o.x % (ky.size() + 1) : 0; return pos_result(x, sz, x.insert(p, ky.cbegin() + a, ky.cend())); }
            return pos_result(x, sz, x.insert(p, src + 0, src + o.n % NSRC));
        }
        case INSERT_LIST: if constexpr (std::is_same_v<T, int>) return pos_result(x, sz, x.insert(cit(x, at(o, sz)), {o.x, o.src, 3})); else return "-";
        case EMPLACE: { std::string r; E::emplace(o.x, o.src, [&](auto... a) { r = pos_result(x, sz, x.emplace(cit(x, at(o, sz)), a...)); }); return r; }
        case ERASE: if (!sz) return "-"; return pos_result(x, sz, x.erase(cit(x, idx(o, sz))));
        case ERASE_RANGE: { size_t i = at(o, sz), j = std::min<size_t>(sz, i + o.n); return pos_result(x, sz, x.erase(cit(x, i), cit(x, j))); }
        case RESIZE: x.resize(rsz(o, sz)); return "";
        case RESIZE_V: x.resize(rsz(o, sz), value(o)); return "";
        case ASSIGN_N: x.assign((size_t)o.n, src[o.src % NSRC]); return "";
        case ASSIGN_RANGE: if (o.how & 1) x.assign(ky.cbegin() + (ky.size() ? o.x % ky.size() : 0), ky.cend()); else x.assign(src + 0, src + o.n % NSRC); return "";
        case ASSIGN_LIST: if constexpr (std::is_same_v<T, int>) { if (o.how & 1) x = {o.x, o.src}; else x.assign({o.x, o.src, 3}); return ""; } else return "-";
        case ASSIGN_COPY: { const C &from = o.how ? ky : k; if (o.how & 1) x.assign(from); else x = from; return ""; }
        case ASSIGN_MOVE: { C &from = o.how ? y : x; if (o.how & 1) x.assign(std::move(from)); else x = std::move(from); return ""; }
        case ASSIGN_STD: if constexpr (std::is_same_v<T, int>) { std::vector<int> t; for (unsigned i = 0; i < o.n; ++i) t.push_back(o.x + i); if (o.how & 1) x = t; else x.assign(t); return ""; } else return "-";
        case SWAP: if (o.how & 1) x.swap(y); else { using std::swap; swap(x, y); } return "";
        case CLEAR: x.clear(); return "";
        case FREE_DATA: x.free_data(); return "";
        case RESERVE: { size_t cap = k.capacity(), n = o.n * 5; x.reserve(n); if (k.capacity() < std::max(n, cap)) eng::fail("capacity", "reserve(%zu) of capacity %zu: now %zu", n, cap, k.capacity()); return ""; }
        case SHRINK: { size_t cap = k.capacity(); x.shrink_to_fit(); if (k.capacity() > cap || (!SEG && k.capacity() != sz)) eng::fail("capacity", "shrink_to_fit of capacity %zu, size %zu: now %zu", cap, sz, k.capacity()); return ""; }
        case WRITE: if (!sz) return "-"; nv::transaction::run(pop, [&] { write(x, o); }); return "";
        case READ: return read_sut(x, o);
        case REMAKE: remake(o); return "";
        case COMPARE:
            if constexpr (std::is_same_v<T, int>)
                if (o.how >= 2)
                {
                    std::vector<int> a(k.begin(), k.end()), b(ky.begin(), ky.end()), u = other_vec<int>(a, b, o, [](int i) { return i; });
                    return rel(k, u) + rel(u, k);
                }
            return rel(k, ky) + rel(k, k);
        case ITER: return iter_sut(x, y, o);
        case BAD:
            switch (o.how % 9)
            {
            case 0: (void)x.at(sz + o.n); return "";
            case 1: (void)k.at(sz + o.n); return "";
            case 2: (void)x.const_at(sz + o.n); return "";
            case 3: x.reserve(k.max_size() + 1 + o.n); return "";
            case 4: bad_ctor(o, y, ky); return "";
            case 6: x.insert(k.cbegin() + o.pos % (sz + 1), ~(size_t)0 - o.n % 8, value(o)); return "";
            case 7: if (o.x & 1) x.resize(~(size_t)0 - o.n % 8); else x.resize(~(size_t)0 / 2 + o.n, value(o)); return "";
            case 8: x.assign(~(size_t)0 - o.n % 8, value(o)); return "";
            default:
                if (o.x & 4)
                {
                    size_t i = o.pos % (sz + 1), n = i ? ~(size_t)0 - i + 1 + o.n % i : ~(size_t)0 - o.n;
                    (void)(o.x & 1 ? x.range(i, n).size() : o.x & 2 ? k.range(i, n).size() : x.crange(i, n).size());
                    return "";
                }
                (void)(o.x & 1 ? x.range(o.pos % (sz + 1), sz + o.n - o.pos % (sz + 1)).size() : k.range(o.pos % (sz + 1), sz + o.n - o.pos % (sz + 1)).size()); return "";
            }
        }
        return "?";
    }
    void finish()
    {
        // nothing may remain
        nv::transaction::run(pop, [&] {
            for (int i = 0; i < 2; ++i) nv::delete_persistent<C>(nv::persistent_ptr<C>(pop.root()->slot[i].raw()));
            for (int i = 0; i < NSRC; ++i) pmem::detail::destroy<T>(src[i]);
            pmemobj_tx_free(pop.root()->slot[2].raw());
            pmemobj_tx_free(pop.root()->slot[3].raw());
        });
        if constexpr (E::tracked) if (Tr::balance - base != 0) eng::fail("lifetime", "%ld elements are never destroyed", Tr::balance - base);
        if (unsigned n = live_objects()) eng::fail("leak", "%u objects remain allocated after everything was destroyed", n);
    }
};
template <class C, class T, bool SEG> void go(eng::Src &s)
{
    Plan p;
    p.throwing = El<T>::throwing;
    run_case<VecSys<C, T, SEG>>(s, p);
}
void vec_case(eng::Src &s)
{
    unsigned t = s.below(5) % 4;
    static const char *tn[] = {"int", "tracked", "string", "vector<int>"};
    eng::desc("vector<%s>:", tn[t]);
    switch (t)
    {
    case 0: go<nv::vector<int>, int, false>(s); break;
    case 1: go<nv::vector<Tr>, Tr, false>(s); break;
    case 2: go<nv::vector<S>, S, false>(s); break;
    default: go<nv::vector<VI>, VI, false>(s); break;
    }
}
template <class T> using SegX = nv::segment_vector<T, nv::exponential_size_vector_policy<>>;
template <class T> using SegA = nv::segment_vector<T, nv::exponential_size_array_policy<>>;
template <class T> using SegF = nv::segment_vector<T, nv::fixed_size_vector_policy<4>>;
void seg_case(eng::Src &s)
{
    unsigned p = s.below(3), t = s.below(3);
    static const char *pn[] = {"exponential", "exponential array", "fixed 4"}, *tn[] = {"int", "tracked", "string"};
    eng::desc("segment_vector<%s, %s>:", tn[t], pn[p]);
    switch (p * 3 + t)
    {
    case 0: go<SegX<int>, int, true>(s); break;
    case 1: go<SegX<Tr>, Tr, true>(s); break;
    case 2: go<SegX<S>, S, true>(s); break;
    case 3: go<SegA<int>, int, true>(s); break;
    case 4: go<SegA<Tr>, Tr, true>(s); break;
    case 5: go<SegA<S>, S, true>(s); break;
    case 6: go<SegF<int>, int, true>(s); break;
    case 7: go<SegF<Tr>, Tr, true>(s); break;
    default: go<SegF<S>, S, true>(s); break;
    }
}
const char *A_NVM = "power-failure model: 64-byte lines, durable once flushed and drained; unflushed lines are kept or lost line by line; libpmemobj itself (the system library) is run, not modelled";
eng::RegProp props[] = {
    {{"C23", "random sequences of all operations on two vectors of ints, lifetime-tracking throwing elements, persistent strings or vectors, each alone or in a transaction that commits or aborts, with allocation failures, throwing elements and power failures, up to three sessions; results, contents and exceptions against std::vector, full rollback (contents, capacity, storage), element lifetimes, leaks; non-trivial: at least three operations", "exploration", {A_NVM}}},
    {{"C25", "the same for segment vectors with the three growth policies, plus unmoved elements when growing; non-trivial: at least three operations", "exploration", {A_NVM}}},
};
eng::RegMode modes[] = {
    {{"C23", "vec", vec_case, 20000, 1000000, 200}},
    {{"C25", "seg", seg_case, 16000, 1000000, 200}},
};
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch;
    return eng::driver_main(argc, argv);
}
