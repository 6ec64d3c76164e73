// Property C24: the persistent string against std::string.
#include <algorithm>
#include <cstring>
#include <iostream>
#include <string>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_array.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/container/string.hpp>
#include "pmx.hpp"
using namespace pmx;
namespace
{
enum K { APPEND, ASSIGN, INSERT, ERASE, REPLACE, RESIZE, PUSH, POP, CLEAR, RESERVE, SHRINK, WRITE, READ, FIND, COMPARE, REMAKE, MOVE, COPY, PLUS, REL, BAD, NK };
const char *kname[] = {"append", "assign", "insert", "erase", "replace", "resize", "push_back", "pop_back", "clear", "reserve", "shrink_to_fit", "write", "read", "find", "compare", "remake", "move", "copy", "+=", "relation", "bad"};
struct Op { int k, c, how; unsigned pos, n, pos2, n2; int lit, ch; bool self; };
constexpr unsigned LIMIT = 200;
template <class Ch> constexpr Ch chars[] = {'a', 'b', 'c', 0, (Ch)(sizeof(Ch) == 1 ? 0xe9 : 0x4e9)};
template <class Ch> std::basic_string<Ch> lit(int i)
{
    using Z = std::basic_string<Ch>;
    Z z;
    switch (i % 10)
    {
    case 0: return z;
    case 1: return Z(1, 'a');
    case 2: return Z(1, 'b') + Z(1, 'a');
    case 3: for (int j = 0; j < 5; ++j) z += (Ch)("ab"[j & 1]); return z;
    case 4: for (int j = 0; j < 23; ++j) z += (Ch)('a' + j % 3); return z;
    case 5: for (int j = 0; j < 24; ++j) z += (Ch)('a' + j % 5 / 2); return z;
    case 6: return Z(1, 'b') + Z(1, 0);
    case 7: return Z(1, 'a') + chars<Ch>[4] + Z(1, 'a');
    case 8: for (int j = 0; j < 40; ++j) z += (Ch)('a' + (j * j) % 3); return z;
    default: return Z(3, 'c');
    }
}
template <class Z> std::string enc(const Z &z) { std::string o; for (auto c : z) o += c == (typename Z::value_type)0x4e9 ? '\xe9' : (char)c; return o; }
template <class Ch> std::basic_string<Ch> dec(const std::string &s)
{
    std::basic_string<Ch> z;
    for (char c : s) z += c == '\xe9' ? chars<Ch>[4] : (Ch)c;
    return z;
}
std::string I(size_t x) { return x == std::string::npos ? "npos" : std::to_string(x); }
std::string sign(int x) { return x < 0 ? "<" : x ? ">" : "="; }
template <class Ch> struct StrSys
{
    using Op = ::Op;
    using S = nv::basic_string<Ch>;
    using Z = std::basic_string<Ch>;
    S *c[2];
    static Op gen(eng::Src &s)
    {
        Op o{};
        o.k = s.weighted({9, 6, 10, 8, 12, 5, 4, 2, 1, 3, 4, 6, 4, 14, 7, 3, 3, 2, 4, 3, 2});
        o.c = s.below(3) == 1;
        o.how = s.below(24);
        auto pos = [&]() -> unsigned { switch (s.below(4)) { case 0: return s.below(16) ? 999 : 41 + s.below(2); case 1: return 0; default: return s.below(100); } };
        auto num = [&]() -> unsigned { switch (s.below(5)) { case 0: case 1: return s.below(5); case 2: return 20 + s.below(8); case 3: return 4 + s.below(4); default: return s.small(60); } };
        o.pos = pos(); o.pos2 = pos();
        o.n = num(); o.n2 = num();
        o.lit = s.below(10);
        o.ch = s.weighted({5, 5, 3, 1, 1});
        o.self = s.chance(1, 4);
        return o;
    }
    static std::string name(const Op &o)
    {
        char b[120];
        snprintf(b, sizeof b, "%s/%d[%d](%u,%u,%u,%u, \"%s\", %d%s)", kname[o.k], o.how, o.c, o.pos, o.n, o.pos2, o.n2, quote(enc(lit<char>(o.lit))).c_str(), o.ch, o.self ? ", self" : "");
        return b;
    }
    void create()
    {
        nv::transaction::run(pop, [&] { for (int i = 0; i < 2; ++i) pop.root()->slot[i] = nv::make_persistent<S>().raw(); });
    }
    void attach() { refresh(); }
    void refresh() { for (int i = 0; i < 2; ++i) c[i] = obj<S>(i); }
    void settle(bool) { refresh(); }
    State read()
    {
        refresh();
        State s(2);
        for (int i = 0; i < 2; ++i)
        {
            const S &x = *c[i];
            size_t n = x.size();
            if (n > 100000) eng::fail("size", "size is %zu", n);
            if (x.length() != n || x.empty() != (n == 0)) eng::fail("size", "size %zu, length %zu, empty %d", n, x.length(), x.empty());
            if (x.capacity() < n || x.capacity() > x.max_size()) eng::fail("capacity", "capacity %zu, size %zu", x.capacity(), n);
            if (!x.c_str() || x.c_str()[n] != 0) eng::fail("terminator", "no terminating null after %zu characters", n);
            if (x.c_str() != x.data() || x.cdata() != x.data()) eng::fail("data", "data, cdata and c_str disagree");
            Z z(x.cdata(), n);
            if (Z(x.begin(), x.end()) != z || Z(x.cbegin(), x.cend()) != z) eng::fail("iteration", "iteration differs from data()");
            if (Z(x.rbegin(), x.rend()) != Z(z.rbegin(), z.rend()) || Z(x.crbegin(), x.crend()) != Z(z.rbegin(), z.rend())) eng::fail("iteration", "reverse iteration differs from data()");
            s[i].push_back(enc(z));
        }
        return s;
    }
    std::string extra()
    {
        std::string r;
        for (int i = 0; i < 2; ++i) { const S &x = *c[i]; char b[60]; snprintf(b, sizeof b, " capacity %zu at %p", x.capacity(), (const void *)x.c_str()); r += b; }
        return r;
    }
    template <class X> static constexpr bool sut = std::is_same_v<X, S>;
    template <class X, class F> static void tx(F f)
    {
        if constexpr (sut<X>) nv::transaction::run(pop, f);
        else f();
    }
    // the same code drives both strings
    template <class X> static std::string exec(X &x, X &y, const Op &o, void (*remade)(X *, const Op &))
    {
        const X &k = x;
        const X &w = o.self ? x : y; // a string argument
        size_t sz = k.size(), wsz = w.size();
        // positions: within the string, or just beyond it for some (only where that is defined to throw)
        auto in = [](unsigned p, size_t n) -> size_t { return p == 999 ? n : p % (n + 1); };
        auto idx = [&](unsigned p, size_t n) -> size_t { return p == 999 ? n : p == 42 ? n + 1 + o.n : p % (n + 1); };
        size_t p = in(o.pos, sz), q = in(o.pos2, wsz), e = std::min(sz, p + o.n), qe = std::min(wsz, q + o.n2);
        size_t P = idx(o.pos, sz), Q = idx(o.pos2, wsz);
        // some counts make the new size exceed the largest index
        size_t HN = o.pos2 == 41 ? ~(size_t)0 - o.n % 8 : o.n, HN2 = o.pos2 == 41 ? ~(size_t)0 - o.n2 % 8 : o.n2;
        size_t N = o.n == 26 ? X::npos : o.n, N2 = o.n2 == 26 ? X::npos : o.n2;
        Z l = lit<Ch>(o.lit);
        Ch ch = chars<Ch>[o.ch];
        const Ch *L = l.c_str();
        size_t ln = l.size(), lk = ln ? o.n2 % (ln + 1) : 0;
        bool big = sz + std::max<size_t>(o.n, std::max<size_t>(wsz, ln)) > LIMIT;
        std::string out;
        auto self = [&](const X &r) { if (&r != &x) out = "not itself"; };
        auto it = [&](auto i) { out = I(i - x.begin()); };
        switch (o.k)
        {
        case APPEND:
            if (big) return "-";
            switch (o.how % 8)
            {
            case 0: self(x.append(HN, ch)); break;
            case 1: self(x.append(w)); break;
            case 2: self(x.append(w, Q, N2)); break;
            case 3: self(x.append(w, Q)); break;
            case 4: self(x.append(L, lk)); break;
            case 5: self(x.append(L)); break;
            case 6: self(x.append(w.cbegin() + q, w.cbegin() + qe)); break;
            default: self(x.append({ch, 'x', ch})); break;
            }
            return out;
        case ASSIGN:
            switch (o.how % 16)
            {
            case 0: self(x.assign(HN, ch)); break;
            case 1: self(x.assign(w)); break;
            case 2: self(x.assign(l)); break;
            case 3: self(x.assign(y, idx(o.pos2, y.size()), N2)); break;
            case 4: self(x.assign(y, idx(o.pos2, y.size()))); break;
            case 5: self(x.assign(l, idx(o.pos2, ln), N2)); break;
            case 6: self(x.assign(L, lk)); break;
            case 7: self(x.assign(L)); break;
            case 8: self(x.assign(l.begin(), l.end())); break;
            case 9: self(x.assign({ch, 'y', ch})); break;
            case 10: self(x = w); break;
            case 11: self(x = l); break;
            case 12: self(x = L); break;
            case 13: self(x = ch); break;
            case 14: self(x = {ch, 'z'}); break;
            default: self(x.assign(y.cbegin() + in(o.pos2, y.size()), y.cend())); break;
            }
            return out;
        case INSERT:
            if (big) return "-";
            switch (o.how % 11)
            {
            case 0: self(x.insert(P, HN, ch)); break;
            case 1: self(x.insert(P, L)); break;
            case 2: self(x.insert(P, L, lk)); break;
            case 3: self(x.insert(P, w)); break;
            case 4: self(x.insert(P, w, Q, N2)); break;
            case 5: self(x.insert(P, w, Q)); break;
            case 6: it(x.insert(k.cbegin() + p, ch)); break;
            case 7: it(x.insert(k.cbegin() + p, HN, ch)); break;
            case 8: it(x.insert(k.cbegin() + p, w.cbegin() + q, w.cbegin() + qe)); break;
            case 9: it(x.insert(k.cbegin() + p, {ch, 'x', ch, ch})); break;
            default: it(x.insert(k.cbegin() + p, l.begin(), l.end())); break;
            }
            return out;
        case ERASE:
            switch (o.how % 6)
            {
            case 0: self(x.erase(P, N)); break;
            case 1: self(x.erase(P)); break;
            case 2: if (p == sz) return "-"; it(x.erase(k.cbegin() + p)); break;
            case 3: it(x.erase(k.cbegin() + p, k.cbegin() + e)); break;
            case 4: self(x.erase()); break;
            default: self(x.erase(p, 1)); break;
            }
            return out;
        case REPLACE:
            if (big) return "-";
            switch (o.how % 12)
            {
            case 0: self(x.replace(P, N, w)); break;
            case 1: self(x.replace(k.cbegin() + p, k.cbegin() + e, w)); break;
            case 2: self(x.replace(P, N, w, Q, N2)); break;
            case 3: self(x.replace(P, N, w, Q)); break;
            case 4: self(x.replace(k.cbegin() + p, k.cbegin() + e, w.cbegin() + q, w.cbegin() + qe)); break;
            case 5: self(x.replace(k.cbegin() + p, k.cbegin() + e, L, lk)); break;
            case 6: self(x.replace(k.cbegin() + p, k.cbegin() + e, L)); break;
            case 7: self(x.replace(P, N, HN2, ch)); break;
            case 8: self(x.replace(k.cbegin() + p, k.cbegin() + e, HN2, ch)); break;
            case 9: self(x.replace(P, N, L, lk)); break;
            case 10: self(x.replace(P, N, L)); break;
            default: self(x.replace(k.cbegin() + p, k.cbegin() + e, {ch, 'r', ch})); break;
            }
            return out;
        case RESIZE: { size_t n = o.pos2 == 41 ? HN : o.pos == 42 ? k.max_size() + 1 : o.pos & 1 ? sz - std::min<size_t>(sz, o.n) : o.n; if (o.how & 1) x.resize(n, ch); else x.resize(n); return ""; }
        case PUSH: if (big) return "-"; x.push_back(ch); return "";
        case POP: if (sz) x.pop_back(); return "";
        case CLEAR: x.clear(); return "";
        case RESERVE:
        {
            size_t cap = k.capacity(), n = o.pos == 42 ? x.max_size() + 1 : o.n * (1 + o.how % 3);
            if constexpr (sut<X>) { x.reserve(n); if (k.capacity() < std::max(n, cap)) eng::fail("capacity", "reserve(%zu) of capacity %zu: now %zu", n, cap, k.capacity()); }
            else if (n > x.max_size()) x.reserve(n);
            return "";
        }
        case SHRINK:
            if constexpr (sut<X>) { size_t cap = k.capacity(); x.shrink_to_fit(); if (k.capacity() > cap) eng::fail("capacity", "shrink_to_fit of capacity %zu: now %zu", cap, k.capacity()); }
            return "";
        case WRITE:
        {
            if (!sz) return "-";
            size_t i = o.pos % sz;
            tx<X>([&] {
                switch (o.how % 9)
                {
                case 0: x[i] = ch; break;
                case 1: x.at(i) = ch; break;
                case 2: x.front() = ch; break;
                case 3: x.back() = ch; break;
                case 4: *(x.begin() + i) = ch; break;
                case 5: x.data()[i] = ch; break;
                case 6: *(x.rbegin() + i) = ch; break;
                case 7: for (auto &a : x) a = ch; break;
                default: std::reverse(x.begin() + i, x.end()); break;
                }
            });
            return "";
        }
        case READ:
        {
            if (o.how == 0) { (void)(o.n & 1 ? x.at(P) : k.at(P)); return "ok"; }
            if (!sz) return "-";
            size_t i = o.pos % sz;
            Ch r;
            switch (o.how % 8)
            {
            case 0: r = k[i]; break;
            case 1: r = k.at(i); break;
            case 2: r = k.front(); break;
            case 3: r = k.back(); break;
            case 4: r = x[i]; break;
            case 5: r = x.data()[i]; break;
            case 6: if constexpr (sut<X>) r = x.const_at(i); else r = x.at(i); break;
            default: if constexpr (sut<X>) r = o.n & 1 ? x.cfront() : x.cback(); else r = o.n & 1 ? x.front() : x.back(); break;
            }
            return enc(Z(1, r));
        }
        case FIND:
        {
            size_t f = o.pos == 999 ? (o.n & 1 ? X::npos : sz) : o.pos % (sz + 3);
            auto fam = [&](auto find) -> size_t {
                switch (o.how / 6)
                {
                case 0: return find(w, f);
                case 1: return find(L, f, lk);
                case 2: return find(L, f);
                default: return find(ch, f);
                }
            };
            auto dfl = [&](auto find) -> size_t { switch (o.how / 6) { case 0: return find(w); case 1: case 2: return find(L); default: return find(ch); } };
            if (o.n == 0)
                switch (o.how % 6)
                {
                case 0: return I(dfl([&](auto &&a) { return k.find(a); }));
                case 1: return I(dfl([&](auto &&a) { return k.rfind(a); }));
                case 2: return I(dfl([&](auto &&a) { return k.find_first_of(a); }));
                case 3: return I(dfl([&](auto &&a) { return k.find_first_not_of(a); }));
                case 4: return I(dfl([&](auto &&a) { return k.find_last_of(a); }));
                default: return I(dfl([&](auto &&a) { return k.find_last_not_of(a); }));
                }
            switch (o.how % 6)
            {
            case 0: return I(fam([&](auto &&...a) { return k.find(a...); }));
            case 1: return I(fam([&](auto &&...a) { return k.rfind(a...); }));
            case 2: return I(fam([&](auto &&...a) { return k.find_first_of(a...); }));
            case 3: return I(fam([&](auto &&...a) { return k.find_first_not_of(a...); }));
            case 4: return I(fam([&](auto &&...a) { return k.find_last_of(a...); }));
            default: return I(fam([&](auto &&...a) { return k.find_last_not_of(a...); }));
            }
        }
        case COMPARE:
            switch (o.how % 9)
            {
            case 0: return sign(k.compare(w));
            case 1: return sign(k.compare(l));
            case 2: return sign(k.compare(P, N, w));
            case 3: return sign(k.compare(P, N, l));
            case 4: return sign(k.compare(P, N, w, Q, N2));
            case 5: return sign(k.compare(P, N, l, idx(o.pos2, ln), N2));
            case 6: return sign(k.compare(L));
            case 7: return sign(k.compare(P, N, L));
            default: return sign(k.compare(P, N, L, lk));
            }
        case REMAKE: remade(&x, o); return "";
        case MOVE:
            if (!sut<X> && o.self) return "";
            if (o.how & 1) self(x.assign(std::move(o.self ? x : y))); else self(x = std::move(o.self ? x : y));
            if constexpr (!sut<X>) if (!o.self) y.clear(); // a moved-from string is empty
            return out;
        case COPY: { Ch b[300]; size_t n = o.how & 1 ? k.copy(b, N, P) : k.copy(b, N); return I(n) + enc(Z(b, n)); }
        case PLUS:
            if (big) return "-";
            switch (o.how % 4)
            {
            case 0: self(x += w); break;
            case 1: self(x += L); break;
            case 2: self(x += ch); break;
            default: self(x += {ch, 'p'}); break;
            }
            return out;
        case REL:
        {
            auto rel = [&](auto &&a, auto &&b) { out = std::string() + (a == b ? "=" : "!") + (a != b ? "n" : ".") + (a < b ? "<" : ".") + (a <= b ? "l" : ".") + (a > b ? ">" : ".") + (a >= b ? "g" : "."); };
            switch (o.how % 5)
            {
            case 0: rel(k, w); break;
            case 1: rel(k, L); break;
            case 2: rel(L, k); break;
            case 3: rel(k, l); break;
            default: rel(l, k); break;
            }
            return out;
        }
        }
        return "?";
    }
    static void make_model(Z *x, const Op &o) { make<Z>(*x, nullptr, o); }
    static inline StrSys *me;
    static void make_sut(S *x, const Op &o) { make<S>(*x, me, o); }
    template <class X> static void make(X &x, StrSys *sys, const Op &o)
    {
        Z l = lit<Ch>(o.lit);
        Ch ch = chars<Ch>[o.ch];
        size_t ln = l.size(), lk = ln ? o.n2 % (ln + 1) : 0;
        X *other = nullptr;
        if constexpr (sut<X>) other = sys->c[!o.c]; else other = model_other;
        auto with = [&](auto build) {
            if constexpr (sut<X>)
                nv::transaction::run(pop, [&] {
                    auto &slot = pop.root()->slot[o.c];
                    nv::delete_persistent<X>(nv::persistent_ptr<X>(slot.raw()));
                    slot = build([](auto &&...a) { return nv::make_persistent<X>(std::forward<decltype(a)>(a)...); }).raw();
                });
            else x = build([](auto &&...a) { return X(std::forward<decltype(a)>(a)...); });
        };
        size_t Q = o.pos2 == 999 ? ln : o.pos2 == 42 ? ln + 3 : o.pos2 % (ln + 1), osz = other->size(), OQ = o.pos2 == 999 ? osz : o.pos2 == 42 ? osz + 3 : o.pos2 % (osz + 1);
        size_t N2 = o.n2 == 26 ? X::npos : o.n2;
        switch (o.how % 10)
        {
        case 0: with([&](auto m) { return m(); }); break;
        case 1: with([&](auto m) { return m((size_t)o.n, ch); }); break;
        case 2: with([&](auto m) { return m(*(const X *)other, OQ, N2); }); break;
        case 3: with([&](auto m) { return m(l, Q, N2); }); break;
        case 4: with([&](auto m) { return m(l.c_str(), lk); }); break;
        case 5: with([&](auto m) { return m(l.c_str()); }); break;
        case 6: with([&](auto m) { return m(l.begin(), l.end()); }); break;
        case 7: with([&](auto m) { return m(*(const X *)other); }); break;
        case 8: with([&](auto m) { return m(l); }); break;
        default: with([&](auto m) { return m(std::move(*other)); }); if constexpr (!sut<X>) other->clear(); break;
        }
        if constexpr (sut<X>) sys->refresh();
    }
    static inline Z *model_other;
    std::string model(State &s, const Op &o)
    {
        Z x = dec<Ch>(s[o.c][0]), y = dec<Ch>(s[!o.c][0]);
        model_other = &y;
        std::string r;
        if (o.k == BAD) return o.how & 1 ? "throw pool_error" : "";
        try { r = exec<Z>(x, y, o, make_model); }
        catch (...) { return what_thrown(); }
        s[o.c][0] = enc(x); s[!o.c][0] = enc(y);
        return r;
    }
    std::string apply(const Op &o)
    {
        me = this;
        if (o.k == BAD)
        {
            if (o.how & 1) { alignas(S) static char mem[sizeof(S)]; if (o.how & 2) new (mem) S(); else new (mem) S((size_t)o.n, (Ch)'a'); return ""; }
            if (pmemobj_tx_stage() == TX_STAGE_WORK) return "";
            try { if (o.how & 2) new (pop.root()->slot + 4) S(); else new (pop.root()->slot + 4) S(*(const S *)c[0]); }
            catch (pmem::transaction_scope_error &) { return ""; }
            return "no exception";
        }
        return exec<S>(*c[o.c], *c[!o.c], o, make_sut);
    }
    void finish()
    {
        nv::transaction::run(pop, [&] {
            for (int i = 0; i < 2; ++i) nv::delete_persistent<S>(nv::persistent_ptr<S>(pop.root()->slot[i].raw()));
        });
        if (unsigned n = live_objects()) eng::fail("leak", "%u objects remain allocated after everything was destroyed", n);
    }
};
void str_case(eng::Src &s)
{
    Plan p;
    bool wide = s.chance(1, 3);
    eng::desc(wide ? "wstring:" : "string:");
    if (wide) run_case<StrSys<wchar_t>>(s, p);
    else run_case<StrSys<char>>(s, p);
}
const char *A_NVM = "power-failure model: 64-byte lines, durable once flushed and drained; unflushed lines are kept or lost line by line; libpmemobj itself (the system library) is run, not modelled";
eng::RegProp props[] = {
    {{"C24", "random sequences of all operations (every overload, including the string itself as argument, embedded nulls, positions and counts up to and beyond the end) on two strings of char or wchar_t with lengths around the inline capacity, each alone or in a transaction that commits or aborts, with allocation failures and power failures, up to three sessions; results, contents and exceptions against std::basic_string, full rollback, leaks; non-trivial: at least three operations", "exploration", {A_NVM}}},
};
eng::RegMode modes[] = {
    {{"C24", "str", str_case, 24000, 1000000, 200}},
};
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch;
    return eng::driver_main(argc, argv);
}
