// Element types for the container harnesses.
#pragma once
#include "pmx.hpp"
#include <set>
namespace pmx
{
using S = nv::string;
using VI = nv::vector<int>;
// Lifetime-tracking element: relies on the container's snapshots for its own writes.
struct Tr
{
    int v;
    int pad;
    static inline long balance;                 // constructions minus destructions
    static inline std::set<const void *> *live; // constructed objects (null: not tracked)
    static void born(const void *p)
    {
        ++balance;
        if (live && !live->insert(p).second) eng::note_fail("lifetime", "an element is constructed over a living one");
    }
    static void used(const void *p, const char *what)
    {
        if (live && !live->count(p)) eng::note_fail("lifetime", "%s an element that was never constructed", what);
    }
    explicit Tr(int x = 0) : v(x), pad(7) { may_throw(); born(this); }
    Tr(int a, int b) : v(a * 100 + b), pad(7) { may_throw(); born(this); }
    Tr(const Tr &o) : v(o.v), pad(7) { used(&o, "copied from"); may_throw(); born(this); }
    Tr(Tr &&o) : v(o.v), pad(7) { used(&o, "moved from"); may_throw(); if (&o != this) o.v = -1; born(this); }
    Tr &operator=(const Tr &o) { used(this, "assigned to"); used(&o, "copied from"); may_throw(); v = o.v; return *this; }
    Tr &operator=(Tr &&o) { used(this, "assigned to"); used(&o, "moved from"); may_throw(); v = o.v; if (this != &o) o.v = -1; return *this; }
    ~Tr()
    {
        --balance;
        if (live && !live->erase(this)) eng::note_fail("lifetime", "an element is destroyed that does not live");
        v = -2; pad = 0;
    }
    bool operator==(const Tr &o) const { return v == o.v; }
    bool operator<(const Tr &o) const { return v < o.v; }
};
template <class T> struct El;
inline std::string num(int x) { char b[16]; snprintf(b, sizeof b, "%05d", x); return b; }
template <> struct El<int>
{
    static constexpr bool throwing = false, owning = false, tracked = false;
    static std::string str(const int &x) { return num(x); }
    static int src(int i) { static const int t[] = {0, 1, 2, 77, 500, 9999}; return t[i]; }
    static void make(int *p, int i) { new (p) int(src(i)); }
    static std::string moved(const std::string &e) { return e; }
    static std::string dflt() { return num(0); }
    template <class F> static std::string emplace(int a, int b, F f) { f(a); return ""; } // arguments for emplace
    static std::string emplaced(int a, int b) { return num(a); }
};
template <> struct El<Tr>
{
    static constexpr bool throwing = true, owning = false, tracked = true;
    static std::string str(const Tr &x) { if (x.pad != 7) return "bad" + num(x.v); return num(x.v); }
    static void make(Tr *p, int i) { new (p) Tr(El<int>::src(i)); }
    static std::string moved(const std::string &) { return num(-1); }
    static std::string dflt() { return num(0); }
    template <class F> static std::string emplace(int a, int b, F f) { f(a, b); return ""; }
    static std::string emplaced(int a, int b) { return num(a * 100 + b); }
};
template <> struct El<S>
{
    static constexpr bool throwing = false, owning = true, tracked = false;
    static std::string str(const S &x) { if (x.size() && strlen(x.c_str()) != x.size()) return "bad"; return std::string(x.cdata(), x.size()); }
    static std::string src(int i)
    {
        switch (i) { case 0: return ""; case 1: return "a"; case 2: return std::string(23, 'b'); case 3: return std::string(24, 'c'); case 4: return "b"; default: return std::string(60, 'z'); }
    }
    static void make(S *p, int i) { new (p) S(src(i)); }
    static std::string moved(const std::string &) { return ""; }
    static std::string dflt() { return ""; }
    template <class F> static std::string emplace(int a, int b, F f) { f((size_t)a % 40, (char)('a' + b % 26)); return ""; }
    static std::string emplaced(int a, int b) { return std::string(a % 40, 'a' + b % 26); }
};
template <> struct El<VI>
{
    static constexpr bool throwing = false, owning = true, tracked = false;
    static std::string str(const VI &x) { std::string o; for (int e : x) o += (char)('a' + e); return o; }
    static std::vector<int> src(int i) { switch (i) { case 0: return {}; case 1: return {1}; case 2: return {1, 2}; case 3: return {5, 5, 5, 5}; case 4: return {2}; default: return std::vector<int>(20, 3); } }
    static void make(VI *p, int i) { new (p) VI(src(i)); }
    static std::string moved(const std::string &) { return ""; }
    static std::string dflt() { return ""; }
    template <class F> static std::string emplace(int a, int b, F f) { f((size_t)a % 10, b % 26); return ""; }
    static std::string emplaced(int a, int b) { return std::string(a % 10, 'a' + b % 26); }
};
}
