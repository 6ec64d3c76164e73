// Linearizability of one register-like object by exhaustive search with memoisation (Wing & Gong / Lowe).
#pragma once
#include <cstdint>
#include <functional>
#include <unordered_set>
#include <vector>
namespace lin
{
// An operation on one key. `optional` operations (cut off by a power failure) may take effect or not,
// and any result is allowed for them.
template <class Op> struct Entry { uint64_t inv, res; bool optional; Op op; };

// step(state, op, optional) -> true and new state if op with its recorded result can be applied in state
// (for optional operations the result is unconstrained).
template <class State, class Op, class Step>
struct Checker
{
    const std::vector<Entry<Op>> &h;
    Step step;
    std::unordered_set<std::string> seen;
    uint64_t work = 0, maxwork = 3000000;
    bool gaveup = false;
    std::vector<char> done;
    Checker(const std::vector<Entry<Op>> &h, Step s) : h(h), step(s), done(h.size(), 0) {}
    std::string key(const State &s) const
    {
        std::string k((const char *)&s, sizeof s);
        unsigned char b = 0; int n = 0;
        for (char c : done) { b |= c << n; if (++n == 8) { k.push_back(b); b = 0; n = 0; } }
        k.push_back(b);
        return k;
    }
    // maxinv: latest invocation among linearized operations
    bool rec(const State &s, uint64_t maxinv)
    {
        if (++work > maxwork) { gaveup = true; return true; }
        bool all = true;
        uint64_t minres = ~0ull;
        for (size_t i = 0; i < h.size(); ++i)
            if (!done[i] && !h[i].optional) { all = false; if (h[i].res < minres) minres = h[i].res; }
        if (all) return true;
        if (!seen.insert(key(s)).second) return false;
        for (size_t i = 0; i < h.size(); ++i)
        {
            if (done[i]) continue;
            if (h[i].inv > minres) continue;          // something completed before it started
            if (h[i].res < maxinv) continue;          // it ended before something linearized started
            State n = s;
            if (!step(n, h[i].op, h[i].optional)) continue;
            done[i] = 1;
            bool ok = rec(n, h[i].inv > maxinv ? h[i].inv : maxinv);
            done[i] = 0;
            if (ok) return true;
        }
        return false;
    }
    bool ok(const State &init) { return rec(init, 0); }
};
template <class State, class Op, class Step>
bool linearizable(const std::vector<Entry<Op>> &h, const State &init, Step step, bool *gaveup = nullptr)
{
    Checker<State, Op, Step> c(h, step);
    bool r = c.ok(init);
    if (gaveup) *gaveup = c.gaveup;
    return r;
}
}
