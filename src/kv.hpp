// Histories of operations on a small key space, kept in shared memory so that they survive the process,
// and their judgement by a per-key linearizability search.
#pragma once
#include "engine.hpp"
#include "lin.hpp"
#include "vrt.hpp"
#include <cinttypes>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
namespace kv
{
enum Kind : uint8_t { INS, PUT, ERA, GET, CNT, INC, UPD };
static const char *const kind_name[] = {"insert", "insert_or_assign", "erase", "get", "contains", "increment", "update"};
struct Op
{
    Kind kind; uint8_t key; uint8_t thr; bool noval; // noval: the result carries no value
    uint64_t arg;
    bool rb; uint64_t rv;
};
struct Hist
{
    static constexpr int MAX = 1024, MAXKEY = 64;
    uint32_t n;
    struct E { uint64_t inv, res; Op op; } e[MAX];
    bool present[MAXKEY]; uint64_t val[MAXKEY]; // state before the history
    uint32_t nkeys;
    uint32_t crashed;
    uint64_t aux[16];
    void start(uint32_t nk) { n = 0; nkeys = nk; crashed = 0; }
    int begin(const Op &o)
    {
        if (n >= MAX) { eng::note_fail("harness", "history overflow"); _exit(77); }
        int i = n++;
        e[i].op = o; e[i].res = 0; e[i].inv = vrt::stamp();
        return i;
    }
    void end(int i, bool rb, uint64_t rv = 0) { e[i].op.rb = rb; e[i].op.rv = rv; e[i].res = vrt::stamp(); }
};
struct St { uint64_t p, v; };
inline bool step(St &s, const Op &o, bool opt)
{
    switch (o.kind)
    {
    case INS:
        if (!opt && o.rb != !s.p) return false;
        if (!s.p) { s.p = 1; s.v = o.arg; }
        return true;
    case PUT:
        if (!opt && o.rb != !s.p) return false;
        s.p = 1; s.v = o.arg;
        return true;
    case ERA:
        if (!opt && o.rb != !!s.p) return false;
        s.p = 0; s.v = 0;
        return true;
    case GET:
        if (opt) return true;
        if (o.rb != !!s.p) return false;
        return !o.rb || o.noval || o.rv == s.v;
    case CNT: return opt || o.rb == !!s.p;
    case INC:
    {
        uint64_t n = s.p ? s.v + 1 : 1;
        if (!opt && !o.noval && o.rv != n) return false;
        s.p = 1; s.v = n;
        return true;
    }
    case UPD:
        if (!opt && o.rb != !!s.p) return false;
        if (s.p) s.v = o.arg;
        return true;
    }
    return false;
}
inline std::string show(const Hist &h, int key)
{
    std::string r;
    char b[200];
    snprintf(b, sizeof b, "  before: %s", h.present[key] ? "" : "absent\n"); r += b;
    if (h.present[key]) { snprintf(b, sizeof b, "%" PRIu64 "\n", h.val[key]); r += b; }
    for (uint32_t i = 0; i < h.n; ++i)
        if (h.e[i].op.key == key)
        {
            auto &x = h.e[i];
            char res[64];
            if (!x.res) snprintf(res, sizeof res, "(cut off)");
            else if (x.op.kind == GET || x.op.kind == INC) snprintf(res, sizeof res, "= %s %" PRIu64, x.op.rb ? "true" : "false", x.op.rv);
            else snprintf(res, sizeof res, "= %s", x.op.rb ? "true" : "false");
            snprintf(b, sizeof b, "  [%" PRIu64 "..%" PRIu64 "] thread %d: %s(key %d, %" PRIu64 ") %s\n", x.inv, x.res, x.op.thr, kind_name[x.op.kind], key, x.op.arg, res);
            r += b;
        }
    return r;
}
// Judges the history; with `fin`, the state found afterwards must follow from it. fin[k] = {present, value}
inline void check(const Hist &h, const std::vector<St> *fin, bool values, const char *sig)
{
    for (uint32_t k = 0; k < h.nkeys; ++k)
    {
        std::vector<lin::Entry<Op>> v;
        for (uint32_t i = 0; i < h.n; ++i)
            if (h.e[i].op.key == k) v.push_back({h.e[i].inv, h.e[i].res ? h.e[i].res : ~0ull - 2, !h.e[i].res, h.e[i].op});
        if (fin)
        {
            Op g{}; g.kind = GET; g.key = k; g.rb = (*fin)[k].p; g.rv = (*fin)[k].v; g.noval = !values;
            v.push_back({~0ull - 1, ~0ull, false, g});
        }
        if (v.empty()) continue;
        St init{h.present[k] ? 1ull : 0ull, h.present[k] ? h.val[k] : 0};
        bool gave = false;
        if (!lin::linearizable(v, init, step, &gave))
        {
            char f[100] = "";
            if (fin) snprintf(f, sizeof f, "  found afterwards: %s %" PRIu64 "\n", (*fin)[k].p ? "present" : "absent", (*fin)[k].v);
            eng::fail(sig, "no order of the calls on key %u explains the results:\n%s%s", k, show(h, k).c_str(), f);
        }
        if (gave) eng::label("search-gave-up");
    }
}
}
