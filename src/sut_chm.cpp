#include <chrono>
#include <cmath>
#include <cstring>
#include <iostream>
#include <list>
#include <string>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/container/concurrent_hash_map.hpp>
#include "sut_chm.hpp"
namespace nv = pmem::obj;
namespace chm
{
int hash_mode = 0;
struct H
{
    size_t operator()(const nv::p<size_t> &k) const
    {
        size_t x = k.get_ro();
        switch (hash_mode)
        {
        case 0: return std::hash<size_t>()(x);
        case 1: return x * 0x9E3779B97F4A7C15ull >> 20;
        case 2: return x & 1;
        default: return x << 3;
        }
    }
};
using M = nv::concurrent_hash_map<nv::p<size_t>, nv::p<size_t>, H>;
using V = M::value_type;
struct root { nv::persistent_ptr<M> m[2]; };
static nv::pool<root> pop;
static M &map(int i) { return *pop.root()->m[i]; }
void *pool_begin() { return pop.handle(); }
void create(const char *path)
{
    pop = nv::pool<root>::create(path, "t", PMEMOBJ_MIN_POOL * 4, 0600);
    nv::transaction::run(pop, [&] { for (auto &m : pop.root()->m) m = nv::make_persistent<M>(); });
}
void open(const char *path)
{
    pop = nv::pool<root>::open(path, "t");
    for (auto &m : pop.root()->m) m->runtime_initialize();
}
void close() { pop.close(); }
bool insert(int m, uint64_t k, uint64_t v, int how)
{
    switch (how)
    {
    case 0: return map(m).insert(V(k, v));
    case 1: { V x(k, v); return map(m).insert(x); }
    case 2: { M::accessor a; return map(m).insert(a, V(k, v)); }
    case 3: { M::const_accessor a; V x(k, v); bool r = map(m).insert(a, x); a.release(); return r; }
    case 4: { M::accessor a; V x(k, v); return map(m).insert(a, x); }
    default:
    {
        M::accessor a;
        bool r = map(m).insert(a, nv::p<size_t>(k));
        if (r) nv::transaction::run(pop, [&] { a->second = v; });
        return r;
    }
    }
}
bool put(int m, uint64_t k, uint64_t v, int how)
{
    if (how == 0) return map(m).insert_or_assign(nv::p<size_t>(k), v);
    nv::p<size_t> kk(k);
    return map(m).insert_or_assign(kk, nv::p<size_t>(v));
}
bool erase(int m, uint64_t k) { return map(m).erase(k); }
bool get(int m, uint64_t k, uint64_t *v, bool w, void (*inside)())
{
    if (w)
    {
        M::accessor a;
        if (!map(m).find(a, k)) return false;
        *v = a->second;
        if (inside) inside();
        if (a.empty() || a->first != k || a->second != *v) *v = ~0ull;
        return true;
    }
    M::const_accessor a;
    if (!static_cast<const M &>(map(m)).find(a, k)) return false;
    *v = (*a).second;
    if (inside) inside();
    if (a.empty() || a->first != k || a->second != *v) *v = ~0ull;
    return true;
}
bool count(int m, uint64_t k) { return map(m).count(k); }
uint64_t increment(int m, uint64_t k, void (*inside)())
{
    M::accessor a;
    map(m).insert(a, V(k, 0));
    uint64_t v = a->second;
    if (inside) inside();
    nv::transaction::run(pop, [&] { a->second = v + 1; });
    return v + 1;
}
bool update(int m, uint64_t k, uint64_t v, void (*inside)())
{
    M::accessor a;
    if (!map(m).find(a, k)) return false;
    if (inside) inside();
    nv::transaction::run(pop, [&] { a->second = v; });
    return true;
}
void rehash(int m, uint64_t n) { map(m).rehash(n); }
void clear(int m) { map(m).clear(); }
void swap_maps(bool member) { if (member) map(0).swap(map(1)); else swap(map(0), map(1)); }
void assign(int to, int from) { map(to) = map(from); }
static std::vector<V> list(const uint64_t *kv, int n)
{
    std::vector<V> v;
    for (int i = 0; i < n; ++i) v.emplace_back(kv[2 * i], kv[2 * i + 1]);
    return v;
}
void assign_list(int m, const uint64_t *kv, int n)
{
    switch (n)
    {
    case 0: map(m) = std::initializer_list<V>{}; break;
    case 1: map(m) = {V(kv[0], kv[1])}; break;
    case 2: map(m) = {V(kv[0], kv[1]), V(kv[2], kv[3])}; break;
    default: map(m) = {V(kv[0], kv[1]), V(kv[2], kv[3]), V(kv[4], kv[5])}; break;
    }
}
void insert_range(int m, const uint64_t *kv, int n, bool il)
{
    if (il && n == 2) { map(m).insert({V(kv[0], kv[1]), V(kv[2], kv[3])}); return; }
    auto v = list(kv, n);
    map(m).insert(v.begin(), v.end());
}
void reconstruct(int m, int how, uint64_t arg, const uint64_t *kv, int n)
{
    auto v = list(kv, n);
    nv::transaction::run(pop, [&] {
        auto &p = pop.root()->m[m];
        auto &o = *pop.root()->m[!m];
        nv::delete_persistent<M>(p);
        switch (how)
        {
        case 0: p = nv::make_persistent<M>(); break;
        case 1: p = nv::make_persistent<M>(arg); break;
        case 2: p = nv::make_persistent<M>(o); break;
        case 3: p = nv::make_persistent<M>(std::move(o)); break;
        default: p = nv::make_persistent<M>(v.begin(), v.end()); break;
        }
    });
}
uint64_t size(int m) { return map(m).size(); }
bool empty(int m) { return map(m).empty(); }
uint64_t buckets(int m) { return map(m).bucket_count(); }
void iterate(int m, std::vector<std::pair<uint64_t, uint64_t>> &out, bool cnst)
{
    if (cnst)
    {
        const M &x = map(m);
        for (auto i = x.begin(); i != x.end(); i++) out.push_back({i->first, i->second});
    }
    else
        for (auto &e : map(m)) out.push_back({e.first, e.second});
}
void defrag(int m) { map(m).defragment(); }
bool in_tx(int what, int m, uint64_t k)
{
    bool refused = false;
    try
    {
        nv::transaction::run(pop, [&] {
            switch (what)
            {
            case 0: map(m).insert(V(k, 1)); break;
            case 1: map(m).erase(k); break;
            case 2: map(m).count(k); break;
            case 3: { M::accessor a; break; }
            default: map(m).rehash(64); break;
            }
        });
    }
    catch (pmem::transaction_scope_error &) { refused = true; }
    return refused;
}
struct Abort {};
void aborted(int what, int m)
{
    try
    {
        nv::transaction::run(pop, [&] {
            switch (what)
            {
            case 0: map(m).clear(); break;
            case 1: map(0).swap(map(1)); break;
            default: map(m) = map(!m); break;
            }
            throw Abort();
        });
    }
    catch (Abort &) {}
}
}
