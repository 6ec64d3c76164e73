#include <cassert>
#include <chrono>
#include <cmath>
#include <cstring>
#include <iostream>
#include <list>
#include <string>
#include <unistd.h>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_atomic.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/allocator.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/experimental/clevel_hash.hpp>
#include "sut_clevel.hpp"
namespace nv = pmem::obj;
namespace clv
{
int hash_mode = 0;
using K = nv::p<uint64_t>;
static thread_local const K *found_at; // where the last key that was found equal lies
struct H
{
    size_t operator()(const K &k) const
    {
        uint64_t x = k.get_ro(), m = (x + 1) * 0x9E3779B97F4A7C15ull;
        m ^= m >> 29; m *= 0xBF58476D1CE4E5B9ull; m ^= m >> 32;
        switch (hash_mode)
        {
        case 0: return m;
        case 1: return x;                              // all keys share the partial tag
        case 2: return (m & ~0xffull) | (x & 3);       // few first buckets in small tables
        case 3: return (x / 6) * 0x9E3779B97F4A7C15ull; // groups of six keys that cannot be told apart
        default: return x << 48 | (x & 7);             // all the difference is in the tag
        }
    }
};
struct E
{
    bool operator()(const K &a, const K &b) const
    {
        bool r = a.get_ro() == b.get_ro();
        if (r) found_at = &a;
        return r;
    }
};
struct Base
{
    virtual bool insert(uint64_t k, uint64_t v, unsigned t, bool copy) = 0;
    virtual bool erase(uint64_t k, unsigned t) = 0;
    virtual bool update(uint64_t k, uint64_t v, unsigned t, bool copy) = 0;
    virtual bool search(uint64_t k, uint64_t *v) = 0;
    virtual uint64_t capacity() = 0;
};
struct root { nv::p<int> hp; nv::persistent_ptr<char[]> p; };
static nv::pool<root> pop;
template <size_t HP> struct B : Base
{
    using M = nv::experimental::clevel_hash<K, nv::p<uint64_t>, H, E, HP>;
    using V = typename M::value_type;
    M *m;
    B(M *m) : m(m) {}
    bool insert(uint64_t k, uint64_t v, unsigned t, bool copy) override
    {
        V x(k, v);
        return copy ? !m->insert(x, t, k).found : !m->insert(V(k, v), t, k).found;
    }
    bool erase(uint64_t k, unsigned t) override { return m->erase(K(k), t).found; }
    bool update(uint64_t k, uint64_t v, unsigned t, bool copy) override
    {
        V x(k, v);
        return copy ? m->update(x, t).found : m->update(V(k, v), t).found;
    }
    bool search(uint64_t k, uint64_t *v) override
    {
        K key(k);
        found_at = nullptr;
        bool r = m->search(key).found;
        if (r && v) *v = found_at ? ((const V *)found_at)->second.get_ro() : ~0ull;
        return r;
    }
    uint64_t capacity() override { return m->capacity(); }
    static Base *make(unsigned n)
    {
        nv::persistent_ptr<M> p;
        nv::transaction::run(pop, [&] {
            p = nv::make_persistent<M>();
            p->set_thread_num(n);
            pop.root()->p = p.raw();
            pop.root()->hp = HP;
        });
        return new B(p.get());
    }
    static Base *attach() { return new B((M *)pop.root()->p.get()); }
};
static Base *b;
void create(const char *path) { pop = nv::pool<root>::create(path, "t", PMEMOBJ_MIN_POOL * 4, 0600); pop.close(); }
void open(const char *path) { pop = nv::pool<root>::open(path, "t"); }
void make(int hp, unsigned n) { b = hp == 2 ? B<2>::make(n) : hp == 3 ? B<3>::make(n) : B<4>::make(n); }
void attach() { int hp = pop.root()->hp; b = hp == 2 ? B<2>::attach() : hp == 3 ? B<3>::attach() : B<4>::attach(); }
bool insert(uint64_t k, uint64_t v, unsigned t, bool copy) { return b->insert(k, v, t, copy); }
bool erase(uint64_t k, unsigned t) { return b->erase(k, t); }
bool update(uint64_t k, uint64_t v, unsigned t, bool copy) { return b->update(k, v, t, copy); }
bool search(uint64_t k, uint64_t *v) { return b->search(k, v); }
uint64_t capacity() { return b->capacity(); }
}
