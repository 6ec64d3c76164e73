// Property C33: the other hash tables that come with the library (level_hash, clht, CCEH), one client.
#include <cassert>
#include <cinttypes>
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_array.hpp>
#include <libpmemobj++/make_persistent_atomic.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/experimental/level_hash.hpp>
#include <libpmemobj++/experimental/clht.hpp>
#include <libpmemobj++/experimental/cceh.hpp>
#include "engine.hpp"
#include "pm.hpp"
#include "vrt.hpp"
using eng::Src;
using eng::Span;
using std::string;
using std::vector;
namespace nv = pmem::obj;
namespace ex = pmem::obj::experimental;
namespace
{
int hash_mode;
using K = nv::p<uint64_t>;
uint64_t mix(uint64_t x) { uint64_t m = (x + 1) * 0x9E3779B97F4A7C15ull; m ^= m >> 29; m *= 0xBF58476D1CE4E5B9ull; return m ^ m >> 32; }
struct H
{
    size_t operator()(const K &k) const
    {
        uint64_t x = k.get_ro();
        switch (hash_mode)
        {
        case 0: return mix(x);
        case 1: return x;
        case 2: return mix(x / 3);    // groups of three that cannot be told apart
        default: return mix(x) << 4;  // only every sixteenth bucket is a first choice
        }
    }
};
struct Eq { bool operator()(const K &a, const K &b) const { return a.get_ro() == b.get_ro(); } };
using Level = ex::level_hash<K, K, H, Eq>;
using Clht = ex::clht<K, K, H, Eq>;
struct Root { nv::persistent_ptr<char> t; nv::persistent_ptr<Level> l; nv::persistent_ptr<Clht> c; nv::persistent_ptr<ex::CCEH> e; };
nv::pool<Root> pop;
string g_tmpl;
void session_start()
{
    pm::enabled = true;
    pm::clamp_pool = 0;
    vrt::set_plain_filter(pm::tracked);
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
    if (!freopen("/dev/null", "w", stdout)) _exit(3);
}
void batch()
{
    pm::enabled = false;
    pm::durable = true;
    if (g_tmpl.empty())
    {
        string dir = eng::fresh_dir();
        eng::in_child("creation of the pool", [&] {
            session_start();
            pop = nv::pool<Root>::create(dir + "/t", "tab", 64 << 20, 0600);
            pop.root();
            pop.close();
        });
        g_tmpl = dir + "/t";
        pm::shrink_lanes(g_tmpl, 64);
    }
}
struct Op { unsigned k; uint64_t key, val; bool copy; };
enum { T_INSERT, T_ERASE, T_UPDATE, T_GET, T_REOPEN };
const char *nm[] = {"insert", "erase", "update", "get", "reopen"};
uint64_t gen_key(Src &s, unsigned space, unsigned style)
{
    uint64_t k = s.below(space);
    switch (style)
    {
    case 0: return k;
    case 1: return k * 0x9E3779B97F4A7C15ull;
    case 2: return k << 32 | k;
    default: return ~k;
    }
}
vector<Op> gen_ops(Src &s, unsigned space, unsigned style, unsigned n, bool upd, bool reopen)
{
    vector<Op> v;
    for (unsigned i = 0; i < n; ++i)
    {
        Span sp(s);
        Op o{};
        o.k = s.weighted({10, 2, upd ? 2u : 0u, 3, reopen ? 1u : 0u});
        if (o.k == T_REOPEN && s.below(4)) o.k = T_GET;
        o.key = gen_key(s, space, style);
        o.val = s.below(1000) + i * 1000;
        o.copy = s.below(2);
        v.push_back(o);
    }
    return v;
}
// the reference map beside the table
template <class F> void run(const vector<Op> &ops, unsigned space, unsigned style, F call)
{
    std::map<uint64_t, uint64_t> m;
    unsigned step = 0;
    auto look = [&](uint64_t k, const char *when, unsigned st) {
        uint64_t v = 0;
        bool r = call(T_GET, k, 0, false, &v), e = m.count(k);
        if (r != e) eng::fail(e ? "lost" : "phantom", "step %u (%s): key %" PRIx64 " is %sfound", st, when, k, r ? "" : "not ");
        if (r && v != m[k]) eng::fail("value", "step %u (%s): key %" PRIx64 " has value %" PRIu64 ", expected %" PRIu64, st, when, k, v, m[k]);
    };
    for (auto &o : ops)
    {
        ++step;
        uint64_t v = 0;
        bool e = m.count(o.key);
        switch (o.k)
        {
        case T_INSERT: if (e && !call(T_INSERT, o.key, o.val, o.copy, nullptr)) break; if (!e) { if (!call(T_INSERT, o.key, o.val, o.copy, &v)) eng::fail("insert", "step %u: insert of the new key %" PRIx64 " fails", step, o.key); m[o.key] = o.val; } break;
        case T_ERASE: if (call(T_ERASE, o.key, 0, false, &v) != e) eng::fail("erase", "step %u: erase of key %" PRIx64 ", which is %sthere, gives %d", step, o.key, e ? "" : "not ", !e); m.erase(o.key); break;
        case T_UPDATE: if (call(T_UPDATE, o.key, o.val, o.copy, &v) != e) eng::fail("update", "step %u: update of key %" PRIx64 ", which is %sthere, gives %d", step, o.key, e ? "" : "not ", !e); if (e) m[o.key] = o.val; break;
        case T_REOPEN: call(T_REOPEN, 0, 0, false, nullptr); for (auto &x : m) look(x.first, "after reopening", step); break;
        }
        look(o.key, nm[o.k], step);
        if (step % 16 == 0) for (auto &x : m) look(x.first, nm[o.k], step);
    }
    for (auto &x : m) look(x.first, "end", step);
    for (unsigned i = 0; i < space; ++i)
    {
        uint64_t k = style == 0 ? i : style == 1 ? i * 0x9E3779B97F4A7C15ull : style == 2 ? (uint64_t)i << 32 | i : ~(uint64_t)i;
        look(k, "end", step);
    }
    if (m.size() >= 4) eng::mark_nontrivial();
}
struct File
{
    string dir = eng::fresh_dir(), f = dir + "/p";
    File() { pm::durable = true; pm::copy_sparse(g_tmpl, f); }
    ~File() { eng::remove_tree(dir); }
    void open() { pop = nv::pool<Root>::open(f, "tab"); }
};
void level_case(Src &s)
{
    unsigned power = 2 + s.below(4), style = s.below(4), space = s.pick({6u, 30u, 150u});
    hash_mode = s.below(3);
    if (style && hash_mode == 1) style = 0; // the table of an identity needs some difference in the low bits
    auto ops = gen_ops(s, space, style, 1 + s.below(s.below(3) ? 60 : 250), true, false);
    eng::desc("level_hash(%u), hash %d, %u keys of style %u:", power, hash_mode, space, style);
    for (auto &o : ops) eng::desc(" %s(%" PRIx64 ")", nm[o.k], o.key);
    File file;
    eng::in_child("level_hash", [&] {
        session_start();
        file.open();
        auto r = pop.root();
        nv::transaction::run(pop, [&] { r->l = nv::make_persistent<Level>(power, 1); });
        auto &t = *r->l;
        uint64_t cap = t.capacity();
        run(ops, space, style, [&](unsigned k, uint64_t key, uint64_t val, bool copy, uint64_t *out) -> bool {
            if (k == T_INSERT && !out) return false; // a present key is not inserted again (callers search first)
            switch (k)
            {
            case T_INSERT: { Level::value_type v(key, val); if (copy) t.insert(v, 0); else t.insert(Level::value_type(key, val), 0); return true; }
            case T_ERASE: return t.erase(key, 0).found;
            case T_UPDATE: { Level::value_type v(key, val); return (copy ? t.update(v, 0) : t.update(Level::value_type(key, val), 0)).found; }
            default:
            {
                auto q = t.query(key, 0);
                if (q.found)
                {
                    auto *e = t.levels[q.level_idx]->buckets[q.bucket_idx].slots[q.slot_idx].get_address(t.my_pool_uuid);
                    if (e->first != key) eng::fail("place", "the place of key %" PRIx64 " holds another", key);
                    *out = e->second;
                }
                return q.found;
            }
            }
        });
        if (t.capacity() != cap) eng::label("expanded");
        _exit(0);
    });
}
void clht_case(Src &s)
{
    unsigned nb = 1 + s.below(20), style = s.below(4), space = s.pick({6u, 40u, 200u});
    hash_mode = s.below(4);
    bool reopen = s.below(2);
    auto ops = gen_ops(s, space, style, 1 + s.below(s.below(3) ? 60 : 250), false, reopen);
    eng::desc("clht(%u), hash %d, %u keys of style %u:", nb, hash_mode, space, style);
    for (auto &o : ops) eng::desc(" %s(%" PRIx64 ")", nm[o.k], o.key);
    File file;
    eng::in_child("clht", [&] {
        session_start();
        file.open();
        auto r = pop.root();
        nv::transaction::run(pop, [&] { r->c = nv::make_persistent<Clht>(nb); });
        uint64_t cap = r->c->capacity();
        run(ops, space, style, [&](unsigned k, uint64_t key, uint64_t val, bool copy, uint64_t *out) -> bool {
            auto &t = *r->c;
            switch (k)
            {
            case T_INSERT:
            {
                Clht::value_type v(key, val);
                bool was = (copy ? t.put(v, 0) : t.put(Clht::value_type(key, val), 0)).found;
                if (!out && !was) eng::fail("insert", "put of the present key %" PRIx64 " reports it as new", key);
                return !was;
            }
            case T_ERASE: return t.erase(key).found;
            case T_REOPEN: pop.close(); file.open(); r = pop.root(); return true;
            default:
            {
                auto q = t.get(key);
                if (q.found)
                {
                    auto *ht = t.ht.get_address(t.my_pool_uuid);
                    auto *b = &ht->table[q.bucket_idx];
                    for (unsigned i = 0; i < q.step; ++i) b = b->next.get_address(t.my_pool_uuid);
                    auto *e = b->slots[q.slot_idx].get_address(t.my_pool_uuid);
                    if (e->first != key) eng::fail("place", "the place of key %" PRIx64 " holds another", key);
                    *out = e->second;
                }
                return q.found;
            }
            }
        });
        if (r->c->capacity() != cap) eng::label("expanded");
        _exit(0);
    });
}
// CCEH: byte strings; keys are found whose hashes fall together
void cceh_case(Src &s)
{
    unsigned depth = 1 + s.below(3), n = 1 + s.below(s.below(3) ? 40 : 120), form = s.below(4), crowd = s.below(3);
    bool reopen = s.below(2);
    struct Item { vector<uint8_t> key, val; bool in; };
    vector<Item> items;
    std::set<vector<uint8_t>> seen;
    ex::CCEH::hasher hh;
    uint64_t ctr = s.below(1000000);
    unsigned y0 = s.below(4) ? s.below(256) : 252 + s.below(4);
    eng::desc("CCEH(%u), %u keys of form %u, crowded: %u at %u%s", depth, n, form, crowd, y0, reopen ? ", reopened" : "");
    for (unsigned i = 0; i < n; ++i)
    {
        Item it;
        for (unsigned tries = 0; tries < 20000; ++tries)
        {
            ++ctr;
            vector<uint8_t> k;
            switch (form)
            {
            case 0: k.resize(8); memcpy(k.data(), &ctr, 8); break;                                      // integers, with zero bytes
            case 1: { char b[40]; int l = snprintf(b, sizeof b, "key%012" PRIu64, ctr); k.assign(b, b + l); break; }
            case 2: { char b[40]; int l = snprintf(b, sizeof b, "%010" PRIu64 "%.*s", ctr, (int)(ctr % 20), "abcdefghijklmnopqrstuvw"); k.assign(b, b + l); break; } // of several lengths
            default: { uint64_t x = mix(ctr); k.resize(16); memcpy(k.data(), &x, 8); memset(k.data() + 8, 0, 8); break; }
            }
            size_t h = hh(k.data(), k.size());
            unsigned y = h & 255;
            bool ok = crowd == 0 || (crowd == 1 ? (y & 0xfe) == (y0 & 0xfe) : y == y0 || (y == (y0 - 2u & 255)));
            if (ok && seen.insert(k).second) { it.key = k; break; }
        }
        if (it.key.empty()) continue;
        it.val.resize(1 + s.below(20));
        for (auto &c : it.val) c = (uint8_t)(ctr + (&c - it.val.data()));
        it.in = i == 0 || s.below(8); // some are only looked for
        items.push_back(it);
    }
    File file;
    eng::in_child("CCEH", [&] {
        session_start();
        file.open();
        auto r = pop.root();
        nv::transaction::run(pop, [&] { r->e = nv::make_persistent<ex::CCEH>(depth); });
        size_t cap = r->e->Capacity();
        unsigned n = 0;
        auto look = [&](unsigned i, bool want, const char *when) {
            auto &it = items[i];
            bool f = r->e->get(it.key.data(), it.key.size()).found;
            if (f != want) eng::fail(want ? "lost" : "phantom", "%s: key %u (of %zu bytes) is %sfound", when, i, it.key.size(), f ? "" : "not ");
        };
        auto all = [&](unsigned upto, const char *when) { for (unsigned i = 0; i < items.size(); ++i) look(i, i < upto && items[i].in, when); };
        for (unsigned i = 0; i < items.size(); ++i)
        {
            auto &it = items[i];
            if (!it.in) continue;
            r->e->insert(it.key.data(), it.val.data(), it.key.size(), it.val.size(), 0);
            look(i, true, "after its insertion");
            if (i % 8 == 7) all(i + 1, "later");
            if (reopen && i % 32 == 31) { pop.close(); file.open(); r = pop.root(); all(i + 1, "after reopening"); }
            ++n;
        }
        all(items.size(), "end");
        if (r->e->Capacity() != cap) eng::label("split");
        if (n >= 4) eng::mark_nontrivial();
        _exit(0);
    });
}
eng::RegProp props[] = {
    {{"C33", "random sequences by one client: mode level (insert, update, erase, query over expansions, four table sizes, three hash functions), mode clht (put, erase, get, over resizes, chains and reopening, four hash functions), mode cceh (byte-string keys of several forms and lengths, chosen so that their hashes crowd together; splits, doublings of the directory, reopening); every result and the whole contents compared with a reference map; non-trivial: at least four keys at the end", "exploration", {"one client at a time", "hash functions do not map more keys onto one value than the tables' fixed associativity allows"}}},
};
eng::RegMode modes[] = {
    {{"C33", "level", level_case, 4000, 150000, 100}},
    {{"C33", "clht", clht_case, 4000, 150000, 100}},
    {{"C33", "cceh", cceh_case, 4000, 150000, 100}},
};
}
int main(int argc, char **argv)
{
    pm::prepare_env();
    eng::batch_init = batch;
    return eng::driver_main(argc, argv);
}
