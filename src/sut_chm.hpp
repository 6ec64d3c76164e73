// PMDK concurrent_hash_map of /repo (two maps in one pool), compiled with instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>
#include <utility>
#include <vector>
namespace chm
{
extern int hash_mode;
void create(const char *path);     // pool with two empty maps
void open(const char *path);       // opens it and initialises both maps
void close();
void *pool_begin();
// thread-safe operations on map m; how: which overload
bool insert(int m, uint64_t k, uint64_t v, int how);
bool put(int m, uint64_t k, uint64_t v, int how);
bool erase(int m, uint64_t k);
bool get(int m, uint64_t k, uint64_t *v, bool write_accessor, void (*inside)()); // ~0: the element changed while it was held
bool count(int m, uint64_t k);
uint64_t increment(int m, uint64_t k, void (*inside)());
bool update(int m, uint64_t k, uint64_t v, void (*inside)());
// not thread-safe
void rehash(int m, uint64_t n);
void clear(int m);
void swap_maps(bool member);
void assign(int to, int from);
void assign_list(int m, const uint64_t *kv, int n);
void insert_range(int m, const uint64_t *kv, int n, bool list);
void reconstruct(int m, int how, uint64_t arg, const uint64_t *kv, int n); // destroys map m and makes it anew: 0 empty, 1 with buckets, 2 copy of the other, 3 moved from the other, 4 range
uint64_t size(int m);
bool empty(int m);
uint64_t buckets(int m);
void iterate(int m, std::vector<std::pair<uint64_t, uint64_t>> &out, bool cnst);
void defrag(int m);
bool in_tx(int what, int m, uint64_t k); // calls an operation inside a transaction: true if it is refused
// transaction around clear/swap/assign that is aborted
void aborted(int what, int m);
}
