#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <string>
#include <thread>
#include <vector>
#include <immintrin.h>
extern "C" void vnvm_flush(const void *p);
extern "C" void vnvm_fence(void);
#undef _mm_clflush
#define _mm_clflush(p) vnvm_flush((const void *)(p))
#define _mm_clflushopt(p) vnvm_flush((const void *)(p))
#define _mm_clwb(p) vnvm_flush((const void *)(p))
#define _mm_sfence() vnvm_fence()
#define _mm_mfence() vnvm_fence()
#include "ucfMap.hpp"
#include "sut_ucf.hpp"
namespace sut
{
int hash_mode = 0;
struct TestHash
{
    size_t operator()(size_t k) const
    {
        switch (hash_mode)
        {
        case 0: return k;
        case 1: { size_t x = (k >> 3) * 0x9E3779B97F4A7C15ull; return x >> 32; }
        default: return k >> 3;
        }
    }
};
using M = ConcurrentHashMap<size_t, size_t, TestHash>;
static M *m(Map *p) { return reinterpret_cast<M *>(p); }
Map *open_map(const char *dir, size_t cap, bool rec) { return reinterpret_cast<Map *>(new M(dir, cap, rec)); }
uint64_t put(Map *p, uint64_t k, uint64_t v) { return m(p)->put(k, v); }
uint64_t get(Map *p, uint64_t k) { return m(p)->get(k); }
bool contains(Map *p, uint64_t k) { return m(p)->containsKey(k); }
bool remove(Map *p, uint64_t k) { return m(p)->remove(k); }
bool remove_if(Map *p, uint64_t k, uint64_t v) { return m(p)->remove(k, v); }
bool replace(Map *p, uint64_t k, uint64_t o, uint64_t n) { return m(p)->replace(k, o, n); }
uint64_t put_if_absent(Map *p, uint64_t k, uint64_t v) { return m(p)->putIfAbsent(k, v); }
uint64_t increment(Map *p, uint64_t k) { return m(p)->update(k, ((((size_t)1 << 61) - 3) << M::BITS_MARKED), M::Table::increment); }
uint64_t update_to(Map *p, uint64_t k, uint64_t v) { return m(p)->update(k, v, M::Table::CASvalue); }
size_t size(Map *p) { return m(p)->size(); }
bool is_empty(Map *p) { return m(p)->isEmpty(); }
bool key_reserved(uint64_t k) { return M::isKeyReserved(k); }
bool value_reserved(uint64_t v) { return M::isValueReserved(v); }
void reset_process() { fileNameCounter = 0; }
uint64_t set_mark(uint64_t v, uint64_t f) { return (uint64_t)setMark(v, f); }
uint64_t clear_mark(uint64_t v, uint64_t f) { return (uint64_t)clearMark(v, f); }
uint64_t is_marked(uint64_t v, uint64_t f) { return (uint64_t)isMarked(v, f); }
uint64_t cell_read(void *c) { return pcas_read<size_t>((std::atomic<size_t> *)c); }
bool cell_cas(void *c, uint64_t &e, uint64_t d) { size_t x = e; bool r = pcas<size_t>((std::atomic<size_t> *)c, x, d); e = x; return r; }
void cell_store(void *c, uint64_t v) { ((std::atomic<size_t> *)c)->store(v | DirtyFlag); PERSIST(c, 8); }
void persist_range(const void *p, size_t n) { PERSIST(p, n); }
void persist_flush(const void *p, size_t n) { PERSIST_FLUSH_ONLY(p, n); }
void persist_barrier() { PERSIST_BARRIER_ONLY(); }
uint64_t dirty_flag() { return DirtyFlag; }
uint64_t migration_flag() { return MigrationFlag; }
uint64_t absent() { return ((((size_t)1 << 62) - 1) << 3); }
}
