// Thin interface to the PMap core, compiled with instrumentation in sut_ucf.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace sut
{
extern int hash_mode; // 0: the identity (what std::hash is), 1: a mixing hash, 2: consecutive slots for consecutive keys
struct Map;
Map *open_map(const char *dir, size_t capacity, bool recover);
uint64_t put(Map *, uint64_t k, uint64_t v);
uint64_t get(Map *, uint64_t k);
bool contains(Map *, uint64_t k);
bool remove(Map *, uint64_t k);
bool remove_if(Map *, uint64_t k, uint64_t v);
bool replace(Map *, uint64_t k, uint64_t o, uint64_t n);
uint64_t put_if_absent(Map *, uint64_t k, uint64_t v);
uint64_t increment(Map *, uint64_t k);
uint64_t update_to(Map *, uint64_t k, uint64_t v); // update() with the plain CAS function
size_t size(Map *);
bool is_empty(Map *);
bool key_reserved(uint64_t k);
bool value_reserved(uint64_t v);
void reset_process(); // what a new process would start with
uint64_t set_mark(uint64_t v, uint64_t f);
uint64_t clear_mark(uint64_t v, uint64_t f);
uint64_t is_marked(uint64_t v, uint64_t f);
// raw persistent cells
uint64_t cell_read(void *cell);
bool cell_cas(void *cell, uint64_t &expected, uint64_t desired);
void cell_store(void *cell, uint64_t v); // initial value, persisted
void persist_range(const void *p, size_t n);
void persist_flush(const void *p, size_t n); // the same in two steps
void persist_barrier();
uint64_t dirty_flag();
uint64_t migration_flag();
uint64_t absent();
}
