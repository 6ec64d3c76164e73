// Level hash map of /repo, compiled with instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>
namespace clv
{
extern int hash_mode;
void create(const char *path);                   // empty pool
void open(const char *path);
void make(int hashpower, unsigned nthreads);     // constructs the map (its expansion thread is adopted by the scheduler); hashpower 2, 3 or 4
void attach();                                   // map of an earlier session
bool insert(uint64_t k, uint64_t v, unsigned thread, bool copy); // true: inserted
bool erase(uint64_t k, unsigned thread);
bool update(uint64_t k, uint64_t v, unsigned thread, bool copy);
bool search(uint64_t k, uint64_t *v);            // v: value in the entry that was found
uint64_t capacity();
}
