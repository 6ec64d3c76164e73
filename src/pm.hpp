// Persistent memory for code on top of libpmemobj. The pool file is the medium: a pool is mapped
// privately, so stores stay in the process (the caches) until they are flushed and fenced (or evicted),
// and a power failure is the end of the process plus, per unflushed line, a decision whether it made it.
#pragma once
#include "engine.hpp"
#include "vrt.hpp"
#include <string>
namespace pm
{
extern bool enabled;         // interposition on (set in session children)
extern size_t clamp_pool;    // pool size limit applied to pmemobj_create (0: none)
extern bool durable;         // keep the medium up to date (needed when a session ends in a power failure or is followed by another)
bool tracked(const void *p); // inside a mapped pool
struct CrashStats { unsigned dirty, kept, lost; };
// What unflushed lines do at a power failure. policy 0: all lost, 1: all kept, 2: coin per line, 3: mostly lost, 4: mostly kept
CrashStats power_failure(int policy, uint64_t seed);
void evict(uint64_t seed, unsigned num, unsigned den); // writes back a random part of the dirty lines now
void sync_all();             // orderly end: everything reaches the medium
uint64_t flushes();
// Runs a session in a forked child. Exit through pm::crash_exit is a normal end, too.
[[noreturn]] void crash_exit();
void prepare_env(); // call at the start of main
void copy_sparse(const std::string &from, const std::string &to);
// allocation failures: the n-th following pmemobj allocation fails (0: never)
extern uint64_t fail_alloc_at;
extern uint64_t allocs;
extern int lock_tries; // how often a refused lock of a file is tried again (that of a process that has just ended may linger)
}
namespace pm
{
// Fewer lanes make opening a pool cheap (libpmemobj recovers every lane); n concurrent transactions remain possible.
void shrink_lanes(const std::string &file, unsigned n);
}
