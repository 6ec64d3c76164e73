// The driver of /repo (runTest.cpp) with each of its workloads, over a container that the harness supplies.
#pragma once
#include "sut_ad.hpp"
#include <cstddef>
#include <cstdint>
#include <string>
namespace drv
{
enum Test { ALT, DEGREE, RANDOM, REDDIT, YCSB, NTEST };
struct Opt { size_t threads, ops, runs, capacity; std::string file; bool recover, wipe; };
// implemented by the harness
struct Hooks
{
    virtual void *create(const Opt &o, bool reconstruct) = 0; // a container
    virtual void destroy(void *c) = 0;
    virtual uint64_t op(void *c, int what, uint64_t el, size_t thread) = 0; // 0 insert, 1 erase, 2 contains, 3 get, 4 count, 5 increment, 6 isConsistent
};
extern Hooks *hooks;
int run(Test t, int argc, char **argv); // the driver's main
size_t share(Test t, size_t threads, size_t total, size_t id); // opsPerThread
size_t main_share(Test t, size_t n);                           // opsMainLoop
const char *test_name(Test t);
}
