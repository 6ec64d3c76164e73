// The container adapters of /repo behind one interface, compiled with instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace ad
{
enum Kind { UCF, STL, PM, CLEVEL };
struct Opt { size_t threads, ops, capacity; std::string file; bool recover, wipe; };
struct C
{
    virtual ~C() {}
    virtual bool insert(uint64_t) = 0;
    virtual bool erase(uint64_t) = 0;
    virtual bool contains(uint64_t) = 0;
    virtual uint64_t get(uint64_t) = 0;
    virtual uint64_t count() = 0;
    virtual uint64_t increment(uint64_t) = 0;
    virtual bool consistent() = 0;
};
C *make(Kind k, const Opt &o, bool reconstruct);
void set_thread(size_t n);
}
