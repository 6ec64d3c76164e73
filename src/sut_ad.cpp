#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "sut_ad.hpp"
// The headers of the two PMDK containers exclude each other, so this file is compiled twice.
#ifdef AD_CLEVEL
#define localThreadNum localThreadNum_clevel
#define fileNameCounter fileNameCounter_clevel
#include "levelMap.hpp"
#else
#include "ucfMap.hpp"
#include "stlMap.hpp"
#include "pmemMap.hpp"
#endif
namespace ad
{
template <class T> struct W : C
{
    T t;
    W(const TestOptions &o, bool r) : t(o, r) {}
    // through the base class, as a user of the common interface has it
    Container &b() { return t; }
    bool insert(uint64_t e) override { return b().insert(e); }
    bool erase(uint64_t e) override { return b().erase(e); }
    bool contains(uint64_t e) override { return b().contains(e); }
    uint64_t get(uint64_t e) override { return b().get(e); }
    uint64_t count() override { return b().count(); }
    uint64_t increment(uint64_t e) override { return b().increment(e); }
    bool consistent() override { return b().isConsistent(); }
};
// the driver defines the default values; without it they are not to be had
union Raw { TestOptions o; Raw() { new (&o.filename) std::string; } ~Raw() { o.filename.std::string::~string(); } };
static TestOptions conv(const Opt &x)
{
    Raw r;
    TestOptions &o = r.o;
    o.numthreads = x.threads; o.numops = x.ops; o.numruns = 1; o.capacity = x.capacity; o.filename = x.file; o.recover = x.recover; o.wipeFile = x.wipe;
    return o;
}
#ifdef AD_CLEVEL
C *make_clevel(const Opt &x, bool r) { return new W<clevel::container_type>(conv(x), r); }
void set_thread_clevel(size_t n) { localThreadNum = n; }
#else
C *make_clevel(const Opt &x, bool r);
void set_thread_clevel(size_t n);
C *make(Kind k, const Opt &x, bool r)
{
    switch (k)
    {
    case UCF: return new W<ucf::container_type>(conv(x), r);
    case STL: return new W<stl::container_type>(conv(x), r);
    case PM: return new W<pm::container_type>(conv(x), r);
    default: return make_clevel(x, r);
    }
}
void set_thread(size_t n) { localThreadNum = n; set_thread_clevel(n); }
#endif
}
