// Compiled once per workload, with -D<workload>TestDef -DDRV=<suffix>.
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <sstream>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>
#include "sut_drv.hpp"
#define localThreadNum CAT(localThreadNum, DRV)
#define fileNameCounter CAT(fileNameCounter, DRV)
#define TestOptions CAT(TestOptions, DRV)
#define Test CAT(Test, DRV)
#define YCSBTest CAT(YCSBTest, DRV)
#define container_type_drv CAT(container_type, DRV)
#include "containers/container.hpp"
struct container_type_drv : Container
{
    void *p;
    container_type_drv(const TestOptions &o, bool reconstruct = false)
    {
        p = drv::hooks->create({o.numthreads, o.numops, o.numruns, o.capacity, o.filename, o.recover, o.wipeFile}, reconstruct);
    }
    ~container_type_drv() { drv::hooks->destroy(p); }
    bool insert(ValT e) override { return drv::hooks->op(p, 0, e, localThreadNum); }
    bool erase(ValT e) override { return drv::hooks->op(p, 1, e, localThreadNum); }
    bool contains(KeyT e) override { return drv::hooks->op(p, 2, e, localThreadNum); }
    ValT get(KeyT e) override { return drv::hooks->op(p, 3, e, localThreadNum); }
    size_t count() override { return drv::hooks->op(p, 4, 0, localThreadNum); }
    ValT increment(KeyT e) override { return drv::hooks->op(p, 5, e, localThreadNum); }
    bool isConsistent() override { return drv::hooks->op(p, 6, 0, localThreadNum); }
};
using container_type = container_type_drv;
#define main CAT(sut_main, DRV)
#include "runTest.cpp"
#undef main
namespace drv
{
size_t CAT(share, DRV)(size_t t, size_t n, size_t id) { ThreadInfo ti(nullptr, id, n, t); return Test::opsPerThread(ti.num_threads, ti.pnoiter, ti.num); }
size_t CAT(main_share, DRV)(size_t n) { return Test::opsMainLoop(n); }
const char *CAT(name, DRV)() { return typeid(test_type).name(); }
}
