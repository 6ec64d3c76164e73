#include "pm.hpp"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace pm
{
bool enabled = false;
bool durable = true;
size_t clamp_pool = 0;
uint64_t fail_alloc_at = 0, allocs = 0;
constexpr size_t LINE = 64;
struct Map { char *base; size_t len; char *img; int fd; off_t off; };
static std::vector<Map> maps;
static uint64_t nflush, seq;
static std::unordered_map<uint64_t, uint64_t> committed; // line -> seq of the last write-back
struct Pend { uint64_t line; uint64_t seq; char data[LINE]; };
static thread_local std::vector<Pend> *pend;

static void *sys_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off)
{
    return (void *)syscall(SYS_mmap, a, n, prot, fl, fd, off);
}
static Map *find(const void *p)
{
    for (auto &m : maps) if ((char *)p >= m.base && (char *)p < m.base + m.len) return &m;
    return nullptr;
}
bool tracked(const void *p) { return find(p); }
uint64_t flushes() { return nflush; }
static void flush(const void *p, size_t n)
{
    ++nflush;
    if (!durable || !n) return;
    Map *m = find(p);
    if (!m) return;
    if (!pend) pend = new std::vector<Pend>;
    char *a = (char *)((uintptr_t)p & ~(LINE - 1)), *e = std::min((char *)p + n, m->base + m->len);
    for (; a < e; a += LINE)
    {
        Pend x; x.line = (uint64_t)a; x.seq = ++seq;
        memcpy(x.data, a, LINE);
        pend->push_back(x);
    }
}
static void drain()
{
    if (!durable || !pend) return;
    for (auto &x : *pend)
    {
        uint64_t &c = committed[x.line];
        if (c > x.seq) continue;
        c = x.seq;
        Map *m = find((void *)x.line);
        if (m) memcpy(m->img + ((char *)x.line - m->base), x.data, LINE);
    }
    pend->clear();
}
static std::vector<char *> touched_pages(const Map &m)
{
    std::vector<char *> v;
    int fd = open("/proc/self/pagemap", O_RDONLY);
    size_t n = m.len / 4096;
    std::vector<uint64_t> pg(n, 0);
    bool ok = fd >= 0 && pread(fd, pg.data(), n * 8, (uintptr_t)m.base / 4096 * 8) == (ssize_t)(n * 8);
    if (fd >= 0) close(fd);
    for (size_t i = 0; i < n; ++i)
        if (!ok || (pg[i] >> 62 && !(pg[i] >> 61 & 1))) // present or swapped, and anonymous: written by us
            v.push_back(m.base + i * 4096);
    return v;
}
template <class F> static void dirty_lines(F f)
{
    for (auto &m : maps)
        for (char *pg : touched_pages(m))
        {
            char *im = m.img + (pg - m.base);
            if (!memcmp(pg, im, 4096)) continue;
            for (size_t i = 0; i < 4096; i += LINE)
                if (memcmp(pg + i, im + i, LINE)) f(m, pg + i, im + i);
        }
}
CrashStats power_failure(int policy, uint64_t seed)
{
    CrashStats c{};
    dirty_lines([&](Map &, char *a, char *im) {
        ++c.dirty;
        bool keep = false;
        switch (policy)
        {
        case 0: break;
        case 1: keep = true; break;
        case 2: keep = eng::splitmix(seed) & 1; break;
        case 3: keep = (eng::splitmix(seed) & 7) == 0; break;
        default: keep = (eng::splitmix(seed) & 7) != 0; break;
        }
        if (keep) { memcpy(im, a, LINE); ++c.kept; } else ++c.lost;
    });
    return c;
}
void evict(uint64_t seed, unsigned num, unsigned den)
{
    dirty_lines([&](Map &, char *a, char *im) {
        if (eng::splitmix(seed) % den < num)
        {
            memcpy(im, a, LINE);
            committed[(uint64_t)a] = ++seq;
        }
    });
}
void sync_all()
{
    dirty_lines([&](Map &, char *a, char *im) { memcpy(im, a, LINE); });
}
void prepare_env()
{
    eng::extra_env.push_back({"PMEMOBJ_CONF", "sds.at_create=0"});              // keeps libndctl out
    eng::extra_env.push_back({"PMEMOBJ_NLANES", "64"});                          // as in shrink_lanes, which all users call with it
    eng::extra_env.push_back({"GLIBC_TUNABLES", "glibc.malloc.hugetlb=1"});     // fewer page faults per session
}
void crash_exit() { _exit(0); }
void shrink_lanes(const std::string &file, unsigned n)
{
    // struct pmemobjpool: 4096-byte header; then 2048 bytes: layout[1024], lanes_offset, nlanes, heap_offset, ..., checksum
    int fd = open(file.c_str(), O_RDWR);
    uint32_t w[512];
    if (fd < 0 || pread(fd, w, sizeof w, 4096) != sizeof w) { perror("shrink_lanes"); _exit(3); }
    auto sum = [&] {
        uint32_t lo = 0, hi = 0;
        for (int i = 0; i < 510; ++i) { lo += w[i]; hi += lo; }
        hi += lo; hi += lo;
        return (uint64_t)hi << 32 | lo;
    };
    uint64_t c;
    memcpy(&c, w + 510, 8);
    uint64_t lanes;
    memcpy(&lanes, w + 258, 8);
    if (c == sum() && lanes == 1024) // otherwise this is a layout we do not know: leave it alone
    {
        lanes = n;
        memcpy(w + 258, &lanes, 8);
        c = sum();
        memcpy(w + 510, &c, 8);
        if (pwrite(fd, w, sizeof w, 4096) != sizeof w) { perror("shrink_lanes"); _exit(3); }
    }
    close(fd);
}
void copy_sparse(const std::string &from, const std::string &to)
{
    int a = open(from.c_str(), O_RDONLY), b = open(to.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    struct stat st;
    if (a < 0 || b < 0 || fstat(a, &st) || ftruncate(b, st.st_size)) { perror("copy pool"); _exit(3); }
    static std::string last; static std::vector<std::pair<off_t, std::string>> runs; // contents of the last source
    if (last != from)
    {
        runs.clear(); last = from;
        std::vector<char> pg(4096); std::vector<char> z(4096, 0);
        for (off_t o = 0; o < st.st_size; o += 4096)
        {
            ssize_t r = pread(a, pg.data(), 4096, o);
            if (r <= 0) break;
            if (!memcmp(pg.data(), z.data(), r)) continue;
            if (!runs.empty() && runs.back().first + (off_t)runs.back().second.size() == o) runs.back().second.append(pg.data(), r);
            else runs.push_back({o, std::string(pg.data(), r)});
        }
    }
    for (auto &r : runs) if (pwrite(b, r.second.data(), r.second.size(), r.first) != (ssize_t)r.second.size()) { perror("copy pool"); _exit(3); }
    close(a); close(b);
}
}
using namespace pm;

#define NEXT(ret, name, ...) static auto real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
extern "C"
{
void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) noexcept
{
    if (!enabled || fd < 0 || (flags & MAP_TYPE) == MAP_PRIVATE) return sys_mmap(addr, len, prot, flags, fd, off);
    if (flags & MAP_SYNC) { errno = EOPNOTSUPP; return MAP_FAILED; }
    struct stat st;
    if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return sys_mmap(addr, len, prot, flags, fd, off);
    int fl = (flags & ~MAP_TYPE) | MAP_PRIVATE;
    void *p = sys_mmap(addr, len, prot | PROT_READ, fl | MAP_NORESERVE, fd, off);
    if (p == MAP_FAILED) return p;
    if (durable)
    {
        void *im = sys_mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, off);
        if (im == MAP_FAILED) { munmap(p, len); errno = ENOMEM; return MAP_FAILED; }
        maps.push_back({(char *)p, (len + 4095) & ~4095ul, (char *)im, fd, off});
    }
    else maps.push_back({(char *)p, (len + 4095) & ~4095ul, nullptr, fd, off});
    return p;
}
int munmap(void *a, size_t n) noexcept
{
    if (enabled)
        for (size_t i = 0; i < maps.size(); ++i)
            if (maps[i].base == (char *)a)
            {
                if (durable)
                {
                    for (char *pg : touched_pages(maps[i]))
                        if (memcmp(pg, maps[i].img + (pg - maps[i].base), 4096)) memcpy(maps[i].img + (pg - maps[i].base), pg, 4096);
                    syscall(SYS_munmap, maps[i].img, maps[i].len);
                }
                maps.erase(maps.begin() + i);
                break;
            }
    return syscall(SYS_munmap, a, n);
}
int posix_fallocate(int fd, off_t off, off_t len)
{
    NEXT(int, posix_fallocate, int, off_t, off_t);
    if (!enabled) return real(fd, off, len);
    struct stat st;
    if (fstat(fd, &st)) return errno;
    if (st.st_size < off + len && ftruncate(fd, off + len)) return errno;
    return 0;
}
int pmem_is_pmem(const void *, size_t) { return 1; }
void pmem_flush(const void *p, size_t n) { vrt::point(vrt::K_FLUSH); flush(p, n); }
void pmem_drain(void) { drain(); vrt::point(vrt::K_FLUSH); }
void pmem_persist(const void *p, size_t n) { vrt::point(vrt::K_FLUSH); flush(p, n); drain(); }
int pmem_msync(const void *p, size_t n) { pmem_persist(p, n); return 0; }
void pmem_deep_flush(const void *p, size_t n) { pmem_flush(p, n); }
int pmem_deep_persist(const void *p, size_t n) { pmem_persist(p, n); return 0; }
int pmem_deep_drain(const void *, size_t) { pmem_drain(); return 0; }
static void after(void *d, size_t n, unsigned flags)
{
    if (flags & (1u << 5)) return; // no flush
    if (flags & 1u) { pmem_flush(d, n); return; }
    pmem_persist(d, n);
}
void *pmem_memcpy(void *d, const void *s, size_t n, unsigned f) { vrt::point(vrt::K_FLUSH); memcpy(d, s, n); after(d, n, f); return d; }
void *pmem_memmove(void *d, const void *s, size_t n, unsigned f) { vrt::point(vrt::K_FLUSH); memmove(d, s, n); after(d, n, f); return d; }
void *pmem_memset(void *d, int c, size_t n, unsigned f) { vrt::point(vrt::K_FLUSH); memset(d, c, n); after(d, n, f); return d; }

struct pmemobjpool;
struct Oid { uint64_t a, b; };
static size_t asize(size_t n)
{
    if (!enabled) return n;
    ++allocs;
    return fail_alloc_at && allocs == fail_alloc_at ? (size_t)1 << 50 : n;
}
Oid pmemobj_tx_alloc(size_t n, uint64_t t) { NEXT(Oid, pmemobj_tx_alloc, size_t, uint64_t); return real(asize(n), t); }
Oid pmemobj_tx_zalloc(size_t n, uint64_t t) { NEXT(Oid, pmemobj_tx_zalloc, size_t, uint64_t); return real(asize(n), t); }
Oid pmemobj_tx_xalloc(size_t n, uint64_t t, uint64_t f) { NEXT(Oid, pmemobj_tx_xalloc, size_t, uint64_t, uint64_t); return real(asize(n), t, f); }
int pmemobj_xalloc(pmemobjpool *p, Oid *o, size_t n, uint64_t t, uint64_t f, int (*c)(pmemobjpool *, void *, void *), void *arg)
{
    NEXT(int, pmemobj_xalloc, pmemobjpool *, Oid *, size_t, uint64_t, uint64_t, int (*)(pmemobjpool *, void *, void *), void *);
    return real(p, o, asize(n), t, f, c, arg);
}
int pmemobj_alloc(pmemobjpool *p, Oid *o, size_t n, uint64_t t, int (*c)(pmemobjpool *, void *, void *), void *arg)
{
    NEXT(int, pmemobj_alloc, pmemobjpool *, Oid *, size_t, uint64_t, int (*)(pmemobjpool *, void *, void *), void *);
    return real(p, o, asize(n), t, c, arg);
}
pmemobjpool *pmemobj_create(const char *path, const char *layout, size_t size, mode_t mode)
{
    NEXT(pmemobjpool *, pmemobj_create, const char *, const char *, size_t, mode_t);
    if (enabled && clamp_pool && size > clamp_pool) size = clamp_pool;
    return real(path, layout, size, mode);
}
}
// The lock of a process that has just ended may linger for a moment.
#include <ctime>
#include <sys/file.h>
int pm::lock_tries = 40;
extern "C" int flock(int fd, int op)
{
    static auto real = (int (*)(int, int))dlsym(RTLD_NEXT, "flock");
    int r = real(fd, op);
    for (int i = 0; r && enabled && (op & LOCK_NB) && errno == EWOULDBLOCK && i < lock_tries; ++i)
    {
        timespec t{0, 3000000};
        nanosleep(&t, nullptr);
        r = real(fd, op);
    }
    return r;
}
