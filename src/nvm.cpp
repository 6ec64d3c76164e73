#include "nvm.hpp"
#include "vrt.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace nvm
{
constexpr size_t L = 64;
struct Ver { uint64_t no; uint8_t d[L]; };
struct Line { uint64_t vno = 0, pvno = 0; std::vector<Ver> vers; };
struct File
{
    ino_t ino; std::string path; size_t len = 0;
    uint8_t *alias = nullptr;
    std::vector<uint8_t> P;
    std::vector<Line> lines;
};
struct Region { char *a; size_t n; size_t off; std::shared_ptr<File> f; };
static std::string g_prefix, g_dir;
static std::map<ino_t, std::shared_ptr<File>> files;
static std::vector<Region> regions;
static std::map<int, ino_t> fds;
struct Pend { std::shared_ptr<File> f; size_t line; uint64_t vno; uint8_t d[L]; };
static std::map<int, std::vector<Pend>> pending;
static std::vector<Fault> faults;
static unsigned nfault, ncalls[SYS_N];

#define REALF(ret, name, ...) static auto real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

void redirect(const std::string &prefix, const std::string &dir) { g_prefix = prefix; g_dir = dir; }
void reset()
{
    end_session();
    for (auto &f : files) if (f.second->alias) { vrt::Pause p; REALF(int, munmap, void *, size_t); real_munmap(f.second->alias, f.second->len); }
    files.clear(); pending.clear(); fds.clear(); faults.clear(); nfault = 0; memset(ncalls, 0, sizeof ncalls);
}
void arm(const Fault &f) { faults.push_back(f); }
void disarm() { faults.clear(); }
unsigned faults_hit() { return nfault; }
unsigned calls(int s) { return ncalls[s]; }
int open_fds() { return fds.size(); }
static bool inject(int sys)
{
    ++ncalls[sys];
    for (auto &f : faults)
        if (f.sys == sys)
        {
            if (f.nth > 1) { --f.nth; continue; }
            if (f.count > 0) { --f.count; ++nfault; errno = f.err; return true; }
        }
    return false;
}
static bool redirected(const char *p)
{
    return p && !g_prefix.empty() && !strncmp(p, g_prefix.c_str(), g_prefix.size()) && (p[g_prefix.size()] == 0 || p[g_prefix.size()] == '/');
}
static std::string rp(const char *p) { return redirected(p) ? g_dir + (p + g_prefix.size()) : std::string(p); }
static bool is_tracked_path(const std::string &p) { return !g_dir.empty() && p.compare(0, g_dir.size(), g_dir) == 0; }

static Region *find(const void *a)
{
    for (auto &r : regions)
        if ((char *)a >= r.a && (char *)a < r.a + r.n) return &r;
    return nullptr;
}
bool tracked(const void *a) { return find(a) != nullptr; }
void on_write(void *a, size_t n)
{
    if (regions.empty()) return;
    Region *r = find(a);
    if (!r) return;
    size_t o = r->off + ((char *)a - r->a);
    for (size_t l = o / L; l <= (o + n - 1) / L && l < r->f->lines.size(); ++l)
    {
        Line &x = r->f->lines[l];
        Ver v; v.no = x.vno++;
        memcpy(v.d, r->f->alias + l * L, L);
        if (x.vers.size() > 24) x.vers.erase(x.vers.begin() + 1 + (x.vno % 20));
        x.vers.push_back(v);
    }
}
extern "C" void vnvm_flush(const void *p)
{
    vrt::point(vrt::K_FLUSH);
    Region *r = find(p);
    if (!r) return;
    size_t o = r->off + ((char *)p - r->a);
    size_t l = o / L;
    if (l >= r->f->lines.size()) return;
    Pend q; q.f = r->f; q.line = l; q.vno = r->f->lines[l].vno;
    memcpy(q.d, r->f->alias + l * L, L);
    pending[vrt::self()].push_back(q);
}
extern "C" void vnvm_fence(void)
{
    vrt::point(vrt::K_FLUSH);
    auto &v = pending[vrt::self()];
    for (auto &q : v)
    {
        Line &x = q.f->lines[q.line];
        if (q.vno < x.pvno) continue;
        x.pvno = q.vno;
        memcpy(&q.f->P[q.line * L], q.d, L);
        std::erase_if(x.vers, [&](Ver &w) { return w.no < q.vno; });
    }
    v.clear();
}
unsigned unpersisted_lines()
{
    unsigned n = 0;
    for (auto &kv : files)
        for (size_t l = 0; l < kv.second->lines.size(); ++l)
            if (memcmp(kv.second->alias + l * L, &kv.second->P[l * L], L)) ++n;
    return n;
}
CrashStats power_failure(int policy, eng::Src &s)
{
    CrashStats st{};
    for (auto &kv : files)
    {
        File &f = *kv.second;
        for (size_t l = 0; l < f.lines.size(); ++l)
        {
            uint8_t *cur = f.alias + l * L, *p = &f.P[l * L];
            Line &x = f.lines[l];
            bool diff = memcmp(cur, p, L) != 0;
            if (diff)
            {
                ++st.dirty_lines;
                int c = policy == 0 ? 0 : policy == 1 ? 1 : (int)s.below(3);
                if (c == 2)
                {
                    std::vector<Ver *> vs;
                    for (auto &v : x.vers) if (v.no >= x.pvno) vs.push_back(&v);
                    if (vs.empty()) c = 0;
                    else { memcpy(cur, vs[s.below(vs.size())]->d, L); ++st.partial_lines; }
                }
                if (c == 0) { memcpy(cur, p, L); ++st.lost_lines; }
            }
            memcpy(p, cur, L);
            x.vers.clear(); x.vno = x.pvno = 0;
        }
    }
    pending.clear();
    return st;
}
void end_session()
{
    vrt::Pause pz;
    REALF(int, munmap, void *, size_t);
    REALF(int, close, int);
    for (auto &r : regions) real_munmap(r.a, r.n);
    regions.clear();
    pending.clear();
    for (auto &f : fds) real_close(f.first);
    fds.clear();
    // versions survive: unflushed data of an ended session is still volatile
}
}
using namespace nvm;

extern "C"
{
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    REALF(int, openat, int, const char *, int, ...);
    bool rd = redirected(path);
    std::string p = rp(path);
    bool tr = is_tracked_path(p);
    if (tr && vrt::active()) vrt::point(vrt::K_SYS);
    if (rd && !(flags & O_DIRECTORY) && inject(SYS_OPEN)) return -1;
    int fd = real_openat(dirfd, p.c_str(), flags, mode);
    if (fd >= 0 && tr)
    {
        struct stat st;
        REALF(int, fstat, int, struct stat *);
        if (real_fstat(fd, &st) == 0 && S_ISREG(st.st_mode))
        {
            fds[fd] = st.st_ino;
            auto it = files.find(st.st_ino);
            if (it != files.end() && (flags & O_TRUNC) && it->second->len)
            {
                REALF(int, munmap, void *, size_t);
                real_munmap(it->second->alias, it->second->len);
                files.erase(it);
            }
        }
    }
    if (tr && vrt::active()) vrt::point(vrt::K_SYS);
    return fd;
}
static mode_t get_mode(int flags, va_list ap) { return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; }
int open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = get_mode(flags, ap); va_end(ap); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = get_mode(flags, ap); va_end(ap); return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = get_mode(flags, ap); va_end(ap); return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = get_mode(flags, ap); va_end(ap); return do_open(d, p, flags, m); }
// the names that fortified callers (libstdc++ among them) use
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __openat_2(int d, const char *p, int flags) { return do_open(d, p, flags, 0); }
int __openat64_2(int d, const char *p, int flags) { return do_open(d, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int do_trunc(int fd, off_t n)
{
    REALF(int, ftruncate, int, off_t);
    auto it = fds.find(fd);
    if (it == fds.end()) return real_ftruncate(fd, n);
    if (vrt::active()) vrt::point(vrt::K_SYS);
    if (inject(SYS_TRUNC)) return -1;
    int r = real_ftruncate(fd, n);
    if (vrt::active()) vrt::point(vrt::K_SYS);
    return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }
static int do_falloc(int fd, off_t off, off_t n)
{
    REALF(int, posix_fallocate, int, off_t, off_t);
    auto it = fds.find(fd);
    if (it == fds.end()) return real_posix_fallocate(fd, off, n);
    if (vrt::active()) vrt::point(vrt::K_SYS);
    if (inject(SYS_TRUNC)) return errno;
    return real_posix_fallocate(fd, off, n);
}
int posix_fallocate(int fd, off_t off, off_t n) { return do_falloc(fd, off, n); }
int posix_fallocate64(int fd, off_t off, off_t n) { return do_falloc(fd, off, n); }

static void *do_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    REALF(void *, mmap, void *, size_t, int, int, int, off_t);
    auto it = fd >= 0 ? fds.find(fd) : fds.end();
    if (it == fds.end()) return real_mmap(a, n, prot, flags, fd, off);
    if (vrt::active()) vrt::point(vrt::K_SYS);
    if (inject(SYS_MMAP)) return MAP_FAILED;
    void *p = real_mmap(a, n, prot, flags, fd, off);
    if (p == MAP_FAILED || !(flags & MAP_SHARED)) return p;
    struct stat st;
    REALF(int, fstat, int, struct stat *);
    real_fstat(fd, &st);
    auto &f = files[it->second];
    if (!f) { f = std::make_shared<File>(); f->ino = it->second; }
    if (f->len != (size_t)st.st_size && st.st_size > 0)
    {
        size_t len = (st.st_size + L - 1) / L * L;
        uint8_t *al = (uint8_t *)real_mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (al == (uint8_t *)MAP_FAILED)
        {
            // opened read-only: reading is enough
            al = (uint8_t *)real_mmap(nullptr, len, PROT_READ, MAP_SHARED, fd, 0);
            if (al == (uint8_t *)MAP_FAILED) { perror("nvm alias"); _exit(3); }
        }
        if (f->alias) { REALF(int, munmap, void *, size_t); real_munmap(f->alias, f->len); }
        size_t old = f->P.size();
        f->alias = al; f->len = st.st_size;
        f->P.resize(len); f->lines.resize(len / L);
        if (len > old) memcpy(&f->P[old], al + old, len - old);
    }
    regions.push_back({(char *)p, n, (size_t)off, f});
    if (vrt::active()) vrt::point(vrt::K_SYS);
    return p;
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) { return do_mmap(a, n, prot, flags, fd, off); }
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off_t off) { return do_mmap(a, n, prot, flags, fd, off); }
int munmap(void *a, size_t n)
{
    REALF(int, munmap, void *, size_t);
    int r = real_munmap(a, n);
    if (r == 0)
        for (size_t i = 0; i < regions.size(); ++i)
            if (regions[i].a == a) { regions.erase(regions.begin() + i); break; }
    return r;
}
int msync(void *a, size_t n, int fl)
{
    REALF(int, msync, void *, size_t, int);
    if (find(a)) { for (size_t i = 0; i < n; i += L) vnvm_flush((char *)a + i); vnvm_fence(); return 0; }
    return real_msync(a, n, fl);
}
int close(int fd)
{
    REALF(int, close, int);
    fds.erase(fd);
    return real_close(fd);
}
int fstat(int fd, struct stat *st)
{
    REALF(int, fstat, int, struct stat *);
    if (fds.count(fd) && inject(SYS_FSTAT)) return -1;
    return real_fstat(fd, st);
}
int fstat64(int fd, struct stat64 *st)
{
    REALF(int, fstat64, int, struct stat64 *);
    if (fds.count(fd) && inject(SYS_FSTAT)) return -1;
    return real_fstat64(fd, st);
}
#define PATH1(ret, name, proto, args, ...) \
    ret name proto { REALF(ret, name, __VA_ARGS__); std::string q = rp(p); return real_##name args; }
PATH1(int, stat, (const char *p, struct stat *s), (q.c_str(), s), const char *, struct stat *)
PATH1(int, lstat, (const char *p, struct stat *s), (q.c_str(), s), const char *, struct stat *)
PATH1(int, stat64, (const char *p, struct stat64 *s), (q.c_str(), s), const char *, struct stat64 *)
PATH1(int, lstat64, (const char *p, struct stat64 *s), (q.c_str(), s), const char *, struct stat64 *)
PATH1(int, access, (const char *p, int m), (q.c_str(), m), const char *, int)
PATH1(int, mkdir, (const char *p, mode_t m), (q.c_str(), m), const char *, mode_t)
PATH1(DIR *, opendir, (const char *p), (q.c_str()), const char *)
PATH1(int, truncate, (const char *p, off_t n), (q.c_str(), n), const char *, off_t)
int fstatat(int d, const char *p, struct stat *s, int fl) { REALF(int, fstatat, int, const char *, struct stat *, int); std::string q = rp(p); return real_fstatat(d, q.c_str(), s, fl); }
int fstatat64(int d, const char *p, struct stat64 *s, int fl) { REALF(int, fstatat64, int, const char *, struct stat64 *, int); std::string q = rp(p); return real_fstatat64(d, q.c_str(), s, fl); }
FILE *fopen(const char *p, const char *m) { REALF(FILE *, fopen, const char *, const char *); std::string q = rp(p); return real_fopen(q.c_str(), m); }
FILE *fopen64(const char *p, const char *m) { REALF(FILE *, fopen64, const char *, const char *); std::string q = rp(p); return real_fopen64(q.c_str(), m); }

static void forget(const std::string &q)
{
    struct stat st;
    REALF(int, lstat, const char *, struct stat *);
    if (real_lstat(q.c_str(), &st) == 0 && st.st_nlink <= 1)
    {
        auto it = files.find(st.st_ino);
        if (it != files.end())
        {
            std::shared_ptr<File> f = it->second;
            files.erase(it); // keeps living in its regions, but is not part of a later crash image
        }
    }
}
static int do_unlink(int d, const char *p, int fl, bool rm)
{
    REALF(int, unlinkat, int, const char *, int);
    REALF(int, remove, const char *);
    std::string q = rp(p);
    bool tr = is_tracked_path(q);
    if (tr && vrt::active()) vrt::point(vrt::K_SYS);
    if (redirected(p) && inject(SYS_UNLINK)) return -1;
    if (tr) forget(q);
    int r = rm ? real_remove(q.c_str()) : real_unlinkat(d, q.c_str(), fl);
    if (tr && vrt::active()) vrt::point(vrt::K_SYS);
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0, false); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl, false); }
int remove(const char *p) { return do_unlink(AT_FDCWD, p, 0, true); }
int rename(const char *a, const char *b)
{
    REALF(int, rename, const char *, const char *);
    std::string qa = rp(a), qb = rp(b);
    bool tr = is_tracked_path(qa);
    if (tr && vrt::active()) vrt::point(vrt::K_SYS);
    if (redirected(a) && inject(SYS_RENAME)) return -1;
    if (is_tracked_path(qb)) forget(qb);
    int r = real_rename(qa.c_str(), qb.c_str());
    if (tr && vrt::active()) vrt::point(vrt::K_SYS);
    return r;
}
}
