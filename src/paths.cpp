#include "paths.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
namespace paths
{
static std::vector<std::pair<std::string, std::string>> rules;
void redirect(const std::string &p, const std::string &d) { rules.push_back({p, d}); }
void reset() { rules.clear(); }
static std::string rp(const char *p)
{
    if (!p) return "";
    for (auto &r : rules)
        if (!strncmp(p, r.first.c_str(), r.first.size()) && (p[r.first.size()] == 0 || p[r.first.size()] == '/')) return r.second + (p + r.first.size());
    return p;
}
}
using paths::rp;
#define REALF(ret, name, ...) static auto real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
extern "C"
{
static int do_openat(int d, const char *p, int flags, mode_t m)
{
    REALF(int, openat, int, const char *, int, ...);
    return real_openat(d, rp(p).c_str(), flags, m);
}
static mode_t get_mode(int flags, va_list ap) { return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; }
#define MODE mode_t m; { va_list ap; va_start(ap, flags); m = get_mode(flags, ap); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_openat(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_openat(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_openat(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_openat(d, p, flags, m); }
int __open_2(const char *p, int flags) { return do_openat(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_openat(AT_FDCWD, p, flags, 0); }
int __openat_2(int d, const char *p, int flags) { return do_openat(d, p, flags, 0); }
int __openat64_2(int d, const char *p, int flags) { return do_openat(d, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_openat(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
#define PATH1(ret, name, proto, args, ...) \
    ret name proto { REALF(ret, name, __VA_ARGS__); std::string q = rp(p); return real_##name args; }
PATH1(int, stat, (const char *p, struct stat *s) noexcept, (q.c_str(), s), const char *, struct stat *)
PATH1(int, lstat, (const char *p, struct stat *s) noexcept, (q.c_str(), s), const char *, struct stat *)
PATH1(int, stat64, (const char *p, struct stat64 *s) noexcept, (q.c_str(), s), const char *, struct stat64 *)
PATH1(int, lstat64, (const char *p, struct stat64 *s) noexcept, (q.c_str(), s), const char *, struct stat64 *)
PATH1(int, access, (const char *p, int m) noexcept, (q.c_str(), m), const char *, int)
PATH1(int, mkdir, (const char *p, mode_t m) noexcept, (q.c_str(), m), const char *, mode_t)
PATH1(DIR *, opendir, (const char *p), (q.c_str()), const char *)
PATH1(int, truncate, (const char *p, off_t n) noexcept, (q.c_str(), n), const char *, off_t)
PATH1(int, fstatat, (int d, const char *p, struct stat *s, int fl) noexcept, (d, q.c_str(), s, fl), int, const char *, struct stat *, int)
PATH1(int, fstatat64, (int d, const char *p, struct stat64 *s, int fl) noexcept, (d, q.c_str(), s, fl), int, const char *, struct stat64 *, int)
PATH1(FILE *, fopen, (const char *p, const char *m), (q.c_str(), m), const char *, const char *)
PATH1(FILE *, fopen64, (const char *p, const char *m), (q.c_str(), m), const char *, const char *)
PATH1(int, unlink, (const char *p) noexcept, (q.c_str()), const char *)
PATH1(int, unlinkat, (int d, const char *p, int fl) noexcept, (d, q.c_str(), fl), int, const char *, int)
PATH1(int, remove, (const char *p) noexcept, (q.c_str()), const char *)
PATH1(int, chmod, (const char *p, mode_t m) noexcept, (q.c_str(), m), const char *, mode_t)
int rename(const char *a, const char *b) noexcept
{
    REALF(int, rename, const char *, const char *);
    return real_rename(rp(a).c_str(), rp(b).c_str());
}
}
