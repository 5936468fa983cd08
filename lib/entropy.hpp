// The operating system's entropy source, replaced at the libc boundary (link with ENTROPY_WRAP).
// Whatever interface the library uses to reach it (stdio, descriptors, getrandom), every byte delivered is
// chosen by the explorer, and every byte consumed is counted.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdio>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <vector>
#include <string>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
namespace ent {
typedef std::vector<unsigned char> Tape;
struct Source {
    Tape tape; size_t pos = 0;      // bytes delivered next
    unsigned long served = 0;       // bytes delivered in all
    unsigned long calls = 0;        // read-like calls
    unsigned long opens = 0;
    unsigned long beyond = 0;       // bytes delivered after the end of the tape (a fixed, never repeating filler)
    uint64_t ctr = 0;
    void load(const Tape &t) { tape = t; pos = 0; served = calls = beyond = 0; ctr = 0; }
    unsigned char byte() {
        served++;
        if (pos < tape.size()) return tape[pos++];
        beyond++; uint64_t x = ++ctr * 0x9E3779B97F4A7C15ull; x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; return x >> 56;
    }
};
inline Source &src() { static Source s; return s; }
// Optional fault plan: called once per read-like request; returns how many of `want` bytes to deliver (0: end of file, -1: error EIO, -2: EINTR)
inline long (*&plan())(size_t want, bool stdio) { static long (*p)(size_t, bool) = nullptr; return p; }
inline unsigned char (*&byte_fn())() { static unsigned char (*p)() = nullptr; return p; } // replaces the tape
inline bool &passthrough() { static bool p = false; return p; } // use the real device
inline bool (*&open_plan())() { static bool (*p)() = nullptr; return p; } // false: opening fails
inline std::set<int> &fds() { static std::set<int> f; return f; }
inline bool is_source(const char *p) { return p && !passthrough() && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
// `stdio` requests deliver one byte per request unless a plan says otherwise, so that nothing is prefetched and consumption is exact
inline ssize_t deliver(void *b, size_t n, bool stdio) {
    src().calls++; long k = (long)n;
    if (plan()) k = plan()(n, stdio); else if (stdio && n > 1) k = 1;
    if (k == -1) { errno = EIO; return -1; }
    if (k == -2) { errno = EINTR; return -1; }
    if (k > (long)n) k = n;
    for (long i = 0; i < k; i++) ((unsigned char *)b)[i] = byte_fn() ? byte_fn()() : src().byte();
    return k;
}
inline ssize_t cookie_read(void *, char *b, size_t n) { return deliver(b, n, true); }
inline FILE *open_stream() { src().opens++; if (open_plan() && !open_plan()()) { errno = EMFILE; return nullptr; } cookie_io_functions_t f = {cookie_read, nullptr, nullptr, nullptr}; return fopencookie(nullptr, "rb", f); }
inline int open_fd();
}
extern "C" {
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *); FILE *__real_fdopen(int, const char *);
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_openat(int, const char *, int, ...); int __real_close(int);
ssize_t __real_read(int, void *, size_t); long __real_syscall(long, ...);
FILE *__wrap_fopen(const char *p, const char *m) { return ent::is_source(p) ? ent::open_stream() : __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return ent::is_source(p) ? ent::open_stream() : __real_fopen64(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) { return ent::fds().count(fd) ? ent::open_stream() : __real_fdopen(fd, m); }
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return ent::is_source(p) ? ent::open_fd() : __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return ent::is_source(p) ? ent::open_fd() : __real_open64(p, f, m); }
int __wrap_openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return ent::is_source(p) ? ent::open_fd() : __real_openat(d, p, f, m); }
int __wrap_close(int fd) { ent::fds().erase(fd); return __real_close(fd); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return ent::fds().count(fd) ? ent::deliver(b, n, false) : __real_read(fd, b, n); }
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t) { return __wrap_read(fd, b, n); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) { if (ent::passthrough()) return __real_syscall(SYS_getrandom, b, n, fl); return ent::deliver(b, n, false); }
int __wrap_getentropy(void *b, size_t n) { if (ent::passthrough()) return __real_syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; if (n > 256) { errno = EIO; return -1; } ssize_t k = ent::deliver(b, n, false); if (k != (ssize_t)n) { if (k >= 0) errno = EIO; return -1; } return 0; }
long __wrap_syscall(long n, ...) { va_list a; va_start(a, n); long x[6]; for (int i = 0; i < 6; i++) x[i] = va_arg(a, long); va_end(a); if (n == SYS_getrandom && !ent::passthrough()) return ent::deliver((void *)x[0], x[1], false); return __real_syscall(n, x[0], x[1], x[2], x[3], x[4], x[5]); }
}
inline int ent::open_fd() { src().opens++; if (open_plan() && !open_plan()()) { errno = EMFILE; return -1; } int fd = __real_open("/dev/null", O_RDONLY); if (fd >= 0) fds().insert(fd); return fd; }
