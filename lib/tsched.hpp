// Controlled scheduler and race monitor for library code compiled with -fsanitize=thread (compile step only:
// the instrumentation callbacks are implemented here).  Threads are real, one runs at a time, and control
// passes only at synchronisation operations (atomics, locks, once, entropy reads); plain accesses are checked
// for data races with vector clocks.  For code without data races the order of plain accesses is determined
// by the order of the synchronisation operations, so exploring the latter covers the former.
#pragma once
#include "vc.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <stdatomic.h>
#include <unordered_map>
#include <dlfcn.h>
namespace ts {
static const int MAXT = 4, MAXD = 20000;
struct Dec { uint8_t n, cur_enabled, choice; uint8_t opt[MAXT]; };  // one scheduling decision
struct Trace { volatile int nd; volatile int status; volatile unsigned long syncs, accesses; Dec d[MAXD]; char msg[1500]; char res[MAXT][1200]; char alone[MAXT][1200]; };
enum { OK = 0, RACE = 1, DEADLOCK = 2, WRONG = 3 };
typedef unsigned VC_[MAXT];
struct VClk { unsigned c[MAXT] = {0, 0, 0, 0}; void join(const VClk &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Acc { unsigned char mask; signed char tid; bool w; unsigned clk; void *pc; };
struct Cell { std::vector<Acc> a; };
struct Th { pthread_t t; sem_t s; VClk vc; bool done = false; void *waiting = nullptr; char *lo = nullptr, *hi = nullptr; };
struct Mutex { int owner = -1; int depth = 0; VClk vc; int readers = 0; };
struct Once { int st = 0; int by = -1; VClk vc; };
struct RT {
    int n = 0, cur = -1; Th th[MAXT]; sem_t main_sem; Trace *tr = nullptr; std::vector<uint8_t> prefix; 
    std::unordered_map<uintptr_t, Cell> shadow; std::unordered_map<void *, Mutex> mx; std::unordered_map<void *, Once> on; std::unordered_map<void *, VClk> at;
    std::vector<std::function<std::string(int)>> prog; std::string res[MAXT];
};
inline RT &rt() { static RT *r = new RT; return *r; }
inline thread_local int self = -1;
inline thread_local int in_rt = 0;
struct In { In() { in_rt++; } ~In() { in_rt--; } };
inline bool live = false;
inline bool on() { return self >= 0 && !in_rt && live; }
[[noreturn]] inline void stop(int st, const std::string &m) { RT &r = rt(); strncpy(r.tr->msg, m.c_str(), sizeof r.tr->msg - 1); r.tr->status = st; _exit(40 + st); }
inline bool runnable(int i) {
    RT &r = rt(); Th &t = r.th[i]; if (t.done) return false; if (!t.waiting) return true;
    auto m = r.mx.find(t.waiting); if (m != r.mx.end()) return m->second.owner < 0;
    auto o = r.on.find(t.waiting); if (o != r.on.end()) return o->second.st != 1;
    return true;
}
// picks who runs next; called by the running thread (or the main one at the start)
inline void reschedule() {
    RT &r = rt(); int me = self; uint8_t opt[MAXT]; int n = 0; bool ce = false;
    if (me >= 0 && runnable(me)) { opt[n++] = me; ce = true; }
    for (int i = 0; i < r.n; i++) if (i != me && runnable(i)) opt[n++] = i;
    if (!n) {
        bool all = true; for (int i = 0; i < r.n; i++) if (!r.th[i].done) all = false;
        if (all) { r.cur = -1; sem_post(&r.main_sem); return; }
        stop(DEADLOCK, "deadlock: no thread can run");
    }
    int ch = 0;
    if (n > 1) {
        int k = r.tr->nd; if (k >= MAXD) stop(WRONG, "too many scheduling decisions");
        if ((size_t)k < r.prefix.size()) ch = r.prefix[k]; if (ch >= n) ch = 0;
        Dec &d = r.tr->d[k]; d.n = n; d.cur_enabled = ce; d.choice = ch; memcpy(d.opt, opt, sizeof opt); r.tr->nd = k + 1;
    }
    int nx = opt[ch]; r.cur = nx; if (nx == me) return;
    sem_post(&r.th[nx].s);
    if (me >= 0 && !r.th[me].done) while (sem_wait(&r.th[me].s)) {}
}
inline void point() { rt().tr->syncs++; reschedule(); }
inline void tick() { rt().th[self].vc.c[self]++; }
inline void acquire(const VClk &v) { rt().th[self].vc.join(v); }
inline void release(VClk &v) { v.join(rt().th[self].vc); tick(); }
inline std::string where(void *pc) { Dl_info i; if (dladdr((char *)pc - 1, &i) && i.dli_sname) return i.dli_sname; return vc::fmt("%p", pc); }
inline void access(const volatile void *p, size_t n, bool w, void *pc) {
    RT &r = rt(); Th &t = r.th[self]; uintptr_t a = (uintptr_t)p; if ((char *)a >= t.lo && (char *)a < t.hi) return;
    r.tr->accesses++;
    while (n) {
        uintptr_t g = a >> 3; unsigned off = a & 7, k = 8 - off < n ? 8 - off : n; unsigned char m = ((1u << k) - 1) << off;
        auto &v = r.shadow[g].a; bool found = false;
        for (auto &x : v) {
            if (!(x.mask & m)) continue;
            if (x.tid == self) { if (x.mask == m && x.w == w) { x.clk = t.vc.c[self]; found = true; } continue; }
            if ((w || x.w) && x.clk > t.vc.c[(int)x.tid]) stop(RACE, vc::fmt("data race: thread %d %s %zu bytes at %p (in %s) while thread %d %s them (in %s) without synchronisation", self, w ? "writes" : "reads", n, p, where(pc).c_str(), (int)x.tid, x.w ? "writes" : "reads", where(x.pc).c_str()));
        }
        if (!found) { if (w) v.erase(std::remove_if(v.begin(), v.end(), [&](const Acc &x) { return (x.mask & ~m) == 0; }), v.end()); v.push_back({m, (signed char)self, w, t.vc.c[self], pc}); }
        a += k; n -= k;
    }
}
inline void forget(void *p, size_t n) { RT &r = rt(); uintptr_t a = (uintptr_t)p; for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) r.shadow.erase(g); }
inline void *body(void *x) {
    int id = (int)(intptr_t)x; RT &r = rt(); Th &t = r.th[id];
    pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void *lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); t.lo = (char *)lo; t.hi = (char *)lo + sz;
    self = id; while (sem_wait(&t.s)) {}
    std::string s = r.prog[id](id);
    { In g; r.res[id] = s; t.done = true; tick(); reschedule(); self = -1; } // from here on this thread runs beside the others
    return nullptr;
}
// runs the programs under `prefix`; results in rt().res
inline void execute(Trace *tr, const std::vector<std::function<std::string(int)>> &prog, const std::vector<uint8_t> &prefix) {
    RT &r = rt(); r.tr = tr; r.prog = prog; r.prefix = prefix; r.n = prog.size(); tr->nd = 0; tr->status = 0; sem_init(&r.main_sem, 0, 0);
    for (int i = 0; i < r.n; i++) { sem_init(&r.th[i].s, 0, 0); r.th[i].vc.c[i] = 1; }
    for (int i = 0; i < r.n; i++) if (pthread_create(&r.th[i].t, nullptr, body, (void *)(intptr_t)i)) { perror("pthread_create"); _exit(2); }
    live = true; reschedule();
    while (sem_wait(&r.main_sem)) {}
    for (int i = 0; i < r.n; i++) pthread_join(r.th[i].t, nullptr);
    live = false;
}
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void *p) { if (ts::on()) { ts::In g; ts::access(p, N, false, PC); } } void __tsan_write##N(void *p) { if (ts::on()) { ts::In g; ts::access(p, N, true, PC); } } \
    void __tsan_unaligned_read##N(void *p) { if (ts::on()) { ts::In g; ts::access(p, N, false, PC); } } void __tsan_unaligned_write##N(void *p) { if (ts::on()) { ts::In g; ts::access(p, N, true, PC); } } \
    void __tsan_volatile_read##N(void *p) { if (ts::on()) { ts::In g; ts::access(p, N, false, PC); } } void __tsan_volatile_write##N(void *p) { if (ts::on()) { ts::In g; ts::access(p, N, true, PC); } } \
    void __tsan_unaligned_volatile_read##N(void *p) { if (ts::on()) { ts::In g; ts::access(p, N, false, PC); } } void __tsan_unaligned_volatile_write##N(void *p) { if (ts::on()) { ts::In g; ts::access(p, N, true, PC); } } \
    void __tsan_read##N##_pc(void *p, void *) { if (ts::on()) { ts::In g; ts::access(p, N, false, PC); } } void __tsan_write##N##_pc(void *p, void *) { if (ts::on()) { ts::In g; ts::access(p, N, true, PC); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n && ts::on()) { ts::In g; ts::access(p, n, false, PC); } }
void __tsan_write_range(void *p, size_t n) { if (n && ts::on()) { ts::In g; ts::access(p, n, true, PC); } }
}
namespace ts {
inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// an atomic access conflicts with plain ones; it is recorded as synchronised with every other atomic access to the same object
template <class F> auto atomic_op(const volatile void *p, size_t n, bool w, int mo, void *pc, F f) -> decltype(f()) {
    if (!on()) return f();
    In g; point(); RT &r = rt(); auto &v = r.at[(void *)p];
    // order among atomics themselves is not a race: check against plain accesses only
    { uintptr_t a = (uintptr_t)p; auto it = r.shadow.find(a >> 3); if (it != r.shadow.end()) for (auto &x : it->second.a) { unsigned char m = ((1u << n) - 1) << (a & 7); if ((x.mask & m) && x.tid != self && (w || x.w) && x.clk > r.th[self].vc.c[(int)x.tid]) stop(RACE, vc::fmt("data race: thread %d accesses %p atomically (in %s) while thread %d %s it plainly (in %s)", self, (const void *)p, where(pc).c_str(), (int)x.tid, x.w ? "writes" : "reads", where(x.pc).c_str())); } }
    auto res = f(); if (acq(mo)) acquire(v); if (rel(mo) && w) release(v); return res;
}
}
#define AT(BITS, T) \
    T __tsan_atomic##BITS##_load(const volatile T *p, int mo) { return ts::atomic_op(p, sizeof(T), false, mo, PC, [&] { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }); } \
    void __tsan_atomic##BITS##_store(volatile T *p, T v, int mo) { ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return 0; }); } \
    T __tsan_atomic##BITS##_exchange(volatile T *p, T v, int mo) { return ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##BITS##_fetch_add(volatile T *p, T v, int mo) { return ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##BITS##_fetch_sub(volatile T *p, T v, int mo) { return ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##BITS##_fetch_and(volatile T *p, T v, int mo) { return ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##BITS##_fetch_or(volatile T *p, T v, int mo) { return ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##BITS##_fetch_xor(volatile T *p, T v, int mo) { return ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##BITS##_fetch_nand(volatile T *p, T v, int mo) { return ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }); } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { return ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { return (int)__atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { return ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { return (int)__atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { return ts::atomic_op(p, sizeof(T), true, mo, PC, [&] { T x = e; __atomic_compare_exchange_n(p, &x, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return x; }); }
extern "C" {
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (ts::on()) { ts::In g; ts::point(); static ts::VClk f; ts::acquire(f); ts::release(f); } }
void __tsan_atomic_signal_fence(int) {}
// ---- locks
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_once(pthread_once_t *, void (*)());
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *); int __real_pthread_rwlock_wrlock(pthread_rwlock_t *); int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_spin_lock(pthread_spinlock_t *); int __real_pthread_spin_unlock(pthread_spinlock_t *);
static int ts_lock(void *m) {
    ts::In g; ts::RT &r = ts::rt(); r.mx[m]; ts::point();
    for (;;) { ts::Mutex &x = r.mx[m]; if (x.owner < 0) { x.owner = ts::self; ts::acquire(x.vc); return 0; }
        r.th[ts::self].waiting = m; ts::reschedule(); r.th[ts::self].waiting = nullptr; }
}
static int ts_unlock(void *m) { ts::In g; ts::RT &r = ts::rt(); ts::Mutex &x = r.mx[m]; if (x.owner != ts::self) ts::stop(ts::WRONG, "a lock is released by a thread that does not hold it"); ts::release(x.vc); x.owner = -1; ts::point(); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return ts::on() ? ts_lock(m) : ts::in_rt || ts::self < 0 ? __real_pthread_mutex_lock(m) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return ts::on() ? ts_unlock(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!ts::on()) return __real_pthread_mutex_trylock(m); ts::In g; ts::point(); ts::Mutex &x = ts::rt().mx[m]; if (x.owner >= 0) return EBUSY; x.owner = ts::self; ts::acquire(x.vc); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return ts::on() ? ts_lock(m) : __real_pthread_rwlock_rdlock(m); } // readers exclude each other here: fewer interleavings, no false alarm
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return ts::on() ? ts_lock(m) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return ts::on() ? ts_unlock(m) : __real_pthread_rwlock_unlock(m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { return ts::on() ? ts_lock((void *)m) : __real_pthread_spin_lock(m); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { return ts::on() ? ts_unlock((void *)m) : __real_pthread_spin_unlock(m); }
int __wrap_mtx_lock(void *m) { return ts::on() ? ts_lock(m) : 0; }
int __wrap_mtx_unlock(void *m) { return ts::on() ? ts_unlock(m) : 0; }
int __wrap_mtx_init(void *, int) { return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
    if (!ts::on()) { ts::RT &r = ts::rt(); auto it = r.on.find(o); if (it != r.on.end() && it->second.st == 2) return 0; return __real_pthread_once(o, f); }
    bool run = false;
    { ts::In g; ts::RT &r = ts::rt(); r.on[o]; if (*(int *)o & 2) r.on[o].st = 2; ts::point();
      for (;;) { ts::Once &x = r.on[o]; if (x.st == 2) { ts::acquire(x.vc); break; } if (x.st == 0) { x.st = 1; x.by = ts::self; run = true; break; } r.th[ts::self].waiting = o; ts::reschedule(); r.th[ts::self].waiting = nullptr; } }
    if (run) { f(); ts::In g; ts::Once &x = ts::rt().on[o]; x.st = 2; *(int *)o = 2; ts::release(x.vc); ts::point(); }
    return 0;
}
void __wrap_call_once(void *o, void (*f)()) { __wrap_pthread_once((pthread_once_t *)o, f); }
// ---- memory moved by libc on behalf of the library
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n && ts::on()) { ts::In g; ts::access(s, n, false, PC); ts::access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n && ts::on()) { ts::In g; ts::access(s, n, false, PC); ts::access(d, n, true, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { if (n && ts::on()) { ts::In g; ts::access(d, n, true, PC); } return __real_memset(d, v, n); }
#include <malloc.h>
// every allocator call of the process comes here, also those of libstdc++ and libc: storage that changes hands
// through the allocator starts without a history.  The --wrap versions add that releasing counts as a write.
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t);
static void *ts_fresh(void *p) { if (p && ts::on()) { ts::In g; ts::forget(p, malloc_usable_size(p)); } return p; }
void *malloc(size_t n) { return ts_fresh(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return ts_fresh(__libc_calloc(a, b)); }
void *memalign(size_t a, size_t n) { return ts_fresh(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return ts_fresh(__libc_memalign(a, n)); }
int posix_memalign(void **q, size_t a, size_t n) { void *p = ts_fresh(__libc_memalign(a, n)); if (!p) return ENOMEM; *q = p; return 0; }
void free(void *p) { ts_fresh(p); __libc_free(p); }
void *realloc(void *p, size_t n) { ts_fresh(p); return ts_fresh(__libc_realloc(p, n)); }
static void ts_written(void *p, void *pc) { if (p && ts::on()) { ts::In g; ts::access(p, malloc_usable_size(p), true, pc); } }
void *__wrap_malloc(size_t n) { return malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return calloc(a, b); }
void __wrap_free(void *p) { ts_written(p, PC); free(p); }
void *__wrap_realloc(void *p, size_t n) { ts_written(p, PC); return realloc(p, n); }
}
