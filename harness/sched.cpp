// A deterministic scheduler for the threads of one process: it stands in for
// the blocking primitives (mutexes, condition variables, rwlocks, semaphores,
// futexes, once, create/join, sleeps), lets one thread run at a time, and
// decides at every such call which thread goes on.  Compiled without
// instrumentation; link with -rdynamic -ldl.  Off until sched::on().
#include "sched_api.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sched {
enum State { FREE, RUN, BLOCKED, TIMED, DONE };
struct Thr { volatile int go; State st; const void* on; int kind; bool timeout; pthread_t pt; long prio; bool low; };
static Thr thr[MAXT];
static int nthr, cur_;
static bool active;
static __thread int self = -1;
static Mode mode;
static uint64_t rng;
static long steps, limit_fair = 20000, limit = 400000, change[8];
static int nchange, spurious;
static Shared* sh;
static Shared local;
static int plain_every;

static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

#define SCHED_REAL(name) \
    static decltype(&::name) r; \
    if (!r) r = reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name));

static long kernel(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long raw(long n, void* a, long op, long v) { return kernel(n, reinterpret_cast<long>(a), op, v, 0, 0, 0); }
static void hand(int n) {
    cur_ = n;
    __atomic_store_n(&thr[n].go, 1, __ATOMIC_SEQ_CST);
    raw(SYS_futex, const_cast<int*>(&thr[n].go), FUTEX_WAKE_PRIVATE, 1);
}
static void await(int me) {
    while (!__atomic_load_n(&thr[me].go, __ATOMIC_SEQ_CST))
        raw(SYS_futex, const_cast<int*>(&thr[me].go), FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&thr[me].go, 0, __ATOMIC_SEQ_CST);
}
static int decide(int n, bool curfirst) {
    if (n <= 1) return 0;
    int d = sh->ndec, k;
    if (d < sh->nprefix) k = sh->prefix[d] % n;
    else if (mode == DFS) k = 0;
    else k = int(rnd() % uint64_t(n));
    if (d < MAXD) { sh->nopt[d] = (unsigned char)n; sh->cur[d] = curfirst; sh->sel[d] = (unsigned char)k; sh->ndec = d + 1; }
    return k;
}
void stuck(int why) { sh->stuck = why; _exit(3); }

// give the processor to somebody; returns when this thread is chosen again
static void pass(bool finished = false) {
    sh->steps = ++steps;
    if (steps > limit) stuck(2);
    int me = self, opt[MAXT], n = 0;
    bool cur = !finished && thr[me].st == RUN && !thr[me].low;
    if (cur) opt[n++] = me;
    for (int i = 0; i < nthr; ++i) if (thr[i].st == RUN && !thr[i].low && !(cur && i == me)) opt[n++] = i;
    if (n == 0) {   // those that said they would rather not
        for (int i = 0; i < nthr; ++i) if (thr[i].st == RUN) { thr[i].low = false; opt[n++] = i; }
    }
    if (n == 0) {   // time passes only when nothing else can happen
        for (int i = 0; i < nthr; ++i) if (thr[i].st == TIMED) opt[n++] = i;
        if (n) { int k = opt[decide(n, false)]; thr[k].timeout = true; thr[k].st = RUN; opt[0] = k; n = 1; }
    }
    if (n == 0) {
        bool all = true;
        for (int i = 0; i < nthr; ++i) if (thr[i].st == BLOCKED) all = false;
        if (all) return;   // everything has finished
        stuck(1);
    }
    int next;
    if (mode == PCT && steps < limit_fair) {
        for (int i = 0; i < nchange; ++i) if (change[i] == steps) thr[me].prio = -long(i) - 1;
        next = opt[0];
        for (int i = 1; i < n; ++i) if (thr[opt[i]].prio > thr[next].prio) next = opt[i];
        for (int i = 0; i < n; ++i) if (opt[i] == next) { int d = sh->ndec; if (n > 1 && d < MAXD) { sh->nopt[d] = (unsigned char)n; sh->cur[d] = cur; sh->sel[d] = (unsigned char)i; sh->ndec = d + 1; } }
    } else if (mode == DFS && steps > limit_fair) {
        next = opt[rnd() % uint64_t(n)];
    } else if (mode == RANDOM && cur && sh->ndec >= sh->nprefix && rnd() % 4 != 0) {
        next = me;
        int d = sh->ndec;
        if (n > 1 && d < MAXD) { sh->nopt[d] = (unsigned char)n; sh->cur[d] = 1; sh->sel[d] = 0; sh->ndec = d + 1; }
    } else next = opt[decide(n, cur)];
    for (int i = 0; i < nthr; ++i) if (i != next && thr[next].low == false && thr[i].low && i != me) thr[i].low = false;
    if (next == me && !finished) return;
    hand(next);
    if (!finished) await(me);
}
static bool managed() { return active && self >= 0; }
static void block(const void* on, int kind, bool timed = false) {
    thr[self].st = timed ? TIMED : BLOCKED;
    thr[self].on = on;
    thr[self].kind = kind;
    thr[self].timeout = false;
    pass();
    thr[self].on = nullptr;
}
enum Kind { MUTEX = 1, COND, JOIN, FUTEX, RD, SEM, ONCE };
// wake up to n threads blocked on an address; which ones is a decision
static int wake(const void* on, int kind, int n) {
    int k = 0;
    while (k < n) {
        int w[MAXT], c = 0;
        for (int i = 0; i < nthr; ++i) if ((thr[i].st == BLOCKED || thr[i].st == TIMED) && thr[i].on == on && thr[i].kind == kind) w[c++] = i;
        if (!c) break;
        int i = n >= MAXT ? w[0] : w[decide(c, false)];
        thr[i].st = RUN;
        thr[i].timeout = false;
        ++k;
    }
    return k;
}
// state of the stand-in locks, by address
struct Lock { const void* a; int owner, readers, count; };
static Lock locks[4096];
static Lock& lock_of(const void* a) {
    size_t h = (reinterpret_cast<uintptr_t>(a) >> 3) * 2654435761u % 4096;
    while (locks[h].a && locks[h].a != a) h = (h + 1) % 4096;
    if (!locks[h].a) { locks[h].a = a; locks[h].owner = -1; locks[h].readers = 0; locks[h].count = 0; }
    return locks[h];
}
static void acquire(const void* m) {
    Lock& l = lock_of(m);
    while (l.owner >= 0 || l.readers > 0) {
        if (l.owner == self && l.count > 0) { ++l.count; return; }   // recursive
        block(m, MUTEX);
    }
    l.owner = self;
}
static void release(const void* m) {
    Lock& l = lock_of(m);
    l.owner = -1;
    wake(m, MUTEX, MAXT);
    wake(m, RD, MAXT);
}
void on(Mode m, uint64_t seed, Shared* s, int pct_len, int depth, int spur, int plain) {
    mode = m;
    rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (int i = 0; i < 8; ++i) rnd();
    sh = s ? s : &local;
    sh->steps = 0; sh->ndec = 0; sh->stuck = 0;
    plain_every = plain;
    nchange = depth;
    spurious = spur;
    for (int i = 0; i < depth && i < 8; ++i) change[i] = 1 + long(rnd() % uint64_t(pct_len));
    nthr = 1;
    cur_ = 0;
    self = 0;
    steps = 0;
    memset(locks, 0, sizeof locks);
    thr[0] = Thr{0, RUN, nullptr, 0, false, pthread_self(), 100 + long(rnd() % 1000), false};
    active = true;
}
void off() { active = false; }
void idle() { thr[self].low = true; pass(); }
bool others_can_run() {
    for (int i = 0; i < nthr; ++i) if (i != self && (thr[i].st == RUN || thr[i].st == TIMED)) return true;
    return false;
}
int alive() { int k = 0; for (int i = 1; i < nthr; ++i) k += thr[i].st != DONE; return k; }
struct Start { void* (*f)(void*); void* a; int id; };
static void leave(void*) {
    if (!active) return;
    thr[self].st = DONE;
    wake(&thr[self], JOIN, MAXT);
    int me = self;
    pass(true);
    (void)me;
    self = -1;
}
static void* tramp(void* p) {
    Start s = *static_cast<Start*>(p);
    free(p);
    self = s.id;
    await(s.id);
    void* r;
    pthread_cleanup_push(leave, nullptr);
    r = s.f(s.a);
    pthread_cleanup_pop(1);
    return r;
}
}  // namespace sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    SCHED_REAL(pthread_mutex_lock)
    if (!sched::managed()) return r(m);
    sched::pass();
    sched::acquire(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    SCHED_REAL(pthread_mutex_trylock)
    if (!sched::managed()) return r(m);
    sched::pass();
    auto& l = sched::lock_of(m);
    if (l.owner >= 0 || l.readers > 0) { sched::thr[sched::self].low = true; sched::pass(); return EBUSY; }
    l.owner = sched::self;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    SCHED_REAL(pthread_mutex_unlock)
    if (!sched::managed()) return r(m);
    sched::release(m);
    sched::pass();
    return 0;
}
static int sched_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    sched::pass();
    sched::release(m);
    // a spurious wake-up is allowed at any time
    if (sched::spurious > 0 && sched::mode != sched::DFS && sched::rnd() % 8 == 0) { --sched::spurious; sched::pass(); sched::acquire(m); return 0; }
    sched::block(c, sched::COND, timed);
    bool to = timed && sched::thr[sched::self].timeout;
    sched::acquire(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    SCHED_REAL(pthread_cond_wait)
    return sched::managed() ? sched_cond_wait(c, m, false) : r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    SCHED_REAL(pthread_cond_timedwait)
    return sched::managed() ? sched_cond_wait(c, m, true) : r(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    SCHED_REAL(pthread_cond_clockwait)
    return sched::managed() ? sched_cond_wait(c, m, true) : r(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
    SCHED_REAL(pthread_cond_signal)
    if (!sched::managed()) return r(c);
    sched::pass();
    sched::wake(c, sched::COND, 1);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    SCHED_REAL(pthread_cond_broadcast)
    if (!sched::managed()) return r(c);
    sched::pass();
    sched::wake(c, sched::COND, sched::MAXT);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    SCHED_REAL(pthread_cond_destroy)
    if (!sched::managed()) return r(c);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    SCHED_REAL(pthread_rwlock_wrlock)
    if (!sched::managed()) return r(m);
    sched::pass();
    sched::acquire(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    SCHED_REAL(pthread_rwlock_rdlock)
    if (!sched::managed()) return r(m);
    sched::pass();
    auto& l = sched::lock_of(m);
    while (l.owner >= 0) sched::block(m, sched::RD);
    ++l.readers;
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    SCHED_REAL(pthread_rwlock_unlock)
    if (!sched::managed()) return r(m);
    auto& l = sched::lock_of(m);
    if (l.readers > 0 && --l.readers > 0) return 0;
    sched::release(m);
    sched::pass();
    return 0;
}
int sem_wait(sem_t* s) {
    SCHED_REAL(sem_wait)
    if (!sched::managed()) return r(s);
    sched::pass();
    while (sem_trywait(s) != 0) sched::block(s, sched::SEM);
    return 0;
}
int sem_post(sem_t* s) {
    SCHED_REAL(sem_post)
    if (!sched::managed()) return r(s);
    sched::pass();
    int k = r(s);
    sched::wake(s, sched::SEM, sched::MAXT);
    return k;
}
int sched_yield(void) noexcept {
    if (!sched::managed()) return 0;
    sched::thr[sched::self].low = true;
    sched::pass();
    return 0;
}
int nanosleep(const struct timespec* t, struct timespec* q) {
    SCHED_REAL(nanosleep)
    if (!sched::managed()) return r(t, q);
    sched::thr[sched::self].low = true;
    sched::pass();
    return 0;
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* t, struct timespec* q) {
    SCHED_REAL(clock_nanosleep)
    if (!sched::managed()) return r(k, f, t, q);
    sched::thr[sched::self].low = true;
    sched::pass();
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    volatile int* p = reinterpret_cast<volatile int*>(o);
    if (!sched::managed()) {
        SCHED_REAL(pthread_once)
        return r(o, f);
    }
    for (;;) {
        if (*p & 2) return 0;
        if (!(*p & 1)) break;
        sched::block(o, sched::ONCE);
    }
    *p = 1;
    try { f(); } catch (...) { *p = 0; sched::wake(o, sched::ONCE, sched::MAXT); throw; }
    *p = 2;
    sched::wake(o, sched::ONCE, sched::MAXT);
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) noexcept {
    SCHED_REAL(pthread_create)
    if (!sched::managed()) return r(t, a, f, arg);
    if (sched::nthr >= sched::MAXT) return EAGAIN;
    int id = sched::nthr;
    auto* s = static_cast<sched::Start*>(malloc(sizeof(sched::Start)));
    s->f = f; s->a = arg; s->id = id;
    sched::thr[id] = sched::Thr{0, sched::RUN, nullptr, 0, false, pthread_t(), 100 + long(sched::rnd() % 1000), false};
    int k = r(t, a, sched::tramp, s);
    if (k) { free(s); return k; }
    sched::thr[id].pt = *t;
    ++sched::nthr;
    sched::pass();
    return 0;
}
int pthread_join(pthread_t t, void** v) {
    SCHED_REAL(pthread_join)
    if (!sched::managed()) return r(t, v);
    sched::pass();
    for (int i = 0; i < sched::nthr; ++i)
        if (pthread_equal(sched::thr[i].pt, t)) while (sched::thr[i].st != sched::DONE) sched::block(&sched::thr[i], sched::JOIN);
    return r(t, v);
}
long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && sched::managed()) {
        int* addr = reinterpret_cast<int*>(a[0]);
        int op = int(a[1]) & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sched::pass();
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != int(a[2])) { errno = EAGAIN; return -1; }
            sched::block(addr, sched::FUTEX, a[3] != 0);
            if (a[3] != 0 && sched::thr[sched::self].timeout) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sched::pass();
            return sched::wake(addr, sched::FUTEX, a[2] > sched::MAXT ? int(sched::MAXT) : int(a[2]));
        }
    }
    long k = sched::kernel(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (k < 0 && k > -4096) { errno = int(-k); return -1; }
    return k;
}
}

// ------------------------------------------------------------------------
// Instead of the thread sanitizer's run time: code compiled with
// -fsanitize=thread calls these at every memory access, which makes atomic
// operations (and, now and then, plain accesses) scheduling points.  Link
// without -fsanitize=thread.
namespace sched {
static inline void at_plain() {
    if (plain_every && managed() && mode == RANDOM && rnd() % uint64_t(plain_every) == 0) pass();
}
static inline void at_atomic() { if (managed()) pass(); }
}
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define TS_RW(n) \
    void __tsan_read##n(void*) { sched::at_plain(); } \
    void __tsan_write##n(void*) { sched::at_plain(); } \
    void __tsan_unaligned_read##n(void*) { sched::at_plain(); } \
    void __tsan_unaligned_write##n(void*) { sched::at_plain(); } \
    void __tsan_volatile_read##n(void*) { sched::at_plain(); } \
    void __tsan_volatile_write##n(void*) { sched::at_plain(); } \
    void __tsan_read_write##n(void*) { sched::at_plain(); } \
    void __tsan_unaligned_read_write##n(void*) { sched::at_plain(); }
TS_RW(1) TS_RW(2) TS_RW(4) TS_RW(8) TS_RW(16)
void __tsan_read_range(void*, unsigned long) { sched::at_plain(); }
void __tsan_write_range(void*, unsigned long) { sched::at_plain(); }
#define TS_AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int) { sched::at_atomic(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { sched::at_atomic(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { sched::at_atomic(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { sched::at_atomic(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { sched::at_atomic(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { sched::at_atomic(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { sched::at_atomic(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { sched::at_atomic(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { sched::at_atomic(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { sched::at_atomic(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { sched::at_atomic(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int, int) { sched::at_atomic(); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
TS_AT(8, char) TS_AT(16, short) TS_AT(32, int) TS_AT(64, long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
