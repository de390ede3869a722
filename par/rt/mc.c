// Controlled scheduler: runs the threads of one process one at a time and decides every switch.
//
// Threads hand a baton to each other. A thread keeps the baton until it
//   * reaches a preemption point (mc_point: explicit points of the harness, and - depending on the
//     level - atomic operations, accesses to statics, other memory accesses and function entries of
//     the instrumented crates, reported through the __tsan_* callbacks of -Zsanitizer=thread),
//   * blocks (futex wait, join), yields, or ends.
// Every decision with more than one possible answer is read from the schedule prefix, or is answer 0
// behind it, and is recorded. futex, pthread_create/join, sched_yield, sleeps and getrandom are
// interposed; nothing else in the checked code can make threads wait for each other.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 16
#define MAXTRACE 200000

struct entry {
    uint16_t pick;
    uint16_t n;
    uint8_t kind; // 0 preemption (alternatives cost 1), 1 free
    uint8_t used; // preemptions spent before this decision
};
struct result {
    uint32_t status; // 0 unfinished 1 finished 2 deadlock 3 horizon/livelock 4 diverged 5 trace full
    uint32_t ntrace;
    uint32_t points;
    uint32_t switches;
    uint32_t preempted;
    uint32_t threads;
    struct entry tr[MAXTRACE];
};

enum { UNUSED, ENABLED, FUTEX, JOIN, SLEEP, FINISHED };
struct thr {
    volatile int go;
    int state;
    const void *addr;
    int timed;
    int woken;
    int target;
    unsigned long order;
    pthread_t pt;
    uintptr_t stack_hi, stack_lo;
};
static struct thr th[MAXT];
static int nth;
static __thread int me = -1;
static volatile int active;
static int level;
static unsigned bound;
static const uint16_t *prefix;
static unsigned nprefix;
static struct result *res;
static unsigned long order_counter;
static unsigned idle_yields;
static pthread_key_t key;
static uint64_t fake_random = 0x9E3779B97F4A7C15ull;
static unsigned max_points = 4000000;
static int quiet;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void end(unsigned status) {
    res->status = status;
    raw(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}
static void wait_go(int t) {
    while (!__atomic_load_n(&th[t].go, __ATOMIC_ACQUIRE))
        raw(SYS_futex, (long)&th[t].go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    th[t].go = 0;
}
static void give(int t) {
    res->switches++;
    __atomic_store_n(&th[t].go, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&th[t].go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void switch_to(int t) {
    int m = me;
    give(t);
    wait_go(m);
}
static int choice(int n, int kind) {
    if (kind == 0 && res->preempted >= bound)
        return 0;
    unsigned i = res->ntrace;
    if (i >= MAXTRACE)
        end(5);
    int c = i < nprefix ? prefix[i] : 0;
    if (c >= n)
        end(4);
    struct entry *e = &res->tr[i];
    e->pick = c;
    e->n = n;
    e->kind = kind;
    e->used = res->preempted;
    res->ntrace = i + 1;
    if (kind == 0 && c)
        res->preempted++;
    return c;
}
static int others(int from, int *out) {
    int k = 0;
    for (int i = 1; i <= nth; i++) {
        int t = (from + i) % nth;
        if (t != from && th[t].state == ENABLED)
            out[k++] = t;
    }
    return k;
}
static void point(void) {
    if (++res->points > max_points)
        end(3);
    idle_yields = 0;
    if (quiet)
        return;
    int o[MAXT];
    int k = others(me, o);
    if (!k)
        return;
    int c = choice(k + 1, 0);
    if (c)
        switch_to(o[c - 1]);
}
// the current thread cannot go on: somebody else must
static int next_runnable(int from) {
    int o[MAXT];
    int k = others(from, o);
    if (k == 0) {
        // time passes only if nothing else can happen
        int best = -1;
        for (int t = 0; t < nth; t++)
            if ((th[t].state == FUTEX && th[t].timed) || th[t].state == SLEEP)
                if (best < 0 || th[t].order < th[best].order)
                    best = t;
        if (best < 0)
            end(2);
        th[best].woken = 0;
        th[best].state = ENABLED;
        return best;
    }
    return o[k > 1 && !quiet ? choice(k, 1) : 0];
}
static void block(void) {
    int m = me;
    idle_yields = 0;
    th[m].order = ++order_counter;
    int t = next_runnable(m);
    if (t == m)
        return;
    switch_to(t);
}
static void yield_now(void) {
    if (++idle_yields > 20000 || ++res->points > max_points)
        end(3);
    int o[MAXT];
    if (others(me, o))
        switch_to(o[0]);
}
static inline int on(void) { return active && me >= 0; }

// ---- interface of the harness
void mc_point(void) {
    if (on())
        point();
}
void mc_quiet(int on_) { quiet += on_; }
void mc_start(struct result *r, const uint16_t *pre, unsigned n, unsigned bnd, int lvl) {
    res = r;
    prefix = pre;
    nprefix = n;
    bound = bnd;
    level = lvl;
    res->status = res->ntrace = res->points = res->switches = res->preempted = 0;
    nth = 1;
    th[0].state = ENABLED;
    me = 0;
    char here;
    th[0].stack_hi = (uintptr_t)&here + (64 << 10);
    th[0].stack_lo = (uintptr_t)&here - (8 << 20);
    active = 1;
}
void mc_stop(void) {
    if (res->ntrace < nprefix)
        end(4);
    active = 0;
    res->threads = nth;
    res->status = 1;
}

// ---- interposed functions
static int futex(const uint32_t *addr, int op, uint32_t val, const struct timespec *to) {
    switch (op & FUTEX_CMD_MASK) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
            errno = EAGAIN;
            return -1;
        }
        struct thr *t = &th[me];
        t->state = FUTEX;
        t->addr = addr;
        t->timed = to != 0;
        t->woken = 0;
        block();
        if (!t->woken) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
        int n = 0;
        while (n < (int)val || (int)val < 0) {
            int best = -1;
            for (int t = 0; t < nth; t++)
                if (th[t].state == FUTEX && th[t].addr == addr && (best < 0 || th[t].order < th[best].order))
                    best = t;
            if (best < 0)
                break;
            th[best].woken = 1;
            th[best].state = ENABLED;
            n++;
        }
        point();
        return n;
    }
    }
    return (int)raw(SYS_futex, (long)addr, op, val, (long)to, 0, 0);
}
static void fill_random(void *p, size_t n) {
    unsigned char *b = p;
    for (size_t i = 0; i < n; i++) {
        fake_random = fake_random * 6364136223846793005ull + 1442695040888963407ull;
        b[i] = fake_random >> 33;
    }
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on()) {
        if (n == SYS_futex)
            return futex((const uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d);
        if (n == SYS_getrandom) {
            fill_random((void *)a, b);
            return b;
        }
        if (n == SYS_sched_yield) {
            yield_now();
            return 0;
        }
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
    (void)fl;
    fill_random(p, n);
    return n;
}
int sched_yield(void) {
    if (on())
        yield_now();
    else
        raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    return 0;
}
static void sleeping(void) {
    th[me].state = SLEEP;
    block();
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (on()) {
        sleeping();
        return 0;
    }
    long r = raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
    if (r < 0) {
        errno = -r;
        return -1;
    }
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (on()) {
        sleeping();
        return 0;
    }
    return -raw(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0);
}

struct start {
    void *(*fn)(void *);
    void *arg;
    int slot;
};
static void finish(void *p) {
    // run behind all other thread-local destructors: re-arm until the last round
    long v = (long)p;
    if ((v & 15) < 3) {
        pthread_setspecific(key, (void *)(v + 1));
        return;
    }
    int m = me;
    th[m].state = FINISHED;
    for (int t = 0; t < nth; t++)
        if (th[t].state == JOIN && th[t].target == m)
            th[t].state = ENABLED;
    int t = next_runnable(m);
    me = -1;
    give(t);
}
static void *trampoline(void *p) {
    struct start s = *(struct start *)p;
    free(p);
    char here;
    th[s.slot].stack_hi = (uintptr_t)&here + (16 << 10);
    th[s.slot].stack_lo = (uintptr_t)&here - (64 << 20);
    pthread_attr_t at;
    if (!pthread_getattr_np(pthread_self(), &at)) {
        void *lo;
        size_t sz;
        pthread_attr_getstack(&at, &lo, &sz);
        th[s.slot].stack_lo = (uintptr_t)lo;
        th[s.slot].stack_hi = (uintptr_t)lo + sz;
        pthread_attr_destroy(&at);
    }
    wait_go(s.slot);
    me = s.slot;
    pthread_setspecific(key, (void *)(long)((s.slot + 1) << 4));
    return s.fn(s.arg);
}
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
__attribute__((constructor)) static void init(void) {
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    pthread_key_create(&key, finish);
}
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!on())
        return real_create(pt, a, fn, arg);
    if (nth >= MAXT)
        return EAGAIN;
    struct start *s = malloc(sizeof *s);
    int slot = nth;
    s->fn = fn;
    s->arg = arg;
    s->slot = slot;
    th[slot].state = UNUSED;
    int r = real_create(&th[slot].pt, a, trampoline, s);
    if (r)
        return r;
    nth++;
    *pt = th[slot].pt;
    th[slot].state = ENABLED;
    point();
    return 0;
}
int pthread_join(pthread_t pt, void **ret) {
    if (on())
        for (int t = 0; t < nth; t++)
            if (th[t].state != UNUSED && t != me && pthread_equal(th[t].pt, pt) && t != 0) {
                while (th[t].state != FINISHED) {
                    th[me].state = JOIN;
                    th[me].target = t;
                    block();
                }
                break;
            }
    return real_join(pt, ret);
}

// ---- callbacks of the instrumented crates
extern char __data_start, _end;
static inline void access_(void *p) {
    if (!on() || level < 1)
        return;
    char *c = p;
    if (c >= &__data_start && c < &_end) {
        point();
        return;
    }
    if (level >= 2 && !((uintptr_t)c >= th[me].stack_lo && (uintptr_t)c < th[me].stack_hi))
        point();
}
static inline void atom(void) {
    if (on() && level >= 1)
        point();
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {
    (void)p;
    if (on() && level >= 2)
        point();
}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n)                                              \
    void __tsan_read##n(void *p) { access_(p); }           \
    void __tsan_write##n(void *p) { access_(p); }          \
    void __tsan_unaligned_read##n(void *p) { access_(p); } \
    void __tsan_unaligned_write##n(void *p) { access_(p); } \
    void __tsan_read_write##n(void *p) { access_(p); }     \
    void __tsan_unaligned_read_write##n(void *p) { access_(p); } \
    void __tsan_volatile_read##n(void *p) { access_(p); }  \
    void __tsan_volatile_write##n(void *p) { access_(p); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access_(p); } \
    void __tsan_unaligned_volatile_write##n(void *p) { access_(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { (void)n; access_(p); }
void __tsan_write_range(void *p, unsigned long n) { (void)n; access_(p); }
void __tsan_vptr_update(void **p, void *v) { (void)v; access_(p); }
void __tsan_vptr_read(void **p) { access_(p); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#define SC __ATOMIC_SEQ_CST
#define AT(b, T)                                                                                          \
    T __tsan_atomic##b##_load(const volatile T *a, int o) { (void)o; atom(); return __atomic_load_n(a, SC); }   \
    void __tsan_atomic##b##_store(volatile T *a, T v, int o) { (void)o; atom(); __atomic_store_n(a, v, SC); }  \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int o) { (void)o; atom(); return __atomic_exchange_n(a, v, SC); } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int o) { (void)o; atom(); return __atomic_fetch_add(a, v, SC); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int o) { (void)o; atom(); return __atomic_fetch_sub(a, v, SC); } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int o) { (void)o; atom(); return __atomic_fetch_and(a, v, SC); } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int o) { (void)o; atom(); return __atomic_fetch_or(a, v, SC); }   \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int o) { (void)o; atom(); return __atomic_fetch_xor(a, v, SC); } \
    T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int o) { (void)o; atom(); return __atomic_fetch_nand(a, v, SC); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { (void)o; (void)f; atom(); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { (void)o; (void)f; atom(); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); }   \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { (void)o; (void)f; atom(); __atomic_compare_exchange_n(a, &c, v, 0, SC, SC); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int o) { (void)o; }
