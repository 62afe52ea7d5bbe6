/* A controlled scheduler for the real ludtwig binary.
 *
 * ludtwig is compiled with ThreadSanitizer's instrumentation, but linked against this library
 * instead of its runtime: every atomic operation, every plain access to static data, every futex
 * call, thread creation, yield, sleep, open, read and write is a scheduling point. Exactly one
 * thread runs at a time; which one continues at a point is decided here:
 *   default: the running thread goes on; if it blocks, yields or ends, the next one (round robin)
 *   SCHED_DEV="step:running:next,..."  deviations from that (exit code 95 if they do not apply)
 *   SCHED_POLICY=1  a woken or created thread runs at once, 2: the last thread instead of the next
 *   SCHED_LOG=file  all points, for the explorer
 * Time is virtual: it passes only when a thread sleeps or its timeout is chosen to expire.
 * A deadlock ends the process with exit code 99, more than SCHED_MAX steps with 98.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 32
#define FAIR 20000

enum { RUN, FUTEX, JOIN, DONE };
enum { K_ATOMIC = 1, K_MUT = 2, K_DATA = 3, K_FUTEX = 4, K_CREATE = 5, K_YIELD = 6, K_IO = 7, K_BLOCK = 8, K_END = 9 };

struct thread {
    volatile int sem;
    int state;
    int sleeping; /* only if nobody else can run */
    int timed, timed_out;
    uint64_t until;
    const void *addr;
    int join;
    pthread_t handle;
    void *(*fn)(void *);
    void *arg;
};
struct rec {
    uint32_t step;
    uint8_t cur, kind;
    uint16_t enabled;
    uint64_t addr, pc;
};

static struct thread T[MAXT];
static int nthreads = 1, current = 0;
static __thread int me = -1;
static uint32_t step, maxstep = 400000;
static int alone; /* points of one thread since the last switch */
static struct { uint32_t step; int tid, cur; } dev[64];
static int ndev, nextdev, policy;
static struct rec *recs;
static uint32_t nrecs, maxrecs;
static pthread_key_t key;
static int up;
static uintptr_t data_lo, data_hi, exe_lo;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

static void say(const char *s) { raw(SYS_write, 2, (long)s, strlen(s), 0, 0, 0); }

static void finish(int code) {
    if (recs) recs[0].addr = nrecs;
    raw(SYS_exit_group, code, 0, 0, 0, 0, 0);
}

static void at_end(void *round) {
    long n = (long)round;
    extern void sched_thread_done(void);
    if (n < 4)
        pthread_setspecific(key, (void *)(n + 1));
    else
        sched_thread_done();
}

__attribute__((constructor)) static void start(void) {
    me = 0;
    T[0].state = RUN;
    const char *d = getenv("SCHED_DEV");
    while (d && *d && ndev < 64) {
        dev[ndev].step = strtoul(d, (char **)&d, 10);
        if (*d == ':') d++;
        dev[ndev].cur = strtol(d, (char **)&d, 10);
        if (*d == ':') d++;
        dev[ndev++].tid = strtol(d, (char **)&d, 10);
        if (*d == ',') d++;
    }
    const char *p = getenv("SCHED_POLICY");
    policy = p ? atoi(p) : 0;
    if ((p = getenv("SCHED_MAX"))) maxstep = atoi(p);
    if ((p = getenv("SCHED_LOG"))) {
        maxrecs = 400000;
        int fd = raw(SYS_open, (long)p, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0666, 0, 0, 0);
        raw(SYS_ftruncate, fd, maxrecs * sizeof(struct rec), 0, 0, 0, 0);
        recs = mmap(0, maxrecs * sizeof(struct rec), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        raw(SYS_close, fd, 0, 0, 0, 0, 0);
        if (recs == MAP_FAILED) recs = 0;
        nrecs = 1;
    }
    pthread_key_create(&key, at_end);
    /* writable data of the executable */
    FILE *f = fopen("/proc/self/maps", "r");
    char line[512], exe[512];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    uintptr_t last = 0;
    while (f && fgets(line, sizeof line, f)) {
        uintptr_t lo, hi;
        char perm[8];
        if (sscanf(line, "%lx-%lx %7s", &lo, &hi, perm) != 3) continue;
        int is_exe = n > 0 && strstr(line, exe) != 0;
        if (is_exe && !exe_lo) exe_lo = lo;
        if (perm[1] == 'w' && (is_exe || (last && lo == last))) {
            if (!data_lo) data_lo = lo;
            data_hi = hi;
        }
        if (is_exe || (last && lo == last && !strchr(line, '/') && !strchr(line, '['))) last = hi;
    }
    if (f) fclose(f);
    if (recs) recs[0].pc = exe_lo;
    up = 1;
}

static void sem_wait_(int t) {
    while (!__atomic_load_n(&T[t].sem, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&T[t].sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&T[t].sem, 0, __ATOMIC_RELEASE);
}
static void sem_post_(int t) {
    __atomic_store_n(&T[t].sem, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&T[t].sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

/* time only passes when a thread waits for it */
static uint64_t vnow = 1000000000ull * 1000;

static int can_run(int i) { return T[i].state == RUN || (T[i].state == FUTEX && T[i].timed); }

static unsigned enabled(void) {
    unsigned m = 0;
    for (int i = 0; i < nthreads; i++)
        if (can_run(i)) m |= 1u << i;
    return m;
}

static void expire(int i) {
    if (T[i].state != FUTEX) return;
    T[i].timed_out = 1;
    T[i].state = RUN;
    if (T[i].until >= vnow) vnow = T[i].until + 1;
}

/* the next thread, -1: none */
static int pick(int from) {
    for (int pass = 0; pass < 2; pass++)
        for (int k = 1; k <= nthreads; k++) {
            int i = policy == 2 ? (from - k + 2 * nthreads) % nthreads : (from + k) % nthreads;
            if (T[i].state == RUN && (pass || !T[i].sleeping)) return i;
        }
    /* time passes */
    for (int k = 1; k <= nthreads; k++) {
        int i = (from + k) % nthreads;
        if (T[i].state == FUTEX && T[i].timed) {
            expire(i);
            return i;
        }
    }
    return -1;
}

static void go(int t) {
    int self = me;
    alone = 0;
    if (t == self) {
        T[self].sleeping = 0;
        return;
    }
    current = t;
    T[t].sleeping = 0;
    sem_post_(t);
    if (T[self].state == DONE) return;
    sem_wait_(self);
    T[self].sleeping = 0;
}

static int deviation(void) {
    if (nextdev >= ndev || dev[nextdev].step != step) return -1;
    int t = dev[nextdev].tid;
    if (dev[nextdev].cur != me || t >= nthreads || !can_run(t)) {
        say("SCHED: diverged\n");
        finish(95);
    }
    expire(t);
    nextdev++;
    return t;
}

/* stay: the running thread can go on; prefer: thread that the policy prefers */
static void point(int kind, const void *addr, void *pc, int stay, int prefer) {
    if (!up || me < 0 || nthreads == 1) return;
    step++;
    if (step > maxstep) {
        say("SCHED: too many steps\n");
        finish(98);
    }
    unsigned en = enabled();
    if (recs && nrecs < maxrecs && kind) recs[nrecs++] = (struct rec){step, me, kind, en, (uintptr_t)addr, (uintptr_t)pc};
    int next = -1;
    next = deviation();
    if (next < 0 && policy == 1 && prefer >= 0 && T[prefer].state == RUN) next = prefer;
    if (next < 0 && stay && ++alone < FAIR) return;
    if (next < 0) next = pick(me);
    if (next < 0) {
        say("SCHED: deadlock\n");
        finish(99);
    }
    go(next);
}

/* ---------------------------------------------------------------- threads */

static void *thread_main(void *p) {
    int id = (int)(intptr_t)p;
    sem_wait_(id);
    me = id;
    pthread_setspecific(key, (void *)1);
    return T[id].fn(T[id].arg);
}

void sched_thread_done(void) {
    T[me].state = DONE;
    for (int i = 0; i < nthreads; i++)
        if (T[i].state == JOIN && T[i].join == me) T[i].state = RUN;
    step++;
    if (recs && nrecs < maxrecs) recs[nrecs++] = (struct rec){step, me, K_END, enabled(), 0, 0};
    int next = -1;
    next = deviation();
    if (next < 0) next = pick(me);
    if (next < 0) {
        say("SCHED: deadlock\n");
        finish(99);
    }
    go(next);
    me = -1;
}

int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
    if (nthreads == MAXT) {
        say("SCHED: too many threads\n");
        finish(97);
    }
    int id = nthreads;
    T[id] = (struct thread){.state = RUN, .fn = fn, .arg = arg};
    nthreads++;
    int r = real(h, a, thread_main, (void *)(intptr_t)id);
    if (r) {
        nthreads--;
        return r;
    }
    T[id].handle = *h;
    point(K_CREATE, 0, __builtin_return_address(0), 1, id);
    return 0;
}

int pthread_join(pthread_t h, void **ret) {
    static int (*real)(pthread_t, void **);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
    for (int i = 0; i < nthreads; i++)
        if (pthread_equal(T[i].handle, h) && i && T[i].state != DONE) {
            T[me].state = JOIN;
            T[me].join = i;
            point(K_BLOCK, 0, __builtin_return_address(0), 0, -1);
        }
    return real(h, ret);
}

int sched_yield(void) {
    point(K_YIELD, 0, __builtin_return_address(0), 0, -1);
    return 0;
}

static void nap(void *pc, const struct timespec *t, int absolute) {
    uint64_t d = t ? t->tv_sec * 1000000000ull + t->tv_nsec : 0;
    if (absolute && d > vnow) vnow = d;
    else if (!absolute) vnow += d;
    if (me >= 0 && nthreads > 1) {
        T[me].sleeping = 1;
        point(K_YIELD, 0, pc, 0, -1);
        T[me].sleeping = 0;
    }
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) {
    (void)c; (void)r;
    nap(__builtin_return_address(0), t, f & TIMER_ABSTIME);
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r) {
    (void)r;
    nap(__builtin_return_address(0), t, 0);
    return 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    (void)c;
    vnow += 1;
    t->tv_sec = vnow / 1000000000ull;
    t->tv_nsec = vnow % 1000000000ull;
    return 0;
}
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *s) {
    (void)pid;
    memset(s, 0, n);
    const char *c = getenv("SCHED_CPUS");
    int k = c ? atoi(c) : 2;
    for (int i = 0; i < k; i++) CPU_SET_S(i, n, s);
    return 0;
}

static long futex(const int *addr, int op, long val, const void *timeout, void *pc) {
    int cmd = op & 127;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        point(K_FUTEX, addr, pc, 1, -1);
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)val) {
            errno = EAGAIN;
            return -1;
        }
        T[me].state = FUTEX;
        T[me].addr = addr;
        T[me].timed = timeout != 0;
        if (timeout) {
            const struct timespec *ts = timeout;
            T[me].until = ts->tv_sec * 1000000000ull + ts->tv_nsec + (cmd == FUTEX_WAIT ? vnow : 0);
        }
        T[me].timed_out = 0;
        point(K_BLOCK, addr, pc, 0, -1);
        if (T[me].timed_out) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        int n = 0, last = -1;
        for (int i = 0; i < nthreads && n < val; i++)
            if (T[i].state == FUTEX && T[i].addr == addr) {
                T[i].state = RUN;
                last = i;
                n++;
            }
        point(K_FUTEX, addr, pc, 1, last);
        return n;
    }
    say("SCHED: unknown futex operation\n");
    finish(96);
    return -1;
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && up && me >= 0 && nthreads > 1) return futex((const int *)a, b, c, (const void *)d, __builtin_return_address(0));
    if (n == SYS_getrandom) {
        memset((void *)a, 7, b);
        return b;
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
ssize_t getrandom(void *p, size_t n, unsigned f) {
    (void)f;
    memset(p, 7, n);
    return n;
}

/* ---------------------------------------------------------------- input and output */

static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    point(K_IO, 0, __builtin_return_address(0), 1, -1);
    return ret(raw(SYS_write, fd, (long)b, n, 0, 0, 0));
}
ssize_t read(int fd, void *b, size_t n) {
    point(K_IO, 0, __builtin_return_address(0), 1, -1);
    return ret(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
}
int open64(const char *p, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int m = va_arg(ap, int);
    va_end(ap);
    point(K_IO, 0, __builtin_return_address(0), 1, -1);
    return ret(raw(SYS_openat, AT_FDCWD, (long)p, flags, m, 0, 0));
}
void exit(int code) {
    static void (*real)(int) __attribute__((noreturn));
    point(K_IO, 0, __builtin_return_address(0), 1, -1);
    if (!real) real = dlsym(RTLD_NEXT, "exit");
    if (recs) recs[0].addr = nrecs;
    up = 0;
    real(code);
    __builtin_unreachable();
}

/* ---------------------------------------------------------------- instrumentation */

#define PC __builtin_return_address(0)
#define AT(k) point(k, (const void *)a, PC, 1, -1)
typedef int mo;
#define ATOMICS(N, TY) \
    TY __tsan_atomic##N##_load(const volatile TY *a, mo m) { (void)m; AT(K_ATOMIC); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##N##_store(volatile TY *a, TY v, mo m) { (void)m; AT(K_MUT); __atomic_store_n(a, v, 5); } \
    TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, mo m) { (void)m; AT(K_MUT); return __atomic_exchange_n(a, v, 5); } \
    TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, mo m) { (void)m; AT(K_MUT); return __atomic_fetch_add(a, v, 5); } \
    TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, mo m) { (void)m; AT(K_MUT); return __atomic_fetch_sub(a, v, 5); } \
    TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, mo m) { (void)m; AT(K_MUT); return __atomic_fetch_and(a, v, 5); } \
    TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, mo m) { (void)m; AT(K_MUT); return __atomic_fetch_or(a, v, 5); } \
    TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, mo m) { (void)m; AT(K_MUT); return __atomic_fetch_xor(a, v, 5); } \
    TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, mo m) { (void)m; AT(K_MUT); return __atomic_fetch_nand(a, v, 5); } \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, mo m, mo f) { (void)m; (void)f; AT(K_MUT); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, mo m, mo f) { (void)m; (void)f; AT(K_MUT); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, mo m, mo f) { (void)m; (void)f; AT(K_MUT); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
ATOMICS(128, unsigned __int128)
void __tsan_atomic_thread_fence(mo m) { (void)m; __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(mo m) { (void)m; }

#define DATA ((uintptr_t)a >= data_lo && (uintptr_t)a < data_hi)
#define PLAIN(name) void __tsan_##name(const void *a) { if (DATA) AT(K_DATA); }
PLAIN(read1) PLAIN(read2) PLAIN(read4) PLAIN(read8) PLAIN(read16)
PLAIN(write1) PLAIN(write2) PLAIN(write4) PLAIN(write8) PLAIN(write16)
PLAIN(unaligned_read2) PLAIN(unaligned_read4) PLAIN(unaligned_read8) PLAIN(unaligned_read16)
PLAIN(unaligned_write2) PLAIN(unaligned_write4) PLAIN(unaligned_write8) PLAIN(unaligned_write16)
PLAIN(read_write1) PLAIN(read_write2) PLAIN(read_write4) PLAIN(read_write8) PLAIN(read_write16)
PLAIN(vptr_read)
void __tsan_vptr_update(void **a, void *v) { (void)a; (void)v; }
void __tsan_read_range(const void *a, unsigned long n) { (void)n; if (DATA) AT(K_DATA); }
void __tsan_write_range(const void *a, unsigned long n) { (void)n; if (DATA) AT(K_DATA); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
