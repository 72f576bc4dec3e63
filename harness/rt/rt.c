/* Runtime for code that is compiled with -Zsanitizer=thread, instead of the runtime of that sanitizer.
 *
 * Only one controlled thread runs at a time (sched.rs). Atomic operations are scheduling points. All accesses are
 * checked: vector clocks per thread and per atomic variable, as far as the memory orderings used in the program
 * order things, last write and last reads per byte. Reported are accesses that are not ordered, and accesses to
 * released memory. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

#define NT 4
#define GRAN (1u << 15)
#define NSYNC (1u << 13)
typedef struct { uint32_t c[NT]; } VC;

/* set while a controlled thread runs code under test */
static __thread int on = 0;
static __thread int me = 0;
/* what a thread does with its own stack is not looked at */
static __thread uintptr_t stack_lo = 0, stack_hi = 0;
/* accesses to released memory only (single threaded checks) */
static int tracking = 0;
static void (*point)(void) = 0;

typedef struct { uint8_t wt; uint8_t freed; uint32_t w; uint32_t r[NT]; } Byte;
/* owner: the thread (+1) that allocated it in this execution, while no other thread touched it */
typedef struct {
    uint8_t owner;
    uint8_t uni; /* all bytes are like the first */
    uint8_t sync; /* has atomic variables */
    Byte b[8];
} Gran;
typedef struct { uintptr_t key; uint32_t gen; uint32_t i; } Slot;
static Slot *H = 0;
static Gran *G = 0;
typedef struct { uintptr_t key; uint32_t gen; VC l; } Sync;
static Sync *S = 0;
static uint32_t gen = 1;
static uint64_t n_gran, n_sync, n_access, n_atomic, n_full;
static VC C[NT], FA[NT], FR[NT];
static char report[512];
static int nthreads;

void *mmap(void *, size_t, int, int, int, long);

int mc_rt_on(int v) { int o = on; on = v; return o; }
void mc_rt_me(int t) {
    pthread_attr_t at;
    void *lo;
    size_t n;
    me = t;
    if (pthread_getattr_np(pthread_self(), &at)) return;
    pthread_attr_getstack(&at, &lo, &n);
    pthread_attr_destroy(&at);
    stack_lo = (uintptr_t)lo;
    stack_hi = stack_lo + n;
}
void mc_rt_point(void (*f)(void)) { point = f; }
const char *mc_rt_report(void) { return report[0] ? report : 0; }
uint64_t mc_rt_stat(int i) { return i == 0 ? n_access : i == 1 ? n_atomic : n_full; }

/* a new execution: forget everything, all threads start now */
void mc_rt_reset(int n) {
    if (!G) {
        G = mmap(0, sizeof(Gran) * GRAN, 3, 0x22, -1, 0);
        H = mmap(0, sizeof(Slot) * GRAN, 3, 0x22, -1, 0);
        S = mmap(0, sizeof(Sync) * NSYNC, 3, 0x22, -1, 0);
    }
    gen++;
    n_gran = n_sync = 0;
    memset(C, 0, sizeof C);
    memset(FA, 0, sizeof FA);
    memset(FR, 0, sizeof FR);
    for (int i = 0; i < NT; i++) C[i].c[i] = 1;
    report[0] = 0;
    nthreads = n;
    tracking = 1;
}
void mc_rt_stop(void) { tracking = 0; }
static void join(VC *a, const VC *b) {
    for (int i = 0; i < NT; i++)
        if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}
static Gran *gran(uintptr_t k) {
    uint32_t h = (uint32_t)((k * 0x9E3779B97F4A7C15ull) >> 40) & (GRAN - 1);
    for (uint32_t i = 0; i < GRAN; i++) {
        Slot *s = &H[(h + i) & (GRAN - 1)];
        if (s->gen != gen) {
            if (n_gran * 10 > (uint64_t)GRAN * 9) { n_full++; return 0; }
            s->gen = gen;
            s->key = k;
            s->i = n_gran++;
            Gran *g = &G[s->i];
            memset(g, 0, offsetof(Gran, b) + sizeof(Byte));
            g->uni = 1;
            return g;
        }
        if (s->key == k) return &G[s->i];
    }
    return 0;
}
static Sync *syncv(uintptr_t k) {
    uint32_t h = (uint32_t)((k * 0x9E3779B97F4A7C15ull) >> 40) & (NSYNC - 1);
    for (uint32_t i = 0; i < NSYNC; i++) {
        Sync *s = &S[(h + i) & (NSYNC - 1)];
        if (s->gen != gen) {
            if (n_sync * 10 > (uint64_t)NSYNC * 9) { n_full++; return 0; }
            n_sync++;
            s->gen = gen;
            s->key = k;
            memset(&s->l, 0, sizeof s->l);
            return s;
        }
        if (s->key == k) return s;
    }
    return 0;
}
static void bad(const char *what, int other) {
    if (!report[0]) snprintf(report, sizeof report, "%s (thread %d%s%c)", what, me, other >= 0 ? " and thread " : "", other >= 0 ? '0' + other : ' ');
}
/* kind: 0 read, 1 write, 2 atomic read, 3 release of the memory */
static void access1(Byte *b, int kind) {
    const VC *c = &C[me];
    if (b->freed) bad(kind == 3 ? "memory is released twice" : kind == 1 ? "released memory is written" : "released memory is read", -1);
    if (b->w && b->wt != me && b->w > c->c[b->wt])
        bad(kind == 0 ? "data race: a read is not ordered with a write" : kind == 1 ? "data race: two writes are not ordered" : kind == 2 ? "data race: an atomic operation is not ordered with a plain write" : "data race: a release is not ordered with a write", b->wt);
    if (kind == 0 || kind == 2) {
        b->r[me] = c->c[me];
        return;
    }
    for (int u = 0; u < nthreads; u++) {
        if (u != me && b->r[u] > c->c[u]) bad(kind == 3 ? "data race: a release is not ordered with a read" : "data race: a write is not ordered with a read", u);
        b->r[u] = 0;
    }
    b->wt = me;
    b->w = c->c[me];
    b->freed = kind == 3;
}
static void spread(Gran *g) {
    if (g->uni)
        for (int i = 1; i < 8; i++) g->b[i] = g->b[0];
    g->uni = 0;
}
static void access(const void *p, size_t n, int kind) {
    n_access++;
    uintptr_t a = (uintptr_t)p, e = a + n;
    if (a >= stack_lo && a < stack_hi) return;
    while (a < e) {
        Gran *g = gran(a >> 3);
        if (!g) return;
        if (g->owner && g->owner != me + 1) g->owner = 0;
        if (g->uni && !(a & 7) && e - a >= 8) {
            access1(&g->b[0], kind);
            a += 8;
            continue;
        }
        spread(g);
        for (; a < e;) {
            access1(&g->b[a & 7], kind);
            a++;
            if (!(a & 7)) break;
        }
    }
}
static void forget_sync(uintptr_t a) {
    for (uintptr_t x = a; x < a + 8; x++) {
        uint32_t h = (uint32_t)((x * 0x9E3779B97F4A7C15ull) >> 40) & (NSYNC - 1);
        for (uint32_t i = 0; i < NSYNC; i++) {
            Sync *s = &S[(h + i) & (NSYNC - 1)];
            if (s->gen != gen) break;
            if (s->key == x) { memset(&s->l, 0, sizeof s->l); break; }
        }
    }
}
/* memory was allocated: nothing is known about it */
void mc_rt_alloc(const void *p, size_t n) {
    if (!tracking) return;
    uintptr_t a = (uintptr_t)p & ~7ul, e = (uintptr_t)p + n;
    /* blocks are aligned to 16 and followed by a guard */
    for (; a < e; a += 8) {
        Gran *g = gran(a >> 3);
        if (!g) return;
        if (g->sync) forget_sync(a);
        g->sync = 0;
        g->owner = me + 1;
        g->uni = 1;
        memset(&g->b[0], 0, sizeof(Byte));
    }
}
void mc_rt_free(const void *p, size_t n) {
    if (!tracking) return;
    if (on) access(p, n, 3);
    else mc_rt_alloc(p, n);
}
#define ACC(p, n, k) do { if (on && tracking) access(p, n, k); } while (0)
#define RW(n) \
    void __tsan_read##n(void *p) { ACC(p, n, 0); } \
    void __tsan_write##n(void *p) { ACC(p, n, 1); } \
    void __tsan_read_write##n(void *p) { ACC(p, n, 0); ACC(p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { ACC(p, n, 0); } \
    void __tsan_unaligned_write##n(void *p) { ACC(p, n, 1); } \
    void __tsan_unaligned_read_write##n(void *p) { ACC(p, n, 0); ACC(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { ACC(p, n, 0); } \
    void __tsan_volatile_write##n(void *p) { ACC(p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { ACC(p, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { ACC(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { ACC(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { ACC(p, n, 1); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void *p, void *q) { (void)q; ACC(p, 8, 1); }
void __tsan_vptr_read(void *p) { ACC(p, 8, 0); }
void *__tsan_memcpy(void *a, const void *b, size_t n) { ACC(b, n, 0); ACC(a, n, 1); return memcpy(a, b, n); }
void *__tsan_memmove(void *a, const void *b, size_t n) { ACC(b, n, 0); ACC(a, n, 1); return memmove(a, b, n); }
void *__tsan_memset(void *a, int c, size_t n) { ACC(a, n, 1); return memset(a, c, n); }

/* orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst */
static int acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
static int rel(int mo) { return mo >= 3; }
/* an atomic variable that only one thread knows is no reason to switch */
static void before(const volatile void *p) {
    if (on && point) {
        Gran *g = tracking ? gran((uintptr_t)p >> 3) : 0;
        if (g && g->owner == me + 1) return;
        on = 0;
        point();
        on = 1;
    }
}
/* how: 0 load, 1 store, 2 read-modify-write */
static void atomic_op(const volatile void *p, size_t n, int mo, int how) {
    if (!on || !tracking) return;
    n_atomic++;
    access((const void *)p, n, 2);
    Gran *g = gran((uintptr_t)p >> 3);
    if (g) g->sync = 1;
    Sync *s = syncv((uintptr_t)p);
    if (!s) return;
    if (how != 1) {
        if (acq(mo)) join(&C[me], &s->l);
        else join(&FA[me], &s->l);
    }
    if (how != 0) {
        if (how == 1) memset(&s->l, 0, sizeof s->l);
        if (rel(mo)) join(&s->l, &C[me]);
        else join(&s->l, &FR[me]);
        C[me].c[me]++;
    }
}
void __tsan_atomic_thread_fence(int mo) {
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    if (!on || !tracking) return;
    if (acq(mo)) join(&C[me], &FA[me]);
    if (rel(mo)) { FR[me] = C[me]; C[me].c[me]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int mo) { before(p); atomic_op(p, sizeof(T), mo, 0); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int mo) { before(p); atomic_op(p, sizeof(T), mo, 1); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int mo) { before(p); atomic_op(p, sizeof(T), mo, 2); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int mo) { before(p); atomic_op(p, sizeof(T), mo, 2); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int mo) { before(p); atomic_op(p, sizeof(T), mo, 2); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int mo) { before(p); atomic_op(p, sizeof(T), mo, 2); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int mo) { before(p); atomic_op(p, sizeof(T), mo, 2); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int mo) { before(p); atomic_op(p, sizeof(T), mo, 2); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int mo) { before(p); atomic_op(p, sizeof(T), mo, 2); return __atomic_fetch_nand(p, v, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fo) { \
        before(p); \
        int ok = __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); \
        atomic_op(p, sizeof(T), ok ? mo : fo, ok ? 2 : 0); \
        return c; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fo) { \
        before(p); \
        int ok = __atomic_compare_exchange_n(p, c, v, 0, 5, 5); \
        atomic_op(p, sizeof(T), ok ? mo : fo, ok ? 2 : 0); \
        return ok; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fo) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, mo, fo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
