#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "vsched.h"
#define NS __attribute__((disable_sanitizer_instrumentation))
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *); int __real_pthread_cond_destroy(pthread_cond_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int __real_pthread_cond_signal(pthread_cond_t *); int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_once(pthread_once_t *, void (*)(void));

enum { FREE, RUN, WMUTEX, WCOND, WJOIN, DONE };
typedef struct { volatile int go; int st; void *obj; pthread_t tid; int prio; void *(*f)(void *); void *arg; } Th;
#define MAXT 600
static Th th[MAXT]; static int nth, cur, on, no_preempt, mode, spurious, jitter;
static __thread int self_ = -1; static __thread uint64_t jr; static __thread int jn;
static uint64_t s_rng, digest = 1469598103934665603ull; static long period, budget, steps, switches, nchange; long sched_edges;
static long change_at[8], atomics; static int aq;
#define MAXM 4096
static struct { void *m; int owner; } mt[MAXM];
static int lowprio = -1;
NS static uint32_t R(void) { s_rng ^= s_rng << 13; s_rng ^= s_rng >> 7; s_rng ^= s_rng << 17; return s_rng * 0x2545F4914F6CDD1Dull >> 32; }
NS static long sys4(long n, long a, long b, long c, long d) { long r; register long r10 __asm__("r10") = d; __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory"); return r; }
NS static void fwait(volatile int *p) { while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) sys4(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, 0, 0); __atomic_store_n(p, 0, __ATOMIC_RELAXED); }
NS static void fwake(volatile int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); sys4(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0); }
NS static void new_budget(void) { budget = 1 + (period > 1 ? R() % (2 * period) : 0); }
NS static void dead(const char *why) {
    static const char *const nm[] = { "free", "runnable", "waits for a mutex", "waits for a condition", "waits for a thread", "done" };
    char b[4096]; int n = snprintf(b, sizeof b, "V %s:", why);
    for (int i = 0; i < nth && n < 3500; i++) n += snprintf(b + n, sizeof b - n, " T%d %s;", i, nm[th[i].st]);
    n += snprintf(b + n, sizeof b - n, "\nSCHED-DEADLOCK\n");
    fflush(stdout); (void)!write(1, b, n); _exit(78);
}
NS static int pick(void) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nth; i++) if (th[i].st == RUN) c[n++] = i;
    if (!n) return -1;
    if (mode == 1 || mode >= 4) { int b = c[0]; for (int i = 1; i < n; i++) if (th[c[i]].prio > th[b].prio) b = c[i]; return b; }
    if (mode == 2) { for (int i = 0; i < n; i++) if (c[i] > cur) return c[i]; return c[0]; }
    return c[R() % n];
}
NS static void maybe_spurious(void) {
    if (!spurious || R() % 100 >= (unsigned)spurious) return;
    int c[MAXT], n = 0; for (int i = 0; i < nth; i++) if (th[i].st == WCOND) c[n++] = i;
    if (n) th[c[R() % n]].st = RUN;
}
/* hand the token on; the caller has set its own state */
NS static void yield_(void) {
    const int me = self_; steps++;
    const int n = pick();
    if (n < 0) dead("deadlock, no thread can run");
    digest = (digest ^ (uint64_t)n) * 1099511628211ull;
    if (mode < 5) new_budget();
    if (n == me) return;
    switches++; cur = n; fwake(&th[n].go);
    if (th[me].st != DONE) fwait(&th[me].go);
}
NS static void point(void) { if (!on || self_ < 0 || no_preempt) return; maybe_spurious(); yield_(); }
NS static int *owner(void *m) {
    size_t h = ((uintptr_t)m >> 3) * 0x9E3779B1u % MAXM;
    for (int k = 0; k < MAXM; k++, h = (h + 1) % MAXM) { if (mt[h].m == m) return &mt[h].owner; if (!mt[h].m) { mt[h].m = m; mt[h].owner = -1; return &mt[h].owner; } }
    abort();
}
NS static void wake_mutex(void *m) { for (int i = 0; i < nth; i++) if (th[i].st == WMUTEX && th[i].obj == m) th[i].st = RUN; }
NS static void acquire(pthread_mutex_t *m) {
    int *o;
    while (*(o = owner(m)) >= 0) {
        if (*o == self_) dead("self-deadlock, a thread locks a mutex it already holds");
        th[self_].st = WMUTEX; th[self_].obj = m; yield_();
    }
    *o = self_; th[self_].st = RUN;
    __real_pthread_mutex_lock(m);
}
NS static void release(pthread_mutex_t *m) { int *o = owner(m); if (*o != self_) dead("a thread unlocks a mutex it does not hold"); __real_pthread_mutex_unlock(m); *o = -1; wake_mutex(m); }
NS int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (on) *owner(m) = -1; return __real_pthread_mutex_init(m, a); }
NS int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (on && self_ >= 0 && *owner(m) >= 0) dead("a locked mutex is destroyed"); return __real_pthread_mutex_destroy(m); }
NS int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!on || self_ < 0) return __real_pthread_mutex_lock(m); point(); acquire(m); return 0; }
NS int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!on || self_ < 0) return __real_pthread_mutex_trylock(m); point(); if (*owner(m) >= 0) return EBUSY; acquire(m); return 0; }
NS int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!on || self_ < 0) return __real_pthread_mutex_unlock(m); release(m); point(); return 0; }
NS int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return __real_pthread_cond_init(c, a); }
NS int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
    if (on && self_ >= 0) for (int i = 0; i < nth; i++) if (th[i].st == WCOND && th[i].obj == c) dead("a condition variable with waiters is destroyed");
    return __real_pthread_cond_destroy(c);
}
NS int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!on || self_ < 0) return __real_pthread_cond_wait(c, m);
    th[self_].st = WCOND; th[self_].obj = c; release(m); yield_(); acquire(m); return 0;
}
NS int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (!on || self_ < 0) return __real_pthread_cond_signal(c);
    int w[MAXT], n = 0; for (int i = 0; i < nth; i++) if (th[i].st == WCOND && th[i].obj == c) w[n++] = i;
    if (n) th[w[R() % n]].st = RUN;
    if (mode == 6) th[self_].prio = lowprio--;
    point(); return 0;
}
NS int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    if (!on || self_ < 0) return __real_pthread_cond_broadcast(c);
    for (int i = 0; i < nth; i++) if (th[i].st == WCOND && th[i].obj == c) th[i].st = RUN;
    if (mode == 6) th[self_].prio = lowprio--;
    point(); return 0;
}
NS int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { no_preempt++; int r = __real_pthread_once(o, f); no_preempt--; return r; }
static void *tramp(void *x);
NS static void *tramp_(Th *t) {
    self_ = (int)(t - th); fwait(&t->go);
    void *r = t->f(t->arg);
    t->st = DONE; for (int i = 0; i < nth; i++) if (th[i].st == WJOIN && th[i].obj == t) th[i].st = RUN;
    yield_(); return r;
}
static void *tramp(void *x) { return tramp_(x); }
NS static int new_prio(void) { return 1000 + (int)(R() % 100000); }
NS int sched_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    if (!on || self_ < 0) return __real_pthread_create(t, a, f, x);
    int k = 0; while (k < nth && th[k].st != FREE) k++;
    if (k >= MAXT) abort();
    if (k == nth) nth++;
    Th *n = &th[k]; memset((void *)n, 0, sizeof *n); n->st = FREE; n->f = f; n->arg = x; n->prio = new_prio();
    const int r = __real_pthread_create(t, a, tramp, n); if (r) return r;
    n->tid = *t; n->st = RUN; point(); return 0;
}
NS int sched_join(pthread_t t, void **v) {
    if (!on || self_ < 0) return __real_pthread_join(t, v);
    Th *x = NULL; for (int i = 0; i < nth; i++) if (th[i].st != FREE && th[i].tid == t) x = &th[i];
    if (!x) return __real_pthread_join(t, v);
    while (x->st != DONE) { th[self_].st = WJOIN; th[self_].obj = x; yield_(); }
    const int r = __real_pthread_join(t, v); x->st = FREE; x->tid = 0; return r;
}
NS void sched_on(uint64_t seed, int m, long per) {
    s_rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 8; i++) R();
    mode = m; period = per; nth = 1; th[0].st = RUN; th[0].prio = new_prio(); self_ = 0; cur = 0; on = 1; new_budget();
    aq = per <= 20 ? 2 : per <= 100 ? 4 : per <= 500 ? 8 : per <= 3000 ? 16 : 64; atomics = 0;
    nchange = 2 + R() % 5; for (int i = 0; i < 8; i++) change_at[i] = (long)(R() % (per * 50 + 1));
}
NS void sched_off(void) { on = 0; }
NS void sched_spurious(int p) { spurious = p; }
NS void sched_jitter(uint64_t seed) { jitter = 1; s_rng = seed; }
/* mode 6: a thread that has just published something (atomic store, signal) goes last; what the others can do with it is done before anything else */
NS void vs_atomic_stored(void) { if (!on || self_ < 0 || cur != self_ || no_preempt || mode != 6) return; atomics++; if (R() % 8) { th[self_].prio = lowprio--; point(); } }
/* modes 3 and 4 switch at atomic operations (and locks) only: at random, or by priority with a few change points */
NS void vs_atomic_point(void) {
    if (!on || self_ < 0 || cur != self_ || no_preempt || mode < 3 || mode > 4) return;
    atomics++;
    if (mode == 3) { if (!(R() % aq)) point(); return; }
    for (int i = 0; i < nchange; i++) if (atomics == change_at[i]) { th[self_].prio = lowprio--; point(); }
}
void sched_report(void) { if (on) printf("S sched mode %d steps %ld switches %ld edges %ld digest %016llx\n", mode, steps, switches, sched_edges + atomics, (unsigned long long)digest); }
NS void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; }
NS void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (on && self_ >= 0 && cur == self_) {
        sched_edges++;
        if (mode >= 5) { if (--budget <= 0) { new_budget(); th[self_].prio = lowprio--; point(); } return; }
        if (mode >= 3) return;
        if (mode == 1) {
            for (int i = 0; i < nchange; i++) if (sched_edges == change_at[i]) { th[self_].prio = lowprio--; point(); }
            return;
        }
        if (--budget > 0) return;
        point(); if (budget <= 0) new_budget();
    } else if (jitter) {
        if (jn-- > 0) return;
        if (!jr) jr = s_rng ^ (uintptr_t)&jr * 0x9E3779B97F4A7C15ull;
        jr ^= jr << 13; jr ^= jr >> 7; jr ^= jr << 17; jn = (jr >> 20) % 6000;
        if ((jr >> 40) % 8 == 0) usleep((jr >> 50) % 60); else sched_yield();
    }
}
