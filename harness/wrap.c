#define _GNU_SOURCE
#include "wrap.h"
#include <errno.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stdio.h>
#include <string.h>
int w_fill = -1, w_ledger = 0; long w_fail_at = 0, w_fail_len = 1, w_fail_thread = 0; uintptr_t w_fail_site = 0;
long w_n_alloc, w_n_thread, w_n_failed, w_thread_base; size_t w_max_req;
static atomic_long n_threads_alive;
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
static atomic_flag lk = ATOMIC_FLAG_INIT;
static void L(void) { while (atomic_flag_test_and_set_explicit(&lk, memory_order_acquire)) {} }
static void U(void) { atomic_flag_clear_explicit(&lk, memory_order_release); }
typedef struct { void *p; size_t sz; uintptr_t site; long seq; } Blk;
static Blk *tab; static size_t tcap, tn; size_t w_bytes, w_peak;
typedef struct { uintptr_t site; long n; size_t mx; } Site; static Site sites[512]; static int nsites;
static size_t hashp(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 20; }
static void t_ins(Blk b) { size_t i = hashp(b.p) & (tcap - 1); while (tab[i].p) i = (i + 1) & (tcap - 1); tab[i] = b; }
static void t_add(void *p, size_t sz, uintptr_t site, long seq) {
    if (tn * 2 >= tcap) {
        Blk *o = tab; size_t oc = tcap; tcap = tcap ? tcap * 2 : 4096; tab = xcalloc(tcap, sizeof *tab);
        for (size_t i = 0; i < oc; i++) if (o[i].p) t_ins(o[i]);
        xfree(o);
    }
    t_ins((Blk){ p, sz, site, seq }); tn++; w_bytes += sz; if (w_bytes > w_peak) w_peak = w_bytes;
}
static int t_del(void *p) {
    if (!tcap) return 0;
    size_t i = hashp(p) & (tcap - 1);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (tcap - 1);
    if (!tab[i].p) return 0;
    tab[i].p = NULL; tn--; w_bytes -= tab[i].sz;
    for (size_t j = (i + 1) & (tcap - 1); tab[j].p; j = (j + 1) & (tcap - 1)) { Blk b = tab[j]; tab[j].p = NULL; t_ins(b); }
    return 1;
}
static int gate(size_t sz, uintptr_t site, long *seq) {     /* returns 1 if the request must fail */
    if (!w_ledger && !w_fail_at) return 0;
    int f = 0; L();
    if (sz > w_max_req) w_max_req = sz;
    int k = 0; while (k < nsites && sites[k].site != site) k++;
    if (k == nsites && nsites < 512) { sites[nsites].site = site; sites[nsites++].n = 0; }
    if (k < nsites) { sites[k].n++; if (sz > sites[k].mx) sites[k].mx = sz; }
    if (!w_fail_site || w_fail_site == site) {
        *seq = ++w_n_alloc;
        if (w_fail_at && w_n_alloc >= w_fail_at && w_n_alloc < w_fail_at + w_fail_len) { f = 1; w_n_failed++; }
    }
    U(); return f;
}
static void p_open(void *p, size_t n);
static uint32_t frnd;
static void done(void *p, size_t sz, uintptr_t site, long seq) {
    if (!p) return;
    if (w_fill >= 0) {
        if (w_fill < 256) memset(p, w_fill, sz);
        else if (w_fill == 256) { uint32_t s = (frnd += 0x9E3779B9u); uint8_t *b = p; for (size_t i = 0; i < sz; i++) { s = s * 1664525u + 1013904223u; b[i] = s >> 24; } }
        else { uint8_t *b = p; for (size_t i = 0; i < sz; i++) b[i] = (uint8_t)((uintptr_t)(b + i) * 37 >> 3); }
    }
    if (w_ledger) { L(); t_add(p, sz, site, seq); U(); }
}
extern char __executable_start;
#define SITE ((uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start)
void *__wrap_malloc(size_t sz) { long q = 0; const uintptr_t s = SITE; if (gate(sz, s, &q)) { errno = ENOMEM; return NULL; } void *p = xmalloc(sz); done(p, sz, s, q); return p; }
void *__wrap_calloc(size_t n, size_t m) { long q = 0; const uintptr_t s = SITE; if (gate(n * m, s, &q)) { errno = ENOMEM; return NULL; } void *p = xcalloc(n, m); if (p && w_ledger) { L(); t_add(p, n * m, s, q); U(); } return p; }
int __wrap_posix_memalign(void **o, size_t a, size_t sz) { long q = 0; const uintptr_t s = SITE; if (gate(sz, s, &q)) return ENOMEM; int r = __real_posix_memalign(o, a, sz); if (!r) done(*o, sz, s, q); return r; }
void *__wrap_aligned_alloc(size_t a, size_t sz) { void *p; return __wrap_posix_memalign(&p, a, sz) ? NULL : p; }
void *__wrap_memalign(size_t a, size_t sz) { void *p; return __wrap_posix_memalign(&p, a, sz) ? NULL : p; }
void *__wrap_realloc(void *o, size_t sz) {
    long q = 0; const uintptr_t s = SITE; if (gate(sz, s, &q)) { errno = ENOMEM; return NULL; }
    size_t old = o && w_fill >= 0 ? malloc_usable_size(o) : 0;
    if (w_ledger && o) { L(); int k = t_del(o); U(); if (!k) printf("V ledger realloc of unknown block %p\n", o); }
    void *p = xrealloc(o, sz);
    if (p && w_fill >= 0 && sz > old) memset((char *)p + old, w_fill & 255, sz - old);
    if (p && w_ledger) { L(); t_add(p, sz, s, q); U(); }
    return p;
}
void __wrap_free(void *p) {
    if (!p) return;
    if (w_ledger) { L(); int k = t_del(p); U(); if (!k) { printf("V ledger free of unknown or already freed block %p\n", p); fflush(stdout); } }
    if (w_fill >= 0) { size_t n = malloc_usable_size(p); p_open(p, n); memset(p, w_fill == 257 ? 0xDD : (w_fill ^ 0x5a) & 255, n); }
    xfree(p);
}
size_t w_live(void) { return tn; }
void w_report(const char *tag) {
    for (size_t i = 0; i < tcap; i++) if (tab[i].p) printf("V leak %s block of %zu bytes, request #%ld from site 0x%lx\n", tag, tab[i].sz, tab[i].seq, (long)tab[i].site);
}
void w_sites(void) { for (int i = 0; i < nsites; i++) printf("S site 0x%lx n %ld max %zu\n", (long)sites[i].site, sites[i].n, sites[i].mx); }
long w_threads_alive(void) { return atomic_load(&n_threads_alive); }
#ifdef SCHED
int sched_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int sched_join(pthread_t, void **);
#else
#define sched_create __real_pthread_create
#define sched_join __real_pthread_join
#endif
#ifndef NO_WRAP_THREADS
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    const long n = ++w_n_thread;
    if (w_fail_thread && n - w_thread_base == w_fail_thread) { w_n_failed++; return EAGAIN; }
    int r = sched_create(t, a, f, x); if (!r) atomic_fetch_add(&n_threads_alive, 1); return r;
}
int __wrap_pthread_join(pthread_t t, void **v) { int r = sched_join(t, v); if (!r) atomic_fetch_sub(&n_threads_alive, 1); return r; }
#endif

/* Memory the library recycles is as good as freed and newly allocated: inaccessible while nobody owns it (ASan),
 * uninitialised (MSan) or filled with the pattern of the run (fill=) when it is handed out again. */
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POOL_ASAN 1
#elif __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define POOL_MSAN 1
#endif
#endif
void *__real_dav1d_mem_pool_pop(void *pool, size_t size) __attribute__((weak));
void __real_dav1d_mem_pool_push(void *pool, void *buf) __attribute__((weak));
static struct { void *buf; size_t sz; } ptab[1 << 12]; long w_n_recycled;
static void p_open(void *p, size_t n) {            /* recycled memory that is freed now */
#ifdef POOL_ASAN
    ASAN_UNPOISON_MEMORY_REGION(p, n);
#endif
}
static void p_out(char *d, size_t sz) {
#ifdef POOL_ASAN
    ASAN_UNPOISON_MEMORY_REGION(d, sz);
#endif
#ifdef POOL_MSAN
    __msan_allocated_memory(d, sz);
#endif
    if (w_fill >= 0) {
        if (w_fill < 256) memset(d, w_fill, sz);
        else if (w_fill == 256) { uint32_t s = __atomic_add_fetch(&frnd, 0x9E3779B9u, __ATOMIC_RELAXED); for (size_t i = 0; i < sz; i++) { s = s * 1664525u + 1013904223u; d[i] = s >> 24; } }
        else for (size_t i = 0; i < sz; i++) d[i] = (char)((uintptr_t)(d + i) * 37 >> 3);
    }
#ifdef POOL_MSAN
    if (w_fill >= 0) __msan_allocated_memory(d, sz);
#endif
}
static void p_in(char *d, size_t sz) {
    if (w_fill >= 0) memset(d, w_fill == 257 ? 0xDD : (w_fill ^ 0x5a) & 255, sz);
#ifdef POOL_ASAN
    ASAN_POISON_MEMORY_REGION(d, sz);
#endif
#ifdef POOL_MSAN
    __msan_allocated_memory(d, sz);
#endif
}
void *__wrap_dav1d_mem_pool_pop(void *pool, size_t size) {
    void **b = __real_dav1d_mem_pool_pop(pool, size);
#if !defined(SCHED)
    if (b && *b == (char *)b - size) {              /* (the layout this relies on, checked) */
        size_t i = hashp(b) & 4095; int k = 0; L();
        while (ptab[i].buf && ptab[i].buf != b && k++ < 64) i = (i + 1) & 4095;
        if (!ptab[i].buf || ptab[i].buf == b) { ptab[i].buf = b; ptab[i].sz = size; w_n_recycled++; U(); p_out(*b, size); }
        else { U();
#ifdef POOL_ASAN
            ASAN_UNPOISON_MEMORY_REGION(*b, size);
#endif
        }
    }
#endif
    return b;
}
void __wrap_dav1d_mem_pool_push(void *pool, void *buf) {
#if !defined(SCHED)
    size_t i = hashp(buf) & 4095, sz = 0; int k = 0; L();
    while (ptab[i].buf && ptab[i].buf != buf && k++ < 64) i = (i + 1) & 4095;
    if (ptab[i].buf == buf) { sz = ptab[i].sz; ptab[i].sz = 0; }
    U();
    if (sz && *(void **)buf == (char *)buf - sz) p_in((char *)buf - sz, sz);
#endif
    __real_dav1d_mem_pool_push(pool, buf);
}
