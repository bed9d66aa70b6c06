/* Interposition layer (linked with -Wl,--wrap=...): fill patterns, live-block ledger, fault injection. */
#ifndef WRAP_H
#define WRAP_H
#include <stddef.h>
#include <stdint.h>
#include <pthread.h>
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t);
void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
#define xmalloc __real_malloc
#define xcalloc __real_calloc
#define xrealloc __real_realloc
#define xfree __real_free
extern int w_fill;              /* -1 off, 0..255 byte, 256 random per block, 257 address-dependent */
extern int w_ledger;            /* 1: track live blocks (takes a lock: not in TSan builds) */
extern long w_fail_at, w_fail_len; /* fail allocation requests number [at, at+len) (1-based), 0 off */
extern uintptr_t w_fail_site;   /* if set: only count/fail requests from this call site */
extern long w_fail_thread;      /* fail the Nth pthread_create */
extern long w_n_alloc, w_n_thread, w_n_failed, w_thread_base;
extern size_t w_max_req;        /* largest single request */
extern size_t w_bytes, w_peak;  /* live bytes, and the most since it was last cleared */
size_t w_live(void);            /* number of live blocks */
void w_report(const char *tag); /* prints live blocks as V lines */
long w_threads_alive(void);
/* call sites seen (for fault enumeration) */
void w_sites(void);
#endif
