/* force-included into the edge and tsan builds: every atomic operation becomes a place where the scheduler may switch threads */
#if !defined(VATOMIC_H) && !defined(__ASSEMBLER__) && !defined(__cplusplus)
#define VATOMIC_H
#include <stdatomic.h>
extern void vs_atomic_point(void) __attribute__((weak)); extern void vs_atomic_stored(void) __attribute__((weak));
static inline __attribute__((always_inline, unused)) void vs_ap_(void) { if (vs_atomic_point) vs_atomic_point(); }
static inline __attribute__((always_inline, unused)) void vs_as_(void) { if (vs_atomic_stored) vs_atomic_stored(); }
#undef atomic_load
#undef atomic_store
#undef atomic_exchange
#undef atomic_fetch_add
#undef atomic_fetch_sub
#undef atomic_fetch_or
#undef atomic_fetch_and
#undef atomic_compare_exchange_strong
#undef atomic_load_explicit
#undef atomic_store_explicit
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub_explicit
#define atomic_load(p) (vs_ap_(), __c11_atomic_load(p, __ATOMIC_SEQ_CST))
#define atomic_load_explicit(p, o) (vs_ap_(), __c11_atomic_load(p, o))
#define atomic_store(p, v) (vs_ap_(), __c11_atomic_store(p, v, __ATOMIC_SEQ_CST), vs_as_())
#define atomic_store_explicit(p, v, o) (vs_ap_(), __c11_atomic_store(p, v, o), vs_as_())
#define atomic_exchange(p, v) (vs_ap_(), __c11_atomic_exchange(p, v, __ATOMIC_SEQ_CST))
#define atomic_fetch_add(p, v) (vs_ap_(), __c11_atomic_fetch_add(p, v, __ATOMIC_SEQ_CST))
#define atomic_fetch_sub(p, v) (vs_ap_(), __c11_atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST))
#define atomic_fetch_or(p, v) (vs_ap_(), __c11_atomic_fetch_or(p, v, __ATOMIC_SEQ_CST))
#define atomic_fetch_and(p, v) (vs_ap_(), __c11_atomic_fetch_and(p, v, __ATOMIC_SEQ_CST))
#define atomic_fetch_add_explicit(p, v, o) (vs_ap_(), __c11_atomic_fetch_add(p, v, o))
#define atomic_fetch_sub_explicit(p, v, o) (vs_ap_(), __c11_atomic_fetch_sub(p, v, o))
#define atomic_compare_exchange_strong(p, e, v) (vs_ap_(), __c11_atomic_compare_exchange_strong(p, e, v, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
#endif
