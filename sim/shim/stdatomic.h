// Put in front of the compiler's <stdatomic.h> when the library is built for the simulator: every atomic access is also
// a point where the simulated scheduler may switch threads. Semantics are the compiler's own.
#ifndef SIM_SHIM_STDATOMIC_H
#define SIM_SHIM_STDATOMIC_H
#include_next <stdatomic.h>
#ifndef __cplusplus
#ifdef __clang__
void sim_atomic_point(void);
#undef atomic_load
#undef atomic_load_explicit
#undef atomic_store
#undef atomic_store_explicit
#undef atomic_exchange
#undef atomic_exchange_explicit
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_weak_explicit
#undef atomic_fetch_add
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub
#undef atomic_fetch_sub_explicit
#undef atomic_fetch_or
#undef atomic_fetch_or_explicit
#undef atomic_fetch_and
#undef atomic_fetch_and_explicit
#define atomic_load_explicit(p, m) (sim_atomic_point(), __c11_atomic_load(p, m))
#define atomic_load(p) atomic_load_explicit(p, __ATOMIC_SEQ_CST)
#define atomic_store_explicit(p, v, m) (sim_atomic_point(), __c11_atomic_store(p, v, m))
#define atomic_store(p, v) atomic_store_explicit(p, v, __ATOMIC_SEQ_CST)
#define atomic_exchange_explicit(p, v, m) (sim_atomic_point(), __c11_atomic_exchange(p, v, m))
#define atomic_exchange(p, v) atomic_exchange_explicit(p, v, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_strong_explicit(p, e, d, s, f) \
  (sim_atomic_point(), __c11_atomic_compare_exchange_strong(p, e, d, s, f))
#define atomic_compare_exchange_strong(p, e, d) \
  atomic_compare_exchange_strong_explicit(p, e, d, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_weak_explicit(p, e, d, s, f) \
  (sim_atomic_point(), __c11_atomic_compare_exchange_weak(p, e, d, s, f))
#define atomic_compare_exchange_weak(p, e, d) \
  atomic_compare_exchange_weak_explicit(p, e, d, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define atomic_fetch_add_explicit(p, v, m) (sim_atomic_point(), __c11_atomic_fetch_add(p, v, m))
#define atomic_fetch_add(p, v) atomic_fetch_add_explicit(p, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_sub_explicit(p, v, m) (sim_atomic_point(), __c11_atomic_fetch_sub(p, v, m))
#define atomic_fetch_sub(p, v) atomic_fetch_sub_explicit(p, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_or_explicit(p, v, m) (sim_atomic_point(), __c11_atomic_fetch_or(p, v, m))
#define atomic_fetch_or(p, v) atomic_fetch_or_explicit(p, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_and_explicit(p, v, m) (sim_atomic_point(), __c11_atomic_fetch_and(p, v, m))
#define atomic_fetch_and(p, v) atomic_fetch_and_explicit(p, v, __ATOMIC_SEQ_CST)
#endif
#endif
#endif
