/* gcc accepts the atomic operations on objects of plain type too: so must the analysis */
#include_next <stdatomic.h>
#define DW_AT(p) ((_Atomic(__typeof__(*(p) + 0)) *)(p))
#undef atomic_exchange
#undef atomic_exchange_explicit
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_weak_explicit
#undef atomic_fetch_add
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub
#undef atomic_fetch_sub_explicit
#undef atomic_load
#undef atomic_load_explicit
#undef atomic_store
#undef atomic_store_explicit
#define atomic_exchange(p, v) __c11_atomic_exchange(DW_AT(p), v, __ATOMIC_SEQ_CST)
#define atomic_exchange_explicit(p, v, o) __c11_atomic_exchange(DW_AT(p), v, o)
#define atomic_compare_exchange_strong(p, e, v) __c11_atomic_compare_exchange_strong(DW_AT(p), e, v, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_strong_explicit(p, e, v, s, f) __c11_atomic_compare_exchange_strong(DW_AT(p), e, v, s, f)
#define atomic_compare_exchange_weak(p, e, v) __c11_atomic_compare_exchange_weak(DW_AT(p), e, v, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_weak_explicit(p, e, v, s, f) __c11_atomic_compare_exchange_weak(DW_AT(p), e, v, s, f)
#define atomic_fetch_add(p, v) __c11_atomic_fetch_add(DW_AT(p), v, __ATOMIC_SEQ_CST)
#define atomic_fetch_add_explicit(p, v, o) __c11_atomic_fetch_add(DW_AT(p), v, o)
#define atomic_fetch_sub(p, v) __c11_atomic_fetch_sub(DW_AT(p), v, __ATOMIC_SEQ_CST)
#define atomic_fetch_sub_explicit(p, v, o) __c11_atomic_fetch_sub(DW_AT(p), v, o)
#define atomic_load(p) __c11_atomic_load(DW_AT(p), __ATOMIC_SEQ_CST)
#define atomic_load_explicit(p, o) __c11_atomic_load(DW_AT(p), o)
#define atomic_store(p, v) __c11_atomic_store(DW_AT(p), v, __ATOMIC_SEQ_CST)
#define atomic_store_explicit(p, v, o) __c11_atomic_store(DW_AT(p), v, o)
