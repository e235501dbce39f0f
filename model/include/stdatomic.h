/* Sequentially consistent model of <stdatomic.h> for the abstract interpreter. */
#ifndef DWM_STDATOMIC_H
#define DWM_STDATOMIC_H
#define _Atomic
typedef _Bool atomic_bool;
typedef int atomic_flag;
typedef char atomic_char;
typedef signed char atomic_schar;
typedef unsigned char atomic_uchar;
typedef short atomic_short;
typedef unsigned short atomic_ushort;
typedef int atomic_int;
typedef unsigned int atomic_uint;
typedef long atomic_long;
typedef unsigned long atomic_ulong;
typedef long long atomic_llong;
typedef unsigned long long atomic_ullong;
typedef unsigned long atomic_size_t;
typedef long atomic_intptr_t;
typedef unsigned long atomic_uintptr_t;
typedef enum { memory_order_relaxed, memory_order_consume, memory_order_acquire,
               memory_order_release, memory_order_acq_rel, memory_order_seq_cst } memory_order;
#define ATOMIC_VAR_INIT(x) (x)
#define ATOMIC_FLAG_INIT 0
#define atomic_init(p, v) ((void)(*(p) = (v)))
#define atomic_store(p, v) ((void)(*(p) = (v)))
#define atomic_store_explicit(p, v, o) ((void)(*(p) = (v)))
#define atomic_load(p) (*(p))
#define atomic_load_explicit(p, o) (*(p))
#define atomic_exchange(p, v) ({ __typeof__(*(p)) *__ap = (p); __typeof__(*(p)) __ao = *__ap; *__ap = (v); __ao; })
#define atomic_exchange_explicit(p, v, o) atomic_exchange(p, v)
#define atomic_fetch_add(p, v) ({ __typeof__(*(p)) *__ap = (p); __typeof__(*(p)) __ao = *__ap; *__ap = __ao + (v); __ao; })
#define atomic_fetch_add_explicit(p, v, o) atomic_fetch_add(p, v)
#define atomic_fetch_sub(p, v) ({ __typeof__(*(p)) *__ap = (p); __typeof__(*(p)) __ao = *__ap; *__ap = __ao - (v); __ao; })
#define atomic_fetch_sub_explicit(p, v, o) atomic_fetch_sub(p, v)
#define atomic_fetch_or(p, v) ({ __typeof__(*(p)) *__ap = (p); __typeof__(*(p)) __ao = *__ap; *__ap = __ao | (v); __ao; })
#define atomic_fetch_and(p, v) ({ __typeof__(*(p)) *__ap = (p); __typeof__(*(p)) __ao = *__ap; *__ap = __ao & (v); __ao; })
#define atomic_compare_exchange_strong(p, e, v) ({ __typeof__(*(p)) *__ap = (p); __typeof__(*(p)) *__ae = (e); int __r; if (*__ap == *__ae) { *__ap = (v); __r = 1; } else { *__ae = *__ap; __r = 0; } __r; })
#define atomic_compare_exchange_weak(p, e, v) atomic_compare_exchange_strong(p, e, v)
#define atomic_compare_exchange_strong_explicit(p, e, v, a, b) atomic_compare_exchange_strong(p, e, v)
#define atomic_compare_exchange_weak_explicit(p, e, v, a, b) atomic_compare_exchange_strong(p, e, v)
#define atomic_flag_test_and_set(p) atomic_exchange(p, 1)
#define atomic_flag_clear(p) ((void)(*(p) = 0))
#define atomic_thread_fence(o) ((void)0)
#define atomic_signal_fence(o) ((void)0)
#endif
