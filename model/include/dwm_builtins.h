/* Compiler builtins of sequential programs, in terms of plain C. */
#define __DWM_RMW(p, e, r) ({ __typeof__(*(p)) *__ap = (p); __typeof__(*(p)) __ao = *__ap, __an; __an = (e); *__ap = __an; (r); })
#define __sync_fetch_and_add(p, v) __DWM_RMW(p, __ao + (v), __ao)
#define __sync_fetch_and_sub(p, v) __DWM_RMW(p, __ao - (v), __ao)
#define __sync_add_and_fetch(p, v) __DWM_RMW(p, __ao + (v), __an)
#define __sync_sub_and_fetch(p, v) __DWM_RMW(p, __ao - (v), __an)
#define __sync_lock_test_and_set(p, v) __DWM_RMW(p, (v), __ao)
#define __sync_lock_release(p) ((void)(*(p) = 0))
#define __sync_synchronize() ((void)0)
#define __sync_bool_compare_and_swap(p, e, v) ({ __typeof__(*(p)) *__ap = (p); int __r = *__ap == (e); if (__r) *__ap = (v); __r; })
#define __sync_val_compare_and_swap(p, e, v) ({ __typeof__(*(p)) *__ap = (p); __typeof__(*(p)) __ao = *__ap; if (__ao == (e)) *__ap = (v); __ao; })
#define __atomic_load_n(p, o) (*(p))
#define __atomic_store_n(p, v, o) ((void)(*(p) = (v)))
#define __atomic_exchange_n(p, v, o) __DWM_RMW(p, (v), __ao)
#define __atomic_fetch_add(p, v, o) __DWM_RMW(p, __ao + (v), __ao)
#define __atomic_fetch_sub(p, v, o) __DWM_RMW(p, __ao - (v), __ao)
#define __atomic_add_fetch(p, v, o) __DWM_RMW(p, __ao + (v), __an)
#define __atomic_sub_fetch(p, v, o) __DWM_RMW(p, __ao - (v), __an)
#define __atomic_compare_exchange_n(p, e, v, w, a, b) ({ __typeof__(*(p)) *__ap = (p); __typeof__(*(p)) *__ae = (e); int __r; if (*__ap == *__ae) { *__ap = (v); __r = 1; } else { *__ae = *__ap; __r = 0; } __r; })
#define __atomic_thread_fence(o) ((void)0)
#define __builtin_expect(x, v) (x)
#define __builtin_unreachable() abort()
#define __builtin_memcpy memcpy
#define __builtin_memmove memmove
#define __builtin_strlen strlen
#define __builtin_abs abs
