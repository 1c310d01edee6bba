/*
 * Run-time half of the access instrumentation: the library is compiled with -fsanitize=thread, whose calls on every
 * memory access land here instead of in the sanitizer's own run time.  Its calls of the mem* functions are
 * renamed to vpmon_*.
 */
#include <stddef.h>
#include <string.h>
#include <stdint.h>
void (*vpmon_hook)(uintptr_t addr, size_t size, int write);
uint64_t vpmon_count;
#define ACC(a, s, w) do { vpmon_count++; if (vpmon_hook) vpmon_hook((uintptr_t)(a), (s), (w)); } while (0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define D(n) \
  void __tsan_read##n(void *a) { ACC(a, n, 0); } \
  void __tsan_write##n(void *a) { ACC(a, n, 1); } \
  void __tsan_volatile_read##n(void *a) { ACC(a, n, 0); } \
  void __tsan_volatile_write##n(void *a) { ACC(a, n, 1); }
#define U(n) \
  void __tsan_unaligned_read##n(void *a) { ACC(a, n, 0); } \
  void __tsan_unaligned_write##n(void *a) { ACC(a, n, 1); } \
  void __tsan_unaligned_volatile_read##n(void *a) { ACC(a, n, 0); } \
  void __tsan_unaligned_volatile_write##n(void *a) { ACC(a, n, 1); }
D(1) D(2) D(4) D(8) D(16) U(2) U(4) U(8) U(16)
void __tsan_read_range(void *a, size_t n) { ACC(a, n, 0); }
void __tsan_write_range(void *a, size_t n) { ACC(a, n, 1); }
void __tsan_vptr_update(void *a, void *b) { (void)b; ACC(a, 8, 1); }
void __tsan_vptr_read(void *a) { ACC(a, 8, 0); }
/* atomics, should the library ever use them */
#define A(n, T) \
  T __tsan_atomic##n##_load(const T *a, int m) { ACC(a, n / 8, 0); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(T *a, T v, int m) { ACC(a, n / 8, 1); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(T *a, T v, int m) { ACC(a, n / 8, 1); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(T *a, T v, int m) { ACC(a, n / 8, 1); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(T *a, T v, int m) { ACC(a, n / 8, 1); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(T *a, T *e, T v, int m, int f) { ACC(a, n / 8, 1); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(T *a, T *e, T v, int m, int f) { ACC(a, n / 8, 1); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; __sync_synchronize(); }
/* mem* called by the library */
void *vpmon_memcpy(void *d, const void *s, size_t n) { if (n) { ACC(s, n, 0); ACC(d, n, 1); } return memcpy(d, s, n); }
void *vpmon_memmove(void *d, const void *s, size_t n) { if (n) { ACC(s, n, 0); ACC(d, n, 1); } return memmove(d, s, n); }
void *vpmon_memset(void *d, int c, size_t n) { if (n) ACC(d, n, 1); return memset(d, c, n); }
int vpmon_memcmp(const void *a, const void *b, size_t n) { if (n) { ACC(a, n, 0); ACC(b, n, 0); } return memcmp(a, b, n); }
