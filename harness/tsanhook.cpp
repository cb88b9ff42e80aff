// Preemption at memory accesses: translation units compiled with -fsanitize=thread call the functions below at every
// access that may be shared; they hand the processor to the deterministic scheduler (sched.cpp) at some of them.
// No sanitizer runtime is linked.
#include "sched.hpp"
#include <cstddef>
namespace ffv {
  static uint64_t r = 88172645463325252ull, rate = 0, left = 0, seen = 0;
  // on average one preemption point per `rate_` accesses; 0 turns them off
  void access_points(uint64_t seed, uint64_t rate_) { r = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; rate = rate_; left = 1; seen = 0; }
  uint64_t accesses() { return seen; }
  static inline void hook() {
    if (!rate || !sched_active()) return;
    ++seen;
    if (--left > 0) return;
    r ^= r << 13; r ^= r >> 7; r ^= r << 17;
    left = 1 + (r >> 11) % (2 * rate);
    yield_point();
  }
}
using ffv::hook;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void*) { hook(); } void __tsan_write##n(void*) { hook(); } \
  void __tsan_unaligned_read##n(void*) { hook(); } void __tsan_unaligned_write##n(void*) { hook(); } \
  void __tsan_volatile_read##n(void*) { hook(); } void __tsan_volatile_write##n(void*) { hook(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { hook(); }
void __tsan_write_range(void*, unsigned long) { hook(); }
void __tsan_vptr_update(void**, void*) { hook(); }
void __tsan_vptr_read(void**) { hook(); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { hook(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { hook(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { hook(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { hook(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { hook(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { hook(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { hook(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { hook(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { hook(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { hook(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { hook(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
