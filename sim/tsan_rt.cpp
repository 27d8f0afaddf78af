// Runtime for code compiled with -fsanitize=thread but NOT linked with ThreadSanitizer: every instrumented
// memory access is a scheduling point of the simulator.  Only ever linked into the "yield" harness.
#include "thr.hpp"
#include <cstring>
#define P() dst::thr::point(nullptr)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *) { P(); } void __tsan_write##n(void *) { P(); } void __tsan_unaligned_read##n(void *) { P(); } void __tsan_unaligned_write##n(void *) { P(); } \
 void __tsan_volatile_read##n(void *) { P(); } void __tsan_volatile_write##n(void *) { P(); } void __tsan_unaligned_volatile_read##n(void *) { P(); } void __tsan_unaligned_volatile_write##n(void *) { P(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, size_t) { P(); } void __tsan_write_range(void *, size_t) { P(); }
void __tsan_vptr_update(void *, void *) {} void __tsan_vptr_read(void *) {}
#define AT(b, T) \
 T __tsan_atomic##b##_load(const volatile T * a, int) { P(); return __atomic_load_n(a, 5); } \
 void __tsan_atomic##b##_store(volatile T * a, T v, int) { P(); __atomic_store_n(a, v, 5); } \
 T __tsan_atomic##b##_exchange(volatile T * a, T v, int) { P(); return __atomic_exchange_n(a, v, 5); } \
 T __tsan_atomic##b##_fetch_add(volatile T * a, T v, int) { P(); return __atomic_fetch_add(a, v, 5); } \
 T __tsan_atomic##b##_fetch_sub(volatile T * a, T v, int) { P(); return __atomic_fetch_sub(a, v, 5); } \
 T __tsan_atomic##b##_fetch_and(volatile T * a, T v, int) { P(); return __atomic_fetch_and(a, v, 5); } \
 T __tsan_atomic##b##_fetch_or(volatile T * a, T v, int) { P(); return __atomic_fetch_or(a, v, 5); } \
 T __tsan_atomic##b##_fetch_xor(volatile T * a, T v, int) { P(); return __atomic_fetch_xor(a, v, 5); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T * a, T * e, T v, int, int) { P(); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T * a, T * e, T v, int, int) { P(); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { P(); } void __tsan_atomic_signal_fence(int) {}
}
