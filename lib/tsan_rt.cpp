// The run-time half of -fsanitize=thread: loads and stores go to the scheduler (compiled without instrumentation).
#include <stddef.h>
#include <stdint.h>
#include <string.h>
extern "C" {
void sched_access(void *p, unsigned n, int w);
__attribute__((weak)) void sched_enter() {}
void __tsan_init() {}
void __tsan_func_entry(void *) { sched_enter(); }
void __tsan_func_exit() { sched_enter(); }
#define RW(n) void __tsan_read##n(void *p) { sched_access(p, n, 0); } void __tsan_write##n(void *p) { sched_access(p, n, 1); } \
	void __tsan_volatile_read##n(void *p) { sched_access(p, n, 0); } void __tsan_volatile_write##n(void *p) { sched_access(p, n, 1); } \
	void __tsan_unaligned_read##n(void *p) { sched_access(p, n, 0); } void __tsan_unaligned_write##n(void *p) { sched_access(p, n, 1); } \
	void __tsan_unaligned_volatile_read##n(void *p) { sched_access(p, n, 0); } void __tsan_unaligned_volatile_write##n(void *p) { sched_access(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { sched_access(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { sched_access(p, n, 1); }
void __tsan_vptr_update(void **p, void *) { sched_access(p, 8, 1); }
void __tsan_vptr_read(void **p) { sched_access(p, 8, 0); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *a, int) { sched_access((void *) a, b / 8, 0); return __atomic_load_n(a, 5); } \
	void __tsan_atomic##b##_store(volatile T *a, T v, int) { sched_access((void *) a, b / 8, 1); __atomic_store_n(a, v, 5); } \
	T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { sched_access((void *) a, b / 8, 1); return __atomic_exchange_n(a, v, 5); } \
	T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { sched_access((void *) a, b / 8, 1); return __atomic_fetch_add(a, v, 5); } \
	T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { sched_access((void *) a, b / 8, 1); return __atomic_fetch_sub(a, v, 5); } \
	T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { sched_access((void *) a, b / 8, 1); return __atomic_fetch_and(a, v, 5); } \
	T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { sched_access((void *) a, b / 8, 1); return __atomic_fetch_or(a, v, 5); } \
	T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { sched_access((void *) a, b / 8, 1); return __atomic_fetch_xor(a, v, 5); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { sched_access((void *) a, b / 8, 1); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { sched_access((void *) a, b / 8, 1); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int, int) { sched_access((void *) a, b / 8, 1); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}
