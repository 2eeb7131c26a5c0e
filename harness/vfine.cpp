// Preemption at memory accesses: the instrumentation calls of -fsanitize=thread become scheduling points (now and then), so that
// code that updates shared data without its lock is really interrupted in the middle.  Compiled without instrumentation.
#include "vsched.h"
#include "vtrace.h"
#include <cstdint>
namespace fine {
    static int guarded = 0;
    static inline void access(void* p) {
        if (!trace::access_rate || guarded || !sched::active() || sched::self() < 0) return;
        char here; intptr_t d = (char*) p - &here;
        if (d > -4096 && d < 65536) return;                       // the thread's own stack
        if (sched::rnd() % (uint64_t) trace::access_rate == 0) sched::point();
    }
}
using fine::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p); } void __tsan_write##n(void* p) { access(p); } \
    void __tsan_unaligned_read##n(void* p) { access(p); } void __tsan_unaligned_write##n(void* p) { access(p); } \
    void __tsan_volatile_read##n(void* p) { access(p); } void __tsan_volatile_write##n(void* p) { access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { access(p); }
void __tsan_write_range(void* p, unsigned long) { access(p); }
void __tsan_vptr_update(void** p, void*) {}
void __tsan_vptr_read(void** p) {}
#define ATOM(T, B) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { access((void*) a); return *a; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { access((void*) a); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { access((void*) a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { access((void*) a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { access((void*) a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { access((void*) a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { access((void*) a); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { access((void*) a); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((void*) a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fm) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fm); }
ATOM(uint8_t, 8) ATOM(uint16_t, 16) ATOM(uint32_t, 32) ATOM(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// initialisation of function-local statics is not interrupted
int __cxa_guard_acquire(uint64_t* g) { if (*(volatile uint8_t*) g) return 0; fine::guarded++; return 1; }
void __cxa_guard_release(uint64_t* g) { fine::guarded--; *(volatile uint8_t*) g = 1; }
void __cxa_guard_abort(uint64_t*) { fine::guarded--; }
}
