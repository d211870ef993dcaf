// The library is compiled with -fsanitize=thread only for its call-outs: every memory access of
// the code under test calls one of these functions, which makes it a possible preemption point.
// No ThreadSanitizer runtime is linked.
#include <cstdint>
#include <cstddef>
extern "C" {
extern int64_t rt_mem_budget;
void rt_mem_slow();
#define HIT() do { if (--rt_mem_budget <= 0) rt_mem_slow(); } while (0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void*) { HIT(); } void __tsan_write##n(void*) { HIT(); } \
    void __tsan_unaligned_read##n(void*) { HIT(); } void __tsan_unaligned_write##n(void*) { HIT(); } \
    void __tsan_volatile_read##n(void*) { HIT(); } void __tsan_volatile_write##n(void*) { HIT(); } \
    void __tsan_unaligned_volatile_read##n(void*) { HIT(); } void __tsan_unaligned_volatile_write##n(void*) { HIT(); } \
    void __tsan_read_write##n(void*) { HIT(); } void __tsan_unaligned_read_write##n(void*) { HIT(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) { HIT(); }
void __tsan_write_range(void*, size_t) { HIT(); }
void __tsan_vptr_update(void**, void*) { HIT(); }
void __tsan_vptr_read(void**) { HIT(); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { HIT(); return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { HIT(); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { HIT(); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { HIT(); T o = *p; *p = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { HIT(); T o = *p; *p = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { HIT(); T o = *p; *p = (T)(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { HIT(); T o = *p; *p = (T)(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { HIT(); T o = *p; *p = (T)(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { HIT(); T o = *p; *p = (T)~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { HIT(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { HIT(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { HIT(); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
