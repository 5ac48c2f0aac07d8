/* Own implementation of the callbacks that clang -fsanitize=thread inserts: every plain or atomic access
 * becomes a potential scheduling point. Atomics are sequentially consistent. Shared by engine and native replay. */
#include "eng.h"
#include <stddef.h>
#include <string.h>
#define RW(n) \
    void __tsan_read##n(void* p) { __eng_access(p, n, 0); } \
    void __tsan_write##n(void* p) { __eng_access(p, n, 1); } \
    void __tsan_unaligned_read##n(void* p) { __eng_access(p, n, 0); } \
    void __tsan_unaligned_write##n(void* p) { __eng_access(p, n, 1); } \
    void __tsan_read_write##n(void* p) { __eng_access(p, n, 1); } \
    void __tsan_unaligned_read_write##n(void* p) { __eng_access(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void* p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** p, void* v) { (void)v; (void)p; }
void __tsan_vptr_read(void** p) { (void)p; }
void __tsan_read_range(void* p, unsigned long n) { __eng_access(p, n, 0); }
void __tsan_write_range(void* p, unsigned long n) { __eng_access(p, n, 1); }
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int mo) { (void)mo; __eng_access((const void*)a, sizeof(T), 0); return *a; } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int mo) { (void)mo; __eng_access((const void*)a, sizeof(T), 1); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int mo) { T o; (void)mo; __eng_access((const void*)a, sizeof(T), 1); o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int mo) { T o; (void)mo; __eng_access((const void*)a, sizeof(T), 1); o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int mo) { T o; (void)mo; __eng_access((const void*)a, sizeof(T), 1); o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int mo) { T o; (void)mo; __eng_access((const void*)a, sizeof(T), 1); o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int mo) { T o; (void)mo; __eng_access((const void*)a, sizeof(T), 1); o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int mo) { T o; (void)mo; __eng_access((const void*)a, sizeof(T), 1); o = *a; *a = (T)(o ^ v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { T o; (void)mo; (void)fmo; __eng_access((const void*)a, sizeof(T), 1); o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { T o; (void)mo; (void)fmo; __eng_access((const void*)a, sizeof(T), 1); o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { T o; (void)mo; (void)fmo; __eng_access((const void*)a, sizeof(T), 1); o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#ifdef NATIVE_REPLAY
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { return memset(d, c, n); }
#endif
