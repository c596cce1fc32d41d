// Records what an observer of control flow and addresses could see: every basic block entered (-fsanitize-coverage=trace-pc),
// every load and store with its address (trace-loads, trace-stores), every block copy and comparison (-fsanitize=thread turns
// memory intrinsics into calls), and every allocation. Compiled without instrumentation.
#include "ct.hpp"
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#define PC ((uint64_t)__builtin_return_address(0))
static bool on, arenaOn; static uint64_t h, n; static uint64_t* rec; static uint64_t recCap;
static uint8_t* arena; static size_t used; enum : size_t { ARENA = 64u << 20 };
static inline __attribute__((always_inline)) void ev(uint64_t a, uint64_t b) {
  if (!on) return; h = (h ^ a) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; h = (h ^ b) * 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  if (rec && n < recCap) { rec[2 * n] = a; rec[2 * n + 1] = b; } n++;
}
extern "C" {
void ct_prepare(bool useArena) { if (!arena) { arena = (uint8_t*)malloc(ARENA); memset(arena, 0, ARENA); } used = 0; arenaOn = useArena; }
void ct_release() { on = arenaOn = false; }
void ct_begin() { h = 0x243f6a8885a308d3ull; n = 0; on = true; }
void ct_end() { on = false; }
uint64_t ct_hash() { return h; } uint64_t ct_count() { return n; } void ct_record(uint64_t* b, uint64_t c) { rec = b; recCap = c; }
void __sanitizer_cov_trace_pc() { ev(PC, 0); }
#define LS(x) void __sanitizer_cov_load##x(void* p) { ev(PC, (uint64_t)p); } void __sanitizer_cov_store##x(void* p) { ev(PC, (uint64_t)p); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
#define RW(x) void __tsan_read##x(void*) {} void __tsan_write##x(void*) {} void __tsan_unaligned_read##x(void*) {} void __tsan_unaligned_write##x(void*) {} void __tsan_read_write##x(void*) {} void __tsan_unaligned_read_write##x(void*) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) {} void __tsan_write_range(void*, size_t) {}
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T* p, int) { ev(PC, (uint64_t)p); return __atomic_load_n(p, 5); } void __tsan_atomic##b##_store(volatile T* p, T v, int) { ev(PC, (uint64_t)p); __atomic_store_n(p, v, 5); } \
 T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { return __atomic_exchange_n(p, v, 5); } T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { return __atomic_fetch_add(p, v, 5); } T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { return __atomic_fetch_sub(p, v, 5); } \
 T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { return __atomic_fetch_and(p, v, 5); } T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { return __atomic_fetch_or(p, v, 5); } T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { return __atomic_fetch_xor(p, v, 5); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, size_t k) { ev(PC, (uint64_t)d); ev(PC, (uint64_t)s); ev(PC, k); return memcpy(d, s, k); }
void* __tsan_memmove(void* d, const void* s, size_t k) { ev(PC, (uint64_t)d); ev(PC, (uint64_t)s); ev(PC, k); return memmove(d, s, k); }
void* __tsan_memset(void* d, int c, size_t k) { ev(PC, (uint64_t)d); ev(PC, k); return memset(d, c, k); }
// the C library's comparisons stop at the first difference: how far they look is observable
static int cmp(const void* a, const void* b, size_t k, uint64_t pc, uint64_t mask) {
  const uint8_t* x = (const uint8_t*)a; const uint8_t* y = (const uint8_t*)b; size_t i = 0; while (i < k && x[i] == y[i]) i++;
  ev(pc, (uint64_t)a); ev(pc, (uint64_t)b); ev(pc, k); ev(pc, i | mask << 60); return i == k ? 0 : x[i] < y[i] ? -1 : 1;
}
int memcmp(const void* a, const void* b, size_t k) { return cmp(a, b, k, PC, 1); }
int bcmp(const void* a, const void* b, size_t k) { return cmp(a, b, k, PC, 1); }
}
static void* get(size_t k, uint64_t pc) {
  if (on) ev(pc, k);
  if (arenaOn) { size_t o = (used + 63) & ~(size_t)63; if (o + k + 64 < ARENA) { used = o + k; return arena + o; } }
  void* p = malloc(k ? k : 1); if (!p) abort(); return p;
}
static void put(void* p, uint64_t pc) { if (on) ev(pc, (uint64_t)p); if ((uint8_t*)p >= arena && (uint8_t*)p < arena + ARENA) return; free(p); }
void* operator new(size_t k) { return get(k, PC); }
void* operator new[](size_t k) { return get(k, PC); }
void operator delete(void* p) noexcept { put(p, PC); }
void operator delete[](void* p) noexcept { put(p, PC); }
void operator delete(void* p, size_t) noexcept { put(p, PC); }
void operator delete[](void* p, size_t) noexcept { put(p, PC); }
