/*
 * Runtime behind -fsanitize=thread code: every memory access and atomic of
 * the library is a possible preemption point.
 */
#include "env.h"

static struct Mark {
	Mark() { sim_race_variant = true; }
} mark;

static inline void point(const void* p, bool write) {
	if (!T || on_thread_stack(p))
		return;
	yield_point(write && in_library_data(p) ? UNIT_GLOBAL_WRITE : UNIT_SHARED);
}
static inline void acc(void* p, u32 size, bool write) {
	point(p, write);
	if (write)
		memory_write(p, size, false);
	else
		memory_read(p, size, false, false);
}
static inline bool acquires(int order) { return order != __ATOMIC_RELAXED && order != __ATOMIC_RELEASE; }
static inline bool releases(int order) { return order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST; }
static inline void atomic_read(const volatile void* p, u32 size, int order) {
	point((const void*)p, false);
	memory_read((void*)p, size, true, acquires(order));
}
static inline void atomic_write(volatile void* p, u32 size, int order) {
	point((const void*)p, true);
	memory_write((void*)p, size, releases(order));
}
/* continues what earlier releases of the location began */
static inline void atomic_both(volatile void* p, u32 size, int order) {
	point((const void*)p, true);
	memory_read((void*)p, size, true, acquires(order));
	memory_update((void*)p, size, releases(order));
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() { memory_settle(); }
#define RW(n) \
	void __tsan_read##n(void* p) { acc(p, n, false); } \
	void __tsan_write##n(void* p) { acc(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { acc(p, n, false); } \
	void __tsan_unaligned_write##n(void* p) { acc(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { acc(p, n, false); } \
	void __tsan_volatile_write##n(void* p) { acc(p, n, true); } \
	void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false); } \
	void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true); } \
	void __tsan_read_write##n(void* p) { acc(p, n, true); } \
	void __tsan_unaligned_read_write##n(void* p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_read_range(void* p, unsigned long n) { acc(p, (u32)n, false); }
void __tsan_write_range(void* p, unsigned long n) { acc(p, (u32)n, true); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define AT(n, t) \
	t __tsan_atomic##n##_load(const volatile t* a, int o) { atomic_read(a, sizeof(t), o); return *a; } \
	void __tsan_atomic##n##_store(volatile t* a, t v, int o) { atomic_write(a, sizeof(t), o); *a = v; } \
	t __tsan_atomic##n##_exchange(volatile t* a, t v, int m) { atomic_both(a, sizeof(t), m); t o = *a; *a = v; return o; } \
	t __tsan_atomic##n##_fetch_add(volatile t* a, t v, int m) { atomic_both(a, sizeof(t), m); t o = *a; *a = (t)(o + v); return o; } \
	t __tsan_atomic##n##_fetch_sub(volatile t* a, t v, int m) { atomic_both(a, sizeof(t), m); t o = *a; *a = (t)(o - v); return o; } \
	t __tsan_atomic##n##_fetch_and(volatile t* a, t v, int m) { atomic_both(a, sizeof(t), m); t o = *a; *a = (t)(o & v); return o; } \
	t __tsan_atomic##n##_fetch_or(volatile t* a, t v, int m) { atomic_both(a, sizeof(t), m); t o = *a; *a = (t)(o | v); return o; } \
	t __tsan_atomic##n##_fetch_xor(volatile t* a, t v, int m) { atomic_both(a, sizeof(t), m); t o = *a; *a = (t)(o ^ v); return o; } \
	t __tsan_atomic##n##_fetch_nand(volatile t* a, t v, int m) { atomic_both(a, sizeof(t), m); t o = *a; *a = (t)~(o & v); return o; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile t* a, t* c, t v, int x, int) { \
		atomic_both(a, sizeof(t), x); t o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile t* a, t* c, t v, int x, int y) { \
		return __tsan_atomic##n##_compare_exchange_strong(a, c, v, x, y); } \
	t __tsan_atomic##n##_compare_exchange_val(volatile t* a, t c, t v, int x, int y) { \
		__tsan_atomic##n##_compare_exchange_strong(a, &c, v, x, y); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#undef AT
void __tsan_atomic_thread_fence(int) {
	if (!T)
		return;
	yield_point(UNIT_SHARED);
	memory_fence();
}
void __tsan_atomic_signal_fence(int) {}
}
