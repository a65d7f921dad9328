/* Interface between the harnesses and the engine (CBMC, or the native replay runtime) */
#ifndef V_H
#define V_H
#include <stddef.h>
extern "C" {
unsigned char v_nondet_u8();
unsigned short v_nondet_u16();
unsigned int v_nondet_u32();
unsigned long v_nondet_u64();
double v_nondet_double();
float v_nondet_float();
void v_assert(bool c, const char *msg);
void v_assume(bool c);
void v_cover(const char *what);
/* threads: harness defines v_thread_0(), v_thread_1(), ... and bool v_enabled(kind, obj) */
void v_yield();
void v_block(unsigned kind, void *obj);
void v_wait(bool can, unsigned kind, void *obj); /* a scheduling point; blocks until v_enabled(kind, obj) if `can` is false */
void v_run_threads(unsigned n);
extern unsigned v_tid;
}
#define V_ASSERT(c, m) v_assert((c), m)
#define V_ASSUME(c) v_assume(c)
#define V_COVER(m) v_cover(m)
static inline bool v_nondet_bool() { unsigned char b = v_nondet_u8(); v_assume(b < 2); return b != 0; }
/* few symbolic bits where few suffice */
static inline unsigned long v_range(unsigned long lo, unsigned long hi) { unsigned long x = hi < 256 ? v_nondet_u8() : hi < 65536 ? v_nondet_u16() : v_nondet_u64(); v_assume(x >= lo && x <= hi); return x; }
static inline int v_irange(int lo, int hi) { int x = lo >= -128 && hi < 128 ? (int)(signed char)v_nondet_u8() : lo >= -32768 && hi < 32768 ? (int)(short)v_nondet_u16() : (int)v_nondet_u32(); v_assume(x >= lo && x <= hi); return x; }
#endif
