/* C09: threads on one cache, every schedule */
#define V_THREADS
#ifndef N
#define N 2
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef SLOTS
#define SLOTS 1
#endif
#ifndef PROBES
#define PROBES -1
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef DIFF
#define DIFF -1
#endif
#ifndef BLOCKS
#define BLOCKS 3
#endif
#include <pthread.h>
#include "v.h"
extern "C" bool v_enabled(unsigned kind, void *obj);
#include <mutex>
extern "C" void v_fatal() { V_ASSUME(false); }
extern "C" void v_warned() {}
#include "cache/cachemanager.h"
static cache::CacheManager m;
static unsigned char mem[SLOTS * 2];
static unsigned inside[SLOTS], loads[BLOCKS], displaced[BLOCKS]; static long content[SLOTS];
static unsigned char value[BLOCKS];
static bool finished[N];
static unsigned block[N][ROUNDS]; static bool probe[N][ROUNDS];
static inline void one(const unsigned t, const unsigned r) {
	const unsigned b = block[t][r];
	unsigned long off = SLOTS;
	if (probe[t][r]) {
		const unsigned char *d = 0;
		if (!m.tryGet(b, off, d)) return;
		V_ASSERT(off < SLOTS && d == &mem[2 * off], "the data belongs to the slot");
		V_ASSERT(inside[off] == 0, "one user of a slot"); inside[off]++;
		V_ASSERT(content[off] == b && d[0] == value[b] && d[1] == value[b], "a probe finds the requested block");
		v_yield();
		V_ASSERT(content[off] == b && d[0] == value[b] && d[1] == value[b], "the block stays while it is used");
#if PROBES != 0
		V_COVER("found by a probe");
#endif
	} else {
		unsigned char *d = 0;
		const long old = m.get(b, off, d);
		V_ASSERT(off < SLOTS && d == &mem[2 * off], "the data belongs to the slot");
		V_ASSERT(inside[off] == 0, "one user of a slot"); inside[off]++;
		if (old != (long) b) {
			V_ASSERT(old == content[off], "the displaced block was in the slot");
			if (old >= 0) displaced[old]++;
			content[off] = -2;
			d[0] = value[b];
			v_yield();
			d[1] = value[b];
			content[off] = b; loads[b]++;
		} else {
			V_ASSERT(content[off] == b && d[0] == value[b] && d[1] == value[b], "the slot has the requested block");
			v_yield();
		}
		V_ASSERT(inside[off] == 1 && content[off] == b && d[0] == value[b] && d[1] == value[b], "the block stays while it is used");
	}
	inside[off]--;
	m.unlock(off);
}
static inline void run(const unsigned t) {
	one(t, 0);
#if ROUNDS > 1
	one(t, 1);
#endif
#if ROUNDS > 2
	one(t, 2);
#endif
	finished[t] = true;
}
extern "C" bool v_enabled(unsigned kind, void *obj) { return v_mutex_free((pthread_mutex_t*) obj); } /* only mutexes block */
extern "C" void v_thread_0() { run(0); }
extern "C" void v_thread_1() { run(1); }
#if N > 2
extern "C" void v_thread_2() { run(2); }
#endif
extern "C" void v_main() {
	m.init(mem, SLOTS, 2, DIFF);
	for (int i = 0; i < SLOTS; i++) content[i] = -1;
	for (int i = 0; i < BLOCKS; i++) value[i] = v_nondet_u8();
	for (int t = 0; t < N; t++) for (int r = 0; r < ROUNDS; r++) {
		block[t][r] = v_range(0, BLOCKS - 1);
#if PROBES != -1
		probe[t][r] = (PROBES >> (t * ROUNDS + r)) & 1;
#else
		probe[t][r] = v_nondet_bool();
#endif
	}
	/* blocks loaded before the threads start */
	for (unsigned b = 0; b < PRE; b++) {
		unsigned long off; unsigned char *d;
		V_ASSERT(m.get(b, off, d) == content[off], "the displaced block was in the slot");
		d[0] = d[1] = value[b]; content[off] = b; loads[b]++;
		m.unlock(off);
	}
	v_run_threads(N);
	for (int t = 0; t < N; t++) V_ASSERT(finished[t], "all threads finish");
	for (int i = 0; i < SLOTS; i++) {
		V_ASSERT(inside[i] == 0 && content[i] != -2, "all slots are released");
		for (int j = 0; j < i; j++) V_ASSERT(content[i] == -1 || content[i] != content[j], "a block is in one slot");
	}
	for (unsigned b = 0; b < BLOCKS; b++) {
		unsigned n = 0;
		for (int i = 0; i < SLOTS; i++) if (content[i] == (long) b) n++;
		V_ASSERT(loads[b] == displaced[b] + n, "a block is loaded once after it was displaced");
		/* and the cache still knows it */
		unsigned long off; const unsigned char *d;
		V_ASSERT(m.tryGet(b, off, d) == (n == 1), "the cache knows which blocks it has");
		if (n == 1) { V_ASSERT(content[off] == (long) b && d[0] == value[b] && d[1] == value[b], "the cache has the block"); m.unlock(off); }
	}
	V_COVER("used");
}
