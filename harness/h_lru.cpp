/* C07: replacement behaves as a two handed clock, for every hand spread and history */
#include "v.h"
#include "cache/lru.h"
#include "refclock.h"
#ifndef SIZE
#define SIZE 3
#endif
#ifndef OPS
#define OPS 6
#endif
extern "C" void v_main() {
	long diff = (long) v_nondet_u64();
#ifdef BIGDIFF
	V_ASSUME(diff >= SIZE);
#else
	V_ASSUME(diff < SIZE);
#endif
	cache::LRU l;
	RefClock r;
	l.init(SIZE, diff);
	r.init(SIZE, diff);
	bool seen[SIZE];
	for (int i = 0; i < SIZE; i++) seen[i] = false;
	for (int i = 0; i < OPS; i++) {
		if (v_nondet_bool()) {
			unsigned long k = v_range(0, SIZE - 1);
			V_ASSUME(seen[k]);
			l.access(k);
			r.access(k);
		} else {
			unsigned long k = l.getFree();
			V_ASSERT(k < SIZE, "the replaced slot exists");
			V_ASSERT(k == r.victim(), "the replaced slot is the one the two handed clock selects");
			seen[k] = true;
		}
	}
	V_COVER("end of a history");
	for (int i = 0; i < SIZE; i++) if (!seen[i]) return;
	V_COVER("all slots used");
}
