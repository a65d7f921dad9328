/* C08: the block index stores each block once and finds what it stores, for every history */
#include "v.h"
#include "cache/cachelist.h"
#include "refclock.h"
#ifndef SIZE
#define SIZE 2
#endif
#ifndef OPS
#define OPS 5
#endif
extern "C" void v_main() {
	long diff = (long) v_irange(-1, SIZE - 1);
	cache::CacheList c;
	RefClock r;
	c.init(SIZE, diff);
	r.init(SIZE, diff);
	long stored[SIZE];
	bool displaced = false, hit = false;
	for (int i = 0; i < SIZE; i++) stored[i] = -1;
	for (int i = 0; i < OPS; i++) {
		unsigned long block = v_nondet_u64();
		V_ASSUME((long) block >= 0);
		bool access = v_nondet_bool();
		unsigned long at = SIZE;
		for (unsigned long k = 0; k < SIZE; k++) if (stored[k] == (long) block) { V_ASSERT(at == SIZE, "a block is stored once"); at = k; }
		unsigned long index = 77;
		bool found = access ? c.getIndex(block, index) : c.getIndex(block, index, false);
		V_ASSERT(found == (at < SIZE), "a block is found if and only if it is stored");
		if (found) {
			V_ASSERT(index == at, "the lookup gives the slot of the block");
			if (access) r.access(index);
			hit = true;
		} else if (v_nondet_bool()) {
			long old = c.getFreeIndex(block, index);
			V_ASSERT(index < SIZE, "the slot exists");
			V_ASSERT(index == r.victim(), "the displaced slot is the one the clock selects");
			V_ASSERT(stored[index] >= 0 ? old == stored[index] : old < 0, "the displaced block is reported");
			if (old >= 0) displaced = true;
			stored[index] = block;
			unsigned long again = 77;
			V_ASSERT(c.getIndex(block, again, false) && again == index, "a block just stored is found");
		}
	}
	V_COVER("end of a history");
	if (displaced && hit) V_COVER("a hit and a displacement");
}
