/* Reference: the two handed clock. A hand that clears the reference marks runs `diff` slots ahead of the hand that
 * looks for a slot without mark. */
#ifndef REFCLOCK_H
#define REFCLOCK_H
struct RefClock {
	unsigned long size, page, clear;
	bool ref[8];
	void init(unsigned long s, long diff) {
		size = s;
		page = s - 1;
		clear = diff < 0 ? s / 2 : (unsigned long) diff % s;
		for (int i = 0; i < 8; i++) ref[i] = false;
	}
	void access(unsigned long k) { ref[k] = true; }
	unsigned long victim() {
		for (int i = 0; i < 20; i++) {
			ref[clear] = false;
			page = page + 1 == size ? 0 : page + 1;
			clear = clear + 1 == size ? 0 : clear + 1;
			if (!ref[page]) break;
		}
		ref[page] = true;
		return page;
	}
};
#endif
