/* The scheduler of the sequentialised threads: V_CONTEXTS time slots that the threads take in turn, each of any length (also none),
 * every choice symbolic */
#ifndef V_CONTEXTS
#define V_CONTEXTS 6
#endif
u32 G_v_tid;
void rt_v_run_threads(u32 n) {
	for (u32 k = 0; k < V_CONTEXTS; k++) {
		u32 t = k % n;
		if (!v_done[t]) {
			_Bool go = nondet_bool(); __CPROVER_input("nd", go);
			if (go) {
				RT_ASSUME(v_is_enabled(t));
				G_v_tid = t;
				v_step(t);
			}
		}
	}
	_Bool all = 1, any = 0;
	for (u32 t = 0; t < V_NTHREADS; t++)
		if (t < n && !v_done[t]) { all = 0; if (v_is_enabled(t)) any = 1; }
	RT_ASSERT(all || any, "DEADLOCK: no thread can continue");
	RT_ASSUME(all);
}
