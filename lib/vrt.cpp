/* Native runtime of the replays: the recorded solver values are read back in the order in which they were drawn */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ucontext.h>
#include <unistd.h>
extern "C" {
static FILE *in;
static unsigned long nread;
static char line[65536];
static int next(char *kind) {
	if (!in) { const char *f = getenv("V_REPLAY"); in = f ? fopen(f, "r") : 0; if (!in) { fprintf(stderr, "no replay file\n"); _exit(78); } }
	while (fgets(line, sizeof line, in)) { if (line[0] == '#' || line[0] == '\n') continue; nread++; return 1; }
	return 0;
}
static uint64_t geti() { char k; if (!next(&k)) return 0; return strtoull(line, 0, 0); }
static double getd() { char k; if (!next(&k)) return 0; uint64_t b = strtoull(line, 0, 0); double d; memcpy(&d, &b, 8); return d; }
unsigned char v_nondet_u8() { return geti(); }
unsigned short v_nondet_u16() { return geti(); }
unsigned v_nondet_u32() { return geti(); }
unsigned long v_nondet_u64() { return geti(); }
double v_nondet_double() { return getd(); }
float v_nondet_float() { char k; if (!next(&k)) return 0; uint32_t b = strtoul(line, 0, 0); float f; memcpy(&f, &b, 4); return f; }
void v_assert(bool c, const char *m) { if (!c) { printf("REPLAYED: %s\n", m); fflush(stdout); _exit(42); } }
void v_assume(bool c) { if (!c) { printf("ASSUMPTION NOT MET (after %lu values)\n", nread); fflush(stdout); _exit(77); } }
void v_cover(const char *w) { printf("reached: %s\n", w); }
__attribute__((weak)) unsigned v_tid;
__attribute__((weak)) bool v_enabled(unsigned kind, void *obj);
#ifdef V_NATIVE_THREADS
#ifndef V_CONTEXTS
#define V_CONTEXTS 6
#endif
enum { MAXT = 8 };
static ucontext_t ctx[MAXT], sched;
static bool done[MAXT]; static unsigned bkind[MAXT]; static void *bobj[MAXT];
static bool inthread;
static bool runnable(unsigned t) { if (!bkind[t]) return true; v_tid = t; return v_enabled(bkind[t], bobj[t]); }
void v_thread_0(); __attribute__((weak)) void v_thread_1(); __attribute__((weak)) void v_thread_2(); __attribute__((weak)) void v_thread_3();
__attribute__((weak)) void v_thread_4(); __attribute__((weak)) void v_thread_5();
static void entry(int t) { switch (t) { case 0: v_thread_0(); break; case 1: v_thread_1(); break; case 2: v_thread_2(); break; case 3: v_thread_3(); break; case 4: v_thread_4(); break; case 5: v_thread_5(); break; } done[t] = true; swapcontext(&ctx[t], &sched); }
void v_yield() { if (!inthread) return; if (geti()) { unsigned t = v_tid; swapcontext(&ctx[t], &sched); } }
void v_block(unsigned kind, void *obj) { unsigned t = v_tid; bkind[t] = kind; bobj[t] = obj; swapcontext(&ctx[t], &sched); bkind[t] = 0; }
void v_run_threads(unsigned n) {
	for (unsigned t = 0; t < n; t++) { getcontext(&ctx[t]); ctx[t].uc_stack.ss_sp = malloc(1 << 20); ctx[t].uc_stack.ss_size = 1 << 20; ctx[t].uc_link = 0; makecontext(&ctx[t], (void(*)())entry, 1, (int)t); }
	for (unsigned k = 0; k < V_CONTEXTS; k++) {
		unsigned t = k % n;
		if (done[t] || !geti()) continue;
		v_assume(runnable(t));
		v_tid = t; inthread = true;
		swapcontext(&sched, &ctx[t]);
		inthread = false;
	}
	bool all = true, any = false;
	for (unsigned t = 0; t < n; t++) if (!done[t]) { all = false; if (runnable(t)) any = true; }
	v_assert(all || any, "DEADLOCK: no thread can continue");
	v_assume(all);
}
void v_wait(bool can, unsigned kind, void *obj) {
	if (!inthread) { v_assert(can, "DEADLOCK: blocked for ever"); return; }
	if (can && !geti()) return;
	unsigned t = v_tid; bkind[t] = kind; bobj[t] = obj; swapcontext(&ctx[t], &sched); bkind[t] = 0;
}
#else
void v_yield() {}
void v_wait(bool can, unsigned, void*) { v_assert(can, "DEADLOCK: blocked for ever"); }
void v_block(unsigned, void*) { v_assert(false, "DEADLOCK: blocked for ever"); }
void v_run_threads(unsigned) {}
#endif
void v_main();
}
int main() { alarm(60); v_main(); printf("REPLAY FINISHED WITHOUT VIOLATION\n"); return 0; }
