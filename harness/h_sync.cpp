/* C19-C22, C29, parts of C17 and C18: barriers, broadcasts, one-time execution, registration of threads, NUMA communication, lock types, handles; every schedule */
#define V_THREADS
#ifndef N
#define N 2
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef MODE
#define MODE 0
#endif
#define V_NODES
#include <pthread.h>
#include "v.h"
extern "C" bool v_enabled(unsigned kind, void *obj);
#include <mutex>
extern "C" void v_fatal() { V_ASSUME(false); }
extern "C" void v_warned() {}
#include "asagi.h"
#if MODE == 2
static int node[N];
int sched_getcpu() { return v_self(); }
int numa_node_of_cpu(int cpu) { return node[cpu]; }
#include "numa/numa.cpp"
#include "allocator/default.h"
#endif
#if MODE == 3
/* the domains are known: thread t is the master of domain t */
#define NUMA_NUMA_H
#include <cstdint>
#include <map>
#include <vector>
#include "threads/sync.h"
namespace numa {
class NumaComm;
class Numa {
public:
	unsigned int totalThreads() const { return N; }
	unsigned int totalDomains() const { return N; }
	unsigned int threadId() const { return v_self(); }
	unsigned int domainId() const { return v_self(); }
	NumaComm *createComm() const { return 0; }
};
}
#include "numa/numacomm.h"
#endif
#include "threads/sync.h"
#include "threads/once.h"
static bool finished[N];

#if MODE == 0 /* barrier and broadcast */
static threads::Sync s;
static unsigned arrived[ROUNDS], passed[ROUNDS], values[ROUNDS];
static bool barrier[ROUNDS]; static unsigned root[ROUNDS];
static inline void one(const unsigned t, const unsigned r) {
	{
		arrived[r]++;
		V_ASSERT(r == 0 || passed[r - 1] <= N, "round");
		unsigned x = t == root[r] ? values[r] : 1000 + t;
#ifdef BARRIER
		V_ASSERT(s.barrier(N), "the barrier succeeds");
#else
		V_ASSERT(s.broadcast(x, N, t, root[r]), "the broadcast succeeds");
		V_ASSERT(x == values[r], "every thread gets the value of the root");
		x = 2000 + t; /* the root's variable may vanish */
#endif
		V_ASSERT(arrived[r] == N, "no thread passes before all have arrived");
		passed[r]++;
	}
}
static void setup() { for (int r = 0; r < ROUNDS; r++) { values[r] = v_range(0, 100); root[r] = v_range(0, N - 1); } }
static void after() { V_COVER("all threads passed"); }
#endif

#if MODE == 1 /* one-time execution */
struct Object { unsigned runs, done; void func() { runs++; V_ASSERT(runs == 1, "the function runs once"); v_yield(); v_yield(); done++; } };
static threads::Once once; static Object o;
static inline void one(const unsigned t, const unsigned r) {
	{
		once.saveExec(o, &Object::func);
		V_ASSERT(o.done == 1, "nobody continues before the function has finished");
	}
}
static void setup() { o.runs = 0; o.done = 0; }
static void after() { V_ASSERT(o.runs == 1, "the function runs exactly once"); V_COVER("executed"); }
#endif

#if MODE == 2 /* registration of threads in NUMA domains */
static numa::Numa n;
#ifdef DETECT
static const bool detect = DETECT;
#define detectSetup()
#else
static bool detect;
#define detectSetup() detect = v_nondet_bool()
#endif
#ifndef NODES
#define NODES 2
#endif
#ifdef CREATE
static numa::NumaComm *comms[N];
#endif
static unsigned total[N], dom[N], tid[N]; static bool master[N];
static inline void one(const unsigned t, const unsigned r) {
	{
		bool m = false;
		V_ASSERT(n.registerThread(m, detect) == asagi::Grid::SUCCESS, "a thread registers");
		if (r) V_ASSERT(dom[t] == n.domainId() && tid[t] == n.threadId() && total[t] == n.totalDomains() && master[t] == m, "registering again changes nothing");
		else { total[t] = n.totalDomains(); dom[t] = n.domainId(); tid[t] = n.threadId(); master[t] = m; }
#ifdef DEBUG_NUMA
		V_ASSERT(total[t] == (detect ? N : 1), "every thread is a domain");
#else
		unsigned k = 0; /* nodes */
		for (int i = 0; i < N; i++) { bool first = true; for (int j = 0; j < i; j++) if (node[j] == node[i]) first = false; if (first) k++; }
		V_ASSERT(total[t] == (detect ? k : 1), "the number of domains is known to every thread that continues");
#endif
#ifdef CREATE
		if (master[t]) { comms[t] = n.createComm(); V_ASSERT(comms[t] != 0 && comms[t]->totalDomains() == total[t] && comms[t]->domainId() == dom[t] && comms[t]->threadId() == tid[t], "the communicator knows the thread"); }
#endif
	}
}
static void setup() { n.setThreads(N); detectSetup(); for (int i = 0; i < N; i++) node[i] = v_range(0, NODES - 1); }
static void after() {
	unsigned masters = 0;
	for (int i = 0; i < N; i++) {
		V_ASSERT(dom[i] < total[i] && tid[i] < N, "ids are dense");
		if (master[i]) masters++;
		for (int j = 0; j < i; j++) {
			V_ASSERT(tid[i] != tid[j], "thread ids are unique");
#ifdef CREATE
			V_ASSERT(!master[i] || !master[j] || comms[i] == comms[j], "all domains get the same communicator");
#endif
#ifndef DEBUG_NUMA
			V_ASSERT((dom[i] == dom[j]) == (!detect || node[i] == node[j]), "threads share a domain if and only if they share a node");
#endif
			if (master[i] && master[j]) V_ASSERT(dom[i] != dom[j], "one master for each domain");
		}
	}
	V_ASSERT(masters == total[0], "each domain has a master");
	V_COVER("registered");
}
#endif

#if MODE == 3 /* communication of the domains: one thread for each */
static numa::Numa n;
static numa::NumaComm comm(n);
static int allocs, frees, fails; static unsigned char *mem; static unsigned long memsize;
static unsigned long size, off[N]; static unsigned char *part[N]; static asagi::Grid::Error err[N];
static unsigned values[2][N]; static unsigned root;
struct Alloc {
	template<typename T> static asagi::Grid::Error allocate(size_t s, T* &p) { allocs++; if (fails) return asagi::Grid::MPI_ERROR; mem = new unsigned char[MAXSIZE * N]; memsize = s * sizeof(T); p = (T*) mem; return asagi::Grid::SUCCESS; }
	template<typename T> static void free(T *p) { V_ASSERT((unsigned char*) p == mem, "what was allocated is freed"); frees++; delete[] mem; }
};
static inline void one(const unsigned t, const unsigned r) {
	numa::NumaComm *c = &comm;
	const unsigned d = t;
	values[1][d] = values[0][d];
	V_ASSERT(c->broadcast(values[1][d], root) == asagi::Grid::SUCCESS && values[1][d] == values[0][root], "the value of the root arrives");
	err[d] = c->allocate<Alloc>(size, part[d]);
	if (err[d] == asagi::Grid::SUCCESS) { unsigned char *p = part[d]; off[d] = p - mem; V_ASSERT(off[d] + size <= memsize, "the part is inside the memory"); }
}
static void setup() { for (int i = 0; i < N; i++) { values[0][i] = v_range(0, 100); } size = v_range(1, MAXSIZE); fails = v_nondet_bool(); root = v_range(0, N - 1); }
static void after() {
	if (!fails) comm.free<Alloc>(part[0]);
	V_ASSERT(allocs == 1, "the memory is allocated once");
	for (int i = 0; i < N; i++) {
		V_ASSERT((err[i] == asagi::Grid::MPI_ERROR) == (fails != 0) && (fails || err[i] == asagi::Grid::SUCCESS), "every domain learns whether there is memory");
		for (int j = 0; j < i; j++) if (!fails) V_ASSERT(off[i] + size <= off[j] || off[j] + size <= off[i], "the parts are disjoint");
	}
	V_ASSERT(frees == !fails, "the memory is freed once");
	V_COVER("allocated");
}
#endif

#if MODE == 4 /* lock types */
#ifndef LOCK
#define LOCK PthreadMutex
#endif
#include "threads/pthreadmutex.h"
#include "threads/cxxmutex.h"
static threads::LOCK l;
static unsigned inside, entered, failed;
static bool useTry[N][ROUNDS];
static inline void one(const unsigned t, const unsigned r) {
	{
		if (useTry[t][r]) {
			if (!l.try_lock()) { failed++; return; }
		} else l.lock();
		V_ASSERT(inside == 0, "one holder at a time"); inside++;
		v_yield();
		V_ASSERT(inside == 1, "one holder at a time"); entered++; inside--;
		l.unlock();
	}
}
static void setup() { for (int t = 0; t < N; t++) for (int r = 0; r < ROUNDS; r++) useTry[t][r] = v_nondet_bool(); }
static void after() {
	V_ASSERT(entered + failed == N * ROUNDS, "everybody who locks gets the lock");
	V_ASSERT(l.try_lock(), "the lock is free afterwards");
	V_ASSERT(failed == 0 || N > 1, "a free lock is taken");
	V_ASSERT(!(failed == N * ROUNDS), "somebody gets the lock");
	V_COVER("locked");
}
#endif

#if MODE == 5 /* counters */
#include "perf/counter.cpp"
static perf::Counter c;
static const perf::Counter::CounterType kinds[] = {perf::Counter::ACCESS, perf::Counter::NUMA, perf::Counter::MPI, perf::Counter::FILE};
static unsigned kind[N][ROUNDS];
static inline void one(const unsigned t, const unsigned r) {
	c.inc(kinds[kind[t][r]]);
}
static void setup() { for (int t = 0; t < N; t++) for (int r = 0; r < ROUNDS; r++) kind[t][r] = v_range(0, 3); }
static void after() {
	for (unsigned k = 0; k < 4; k++) {
		unsigned n = 0;
		for (int t = 0; t < N; t++) for (int r = 0; r < ROUNDS; r++) if (kind[t][r] == k) n++;
		V_ASSERT(c.get(kinds[k]) == n, "no increment is lost");
	}
	V_COVER("counted");
}
#endif

#if MODE == 6 /* handles of the Fortran interface */
#include "fortran/pointerarray.h"
static fortran::PointerArray<int> ptrs;
static int obj[N][ROUNDS]; static int ids[N][ROUNDS];
static inline void one(const unsigned t, const unsigned r) {
	const int i = ids[t][r] = ptrs.add(&obj[t][r]);
	V_ASSERT(ptrs.get(i) == &obj[t][r], "an id leads to the object it was given to");
	if (r == 0) ptrs.remove(i);
}
static void setup() {}
static void after() {
	for (int t = 0; t < N; t++) for (int r = 1; r < ROUNDS; r++) V_ASSERT(ptrs.get(ids[t][r]) == &obj[t][r], "an id leads to the object it was given to");
	V_COVER("used");
}
#endif

static inline void run(const unsigned t) {
	one(t, 0);
#if ROUNDS > 1
	one(t, 1);
#endif
#if ROUNDS > 2
	one(t, 2);
#endif
	finished[t] = true;
}
extern "C" bool v_enabled(unsigned kind, void *obj) { return v_pthread_enabled(kind, obj, v_tid); }
extern "C" void v_thread_0() { run(0); }
extern "C" void v_thread_1() { run(1); }
#if N > 2
extern "C" void v_thread_2() { run(2); }
#endif
#if N > 3
extern "C" void v_thread_3() { run(3); }
#endif
extern "C" void v_main() {
	setup();
	v_run_threads(N);
	for (int t = 0; t < N; t++) V_ASSERT(finished[t], "all threads finish");
	after();
}
