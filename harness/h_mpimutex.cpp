/* C24: the MPI lock; every thread of every process is a thread, every schedule. PER: threads of each process */
#define V_THREADS
#ifndef N
#define N 2
#endif
#ifndef PER
#define PER 1
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef LOCKS
#define LOCKS 1
#endif
#define PROCS ((N + PER - 1) / PER)
#define V_RANKS (PROCS > 1 ? PROCS : 2)
#include <pthread.h>
#include "v.h"
extern "C" bool v_enabled(unsigned kind, void *obj);
static bool running; static int setuprank;
static inline int v_rank() { return running ? (int) (v_tid / PER) : setuprank; }
/* The few MPI calls a lock needs: one window of two longs on each process; results of operations are undefined until the
 * window is flushed or unlocked; messages have no content */
#define V_MPI_H
typedef int MPI_Comm; typedef int MPI_Win; typedef int MPI_Datatype; typedef int MPI_Op; typedef long MPI_Aint; typedef struct { int MPI_SOURCE, MPI_TAG; } MPI_Status; typedef int MPI_Request;
enum { MPI_SUCCESS = 0, MPI_COMM_WORLD = 1, MPI_COMM_SELF = 2, MPI_WIN_NULL = 0, MPI_BYTE = 1, MPI_LONG = 4, MPI_REPLACE = 1, MPI_NO_OP = 2, MPI_LOCK_EXCLUSIVE = 1, MPI_LOCK_SHARED = 2, MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1 };
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
enum { V_WIN = 20, V_SSEND, V_RECV };
static long mem[V_RANKS][2];
static unsigned held[V_RANKS]; /* exclusive lock of the window: thread + 1 */
static long *result[N]; static long fetched[N]; static bool pending[N];
static bool sent[N]; static int dest[N], stag[N]; /* message of each thread that was not received yet */
static int want[N], wantsrc[N], target[N];
static inline int MPI_Win_lock(int type, int t, int, MPI_Win w) {
	v_assert(type == MPI_LOCK_EXCLUSIVE, "the dictionary is locked exclusively");
	target[v_tid] = t;
	v_wait(held[t] == 0, V_WIN, 0);
	v_assert(w == 1 && held[t] == 0, "window model"); held[t] = v_tid + 1; return MPI_SUCCESS;
}
static inline int MPI_Win_flush(int t, MPI_Win) { v_assert(held[t] == v_tid + 1, "the window is locked while it is flushed"); if (pending[v_tid]) { *result[v_tid] = fetched[v_tid]; pending[v_tid] = false; } return MPI_SUCCESS; }
static inline int MPI_Win_flush_local(int t, MPI_Win w) { return MPI_Win_flush(t, w); }
static inline int MPI_Win_unlock(int t, MPI_Win w) { MPI_Win_flush(t, w); held[t] = 0; v_yield(); return MPI_SUCCESS; }
static inline long *v_word(int t, long disp, MPI_Win w, MPI_Datatype ty, void *res) {
	v_assert(w == 1 && ty == MPI_LONG, "window and type of the lock");
	v_assert(t >= 0 && t < V_RANKS && disp >= 0 && disp < 2, "an access stays inside of the window"); v_assume(t >= 0 && t < V_RANKS && disp >= 0 && disp < 2);
	v_assert(held[t] == v_tid + 1, "the window is locked while it is accessed"); v_assert(!pending[v_tid], "CAP: pending operations");
	*(long*) res = 0x5a5a; result[v_tid] = (long*) res; pending[v_tid] = true;
	return &mem[t][disp];
}
static inline int MPI_Fetch_and_op(const void *val, void *res, MPI_Datatype ty, int t, MPI_Aint disp, MPI_Op op, MPI_Win w) { const long v = *(const long*) val; long *m = v_word(t, disp, w, ty, res); fetched[v_tid] = *m; if (op == MPI_REPLACE) *m = v; return MPI_SUCCESS; }
static inline int MPI_Compare_and_swap(const void *val, const void *cmp, void *res, MPI_Datatype ty, int t, MPI_Aint disp, MPI_Win w) { const long v = *(const long*) val, c = *(const long*) cmp; long *m = v_word(t, disp, w, ty, res); fetched[v_tid] = *m; if (*m == c) *m = v; return MPI_SUCCESS; }
static inline void v_put(int dst, int tag) { v_assert(dst >= 0 && dst < V_RANKS, "the destination of a message exists"); v_assert(!sent[v_tid], "CAP: messages"); sent[v_tid] = true; dest[v_tid] = dst; stag[v_tid] = tag; }
static inline int MPI_Send(const void*, int, MPI_Datatype, int dst, int tag, MPI_Comm) { v_yield(); v_put(dst, tag); return MPI_SUCCESS; }
static inline int MPI_Ssend(const void*, int, MPI_Datatype, int dst, int tag, MPI_Comm) { v_yield(); v_put(dst, tag); v_wait(false, V_SSEND, 0); return MPI_SUCCESS; }
static inline bool v_forme(unsigned from, unsigned t) { return sent[from] && dest[from] == (int) (t / PER) && (want[t] == MPI_ANY_TAG || stag[from] == want[t]) && (wantsrc[t] == MPI_ANY_SOURCE || wantsrc[t] == (int) (from / PER)); }
static inline bool v_arrived(unsigned t) { bool r = false; for (unsigned i = 0; i < N; i++) if (v_forme(i, t)) r = true; return r; }
static inline int MPI_Recv(void*, int, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Status*) {
	want[v_tid] = tag; wantsrc[v_tid] = src;
	v_wait(v_arrived(v_tid), V_RECV, 0);
	const unsigned k = v_range(0, N - 1); v_assume(v_forme(k, v_tid)); /* any of the messages */
	sent[k] = false;
	return MPI_SUCCESS;
}
#include <mutex>
extern "C" void v_fatal() { V_ASSUME(false); }
extern "C" void v_warned() {}
#include "asagi.h"
#define MPI_MPICOMM_H
#define NUMA_NUMACOMM_H
namespace mpi { class MPIComm { public: int tags; int rank() const { return v_rank(); } int size() const { return V_RANKS; } MPI_Comm comm() const { return MPI_COMM_WORLD; } int reserveTags(unsigned n) { int t = tags; tags += n; return t; } }; }
namespace numa { class NumaComm { public: unsigned threadId() const { return running ? v_tid % PER : 0; } unsigned totalThreads() const { return PER; } unsigned totalDomains() const { return 1; } unsigned domainId() const { return 0; } }; }
#include "mpi/mutex.h"
#ifndef OWNER
#define OWNER 0
#endif
static mpi::Mutex mx[V_RANKS]; static mpi::MPIComm comms[V_RANKS]; static numa::NumaComm nc;
static pthread_mutex_t wm[V_RANKS]; /* threads of one process take turns at the window, as the class demands */
static const MPI_Win win = 1;
static unsigned users[2], entered[2]; static unsigned which[N][ROUNDS]; static bool finished[N];
static inline void begin(const unsigned p) {
#if PER > 1
	pthread_mutex_lock(&wm[p]);
#endif
	MPI_Win_lock(MPI_LOCK_EXCLUSIVE, OWNER, 0, win);
}
static inline void end(const unsigned p) {
	MPI_Win_unlock(OWNER, win);
#if PER > 1
	pthread_mutex_unlock(&wm[p]);
#endif
}
static inline void one(const unsigned t, const unsigned r) {
	const unsigned p = t / PER, l = LOCKS > 1 ? which[t][r] : 0;
	begin(p);
	long old = mx[p].acquire(OWNER, l);
	end(p);
	mx[p].wait(old);
	V_ASSERT(users[l] == 0, "one process holds the lock"); users[l]++;
	v_yield();
	V_ASSERT(users[l] == 1, "one process holds the lock"); users[l]--; entered[l]++;
	begin(p);
	mx[p].release(OWNER, l);
	end(p);
}
static inline void run(const unsigned t) {
	one(t, 0);
#if ROUNDS > 1
	one(t, 1);
#endif
	finished[t] = true;
}
extern "C" bool v_enabled(unsigned kind, void *obj) {
#if PER > 1
	if (kind == V_MUTEX) return v_mutex_free((pthread_mutex_t*) obj);
#endif
	if (kind == V_WIN) return held[target[v_tid]] == 0;
	if (kind == V_SSEND) return !sent[v_tid];
	if (kind == V_RECV) return v_arrived(v_tid);
	return true;
}
extern "C" void v_thread_0() { run(0); }
extern "C" void v_thread_1() { run(1); }
#if N > 2
extern "C" void v_thread_2() { run(2); }
#endif
#if N > 3
extern "C" void v_thread_3() { run(3); }
#endif
extern "C" void v_main() {
	for (int p = 0; p < PROCS; p++) {
		setuprank = p;
		mx[p].init(comms[p], win, nc);
		for (int i = 0; i < 2; i++) mx[p].initMutexMem(mem[p][i]);
	}
	for (int t = 0; t < N; t++) for (int r = 0; r < ROUNDS; r++) which[t][r] = v_range(0, LOCKS - 1);
	const long free = mem[0][0];
	running = true;
	v_run_threads(N);
	running = false;
	for (int t = 0; t < N; t++) V_ASSERT(finished[t], "all processes finish");
	V_ASSERT(entered[0] + entered[1] == N * ROUNDS, "every process gets the lock");
	for (int i = 0; i < 2; i++) V_ASSERT(mem[OWNER][i] == free, "the lock is free afterwards");
	for (int i = 0; i < N; i++) V_ASSERT(!sent[i], "no message is left");
	V_COVER("locked");
}
