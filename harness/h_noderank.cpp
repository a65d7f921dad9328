/* C28: rank of a process on its node, for every placement of the processes on hosts. The processes run one after another; what the
 * others contribute to the collective operations is guessed first and has to agree with what they do when it is their turn. */
#ifndef V_RANKS
#define V_RANKS 3
#endif
#ifndef NAMELEN
#define NAMELEN 3
#endif
#define MPI_MAX_PROCESSOR_NAME 5
#define V_OWN_MPI_ENTER
#include "v.h"
#include "mpi.h"
#include <mutex>
#include <cstdint>
extern "C" void v_fatal() { V_ASSUME(false); }
extern "C" void v_warned() {}
/* grids and the communication thread are not part of this */
#define GRID_GRID_H
#include "asagi.h"
#include "mpi/mpicomm.cpp"
#define MPI_COMMTHREAD_H
namespace mpi { struct CommThread { asagi::Grid::Error init(int, MPI_Comm) { return asagi::Grid::SUCCESS; } void finialize() {} static CommThread commThread; }; CommThread CommThread::commThread; }
namespace grid { struct Grid : asagi::Grid {
	Grid(Type, bool = false) {} Grid(unsigned, unsigned*, unsigned long*, Type*) {}
	Error setComm(MPI_Comm) { return SUCCESS; } Error setThreads(unsigned) { return SUCCESS; } void setParam(const char*, const char*, unsigned) {}
	Error open(const char*, unsigned) { return SUCCESS; } unsigned getDimensions() const { return 0; } double getMin(unsigned) const { return 0; } double getMax(unsigned) const { return 0; }
	double getDelta(unsigned, unsigned) const { return 0; } unsigned getVarSize() const { return 0; } unsigned char getByte(const double*, unsigned) { return 0; } int getInt(const double*, unsigned) { return 0; }
	long getLong(const double*, unsigned) { return 0; } float getFloat(const double*, unsigned) { return 0; } double getDouble(const double*, unsigned) { return 0; } void getBuf(void*, const double*, unsigned) {} unsigned long getCounter(const char*, unsigned) { return 0; }
}; }
#include "asagi.cpp"
static void v_mpi_enter() {
#ifdef THREADSAFE_MPI
	const bool unlocked = mpi::MPIComm::mpiLock.try_lock();
	if (unlocked) mpi::MPIComm::mpiLock.unlock();
	V_ASSERT(!unlocked, "MPI is called with the MPI lock held");
#endif
}
enum { USER = 3, NODE = 4 };
static char host[V_RANKS][MPI_MAX_PROCESSOR_NAME + 1]; static int hostlen[V_RANKS];
static int order[V_RANKS]; /* world rank of every rank of the communicator */
static int colour[V_RANKS], key[V_RANKS]; /* guessed, by world rank */
static unsigned char sent[V_RANKS][MPI_MAX_PROCESSOR_NAME + 1];
static unsigned splits;
static int splitcomm;
int MPI_Get_processor_name(char *n, int *l) {
	v_mpi_enter();
	for (int i = 0; i < MPI_MAX_PROCESSOR_NAME; i++) if (i <= hostlen[v_cur_rank]) n[i] = host[v_cur_rank][i];
	*l = hostlen[v_cur_rank]; return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm c, int col, int k, MPI_Comm *r) {
	v_mpi_enter();
	v_comm *x = v_getcomm(c);
	V_ASSERT(c == splitcomm, "the processes of the communicator are grouped");
	V_ASSERT(col >= 0, "colours are not negative");
	V_ASSERT(splits == 0, "every process groups once"); splits++;
	V_ASSUME(colour[v_cur_rank] == col && key[v_cur_rank] == k);
	v_comm *y = &v_comms[NODE];
	y->live = true; y->ctx = 9; y->g.n = 0;
	bool in[V_RANKS]; int pos[V_RANKS];
	for (int i = 0; i < V_RANKS; i++) in[i] = i < x->g.n && colour[x->g.member[i]] == col;
	for (int i = 0; i < V_RANKS; i++) if (in[i]) {
		pos[i] = 0;
		for (int j = 0; j < V_RANKS; j++) if (in[j] && (key[x->g.member[j]] < key[x->g.member[i]] || (key[x->g.member[j]] == key[x->g.member[i]] && j < i))) pos[i]++;
		y->g.n++;
		for (int p = 0; p < V_RANKS; p++) if (pos[i] == p) y->g.member[p] = x->g.member[i];
	}
	*r = NODE; return MPI_SUCCESS;
}
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *to, int tn, MPI_Datatype tt, MPI_Comm c) {
	v_mpi_enter();
	v_comm *x = v_getcomm(c);
	V_ASSERT(c == NODE, "names are compared in the group");
	V_ASSERT(t == MPI_CHAR && tt == t && n == tn && n >= 0 && n <= MPI_MAX_PROCESSOR_NAME + 1, "processes exchange as many characters as they receive");
	V_ASSUME(n >= 0 && n <= MPI_MAX_PROCESSOR_NAME + 1);
	bool end = false;
	for (int i = 0; i < n; i++) { const unsigned char b = end ? 0 : ((const unsigned char*) s)[i]; if (!end) V_ASSUME(sent[v_cur_rank][i] == b); if (!b) end = true; }
	for (int p = 0; p < V_RANKS; p++) if (p < x->g.n) {
		const int w = x->g.member[p];
		for (int i = 0; i < n; i++) ((unsigned char*) to)[p * n + i] = sent[w][i];
	}
	return MPI_SUCCESS;
}
extern "C" void v_main() {
	v_comms_init(); v_ncomms = 5;
	const int n = v_range(1, V_RANKS);
	for (int p = 0; p < V_RANKS; p++) {
		colour[p] = (int) v_nondet_u32(); key[p] = (int) v_nondet_u32();
		for (int i = 0; i <= MPI_MAX_PROCESSOR_NAME; i++) sent[p][i] = v_nondet_u8();
		hostlen[p] = v_range(NAMELEN > 3 ? NAMELEN - 1 : 0, NAMELEN);
		for (int i = 0; i < NAMELEN; i++) { host[p][i] = i < hostlen[p] ? v_nondet_u8() : 0; if (i < hostlen[p]) V_ASSUME(
#ifdef ANYCHAR
			host[p][i]
#else
			host[p][i] >= 'a' && host[p][i] <= 'd'
#endif
		); }
		host[p][NAMELEN] = 0;
	}
	/* the communicator: the world, or one of the user with the processes in any order */
	int shift = v_range(0, V_RANKS - 1); const bool back = v_nondet_bool();
	splitcomm = v_nondet_bool() ? (int) MPI_COMM_WORLD : (int) USER;
	if (splitcomm == MPI_COMM_WORLD) V_ASSUME(n == V_RANKS && shift == 0 && !back);
	v_comms[USER].live = true; v_comms[USER].ctx = 3; v_comms[USER].g.n = n;
	for (int i = 0; i < V_RANKS; i++) { int w = i + shift; if (w >= V_RANKS) w -= V_RANKS; if (back) w = V_RANKS - 1 - w; v_comms[USER].g.member[i] = w; order[i] = w; }
	int result[V_RANKS];
	for (int i = 0; i < V_RANKS; i++) if (i < n) {
		v_cur_rank = order[i]; splits = 0;
		const unsigned frees = v_comm_frees;
		result[i] = i == 0 && v_nondet_bool() ? asagi_node_local_rank(splitcomm) : asagi::Grid::nodeLocalRank(splitcomm);
		V_ASSERT(v_comm_frees - frees == splits, "the communicator of the node is freed");
#ifdef THREADSAFE_MPI
		V_ASSERT(mpi::MPIComm::mpiLock.try_lock(), "the MPI lock is released"); mpi::MPIComm::mpiLock.unlock();
#endif
	}
	bool collision = false;
	for (int i = 0; i < V_RANKS; i++) if (i < n) {
		int before = 0;
		for (int j = 0; j < i; j++) { bool same = hostlen[order[i]] == hostlen[order[j]]; for (int k = 0; k < NAMELEN; k++) if (host[order[i]][k] != host[order[j]][k]) same = false; if (same) before++; else if (colour[order[i]] == colour[order[j]]) collision = true; }
		V_ASSERT(result[i] == before, "the rank on the node is the number of processes of the same host that come earlier in the communicator");
	}
	(void) collision;
	if (n == V_RANKS && result[n - 1] == n - 1) V_COVER("all processes on one host");
}
