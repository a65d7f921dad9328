/* C30/C31: the communicator of a grid: duplicated, queried, freed exactly once, whichever MPI call fails */
#ifndef OPS
#define OPS 3
#endif
#ifndef V_RANKS
#define V_RANKS 2
#endif
#ifndef V_COMMS
#define V_COMMS (6 + OPS * OBJECTS)
#endif
#ifndef OBJECTS
#define OBJECTS 1
#endif
#define V_OWN_MPI_ENTER
#include "v.h"
#include "mpi.h"
extern "C" void v_fatal() { V_ASSUME(false); }
extern "C" void v_warned() {}
#include <mutex>
#include "asagi.h"
#include "mpi/mpicomm.cpp"
static void v_mpi_enter() {
#ifdef THREADSAFE_MPI
	const bool unlocked = mpi::MPIComm::mpiLock.try_lock();
	if (unlocked) mpi::MPIComm::mpiLock.unlock();
	V_ASSERT(!unlocked, "MPI is called with the MPI lock held");
#endif
}
static void unlocked() {
#ifdef THREADSAFE_MPI
	V_ASSERT(mpi::MPIComm::mpiLock.try_lock(), "the MPI lock is released");
	mpi::MPIComm::mpiLock.unlock();
#endif
}
enum { USER = 3 };
static mpi::MPIComm *c[OBJECTS];
static bool alive(MPI_Comm x) { return x > 0 && x < V_COMMS && v_comms[x].live; }
extern "C" void v_main() {
	v_comms_init();
	v_cur_rank = v_range(0, V_RANKS - 1);
	/* a communicator of the user: any order of the processes, perhaps only this one */
	const bool alone = v_nondet_bool();
	v_ncomms = USER + 1;
	v_comms[USER].live = true; v_comms[USER].ctx = 3;
	v_comms[USER].g.n = alone ? 1 : V_RANKS;
	for (int i = 0; i < V_RANKS; i++) v_comms[USER].g.member[i] = alone ? v_cur_rank : V_RANKS - 1 - i;
	for (int o = 0; o < OBJECTS; o++) {
		c[o] = new mpi::MPIComm();
		V_ASSERT(c[o]->rank() == 0 && c[o]->size() == 1, "without a communicator there is one process");
	}
	for (int i = 0; i < OPS; i++) {
		if (v_nondet_bool()) break;
		const int o = v_range(0, OBJECTS - 1);
		const MPI_Comm x = 1 + v_range(0, 2);
		const MPI_Comm before = c[o]->comm(); const int rank = c[o]->rank(), size = c[o]->size();
		const unsigned dups = v_comm_dups, failed = v_mpi_failed;
		const asagi::Grid::Error e = c[o]->init(x);
		if (v_mpi_failed == failed) {
			V_ASSERT(e == asagi::Grid::SUCCESS, "a communicator is set");
			V_ASSERT(c[o]->comm() != x && alive(c[o]->comm()), "the grid works on its own communicator");
			V_ASSERT(v_comms[c[o]->comm()].ctx != v_comms[x].ctx, "the communicator is a duplicate");
			V_ASSERT(c[o]->rank() == v_comm_rank(x), "rank in the communicator");
			V_ASSERT(c[o]->size() == v_comms[x].g.n, "size of the communicator");
			V_COVER("communicator set");
		} else {
			V_ASSERT(e == asagi::Grid::MPI_ERROR, "a failing MPI call is reported");
			if (v_comm_dups == dups) V_ASSERT(c[o]->comm() == before && c[o]->rank() == rank && c[o]->size() == size, "a communicator that cannot be duplicated changes nothing");
			V_ASSERT(alive(c[o]->comm()), "a communicator that exists is used after an error");
			V_COVER("failure reported");
		}
		V_ASSERT(alive(MPI_COMM_WORLD) && alive(MPI_COMM_SELF) && alive(USER), "communicators of the user stay");
		unsigned owned = 0;
		for (int k = 0; k < OBJECTS; k++) { if (c[k]->comm() > USER) owned++; for (int l = 0; l < k; l++) V_ASSERT(c[k]->comm() == MPI_COMM_SELF || c[k]->comm() != c[l]->comm(), "grids do not share communicators"); }
		V_ASSERT(v_comm_dups - v_comm_frees == owned, "duplicates that are not used any more are freed");
		unlocked();
	}
	if (v_nondet_bool()) { c[0]->barrier(); V_ASSERT(v_barriers == 1, "barrier"); unlocked(); }
	int a = c[0]->reserveTags(2), b = c[0]->reserveTags(1);
	V_ASSERT(b >= a + 2 || a > b, "reserved tags are distinct");
	for (int o = 0; o < OBJECTS; o++) delete c[o];
	unlocked();
	V_ASSERT(v_comm_dups == v_comm_frees, "every duplicate is freed once");
	V_ASSERT(alive(MPI_COMM_WORLD) && alive(MPI_COMM_SELF) && alive(USER), "communicators of the user stay");
	V_COVER("finished");
}
