/* Fixed communicators for the harnesses of grid levels: rank, number of ranks, NUMA domain and number of domains are
 * variables of the harness, the collective operations of the domains exchange through a shared table */
#ifndef FAKEENV_H
#define FAKEENV_H
#include "v.h"
#include "asagi.h"
#define MPI_MPICOMM_H
#define NUMA_NUMACOMM_H
#define NUMA_NUMA_H
#ifndef FAKE_REALCOUNTER
#define PERF_COUNTER_H
#endif
#include <mutex>
#include "threads/mutex.h"
#include "threads/noopmutex.h"
#ifndef FAKE_GRID
extern "C" void v_fatal() { V_ASSUME(false); }
extern "C" void v_warned() {}
#endif
static int e_rank = 0, e_ranks = 1;
static unsigned e_domain = 0, e_domains = 1, e_thread = 0, e_threads = 1;
#ifndef V_BCASTS
#define V_BCASTS 6
#endif
static void *e_bcast[V_BCASTS]; /* values sent by domain 0, in order */
#ifdef FAKE_GRID
static unsigned e_inits = 0, e_detect = 0, e_registers = 0;
static bool e_master = true;
static asagi::Grid::Error e_initerr = asagi::Grid::SUCCESS, e_regerr = asagi::Grid::SUCCESS, e_bcerr = asagi::Grid::SUCCESS, e_bcvalue = asagi::Grid::SUCCESS;
static unsigned e_setthreads = 0;
#endif
namespace mpi {
#ifdef THREADSAFE_MPI
typedef threads::Mutex Lock;
#else
typedef threads::NoopMutex Lock;
#endif
class MPIComm {
	int m_rank, m_size, m_tags;
public:
	MPIComm() : m_rank(e_rank), m_size(e_ranks), m_tags(0) {}
#ifdef FAKE_GRID
#ifndef ASAGI_NOMPI
	asagi::Grid::Error init(MPI_Comm comm) { e_inits++; if (comm == MPI_COMM_SELF) { m_rank = 0; m_size = 1; } else { m_rank = e_rank; m_size = e_ranks; } return e_initerr; }
#endif
#endif
	int rank() const { return m_rank; }
	int size() const { return m_size; }
	void barrier() const {}
	int reserveTags(unsigned n) { int t = m_tags; m_tags += n; return t; }
#ifndef ASAGI_NOMPI
	MPI_Comm comm() const { return MPI_COMM_WORLD; }
#endif
	static Lock mpiLock;
};
Lock MPIComm::mpiLock;
}
namespace numa {
class NumaComm {
	unsigned m_domain, m_n;
public:
	NumaComm() : m_domain(e_domain), m_n(0) {}
	virtual ~NumaComm() {}
	unsigned totalThreads() const { return e_threads; }
	unsigned totalDomains() const { return e_domains; }
	unsigned threadId() const { return e_thread; }
	unsigned domainId() const { return m_domain; }
	template<typename T> asagi::Grid::Error broadcast(T &value, unsigned root = 0) {
		V_ASSERT(m_n < V_BCASTS, "CAP: broadcasts"); V_ASSUME(m_n < V_BCASTS);
		if (m_domain == root) e_bcast[m_n] = (void*) value; else value = (T) e_bcast[m_n];
		m_n++;
		return asagi::Grid::SUCCESS;
	}
	template<class A, typename T> asagi::Grid::Error allocate(unsigned long size, T* &data) {
		if (m_domain == 0) {
			asagi::Grid::Error err = A::allocate(size * e_domains, data);
			if (err != asagi::Grid::SUCCESS) return err;
		}
		asagi::Grid::Error err = broadcast(data);
		if (err != asagi::Grid::SUCCESS) return err;
		data = &data[size * m_domain];
		return asagi::Grid::SUCCESS;
	}
	template<class A, typename T> void free(T* data) const { A::free(data); }
	NumaComm* copy() const { return new NumaComm(*this); }
};
class Numa {
public:
	NumaComm* createComm() const { return new NumaComm(); }
	unsigned domainId() const { return e_domain; }
	unsigned threadId() const { return e_thread; }
	unsigned totalDomains() const { return e_domains; }
	unsigned totalThreads() const { return e_threads; }
#ifdef FAKE_GRID
	/* domain 0 is the root of the broadcast; the others receive what it sent */
	asagi::Grid::Error registerThread(bool &master, bool detect = true) { e_registers++; e_detect = detect; master = e_master; return e_regerr; }
	asagi::Grid::Error setThreads(unsigned n) { e_setthreads = n; return asagi::Grid::SUCCESS; }
	template<typename T> asagi::Grid::Error broadcast(T &value, unsigned root = 0) { if (e_domain == 0 && e_master) e_bcvalue = value; else value = e_bcvalue; return e_bcerr; }
#endif
};
}
#ifndef FAKE_REALCOUNTER
namespace perf {
class Counter {
public:
	enum CounterType { ACCESS, NUMA, MPI, FILE, HIT, NODE_HIT, MISS, INVALID };
	unsigned long n[4];
	Counter() { for (int i = 0; i < 4; i++) n[i] = 0; }
	void inc(CounterType t) { V_ASSERT(t < 4, "native counter"); n[t]++; }
	unsigned long get(CounterType t) const { return n[t]; }
	static CounterType name2type(const char*) { return INVALID; }
};
}
#endif
#endif
