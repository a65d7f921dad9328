/* C01/C02/C03/C05: the value of every get, on every rank and NUMA domain, for full, cached and pass-through levels.
 * Shapes are fixed per query; positions, rank, domain, cached blocks, values are symbolic. */
#define V_NCVAL long
#ifdef COUNTERS
#define FAKE_REALCOUNTER
#endif
#include "fakeenv.h"
#include "netcdf.h"
v_ncfile v_nc;
#include "io/netcdfreader.cpp"
#ifdef COUNTERS
#include "perf/counter.cpp"
#endif
#include "types/basictype.h"
#include "grid/level/full.h"
#include "grid/level/fulldist.h"
#include "grid/level/cache.h"
#include "grid/level/cachedist.h"
#include "grid/level/passthrough.h"
#ifndef DIMS
#define DIMS 1
#endif
#ifndef LENS
#define LENS {3}
#endif
#ifndef BS
#define BS {2, 0, 0, 0}
#endif
#ifndef TIME
#define TIME -1
#endif
#ifndef GETS
#define GETS 2
#endif
#ifndef ELT
#define ELT int
#endif
#ifndef BUF
#define BUF ELT
#endif
#ifndef CACHESIZE
#define CACHESIZE 2
#endif
#ifndef RANKS
#define RANKS 1
#endif
#ifndef RANK
#define RANK 0
#endif
#ifndef DOMAIN
#define DOMAIN 0
#endif
#ifndef DOMAINS
#define DOMAINS 1
#endif
#ifndef READS
#define READS 0 /* 1: none after open  2: cache  3: one cell per get */
#endif
#ifndef BLOCKS
#define BLOCKS 0 /* number of blocks, if the cache holds them all */
#endif
static long base;
long v_nc_value(int, size_t pos) { return base + (long) pos; }
void v_nc_bytes(int, size_t, unsigned char *) {}
typedef types::BasicType<ELT> Type;
static const unsigned char *store[RANKS][DOMAINS];
static unsigned long blockBytes, perDomain;
static unsigned long n_numa, n_mpi; /* blocks transferred */
/* ideal transfers: they know the storage of every rank and domain */
struct MPITrans {
	template<class... A> asagi::Grid::Error init(unsigned char *data, unsigned long count, unsigned long size, const types::Type &type, const mpi::MPIComm &c, numa::NumaComm &n) {
		store[c.rank()][n.domainId()] = data; blockBytes = size * type.size(); perDomain = count;
		return asagi::Grid::SUCCESS;
	}
	void transfer(int rank, unsigned long offset, unsigned char *to) {
		V_ASSERT(rank >= 0 && rank < RANKS, "a transfer asks an existing rank");
		V_ASSERT(offset < perDomain * DOMAINS, "a transfer asks for a block inside the storage of the rank");
		V_ASSUME(rank >= 0 && rank < RANKS && offset < perDomain * DOMAINS);
		n_mpi++;
		for (int r = 0; r < RANKS; r++) for (unsigned long o = 0; o < perDomain * DOMAINS; o++)
			if (r == rank && o == offset) memcpy(to, store[r][0] + o * blockBytes, blockBytes);
	}
};
struct NumaTrans {
	int m_rank;
	asagi::Grid::Error init(const unsigned char*, unsigned long, unsigned long, const types::Type&, const mpi::MPIComm &c, const numa::NumaComm&, cache::CacheManager&) { m_rank = c.rank(); return asagi::Grid::SUCCESS; }
	bool transfer(unsigned long id, int rank, unsigned domain, unsigned long offset, unsigned char *to) {
		if (rank != m_rank || DOMAINS == 1) return false;
		V_ASSERT(domain < DOMAINS && offset < perDomain, "a block lies in an existing domain");
		V_ASSUME(domain < DOMAINS && offset < perDomain);
		n_numa++;
		for (unsigned d = 0; d < DOMAINS; d++) for (unsigned long o = 0; o < perDomain; o++)
			if (d == domain && o == offset) memcpy(to, store[m_rank][d] + o * blockBytes, blockBytes);
		return true;
	}
};
/* ideal transfers between caches (one dimension): other caches hold any block or not, the directory knows what this rank registered */
static const size_t nlen() { static const size_t l[] = LENS; return l[0]; }
static const size_t nbs() { static const int b[] = BS; return b[0]; }
static void fill(unsigned long id, unsigned char *to) { for (size_t i = 0; i < nbs(); i++) if (id * nbs() + i < nlen()) ((ELT*) to)[i] = v_nc_value(0, id * nbs() + i); }
struct MPICTrans {
	long dir[CACHESIZE * DOMAINS]; int drank[CACHESIZE * DOMAINS]; unsigned long doff[CACHESIZE * DOMAINS]; long busy;
	template<class... A> asagi::Grid::Error init(A&&...) { for (int i = 0; i < CACHESIZE * DOMAINS; i++) dir[i] = -1; busy = -1; return asagi::Grid::SUCCESS; }
	void slot(unsigned long o) { V_ASSERT(o < CACHESIZE * DOMAINS && o / CACHESIZE == e_domain, "a slot of the own cache is registered"); V_ASSUME(o < CACHESIZE * DOMAINS); }
	void add(unsigned long id, int rank, unsigned long off, unsigned long o) { slot(o); V_ASSERT(dir[o] == -1, "the displaced block has been removed from the directory"); dir[o] = id; drank[o] = rank; doff[o] = off; }
	void addBlock(unsigned long id, int rank, unsigned long off, unsigned long o) { add(id, rank, off, o); }
	long startTransfer(unsigned long id, int rank, unsigned long off, unsigned long o) { if (busy < 0) { add(id, rank, off, o); busy = o; } V_ASSERT((unsigned long) busy == o && dir[o] == (long) id, "one block at a time"); return v_irange(-1, 3); }
	bool transfer(long entry, unsigned long id, unsigned char *to, bool &retry) {
		if (entry < 0) { retry = false; return false; }
		if (entry > 1) { retry = n_tries++ == 0; return false; }
		retry = false; fill(id, to); n_mpi++; return true;
	}
	unsigned n_tries = 0;
	void endTransfer(unsigned long id, int rank, unsigned long off, unsigned long o) { V_ASSERT(busy == (long) o && dir[o] == (long) id, "the transfer that was started ends"); busy = -1; n_tries = 0; }
	void deleteBlock(long id, int rank, unsigned long off, unsigned long o) { slot(o); if (id < 0) { V_ASSERT(dir[o] == -1, "a registered block is removed when displaced"); return; } V_ASSERT(dir[o] == id && drank[o] == rank && doff[o] == off, "the displaced block is removed from its entry"); dir[o] = -1; }
};
struct NumaCTrans {
	template<class... A> asagi::Grid::Error init(A&&...) { return asagi::Grid::SUCCESS; }
	bool transfer(unsigned long id, unsigned char *to) { if (DOMAINS == 1 || !v_nondet_bool()) return false; fill(id, to); n_numa++; return true; }
};
template<class X> using CacheD = grid::level::CacheDist<MPICTrans, NumaCTrans, X, allocator::Default>;
template<class X> using Full1 = grid::level::FullDefault<X>;
template<class X> using FullD = grid::level::FullDist<MPITrans, NumaTrans, X, allocator::Default>;
template<class X> using Cache1 = grid::level::CacheDefault<X>;
template<class X> using Pass = grid::level::PassThrough<X>;
#ifndef LEVEL
#define LEVEL Full1
#endif
extern "C" void v_main() {
	static const size_t lens[] = LENS;
	static const int bs[] = BS;
	v_nc.var[0].name = "z"; v_nc.var[0].ndims = DIMS; v_nc.var[0].varsize = sizeof(ELT); v_nc.var[0].type = NC_INT;
	size_t total = 1;
	for (int i = 0; i < DIMS; i++) { v_nc.var[0].len[i] = lens[i]; total *= lens[i]; }
	base = v_irange(0, 100);
	int spread = v_irange(-1, CACHESIZE);
	Type type;
	LEVEL<Type> *level[RANKS][DOMAINS];
	e_ranks = RANKS; e_domains = DOMAINS;
	unsigned maxd = 1;
	for (int r = 0; r < RANKS; r++) for (int d = 0; d < DOMAINS; d++) {
		e_rank = r; e_domain = d;
		mpi::MPIComm *comm = new mpi::MPIComm; numa::Numa *numa = new numa::Numa;
		level[r][d] = new LEVEL<Type>(*comm, *numa, type);
		asagi::Grid::Error err = level[r][d]->open("f", "z", bs, TIME, CACHESIZE, spread, grid::CELL_CENTERED);
		V_ASSERT(err == asagi::Grid::SUCCESS, "the grid opens");
		V_ASSERT(level[r][d]->dimensions() == DIMS, "number of dimensions");
	}
	const int r = RANK, d = DOMAIN;
	const unsigned long reads0 = v_nc.reads;
	V_ASSERT(v_nc.opens - v_nc.closes == (READS == 0 ? v_nc.opens - v_nc.closes : READS == 1 ? 0 : 1), "the file is open as long as it is needed");
	for (int g = 0; g < GETS; g++) {
		double pos[DIMS];
		size_t linear = 0;
		for (int i = 0; i < DIMS; i++) {
			size_t k = v_range(0, lens[i] - 1);
			pos[DIMS - 1 - i] = (double) (int) k;
			linear = linear * lens[i] + k;
		}
		BUF buf;
		level[r][d]->getAt(&buf, pos);
		V_ASSERT(buf == (BUF) (ELT) (base + (long) linear), "a get returns the value the file stores at the grid point");
#if READS == 2
		const unsigned long reads1 = v_nc.reads;
		BUF again;
		level[r][d]->getAt(&again, pos);
		V_ASSERT(again == buf, "reading again returns the same value");
		V_ASSERT(v_nc.reads == reads1, "the block read last is served from the cache");
#endif
	}
#if READS == 1
	V_ASSERT(v_nc.reads == reads0, "the file is not read after open");
#elif READS == 3
	V_ASSERT(v_nc.reads == reads0 + GETS && v_nc.cells == GETS, "each get reads one cell");
#endif
#if BLOCKS
	V_ASSERT(v_nc.reads <= BLOCKS, "a cache holding the whole grid reads each block once");
#endif
#ifdef COUNTERS
	{
		typedef perf::Counter C;
		LEVEL<Type> &l = *level[r][d];
		const unsigned long all = GETS * (READS == 2 ? 2 : 1), file = v_nc.reads - reads0;
		V_ASSERT(l.getCounter(C::ACCESS) == all, "each get is counted once");
		V_ASSERT(l.getCounter(C::FILE) == file, "each block read from the file after open is counted once");
		V_ASSERT(l.getCounter(C::MPI) == n_mpi && l.getCounter(C::NUMA) == n_numa, "each block from another process or domain is counted once");
		V_ASSERT(l.getCounter(C::MISS) == file + n_mpi + n_numa, "misses are the transfers and loads");
		V_ASSERT(l.getCounter(C::HIT) == all - file - n_mpi - n_numa, "every access is a hit or a miss");
		V_ASSERT(l.getCounter(C::NODE_HIT) == all - file - n_mpi, "hits of the node");
		V_ASSERT(l.getCounter(C::INVALID) == 0, "no such counter");
	}
#endif
	V_COVER("read a value");
}
