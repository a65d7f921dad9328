/* C14/C15/C17: the real grid object (parameters, choice of the implementation, counters) over levels that record how they are made.
 * MODE 0: choice of the implementation for every combination of the parameters, 1: storage of the parameters, 2: counters */
#define FAKE_GRID
#ifndef DOMAINS
#define DOMAINS 2
#endif
#ifndef ASAGI_NOMPI
#define V_RANKS 1
#include "mpi.h"
#endif
#include "netcdf.h"
v_ncfile v_nc;
#define V_COUNT_WARNINGS
#ifndef MODE
#define MODE 0
#endif
#if MODE == 2
#define FAKE_REALCOUNTER
#endif
#include "fakeenv.h"
#include <deque>
#include "io/netcdfreader.cpp"
#if MODE == 2
#include "perf/counter.cpp"
#endif
#define GRID_LEVEL_CACHE_H
#define GRID_LEVEL_CACHEDIST_H
#define GRID_LEVEL_FULL_H
#define GRID_LEVEL_FULLDIST_H
#define GRID_LEVEL_PASSTHROUGH_H
#define GRID_LEVEL_LEVEL_H
#define GRID_LEVEL_BLOCKED_H
#include "types/arraytype.h"
#include "types/basictype.h"
#include "types/structtype.cpp"
#include "grid/constants.h"
enum Kind { NONE, CACHE, CACHE_NUMA, CACHE_THREAD, CACHE_WIN, CACHE_THREAD_NUMA, CACHE_WIN_NUMA, FULL, FULL_NUMA, FULL_THREAD, FULL_WIN, FULL_THREAD_NUMA, FULL_WIN_NUMA, FULL_THREAD_NUMACACHE, FULL_WIN_NUMACACHE, PASS };
template<class T> struct Id { enum { V = 0 }; };
#define ID(N, T) template<> struct Id<types::BasicType<T>> { enum { V = N }; }; template<> struct Id<types::ArrayType<T>> { enum { V = 10 + N }; }; template<> struct Id<types::StructType<T>> { enum { V = 20 + N }; };
ID(1, unsigned char) ID(2, int) ID(3, long) ID(4, float) ID(5, double)
/* what the last container was made and opened with */
static int r_kind, r_type, r_ranks, r_time, r_spread, r_bs[MAX_DIMENSIONS], r_value, r_level;
static unsigned r_cache, r_made, r_opens, r_deleted, r_domain;
static const void *r_typeptr;
static std::string r_file, r_var;
static asagi::Grid::Error r_result = asagi::Grid::SUCCESS;
static int q_op; static unsigned q_domain, q_level; static const double *q_pos; static void *q_buf; /* the last query of a container */
#if MODE == 2
static perf::Counter r_counters[2][2]; /* per container and level */
#endif
#include "grid/container.h"
struct FakeContainer : grid::Container {
	const int kind, ty; const unsigned number; const void *tp;
	FakeContainer(int k, int t, const void *p, mpi::MPIComm &c, const numa::Numa &n, int time, grid::ValuePosition vp) : grid::Container(c, n, time, vp), kind(k), ty(t), number(r_made), tp(p) { r_made++; m_dimensions = 1 + number; for (int i = 0; i < MAX_DIMENSIONS; i++) { m_min[i] = 10 * number + i; m_max[i] = 100 + 10 * number + i; } }
	virtual ~FakeContainer() { r_deleted++; }
	asagi::Grid::Error init(const char *file, const char *var, const int *bs, unsigned cache, int spread, unsigned level) {
		r_kind = kind; r_type = ty; r_typeptr = tp; r_ranks = comm().size(); r_file = file; r_var = var; r_time = timeDimension(); r_cache = cache; r_spread = spread; r_value = valuePosition(); r_level = level; r_domain = number;
		for (int i = 0; i < MAX_DIMENSIONS; i++) r_bs[i] = bs[i];
		r_opens++;
		return r_result;
	}
	double getDelta(unsigned n, unsigned level) const { return 1000 + 100 * number + 10 * level + n; }
	void note(int op, void *b, const double *pos, unsigned level) { q_op = op; q_domain = number; q_level = level; q_pos = pos; q_buf = b; }
	void getByte(unsigned char *b, const double *p, unsigned l) { note(1, b, p, l); *b = 11; } void getInt(int *b, const double *p, unsigned l) { note(2, b, p, l); *b = 12; }
	void getLong(long *b, const double *p, unsigned l) { note(3, b, p, l); *b = 13; } void getFloat(float *b, const double *p, unsigned l) { note(4, b, p, l); *b = 14; }
	void getDouble(double *b, const double *p, unsigned l) { note(5, b, p, l); *b = 15; } void getBuf(void *b, const double *p, unsigned l) { note(6, b, p, l); }
	unsigned long getCounter(perf::Counter::CounterType t, unsigned l) const {
#if MODE == 2
		return r_counters[number][l].get(t);
#else
		return 0;
#endif
	}
};
#define GRID_SIMPLECONTAINER_H
namespace grid {
template<class Level, class Type> struct SimpleContainer : FakeContainer {
	SimpleContainer(mpi::MPIComm &c, const numa::Numa &n, Type &t, int time, ValuePosition vp) : FakeContainer(Level::KIND, Id<Type>::V, &t, c, n, time, vp) {}
};
template<int K, class Type> struct FakeLevel { enum { KIND = K }; };
namespace level {
#define FAKE(N, K) template<class T> using N = FakeLevel<K, T>;
FAKE(CacheDefault, CACHE) FAKE(CacheDistNuma, CACHE_NUMA) FAKE(CacheDistMPIThread, CACHE_THREAD) FAKE(CacheDistMPIWin, CACHE_WIN) FAKE(CacheDistMPIThreadNuma, CACHE_THREAD_NUMA) FAKE(CacheDistMPIWinNuma, CACHE_WIN_NUMA)
FAKE(FullDefault, FULL) FAKE(FullDistNuma, FULL_NUMA) FAKE(FullDistMPIThread, FULL_THREAD) FAKE(FullDistMPIWin, FULL_WIN) FAKE(FullDistMPIThreadNuma, FULL_THREAD_NUMA) FAKE(FullDistMPIWinNuma, FULL_WIN_NUMA)
FAKE(FullDistMPIThreadNumaCache, FULL_THREAD_NUMACACHE) FAKE(FullDistMPIWinNumaCache, FULL_WIN_NUMACACHE) FAKE(PassThrough, PASS)
} }
#include "grid/grid.cpp"
using asagi::Grid;
#define LEN(a) ((int) (sizeof(a) / sizeof(*(a))))
/* one path for each value, constant there */
#define EACH(i, n) for (int i = 0; i < (n); i++) if (i == (n) - 1 || v_nondet_bool())

#if MODE == 1
/* the parameters as documented: names in several spellings, values */
enum { BLOCK0, BLOCK1, CACHESIZE, SPREAD, VARIABLE, POSITION, TIMEDIM, PARAMS };
static const char *names[PARAMS][3] = {{"BLOCK_SIZE_0", "block-size-0", "Block_size-0"}, {"BLOCK_SIZE_1", "block-size-1", "Block-Size_1"}, {"CACHE_SIZE", "cache-size", "Cache_Size"},
	{"CACHE_HAND_SPREAD", "cache-hand-spread", "cache_Hand-Spread"}, {"VARIABLE", "variable", "Variable"}, {"VALUE_POSITION", "value-position", "Value_Position"}, {"TIME_DIMENSION", "time-dimension", "time_Dimension"}};
#ifndef PARAM
#define PARAM 0
#endif
static const char *texts[] = {"vertex-centered", "CELL_centered", "VERTEX_CENTERED", "other"};
static char value_[2][4];
/* a value: a number of one or two digits, perhaps negative, or one of the texts */
static const char *value(int k, int &v) {
	if (PARAM == POSITION) { EACH(t, 4) { v = t == 0 || t == 2 ? grid::VERTEX_CENTERED : grid::CELL_CENTERED; return texts[t]; } }
	char *s = value_[k];
	if (PARAM == VARIABLE) { for (int i = 0; i < 3; i++) { s[i] = v_nondet_u8(); V_ASSUME(s[i] != 0); } s[3] = 0; return s; }
	unsigned a = v_range(PARAM == CACHESIZE ? 1 : 0, 9), b = v_range(0, 9);
	EACH(t, 3) {
		bool neg = t == 2 && PARAM != CACHESIZE;
		if (t == 1) { s[0] = '0' + a; s[1] = '0' + b; s[2] = 0; v = 10 * a + b; }
		else if (neg) { s[0] = '-'; s[1] = '0' + a; s[2] = 0; v = -(int) a; }
		else { s[0] = '0' + a; s[1] = 0; v = a; }
		return s;
	}
	return 0;
}
static void expect(unsigned level, bool set, int v, const char *var) {
	V_ASSERT(r_bs[0] == (set && PARAM == BLOCK0 ? v : 0), "block size of dimension 0");
	V_ASSERT(r_bs[1] == (set && PARAM == BLOCK1 ? v : 0), "block size of dimension 1");
	V_ASSERT(r_cache == (set && PARAM == CACHESIZE ? (unsigned) v : 128), "size of the cache");
	V_ASSERT(r_spread == (set && PARAM == SPREAD ? v : -1), "hand spread of the cache");
	if (set && PARAM == VARIABLE) { V_ASSERT(r_var.size() == 3, "length of the name of the variable"); for (int i = 0; i < 3; i++) V_ASSERT(r_var[i] == var[i], "name of the variable, case kept"); }
	else V_ASSERT(r_var.size() == 1 && r_var[0] == 'z', "default variable");
	V_ASSERT(r_level == level, "level passed on");
	V_ASSERT(r_file.size() == 4 && r_file[0] == 'f' && r_file[1] == '.' && r_file[2] == 'n' && r_file[3] == 'c', "file passed on");
}
static void scenario(int sp, int sp2, unsigned level, unsigned other, bool twice) {
	e_ranks = 1; e_domains = 1; e_domain = 0;
	grid::Grid *gr = new grid::Grid(Grid::FLOAT);
	int v, w; const char *a = value(0, v), *b = 0;
	gr->setParam(names[PARAM][sp], a, level);
	if (twice) { b = value(1, w); gr->setParam(names[PARAM][sp2], b, level); a = b; v = w; }
	V_ASSERT(gr->open("f.nc", other) == Grid::SUCCESS, "opens");
	/* the position of the values and the time dimension are properties of the grid, given at level 0 */
	V_ASSERT(r_value == (PARAM == POSITION && level == 0 ? v : grid::CELL_CENTERED), "position of the values");
	V_ASSERT(r_time == (PARAM == TIMEDIM && level == 0 ? v : -1), "time dimension");
	V_ASSERT(r_kind == FULL, "default grid");
	expect(other, other == level, v, a);
	V_COVER("opened");
}
extern "C" void v_fatal() { V_ASSERT(false, "no error is reported"); V_ASSUME(false); }
extern "C" void v_warned() {}
extern "C" void v_main() {
#ifndef SPELLING
#define SPELLING 0
#endif
	EACH(k, 6) { scenario(SPELLING, (SPELLING + 1) % 3, k / 2 % 2, k < 3 ? k / 2 % 2 : k & 1, k & 1); return; }
}
#endif

#if MODE == 2
static const char *cnames[] = {"accesses", "numa_transfers", "mpi_transfers", "file_loads", "local_hits", "node_hits", "local_misses", "accesse", "Accesses", "x", ""};
extern "C" void v_fatal() { V_ASSUME(false); }
extern "C" void v_warned() {}
static void ask(grid::Grid *gr, const char *name, int i, unsigned level, const unsigned (*n)[2][4]) {
	unsigned long s = 0;
	for (unsigned d = 0; d < e_domains; d++) {
		const unsigned *c = n[d][level];
		s += i == 0 ? c[0] : i == 1 ? c[1] : i == 2 ? c[2] : i == 3 ? c[3] : i == 4 ? c[0] - c[1] - c[2] - c[3] : i == 5 ? c[0] - c[2] - c[3] : i == 6 ? c[1] + c[2] + c[3] : 0;
	}
	V_ASSERT(gr->getCounter(name, level) == s, "the counter is the sum over the domains, 0 for unknown names");
	V_COVER("counter asked");
}
extern "C" void v_main() {
	e_ranks = 1; e_domains = DOMAINS; e_domain = 0;
	grid::Grid *gr = new grid::Grid(Grid::DOUBLE);
	V_ASSERT(gr->open("f.nc", 0) == Grid::SUCCESS, "opens");
	e_domain = v_range(0, DOMAINS - 1);
	/* the getters ask the container of the own domain, the ranges are those of container 0 */
	unsigned lv = v_range(0, 1), dim = v_range(0, MAX_DIMENSIONS - 1);
	V_ASSERT(gr->getDimensions() == 1 && gr->getMin(dim) == dim && gr->getMax(dim) == 100 + dim, "ranges of the grid");
	V_ASSERT(gr->getDelta(dim, lv) == 1000 + 10 * lv + dim && gr->getVarSize() == sizeof(double), "spacing and size");
	double pos[1]; char buf[8];
#define Q(op, v) V_ASSERT((v) && q_op == op && q_domain == e_domain && q_level == lv && q_pos == pos, "the value comes from the container of the own domain")
	Q(1, gr->getByte(pos, lv) == 11); Q(2, gr->getInt(pos, lv) == 12); Q(3, gr->getLong(pos, lv) == 13); Q(4, gr->getFloat(pos, lv) == 14); Q(5, gr->getDouble(pos, lv) == 15);
	gr->getBuf(buf, pos, lv); Q(6, q_buf == buf);
	static unsigned n[2][2][4];
	for (unsigned d = 0; d < DOMAINS; d++) for (int l = 0; l < 2; l++) {
		for (int k = 0; k < 4; k++) { n[d][l][k] = v_range(0, k ? 1 : 4); for (unsigned i = 0; i < (k ? 1 : 4); i++) if (i < n[d][l][k]) r_counters[d][l].inc((perf::Counter::CounterType) k); }
		V_ASSUME(n[d][l][0] >= n[d][l][1] + n[d][l][2] + n[d][l][3]);
	}
	EACH(k, 22) { ask(gr, cnames[k / 2], k / 2, k & 1, n); return; }
}
#endif

#if MODE == 0
#ifndef GRIDS
#define GRIDS {0, "CACHE", "cache", "FULL", "Pass-Through", "other"}
#endif
#ifndef MPIS
#define MPIS {0, "OFF", "Thread", "WINDOW"}
#endif
#ifndef NUMAS
#define NUMAS {0, "off", "ON", "CACHE"}
#endif
#ifndef RANKS
#define RANKS 2
#endif
#ifndef DOMAINS
#define DOMAINS 2
#endif
#ifndef TYPES
#define TYPES {2}
#endif
static const char *grids[] = GRIDS, *mpis[] = MPIS, *numas[] = NUMAS;
static const int types_[] = TYPES;
static bool is(const char *v, const char *up) {
	if (!v) return false;
	for (; *v && *up; v++, up++) if (*v != *up && *v - 32 != *up && !(*v == '-' && *up == '_')) return false;
	return *v == *up;
}
static const Grid::Type et[] = {Grid::BYTE, Grid::BYTE, Grid::INT, Grid::LONG, Grid::FLOAT, Grid::DOUBLE};
static bool e_refused = false;
static void scenario(const char *g, const char *m, const char *n, int type) {
	e_ranks = RANKS; e_domains = is(n, "OFF") ? 1 : DOMAINS; e_domain = 0;
	grid::Grid *gr;
	unsigned one[] = {1}; unsigned long displ[] = {0}; Grid::Type ts[] = {et[type % 10]};
	if (type < 10) gr = new grid::Grid(et[type]);
	else if (type < 20) gr = new grid::Grid(et[type % 10], true);
	else gr = new grid::Grid(1, one, displ, ts);
	if (g) gr->setParam("GRID", g);
	if (m) gr->setParam("mpi-communication", m);
	if (n) gr->setParam("NUMA_COMMUNICATION", n);
#ifndef USE_MPI3
	e_refused = is(g, "CACHE") && RANKS > 1 && !is(m, "OFF"); /* the directory of the cache needs MPI-3 */
#ifndef THREADSAFE_MPI
	if (is(m, "THREAD")) e_refused = false;
#endif
#endif
	for (unsigned d = 0; d < e_domains; d++) {
		e_domain = d;
		r_kind = NONE;
		V_ASSERT(gr->open("f.nc") == Grid::SUCCESS, "the grid opens");
		bool mpi = RANKS > 1 && !is(m, "OFF"), numa = e_domains > 1 && !is(n, "OFF"), thread = is(m, "THREAD"), nc = is(n, "CACHE");
#ifdef THREADSAFE_MPI
		thread = false;
#endif
#ifdef ASAGI_NONUMA
		if (!n) numa = false;
#endif
		int want;
		if (is(g, "CACHE")) want = !mpi ? numa ? CACHE_NUMA : CACHE : thread ? numa ? CACHE_THREAD_NUMA : CACHE_THREAD : numa ? CACHE_WIN_NUMA : CACHE_WIN;
		else if (is(g, "PASS_THROUGH")) want = PASS;
		else want = !mpi ? numa ? FULL_NUMA : FULL : thread ? !numa ? FULL_THREAD : nc ? FULL_THREAD_NUMACACHE : FULL_THREAD_NUMA : !numa ? FULL_WIN : nc ? FULL_WIN_NUMACACHE : FULL_WIN_NUMA;
		V_ASSERT(r_kind == want, "the implementation the parameters ask for is used");
		V_ASSERT(r_type == type, "it is made for the type of the grid");
		V_ASSERT(r_typeptr != 0, "it gets the type of the grid");
		V_ASSERT(r_ranks == (mpi ? RANKS : 1), "without communication between processes every process is on its own");
		V_ASSERT(r_made == e_domains && r_domain == d, "every domain has a container of its own");
		V_ASSERT(e_detect == !is(n, "OFF"), "NUMA domains are detected unless switched off");
	}
	V_COVER("opened");
}
extern "C" void v_fatal() { V_ASSERT(e_refused, "only combinations the build does not support are refused"); V_ASSUME(false); }
extern "C" void v_warned() {}
extern "C" void v_main() {
	EACH(t, LEN(types_)) { EACH(g, LEN(grids)) { EACH(m, LEN(mpis)) { EACH(n, LEN(numas)) { scenario(grids[g], mpis[m], numas[n], types_[t]); return; } } } }
}
#endif

#if MODE == 3
/* handles: histories of creating, using and closing grids through the three interfaces */
#include "asagi.cpp"
#include "asagi_f90.h"
#include "asagi_f90.cpp"
#ifndef OPS
#define OPS 4
#endif
extern "C" void v_fatal() { V_ASSERT(false, "no error is reported"); V_ASSUME(false); }
extern "C" void v_warned() {}
struct History { grid::Grid *g[OPS]; int id[OPS]; bool open[OPS]; unsigned n; };
static void check(const History &h) { for (unsigned k = 0; k < h.n; k++) if (h.open[k]) V_ASSERT(grid::Grid::f2c(h.id[k]) == h.g[k] && h.g[k]->c2f() == h.id[k], "the id leads to the grid it was given to"); }
/* every history has a path of its own */
template<int LEFT> static void run(History h) {
	check(h);
	const unsigned n = h.n;
	EACH(op, 1 + (int) n) {
		if (op == 0) {
			EACH(how, n == 0 ? 2 : 1) {
				if ((how + n) % 2 == 0) { h.g[n] = static_cast<grid::Grid*>(asagi_grid_create(Grid::INT)); h.id[n] = h.g[n]->c2f(); }
				else { h.id[n] = f90asagi_grid_create(Grid::INT); h.g[n] = grid::Grid::f2c(h.id[n]); }
				V_ASSERT(h.g[n] != 0, "an open grid is found by its id");
				for (unsigned i = 0; i < n; i++) if (h.open[i]) V_ASSERT(h.id[i] != h.id[n] && h.g[i] != h.g[n], "ids of open grids differ");
				h.open[n] = true; h.n++; run<LEFT - 1>(h); return;
			}
		} else {
			const int i = op - 1;
			if (!h.open[i]) return;
			if ((i + LEFT) % 2) f90asagi_grid_close(h.id[i]); else asagi_grid_close(h.g[i]);
			h.open[i] = false; V_COVER("closed"); run<LEFT - 1>(h); return;
		}
	}
}
template<> void run<0>(History h) {
	check(h);
	for (unsigned k = 0; k < h.n; k++) if (h.open[k]) V_ASSERT(f90asagi_grid_var_size(h.id[k]) == sizeof(int), "a grid is used by its id");
	V_COVER("history");
}
extern "C" void v_main() { e_ranks = 1; e_domains = 1; e_domain = 0; History h; h.n = 0; run<OPS>(h); }
#endif
