/* C16: several levels of one grid, opened in any order, used in between. LEVEL: the kind of the levels; FAKELEVEL: levels that only own memory */
#define V_NCVARS LEVELS
#ifndef LEVELS
#define LEVELS 3
#endif
#define V_NCVAL long
#include "fakeenv.h"
#include "netcdf.h"
v_ncfile v_nc;
#include "io/netcdfreader.cpp"
#include "types/basictype.h"
#include "grid/simplecontainer.h"
#ifndef FAKELEVEL
#include "grid/level/full.h"
#include "grid/level/cache.h"
#include "grid/level/passthrough.h"
#endif
#ifndef LEVEL
#define LEVEL FullDefault
#endif
#ifndef ELT
#define ELT int
#endif
#ifndef LENS
#define LENS {3, 2, 4}
#endif
#ifndef OPENS
#define OPENS LEVELS
#endif
#ifndef ORDERS /* the orders in which the levels are opened */
#define ORDERS {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}}
#endif
static const unsigned lens[] = LENS;
static const int orders[][LEVELS] = ORDERS;
enum { NORDERS = sizeof(orders) / sizeof(*orders) };
static const char *names[] = {"z", "y", "x", "w"};
static const double first[] = {0, 10, -5, 3}, step[] = {1, 2, 0.5, 1};
static unsigned char vals[LEVELS][4];
static bool opened[LEVELS];
long v_nc_value(int v, size_t pos) { return vals[v][pos]; }
void v_nc_bytes(int v, size_t pos, unsigned char *to) { ELT e = vals[v][pos]; for (size_t i = 0; i < sizeof(e); i++) to[i] = ((unsigned char*) &e)[i]; }
typedef types::BasicType<ELT> Type;
#ifdef FAKELEVEL
/* a level as far as the container uses it: it owns memory and remembers what it was opened with */
template<class T> struct Fake {
	int *n;
	Fake(mpi::MPIComm&, const numa::Numa&, T&) : n(0) {}
	~Fake() { delete n; n = 0; }
	asagi::Grid::Error open(const char*, const char *var, const int*, int, unsigned, int, grid::ValuePosition) { V_ASSERT(!n, "a level is opened once"); n = new int(var[0] == 'z' ? 0 : var[0] == 'y' ? 1 : 2); return v_nc.open_fails ? asagi::Grid::NOT_OPEN : asagi::Grid::SUCCESS; }
	unsigned dimensions() const { return 1; }
	double min(unsigned) const { return first[*n] - step[*n] / 2; }
	double max(unsigned) const { return first[*n] + step[*n] * lens[*n] - step[*n] / 2; }
	double delta(unsigned) const { return step[*n]; }
	template<typename X> void getAt(X *buf, const double *pos) { for (unsigned i = 0; i < lens[*n]; i++) if (pos[0] == first[*n] + i * step[*n]) *buf = vals[*n][i]; }
	void getAt(void *buf, const double *pos) { getAt((ELT*) buf, pos); }
	unsigned long getCounter(perf::Counter::CounterType) const { return *n; }
};
#endif
static grid::Container *c;
static unsigned long gets[LEVELS];
static const int bs[] = {2, 2, 2, 2};
static bool near(double a, double b) { return a - b < 0.001 && b - a < 0.001; }
static void check(const unsigned l, const unsigned i) {
	V_ASSERT(c->getDelta(0, l) == step[l], "spacing of the level asked for");
	if (opened[0]) {
		V_ASSERT(c->getDimensions() == 1, "dimensions of level 0");
		V_ASSERT(near(c->getMin(0), first[0] - step[0] / 2), "minimum of level 0");
		V_ASSERT(near(c->getMax(0), first[0] + step[0] * lens[0] - step[0] / 2), "maximum of level 0");
	}
	double pos[MAX_DIMENSIONS] = {first[l] + i * step[l]};
	ELT r;
	if (v_nondet_bool()) c->getInt((int*) &r, pos, l); else c->getBuf(&r, pos, l);
	V_ASSERT(r == (ELT) vals[l][i], "the value of the level asked for");
#ifdef FAKELEVEL
	V_ASSERT(c->getCounter(perf::Counter::ACCESS, l) == l, "counters of the level asked for");
#else
	gets[l]++;
	V_ASSERT(c->getCounter(perf::Counter::ACCESS, l) == gets[l], "accesses of the level asked for");
#endif
}
static void scenario(const int *o) {
	for (int n = 0; n < OPENS; n++) {
		unsigned l = o[n];
		asagi::Grid::Error e = c->init("f", names[l], bs, 2, -1, l);
		V_ASSERT(e == asagi::Grid::SUCCESS, "the level opens");
		opened[l] = true;
#ifdef BETWEEN
		check(o[0], n % lens[o[0]]); /* the level opened first, after each further one */
#endif
	}
#ifdef FAILING
	/* a level that cannot be opened leaves the others alone */
	v_nc.open_fails = true;
	V_ASSERT(c->init("f", "z", bs, 2, -1, LEVELS) != asagi::Grid::SUCCESS, "no file, no level");
#endif
	const int last = 4 * OPENS - 1;
	for (int k = last; k >= 0; k--) if (lens[o[k / 4]] > (unsigned) (k % 4) && (k == 0 || v_nondet_bool())) { check(o[k / 4], k % 4); break; }
	V_COVER("levels used");
	delete c;
}
extern "C" void v_main() {
	mpi::MPIComm *comm = new mpi::MPIComm; numa::Numa *numa = new numa::Numa; Type *type = new Type;
	for (int v = 0; v < LEVELS; v++) {
		v_ncvar &x = v_nc.var[v];
		x.name = names[v]; x.ndims = 1; x.len[0] = lens[v]; x.coord[0] = true; x.first[0] = first[v]; x.last[0] = first[v] + step[v] * (lens[v] - 1); x.varsize = sizeof(ELT); x.type = NC_INT;
		for (unsigned i = 0; i < lens[v]; i++) vals[v][i] = v_nondet_u8();
	}
#ifdef FAKELEVEL
	c = new grid::SimpleContainer<Fake<Type>, Type>(*comm, *numa, *type, -1, grid::CELL_CENTERED);
#else
	c = new grid::SimpleContainer<grid::level::LEVEL<Type>, Type>(*comm, *numa, *type, -1, grid::CELL_CENTERED);
#endif
	for (int i = 0; i < NORDERS; i++) if (i == NORDERS - 1 || v_nondet_bool()) { scenario(orders[i]); return; }
}
