/* C04/C12: coordinates -> indices, reported range and spacing. A recording type shows which cell the real pass-through
 * level asks for. First coordinate and spacing come from the modelled coordinate variables. */
#define V_NCVAL long
#include "fakeenv.h"
#include "netcdf.h"
v_ncfile v_nc;
#include "io/netcdfreader.cpp"
#include "types/basictype.h"
#include "grid/level/passthrough.h"
#include <cmath>
#ifndef DIMS
#define DIMS 1
#endif
#ifndef MAXLEN
#define MAXLEN 5
#endif
long v_nc_value(int, size_t) { return 0; }
void v_nc_bytes(int, size_t, unsigned char *) {}
static size_t rec[MAX_DIMENSIONS];
static bool loaded;
struct Rec {
	asagi::Grid::Error check(const io::NetCdfReader&) { return asagi::Grid::SUCCESS; }
	unsigned size() const { return 1; }
	void load(io::NetCdfReader&, const size_t *offset, const size_t *size, void*) const {
		for (int i = 0; i < DIMS; i++) { rec[i] = offset[i]; V_ASSERT(size[i] == 1, "one cell is read"); }
		loaded = true;
	}
	void convert(const void*, void*) const {}
};
/* coordinates in eighths of the unit */
static int first8[DIMS], step8[DIMS];
static size_t len[DIMS];
extern "C" void v_main() {
	v_nc.var[0].name = "z"; v_nc.var[0].ndims = DIMS; v_nc.var[0].varsize = 1; v_nc.var[0].type = NC_BYTE;
#ifdef LENS
	static const size_t l[] = LENS;
#endif
#ifdef STEPS
	static const int st[] = STEPS;
#endif
	for (int i = 0; i < DIMS; i++) {
#ifdef LENS
		len[i] = l[i];
#else
		len[i] = v_range(1, MAXLEN);
#endif
		first8[i] = v_irange(-64, 64);
#ifdef STEPS
		step8[i] = st[i];
#else
		step8[i] = v_irange(-24, 24);
		V_ASSUME(step8[i] != 0);
#endif
		v_nc.var[0].len[i] = len[i];
#ifdef NOCOORD
		v_nc.var[0].coord[i] = false; first8[i] = 0; step8[i] = 8;
#else
		v_nc.var[0].coord[i] = true;
		v_nc.var[0].first[i] = (double) first8[i] * 0.125;
		v_nc.var[0].last[i] = (double) (first8[i] + step8[i] * ((int) len[i] - 1)) * 0.125;
#endif
	}
	Rec type;
	mpi::MPIComm comm; numa::Numa numa;
	grid::level::PassThrough<Rec> level(comm, numa, type);
	static const int bs[MAX_DIMENSIONS] = {0};
	bool cell = v_nondet_bool();
	asagi::Grid::Error err = level.open("f", "z", bs, -1, 2, -1, cell ? grid::CELL_CENTERED : grid::VERTEX_CENTERED);
	V_ASSERT(err == asagi::Grid::SUCCESS, "the level opens");
	V_ASSERT(level.dimensions() == DIMS, "number of dimensions");
#ifdef RANGE
	for (int i = 0; i < DIMS; i++) {
		int c = DIMS - 1 - i; /* C order */
		double mi = level.min(c), ma = level.max(c), de = level.delta(c);
		if (len[i] == 1) {
			V_ASSERT(mi == -__builtin_inf() && ma == __builtin_inf(), "a dimension of length one has infinite range");
			continue;
		}
		int lo8 = first8[i], hi8 = first8[i] + step8[i] * ((int) len[i] - 1), s8 = step8[i];
		if (lo8 > hi8) { int t = lo8; lo8 = hi8; hi8 = t; s8 = -s8; }
		V_ASSERT(de == (double) s8 * 0.125, "the spacing is the distance of neighbouring points, and positive");
		double wl = (double) lo8 * 0.125, wh = (double) hi8 * 0.125, half = cell ? (double) s8 * 0.0625 : 0;
		/* half a cell, less a margin far below the spacing */
		double el = mi - (wl - half), eh = (wh + half) - ma, tol = cell ? (double) s8 * 0.001 : 0;
		V_ASSERT(el >= 0 && el <= tol, "the minimum is the first point (half a cell below it when cell-centered)");
		V_ASSERT(eh >= 0 && eh <= tol, "the maximum is the last point (half a cell above it when cell-centered)");
		V_ASSERT(mi <= wl && wh <= ma, "every grid point is in the range");
	}
	V_COVER("range");
#else
	double pos[DIMS];
	int want[DIMS], alt[DIMS];
	for (int i = 0; i < DIMS; i++) {
#ifdef ANYBITS
		pos[DIMS - 1 - i] = v_nondet_double();
		want[i] = -1;
#else
		/* k grid points away from the first one and f/8 of the spacing off it */
		int k = v_irange(-3, MAXLEN + 2), f = v_irange(-4, 4);
		pos[DIMS - 1 - i] = (double) (first8[i] * 8 + step8[i] * (k * 8 + f)) * 0.015625;
		int last = (int) len[i] - 1;
		want[i] = len[i] == 1 ? 0 : k < 0 ? 0 : k > last ? last : k;
		/* half way between two points both are nearest */
		int k2 = f == 4 ? k + 1 : f == -4 ? k - 1 : k;
		alt[i] = len[i] == 1 ? 0 : k2 < 0 ? 0 : k2 > last ? last : k2;
#endif
	}
	char buf[1];
	level.getAt(static_cast<void*>(buf), pos);
	V_ASSERT(loaded, "the level asks for a cell");
	for (int i = 0; i < DIMS; i++) {
		V_ASSERT(rec[i] < len[i], "the cell lies inside the variable");
#ifndef ANYBITS
		V_ASSERT(rec[i] == (size_t) want[i] || rec[i] == (size_t) alt[i], "the cell is the one nearest to the coordinate");
#endif
	}
	V_COVER("get");
#endif
}
