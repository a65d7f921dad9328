/* C11: opening reports the problem of the file and closes what it opened. KIND 0: basic, 1: array; every kind of file symbolic */
#define V_NCVAL long
#include "fakeenv.h"
#include "netcdf.h"
v_ncfile v_nc;
#include "io/netcdfreader.cpp"
#include "types/basictype.h"
#include "types/arraytype.h"
#include "grid/simplecontainer.h"
#include "grid/level/full.h"
#include "grid/level/cache.h"
#include "grid/level/passthrough.h"
#ifndef KIND
#define KIND 0
#endif
#ifndef ELT
#define ELT int
#endif
#ifndef LEVEL
#define LEVEL FullDefault
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
#ifndef OPENS
#define OPENS 2
#endif
long v_nc_value(int, size_t pos) { return pos; }
void v_nc_bytes(int, size_t, unsigned char *to) { for (size_t i = 0; i < v_nc.var[0].varsize; i++) to[i] = 0; }
#if KIND == 0
typedef types::BasicType<ELT> Base;
#else
typedef types::ArrayType<ELT> Base;
#endif
/* the contents of the file are another matter (C06) */
struct Type : Base { void load(io::NetCdfReader &file, const size_t*, const size_t*, void*) const {} };
static const int bs[] = {2, 2, 2, 2};
static unsigned long size = 0; /* of the values, once it is known */
static grid::Container *c;
static Type *type;
enum { NOFILE, NOVAR, NODIM, MANY, ONE, TWO, KINDS };
static void finish() {
	delete c;
	delete type;
	V_ASSERT(v_nc.opens == v_nc.closes, "every file is closed once");
	V_COVER("opened files");
}
/* the kind of the file is constant on each path */
template<int O> struct Open {
	static void go(const int kind) {
#ifdef SAMELEVEL
		const unsigned level = 0;
#else
		const unsigned level = O;
#endif
		v_nc.open_fails = kind == NOFILE;
		v_nc.var[0].name = kind == NOVAR ? "y" : "z";
		v_nc.var[0].ndims = kind == NODIM ? 0 : kind == MANY ? MAX_DIMENSIONS + 1 : kind == TWO ? 2 : 1;
		bool empty = false;
		for (int i = 0; i < V_NCDIMS; i++) {
			v_nc.var[0].len[i] = MINLEN == 2 ? 2 : v_range(MINLEN, 2);
			if (i < v_nc.var[0].ndims && v_nc.var[0].len[i] == 0) empty = true;
			v_nc.var[0].coord[i] = v_nondet_bool(); v_nc.var[0].first[i] = 1; v_nc.var[0].last[i] = 2;
		}
		if (!KIND) { open(kind, level, empty, sizeof(ELT)); return; }
#ifdef SIZES
		static const unsigned sizes[] = SIZES; /* the size is constant on each path */
		const unsigned last = sizeof(sizes) / sizeof(*sizes) - 1;
		for (unsigned i = 0; i <= last; i++) if (i == last || v_nondet_bool()) { open(kind, level, empty, sizes[i]); return; }
#else
		open(kind, level, empty, v_range(1, 2 * sizeof(ELT)));
#endif
	}
	static void open(const int kind, const unsigned level, bool empty, const unsigned vs) {
		v_nc.var[0].varsize = vs;
		asagi::Grid::Error e = c->init("f", "z", bs, 1, -1, level);
		if (kind == NOFILE) V_ASSERT(e == asagi::Grid::NOT_OPEN, "a file that cannot be opened is reported");
		else if (kind == NOVAR) V_ASSERT(e == asagi::Grid::VAR_NOT_FOUND, "a missing variable is reported");
		else if (kind == NODIM || kind == MANY) V_ASSERT(e == asagi::Grid::UNSUPPORTED_DIMENSIONS, "an unsupported number of dimensions is reported");
		else if (empty) V_ASSERT(e == asagi::Grid::WRONG_SIZE, "a dimension without values is reported");
		else if (vs % sizeof(ELT)) V_ASSERT(e == asagi::Grid::INVALID_VAR_SIZE, "a value that is no array of the element type is reported");
		else if (KIND && size && vs != size) V_ASSERT(e == asagi::Grid::WRONG_SIZE, "a value of another size than that of the other levels is reported");
		else {
			V_ASSERT(e == asagi::Grid::SUCCESS, "a matching file is opened");
			size = vs;
			if (level == 0) V_ASSERT(c->getDimensions() == (unsigned) v_nc.var[0].ndims, "number of dimensions");
		}
#ifdef SAMELEVEL
		if (e == asagi::Grid::SUCCESS) { finish(); return; } /* a level is opened once */
#endif
		Open<O + 1>::all();
	}
	static void all() {
		static const int kinds[][6] = KINDLIST;
		for (int i = 0; i < 6; i++) if (kinds[O][i] >= 0 && (i == 5 || kinds[O][i + 1] < 0 || v_nondet_bool())) { go(kinds[O][i]); return; }
	}
};
template<> struct Open<OPENS> { static void all() { finish(); } };
extern "C" void v_main() {
	mpi::MPIComm *comm = new mpi::MPIComm; numa::Numa *numa = new numa::Numa;
	type = new Type;
	c = new grid::SimpleContainer<grid::level::LEVEL<Type>, Type>(*comm, *numa, *type, -1, grid::CELL_CENTERED);
	v_nc.var[0].type = KIND ? NC_USER : NC_INT;
	Open<0>::all();
}
