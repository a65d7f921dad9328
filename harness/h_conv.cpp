/* C10: what the typed and the generic get functions return, for every bit pattern of the stored value.
 * KIND 0: basic, 1: array, 2: struct; element type ELT. Real container, level and types on a file with two grid points. */
#define V_NCVAL ELT
#ifndef ELT
#define ELT int
#endif
#include "fakeenv.h"
#include "netcdf.h"
v_ncfile v_nc;
#include "io/netcdfreader.cpp"
#include "types/basictype.h"
#include "types/arraytype.h"
#include "types/structtype.cpp"
#include "grid/simplecontainer.h"
#include "grid/level/full.h"
#include "grid/level/cache.h"
#include "grid/level/passthrough.h"
#ifndef AT
#define AT 1
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef LEVEL
#define LEVEL FullDefault
#endif
#ifndef N
#define N 2 /* elements of an array */
#endif
#define CELL (KIND == 0 ? sizeof(ELT) : KIND == 1 ? N * sizeof(ELT) : sizeof(S))
struct S { ELT a; unsigned char b, c; };
static union { unsigned char b[2][sizeof(S) > N * sizeof(ELT) ? sizeof(S) : N * sizeof(ELT)]; ELT t; } file;
static ELT vals[2];
ELT v_nc_value(int, size_t pos) { return pos ? vals[1] : vals[0]; }
void v_nc_bytes(int, size_t pos, unsigned char *to) { for (size_t i = 0; i < CELL; i++) to[i] = pos ? file.b[1][i] : file.b[0][i]; }
#if KIND == 0
typedef types::BasicType<ELT> Type;
#elif KIND == 1
typedef types::ArrayType<ELT> Type;
#else
typedef types::StructType<ELT> Type;
#endif
template<class X> bool same(X a, X b) { return a == b || (a != a && b != b); }
template<class To> bool fits(ELT v) {
	const bool tofloat = (To) 0.5 != 0, fromfloat = (ELT) 0.5 != 0;
	if (tofloat || !fromfloat) return true;
	/* the conversion has a value */
	if (sizeof(To) == 1) return v > -1 && v < 256;
	if (sizeof(To) == 4) return v > -2147483648. && v < 2147483648.;
	return v > -9223372036854775808. && v < 9223372036854775808.;
}
static void fill(ELT &v) {
	unsigned char *p = (unsigned char*) &v;
	if (sizeof(ELT) == 8) { union { unsigned long u; ELT t; } x; x.u = v_nondet_u64(); v = x.t; }
	else if (sizeof(ELT) == 4) { union { unsigned u; ELT t; } x; x.u = v_nondet_u32(); v = x.t; }
	else *p = v_nondet_u8();
}
#define CHECK(NAME, X) if (what == k++) { V_ASSUME(fits<X>(v)); X r; c->get##NAME(&r, &pos, 0); V_ASSERT(same<X>(r, (X) v), "get" #NAME " returns the stored value converted as in C"); }
extern "C" void v_main() {
	v_nc.var[0].name = "z"; v_nc.var[0].ndims = 1; v_nc.var[0].len[0] = 2; v_nc.var[0].varsize = CELL; v_nc.var[0].type = KIND ? NC_USER : NC_INT;
	for (int i = 0; i < 2; i++) {
		fill(vals[i]);
		if (KIND) {
			for (size_t k = 0; k < CELL; k++) file.b[i][k] = k < sizeof(ELT) ? ((unsigned char*) &vals[i])[k] : (unsigned char) (k * 3 + i * 7);
		}
	}
	static const int bs[4] = {2, 0, 0, 0};
	mpi::MPIComm *comm = new mpi::MPIComm; numa::Numa *numa = new numa::Numa;
#if KIND == 2
	unsigned blockLength[2] = {1, 2}; unsigned long displ[2] = {0, sizeof(ELT)};
	const asagi::Grid::Type tt = (ELT) 0.5 != 0 ? (sizeof(ELT) == 4 ? asagi::Grid::FLOAT : asagi::Grid::DOUBLE) : sizeof(ELT) == 1 ? asagi::Grid::BYTE : sizeof(ELT) == 4 ? asagi::Grid::INT : asagi::Grid::LONG;
	asagi::Grid::Type types[2] = {tt, asagi::Grid::BYTE};
	types::Type *made = types::createStruct(2, blockLength, displ, types);
	Type *type = dynamic_cast<Type*>(made);
	V_ASSERT(type != 0, "a struct has the element type of its first member");
	V_ASSUME(type != 0);
#else
	Type *type = new Type;
#endif
	grid::Container *c = new grid::SimpleContainer<grid::level::LEVEL<Type>, Type>(*comm, *numa, *type, -1, grid::CELL_CENTERED);
	V_ASSERT(c->init("f", "z", bs, 1, -1, 0) == asagi::Grid::SUCCESS, "the grid opens");
	V_ASSERT(type->size() == CELL, "the reported value size is that of the file");
	const unsigned at = AT;
	const double pos = at;
	ELT v = at ? vals[1] : vals[0];
	const int what = v_irange(0, 5);
	int k = 0;
	CHECK(Byte, unsigned char)
	CHECK(Int, int)
	CHECK(Long, long)
	CHECK(Float, float)
	CHECK(Double, double)
	if (what == k) {
		unsigned char *buf = (unsigned char*) malloc(CELL + 1);
		buf[CELL] = 0x5a;
		c->getBuf(buf, &pos, 0);
		V_ASSERT(buf[CELL] == 0x5a, "not more than the value size is written");
		size_t b = v_range(0, CELL - 1);
		unsigned char want = KIND ? (at ? file.b[1][b] : file.b[0][b]) : ((unsigned char*) &v)[b];
		V_ASSERT(buf[b] == want, "all bytes of the value are copied");
	}
	V_COVER("read a value");
}
