/* C13: block sizes from parameters, observed in the blocks a cache level asks for (recording type, no data) */
#define V_NCVAL long
#include "fakeenv.h"
#include "netcdf.h"
v_ncfile v_nc;
#include "io/netcdfreader.cpp"
#include "types/basictype.h"
#include "grid/level/cache.h"
#include "grid/level/full.h"
#ifndef DIMS
#define DIMS 2
#endif
#ifndef MAXLEN
#define MAXLEN 5
#endif
long v_nc_value(int, size_t) { return 0; }
void v_nc_bytes(int, size_t, unsigned char *) {}
static size_t rec[MAX_DIMENSIONS], recSize[MAX_DIMENSIONS], len[DIMS];
static unsigned loads;
static size_t volume;
static bool aligned = true;
struct Rec {
	asagi::Grid::Error check(const io::NetCdfReader&) { return asagi::Grid::SUCCESS; }
	unsigned size() const { return 0; }
	void load(io::NetCdfReader&, const size_t *offset, const size_t *size, void*) const {
		size_t v = 1;
		for (int i = 0; i < DIMS; i++) {
			rec[i] = offset[i]; recSize[i] = size[i];
			if (offset[i] >= len[i]) aligned = false;
			else v *= offset[i] + size[i] > len[i] ? len[i] - offset[i] : size[i];
		}
		volume += v;
		loads++;
	}
	void convert(const void*, void*) const {}
};
template<class X> using Cache1 = grid::level::CacheDefault<X>;
template<class X> using Full1 = grid::level::FullDefault<X>;
#ifndef LEVEL
#define LEVEL Cache1
#define GET
#endif
extern "C" void v_main() {
	v_nc.var[0].name = "z"; v_nc.var[0].ndims = DIMS; v_nc.var[0].varsize = 1; v_nc.var[0].type = NC_BYTE;
	size_t total = 1;
#ifdef LENS
	static const size_t l[] = LENS;
#endif
	int bs[MAX_DIMENSIONS] = {0};
	for (int i = 0; i < DIMS; i++) {
#ifdef LENS
		len[i] = l[i];
#else
		len[i] = v_range(1, MAXLEN);
#endif
		v_nc.var[0].len[i] = len[i];
		total *= len[i];
		bs[i] = v_irange(-2, MAXLEN + 1);
	}
	int time = v_irange(-1, DIMS + 1);
	Rec type;
	mpi::MPIComm comm; numa::Numa numa;
	LEVEL<Rec> level(comm, numa, type);
	V_ASSERT(level.open("f", "z", bs, time, 1, -1, grid::CELL_CENTERED) == asagi::Grid::SUCCESS, "the level opens");
	size_t want[DIMS], nblocks = 1; /* file order */
	for (int i = 0; i < DIMS; i++) {
		int c = DIMS - 1 - i;
		want[i] = bs[c] > 0 ? (size_t) bs[c] : bs[c] < 0 ? len[i] : c == time ? 1 : 64;
		if (want[i] > len[i]) want[i] = len[i];
		nblocks *= (len[i] + want[i] - 1) / want[i];
	}
#ifdef GET
	V_ASSERT(loads == 0, "nothing is loaded at open");
	double pos[DIMS];
	size_t at[DIMS];
	for (int i = 0; i < DIMS; i++) { at[i] = v_range(0, len[i] - 1); pos[DIMS - 1 - i] = (double) (int) at[i]; }
	char buf[1];
	level.getAt(static_cast<void*>(buf), pos);
	V_ASSERT(loads == 1, "one block is loaded");
	for (int i = 0; i < DIMS; i++) {
		V_ASSERT(recSize[i] == want[i], "block size of a dimension");
		V_ASSERT(rec[i] <= at[i] && at[i] < rec[i] + want[i] && rec[i] % want[i] == 0, "the block contains the point and is aligned");
	}
#else
	V_ASSERT(loads == nblocks, "the number of blocks covers the grid");
	V_ASSERT(aligned && volume == total, "the blocks cover the grid without overlap");
	for (int i = 0; i < DIMS; i++) V_ASSERT(recSize[i] == want[i], "block size of a dimension");
#endif
	V_COVER("block sizes");
}
