/* C06: loading a block, for every block of the grid and every cell of the block; KIND 0: basic, 1: array, 2: struct */
#define V_NCVAL long
#include "fakeenv.h"
#include "netcdf.h"
v_ncfile v_nc;
#include "io/netcdfreader.cpp"
#include "types/basictype.h"
#include "types/arraytype.h"
#include "types/structtype.cpp"
#ifndef ELT
#define ELT unsigned char
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef CELL
#define CELL sizeof(ELT) /* bytes of one value */
#endif
static long base;
long v_nc_value(int, size_t pos) { return base + (long) pos; }
static unsigned char byteOf(size_t pos, size_t b) { return (unsigned char) (base + pos * CELL + b); }
void v_nc_bytes(int, size_t pos, unsigned char *to) { for (size_t b = 0; b < CELL; b++) to[b] = byteOf(pos, b); }
extern "C" void v_main() {
	static const size_t lens[] = LENS, bs[] = BS;
	v_nc.var[0].name = "z"; v_nc.var[0].ndims = DIMS; v_nc.var[0].varsize = CELL; v_nc.var[0].type = KIND ? NC_USER : NC_INT;
	size_t cells = 1;
	for (int i = 0; i < DIMS; i++) { v_nc.var[0].len[i] = lens[i]; cells *= bs[i]; }
	base = v_irange(0, 100);
	io::NetCdfReader file("f", 0);
	V_ASSERT(file.open("z") == asagi::Grid::SUCCESS, "the file opens");
#if KIND == 0
	types::BasicType<ELT> type;
#elif KIND == 1
	types::ArrayType<ELT> type;
#else
	unsigned blockLength[2] = {1, 1}; unsigned long displ[2] = {0, 1}; asagi::Grid::Type tt[2] = {asagi::Grid::BYTE, asagi::Grid::BYTE};
	types::StructType<unsigned char> &type = *static_cast<types::StructType<unsigned char>*>(types::createStruct(2, blockLength, displ, tt));
#endif
	V_ASSERT(type.check(file) == asagi::Grid::SUCCESS, "the type fits the variable");
	V_ASSERT(type.size() == CELL, "size of one value");
	unsigned char *buf = static_cast<unsigned char*>(malloc(cells * CELL));
	size_t off[DIMS], k[DIMS];
	size_t inblock = 0, linear = 0;
	bool exists = true;
	for (int i = 0; i < DIMS; i++) {
#ifdef OFF
		static const size_t fixed[] = OFF;
		off[i] = fixed[i];
#else
		off[i] = v_range(0, (lens[i] - 1) / bs[i]) * bs[i];
#endif
		k[i] = v_range(0, bs[i] - 1);
		if (off[i] + k[i] >= lens[i]) exists = false;
		inblock = inblock * bs[i] + k[i];
		linear = linear * lens[i] + off[i] + k[i];
	}
	V_ASSUME(exists);
	type.load(file, off, bs, buf);
#if KIND == 0
	ELT got; memcpy(&got, buf + inblock * sizeof(ELT), sizeof(ELT));
	V_ASSERT(got == (ELT) (base + (long) linear), "a loaded cell has the value of the file");
#else
	size_t b = v_range(0, CELL - 1);
	V_ASSERT(buf[inblock * CELL + b] == byteOf(linear, b), "a loaded cell has the bytes of the file");
#endif
	V_COVER("loaded a block");
}
