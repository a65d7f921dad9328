/* C10/C11: the MPI data types of array and struct grids. KIND 0 basic, 1 array, 2 struct; declarations, sizes and failing calls symbolic */
#define V_RANKS 1
#include "mpi.h"
#include <cassert>
#define IO_NETCDFREADER_H
#include <stddef.h>
namespace io {
struct NetCdfReader { unsigned varsize; unsigned getVarSize() const { return varsize; } template<class X> void getBlock(void*, const size_t*, const size_t*) {} };
}
extern "C" void v_fatal() { V_ASSUME(false); }
extern "C" void v_warned() {}
#include "asagi.h"
#include "mpi/mpicomm.cpp"
#include "types/basictype.h"
#include "types/arraytype.h"
#include "types/structtype.cpp"
#ifndef KIND
#define KIND 2
#endif
#ifndef ELT
#define ELT int
#endif
#ifndef MEMBERS
#define MEMBERS 2
#endif
#ifndef CHECKS
#define CHECKS 2
#endif
static unsigned sizeOf(asagi::Grid::Type t) { return t == asagi::Grid::BYTE ? 1 : t == asagi::Grid::INT || t == asagi::Grid::FLOAT ? 4 : 8; }
static MPI_Datatype mpiOf(asagi::Grid::Type t) { switch (t) { case asagi::Grid::BYTE: return MPI_BYTE; case asagi::Grid::INT: return MPI_INT; case asagi::Grid::LONG: return MPI_LONG; case asagi::Grid::FLOAT: return MPI_FLOAT; default: return MPI_DOUBLE; } }
static asagi::Grid::Error check(types::Type *t, unsigned size) {
	io::NetCdfReader file = {size};
#if KIND == 1
	return static_cast<types::ArrayType<ELT>*>(t)->check(file);
#elif KIND == 2
	return static_cast<types::StructType<ELT>*>(t)->check(file);
#else
	return static_cast<types::BasicType<ELT>*>(t)->check(file);
#endif
}
extern "C" void v_main() {
	v_comms_init();
	types::Type *type;
#if KIND == 2
	const unsigned n = MEMBERS; unsigned len[MEMBERS]; unsigned long displ[MEMBERS]; asagi::Grid::Type tt[MEMBERS];
	unsigned end = 0;
	for (unsigned i = 0; i < n; i++) {
		int t = i ? v_irange(0, 4) : (ELT) 0.5 != 0 ? (sizeof(ELT) == 4 ? 3 : 4) : sizeof(ELT) == 1 ? 0 : sizeof(ELT) == 4 ? 1 : 2;
		tt[i] = t == 0 ? asagi::Grid::BYTE : t == 1 ? asagi::Grid::INT : t == 2 ? asagi::Grid::LONG : t == 3 ? asagi::Grid::FLOAT : asagi::Grid::DOUBLE;
		len[i] = v_range(1, 3); displ[i] = i ? end + v_range(0, 7) : 0; end = displ[i] + len[i] * sizeOf(tt[i]);
	}
	type = types::createStruct(n, len, displ, tt);
	unsigned len0[MEMBERS]; unsigned long displ0[MEMBERS]; asagi::Grid::Type tt0[MEMBERS];
	for (unsigned i = 0; i < n; i++) { len0[i] = len[i]; displ0[i] = displ[i]; tt0[i] = tt[i]; len[i] = 99; displ[i] = 99; } /* the caller's arrays may change */
	unsigned size = end + v_range(0, 8);
#elif KIND == 1
	type = new types::ArrayType<ELT>;
	const unsigned elems = v_range(1, 5), size = elems * sizeof(ELT);
#else
	type = new types::BasicType<ELT>;
	const unsigned size = sizeof(ELT);
#endif
	bool opened = false;
	for (int c = 0; c < CHECKS; c++) {
		unsigned s = size;
		const bool other = KIND && v_nondet_bool();
		if (other) s += KIND == 1 ? sizeof(ELT) * v_range(1, 2) : v_range(1, 3);
#if KIND == 1
		const bool odd = v_nondet_bool();
		if (odd) s += v_range(1, 3);
#endif
		const bool before = opened;
#ifdef V_MPI_FAULTS
		const unsigned f = v_mpi_failed;
#else
		const unsigned f = 0, v_mpi_failed = 0;
#endif
		if (!before && other) continue; /* the first file defines the size */
		asagi::Grid::Error e = check(type, s);
		if (v_mpi_failed != f) { V_ASSERT(e == asagi::Grid::MPI_ERROR, "a failing MPI call is reported"); break; }
#if KIND == 1
		if (sizeof(ELT) > 1 && s % sizeof(ELT)) { V_ASSERT(e == asagi::Grid::INVALID_VAR_SIZE, "the value is no array of the element type"); continue; }
		if (s != size && !before) { V_ASSUME(false); }
#endif
		if (KIND && before && s != size) { V_ASSERT(e == asagi::Grid::WRONG_SIZE, "all levels have values of one size"); continue; }
		V_ASSERT(e == asagi::Grid::SUCCESS, "a value of the right size is accepted");
		opened = true;
		V_ASSERT(type->size() == size, "the reported value size is that of the file");
		MPI_Datatype m = type->getMPIType();
#if KIND == 0
		V_ASSERT(m == (sizeof(ELT) == 1 ? MPI_BYTE : (ELT) 0.5 != 0 ? (sizeof(ELT) == 4 ? MPI_FLOAT : MPI_DOUBLE) : sizeof(ELT) == 4 ? MPI_INT : MPI_LONG), "the MPI type of the values");
#else
		V_ASSERT(m >= V_MPI_FIRST_DERIVED && m < V_MPI_FIRST_DERIVED + v_ntypes, "an MPI type was created"); V_ASSUME(m >= V_MPI_FIRST_DERIVED && m < V_MPI_FIRST_DERIVED + V_TYPES);
		const v_type &x = v_types[m - V_MPI_FIRST_DERIVED];
		V_ASSERT(x.live && x.committed, "the MPI type can be used");
		V_ASSERT(x.extent == size, "consecutive values are as far apart in messages as in memory");
#endif
#if KIND == 1
		V_ASSERT(x.size == size, "all elements of the array are transferred");
#elif KIND == 2
		V_ASSERT(x.n == (int) n, "all members of the struct are transferred");
		for (unsigned i = 0; i < n; i++) V_ASSERT(x.displ[i] == (MPI_Aint) displ0[i] && x.len[i] == (int) len0[i] && x.member[i] == mpiOf(tt0[i]), "every member is transferred from its displacement");
#endif
	}
	delete type;
#ifndef V_MPI_FAULTS
	for (int i = 0; i < V_TYPES; i++) V_ASSERT(!v_types[i].live, "every MPI type is freed");
#endif
	V_COVER("checked the type");
}
