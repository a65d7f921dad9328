/* C18: the C and Fortran functions do what the method of the grid does. A grid that records what it is asked for stands in for the
 * real one; the C and Fortran interface is the real code. */
#ifndef ASAGI_NOMPI
#include "mpi.h"
#endif
#include "v.h"
#include <mutex>
#include <cstdint>
extern "C" void v_fatal() { V_ASSUME(false); }
extern "C" void v_warned() {}
#define GRID_GRID_H
#include "asagi.h"
#ifndef ASAGI_NOMPI
#include "mpi/mpicomm.cpp"
#define MPI_COMMTHREAD_H
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*) { return 0; }
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm) { return 0; }
int MPI_Get_processor_name(char*, int*) { return 0; }
#endif
/* the numbers of types and errors in the C and the Fortran interface, taken from the headers */
static const int ctypes[] = C_TYPES, ftypes[] = F_TYPES, cerrors[] = C_ERRORS, ferrors[] = F_ERRORS;
using asagi::Grid;
static const Grid::Type types_[] = {Grid::BYTE, Grid::INT, Grid::LONG, Grid::FLOAT, Grid::DOUBLE};
static const Grid::Error errors_[] = {Grid::SUCCESS, Grid::MPI_ERROR, Grid::THREAD_ERROR, Grid::NUMA_ERROR, Grid::UNKNOWN_PARAM, Grid::INVALID_VALUE, Grid::NOT_INITIALIZED, Grid::ALREADY_INITIALIZED, Grid::NOT_OPEN, Grid::VAR_NOT_FOUND, Grid::WRONG_SIZE, Grid::UNSUPPORTED_DIMENSIONS, Grid::INVALID_VAR_SIZE};
#ifndef OPLO
#define OPLO SETCOMM
#define OPHI RANK
#endif
enum Op { NONE, SETCOMM, SETTHREADS, SETPARAM, OPEN, DIMENSIONS, MIN, MAX, DELTA, VARSIZE, O_BYTE, O_INT, O_LONG, O_FLOAT, O_DOUBLE, BUF, DELETED, CREATED, CREATED_ARRAY, CREATED_STRUCT, START, STOP, RANK };
struct Rec { int op; const void *self; unsigned level, n; const void *a, *b, *c; long v; } r; static unsigned r_calls;
static unsigned char o_byte; static int o_int; static long o_long; static float o_float; static double o_double; static unsigned o_unsigned; static Grid::Error o_error;
static void rec(int op, const void *self, unsigned level = 0, unsigned n = 0, const void *a = 0, const void *b = 0, const void *c = 0, long v = 0) { r_calls++; r.op = op; r.self = self; r.level = level; r.n = n; r.a = a; r.b = b; r.c = c; r.v = v; }
namespace grid { struct Grid : asagi::Grid {
	int id;
	Grid(Type t, bool arr = false) : id(-1) { take(arr ? CREATED_ARRAY : CREATED, 0, 0, 0, 0, t); }
	Grid(unsigned n, unsigned *l, unsigned long *d, Type *t) : id(-1) { take(CREATED_STRUCT, n, l, d, t, 0); }
	void take(int op, unsigned n, const void *a, const void *b, const void *c, long v);
	~Grid();
#ifndef ASAGI_NOMPI
	Error setComm(MPI_Comm c) { rec(SETCOMM, this, 0, 0, 0, 0, 0, c); return o_error; }
#endif
	Error setThreads(unsigned t) { rec(SETTHREADS, this, 0, t); return o_error; } void setParam(const char *k, const char *v, unsigned l) { rec(SETPARAM, this, l, 0, k, v); }
	Error open(const char *f, unsigned l) { rec(OPEN, this, l, 0, f); return o_error; } unsigned getDimensions() const { rec(DIMENSIONS, this); return o_unsigned; }
	double getMin(unsigned n) const { rec(MIN, this, 0, n); return o_double; } double getMax(unsigned n) const { rec(MAX, this, 0, n); return o_double; } double getDelta(unsigned n, unsigned l) const { rec(DELTA, this, l, n); return o_double; }
	unsigned getVarSize() const { rec(VARSIZE, this); return o_unsigned; }
	unsigned char getByte(const double *p, unsigned l) { rec(O_BYTE, this, l, 0, p); return o_byte; } int getInt(const double *p, unsigned l) { rec(O_INT, this, l, 0, p); return o_int; } long getLong(const double *p, unsigned l) { rec(O_LONG, this, l, 0, p); return o_long; }
	float getFloat(const double *p, unsigned l) { rec(O_FLOAT, this, l, 0, p); return o_float; } double getDouble(const double *p, unsigned l) { rec(O_DOUBLE, this, l, 0, p); return o_double; } void getBuf(void *b, const double *p, unsigned l) { rec(BUF, this, l, 0, p, b); }
	unsigned long getCounter(const char*, unsigned) { return 0; }
	int c2f() const { return id; }
	static Grid *f2c(int i);
}; }
static grid::Grid *all[3]; static bool dead[3];
void grid::Grid::take(int op, unsigned n, const void *a, const void *b, const void *c, long v) { for (int i = 0; i < 3; i++) if (!all[i]) { all[i] = this; id = i; break; } rec(op, this, 0, n, a, b, c, v); }
grid::Grid::~Grid() { rec(DELETED, this); for (int i = 0; i < 3; i++) if (all[i] == this) dead[i] = true; }
grid::Grid *grid::Grid::f2c(int i) { V_ASSERT(i >= 0 && i < 3 && all[i] && !dead[i], "an existing grid is used"); V_ASSUME(i >= 0 && i < 3); return all[i]; }
#ifndef ASAGI_NOMPI
namespace mpi { struct CommThread { asagi::Grid::Error init(int cpu, MPI_Comm c) { rec(START, 0, 0, cpu, 0, 0, 0, c); return o_error; } void finialize() { rec(STOP, 0); } static CommThread commThread; }; CommThread CommThread::commThread; }
#endif
#include "asagi.cpp"
#include "asagi_f90.h"
#include "asagi_f90.cpp"
#define SAME(a, b) V_ASSERT((a) == (b), "the result is the one of the method")
static bool same(double a, double b) { return __builtin_memcmp(&a, &b, 8) == 0; }
static bool same(float a, float b) { return __builtin_memcmp(&a, &b, 4) == 0; }
static void is(int op, const grid::Grid *g, unsigned level = 0, unsigned n = 0, const void *a = 0, const void *b = 0, const void *c = 0, long v = 0) {
	V_ASSERT(r_calls == 1 && r.op == op, "one call of the method the function stands for");
	V_ASSERT(r.self == g, "the method of this grid is called");
	V_ASSERT(r.level == level, "the level is passed on"); V_ASSERT(r.n == n, "the number is passed on"); V_ASSERT(r.a == a && r.b == b && r.c == c && r.v == v, "the other arguments are passed on");
}
extern "C" void v_main() {
	for (int i = 0; i < 5; i++) { V_ASSERT(ctypes[i] == types_[i], "types have one number in C and C++"); V_ASSERT(ftypes[i] == types_[i], "types have one number in Fortran and C++"); }
	for (int i = 0; i < 13; i++) { V_ASSERT(cerrors[i] == errors_[i], "errors have one number in C and C++"); V_ASSERT(ferrors[i] == errors_[i], "errors have one number in Fortran and C++"); V_ASSERT(errors_[i] != Grid::SUCCESS || i == 0, "errors differ from success"); }
	const bool f = v_nondet_bool(); /* Fortran */
	o_byte = v_nondet_u8(); o_int = (int) v_nondet_u32(); o_long = (long) v_nondet_u64(); o_float = v_nondet_float(); o_double = v_nondet_double(); o_unsigned = v_range(0, 0x7fffffff);
	{ unsigned e = v_range(0, 12); o_error = Grid::SUCCESS; for (unsigned i = 0; i < 13; i++) if (i == e) o_error = errors_[i]; }
	unsigned t = v_range(0, 4); Grid::Type type = Grid::FLOAT; for (unsigned i = 0; i < 5; i++) if (i == t) type = types_[i];
	const unsigned level = v_range(0, 0x7fffffff), n = v_range(0, 0x7fffffff);
	static double pos[4]; static char text[2][4], buf[8]; static unsigned len[2]; static unsigned long displ[2]; static Grid::Type ts[2];
	const int comm = 1 + v_range(0, 3), cpu = (int) v_nondet_u32(), how = v_range(0, 2), op = v_range(OPLO, OPHI);
	/* another grid exists, before or after this one */
	const bool before = v_nondet_bool();
	if (before) grid::Grid::create();
	r_calls = 0;
	grid::Grid *g; int id;
	if (f) { id = how == 0 ? f90asagi_grid_create(type) : how == 1 ? f90asagi_grid_create_array(type) : f90asagi_grid_create_struct(n, (int*) len, (long*) displ, ts); g = id >= 0 && id < 3 ? all[id] : 0; }
	else { g = static_cast<grid::Grid*>(how == 0 ? asagi_grid_create(type) : how == 1 ? asagi_grid_create_array(type) : asagi_grid_create_struct(n, len, displ, ts)); id = g->id; }
	V_ASSERT(id == before, "the grid that is created is returned"); V_ASSUME(id == before);
	if (how == 2) is(CREATED_STRUCT, g, 0, n, len, displ, ts); else is(how ? CREATED_ARRAY : CREATED, g, 0, 0, 0, 0, 0, type);
	if (!before) grid::Grid::create();
	r_calls = 0;
	switch (op) {
#ifndef ASAGI_NOMPI
	case SETCOMM: if (f) f90asagi_grid_set_comm(id, MPI_Comm_c2f(comm)); else asagi_grid_set_comm(g, comm); is(op, g, 0, 0, 0, 0, 0, comm); break;
	case START: SAME((f ? f90asagi_start_comm_thread(cpu, MPI_Comm_c2f(comm)) : asagi_start_comm_thread(cpu, comm)), o_error); is(op, 0, 0, cpu, 0, 0, 0, comm); break;
	case STOP: f ? f90asagi_stop_comm_thread() : asagi_stop_comm_thread(); is(op, 0); break;
#else
	/* no operations in the Fortran interface */
	case SETCOMM: if (f) { f90asagi_grid_set_comm(id, comm); V_ASSERT(r_calls == 0, "nothing happens without MPI"); } break;
	case START: if (f) { SAME(f90asagi_start_comm_thread(cpu, comm), Grid::SUCCESS); V_ASSERT(r_calls == 0, "nothing happens without MPI"); } break;
	case STOP: if (f) { f90asagi_stop_comm_thread(); V_ASSERT(r_calls == 0, "nothing happens without MPI"); } break;
	case RANK: if (f) SAME(f90asagi_node_local_rank(comm), 0); break;
#endif
	case SETTHREADS: f ? f90asagi_grid_set_threads(id, n) : asagi_grid_set_threads(g, n); is(op, g, 0, n); break;
	case SETPARAM: f ? f90asagi_grid_set_param(id, text[0], text[1], level) : asagi_grid_set_param(g, text[0], text[1], level); is(op, g, level, 0, text[0], text[1]); break;
	case OPEN: SAME((f ? f90asagi_grid_open(id, text[0], level) : asagi_grid_open(g, text[0], level)), o_error); is(op, g, level, 0, text[0]); break;
	case DIMENSIONS: SAME((f ? (unsigned) f90asagi_grid_dimensions(id) : asagi_grid_dimensions(g)), o_unsigned); is(op, g); break;
	case MIN: V_ASSERT(same(f ? f90asagi_grid_min(id, n) : asagi_grid_min(g, n), o_double), "the result is the one of the method"); is(op, g, 0, n); break;
	case MAX: V_ASSERT(same(f ? f90asagi_grid_max(id, n) : asagi_grid_max(g, n), o_double), "the result is the one of the method"); is(op, g, 0, n); break;
	case DELTA: V_ASSERT(same(f ? f90asagi_grid_delta(id, n, level) : asagi_grid_delta(g, n, level), o_double), "the result is the one of the method"); is(op, g, level, n); break;
	case VARSIZE: SAME((f ? (unsigned) f90asagi_grid_var_size(id) : asagi_grid_var_size(g)), o_unsigned); is(op, g); break;
	case O_BYTE: SAME((f ? f90asagi_grid_get_byte(id, pos, level) : asagi_grid_get_byte(g, pos, level)), o_byte); is(op, g, level, 0, pos); break;
	case O_INT: SAME((f ? f90asagi_grid_get_int(id, pos, level) : asagi_grid_get_int(g, pos, level)), o_int); is(op, g, level, 0, pos); break;
	case O_LONG: SAME((f ? f90asagi_grid_get_long(id, pos, level) : asagi_grid_get_long(g, pos, level)), o_long); is(op, g, level, 0, pos); break;
	case O_FLOAT: V_ASSERT(same(f ? f90asagi_grid_get_float(id, pos, level) : asagi_grid_get_float(g, pos, level), o_float), "the result is the one of the method"); is(op, g, level, 0, pos); break;
	case O_DOUBLE: V_ASSERT(same(f ? f90asagi_grid_get_double(id, pos, level) : asagi_grid_get_double(g, pos, level), o_double), "the result is the one of the method"); is(op, g, level, 0, pos); break;
	case BUF: f ? f90asagi_grid_get_buf(id, buf, pos, level) : asagi_grid_get_buf(g, buf, pos, level); is(op, g, level, 0, pos, buf); break;
	case DELETED: f ? f90asagi_grid_close(id) : how == 0 ? asagi_grid_close(g) : Grid::close(g); is(op, g); V_ASSERT(dead[id] && !dead[1 - id], "this grid is closed"); break;
	}
	if (f) V_COVER("Fortran function"); else V_COVER("C function");
}
