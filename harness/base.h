/* The library's sources in one unit, on the modelled libraries */
#ifndef BASE_H
#define BASE_H
#include "v.h"
#include <pthread.h>
#include "netcdf.h"
extern "C" void v_fatal() { V_ASSUME(false); }
v_ncfile v_nc;
#include "io/netcdfreader.cpp"
#ifdef USE_PTHREAD
#include "numa/numa.cpp"
#endif
#ifndef ASAGI_NOMPI
#include "mpi/mpicomm.cpp"
#endif
#include "perf/counter.cpp"
#endif
