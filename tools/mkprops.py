#!/usr/bin/env python3
"""Writes properties.jsonl (the readable source of it)"""
import json, os
P = []


def p(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': tests,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'hook_needed': hook}})


NOT = 'No existing test instantiates this code: the unit tests cover only the cache list, the cache manager, Once, Sync and the NUMA communicator, each with a few fixed calls.'

p('C01', 'A full grid returns the file value of every grid point',
  'With grid type FULL on one process, a get at the coordinates of any grid point returns exactly the value the netCDF variable stores at that point (coordinates in C order, file dimensions reversed), for every number of dimensions, every dimension length and every block size. Reading never changes what later reads return, and the file is not accessed after open.',
  ['inputs', 'configurations', 'histories'], 'all grid extents, block sizes, dimension counts, grid points and value types',
  NOT, ['grid/level/full.h', 'grid/level/blocked.h', 'grid/level/level.h', 'io/netcdfreader.h', 'transfer/numano.h', 'transfer/mpino.h'],
  [('block wise load at open', 'grid/level/full.h'), ('block id and offset arithmetic', 'grid/level/blocked.h'), ('hyperslab with memory map', 'io/netcdfreader.h')],
  observe=['Grid::get*'])
p('C02', 'A cache grid returns the file value under every access history',
  'With grid type CACHE on one process, every get returns exactly the value the netCDF variable stores at the addressed grid point, whatever sequence of accesses preceded it and whatever the cache size, hand spread and block size (including blocks cut off at the end of a dimension). A block that was read most recently is served again without reading the file, and a cache holding the whole grid reads each block at most once.',
  ['inputs', 'configurations', 'histories'], 'all access sequences, cache sizes, hand spreads, block sizes and extents',
  NOT + ' Value correctness of a cache depends on the whole access history.', ['grid/level/cache.h', 'cache/cachemanager.h', 'cache/lru.h', 'cache/cachelist.h', 'grid/level/blocked.h'],
  [('cache manager get/unlock', 'cache/cachemanager.h'), ('lookup, load, copy out', 'grid/level/cache.h')], observe=['Grid::get*', 'netCDF reads'])
p('C03', 'A pass-through grid reads exactly the addressed element',
  'With grid type PASS-THROUGH every get returns the value currently stored in the file at the addressed grid point, reading only elements inside the variable, for every dimension count, extent and access history; one file load is counted per access.',
  ['inputs', 'histories'], 'all extents, grid points and histories', NOT, ['grid/level/passthrough.h', 'io/netcdfreader.h'],
  [('single element hyperslab', 'grid/level/passthrough.h')], observe=['Grid::get*'])
p('C04', 'Coordinates map to the nearest grid point and never leave the grid',
  'A coordinate is mapped to the nearest grid point of its dimension (coordinate variable offset and spacing, also negative spacing; C order of the coordinates, reversed file order), dimensions of length one accept any coordinate, and coordinates outside the range are clamped to the nearest end. For every bit pattern of the coordinates, NaN and infinities included, the resulting index lies inside the variable.',
  ['inputs', 'configurations'], 'all double coordinates, offsets, spacings and extents', NOT, ['grid/level/level.h', 'io/netcdfreader.h', 'io/netcdfreader.cpp'],
  [('pos2index', 'grid/level/level.h'), ('getOffset/getScaling from the coordinate variable', 'io/netcdfreader.cpp')], observe=['Grid::get*'])
p('C05', 'Blocks partition the grid: every cell has one block, one offset, one owner',
  'For every grid extent, block size, process count and NUMA domain count, each grid point lies at a unique offset inside a unique block, the block position inverts the block lookup, and each block is owned by exactly one (process, NUMA domain, slot) triple with valid process, domain and slot. The owner\'s enumeration of its local blocks lists exactly the blocks assigned to it.',
  ['inputs', 'configurations'], 'all extents, block sizes, process and domain counts, both distribution schemes', NOT, ['grid/level/blocked.h'],
  [('blockByCoords/calcOffsetInBlock/calcBlockPosition', 'grid/level/blocked.h'), ('blockRank/blockDomain/blockOffset/local2global', 'grid/level/blocked.h')],
  observe=['Grid::get* on distributed grids'])
p('C06', 'Loading a block copies exactly its cells, also at the edge of the grid',
  'Loading a block from the file puts each existing cell of the block at its position in the (fixed size) block buffer, for primitive, array and struct variables, writes nothing outside the buffer, and never requests cells outside the variable, also when the block is cut off at the end of some dimensions.',
  ['inputs', 'configurations'], 'all block shapes, positions and extents up to four dimensions, all value kinds', NOT, ['io/netcdfreader.h', 'io/netcdfreader.cpp', 'types/arraytype.h', 'types/structtype.h', 'types/basictype.h'],
  [('getBlock memory map', 'io/netcdfreader.h'), ('in place spreading for untyped values', 'io/netcdfreader.h')], observe=['block buffers'])
p('C07', 'Cache replacement follows the two handed clock',
  'For every cache size, hand spread and access history, the replacement always ends with a valid slot, does not touch memory outside its bookkeeping, clears the reference mark of the slot the leading hand passes and only evicts a slot whose reference mark is clear, so a slot accessed since the leading hand last passed it is not evicted. Repeated replacement without accesses visits all slots.',
  ['inputs', 'histories', 'configurations'], 'all sizes, spreads and access histories', 'The cache manager test uses one small cache with one fixed history.', ['cache/lru.h'],
  [('clock hands', 'cache/lru.h')], observe=['evicted slot'])
p('C08', 'The cache index stores each block once and finds what it stores',
  'After any history of lookups and replacements the block index maps each stored block to exactly one slot, distinct blocks to distinct slots within the cache size, finds a block if and only if it is stored, and reports as displaced exactly the block whose slot is reused. The most recently accessed block is always stored.',
  ['histories', 'inputs'], 'all lookup histories and cache sizes', 'CacheListTest runs three fixed histories.', ['cache/cachelist.h', 'cache/lru.h'],
  [('slot table and lookup map', 'cache/cachelist.h')], observe=['cache index results'])
p('C09', 'Concurrent cache accesses never mix blocks',
  'When several threads use one cache, a thread that obtained a block slot is its only user until it releases it; what it reads there is the data of the block it asked for, loaded exactly once since that block was last displaced; a reader that only probes the cache sees the requested block or nothing; and no interleaving deadlocks.',
  ['schedules', 'histories'], 'all interleavings of the accesses of several threads', 'CacheManagerTest is single threaded; interleavings cannot be enumerated by running it.', ['cache/cachemanager.h', 'cache/cachelist.h', 'threads/pthreadmutex.h'],
  [('slot lock taken before the list lock is released', 'cache/cachemanager.h'), ('list lock', 'cache/cachemanager.h')], observe=['data read under a slot'])
p('C10', 'Values are converted like C conversions and copied without overrun',
  'The typed get functions return the stored value converted as by a C conversion to the requested type; the first element for arrays; the generic get copies exactly the reported value size bytes and nothing more. Struct grids place every member at its declared displacement.',
  ['inputs', 'configurations'], 'all stored values, all pairs of stored and requested type, all array lengths and struct layouts', NOT, ['types/basictype.h', 'types/arraytype.h', 'types/structtype.h', 'grid/container.h', 'grid/simplecontainer.h'],
  [('convert and copy', 'types/basictype.h'), ('createStruct', 'types/structtype.h')], observe=['Grid::getByte..getBuf', 'Grid::getVarSize'])
p('C11', 'Opening a file reports every problem and leaves nothing behind',
  'Opening reports success only if the file, variable, dimension count and value size fit, and otherwise the error that matches the problem (cannot open, variable not found, no or too many dimensions, no values or value size mismatch). Every file opened is closed exactly once, also after an error or when the level is destroyed, and a failing file system call never leads to a memory error.',
  ['inputs', 'fault_sequences'], 'all file shapes and all failures of netCDF calls', NOT, ['io/netcdfreader.cpp', 'io/netcdfreader.h', 'grid/level/level.h', 'grid/simplecontainer.h', 'types/arraytype.h', 'types/basictype.h', 'types/structtype.h'],
  [('error codes of open', 'io/netcdfreader.cpp'), ('type checks', 'types/')], observe=['Grid::open'])
p('C12', 'Reported range and spacing match the coordinate variables',
  'The reported number of dimensions, minimum, maximum and spacing (dimensions in C order) follow from the coordinate variable: vertex-centered grids end at the first and last grid point, cell-centered grids extend half a cell beyond, spacing is positive also for descending coordinates, and a dimension of length one has infinite range. Every grid point lies within the reported range.',
  ['inputs', 'configurations'], 'all offsets, spacings, extents, value positions and dimension counts', NOT, ['grid/level/level.h', 'io/netcdfreader.cpp', 'grid/simplecontainer.h'],
  [('min/max computation', 'grid/level/level.h')], observe=['Grid::getMin', 'Grid::getMax', 'Grid::getDelta', 'Grid::getDimensions'])
p('C13', 'Block sizes follow the parameters, time blocks have one step by default',
  'The block size of each dimension is the configured one, 64 by default, one for the time dimension by default, the whole dimension if negative, and never larger than the dimension; parameters are indexed by the C order of dimensions. The number of blocks covers the grid exactly, and an invalid time dimension is ignored.',
  ['inputs', 'configurations'], 'all extents, block size parameters and time dimensions', NOT, ['grid/level/blocked.h', 'grid/grid.cpp'],
  [('block size selection', 'grid/level/blocked.h')], observe=['blocks loaded', 'file_loads counter'])
p('C14', 'Parameters are stored per level, case insensitively, last value wins',
  'A parameter set by name is found again whatever the case of the name and whether words are separated by - or _; the last value set wins; each level has its own values and an unset parameter takes its default. Variable names keep their case, enumerated values do not depend on case, and every parameter reaches the part of the library it is documented to control.',
  ['inputs', 'histories'], 'all parameter names, values, levels and orders of setting', NOT, ['grid/grid.cpp'],
  [('setParam/param', 'grid/grid.cpp'), ('open passes the parameters on', 'grid/grid.cpp')], observe=['Grid::setParam', 'Grid::open'])
p('C15', 'The parameters select the documented kind of grid',
  'Grid type, NUMA and MPI communication parameters together with the number of processes and NUMA domains select the documented implementation, instantiated for the element type of the grid: full, cache or pass-through; data exchanged between NUMA domains only if there are several and it is enabled; between processes only if there are several and it is not OFF, by thread or window as requested. Unknown grid types fall back to FULL and one container exists per NUMA domain.',
  ['configurations', 'inputs'], 'all parameter combinations, process counts and domain counts', NOT, ['grid/grid.cpp', 'grid/level/cachedist.h', 'grid/level/fulldist.h'],
  [('initContainers', 'grid/grid.cpp')], observe=['kind of container created'])
p('C16', 'Levels of one grid are independent',
  'Opening a further level, in any order, leaves the already opened levels usable with unchanged values, ranges and spacing; a get with a level number reads that level; the number of dimensions, the minimum and the maximum of the grid are those of level 0, the spacing that of the level asked for.',
  ['histories', 'inputs'], 'all orders of opening levels and accesses between', NOT, ['grid/simplecontainer.h', 'grid/container.h', 'grid/level/level.h'],
  [('vector of levels', 'grid/simplecontainer.h')], observe=['Grid::open', 'Grid::get*'])
p('C17', 'Counters count each access once and per level',
  'For every access history the access counter equals the number of gets of that level, every access is counted as either hit or miss, each block read from the file after open, from another process or from another NUMA domain is counted once in its counter, and names of counters that do not exist give 0. With the thread-safe option no increment is lost in any interleaving.',
  ['histories', 'schedules', 'configurations'], 'all access histories, levels and interleavings', NOT, ['perf/counter.h', 'perf/counter.cpp', 'grid/grid.cpp', 'grid/level/cache.h', 'grid/level/full.h', 'grid/level/passthrough.h', 'transfer/mpino.h'],
  [('increments', 'grid/level/'), ('aggregation', 'grid/grid.cpp')], observe=['Grid::getCounter'])
p('C18', 'C and Fortran interfaces behave as the C++ interface',
  'Each C and Fortran function performs exactly the corresponding C++ operation with the same arguments and returns its result, constants have the same value in all three languages, and Fortran grid ids stay valid and unique for the life of their grid, whatever other grids are created and closed, and are reused only after closing.',
  ['histories', 'inputs'], 'all histories of creating and closing grids, all arguments', NOT, ['asagi.cpp', 'asagi_f90.cpp', 'fortran/pointerarray.h', 'include/asagi.h', 'include/asagi.f90'],
  [('pointer array with free list', 'fortran/pointerarray.h'), ('forwarding functions', 'asagi.cpp')], observe=['asagi_grid_* functions'])
p('C19', 'The thread barrier releases all threads together, in every schedule',
  'With n registered threads no thread passes a barrier before all have arrived, all pass, any number of consecutive barriers works, a broadcast returns to every thread the value of the root, and wake-ups without cause never let a thread pass early.',
  ['schedules'], 'all interleavings of n threads and several rounds, spurious wake-ups included', 'SyncTest runs OpenMP threads in whatever schedule happens to occur and cannot provoke spurious wake-ups.', ['threads/sync.h'],
  [('condition variables and counters', 'threads/sync.h')], observe=['Sync users: NUMA collective operations'])
p('C20', 'One-time execution happens exactly once and before anyone continues',
  'A function executed through the one-time helper runs exactly once per armed round in every interleaving, and no caller returns before it has finished.',
  ['schedules'], 'all interleavings of several callers', 'OnceTest runs OpenMP threads in one schedule per run.', ['threads/once.h'],
  [('lock and flag', 'threads/once.h')], observe=['Grid::open from several threads'])
p('C21', 'Threads register in consistent NUMA domains',
  'When the configured number of threads register, every thread gets the domain of the node it runs on, threads of one node share a domain, domain ids are dense, each domain has exactly one master, the total number of domains is agreed by all threads before any of them continues, and a thread that registers again keeps its domain. With detection switched off there is one domain.',
  ['schedules', 'inputs', 'configurations'], 'all interleavings of registration and all assignments of threads to nodes', NOT + ' NumaCommTest fixes one domain.', ['numa/numa.cpp', 'numa/numa.h', 'numa/nonuma.h'],
  [('registerThread', 'numa/numa.cpp')], observe=['Numa::registerThread', 'domainId', 'totalDomains'])
p('C22', 'Collective NUMA allocation gives every domain its own part',
  'A collective allocation gives each domain the address of its own disjoint part of one buffer large enough for all domains, in every interleaving, reports failure to every domain if the allocation fails, and the memory is released exactly once.',
  ['schedules', 'inputs', 'fault_sequences'], 'all interleavings, sizes, domain counts and allocation failures', 'NumaCommTest uses one size and two or fewer domains in whatever schedule occurs.', ['numa/numacomm.h', 'allocator/'],
  [('allocate', 'numa/numacomm.h')], observe=['NumaComm::allocate'])
p('C23', 'Blocks fetched from other NUMA domains are the requested blocks',
  'On a grid distributed over NUMA domains, full or cached, a block fetched from another domain of the process is the requested block and arrives completely, whichever domain owns or caches it and whatever the owner does in between; if no domain has it, nothing is taken.',
  ['inputs', 'schedules', 'configurations', 'histories'], 'all block ids, domain counts, cache contents', NOT, ['transfer/numafull.h', 'transfer/numacache.h', 'transfer/numafullcache.h', 'transfer/numano.h', 'grid/level/fulldist.h', 'grid/level/cachedist.h'],
  [('NUMA transfers', 'transfer/')], observe=['Grid::get* with several NUMA domains'])
p('C24', 'The MPI lock admits one process at a time and is handed over',
  'At most one process holds a distributed lock at any time, a process that waits for it obtains it after the holder releases it, and no interleaving of acquire and release deadlocks or loses a wake-up.',
  ['schedules'], 'all interleavings of the remote memory operations of several processes', NOT, ['mpi/mutex.h'],
  [('waiting list in a window and hand-over message', 'mpi/mutex.h')], observe=['MPI cache window protocol'])
p('C25', 'Blocks of a distributed full grid come from their owner',
  'On a full grid distributed over processes (window or communication thread), a remote block request reads the memory of exactly the process and slot that own the block, transfers the whole block, and answers with the data of the requested block; concurrent requests do not mix.',
  ['inputs', 'configurations', 'schedules'], 'all block ids, process and domain counts, block sizes', NOT, ['transfer/mpiwinfull.h', 'transfer/mpithreadfull.h', 'grid/level/fulldist.h'],
  [('window displacement', 'transfer/mpiwinfull.h'), ('request/answer messages', 'transfer/mpithreadfull.h')], observe=['Grid::get* with several processes'])
p('C26', 'The distributed cache directory only leads to slots that hold the block',
  'In a cache distributed over processes, the directory entry of a block names only (process, slot) pairs registered for that block and not since displaced; a block obtained through it is the requested one, a lookup that fails falls back to the file, and displaced blocks disappear from the directory without damaging other entries.',
  ['histories', 'inputs', 'schedules'], 'all histories of adding, displacing and fetching blocks', NOT, ['transfer/mpicache.h', 'transfer/mpiwincache.h', 'transfer/mpithreadcache.h'],
  [('dictionary entries', 'transfer/mpicache.h'), ('window protocol', 'transfer/mpiwincache.h'), ('message protocol', 'transfer/mpithreadcache.h')], observe=['Grid::get* with several processes'])
p('C27', 'The communication thread delivers each message to its receiver',
  'A message sent through the communication thread reaches exactly the receiver object of the destination process for which it is meant, with tag, sender rank in the receiver\'s own communicator and content unchanged; receivers can come and go without affecting others; stopping ends the thread; processor pinning honours negative indices and ignores invalid ones.',
  ['histories', 'inputs', 'schedules'], 'all sequences of registering, sending and unregistering, all ranks and cpu ids', NOT, ['mpi/commthread.h', 'mpi/commthread.cpp'],
  [('tag routing', 'mpi/commthread.h')], observe=['Grid::startCommThread', 'remote requests'])
p('C28', 'Node local ranks are unique and dense on each node',
  'Processes on the same host get distinct ranks 0..k-1 in the order of their rank, and a process is never grouped with processes of another host, whatever the host names.',
  ['inputs', 'configurations'], 'all assignments of host names to processes', NOT, ['asagi.cpp'],
  [('host name hash, splitting', 'asagi.cpp')], observe=['Grid::nodeLocalRank'])
p('C29', 'Mutual exclusion of the lock types',
  'Each lock type the library uses (blocking, spinning, and the guard classes around them) admits one holder at a time in every interleaving, a failed try leaves the lock unchanged, and releasing lets a waiting thread continue.',
  ['schedules'], 'all interleavings of several threads', NOT, ['threads/pthreadmutex.h', 'threads/mutex.h', 'threads/noopmutex.h', 'threads/cxxmutex.h', 'mpi/lockassert.h'],
  [('mutex wrappers', 'threads/pthreadmutex.h')], observe=['critical sections'])
p('C30', 'Communicators are duplicated, queried and freed exactly once',
  'A grid works on its own duplicate of the communicator the user gave it: rank and size are those of that communicator, a failing MPI call is reported as an MPI error and leaves the communicator unused, and every duplicate is freed exactly once, also if another communicator is set or the grid never opened.',
  ['histories', 'fault_sequences'], 'all histories of setting communicators and all failing calls', NOT, ['mpi/mpicomm.h', 'grid/grid.cpp'],
  [('MPIComm::init', 'mpi/mpicomm.h')], observe=['Grid::setComm'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
