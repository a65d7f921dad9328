"""The checks: which harnesses decide which property, under which bounds"""
import os, sys
from engine import Query, check, UNDEF

CHECKS = {}
TECH = 'bounded symbolic execution of the real code (clang IR translated to C, decided by CBMC\'s SAT solver), counterexamples replayed natively'
NOTE = ('Every assertion is decided by the solver for all values within the stated bounds (see evidence: bounds per query). Trusted: clang front end, the IR translator, CBMC, '
        'and the models of libraries in stubs/ (containers, pthread, MPI, netCDF, NUMA).')
NOTES = {}


def prop(id, title, **kw):
    def deco(f):
        CHECKS[id] = (title, f, kw)
        return f
    return deco


@prop('C07', 'two handed clock')
def c07(thorough):
    sizes = [(1, 4), (2, 6), (3, 7), (4, 8)] + ([(3, 12), (4, 12), (5, 12), (6, 10)] if thorough else [])
    return [Query('lru-%d-%d%s' % (s, o, '-wide' if big else ''), 'h_lru.cpp', {'SIZE': s, 'OPS': o, **({'BIGDIFF': None} if big else {})},
                  pointer=True, unwind_max=64,
                  bound='%d slots, every hand spread %s the size, every history of %d operations' % (s, 'of at least' if big else 'below', o))
            for s, o in sizes for big in (False, True)]


@prop('C08', 'block index')
def c08(thorough):
    cfg = [(1, 3), (2, 4), (3, 5)] + ([(2, 7), (3, 7), (4, 7)] if thorough else [])
    return [Query('cachelist-%d-%d' % (s, o), 'h_cachelist.cpp', {'SIZE': s, 'OPS': o, 'V_CAP': s + 1}, pointer=True, unwind_max=64,
                  bound='%d slots, every hand spread, every history of %d operations on any blocks' % (s, o)) for s, o in cfg]

def lst(x):
    return '{%s}' % ','.join(map(str, x))


def sync(name, mode, n, rounds, slots, bound, **kw):
    """threads of h_sync.cpp"""
    d, q = {'MODE': mode, 'N': n, 'ROUNDS': rounds}, {'unwind': 4, 'unwind_max': 64, 'pointer': True}
    for k, v in kw.items():
        (q if k in Query.__init__.__code__.co_varnames else d)[k] = v
    return Query(name, 'h_sync.cpp', d, threads=n, contexts=slots, bound='%s; every schedule of %d time slots taken in turn, each of any length%s' % (
        bound, slots, ''.join({'V_SPURIOUS': ', with %s spurious wake-ups' % d.get('V_SPURIOUS'), 'V_FINE': ', preempted also between unlocking and waiting',
                               'BARRIER': ', barrier'}.get(k, '') for k in d)), **q)


V_SMALLMAP = {}


def level(name, kind, lens, bs, elt='int', gets=2, cache=2, ranks=1, domains=1, **kw):
    """one shape of h_full.cpp"""
    d = {'LEVEL': kind, 'LENS': lst(lens), 'BS': lst(list(bs) + [0] * (4 - len(bs))), 'DIMS': len(lens), 'V_NCDIMS': len(lens), 'ELT': elt, 'GETS': gets,
         'CACHESIZE': cache, 'V_CAP': cache + 1, 'RANKS': ranks, 'DOMAINS': domains, 'ASAGI_NOMPI': 1}
    q = {'unwind': 4, 'unwind_max': 200, 'pointer': True}
    for k, v in kw.items():
        (q if k in Query.__init__.__code__.co_varnames else d)[k] = v
    q.setdefault('bound', '%s grid %s, block size %s, %d processes, %d domains, cache of %d: every position of every get (%d gets), all values%s' % (
        kind, 'x'.join(map(str, lens)), 'x'.join(map(str, bs)), ranks, domains, cache, gets, ''.join(' %s=%s' % x for x in sorted(kw.items()) if x[0].isupper())))
    return Query(name, 'h_full.cpp', d, **q)


@prop('C01', 'full grid returns the file values')
def c01(th):
    R = dict(READS=1)
    qs = [level('full-1', 'Full1', [7], [3], **R), level('full-2', 'Full1', [4, 3], [3, 2], gets=1, **R), level('full-3', 'Full1', [3, 2, 3], [2, 2, 2], 'unsigned char', 1, **R),
          level('full-4', 'Full1', [2, 2, 1, 3], [2, 1, -1, 2], 'unsigned char', 1, **R), level('full-def', 'Full1', [3, 4], [0, 0], 'long', 1, **R),
          level('full-time', 'Full1', [3, 3], [0, 2], 'float', 1, TIME=0, **R), level('full-time1', 'Full1', [2, 3], [2, 0], 'double', 1, TIME=1, **R),
          level('full-1b', 'Full1', [6], [4], 'double', 1, BUF='float', **R)]
    if th:
        qs += [level('full-2b', 'Full1', [6, 5], [4, 3], 'unsigned char', 2, **R), level('full-3b', 'Full1', [4, 3, 5], [3, 2, 2], 'unsigned char', 1, **R),
               level('full-4b', 'Full1', [3, 2, 3, 2], [2, 2, 2, 1], 'unsigned char', 2, **R), level('full-2l', 'Full1', [9, 2], [4, 2], 'long', 2, **R)]
    return qs


@prop('C02', 'cache grid returns the file values')
def c02(th):
    R = dict(READS=2)
    qs = [level('cache-1', 'Cache1', [7], [3], 'int', 3), level('cache-1r', 'Cache1', [5], [2], 'unsigned char', 3, **R), level('cache-1c1', 'Cache1', [3], [1], 'int', 3, cache=1, **R),
          level('cache-2', 'Cache1', [4, 3], [3, 2], 'unsigned char', 2), level('cache-3', 'Cache1', [3, 2, 4], [2, 2, 3], 'unsigned char', 2),
          level('cache-all', 'Cache1', [5], [2], 'unsigned char', 4, cache=3, BLOCKS=3), level('cache-1c3', 'Cache1', [7], [2], 'unsigned char', 4, cache=3)]
    if th:
        qs += [level('cache-1t', 'Cache1', [9], [2], 'unsigned char', 5, cache=3), level('cache-2t', 'Cache1', [5, 3], [2, 2], 'unsigned char', 4),
               level('cache-4t', 'Cache1', [2, 3, 2, 1], [1, 2, 2, 1], 'unsigned char', 2), level('cache-2d', 'Cache1', [4, 4], [3, 3], 'double', 3, cache=3, READS=2)]
    return qs


@prop('C03', 'pass-through reads the element')
def c03(th):
    R = dict(READS=3)
    qs = [level('pass-1', 'Pass', [5], [2], 'int', 3, **R), level('pass-2', 'Pass', [5, 3], [2, 2], 'double', 2, **R), level('pass-3', 'Pass', [3, 2, 3], [2, 2, 2], 'unsigned char', 2, **R),
          level('pass-4', 'Pass', [2, 3, 2, 2], [0, 0, 0, 0], 'unsigned char', 1, **R)]
    if th:
        qs += [level('pass-1t', 'Pass', [60], [2], 'long', 6, **R), level('pass-4t', 'Pass', [4, 3, 5, 2], [0, 0, 0, 0], 'int', 3, **R)]
    return qs


@prop('C05', 'blocks partition the grid')
def c05(th):
    qs = []
    u = 'unsigned char'
    for s in (0, 1):
        x = {} if s else {'ROUND_ROBIN': UNDEF}
        n = 'rr' if s else 'ct'
        qs += [level('dist-%s-1' % n, 'FullD', [7], [3], u, 1, ranks=2, **x), level('dist-%s-1b' % n, 'FullD', [5], [1], u, 1, ranks=3, RANK=1, **x),
               level('dist-%s-2' % n, 'FullD', [4, 5], [3, 2], u, 1, ranks=2, domains=2, RANK=1, DOMAIN=1, **x),
               level('dist-%s-2b' % n, 'FullD', [3, 4], [2, 3], u, 2, ranks=2, **x), level('dist-%s-3' % n, 'FullD', [4, 2, 3], [3, 2, 2], u, 1, ranks=1, domains=2, DOMAIN=1, **x)]
        if th:
            qs += [level('dist-%s-2t' % n, 'FullD', [5, 4], [2, 3], u, 2, ranks=3, domains=2, RANK=2, **x), level('dist-%s-1t' % n, 'FullD', [11], [2], u, 2, ranks=2, domains=3, DOMAIN=2, **x)]
    return qs


NOMPI = {'ASAGI_NOMPI': 1}


@prop('C04', 'coordinates to indices')
def c04(th):
    def q(name, dims, bound, **d):
        return Query(name, 'h_index.cpp', dict(NOMPI, DIMS=dims, V_NCDIMS=dims, **d), unwind=9, pointer=True, unwind_max=64, bound=bound)
    qs = [q('index-any-1', 1, 'every bit pattern of the coordinate, every length up to 5, every offset, spacing 1.0', ANYBITS=1, STEPS='{8}'),
          q('index-any-neg', 1, 'every bit pattern of the coordinate, descending', ANYBITS=1, STEPS='{-5}'),
          q('index-any-2', 2, 'every bit pattern of both coordinates, 3x5 points', ANYBITS=1, STEPS='{8,3}', LENS='{3,5}'),
          q('index-nocoord', 2, 'no coordinate variables: spacing 1, every coordinate in eighths, lengths up to 4', NOCOORD=1, MAXLEN=4)]
    for st in (8, -8, 3, -5, 24) + ((1, -1, 2, 7, -24, 16) if th else ()):
        qs.append(q('index-%d' % st, 1, 'spacing %d/8, every offset in eighths within 8 units, every length up to 5, every coordinate in eighths of the spacing up to 3 points outside' % st, STEPS='{%d}' % st))
    qs.append(q('index-2', 2, '2x3 points, spacings 1 and -3/8', STEPS='{8,-3}', LENS='{2,3}'))
    qs.append(q('index-3', 3, '2x1x3 points', STEPS='{8,8,-16}', LENS='{2,1,3}'))
    if th:
        qs.append(q('index-any-sym', 1, 'every bit pattern of the coordinate, every spacing and offset', ANYBITS=1))
    return qs


@prop('C12', 'reported range and spacing')
def c12(th):
    def q(name, dims, bound, **d):
        return Query(name, 'h_index.cpp', dict(NOMPI, RANGE=1, DIMS=dims, V_NCDIMS=dims, **d), unwind=9, pointer=True, unwind_max=64, bound=bound, timeout=600)
    qs = [q('range-nocoord', 2, 'no coordinate variables, every length up to 5', NOCOORD=1)]
    for st in (8, -8, 3, -5, 24) + ((1, -1, 2, 7, -24, 16) if th else ()):
        qs.append(q('range-%d' % st, 1, 'spacing %d/8, every offset, every length up to 5, both value positions' % st, STEPS='{%d}' % st))
    qs.append(q('range-2', 2, '2x3 points, spacings 1 and -3/8', STEPS='{8,-3}', LENS='{2,3}'))
    qs.append(q('range-3', 3, '2x1x3 points', STEPS='{8,8,-16}', LENS='{2,1,3}'))
    if th:
        qs.append(q('range-sym', 1, 'every spacing and offset in eighths, every length up to 5'))
    return qs


@prop('C06', 'block loads')
def c06(th):
    def q(name, kind, lens, bs, elt='unsigned char', cell=None, off=None):
        d = dict(NOMPI, DIMS=len(lens), V_NCDIMS=len(lens), LENS=lst(lens), BS=lst(bs), KIND=kind, ELT=elt)
        if cell:
            d['CELL'] = cell
        if off:
            d['OFF'] = lst(off)
        return Query(name, 'h_load.cpp', d, unwind=4, unwind_max=200, pointer=True,
                     bound='%s of %s, %s cells, block %s: %s, every cell of it, every value' % (['primitive', 'array', 'struct'][kind], elt, 'x'.join(map(str, lens)), 'x'.join(map(str, bs)), 'the block at %s' % off if off else 'every block'))
    qs = [q('load-b1', 0, [5], [2], 'int'), q('load-b2', 0, [5, 3], [2, 2], 'double'), q('load-b2l', 0, [4, 5], [3, 3], 'long'), q('load-b2f', 0, [3, 3], [2, 2], 'float'), q('load-b3', 0, [3, 3, 3], [2, 2, 2]), q('load-b4', 0, [3, 2, 3, 2], [2, 1, 2, 2], off=[2, 1, 2, 0]),
          q('load-a1', 1, [5], [2], 'int', 8), q('load-a2', 1, [5, 3], [2, 2], 'short', 4), q('load-a3', 1, [3, 2, 3], [2, 2, 2], 'unsigned char', 2), q('load-s2', 2, [3, 5], [2, 3], cell=3),
          q('load-s3', 2, [2, 3, 3], [2, 2, 2], cell=2), q('load-a4', 1, [2, 2, 3, 3], [1, 2, 2, 2], 'unsigned char', 1, off=[1, 0, 2, 2])]
    if th:
        qs += [q('load-b2t', 0, [7, 8], [4, 5], 'int'), q('load-b4t', 0, [3, 3, 3, 3], [2, 2, 2, 2], off=[2, 0, 2, 0]), q('load-a4t', 1, [3, 3, 3, 3], [2, 2, 2, 2], 'short', 4, off=[2, 0, 2, 0]), q('load-s3t', 2, [3, 3, 3], [2, 2, 2], cell=3), q('load-a3t', 1, [4, 3, 5], [3, 2, 3], 'unsigned char', 1)]
    return qs


@prop('C13', 'block sizes')
def c13(th):
    def q(name, dims, bound, **d):
        return Query(name, 'h_blocksize.cpp', dict(NOMPI, DIMS=dims, V_NCDIMS=dims, V_CAP=4, **d), unwind=14, pointer=True, unwind_max=100, bound=bound)
    b = ', every block size parameter and time dimension'
    qs = [q('bs-1', 1, 'every length up to 5, every grid point' + b), q('bs-2', 2, '5x3, every grid point' + b, LENS='{5,3}'), q('bs-3', 3, '3x2x4, every grid point' + b, LENS='{3,2,4}'),
          q('bs-70', 1, 'length 70, default block size', LENS='{70}', MAXLEN=70),
          *(q('bs-full-1-%d' % n, 1, 'length %d: blocks loaded at open' % n + b, LEVEL='Full1', LENS='{%d}' % n) for n in (1, 4, 5)), q('bs-full-2', 2, '3x4: blocks loaded at open' + b, LEVEL='Full1', LENS='{3,4}')]
    if th:
        qs += [q('bs-2s', 2, 'all lengths up to 5' + b), q('bs-4', 4, '2x3x1x3' + b, LENS='{2,3,1,3}'), q('bs-full-3', 3, '2x3x2: blocks loaded at open' + b, LEVEL='Full1', LENS='{2,3,2}')]
    return qs


@prop('C10', 'conversions, copies and declared types')
def c10(th):
    def q(name, kind, elt, lev='FullDefault', **d):
        return Query('conv-' + name, 'h_conv.cpp', dict(NOMPI, V_NCDIMS=1, V_CAP=2, KIND=kind, ELT=elt, LEVEL=lev, **d), unwind=4, unwind_max=100, pointer=True,
                     bound='%s of %s: every bit pattern of the stored value, every get function' % (['basic', 'array', 'struct'][kind], elt))

    def m(name, kind, members, **d):
        return Query('mpitype-' + name, 'h_mpitype.cpp', dict(KIND=kind, MEMBERS=members, CHECKS=2, V_CAP=2, **d), unwind=4, unwind_max=100, pointer=True,
                     bound='%s, up to %d members: every declaration, every size of the values in two opens%s' % (['basic', 'array', 'struct'][kind], members, ', one failing MPI call' if 'V_MPI_FAULTS' in d else ''))
    qs = [q('int', 0, 'int', AT=0), q('double', 0, 'double'), q('float', 0, 'float', 'PassThrough'), q('byte', 0, '"unsigned char"', 'CacheDefault'), q('long', 0, 'long', 'CacheDefault'),
          q('aint', 1, 'int'), q('adouble', 1, 'double', 'PassThrough'), q('abyte', 1, '"unsigned char"', 'CacheDefault'), q('sint', 2, 'int'), q('sdouble', 2, 'double', 'CacheDefault'),
          m('basic', 0, 1), m('array', 1, 1, ELT='double'), m('struct', 2, 2), m('array-fault', 1, 1, V_MPI_FAULTS=1, V_TYPES=6), m('struct-fault', 2, 1, V_MPI_FAULTS=1, V_TYPES=6)]
    for x in qs:
        x.defs['ELT'] = x.defs.get('ELT', 'int').strip('"')
    if th:
        for lev in ('FullDefault', 'CacheDefault', 'PassThrough'):
            for e in ('int', 'long', 'float', 'double', 'unsigned char'):
                for k in (0, 1, 2):
                    qs.append(q('t-%s-%s-%d' % (lev, e.replace(' ', ''), k), k, e, lev, **({'N': 4} if k == 1 else {})))
        qs += [m('struct3', 2, 3), m('struct-fault2', 2, 2, V_MPI_FAULTS=1, V_TYPES=6)]
    return qs


@prop('C11', 'opening')
def c11(th):
    ALL = '{0,1,2,3,4,5}'
    one = '{4,-1,-1,-1,-1,-1}'

    def q(name, lev, kinds, bound, kind=0, **d):
        return Query('open-' + name, 'h_open.cpp', dict(NOMPI, MAX_DIMENSIONS=2, V_NCDIMS=3, V_CAP=2, KIND=kind, LEVEL=lev, OPENS=len(kinds), KINDLIST='{%s}' % ','.join(kinds), **d), unwind=4, unwind_max=100,
                     pointer=True, bound='%s, %s: %s' % (lev, ['primitive', 'array'][kind], bound), timeout=800 if 'all' in name else 250)
    qs = [q('pass', 'PassThrough', [ALL], 'one level, every kind of file'), q('pass-1x', 'PassThrough', [one, ALL], 'a good file, then every kind of file'),
          q('pass-x1', 'PassThrough', [ALL, one], 'every kind of file, then a good one'), q('pass-arr', 'PassThrough', [one, '{5,-1,-1,-1,-1,-1}'], 'two levels, every size of the values', 1),
          q('pass-retry', 'PassThrough', ['{1,4,-1,-1,-1,-1}', '{1,5,-1,-1,-1,-1}'], 'a level opened again after failing', 1, SAMELEVEL=1),
          q('full', 'FullDefault', [ALL], 'one level, every kind of file', MINLEN=2), q('cache', 'CacheDefault', [ALL], 'one level, every kind of file', MINLEN=2)]
    if th:
        qs += [q('all-' + l, l, [ALL, ALL], 'two levels, every kind of file', MINLEN=2) for l in ('PassThrough', 'FullDefault', 'CacheDefault')]
        qs += [q('all-%s-arr' % l, l, [one, '{5,-1,-1,-1,-1,-1}'], 'two levels, values of one, two or one and a half elements', 1, MINLEN=2, SIZES='{4,8,6}') for l in ('FullDefault', 'CacheDefault')]
        qs += [q('retry-all', 'PassThrough', [ALL, ALL], 'a level opened again after failing', SAMELEVEL=1)]
    return qs


GRIDDEFS = dict(USE_MPI3=1, MAX_DIMENSIONS=2, V_STRCAP=24, V_CAP=5)


@prop('C14', 'parameters')
def c14(th):
    names = ['BLOCK-SIZE-0', 'BLOCK-SIZE-1', 'CACHE-SIZE', 'CACHE-HAND-SPREAD', 'VARIABLE', 'VALUE-POSITION', 'TIME-DIMENSION']

    def q(p, s):
        return Query('param-%s-%d' % (names[p], s), 'h_grid.cpp', dict(GRIDDEFS, MODE=1, PARAM=p, SPELLING=s), unwind=24, pointer=True, object_bits=12, timeout=500,
                     bound='%s, spelling %d: set once or twice at level 0 or 1, level 0 or 1 opened, every value (numbers of two characters, names of three characters, the positions)' % (names[p], s))
    return [q(p, s) for p in range(7) for s in range(3) if th or s == p % 3]


@prop('C15', 'kind of grid')
def c15(th):
    def q(name, grids, mpis, numas, bound, **d):
        f = lambda l: '{%s}' % ','.join('"%s"' % x if x else '0' for x in l)
        return Query('kind-' + name, 'h_grid.cpp', dict(GRIDDEFS, MODE=0, GRIDS=f(grids), MPIS=f(mpis), NUMAS=f(numas), **d), unwind=24, pointer=True, object_bits=12, timeout=500,
                     bound='GRID %s, MPI_COMMUNICATION %s, NUMA_COMMUNICATION %s: %s' % (grids, mpis, numas, bound))
    M, N = [None, 'OFF', 'Thread', 'WINDOW'], [None, 'off', 'ON', 'CACHE']
    two = 'two processes, two domains'
    qs = [q('full', [None], M, N, two), q('cache', ['CACHE'], M, N, two), q('pass', ['Pass-Through'], M, ['off', 'CACHE'], two),
          q('names', ['cache', 'FULL', 'PASS_THROUGH', 'other'], ['window'], ['ON', 'cache'], two),
          q('rank', [None, 'cache', 'pass-through'], [None, 'THREAD'], [None, 'CACHE'], 'one process, two domains', RANKS=1),
          q('domain', [None, 'cache', 'pass-through'], [None, 'THREAD', 'off'], [None, 'CACHE'], 'two processes, one domain', DOMAINS=1),
          q('safe', [None, 'cache'], [None, 'THREAD', 'OFF'], [None, 'CACHE'], two + ', thread safe MPI', THREADSAFE_MPI=1),
          q('nonuma', [None, 'cache'], [None, 'THREAD', 'OFF'], [None, 'ON'], 'two processes, built without NUMA', DOMAINS=1, ASAGI_NONUMA=1),
          q('nompi', [None, 'cache', 'pass-through'], [None], [None, 'OFF'], 'two domains, built without MPI', RANKS=1, ASAGI_NOMPI=1),
          q('mpi2', [None, 'cache'], M, ['OFF', 'CACHE'], two + ', built for MPI-2', USE_MPI3=UNDEF),
          q('types', [None], [None], [None], 'every type of element', RANKS=1, DOMAINS=1, TYPES='{1,2,3,4,5,11,12,13,14,15,21,22,23,24,25}'),
          q('ctypes', ['cache', 'pass-through'], [None], [None], 'some types of element', RANKS=1, DOMAINS=1, TYPES='{3,14,21,25}')]
    for x in qs:
        x.defs.setdefault('THREADSAFE_MPI', UNDEF)
    if th:
        allt = '{1,2,3,4,5,11,12,13,14,15,21,22,23,24,25}'
        qs += [q('t-%d-%d-%s-%s' % (r, d, g or 'default', m or 'default'), [g], [m], N, '%d processes, %d domains, every type of element' % (r, d), RANKS=r, DOMAINS=d, TYPES=allt, THREADSAFE_MPI=UNDEF)
               for r in (1, 3) for d in (1, 3) for g in (None, 'CACHE', 'PASS_THROUGH') for m in M]
    return qs


@prop('C16', 'levels')
def c16(th):
    def q(name, bound, **d):
        return Query('levels-' + name, 'h_levels.cpp', dict(NOMPI, MAX_DIMENSIONS=1, V_NCDIMS=1, V_CAP=4, BETWEEN=1, **d), unwind=12, pointer=True, unwind_max=100, object_bits=12, timeout=500, bound=bound)
    qs = [q('order', 'three levels (levels that only own memory) in every order, a further level that cannot be opened, a get of any cell of any level', FAKELEVEL=1, FAILING=1)]
    for lev in ('FullDefault', 'CacheDefault', 'PassThrough'):
        qs.append(q(lev, 'two %s levels in both orders, gets of the first level in between, then of any cell of either' % lev, LEVEL=lev, LEVELS=2, LENS='{3,2}', ORDERS='{{0,1},{1,0},{1,0}}'))
        if th:
            qs += [q('%s-%d%d%d' % ((lev,) + o), 'three %s levels in order %s' % (lev, o), LEVEL=lev, ORDERS='{{%d,%d,%d}}' % o) for o in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))]
    return qs


@prop('C17', 'counters')
def c17(th):
    C = dict(COUNTERS=1)
    qs = [Query('counter-names', 'h_grid.cpp', dict(GRIDDEFS, MODE=2, V_CAP=8), unwind=24, pointer=True, object_bits=12, bound='two domains, two levels, every counter of up to 4 accesses, known and unknown names, gets of every type on each domain'),
          level('counter-full', 'Full1', [7], [3], gets=3, **C), level('counter-cache', 'Cache1', [5], [2], gets=4, **C), level('counter-cacher', 'Cache1', [5], [2], 'unsigned char', 3, READS=2, **C),
          level('counter-pass', 'Pass', [5], [2], gets=3, READS=3, **C),
          level('counter-fulld', 'FullD', [5], [2], gets=3, cache=1, ranks=2, **C), level('counter-fullnuma', 'FullD', [5], [2], gets=3, cache=1, domains=2, **C), level('counter-fullboth', 'FullD', [9], [2], gets=3, cache=2, ranks=2, domains=2, **C),
          level('counter-cached', 'CacheD', [5], [2], gets=3, cache=2, **C), level('counter-cachednuma', 'CacheD', [5], [2], gets=3, cache=1, domains=2, DOMAIN=1, **C)]
    qs += [sync('counter-threads-%d' % n, 5, n, r, 3 * n, '%d threads that count %d accesses of any kind each' % (n, r), unwind=24, THREADSAFE_COUNTER=1, **V_SMALLMAP)
           for n, r in [(2, 1), (3, 1)] + ([(2, 3), (3, 2)] if th else [])]
    return qs


@prop('C19', 'barrier and broadcast')
def c19(th):
    B, W = 'barriers of threads', 'broadcasts from any root'
    qs = [sync('bcast-2', 0, 2, 2, 8, W), sync('bcast-3', 0, 3, 1, 9, W), sync('barrier-2', 0, 2, 3, 10, B, BARRIER=1), sync('barrier-3', 0, 3, 2, 9, B, BARRIER=1),
          sync('bcast-spurious', 0, 2, 2, 8, W, V_SPURIOUS=1), sync('bcast-fine', 0, 2, 1, 8, W, V_FINE=1), sync('barrier-spurious', 0, 3, 1, 9, B, BARRIER=1, V_SPURIOUS=1)]
    if th:
        qs += [sync('bcast-3l', 0, 3, 2, 15, W, timeout=1500), sync('bcast-4', 0, 4, 1, 12, W, timeout=1500), sync('barrier-4', 0, 4, 2, 16, B, BARRIER=1, timeout=1500), sync('bcast-3s', 0, 3, 1, 12, W, V_SPURIOUS=2, timeout=1500),
               sync('bcast-fine3', 0, 3, 1, 12, W, V_FINE=1, V_SPURIOUS=1, timeout=1500), sync('bcast-2l', 0, 2, 3, 14, W, V_SPURIOUS=1, timeout=1500), sync('bcast-all', 0, 2, 1, 8, W, yields='all', timeout=1500)]
    return qs


@prop('C20', 'one-time execution')
def c20(th):
    B = 'threads that all ask for the execution'
    return [sync('once-2', 1, 2, 2, 8, B), sync('once-3', 1, 3, 1, 9, B), sync('once-3r', 1, 3, 2, 9, B), sync('once-fine', 1, 3, 1, 9, B, V_FINE=1), sync('once-all', 1, 2, 2, 8, B, yields='all')] + (
        [sync('once-4', 1, 4, 2, 12, B, V_FINE=1), sync('once-3l', 1, 3, 3, 18, B, yields='all')] if th else [])


@prop('C21', 'registration of threads')
def c21(th):
    def R(name, n, rounds, slots, **kw):
        return sync(name, 2, n, rounds, slots, 'threads on any of %s nodes%s' % (kw.get('NODES', 2), ', registered twice' if rounds > 1 else ''), V_CAP=n, V_VECCAP=n, **kw)
    qs = [R('register-2', 2, 1, 8, DETECT=1, CREATE=1), R('register-2r', 2, 2, 8, DETECT=1), R('register-3', 3, 1, 9, DETECT=1, NODES=3), R('register-off', 3, 1, 9, DETECT=0), R('register-debug', 2, 1, 8, DETECT=1, DEBUG_NUMA=1, CREATE=1),
          R('register-spurious', 2, 1, 8, DETECT=1, V_SPURIOUS=1)]
    if th:
        qs += [R('register-4', 4, 1, 12, DETECT=1, NODES=3, timeout=1500), R('register-3r', 3, 2, 12, DETECT=1, NODES=3, CREATE=1, timeout=1500), R('register-debug3', 3, 1, 9, DEBUG_NUMA=1, CREATE=1, timeout=1500),
               R('register-all', 2, 1, 8, DETECT=1, V_FINE=1, V_SPURIOUS=1, CREATE=1, timeout=1500)]
    return qs


@prop('C22', 'communication of domains')
def c22(th):
    B = 'one thread for each domain, a broadcast from any domain, a shared allocation of any size up to %d that may fail'
    qs = [sync('comm-2', 3, 2, 1, 8, B % 4, MAXSIZE=4)]
    if th:
        qs += [sync('comm-2l', 3, 2, 1, 12, B % 9, MAXSIZE=9, timeout=1500), sync('comm-3', 3, 3, 1, 15, B % 3, MAXSIZE=3, timeout=1500), sync('comm-2f', 3, 2, 1, 10, B % 4, MAXSIZE=4, V_SPURIOUS=1, timeout=1500)]
    return qs


@prop('C29', 'lock types')
def c29(th):
    B = 'threads that lock or try to lock'
    return [sync('%s-%d-%d' % (l, n, r), 4, n, r, 3 * n * r, B, LOCK=l) for l in ('PthreadMutex', 'CxxMutex') for n, r in [(2, 2), (3, 1)] + ([(3, 2), (4, 2)] if th else [])]


@prop('C09', 'concurrent cache')
def c09(th):
    def Q(name, n, rounds, slots, pre, probes, ctx, **kw):
        q = {'unwind': 6, 'unwind_max': 64, 'pointer': True}
        d = dict(N=n, ROUNDS=rounds, SLOTS=slots, PRE=pre, PROBES=probes, V_CAP=slots + 1, V_VECCAP=3, DIFF=1 if slots > 1 else -1)
        for k, v in kw.items():
            (q if k in Query.__init__.__code__.co_varnames else d)[k] = v
        return Query(name, 'h_cache.cpp', d, threads=n, contexts=ctx, bound='cache of %d slots with %d blocks loaded, %d threads that access %d of 3 blocks each (%s); every schedule of %d time slots taken in turn, each of any length' % (
            slots, pre, n, rounds, 'get or probe' if probes == -1 else 'bit mask of probes %d' % probes, ctx), **q)
    qs = [Q('one-any', 2, 1, 1, 1, -1, 6), Q('two-get', 2, 1, 2, 2, 0, 6), Q('two-probe', 2, 1, 2, 2, 2, 6), Q('three-get', 3, 1, 1, 1, 0, 6), Q('three-probe', 3, 1, 1, 1, 4, 6), Q('one-get2', 2, 2, 1, 1, 0, 4)]
    if th:
        T = dict(timeout=3000)
        qs += [Q('one-empty', 2, 1, 1, 0, -1, 8, **T), Q('one-get2l', 2, 2, 1, 0, 0, 6, **T), Q('one-probe2', 2, 2, 1, 0, 12, 6, **T), Q('two-empty', 2, 1, 2, 0, -1, 6, **T), Q('three-two', 3, 1, 2, 1, 4, 6, **T),
               Q('two-all', 2, 1, 1, 1, 2, 6, yields='all', **T)]
    return qs


@prop('C24', 'MPI lock')
def c24(th):
    def M(name, n, ctx, bound, **kw):
        q = {'unwind': 6, 'unwind_max': 64, 'pointer': True}
        d = dict(N=n)
        for k, v in kw.items():
            (q if k in Query.__init__.__code__.co_varnames else d)[k] = v
        return Query(name, 'h_mpimutex.cpp', d, threads=n, contexts=ctx, bound='%s; every schedule of %d time slots taken in turn, each of any length, any choice among waiting senders' % (bound, ctx), **q)
    qs = [M('two', 2, 8, '2 processes, one acquisition each'), M('two-2', 2, 8, '2 processes, 2 acquisitions each', ROUNDS=2), M('three', 3, 9, '3 processes, one acquisition each'),
          M('three-locks', 3, 9, '3 processes, any of 2 locks each, stored on the second process', LOCKS=2, OWNER=1), M('threads', 2, 8, '2 threads of one process', PER=2), M('threads-3', 3, 9, '2 threads of one process, one of another', PER=2)]
    if th:
        T = dict(timeout=3000)
        qs += [M('two-locks', 2, 8, '2 processes, 2 acquisitions of any of 2 locks', ROUNDS=2, LOCKS=2, **T), M('three-2', 3, 12, '3 processes, 2 acquisitions each', ROUNDS=2, **T), M('four', 4, 16, '4 processes', **T),
               M('threads-4', 4, 12, '2 threads of each of 2 processes', PER=2, **T), M('threads-2', 2, 12, '2 threads of one process, 2 acquisitions', PER=2, ROUNDS=2, **T)]
    return qs


@prop('C30', 'communicators')
def c30(th):
    def M(name, ops, faults, objects=1, **kw):
        return Query(name, 'h_mpicomm.cpp', dict(OPS=ops, V_MPI_FAULTS=faults, OBJECTS=objects, **kw), unwind=6, unwind_max=64, pointer=True, timeout=500,
                     bound='%d grids, up to %d communicators set (world, self, any order of the processes), up to %d failing MPI calls, any rank of 2' % (objects, ops, faults))
    return [M('comm', 3, 2), M('comm-two', 2, 1, 2), M('comm-nolock', 2, 1, THREADSAFE_MPI=UNDEF), M('comm-three', 2, 1, V_RANKS=3)] + ([M('comm-long', 5, 3), M('comm-twol', 4, 2, 2)] if th else [])


def numbers():
    """the numbers of types and errors in the C header and in the Fortran module"""
    import re, subprocess, tempfile
    from engine import REPO
    t = ['BYTE', 'INT', 'LONG', 'FLOAT', 'DOUBLE']
    e = ['SUCCESS', 'MPI_ERROR', 'THREAD_ERROR', 'NUMA_ERROR', 'UNKNOWN_PARAM', 'INVALID_VALUE', 'NOT_INITIALIZED', 'ALREADY_INITIALIZED', 'NOT_OPEN', 'VAR_NOT_FOUND', 'WRONG_SIZE', 'UNSUPPORTED_DIMENSIONS', 'INVALID_VAR_SIZE']
    with tempfile.TemporaryDirectory() as d:
        open(d + '/n.c', 'w').write('#include <stdio.h>\n#include "asagi.h"\nint main() { int n[] = {%s}; for (int i = 0; i < %d; i++) printf("%%d ", n[i]); return 0; }' % (
            ','.join('ASAGI_' + x for x in t + e), len(t + e)))
        subprocess.run(['gcc', '-w', '-DASAGI_NOMPI', '-I' + REPO + '/include', d + '/n.c', '-o', d + '/n'], check=True)
        c = subprocess.run([d + '/n'], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    f = {}
    text = re.sub(r'&\s*\n', ' ', re.sub(r'!.*', '', open(REPO + '/include/asagi.f90').read()))
    for b in re.findall(r'(?is)enum\s*,\s*bind.*?end\s*enum', text):
        v = 0
        for line in re.findall(r'(?i)enumerator\s*(?:::)?(.*)', b):
            for x in line.split(','):
                if not x.strip():
                    continue
                k, _, w = x.partition('=')
                if w.strip():
                    v = f[w.strip().upper()] if w.strip().upper() in f else int(w)
                f[k.strip().upper()] = v
                v += 1
    g = [f.get('ASAGI_' + x, -1) for x in t + e]
    return dict(C_TYPES=lst(c[:5]), C_ERRORS=lst(c[5:]), F_TYPES=lst(g[:5]), F_ERRORS=lst(g[5:]))


@prop('C18', 'C and Fortran interface')
def c18(th):
    n = numbers()
    qs = [Query('forward' + x, 'h_api.cpp', dict(n, **d), unwind=14, unwind_max=100, pointer=True, bound='every function of the C and the Fortran interface, any arguments, any result of the method' + b)
          for x, d, b in (('', {}, ''), ('-nompi', dict(ASAGI_NOMPI=1), '; built without MPI'))]
    qs += [Query('handles-%d' % o, 'h_grid.cpp', dict(ASAGI_NOMPI=1, ASAGI_NONUMA=1, MAX_DIMENSIONS=2, V_STRCAP=24, V_CAP=5, MODE=3, OPS=o), unwind=4, unwind_max=100, pointer=True, object_bits=12, timeout=500,
                 bound='every history of %d grids created and closed through C and Fortran functions' % o) for o in ([3, 4] if not th else [5, 6])]
    B = 'threads that each create a grid, use it by its id and close it'
    qs += [sync('handles-threads-%d' % k, 6, k, 1, c, B, V_VECCAP=k, V_VECRACE=1) for k, c in ((2, 8), (3, 12))]
    if th:
        qs += [sync('handles-threads-2r', 6, 2, 2, 12, B, V_VECCAP=4, V_VECRACE=1, timeout=1500), sync('handles-threads-4', 6, 4, 1, 12, B, V_VECCAP=4, V_VECRACE=1, timeout=1500)]
    return qs


@prop('C28', 'node local ranks')
def c28(th):
    def M(name, n, k, **kw):
        return Query(name, 'h_noderank.cpp', dict(V_RANKS=n, NAMELEN=k, **kw), unwind=6, unwind_max=100, pointer=True, timeout=800 if th else 400,
                     bound='up to %d processes in any order in the communicator, host names of up to %d %s' % (n, k, 'characters' if 'ANYCHAR' in kw else 'letters a-d'))
    return [M('three', 3, 3), M('two-any', 2, 3, ANYCHAR=1), M('two-long', 2, 5), M('nolock', 2, 2, THREADSAFE_MPI=UNDEF)] + ([M('three-any', 3, 3, ANYCHAR=1), M('four', 4, 3), M('three-long', 3, 5)] if th else [])


def main(args):
    rc = 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    for pid in args or sorted(CHECKS):
        title, f, kw = CHECKS[pid]
        r = check(pid, title, f(tier == 'thorough'), tier=tier, **kw)
        rc = rc or r
    return rc
