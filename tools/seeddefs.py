"""Planted bugs: edits of /repo and demonstrations (see seeds.py)"""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


seed('clock-default-spread', 'C07', [('cache/lru.h', 'm_nextClear = size / 2;', 'm_nextClear = (size + 1) / 2;')], r'''
#include "cache/lru.h"
int main() {
	cache::LRU lru;
	lru.init(1);
	for (int i = 0; i < 3; i++) if (lru.getFree() != 0) return 1;
	return 0;
}
''', 'a cache with exactly one slot and the default hand spread', 'the leading hand starts behind the last slot, the reference marks are written out of bounds')

seed('index-block-zero', 'C08', [('cache/cachelist.h', 'if (oldBlock >= 0) {', 'if (oldBlock > 0) {')], r'''
#include "cache/cachelist.h"
int main() {
	cache::CacheList l;
	l.init(1, 0);
	unsigned long i;
	l.getFreeIndex(0, i);
	if (l.getFreeIndex(7, i) != 0) return 1;
	return l.getIndex(0, i) ? 1 : 0;
}
''', 'block 0 is displaced and asked for again', 'block 0 stays in the index after its slot was given to another block')

seed('index-unlock-first', 'C09', [('cache/cachemanager.h', '''		m_blockMutexes[cacheOffset].lock();
		m_cacheMutex.unlock();
''', '''		m_cacheMutex.unlock();
		m_blockMutexes[cacheOffset].lock();
''')], r'''
#include <atomic>
#include <thread>
#include <vector>
#include <cstdio>
#include "cache/cachemanager.h"
// the block that is stored in the cache line is written by the thread that was told to fill it
int main() {
	std::atomic<int> bad(0);
	for (int round = 0; round < 40 && !bad; round++) {
		unsigned char mem[8];
		cache::CacheManager m;
		m.init(mem, 1, 8, 0);
		std::vector<std::thread> t;
		for (int k = 0; k < 4; k++) t.emplace_back([&, k]() {
			for (int i = 0; i < 50000 && !bad; i++) {
				unsigned long b = (i * 7 + k) % 3, off; unsigned char *d;
				if (m.get(b, off, d) != (long) b) { *(volatile unsigned long*) d = b; }
				else if (*(volatile unsigned long*) d != b) bad = 1;
				m.unlock(off);
			}
		});
		for (auto &x : t) x.join();
	}
	if (bad) printf("wrong block\n");
	return bad;
}
''', 'two threads use the cache; one displaces a block between the lookup and the lock of its slot by another', 'a thread gets the slot of another block', san='-O2')

NC = r'''
#include <asagi.h>
#include <netcdf.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
static void ncCheck(int e) { if (e != NC_NOERR) { printf("netcdf: %s\n", nc_strerror(e)); exit(3); } }
// a file with one variable; dim names d0, d1, ...; first and step of the coordinate variables (step 0: none)
static void ncWrite(const char *file, std::vector<size_t> len, std::vector<double> first, std::vector<double> step, const char *var = "z") {
	int f, v; std::vector<int> d(len.size()), c(len.size(), -1);
	ncCheck(nc_create(file, NC_NETCDF4 | NC_CLOBBER, &f));
	size_t total = 1;
	for (size_t i = 0; i < len.size(); i++) {
		std::string n = "d" + std::to_string(i);
		ncCheck(nc_def_dim(f, n.c_str(), len[i], &d[i]));
		if (step[i] != 0) ncCheck(nc_def_var(f, n.c_str(), NC_DOUBLE, 1, &d[i], &c[i]));
		total *= len[i];
	}
	ncCheck(nc_def_var(f, var, NC_INT, (int) len.size(), d.data(), &v));
	ncCheck(nc_enddef(f));
	for (size_t i = 0; i < len.size(); i++) if (c[i] >= 0) {
		std::vector<double> x(len[i]);
		for (size_t k = 0; k < len[i]; k++) x[k] = first[i] + step[i] * k;
		ncCheck(nc_put_var_double(f, c[i], x.data()));
	}
	std::vector<int> z(total);
	for (size_t k = 0; k < total; k++) z[k] = (int) k + 1;
	ncCheck(nc_put_var_int(f, v, z.data()));
	ncCheck(nc_close(f));
}
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''


OPEN = r'''
static asagi::Grid* grid(const char *file, const char *kind, std::vector<const char*> params = {}, asagi::Grid::Type type = asagi::Grid::INT) {
	asagi::Grid *g = asagi::Grid::create(type);
	g->setParam("GRID", kind);
	for (size_t i = 0; i + 1 < params.size(); i += 2) g->setParam(params[i], params[i + 1]);
	asagi::Grid::Error e = g->open(file);
	if (e != asagi::Grid::SUCCESS) { printf("open: %d\n", e); exit(1); }
	return g;
}
'''

seed('range-cell-desc', 'C12', [('grid/level/level.h', 'max += m_scaling[i] * (0.5 - NUMERIC_PRECISION);', 'max += std::abs(m_scaling[i]) * (0.5 - NUMERIC_PRECISION);')], NC + OPEN + r'''
int main() {
	ncWrite("f.nc", {4}, {3}, {-1});
	asagi::Grid *g = grid("f.nc", "FULL");
	CHECK(std::fabs(g->getMin(0) + 0.5) < 1e-6);
	CHECK(std::fabs(g->getMax(0) - 3.5) < 1e-6);
	delete g;
	return 0;
}
''', 'a cell centered grid with a descending coordinate variable', 'the lower end of the range is half a cell inside of the grid', mode='lib')

seed('load-pow2', 'C02', [('grid/level/cache.h', 'index2[i] = index[i] - (index[i] % this->blockSize(i));', 'index2[i] = index[i] & ~(this->blockSize(i) - 1);')], NC + OPEN + r'''
int main() {
	ncWrite("f.nc", {7}, {0}, {0});
	asagi::Grid *g = grid("f.nc", "CACHE", {"BLOCK-SIZE-0", "3", "CACHE-SIZE", "2"});
	for (int i = 6; i >= 0; i--) { double p = i; CHECK(g->getInt(&p) == i + 1); }
	delete g;
	return 0;
}
''', 'a cache grid whose block size is no power of two', 'blocks are loaded from a wrong position', mode='lib')

seed('blocks-round', 'C05', [('grid/level/blocked.h', 'm_blocks[i] = (this->size(i) + m_blockSize[i] - 1) / m_blockSize[i];', 'm_blocks[i] = (this->size(i) + m_blockSize[i] / 2) / m_blockSize[i];')], NC + OPEN + r'''
int main() {
	ncWrite("f.nc", {9, 3}, {0, 0}, {0, 0});
	asagi::Grid *g = grid("f.nc", "FULL", {"BLOCK-SIZE-0", "2", "BLOCK-SIZE-1", "4"});
	for (int i = 0; i < 9; i++) for (int k = 0; k < 3; k++) { double p[] = {(double) k, (double) i}; CHECK(g->getInt(p) == 3 * i + k + 1); }
	delete g;
	return 0;
}
''', 'the last block of a dimension is filled by less than half', 'the cells of that block belong to a block of another row or to none', mode='lib')

seed('time-dim-equal', 'C13', [('grid/level/blocked.h', 'if (timeDimension >= static_cast<int>(this->dimensions())) {', 'if (timeDimension > static_cast<int>(this->dimensions())) {')], NC + OPEN + r'''
int main() {
	ncWrite("f.nc", {3, 4}, {0, 0}, {0, 0});
	asagi::Grid *g = grid("f.nc", "FULL", {"TIME-DIMENSION", "2"});
	double p[] = {1, 2};
	CHECK(g->getInt(p) == 10);
	delete g;
	return 0;
}
''', 'TIME-DIMENSION is the number of dimensions', 'the block size of a dimension that does not exist is written', mode='lib')

seed('map-first-cut', 'C06', [('io/netcdfreader.h', 'for (int i = m_dimensions-1; pos[i] < 0 && i > 0; i--) {', 'for (int i = m_dimensions-1; pos[i] < 0 && i > 1; i--) {')], NC + r'''
int main() {
	// array of two ints per cell, 3x3 cells, blocks of 2x2
	int f, v, d[2]; nc_type t; int n = 2;
	ncCheck(nc_create("f.nc", NC_NETCDF4 | NC_CLOBBER, &f));
	ncCheck(nc_def_dim(f, "a", 3, &d[0])); ncCheck(nc_def_dim(f, "b", 3, &d[1]));
	ncCheck(nc_def_compound(f, 8, "pair", &t));
	ncCheck(nc_insert_array_compound(f, t, "p", 0, NC_INT, 1, &n));
	ncCheck(nc_def_var(f, "z", t, 2, d, &v)); ncCheck(nc_enddef(f));
	int z[18]; for (int i = 0; i < 18; i++) z[i] = i;
	ncCheck(nc_put_var(f, v, z)); ncCheck(nc_close(f));
	asagi::Grid *g = asagi::Grid::createArray(asagi::Grid::INT);
	g->setParam("GRID", "FULL"); g->setParam("BLOCK-SIZE-0", "2"); g->setParam("BLOCK-SIZE-1", "3");
	CHECK(g->open("f.nc") == asagi::Grid::SUCCESS);
	for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) {
		double p[] = {(double) k, (double) i}; int x[2];
		g->getBuf(x, p);
		CHECK(x[0] == 2 * (3 * i + k) && x[1] == x[0] + 1);
	}
	delete g;
	return 0;
}
''', 'an array or struct grid whose last dimension (in file order) is cut off in the last block', 'cells of rows before the last one are moved to a wrong place', mode='lib')

seed('convert-float', 'C10', [('types/basictype.h', '*buf = *static_cast<const T*>(data);', '*buf = static_cast<B>(static_cast<double>(*static_cast<const T*>(data)));')], r'''
#include <asagi.h>
#include <cmath>
#include <netcdf.h>
#include <cstdio>
int main() {
	int f, v, d; long z[2] = {9007199254740993L, -9007199254740993L};
	if (nc_create("f.nc", NC_NETCDF4 | NC_CLOBBER, &f) || nc_def_dim(f, "a", 2, &d) || nc_def_var(f, "z", NC_INT64, 1, &d, &v) || nc_enddef(f) || nc_put_var_long(f, v, z) || nc_close(f)) return 3;
	asagi::Grid *g = asagi::Grid::create(asagi::Grid::LONG);
	if (g->open("f.nc") != asagi::Grid::SUCCESS) return 1;
	for (int i = 0; i < 2; i++) { double p = i; if (g->getLong(&p) != z[i]) { printf("%ld\n", g->getLong(&p)); return 1; } }
	delete g;
	return 0;
}
''', 'integers of more than 53 bits', 'the value loses its lowest bits', mode='lib')

seed('leak-dims', 'C11', [('io/netcdfreader.cpp', '''			<< m_dimensions;

		nc_close(m_file);
		m_file = -1;''', '''			<< m_dimensions;

		m_file = -1;''')], NC + r'''
#include <dirent.h>
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
int main() {
	ncWrite("f.nc", {2, 2, 2, 2, 2}, {0, 0, 0, 0, 0}, {0, 0, 0, 0, 0});
	ncWrite("g.nc", {2}, {0}, {0});
	int before = fds();
	for (int i = 0; i < 3; i++) {
		asagi::Grid *g = asagi::Grid::create(asagi::Grid::INT);
		CHECK(g->open("f.nc") == asagi::Grid::UNSUPPORTED_DIMENSIONS);
		delete g;
	}
	CHECK(fds() == before);
	return 0;
}
''', 'a variable with more dimensions than supported', 'the file stays open', mode='lib')

seed('pass-shared-buffer', 'C03', [('grid/level/passthrough.h', '''		std::fill_n(size, MAX_DIMENSIONS, 1);
''', '''		for (unsigned int i = 0; i < this->dimensions(); i++)
			size[i] = (index[i] + 1 < this->size(i) && i + 1 == this->dimensions() && this->dimensions() > 2) ? 2 : 1;
''')], NC + OPEN + r'''
int main() {
	ncWrite("f.nc", {2, 3, 4}, {0, 0, 0}, {0, 0, 0});
	asagi::Grid *g = grid("f.nc", "PASS-THROUGH");
	for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) for (int m = 0; m < 4; m++) {
		double p[] = {(double) m, (double) k, (double) i};
		CHECK(g->getInt(p) == (i * 3 + k) * 4 + m + 1);
	}
	delete g;
	return 0;
}
''', 'a pass-through grid with three dimensions, any value but the last of a row', 'two values are read into the buffer for one', mode='lib', san='-fsanitize=address')

seed('scaling-length', 'C04', [('io/netcdfreader.h', 'return (last - first) / (size - 1);', 'return (last - first) / static_cast<int>(size - (first > last ? 0 : 1));')], NC + OPEN + r'''
int main() {
	ncWrite("f.nc", {8}, {7}, {-1});
	asagi::Grid *g = grid("f.nc", "FULL");
	for (int i = 0; i < 8; i++) { double p = 7 - i; CHECK(g->getInt(&p) == i + 1); }
	delete g;
	return 0;
}
''', 'a descending coordinate variable with more than a few points', 'coordinates are mapped to the wrong grid points', mode='lib')

seed('full-time-offset', 'C01', [('grid/level/blocked.h', 'blockId += index[i] / m_blockSize[i];', 'blockId += index[i] / (m_blocks[i] == 1 ? this->size(i) : m_blockSize[i]) % m_blocks[i == 3 ? 0 : i];')], NC + OPEN + r'''
int main() {
	ncWrite("f.nc", {2, 1, 1, 5}, {0, 0, 0, 0}, {0, 0, 0, 0});
	asagi::Grid *g = grid("f.nc", "FULL", {"BLOCK-SIZE-0", "2"});
	for (int i = 0; i < 2; i++) for (int k = 0; k < 5; k++) {
		double p[] = {(double) k, 0, 0, (double) i};
		CHECK(g->getInt(p) == i * 5 + k + 1);
	}
	delete g;
	return 0;
}
''', 'four dimensions, the last in file order is divided into more blocks than the first', 'values are taken from the wrong block', mode='lib')
