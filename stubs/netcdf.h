/* Model of the netCDF calls: one file whose contents the harness describes in v_nc.
 * A data variable v has v_nc.var[v].ndims dimensions of length len[]; its dimensions may have a coordinate variable.
 * The value of the cell with linear (row major) position p is v_nc_value(v, p), a function of the harness. */
#ifndef V_NETCDF_H
#define V_NETCDF_H
#include "v.h"
#include <stddef.h>
#include <string.h>
#ifndef V_NCVARS
#define V_NCVARS 1
#endif
#ifndef V_NCDIMS
#define V_NCDIMS 4
#endif
#ifndef V_NCOPENS
#define V_NCOPENS 4
#endif
typedef int nc_type;
enum { NC_NAT = 0, NC_BYTE = 1, NC_CHAR = 2, NC_SHORT = 3, NC_INT = 4, NC_LONG = 4, NC_FLOAT = 5, NC_DOUBLE = 6, NC_UBYTE = 7, NC_USHORT = 8, NC_UINT = 9, NC_INT64 = 10, NC_UINT64 = 11, NC_USER = 32 };
#define NC_NOWRITE 0
#define NC_WRITE 1
#define NC_MAX_NAME 256
#define NC_MAX_DIMS 1024
#define NC_MAX_VAR_DIMS 1024
#define NC_NOERR 0
#define NC_EBADID (-33)
#define NC_EINVAL (-36)
#define NC_ENOTVAR (-49)
#define NC_EEDGE (-57)
#define NC_EINVALCOORDS (-40)
struct v_ncvar {
	const char *name; int ndims; size_t len[V_NCDIMS]; bool coord[V_NCDIMS]; double first[V_NCDIMS], last[V_NCDIMS];
	size_t varsize; nc_type type;
};
struct v_ncfile {
	v_ncvar var[V_NCVARS];
	int opens, closes; bool isopen[V_NCOPENS]; bool open_fails; bool read_fails;
	unsigned long reads; /* calls that read data of a data variable */
	unsigned long cells; /* cells read */
};
extern v_ncfile v_nc;
/* the value in the file, as double for the typed reads; for untyped ones the harness writes the bytes */
#ifndef V_NCVAL
#define V_NCVAL double
#endif
V_NCVAL v_nc_value(int var, size_t pos);
void v_nc_bytes(int var, size_t pos, unsigned char *to);
static inline bool v_nc_ok(int id) { bool ok = id >= 10 && id < 10 + V_NCOPENS && v_nc.isopen[id - 10]; v_assert(ok, "netCDF is called with a file that is not open"); return ok; }
static inline bool v_streq(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return false; if (!*a) return true; } }
static inline int nc_open(const char *path, int mode, int *id) {
	if (v_nc.open_fails) { *id = -77; return 2; }
	v_assert(v_nc.opens < V_NCOPENS, "CAP: files"); v_assume(v_nc.opens < V_NCOPENS);
	int k = v_nc.opens++;
	v_nc.isopen[k] = true; *id = 10 + k; return NC_NOERR;
}
static inline int nc_close(int id) { if (!v_nc_ok(id)) return NC_EBADID; v_nc.isopen[id - 10] = false; v_nc.closes++; return NC_NOERR; }
/* variable ids: data variable v: v * 10, coordinate variable of its dimension d: v * 10 + 1 + d; dimension ids alike */
static inline int nc_inq_varid(int id, const char *name, int *varid) {
	if (!v_nc_ok(id)) return NC_EBADID;
	*varid = -78;
	for (int v = 0; v < V_NCVARS; v++) {
		if (v_nc.var[v].name && v_streq(name, v_nc.var[v].name)) { *varid = v * 10; return NC_NOERR; }
	}
	if (name[0] == 'c' && name[1] >= '0' && name[1] < '0' + V_NCVARS && name[2] >= '0' && name[2] < '0' + V_NCDIMS && !name[3]) {
		int v = name[1] - '0', d = name[2] - '0';
		if (d < v_nc.var[v].ndims && v_nc.var[v].coord[d]) { *varid = v * 10 + 1 + d; return NC_NOERR; }
	}
	return NC_ENOTVAR;
}
static inline int nc_inq_varndims(int id, int varid, int *n) { if (!v_nc_ok(id)) return NC_EBADID; *n = varid % 10 ? 1 : v_nc.var[varid / 10].ndims; return NC_NOERR; }
static inline int nc_inq_vardimid(int id, int varid, int *dims) {
	if (!v_nc_ok(id)) return NC_EBADID;
	for (int i = 0; i < v_nc.var[varid / 10].ndims; i++) dims[i] = (varid / 10) * 10 + 1 + i;
	return NC_NOERR;
}
static inline int nc_inq_dimlen(int id, int dim, size_t *len) { if (!v_nc_ok(id)) return NC_EBADID; *len = v_nc.var[dim / 10].len[dim % 10 - 1]; return NC_NOERR; }
static inline int nc_inq_dimname(int id, int dim, char *name) { if (!v_nc_ok(id)) return NC_EBADID; name[0] = 'c'; name[1] = '0' + dim / 10; name[2] = '0' + (dim % 10 - 1); name[3] = 0; return NC_NOERR; }
static inline int nc_inq_dim(int id, int dim, char *name, size_t *len) { if (name) nc_inq_dimname(id, dim, name); if (len) return nc_inq_dimlen(id, dim, len); return NC_NOERR; }
static inline int nc_inq_vartype(int id, int varid, nc_type *t) { if (!v_nc_ok(id)) return NC_EBADID; *t = varid % 10 ? NC_DOUBLE : v_nc.var[varid / 10].type; return NC_NOERR; }
static inline int nc_inq_var(int id, int varid, char *name, nc_type *t, int *nd, int *dims, int *natts) {
	if (t) nc_inq_vartype(id, varid, t); if (nd) nc_inq_varndims(id, varid, nd); if (dims) nc_inq_vardimid(id, varid, dims); if (natts) *natts = 0; return NC_NOERR; }
static inline int nc_inq_type(int id, nc_type t, char *name, size_t *size) {
	if (!v_nc_ok(id)) return NC_EBADID;
	if (name) name[0] = 0;
	if (size) {
		*size = 8;
		for (int v = 0; v < V_NCVARS; v++) if (v_nc.var[v].type == t) *size = v_nc.var[v].varsize;
	}
	return NC_NOERR;
}
static inline const char *nc_strerror(int) { return "netCDF error"; }
static inline int nc_get_var1_double(int id, int varid, const size_t *index, double *r) {
	if (!v_nc_ok(id)) return NC_EBADID;
	int v = varid / 10, d = varid % 10 - 1;
	if (d < 0) { v_assert(false, "a data variable is read as a coordinate"); return NC_EINVAL; }
	v_assert(*index < v_nc.var[v].len[d], "a coordinate outside the variable is read");
	*r = *index == 0 ? v_nc.var[v].first[d] : *index == v_nc.var[v].len[d] - 1 ? v_nc.var[v].last[d] : v_nondet_double();
	return NC_NOERR;
}
template<class T> static inline void v_nc_put(int v, size_t pos, T *to, size_t sz, T*) { *to = (T) v_nc_value(v, pos); }
/* hyperslab of a data variable; imap in elements. The strides of the file are those of its row major order. */
template<class T> static inline int v_nc_get(int id, int varid, const size_t *start, const size_t *count, const ptrdiff_t *stride, const ptrdiff_t *imap, T *to, bool bytes) {
	if (!v_nc_ok(id)) return NC_EBADID;
	v_assert(varid % 10 == 0, "a data variable is read");
	int v = varid / 10;
	const v_ncvar &x = v_nc.var[v];
	size_t s[V_NCDIMS], c[V_NCDIMS], m[V_NCDIMS], l[V_NCDIMS];
	size_t dense = 1;
	for (int i = V_NCDIMS - 1; i >= 0; i--) {
		bool in = i < x.ndims;
		s[i] = in ? start[i] : 0; c[i] = in ? count[i] : 1; l[i] = in ? x.len[i] : 1;
		m[i] = in ? (imap ? imap[i] : dense) : 0;
		if (in) dense *= c[i];
		v_assert(s[i] < l[i] && c[i] <= l[i] - s[i], "only cells of the variable are requested");
		v_assume(s[i] < l[i] && c[i] <= l[i] - s[i]);
		if (stride && in) v_assert(stride[i] == 1, "CAP: strides");
	}
	v_nc.reads++;
	if (v_nc.read_fails) return NC_EINVAL;
	size_t sz = bytes ? x.varsize : 1;
	size_t k[V_NCDIMS];
#define V_NCLOOP(d) for (k[d] = 0; k[d] < c[d]; k[d]++)
#if V_NCDIMS > 3
	V_NCLOOP(3)
#endif
#if V_NCDIMS > 2
	V_NCLOOP(2)
#endif
#if V_NCDIMS > 1
	V_NCLOOP(1)
#endif
	V_NCLOOP(0) {
		size_t pos = 0, o = 0;
		for (int i = 0; i < V_NCDIMS; i++) { pos = pos * l[i] + s[i] + k[i]; o += k[i] * m[i]; }
		v_nc_put(v, pos, to + o * sz, sz, to);
		v_nc.cells++;
	}
	return NC_NOERR;
}
static inline int nc_get_vara(int id, int v, const size_t *s, const size_t *c, void *p) {
	if (!v_nc_ok(id)) return NC_EBADID;
	/* untyped: the values are packed in the order of the request */
	v_assert(v % 10 == 0, "a data variable is read");
	const v_ncvar &x = v_nc.var[v / 10];
	size_t st[V_NCDIMS], ct[V_NCDIMS], l[V_NCDIMS], k[V_NCDIMS], n = 0;
	for (int i = 0; i < V_NCDIMS; i++) {
		bool in = i < x.ndims;
		st[i] = in ? s[i] : 0; ct[i] = in ? c[i] : 1; l[i] = in ? x.len[i] : 1;
		v_assert(st[i] < l[i] && ct[i] <= l[i] - st[i], "only cells of the variable are requested");
		v_assume(st[i] < l[i] && ct[i] <= l[i] - st[i]);
	}
	v_nc.reads++;
	V_NCLOOP(0)
#if V_NCDIMS > 1
	V_NCLOOP(1)
#endif
#if V_NCDIMS > 2
	V_NCLOOP(2)
#endif
#if V_NCDIMS > 3
	V_NCLOOP(3)
#endif
	{
		size_t pos = 0;
		for (int i = 0; i < V_NCDIMS; i++) pos = pos * l[i] + st[i] + k[i];
		v_nc_bytes(v / 10, pos, (unsigned char*) p + n * x.varsize);
		n++;
		v_nc.cells++;
	}
	return NC_NOERR;
}
#define V_NCTYPE(N, T) \
static inline int nc_get_varm_##N(int id, int v, const size_t *s, const size_t *c, const ptrdiff_t *st, const ptrdiff_t *m, T *p) { return v_nc_get(id, v, s, c, st, m, p, false); } \
static inline int nc_get_vars_##N(int id, int v, const size_t *s, const size_t *c, const ptrdiff_t *st, T *p) { return v_nc_get(id, v, s, c, st, 0, p, false); } \
static inline int nc_get_vara_##N(int id, int v, const size_t *s, const size_t *c, T *p) { return v_nc_get(id, v, s, c, 0, 0, p, false); } \
static inline int nc_get_var1_##N(int id, int v, const size_t *s, T *p) { size_t one[4] = {1, 1, 1, 1}; return v_nc_get(id, v, s, one, 0, 0, p, false); }
V_NCTYPE(uchar, unsigned char)
V_NCTYPE(int, int)
V_NCTYPE(long, long)
V_NCTYPE(float, float)
#undef V_NCTYPE
static inline int nc_get_varm_double(int id, int v, const size_t *s, const size_t *c, const ptrdiff_t *st, const ptrdiff_t *m, double *p) { return v_nc_get(id, v, s, c, st, m, p, false); }
static inline int nc_get_vara_double(int id, int v, const size_t *s, const size_t *c, double *p) { return v_nc_get(id, v, s, c, 0, 0, p, false); }
#endif
