/* Model of the MPI calls ASAGI makes. The processes are objects of one address space: v_rank() is the world rank of the code that
 * runs (a variable of the harness, or derived from the thread). Windows and messages go through tables. Results of one-sided
 * operations are undefined until the operation is completed; using a window or handle wrongly is a violation. */
#ifndef V_MPI_H
#define V_MPI_H
#include "v.h"
#include <pthread.h>
#include <string.h>
#ifndef V_RANKS
#define V_RANKS 2
#endif
typedef int MPI_Comm; typedef int MPI_Group; typedef int MPI_Win; typedef int MPI_Datatype; typedef int MPI_Request; typedef int MPI_Info; typedef int MPI_Op; typedef long MPI_Aint; typedef int MPI_Fint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;
enum { MPI_SUCCESS = 0, MPI_ERR_OTHER = 15 };
enum { MPI_COMM_NULL = 0, MPI_COMM_WORLD = 1, MPI_COMM_SELF = 2 };
enum { MPI_GROUP_NULL = 0, MPI_WIN_NULL = 0, MPI_REQUEST_NULL = 0, MPI_INFO_NULL = 0, MPI_DATATYPE_NULL = 0, MPI_UNDEFINED = -32766, MPI_PROC_NULL = -2 };
enum { MPI_BYTE = 1, MPI_CHAR, MPI_INT, MPI_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED, MPI_UNSIGNED_CHAR, V_MPI_FIRST_DERIVED = 16 };
enum { MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1 };
enum { MPI_LOCK_EXCLUSIVE = 1, MPI_LOCK_SHARED = 2, MPI_MODE_NOCHECK = 1024 };
enum { MPI_MAX = 1, MPI_MIN, MPI_SUM, MPI_LOR, MPI_LAND, MPI_REPLACE, MPI_NO_OP, MPI_BOR };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_IN_PLACE ((void*) 1)
#ifndef MPI_MAX_PROCESSOR_NAME
#define MPI_MAX_PROCESSOR_NAME 5
#endif
#ifndef V_OWN_RANK
static int v_cur_rank;
static inline int v_rank() { return v_cur_rank; }
#else
static int v_rank();
#endif
#ifdef V_OWN_MPI_ENTER
static void v_mpi_enter(); /* called by every MPI function */
#else
static inline void v_mpi_enter() {}
#endif
static int v_ranks = V_RANKS; /* processes in MPI_COMM_WORLD */
/* faults */
#ifdef V_MPI_FAULTS
static unsigned v_mpi_faults = V_MPI_FAULTS, v_mpi_failed;
V_NOINLINE bool v_mpi_fail() { if (v_mpi_faults && v_nondet_bool()) { v_mpi_faults--; v_mpi_failed++; return true; } return false; }
#define V_MAYFAIL() if (v_mpi_fail()) return MPI_ERR_OTHER
#else
#define V_MAYFAIL()
#endif

/* ---- memory ---- */
static unsigned v_mpi_allocs, v_mpi_frees;
static inline int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *p) { v_mpi_enter(); V_MAYFAIL(); v_mpi_allocs++; *(void**) p = ::operator new(n); return MPI_SUCCESS; }
static inline int MPI_Free_mem(void *p) { v_mpi_enter(); v_mpi_frees++; ::operator delete(p); return MPI_SUCCESS; }

/* ---- datatypes ---- */
#ifndef V_TYPES
#define V_TYPES 4
#endif
#ifndef V_MEMBERS
#define V_MEMBERS 3
#endif
struct v_type { bool live, committed; unsigned size, extent; int n; MPI_Aint displ[V_MEMBERS]; int len[V_MEMBERS]; MPI_Datatype member[V_MEMBERS]; };
static v_type v_types[V_TYPES];
static int v_ntypes;
V_NOINLINE unsigned v_type_extent(MPI_Datatype t) {
	switch (t) {
	case MPI_BYTE: case MPI_CHAR: case MPI_UNSIGNED_CHAR: return 1;
	case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4;
	case MPI_LONG: case MPI_DOUBLE: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: return 8;
	}
	v_assert(t >= V_MPI_FIRST_DERIVED && t < V_MPI_FIRST_DERIVED + V_TYPES, "a valid MPI data type is used"); v_assume(t >= V_MPI_FIRST_DERIVED && t < V_MPI_FIRST_DERIVED + V_TYPES);
	v_assert(v_types[t - V_MPI_FIRST_DERIVED].live && v_types[t - V_MPI_FIRST_DERIVED].committed, "a data type used for communication is committed");
	return v_types[t - V_MPI_FIRST_DERIVED].extent;
}
static inline unsigned v_type_ext0(MPI_Datatype t) { return t >= V_MPI_FIRST_DERIVED ? v_types[t - V_MPI_FIRST_DERIVED].extent : v_type_extent(t); }
V_NOINLINE MPI_Datatype v_type_new(unsigned size, unsigned ext) {
	v_assert(v_ntypes < V_TYPES, "CAP: data types"); v_assume(v_ntypes < V_TYPES);
	v_type *t = &v_types[v_ntypes]; t->live = true; t->committed = false; t->size = size; t->extent = ext; t->n = 0;
	return V_MPI_FIRST_DERIVED + v_ntypes++;
}
static inline int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *r) {
	v_mpi_enter(); V_MAYFAIL(); *r = v_type_new(n * v_type_ext0(t), n * v_type_ext0(t));
	v_type *x = &v_types[*r - V_MPI_FIRST_DERIVED]; x->n = 1; x->displ[0] = 0; x->len[0] = n; x->member[0] = t;
	return MPI_SUCCESS;
}
V_NOINLINE int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *ts, MPI_Datatype *r) {
	v_mpi_enter(); V_MAYFAIL();
	unsigned size = 0, ext = 0;
	for (int i = 0; i < n; i++) { unsigned e = bl[i] * v_type_ext0(ts[i]); size += e; if (d[i] + e > ext) ext = d[i] + e; }
	*r = v_type_new(size, ext);
	v_assert(n <= V_MEMBERS, "CAP: members of a struct"); v_assume(n <= V_MEMBERS);
	v_type *x = &v_types[*r - V_MPI_FIRST_DERIVED]; x->n = n;
	for (int i = 0; i < n; i++) { x->displ[i] = d[i]; x->len[i] = bl[i]; x->member[i] = ts[i]; }
	return MPI_SUCCESS;
}
static inline int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *r) {
	v_mpi_enter(); V_MAYFAIL();
	v_assert(lb == 0, "CAPOP: lower bound");
	*r = v_type_new(v_types[t - V_MPI_FIRST_DERIVED].size, ext);
	v_type *x = &v_types[*r - V_MPI_FIRST_DERIVED], *y = &v_types[t - V_MPI_FIRST_DERIVED]; x->n = y->n;
	for (int i = 0; i < V_MEMBERS; i++) { x->displ[i] = y->displ[i]; x->len[i] = y->len[i]; x->member[i] = y->member[i]; }
	return MPI_SUCCESS;
}
static inline int MPI_Type_commit(MPI_Datatype *t) { v_mpi_enter(); V_MAYFAIL(); v_types[*t - V_MPI_FIRST_DERIVED].committed = true; return MPI_SUCCESS; }
V_NOINLINE int MPI_Type_free(MPI_Datatype *t) {
	v_mpi_enter();
	v_assert(*t >= V_MPI_FIRST_DERIVED && *t < V_MPI_FIRST_DERIVED + V_TYPES && v_types[*t - V_MPI_FIRST_DERIVED].live, "a data type that exists is freed");
	v_assume(*t >= V_MPI_FIRST_DERIVED && *t < V_MPI_FIRST_DERIVED + V_TYPES);
	v_types[*t - V_MPI_FIRST_DERIVED].live = false; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS;
}
static inline int MPI_Type_size(MPI_Datatype t, int *s) { *s = t >= V_MPI_FIRST_DERIVED ? v_types[t - V_MPI_FIRST_DERIVED].size : v_type_extent(t); return MPI_SUCCESS; }
/* copy of n elements */
V_NOINLINE void v_elems(MPI_Datatype t, unsigned char *to, const unsigned char *from, unsigned long n) {
	if (t == MPI_LONG) { for (unsigned long i = 0; i < n; i++) ((long*) to)[i] = ((const long*) from)[i]; }
	else if (t == MPI_INT) { for (unsigned long i = 0; i < n; i++) ((int*) to)[i] = ((const int*) from)[i]; }
	else if (t == MPI_UNSIGNED_LONG) { for (unsigned long i = 0; i < n; i++) ((unsigned long*) to)[i] = ((const unsigned long*) from)[i]; }
	else { unsigned long b = n * v_type_extent(t); for (unsigned long i = 0; i < b; i++) to[i] = from[i]; }
}

/* ---- communicators and groups ---- */
#ifndef V_COMMS
#define V_COMMS 10
#endif
struct v_group { bool live; int n; int member[V_RANKS]; };
struct v_comm { bool live; int ctx, dups; v_group g; int owner; };
static v_comm v_comms[V_COMMS];
static int v_ncomms = 3;
static v_group v_groups[V_COMMS];
static int v_ngroups = 1;
static unsigned v_comm_dups, v_comm_frees;
static void v_comms_init() {
	v_comms[1].live = v_comms[2].live = true; v_comms[1].ctx = 1; v_comms[2].ctx = 2;
	v_comms[1].g.n = v_ranks; for (int i = 0; i < V_RANKS; i++) v_comms[1].g.member[i] = i;
	v_comms[2].g.n = 1;
}
V_NOINLINE v_comm *v_getcomm(MPI_Comm c) {
	v_assert(c > 0 && c < V_COMMS && v_comms[c].live, "an existing communicator is used"); v_assume(c > 0 && c < V_COMMS && v_comms[c].live);
	if (c == MPI_COMM_SELF) v_comms[2].g.member[0] = v_rank();
	return &v_comms[c];
}
V_NOINLINE int v_comm_rank(MPI_Comm h) { v_comm *c = v_getcomm(h); int r = -1; for (int i = 0; i < V_RANKS; i++) if (i < c->g.n && c->g.member[i] == v_rank()) r = i; return r; }
V_NOINLINE int v_newcomm() { v_assert(v_ncomms < V_COMMS, "CAP: communicators"); v_assume(v_ncomms < V_COMMS); return v_ncomms++; }
V_NOINLINE int MPI_Comm_dup(MPI_Comm h, MPI_Comm *r) {
	v_mpi_enter();
#ifdef V_MPI_FAULTS
	if (v_mpi_fail()) { *r = v_nondet_bool() ? MPI_COMM_NULL : 77; return MPI_ERR_OTHER; }
#endif
	v_comm *c = v_getcomm(h);
	int k = v_newcomm(); v_comms[k] = *c; v_comms[k].dups = 0; v_comms[k].owner = v_rank();
	v_comms[k].ctx = c->ctx * 8 + 3 + c->dups / (h == MPI_COMM_WORLD ? v_ranks : 1); c->dups++;
	v_comm_dups++;
	*r = k; return MPI_SUCCESS;
}
V_NOINLINE int MPI_Comm_free(MPI_Comm *h) { v_mpi_enter(); v_assert(*h > 2, "a communicator the library created is freed"); v_getcomm(*h)->live = false; v_comm_frees++; *h = MPI_COMM_NULL; return MPI_SUCCESS; }
static inline int MPI_Comm_rank(MPI_Comm h, int *r) { v_mpi_enter(); V_MAYFAIL(); *r = v_comm_rank(h); return MPI_SUCCESS; }
static inline int MPI_Comm_size(MPI_Comm h, int *r) { v_mpi_enter(); V_MAYFAIL(); *r = v_getcomm(h)->g.n; return MPI_SUCCESS; }
V_NOINLINE int MPI_Comm_group(MPI_Comm h, MPI_Group *g) { v_mpi_enter(); V_MAYFAIL(); v_assert(v_ngroups < V_COMMS, "CAP: groups"); v_assume(v_ngroups < V_COMMS); v_groups[v_ngroups] = v_getcomm(h)->g; v_groups[v_ngroups].live = true; *g = v_ngroups++; return MPI_SUCCESS; }
V_NOINLINE int MPI_Group_free(MPI_Group *g) { v_mpi_enter(); v_assert(*g > 0 && *g < v_ngroups && v_groups[*g].live, "an existing group is freed"); v_groups[*g].live = false; *g = 0; return MPI_SUCCESS; }
V_NOINLINE int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb) {
	v_mpi_enter();
	v_assert(a > 0 && a < V_COMMS && b > 0 && b < V_COMMS && v_groups[a].live && v_groups[b].live, "existing groups are used"); v_assume(a > 0 && a < V_COMMS && b > 0 && b < V_COMMS);
	for (int i = 0; i < n; i++) {
		v_assert(ra[i] >= 0 && ra[i] < v_groups[a].n, "a rank of the group is translated"); v_assume(ra[i] >= 0 && ra[i] < V_RANKS);
		int w = v_groups[a].member[ra[i]], r = MPI_UNDEFINED;
		for (int k = 0; k < V_RANKS; k++) if (k < v_groups[b].n && v_groups[b].member[k] == w) r = k;
		rb[i] = r;
	}
	return MPI_SUCCESS;
}
static unsigned v_barriers;
static inline int MPI_Barrier(MPI_Comm h) { v_mpi_enter(); v_getcomm(h); v_barriers++; return MPI_SUCCESS; }
/* collective operations with data: the harness decides what the other processes contribute */
int MPI_Comm_split(MPI_Comm, int color, int key, MPI_Comm*);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Get_processor_name(char*, int*);

/* ---- windows ---- */
#ifndef V_WINS
#define V_WINS 3
#endif
#ifndef V_PEND
#define V_PEND 2
#endif
struct v_pend { bool live; int kind; /* 1 get 2 put 3 fetch+replace 4 compare+swap */ unsigned char *local, *remote; unsigned long n; MPI_Datatype t; long val, cmp; };
struct v_win {
	bool live[V_RANKS]; unsigned char *base[V_RANKS]; unsigned long size[V_RANKS]; int unit[V_RANKS];
	int held[V_RANKS][V_RANKS]; /* [target][origin]: lock type held */
	v_pend pend[V_RANKS][V_PEND]; /* per origin */
	int target[V_RANKS];
	int freed;
};
static v_win v_wins[V_WINS + 1];
static int v_wincount[V_RANKS];
static unsigned v_win_creates, v_win_frees;
V_NOINLINE int MPI_Win_create(void *base, MPI_Aint size, int unit, MPI_Info, MPI_Comm c, MPI_Win *w) {
	v_mpi_enter(); V_MAYFAIL(); v_getcomm(c);
	int r = v_rank(), k = ++v_wincount[r];
	v_assert(k <= V_WINS, "CAP: windows"); v_assume(k <= V_WINS);
	v_wins[k].live[r] = true; v_wins[k].base[r] = (unsigned char*) base; v_wins[k].size[r] = size; v_wins[k].unit[r] = unit;
	v_win_creates++;
	*w = k; return MPI_SUCCESS;
}
V_NOINLINE v_win *v_getwin(MPI_Win w) { v_assert(w > 0 && w <= V_WINS && v_wins[w].live[v_rank()], "an existing window is used"); v_assume(w > 0 && w <= V_WINS); return &v_wins[w]; }
V_NOINLINE int MPI_Win_free(MPI_Win *w) { v_mpi_enter(); v_win *x = v_getwin(*w); x->live[v_rank()] = false; v_win_frees++; *w = MPI_WIN_NULL; return MPI_SUCCESS; }
V_NOINLINE bool v_win_conflict(v_win *x, int target, int type) {
	for (int o = 0; o < V_RANKS; o++) if (o != v_rank() && (x->held[target][o] == MPI_LOCK_EXCLUSIVE || (x->held[target][o] && type == MPI_LOCK_EXCLUSIVE))) return true;
	return false;
}
#ifdef V_THREADS
struct v_winwait { v_win *w; int target, type; };
static v_winwait v_winwaits[V_MAXTHREADS];
V_NOINLINE void *v_winwait_set(v_win *x, int target, int type) { v_winwait *a = &v_winwaits[v_tid]; a->w = x; a->target = target; a->type = type; return a; }
#endif
V_NOINLINE void v_win_take(v_win *x, int target, int type) {
	v_assert(!x->held[target][v_rank()], "a process locks a window once at a time"); x->held[target][v_rank()] = type; x->target[v_rank()] = target;
}
static inline int MPI_Win_lock(int type, int target, int mode, MPI_Win w) {
	v_mpi_enter();
	v_yield();
	v_win *x = v_getwin(w);
	v_assert(target >= 0 && target < V_RANKS && target < v_ranks, "the target of a window lock exists"); v_assume(target >= 0 && target < V_RANKS);
	if (mode & MPI_MODE_NOCHECK) v_assert(!v_win_conflict(x, target, type), "NOCHECK: nobody holds a conflicting lock");
	else if (v_win_conflict(x, target, type)) {
#ifdef V_THREADS
		v_deadlock(V_MPI, v_winwait_set(x, target, type));
#else
		v_assert(false, "DEADLOCK: the window is locked by another process"); v_assume(false);
#endif
	}
	v_win_take(x, target, type);
	return MPI_SUCCESS;
}
V_NOINLINE void v_win_complete(v_win *x) {
	for (int i = 0; i < V_PEND; i++) {
		v_pend *p = &x->pend[v_rank()][i];
		if (!p->live) continue;
		p->live = false;
		if (p->kind == 1) v_elems(p->t, p->local, p->remote, p->n);
		else if (p->kind == 2) v_elems(p->t, p->remote, p->local, p->n);
		else { long *m = (long*) p->remote; *(long*) p->local = *m; if (p->kind == 3 || *m == p->cmp) *m = p->val; }
	}
}
V_NOINLINE int v_win_release(MPI_Win w, int target) {
	v_win *x = v_getwin(w);
	v_assert(target >= 0 && target < V_RANKS && x->held[target][v_rank()], "a window lock that is held is released"); v_assume(target >= 0 && target < V_RANKS);
	v_win_complete(x); x->held[target][v_rank()] = 0; return MPI_SUCCESS;
}
static inline int MPI_Win_unlock(int target, MPI_Win w) { v_mpi_enter(); v_yield(); return v_win_release(w, target); }
V_NOINLINE int v_win_flush(int target, MPI_Win w) { v_win *x = v_getwin(w); v_assert(target >= 0 && target < V_RANKS && x->held[target][v_rank()], "the window is locked while it is flushed"); v_win_complete(x); return MPI_SUCCESS; }
static inline int MPI_Win_flush(int target, MPI_Win w) { v_mpi_enter(); v_yield(); return v_win_flush(target, w); }
static inline int MPI_Win_flush_local(int target, MPI_Win w) { v_mpi_enter(); v_yield(); return v_win_flush(target, w); }
V_NOINLINE unsigned char *v_win_addr(v_win *x, int target, MPI_Aint disp, unsigned long bytes) {
	v_assert(target >= 0 && target < V_RANKS, "an existing process is accessed"); v_assume(target >= 0 && target < V_RANKS);
	v_assert(x->held[target][v_rank()], "the window is locked while it is accessed");
	v_assert(disp >= 0 && disp * x->unit[target] + bytes <= x->size[target], "an access stays inside of the window"); v_assume(disp >= 0 && disp * x->unit[target] + bytes <= x->size[target]);
	unsigned char *r = 0;
	for (int i = 0; i < V_RANKS; i++) if (i == target) r = x->base[i] + disp * x->unit[i];
	return r;
}
V_NOINLINE void v_win_post(v_win *x, int kind, void *local, unsigned char *remote, unsigned long n, MPI_Datatype t, long val, long cmp) {
	int k = -1;
	for (int i = V_PEND - 1; i >= 0; i--) if (!x->pend[v_rank()][i].live) k = i;
	v_assert(k >= 0, "CAP: pending operations"); v_assume(k >= 0);
	v_pend *p = &x->pend[v_rank()][k]; p->live = true; p->kind = kind; p->local = (unsigned char*) local; p->remote = remote; p->n = n; p->t = t; p->val = val; p->cmp = cmp;
}
V_NOINLINE int MPI_Get(void *to, int n, MPI_Datatype t, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w) {
	v_mpi_enter(); v_win *x = v_getwin(w);
	v_assert(n >= 0 && t == tt && n == tn, "origin and target describe the same data");
	unsigned char *r = v_win_addr(x, target, disp, n * (unsigned long) v_type_extent(t));
	if (t == MPI_LONG) for (int i = 0; i < n; i++) ((long*) to)[i] = 0x5a5a5a5a;
	v_win_post(x, 1, to, r, n, t, 0, 0); return MPI_SUCCESS;
}
V_NOINLINE int MPI_Put(const void *from, int n, MPI_Datatype t, int target, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w) {
	v_mpi_enter(); v_win *x = v_getwin(w);
	v_assert(n >= 0 && t == tt && n == tn, "origin and target describe the same data");
	v_win_post(x, 2, (void*) from, v_win_addr(x, target, disp, n * (unsigned long) v_type_extent(t)), n, t, 0, 0); return MPI_SUCCESS;
}
V_NOINLINE int MPI_Fetch_and_op(const void *val, void *res, MPI_Datatype t, int target, MPI_Aint disp, MPI_Op op, MPI_Win w) {
	v_mpi_enter(); v_win *x = v_getwin(w);
	v_assert(t == MPI_LONG && op == MPI_REPLACE, "CAPOP: modelled operation");
	unsigned char *r = v_win_addr(x, target, disp, 8);
	*(long*) res = 0x5a5a5a5a;
	v_win_post(x, 3, res, r, 1, t, *(const long*) val, 0); return MPI_SUCCESS;
}
V_NOINLINE int MPI_Compare_and_swap(const void *val, const void *cmp, void *res, MPI_Datatype t, int target, MPI_Aint disp, MPI_Win w) {
	v_mpi_enter(); v_win *x = v_getwin(w);
	v_assert(t == MPI_LONG, "CAPOP: modelled operation");
	unsigned char *r = v_win_addr(x, target, disp, 8);
	*(long*) res = 0x5a5a5a5a;
	v_win_post(x, 4, res, r, 1, t, *(const long*) val, *(const long*) cmp); return MPI_SUCCESS;
}

/* ---- messages ---- */
#ifndef V_MSGS
#define V_MSGS 4
#endif
#ifndef V_MSGBYTES
#define V_MSGBYTES 8
#endif
enum { V_MSG_FREE = 0, V_MSG_SENT, V_MSG_MATCHED };
struct v_msg { int state, ctx, src, dst, tag; unsigned len; const unsigned char *buf; unsigned char data[V_MSGBYTES]; unsigned seq; MPI_Datatype t; };
static v_msg v_msgs[V_MSGS];
static unsigned v_msgseq;
V_NOINLINE int v_post(const void *p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
	v_comm *x = v_getcomm(c);
	v_assert(dst >= 0 && dst < x->g.n, "the destination of a message exists"); v_assume(dst >= 0 && dst < V_RANKS);
	v_assert(tag >= 0 && tag <= 32767, "tags have a value every MPI library supports");
	int k = -1;
	for (int i = V_MSGS - 1; i >= 0; i--) if (v_msgs[i].state == V_MSG_FREE) k = i;
	v_assert(k >= 0, "CAP: messages"); v_assume(k >= 0);
	v_msg *m = &v_msgs[k];
	m->state = V_MSG_SENT; m->ctx = x->ctx; m->src = v_comm_rank(c); m->dst = x->g.member[dst]; m->tag = tag; m->len = n; m->t = t; m->seq = v_msgseq++;
	v_assert(n * v_type_extent(t) <= V_MSGBYTES, "CAP: message size"); v_assume(n * v_type_extent(t) <= V_MSGBYTES);
	v_elems(t, m->data, (const unsigned char*) p, n);
	return k;
}
V_NOINLINE bool v_matches(v_msg *m, int ctx, int src, int tag) { return m->state == V_MSG_SENT && m->ctx == ctx && m->dst == v_rank() && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag); }
/* the messages of one source arrive in order, those of several sources in any order */
V_NOINLINE int v_match(int src, int tag, MPI_Comm c) {
	int ctx = v_getcomm(c)->ctx, any = -1;
	for (int i = 0; i < V_MSGS; i++) if (v_matches(&v_msgs[i], ctx, src, tag)) any = i;
	if (any < 0) return -1;
	int k = (int) v_range(0, V_MSGS - 1);
	v_assume(v_matches(&v_msgs[k], ctx, src, tag));
	for (int i = 0; i < V_MSGS; i++) v_assume(!(v_matches(&v_msgs[i], ctx, src, tag) && v_msgs[i].src == v_msgs[k].src && v_msgs[i].seq < v_msgs[k].seq));
	return k;
}
V_NOINLINE void v_take(int k, void *p, int n, MPI_Datatype t, MPI_Status *s, bool sync) {
	v_msg *m = &v_msgs[k];
	v_assert((int) m->len <= n && m->t == t, "a message fits the buffer it is received into");
	v_elems(t, (unsigned char*) p, m->data, m->len);
	if (s) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->MPI_ERROR = 0; }
	m->state = V_MSG_MATCHED;
}
#ifdef V_THREADS
struct v_recvwait { int kind, src, tag, comm, rank, msg; };
static v_recvwait v_recvwaits[V_MAXTHREADS];
enum { V_MPI_RECV = 4, V_MPI_SSEND = 5 };
V_NOINLINE void *v_recvwait_set(int src, int tag, MPI_Comm c, int msg) { v_recvwait *a = &v_recvwaits[v_tid]; a->src = src; a->tag = tag; a->comm = v_getcomm(c)->ctx; a->rank = v_rank(); a->msg = msg; return a; }
/* to be called by the harness's v_enabled */
V_NOINLINE bool v_mpi_enabled(unsigned kind, void *obj) {
	if (kind == V_MPI) { v_winwait *a = (v_winwait*) obj; int me = (int)(a - v_winwaits); (void) me; for (int o = 0; o < V_RANKS; o++) if (a->w->held[a->target][o] == MPI_LOCK_EXCLUSIVE || (a->w->held[a->target][o] && a->type == MPI_LOCK_EXCLUSIVE)) return false; return true; }
	if (kind == V_MPI_RECV) { v_recvwait *a = (v_recvwait*) obj; for (int i = 0; i < V_MSGS; i++) { v_msg *m = &v_msgs[i]; if (m->state == V_MSG_SENT && m->ctx == a->comm && m->dst == a->rank && (a->src == MPI_ANY_SOURCE || m->src == a->src) && (a->tag == MPI_ANY_TAG || m->tag == a->tag)) return true; } return false; }
	if (kind == V_MPI_SSEND) { v_recvwait *a = (v_recvwait*) obj; return v_msgs[a->msg].state != V_MSG_SENT; }
	return true;
}
#endif
static inline int MPI_Send(const void *p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { v_mpi_enter(); v_yield(); int k = v_post(p, n, t, dst, tag, c); (void) k; return MPI_SUCCESS; }
static inline int MPI_Ssend(const void *p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
	v_mpi_enter();
	v_yield(); int k = v_post(p, n, t, dst, tag, c);
#ifdef V_THREADS
	v_yield();
	if (v_msgs[k].state == V_MSG_SENT) v_deadlock(V_MPI_SSEND, v_recvwait_set(0, 0, c, k));
	v_msgs[k].state = V_MSG_FREE;
#endif
	return MPI_SUCCESS;
}
static inline int MPI_Isend(const void *p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r) { v_mpi_enter(); v_yield(); *r = 1 + v_post(p, n, t, dst, tag, c); return MPI_SUCCESS; }
static inline int MPI_Issend(const void *p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r) { v_mpi_enter(); v_yield(); *r = 101 + v_post(p, n, t, dst, tag, c); return MPI_SUCCESS; }
/* a send completes at last (the caller polls) */
static inline int MPI_Test(MPI_Request *r, int *done, MPI_Status *) {
	v_mpi_enter();
	v_assert(*r != MPI_REQUEST_NULL, "a pending request is tested");
#ifdef V_THREADS
	if (*r > 100) { v_yield(); if (v_msgs[*r - 101].state == V_MSG_SENT) v_deadlock(V_MPI_SSEND, v_recvwait_set(0, 0, MPI_COMM_WORLD, *r - 101)); v_msgs[*r - 101].state = V_MSG_FREE; }
#endif
	*r = MPI_REQUEST_NULL; *done = 1; return MPI_SUCCESS;
}
static inline int MPI_Wait(MPI_Request *r, MPI_Status *s) { int d; return MPI_Test(r, &d, s); }
static inline int MPI_Recv(void *p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) {
	v_mpi_enter();
	v_yield();
	int k = v_match(src, tag, c);
	if (k < 0) {
#ifdef V_THREADS
		v_deadlock(V_MPI_RECV, v_recvwait_set(src, tag, c, 0));
		k = v_match(src, tag, c);
		v_assume(k >= 0);
#else
		v_assert(false, "DEADLOCK: no message arrives"); v_assume(false);
#endif
	}
	v_take(k, p, n, t, s, false);
#ifdef V_FREE_MSGS
	v_msgs[k].state = V_MSG_FREE;
#endif
	return MPI_SUCCESS;
}
static inline int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *s) {
	v_mpi_enter();
	int k = v_match(src, tag, c);
	*flag = k >= 0;
	if (k >= 0 && s) { s->MPI_SOURCE = v_msgs[k].src; s->MPI_TAG = v_msgs[k].tag; }
	return MPI_SUCCESS;
}
static inline MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
static inline MPI_Comm MPI_Comm_f2c(MPI_Fint c) { return c; }
#endif
