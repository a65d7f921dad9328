/* Model of the pthread calls. With V_THREADS every call is a scheduling point and blocking is visible to the
 * scheduler; without it there is one thread, and blocking is a deadlock. */
#ifndef V_PTHREAD_H
#define V_PTHREAD_H
#include "v.h"
#include <errno.h>
#ifndef V_MAXTHREADS
#define V_MAXTHREADS 4
#endif
/* the system's types may already be declared */
#include <sys/types.h>
#define pthread_mutex_t v_pthread_mutex_t
#define pthread_cond_t v_pthread_cond_t
#define pthread_mutexattr_t v_pthread_mutexattr_t
#define pthread_condattr_t v_pthread_condattr_t
#define pthread_attr_t v_pthread_attr_t
#define pthread_spinlock_t v_pthread_spinlock_t
#define pthread_key_t v_pthread_key_t
#define pthread_once_t v_pthread_once_t
#define pthread_t v_pthread_t
typedef unsigned long pthread_t;
typedef struct { unsigned owner, count, type, pad; } pthread_mutex_t;
typedef struct { unsigned waiting; /* bit t: thread t waits */ unsigned woken; pthread_mutex_t *m; } pthread_cond_t;
typedef struct { unsigned type; } pthread_mutexattr_t;
typedef struct { int x; } pthread_condattr_t;
typedef struct { int x; } pthread_attr_t;
typedef unsigned pthread_key_t;
typedef int pthread_once_t;
typedef pthread_mutex_t pthread_spinlock_t;
enum { PTHREAD_PROCESS_PRIVATE = 0, PTHREAD_PROCESS_SHARED = 1 };
#define PTHREAD_MUTEX_INITIALIZER {0, 0, 0, 0}
#define PTHREAD_COND_INITIALIZER {0, 0, 0}
#define PTHREAD_ONCE_INIT 0
enum { PTHREAD_MUTEX_NORMAL = 0, PTHREAD_MUTEX_DEFAULT = 0, PTHREAD_MUTEX_RECURSIVE = 1, PTHREAD_MUTEX_ERRORCHECK = 2 };
#define V_NOINLINE __attribute__((noinline)) static
enum { V_MUTEX = 1, V_COND = 2, V_MPI = 3, V_USER = 10 };
#ifndef V_THREADS
static inline unsigned v_self() { return 0; }
#else
static inline unsigned v_self() { return v_tid; }
#endif
static inline void v_deadlock(unsigned kind, void *obj) {
#ifndef V_THREADS
	v_assert(false, "DEADLOCK: the only thread blocks for ever");
	v_assume(false);
#else
	v_block(kind, obj);
#endif
}
static inline int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { m->owner = 0; m->count = 0; m->type = a ? a->type : 0; return 0; }
static inline int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
static inline int pthread_mutexattr_init(pthread_mutexattr_t *a) { a->type = 0; return 0; }
static inline int pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { a->type = t; return 0; }
static inline int pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return 0; }
V_NOINLINE bool v_mutex_free(pthread_mutex_t *m) { return m->owner == 0 || (m->type == PTHREAD_MUTEX_RECURSIVE && m->owner == v_self() + 1); }
V_NOINLINE void v_mutex_take(pthread_mutex_t *m) { v_assert(m->owner == 0 || m->owner == v_self() + 1, "mutex model"); m->owner = v_self() + 1; m->count++; }
V_NOINLINE int v_mutex_release(pthread_mutex_t *m) {
	if (m->owner != v_self() + 1 && m->owner != 0) {
		/* unlocking a mutex another thread holds is undefined */
		v_assert(false, "a mutex locked by another thread is unlocked");
	}
	if (m->owner == 0)
		v_assert(false, "a mutex that is not locked is unlocked");
	if (m->count > 0) m->count--;
	if (m->count == 0) m->owner = 0;
	return 0;
}
static inline int pthread_mutex_lock(pthread_mutex_t *m) { v_wait(v_mutex_free(m), V_MUTEX, m); v_mutex_take(m); return 0; }
static inline int pthread_mutex_trylock(pthread_mutex_t *m) { v_yield(); if (!v_mutex_free(m)) return EBUSY; v_mutex_take(m); return 0; }
/* the additional scheduling points of V_FINE only matter for accesses that no lock protects */
#ifdef V_FINE
static inline void v_fine() { v_yield(); }
#else
static inline void v_fine() {}
#endif
static inline int pthread_mutex_unlock(pthread_mutex_t *m) { v_fine(); int r = v_mutex_release(m); v_yield(); return r; }
static inline int pthread_spin_init(pthread_spinlock_t *m, int) { m->owner = 0; m->count = 0; m->type = 0; return 0; }
static inline int pthread_spin_destroy(pthread_spinlock_t *m) { return 0; }
static inline int pthread_spin_lock(pthread_spinlock_t *m) { return pthread_mutex_lock(m); }
static inline int pthread_spin_trylock(pthread_spinlock_t *m) { return pthread_mutex_trylock(m); }
static inline int pthread_spin_unlock(pthread_spinlock_t *m) { return pthread_mutex_unlock(m); }
static inline int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { c->waiting = 0; c->woken = 0; return 0; }
static inline int pthread_cond_destroy(pthread_cond_t *c) { return 0; }
/* A waiter may continue after a signal or broadcast that came after it started to wait, and with V_SPURIOUS at
 * any time. */
V_NOINLINE void v_cond_enter(pthread_cond_t *c) { c->waiting |= 1u << v_self(); c->woken &= ~(1u << v_self()); }
V_NOINLINE bool v_cond_woken(pthread_cond_t *c, unsigned t) { return (c->woken >> t) & 1; }
#ifdef V_SPURIOUS
static unsigned v_spurious_left = V_SPURIOUS;
#else
static const unsigned v_spurious_left = 0;
#endif
/* a waiter continues once it is woken and the mutex is free */
V_NOINLINE bool v_cond_ready(pthread_cond_t *c, unsigned t) { return (v_cond_woken(c, t) || v_spurious_left) && c->m->owner == 0; }
V_NOINLINE void v_cond_leave(pthread_cond_t *c) {
#ifdef V_SPURIOUS
	if (!v_cond_woken(c, v_self())) { v_assume(v_spurious_left); v_spurious_left--; }
#endif
	c->waiting &= ~(1u << v_self()); c->woken &= ~(1u << v_self());
}
static inline int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	v_fine();
	c->m = m;
	v_cond_enter(c);
	v_mutex_release(m);
	v_wait(false, V_COND, c);
	v_cond_leave(c);
	v_mutex_take(m);
	return 0;
}
V_NOINLINE void v_cond_wake(pthread_cond_t *c, bool all) {
	unsigned pending = c->waiting & ~c->woken;
	if (all) { c->woken = c->waiting; return; }
	if (!pending) return;
	unsigned t = v_nondet_u32(); v_assume(t < V_MAXTHREADS && ((pending >> t) & 1));
	c->woken |= 1u << t;
}
static inline int pthread_cond_signal(pthread_cond_t *c) { v_fine(); v_cond_wake(c, false); return 0; }
static inline int pthread_cond_broadcast(pthread_cond_t *c) { v_fine(); v_cond_wake(c, true); return 0; }
/* thread specific data */
#ifndef V_MAXKEYS
#define V_MAXKEYS 3
#endif
static void *v_tsd[V_MAXKEYS][V_MAXTHREADS];
static unsigned v_keys;
V_NOINLINE int pthread_key_create(pthread_key_t *k, void (*)(void*)) { v_assert(v_keys < V_MAXKEYS, "CAP: keys"); *k = v_keys++; for (unsigned i = 0; i < V_MAXTHREADS; i++) v_tsd[*k][i] = 0; return 0; }
static inline int pthread_key_delete(pthread_key_t) { return 0; }
V_NOINLINE int pthread_setspecific(pthread_key_t k, const void *v) { v_tsd[k][v_self()] = (void*)v; return 0; }
V_NOINLINE void *pthread_getspecific(pthread_key_t k) { return v_tsd[k][v_self()]; }
static inline pthread_t pthread_self() { return v_self() + 1; }
static inline int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
static inline bool v_pthread_enabled(unsigned kind, void *obj, unsigned t) {
	if (kind == V_MUTEX) { pthread_mutex_t *m = (pthread_mutex_t*)obj; return m->owner == 0 || (m->type == PTHREAD_MUTEX_RECURSIVE && m->owner == t + 1); }
	if (kind == V_COND) { pthread_cond_t *c = (pthread_cond_t*)obj; return v_cond_ready(c, t); }
	return true;
}
#endif
