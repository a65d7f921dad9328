/* Runtime of the generated C (CBMC side, or native with -DV_NATIVE) */
#include <stddef.h>
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64;
typedef unsigned __int128 u128; typedef __int128 s128;
typedef u8 *vptr;
#define BV(n) unsigned __CPROVER_bitvector[n]
#define SBV(n) signed __CPROVER_bitvector[n]
void *malloc(size_t); void free(void *);
#define RT_ASSERT(c, m) __CPROVER_assert(c, m)
#define RT_ASSUME(c) __CPROVER_assume(c)
#ifdef V_NOCOVER
#define RT_COVER(m)
#else
#define RT_COVER(m) __CPROVER_assert(0, m)
#endif
#define RT_UB(m) do { __CPROVER_assert(0, m); __CPROVER_assume(0); } while (0)
#define RT_UNREACHABLE() __CPROVER_assume(0)
#define RT_BLOCKED_FOREVER() do { __CPROVER_assert(0, "DEADLOCK: blocked for ever"); __CPROVER_assume(0); } while (0)

u8 nondet_u8(void); u16 nondet_u16(void); u32 nondet_u32(void); u64 nondet_u64(void); double nondet_double(void); float nondet_float(void);
static u64 rt_double_to_u64(double d) { u64 r; *(double*)&r = d; return r; }
static double rt_u64_to_double(u64 d) { double r; *(u64*)&r = d; return r; }
static u32 rt_float_to_u32(float d) { u32 r; *(float*)&r = d; return r; }
static float rt_u32_to_float(u32 d) { float r; *(u32*)&r = d; return r; }
static u8 rt_v_nondet_u8(void) { u8 v = nondet_u8(); __CPROVER_input("nd", v); return v; }
static u16 rt_v_nondet_u16(void) { u16 v = nondet_u16(); __CPROVER_input("nd", v); return v; }
static u32 rt_v_nondet_u32(void) { u32 v = nondet_u32(); __CPROVER_input("nd", v); return v; }
static u64 rt_v_nondet_u64(void) { u64 v = nondet_u64(); __CPROVER_input("nd", v); return v; }
static double rt_v_nondet_double(void) { double v = nondet_double(); __CPROVER_input("ndd", v); return v; }
static float rt_v_nondet_float(void) { float v = nondet_float(); __CPROVER_input("ndf", v); return v; }
/* 64 bit divisions and products on V_SMALL bits: exact as long as the operands fit, which is asserted (and the
 * query repeated with more bits if they do not) */
#ifdef V_SMALL
typedef BV(V_SMALL) rt_small; typedef BV(2 * V_SMALL) rt_wide;
#define RT_FITS(x) ((x) >> V_SMALL == 0)
static u64 rt_udiv64(u64 a, u64 b) { __CPROVER_assert(RT_FITS(a) && RT_FITS(b), "CAPDIV: operands"); __CPROVER_assume(RT_FITS(a) && RT_FITS(b)); return (u64)((rt_small)a / (rt_small)b); }
static u64 rt_urem64(u64 a, u64 b) { __CPROVER_assert(RT_FITS(a) && RT_FITS(b), "CAPDIV: operands"); __CPROVER_assume(RT_FITS(a) && RT_FITS(b)); return (u64)((rt_small)a % (rt_small)b); }
static u64 rt_mul64(u64 a, u64 b) { __CPROVER_assert(RT_FITS(a) && RT_FITS(b), "CAPDIV: operands"); __CPROVER_assume(RT_FITS(a) && RT_FITS(b)); return (u64)((rt_wide)(rt_small)a * (rt_wide)(rt_small)b); }
#else
static u64 rt_udiv64(u64 a, u64 b) { return a / b; }
static u64 rt_urem64(u64 a, u64 b) { return a % b; }
static u64 rt_mul64(u64 a, u64 b) { return a * b; }
#endif
static u64 rt_v_garbage_u64(void) { return nondet_u64(); }
#define rt_new(n) malloc(n)
static void rt_delete(vptr p) { free(p); }
static void rt_free(vptr p) { free(p); }
static vptr rt_calloc(u64 n, u64 s) { vptr p = malloc(n * s); for (u64 i = 0; i < n * s; i++) p[i] = 0; return p; }
static vptr rt_realloc(vptr q, u64 n) { vptr p = malloc(n); return p; }
static u32 rt_posix_memalign(vptr pp, u64 a, u64 n) { *(vptr*)pp = malloc(n); return 0; }
static vptr rt_memcpy(vptr d, vptr s, u64 n) { for (u64 i = 0; i < n; i++) d[i] = s[i]; return d; }
static vptr rt_memmove(vptr d, vptr s, u64 n) {
	if (__CPROVER_same_object(d, s) && d > s) { for (u64 i = n; i > 0; i--) d[i-1] = s[i-1]; }
	else { for (u64 i = 0; i < n; i++) d[i] = s[i]; }
	return d; }
static vptr rt_memset(vptr d, u32 c, u64 n) { for (u64 i = 0; i < n; i++) d[i] = (u8)c; return d; }
static u64 rt_strlen(vptr s) { u64 n = 0; while (s[n]) n++; return n; }
static u32 rt_strcmp(vptr a, vptr b) { u64 i = 0; for (;;) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; if (!a[i]) return 0; i++; } }
static u32 rt_strncmp(vptr a, vptr b, u64 n) { for (u64 i = 0; i < n; i++) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
static u32 rt_memcmp(vptr a, vptr b, u64 n) { for (u64 i = 0; i < n; i++) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; } return 0; }
static vptr rt_strcpy(vptr d, vptr s) { u64 i = 0; for (;;) { d[i] = s[i]; if (!s[i]) return d; i++; } }
static vptr rt_strncpy(vptr d, vptr s, u64 n) { u64 i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
static vptr rt_strchr(vptr s, u32 c) { for (;;) { if (*s == (u8)c) return s; if (!*s) return 0; s++; } }
static u32 rt_tolower(u32 c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static u32 rt_toupper(u32 c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static u32 rt_strcasecmp(vptr a, vptr b) { u64 i = 0; for (;;) { u32 x = rt_tolower(a[i]), y = rt_tolower(b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; i++; } }
static u32 rt_isspace(u32 c) { return c == ' ' || (c >= 9 && c <= 13); }
static u32 rt_isdigit(u32 c) { return c >= '0' && c <= '9'; }
static u32 rt_isupper(u32 c) { return c >= 'A' && c <= 'Z'; }
static u32 rt_islower(u32 c) { return c >= 'a' && c <= 'z'; }
static u32 rt_isalpha(u32 c) { return rt_isupper(c) || rt_islower(c); }
static u32 rt_isalnum(u32 c) { return rt_isalpha(c) || rt_isdigit(c); }
static u32 rt_abs(u32 a) { return (s32)a < 0 ? -a : a; }
static u64 rt_labs(u64 a) { return (s64)a < 0 ? -a : a; }
static s64 rt_strtoll_(vptr s, vptr *e, u32 base) { u64 i = 0; _Bool neg = 0; s64 r = 0; _Bool any = 0;
	while (rt_isspace(s[i])) i++;
	if (s[i] == '-') { neg = 1; i++; } else if (s[i] == '+') i++;
	while (s[i] >= '0' && s[i] <= '9') { r = r * 10 + (s[i] - '0'); i++; any = 1; }
	if (e) *e = any ? s + i : s;
	return neg ? -r : r; }
static u32 rt_atoi(vptr s) { return (u32)rt_strtoll_(s, 0, 10); }
static u64 rt_atol(vptr s) { return (u64)rt_strtoll_(s, 0, 10); }
static u64 rt_strtol(vptr s, vptr e, u32 b) { return (u64)rt_strtoll_(s, (vptr*)e, b); }
static u64 rt_strtoul(vptr s, vptr e, u32 b) { return (u64)rt_strtoll_(s, (vptr*)e, b); }
static u64 rt_strtoll(vptr s, vptr e, u32 b) { return (u64)rt_strtoll_(s, (vptr*)e, b); }
static u64 rt_strtoull(vptr s, vptr e, u32 b) { return (u64)rt_strtoll_(s, (vptr*)e, b); }
static double rt_strtod(vptr s, vptr e) { return nondet_double(); }
static double rt_atof(vptr s) { return nondet_double(); }
static double rt_fabs(double x) { return x < 0 || (x == 0 && rt_double_to_u64(x) >> 63) ? -x : x; }
static double rt_copysign(double x, double y) { return rt_u64_to_double((rt_double_to_u64(x) & 0x7fffffffffffffffULL) | (rt_double_to_u64(y) & 0x8000000000000000ULL)); }
static double rt_trunc(double x) { if (!(x > -4503599627370496.0 && x < 4503599627370496.0)) return x; double r = (double)(s64)x; return r == 0 ? rt_copysign(0.0, x) : r; }
static double rt_floor(double x) { if (!(x > -4503599627370496.0 && x < 4503599627370496.0)) return x; double r = (double)(s64)x; if (r > x) r = r - 1.0; return r == 0 ? rt_copysign(0.0, x) : r; }
static double rt_ceil(double x) { return -rt_floor(-x); }
static double rt_round(double x) { double t = rt_trunc(x); double d = x - t; if (d >= 0.5) return t + 1.0; if (d <= -0.5) return t - 1.0; return t; }
static double rt_rint(double x) { if (!(x > -4503599627370496.0 && x < 4503599627370496.0)) return x; double f = rt_floor(x); double d = x - f; double r;
	if (d < 0.5) r = f; else if (d > 0.5) r = f + 1.0; else r = ((s64)f & 1) ? f + 1.0 : f; return r == 0 ? rt_copysign(0.0, x) : r; }
static double rt_nearbyint(double x) { return rt_rint(x); }
static double rt_roundeven(double x) { return rt_rint(x); }
static u64 rt_lround(double x) { return (u64)(s64)rt_round(x); }
static u64 rt_llround(double x) { return (u64)(s64)rt_round(x); }
static u64 rt_lrint(double x) { return (u64)(s64)rt_rint(x); }
static u64 rt_llrint(double x) { return (u64)(s64)rt_rint(x); }
static double rt_fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
static double rt_fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
static u32 rt_isinf(double x) { return x == __builtin_inf() || x == -__builtin_inf(); }
static u32 rt_isnan(double x) { return x != x; }
static double rt_fmod(double a, double b) { return nondet_double(); }
static void rt_abort(void) { RT_UB("abort called"); }
static void rt_exit(u32 c) { __CPROVER_assume(0); }
static void rt___cxa_pure_virtual(void) { RT_UB("pure virtual call"); }
static void rt___assert_fail(vptr a, vptr b, u32 c, vptr d) { RT_UB("assert() in the code under test failed"); }
static void rt_v_unreachable(void) { __CPROVER_assume(0); }
static _Bool rt_v_same_object(vptr a, vptr b) { return __CPROVER_same_object(a, b); }
static u64 rt_v_obj_size(vptr a) { return __CPROVER_OBJECT_SIZE(a); }
static u64 rt_v_ptr_offset(vptr a) { return __CPROVER_POINTER_OFFSET(a); }
static _Bool rt_v_rw_ok(vptr a, u64 n) { return __CPROVER_rw_ok(a, n); }
static u64 rt_ctpop64(u64 x) { return __builtin_popcountll(x); }
static u32 rt_ctpop32(u32 x) { return __builtin_popcount(x); }
static u64 rt_ctlz64(u64 x) { return x ? __builtin_clzll(x) : 64; }
static u32 rt_ctlz32(u32 x) { return x ? __builtin_clz(x) : 32; }
static u64 rt_cttz64(u64 x) { return x ? __builtin_ctzll(x) : 64; }
static u32 rt_cttz32(u32 x) { return x ? __builtin_ctz(x) : 32; }
static u64 rt_bswap64(u64 x) { return __builtin_bswap64(x); }
static u32 rt_bswap32(u32 x) { return __builtin_bswap32(x); }
void rt_v_run_threads(u32 n);
/* lazy sequentialisation */
static u16 v_pc[V_NTHREADS];
static _Bool v_done[V_NTHREADS];
static u32 v_bkind[V_NTHREADS];
static vptr v_bobj[V_NTHREADS];
_Bool nondet_bool(void);
static _Bool rt_preempt(u32 t) { _Bool v = nondet_bool(); __CPROVER_input("nd", v); return v; }
