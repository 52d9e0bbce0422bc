/* run-time for translated harnesses: under CBMC nondet values are symbolic,
   natively (gcc) they are read from a file of 64-bit words. */
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
typedef signed char i8; typedef short i16; typedef int i32; typedef long i64;
typedef void *ptr;
#ifndef VF_CBMC
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#else
double floor(double); double ceil(double); double fabs(double); double sqrt(double); double exp(double); double log(double); double pow(double,double); double round(double); double trunc(double); double fmod(double,double); double fmax(double,double); double fmin(double,double); float fabsf(float); float floorf(float); float ceilf(float); float sqrtf(float); float roundf(float); float truncf(float); double copysign(double,double); long lround(double); double rint(double); double nearbyint(double);
void *malloc(unsigned long); void free(void *); void *calloc(unsigned long, unsigned long); void *memset(void*,int,unsigned long); void *memcpy(void*,const void*,unsigned long); void *memmove(void*,const void*,unsigned long);
#endif
typedef unsigned __int128 u128; typedef __int128 i128;
#define VF_INF (__builtin_inf())
#define VF_NAN (__builtin_nan(""))
#ifdef VF_CBMC
# define VF_INIT
# ifdef VF_WITNESS
#  define VF_DONE ((void)0)
#  define VF_REACH(m) __CPROVER_assert(0, "VFWITNESS " m)
#  define VF_CHECK(c, m) __CPROVER_assume(c)
#  define VF_ASSERT_FAIL(m) __CPROVER_assume(0)
# else
#  define VF_DONE
#  define VF_REACH(m)
#  define VF_CHECK(c, m) __CPROVER_assert((c), "VFCHECK " m)
#  define VF_ASSERT_FAIL(m) do { __CPROVER_assert(0, "VFREPO " m); __CPROVER_assume(0); } while (0)
# endif
# define VF_ASSUME(c) __CPROVER_assume(c)
# define VF_UNREACHABLE __CPROVER_assume(0)
# ifdef VF_WITNESS
#  define VF_RTCHECK(c, m)
# else
#  define VF_RTCHECK(c, m) __CPROVER_assert((c), "VFUB " m)
# endif
# define VF_MALLOC(n) vf_malloc(n)
# define VF_CALLOC(a,b) calloc(a,b)
# define VF_FREE(p) free(p)
# define ND(T, NAME) T nondet_##NAME(void); static T nd_##NAME(void) { T v = nondet_##NAME(); __CPROVER_input("nd_" #NAME, v); return v; } static T vf_undef_##NAME(void) { return nondet_##NAME(); }
static ptr vf_malloc(u64 n) { ptr p = malloc(n); __CPROVER_assume(p != (ptr)0); return p; }
#else
extern FILE *vf_in; FILE *vf_in;
static u64 vf_rand;
static u64 vf_word(void) { u64 w = 0; if (vf_rand) { vf_rand ^= vf_rand << 13; vf_rand ^= vf_rand >> 7; vf_rand ^= vf_rand << 17; return vf_rand; } if (!vf_in || fread(&w, 8, 1, vf_in) != 1) w = 0; return w; }
# define VF_INIT vf_rand = getenv("VF_RANDOM") ? strtoul(getenv("VF_RANDOM"), 0, 10) * 2654435761u + 88172645463325252ul : 0; vf_in = getenv("VF_INPUT") ? fopen(getenv("VF_INPUT"), "rb") : 0
# define VF_DONE puts("VF:done")
# define VF_REACH(m) puts("VF:reach " m)
# define VF_CHECK(c, m) ((c) ? (void)0 : (puts("VF:FAIL " m), exit(1)))
# define VF_ASSERT_FAIL(m) (puts("VF:ASSERT " m), exit(1))
# define VF_ASSUME(c) ((c) ? (void)0 : (puts("VF:assume"), exit(77)))
# define VF_UNREACHABLE abort()
# define VF_RTCHECK(c, m) ((c) ? (void)0 : (puts("VF:UB " m), exit(1)))
# define VF_MALLOC(n) malloc(n)
# define VF_CALLOC(a,b) calloc(a,b)
# define VF_FREE(p) free(p)
# define ND(T, NAME) static T nd_##NAME(void) { u64 w = vf_word(); T v; if (vf_rand && sizeof(T) == 8 && (T)0.5 != 0) return (T)((double)(i64)(w % 4001 - 2000) / 16); if (vf_rand && (T)0.5 != 0) return (T)((float)(i64)(w % 4001 - 2000) / 16); memcpy(&v, &w, sizeof v); return v; } static T vf_undef_##NAME(void) { T v; memset(&v, 0, sizeof v); return v; }
#endif
ND(u8, u8) ND(u16, u16) ND(u32, u32) ND(u64, u64) ND(float, float) ND(double, double)
#ifdef VF_CBMC
static u32 nd_irange(u32 lo, u32 hi) { u32 v = nd_u32(); VF_ASSUME((i32)v >= (i32)lo && (i32)v <= (i32)hi); return v; }
static double nd_grid(u32 lo, u32 hi, u32 sc) { u32 v = nd_irange(lo, hi); return (double)(i32)v / (double)(1ul << sc); }
static double nd_unit(void) { double v = nd_double(); VF_ASSUME(v >= 0.0 && v < 1.0); return v; }
static double nd_unit_closed(void) { double v = nd_double(); VF_ASSUME(v >= 0.0 && v <= 1.0); return v; }
static void vf_obs(u32 x) { (void)x; }
static void vf_obsd(double x) { (void)x; }
#else
static u32 nd_irange(u32 lo, u32 hi) { if (vf_rand) return lo + (u32)(vf_word() % ((u64)(i32)hi - (i32)lo + 1)); u32 v = nd_u32(); VF_ASSUME((i32)v >= (i32)lo && (i32)v <= (i32)hi); return v; }
static double nd_grid(u32 lo, u32 hi, u32 sc) { u32 v = nd_irange(lo, hi); return (double)(i32)v / (double)(1ul << sc); }
static double nd_unit(void) { if (vf_rand) return (double)(vf_word() % (1 << 20)) / (1 << 20); double v = nd_double(); VF_ASSUME(v >= 0.0 && v < 1.0); return v; }
static double nd_unit_closed(void) { if (vf_rand) return (double)(vf_word() % ((1 << 20) + 1)) / (1 << 20); double v = nd_double(); VF_ASSUME(v >= 0.0 && v <= 1.0); return v; }
static void vf_obs(u32 x) { printf("VF:obs %d\n", (i32)x); }
static void vf_obsd(double x) { printf("VF:obsd %.17g\n", x); }
#endif
static u8 vf_undef__Bool(void) { return nd_u8() & 1; }
static ptr vf_undef_ptr(void) { return (ptr)0; }
/* small harness-side helpers with symbolic results */
static float vf_bits_float(u32 x) { union { u32 a; float b; } u; u.a = x; return u.b; }
static double vf_bits_double(u64 x) { union { u64 a; double b; } u; u.a = x; return u.b; }
static u32 vf_tobits_float(float x) { union { u32 a; float b; } u; u.b = x; return u.a; }
static u64 vf_tobits_double(double x) { union { u64 a; double b; } u; u.b = x; return u.a; }
static i32 vf_fptosi32(double x) { VF_RTCHECK(x > -2147483649.0 && x < 2147483648.0, "float value out of range of int in conversion"); return (i32)x; }
static i64 vf_fptosi64(double x) { VF_RTCHECK(x >= -9223372036854775808.0 && x < 9223372036854775808.0, "float value out of range of long in conversion"); return (i64)x; }
static i16 vf_fptosi16(double x) { VF_RTCHECK(x > -32769.0 && x < 32768.0, "float value out of range of short in conversion"); return (i16)x; }
static i8 vf_fptosi8(double x) { VF_RTCHECK(x > -129.0 && x < 128.0, "float value out of range of char in conversion"); return (i8)x; }
static u32 vf_fptoui32(double x) { VF_RTCHECK(x > -1.0 && x < 4294967296.0, "float value out of range of unsigned in conversion"); return (u32)x; }
static u64 vf_fptoui64(double x) { VF_RTCHECK(x > -1.0 && x < 18446744073709551616.0, "float value out of range of unsigned long in conversion"); return (u64)x; }
static u8 vf_fptoui8(double x) { VF_RTCHECK(x > -1.0 && x < 256.0, "float value out of range of unsigned char in conversion"); return (u8)x; }
static i64 vf_idx(i64 i, i64 n) { VF_RTCHECK(i >= 0 && i < n, "array index out of bounds"); return i; }
static void vf_memcpy(ptr d, ptr s, u64 n) { memmove(d, s, n); }
#define VF_MEMCPY(d, s, n) vf_memcpy(d, s, n)
static void vf_memset(ptr d, u8 c, u64 n) { memset(d, c, n); }
#define VF_MEMSET(d, c, n) vf_memset(d, c, n)
