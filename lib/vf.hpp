// Common harness header: the real OrpailleCC headers are included by each harness after this one.
#ifndef VF_HPP
#define VF_HPP
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <vector>
using namespace std;
extern "C" {
unsigned char nd_u8(); unsigned short nd_u16(); unsigned int nd_u32(); unsigned long nd_u64();
float nd_float(); double nd_double();
double nd_unit();         // any double in [0,1[   (symx: the 2^-20 grid)
double nd_unit_closed();  // any double in [0,1]   (symx: the 2^-20 grid)
int nd_irange(int lo, int hi);
double nd_grid(int lo, int hi, int s);  // k/2^s, k an integer in [lo,hi]
int vf_live();   // number of objects on the heap (symx)
void vf_obs(int); void vf_obsd(double);
void vf_check(bool, const char *);
void vf_assume(bool);
void vf_reach(const char *);
void vf_main();
}
static inline int nd_int() { return (int)nd_u32(); }
static inline bool nd_bool() { return nd_irange(0, 1) != 0; }
#define CHECK(c) vf_check((c), #c)
#define CHECKM(c, m) vf_check((c), m)
// a choice made once per path (a concrete value on every symbolic path)
static inline int pick(int lo, int hi) {
  int v = nd_irange(lo, hi);
  for (int i = lo; i < hi; ++i) if (v == i) return i;
  return hi;
}
#endif
