// Reservoir sampling: any random sequence, histories of N additions.
#include "vf.hpp"
#include "reservoir_sampling.hpp"
#ifndef K
#define K 3
#endif
#ifndef N
#define N 6
#endif
static double draw[64];
static int nd_, fixed_draw;
#ifndef PREFIX
#define PREFIX 0
#endif
#ifndef ET
#define ET int
#endif
struct func {
  static double random() { double r = fixed_draw ? 1.0 : nd_unit_closed(); if (nd_ < 64) draw[nd_] = r; nd_++; return r; }
  static double floor(double d) { return (double)(long)d; }  // arguments are non-negative
};
#ifdef EXPO
#define CLS ExponentialReservoirSampling
#else
#define CLS ReservoirSampling
#endif
#define TOL 1e-9
extern "C" void vf_main() {
  struct { int before; CLS<ET, K, func> r; int after; } s;
  s.before = 17; s.after = 23;
  ET shadow[K];
  int filled = 0;
  CHECKM(s.r.count() == 0, "a new reservoir is empty");
  for (int i = 0; i < N; ++i) {
    int idx;
    ET v = (ET)(1000 + i);
    nd_ = 0;
    fixed_draw = i >= K && i < PREFIX;  // a stretch of refused elements
    unsigned int c0 = s.r.count();
#ifdef INDEX
    idx = s.r.sample_index();
    if (idx >= 0 && idx < K) s.r[idx] = v;
#else
    idx = s.r.add(v);
#endif
    CHECKM(idx >= -1 && idx < K, "the slot is -1 or a valid index");
    vf_assume(idx >= -1 && idx < K);
#ifdef EXPO
    CHECKM(idx >= 0, "every element enters the exponential reservoir");
    // the reservoir holds `filled` elements: an element replaces one of them with probability filled/K
    double fill = (double)filled / K;
#ifdef UNIFORM
    if (draw[0] < fill - TOL) {
      CHECKM(idx < filled, "with probability (stored/size) a stored element is replaced");
      if (idx < filled) {
        CHECKM(draw[1] >= (double)idx / filled - TOL && (draw[1] < (double)(idx + 1) / filled + TOL || draw[1] >= 1.0 - TOL), "the replaced slot is uniform over the stored elements");
      }
      vf_reach("replace");
    } else if (draw[0] > fill + TOL) {
      CHECKM(idx == filled, "otherwise the element takes the next free slot");
    }
#else
    if (idx < filled) vf_reach("replace");
#endif
    if (idx == filled) filled++;
    else CHECKM(idx < filled, "slots are filled in order");
    CHECKM((int)s.r.count() == filled, "count is the number of stored elements");
#else
    CHECKM(s.r.count() == c0 + 1, "count is the number of elements seen");
    if (i < K) { CHECKM(idx == i, "the first k elements are kept, in order"); filled = i + 1; }
    else {
#ifdef UNIFORM
      double p = (double)K / (i + 1);
      if (draw[0] < p - TOL) {
        CHECKM(idx >= 0, "the n-th element is accepted with probability k/n");
        CHECKM(draw[1] >= (double)idx / K - TOL && (draw[1] < (double)(idx + 1) / K + TOL || draw[1] >= 1.0 - TOL), "the replaced slot is uniform");
      }
      if (draw[0] > p + TOL) CHECKM(idx == -1, "the n-th element is refused with probability 1-k/n");
#endif
      if (idx >= 0) vf_reach("replace");
      vf_reach("full");
    }
#endif
    if (idx >= 0) shadow[idx] = v;
    for (int j = 0; j < K; ++j) if (j < filled) {
      CHECKM(s.r[j] == shadow[j], "an addition changes only the slot it returns");
    }
    CHECKM(s.before == 17 && s.after == 23, "nothing outside the reservoir is written");
    vf_obs(idx); vf_obs(s.r.count());
  }
  vf_reach("end");
}
