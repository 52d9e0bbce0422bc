// Utils: distributions, shuffle and numeric helpers.
#include "vf.hpp"
#include "utils.hpp"
#ifndef SIZE
#define SIZE 3
#endif
static double draw[16];
static int nd_;
static double logv, logarg, expv, exparg;
struct func {
  static double rand_uniform() { double r = nd_unit(); if (nd_ < 16) draw[nd_] = r; nd_++; return r; }
  static double log(double x) { logarg = x; return logv; }
  static double exp(double x) { exparg = x; return expv; }
};
extern "C" void vf_main() {
#ifdef M_PICK // any cumulative distribution, bit-precise
  double p[SIZE];
  for (int i = 0; i < SIZE; ++i) {
    p[i] = nd_double();
    vf_assume(p[i] >= (i ? p[i - 1] : 0) && p[i] <= 1);
  }
#ifdef ROUNDED // the last value fell short of one by rounding
  vf_assume(p[SIZE - 1] >= 0.999999999999);
#else
  vf_assume(p[SIZE - 1] == 1);
#endif
  int r = Utils::pick_from_distribution<func>(p, SIZE);
  CHECKM(r >= 0 && r < SIZE, "the picked index is valid");
  vf_assume(r >= 0 && r < SIZE);
  CHECKM(p[r] > (r ? p[r - 1] : 0), "an index of probability zero is never picked");
  if (draw[0] < p[SIZE - 1]) { CHECKM((r == 0 || draw[0] >= p[r - 1]) && draw[0] < p[r], "index i is picked with its probability"); }
  vf_obs(r);
#endif
#ifdef M_TURN
  struct { double before; double v[SIZE]; double after; } a;
  double w[SIZE], sum = 0;
  a.before = 5; a.after = 6;
  for (int i = 0; i < SIZE; ++i) { a.v[i] = w[i] = nd_grid(0, WMAX, WBITS); sum += w[i]; }
  vf_assume(sum > 0);
#ifdef GIVEN
  Utils::turn_array_into_probability(a.v, SIZE, sum);
#else
  Utils::turn_array_into_probability(a.v, SIZE);
#endif
  double pre = 0;
  for (int i = 0; i < SIZE; ++i) {
    pre += w[i];
    double d = a.v[i] * sum - pre;
    CHECKM((d < 1e-9) & (d > -1e-9), "entry i is the sum of the first i+1 shares");
    CHECKM(a.v[i] >= (i ? a.v[i - 1] : 0), "the sums do not decrease");
  }
  CHECKM(a.v[SIZE - 1] > 1 - 1e-9 && a.v[SIZE - 1] < 1 + 1e-9, "the last sum is one");
  CHECKM(a.before == 5 && a.after == 6, "nothing outside the array is written");
#ifdef THENPICK
  int r = Utils::pick_from_distribution<func>(a.v, SIZE);
  CHECKM(r >= 0 && r < SIZE, "the picked index is valid");
  vf_assume(r >= 0 && r < SIZE);
  CHECKM(w[r] > 0, "a value of zero is never picked");
  vf_obs(r);
#endif
#endif
#ifdef M_SHUFFLE
  struct { int before; int v[SIZE + 1]; int after; } a;
  int m[SIZE + 1];
  a.before = 5; a.after = 6; a.v[SIZE] = m[SIZE] = 77;
  for (int i = 0; i < SIZE; ++i) a.v[i] = m[i] = 10 + i;
  Utils::shuffle<func>(a.v, SIZE);
  int seen = 0;
  for (int i = 0; i < SIZE; ++i) { CHECKM(a.v[i] >= 10 && a.v[i] < 10 + SIZE, "no element appears from nowhere"); seen |= 1 << (a.v[i] - 10); }
  CHECKM(seen == (1 << SIZE) - 1, "the result is a permutation");
  CHECKM(a.v[SIZE] == 77 && a.before == 5 && a.after == 6, "nothing outside the array is moved");
  // uniform: the last place receives any element with probability 1/n, the one before any of the others, ...
  int d = 0;
  for (int i = SIZE - 1; i > 0; --i) {
    int j = 0;
    while (j < i && a.v[i] != m[j]) j++;
    double lo = (double)j / (i + 1), hi = (double)(j + 1) / (i + 1);
    CHECKM(draw[d] >= lo - 1e-9 && draw[d] <= hi + 1e-9, "every remaining element is equally likely in each place");
    d++;
    int t = m[i]; m[i] = m[j]; m[j] = t;
  }
  for (int i = 0; i < SIZE; ++i) vf_obs(a.v[i]);
#endif
#ifdef M_NUM
  int v[SIZE];
  for (int i = 0; i < SIZE; ++i) v[i] = nd_int();
  int b = Utils::index_max(v, SIZE);
  CHECKM(b >= 0 && b < SIZE, "index_max is an index");
  for (int i = 0; i < SIZE; ++i) { CHECKM(v[b] >= v[i], "index_max points at a maximum"); CHECKM(v[i] < v[b] || i >= b, "index_max points at the first maximum"); }
  double x = nd_double(), y = nd_double();
  vf_assume(x == x && y == y);
  CHECKM(Utils::min(x, y) <= x && Utils::min(x, y) <= y && (Utils::min(x, y) == x || Utils::min(x, y) == y), "min");
  CHECKM(Utils::max(x, y) >= x && Utils::max(x, y) >= y && (Utils::max(x, y) == x || Utils::max(x, y) == y), "max");
#ifdef M_ABS
  float z = nd_float();
  vf_assume(z == z);
  float az = Utils::abs(z);
  CHECKM(az >= 0 && (az == z || az == -z), "abs");
#endif
  int k = nd_int(), l = nd_int();
  CHECKM(Utils::min(k, l) == (k < l ? k : l) && Utils::max(k, l) == (k < l ? l : k), "integer min and max");
#ifdef M_ROUND
  if (x > -2147483647.0 && x < 2147483646.0) {
    double r = Utils::round(x), d = x - r;
    CHECKM(d <= 0.5 + 1e-6 && d >= -0.5 - 1e-6, "round gives the closest integer");
    vf_reach("round");
  }
#endif
  double e[SIZE];
  for (int i = 0; i < SIZE; ++i) { e[i] = nd_double(); vf_assume(e[i] == e[i]); }
  b = Utils::index_max(e, SIZE);
  for (int i = 0; i < SIZE; ++i) CHECKM(b >= 0 && b < SIZE && e[b] >= e[i], "index_max of reals points at a maximum");
#endif
#ifdef M_DIV
  int k = nd_irange(-2147483647, 2147483647);
  int ak = Utils::abs(k);
  CHECKM(ak >= 0 && (ak == k || ak == -k), "integer abs");
  int a = nd_irange(0, 1 << 20), b = nd_irange(1, 1 << 10);
  double q = Utils::div_int<int>(a, b);
  int qi = (int)q;
  CHECKM(q == qi && qi >= 0 && (long)qi * b <= a && a < (long)(qi + 1) * b, "div_int is the integer quotient");
#endif
#ifdef M_EXP
  logv = nd_grid(-4000, 0, 8);
  double rate = nd_grid(1, 4096, 8);
  double r = Utils::rand_exponential<func>(rate);
  CHECKM(logarg == 1 - draw[0], "the logarithm of 1-u is used, so that it is never taken of zero");
  CHECKM(r >= 0, "an exponential variate is not negative");
  double d = r * rate + logv;
  CHECKM((d < 1e-6) & (d > -1e-6), "the variate is -log(1-u)/rate");
  expv = nd_grid(0, 4096, 8);
  double a = nd_grid(-4096, 4096, 8);
  CHECKM(Utils::expm1<func>(a) == expv - 1 && exparg == a, "expm1");
#endif
  vf_reach("end");
}
