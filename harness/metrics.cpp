// Metrics: any history of update/increase_error/reset.
#include "vf.hpp"
#include "metrics.hpp"
#ifndef L
#define L 3
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef RATIO
#define RATIO false
#endif
static void near(double a, double b, const char *) { CHECKM((a - b < 1e-9) & (b - a < 1e-9), "the score is the documented ratio"); }
static void score_check(double base /* in [0,1], 1 is the worst */, double s, double inv, int size) {
  if (RATIO) { near(s, base * size, ""); near(inv * size, 1 - base, ""); }
  else { near(s, base, ""); near(inv, 1 - base, ""); CHECKM(s >= -1e-9 && s <= 1 + 1e-9, "the score is between 0 and 1"); }
}
extern "C" void vf_main() {
#ifdef M_ERR
  ErrorMetrics<RATIO> m;
  int n = 0, err = 0;
  static const int sizes[] = {1, 5, 64};
  int size = sizes[pick(0, 2)];
  for (int o = 0; o < OPS; ++o) {
    int op = pick(0, 3);
    if (op <= 1) { int t = nd_irange(0, 5), p = nd_irange(0, 5); m.update(t, p); n++; err += t != p; }
    else if (op == 2) { int c = o & 1 ? 3 : 1; if (c == 1) m.increase_error(); else m.increase_error(c); n += c; err += c; }
    else { m.reset(); n = err = 0; }
    if (n > 0) {
      score_check((double)err / n, m.score(false, size), m.score(true, size), size);
      vf_obsd(m.score(false, 2));
      vf_reach("scored");
    }
  }
  CHECKM(m.ratio() == RATIO, "ratio() is the template parameter");
#endif
#ifdef M_KAPPA
  KappaMetrics<L, RATIO> m, other;
  int c[L][L], n = 0;
  for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) c[i][j] = 0;
  for (int o = 0; o < OPS; ++o) {
#ifdef BULK
    int op = o == 0 ? 2 : pick(0, 2);
#else
    int op = o == OPS - 2 ? pick(0, 3) : 0;
#endif
    if (op == 0) { int t = pick(0, L - 1), p = pick(0, L - 1); m.update(t, p); c[t][p]++; n++; }
    else if (op == 1) { other = m; other.update(0, 0); m = m; }
    else if (op == 2) { int k = pick(1, 3); if (k == 1) m.increase_error(); else m.increase_error(k); c[0][1] += k; n += k; }
    else { m.reset(); n = 0; for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) c[i][j] = 0; }
  }
  KappaMetrics<L, RATIO> cp;
  cp.update(1, 0);
  cp = m;
  long d = 0, s = 0;
  for (int i = 0; i < L; ++i) {
    long row = 0, col = 0;
    for (int j = 0; j < L; ++j) { row += c[i][j]; col += c[j][i]; }
    d += c[i][i]; s += row * col;
  }
  double k = m.kappa();
  if (n > 0) {
    double e = (double)((long)n * n - s) * k - (double)(n * d - s);
    CHECKM((e < 1e-9) & (e > -1e-9), "kappa is (observed - expected agreement) / (1 - expected agreement)");
    CHECKM(k <= 1 + 1e-9 && k >= -1 - 1e-9, "kappa is between -1 and 1");
    if (d == n) { CHECKM(k > 1 - 1e-9, "perfect agreement has kappa 1"); vf_reach("perfect"); }
    static const int sizes[] = {1, 5, 64};
      int size = sizes[pick(0, 2)];
    score_check((1 - k) / 2, m.score(false, size), m.score(true, size), size);
    near(cp.kappa(), k, "");
    vf_obsd(k);
  }
  CHECKM(m.ratio() == RATIO, "ratio() is the template parameter");
#endif
#ifdef M_RES
  // K sampled elements and the last one: the scores are the probabilities of keeping each
  ReservoirSamplingMetrics m[L + 1];
  int total = L + 1, num[L + 1];
  for (int i = 0; i <= L; ++i) num[i] = i + 1;
  for (int o = 0; o < OPS; ++o) {
    int i = pick(0, L);
    m[i].reset(); total++; num[i] = total;
    int j = pick(0, L);
    m[j] = m[i];
    num[j] = num[i];
    for (int q = 0; q <= L; ++q) {
      double e = num[q] == total ? (double)(total - L) / total : 1.0 / total, g = m[q].score(false, L);
      CHECKM((g - e < 1e-9) & (e - g < 1e-9), "the last element has probability (n-k)/n to leave, the others 1/n");
    }
    vf_obsd(m[0].score(false, L));
  }
#endif
  vf_reach("end");
}
