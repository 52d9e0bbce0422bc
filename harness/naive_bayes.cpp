// Naive Bayes: any training set of N points; func::log and func::sqrt are the caller's functions.
#include "vf.hpp"
#include "naive_bayes.hpp"
#ifndef L
#define L 2
#endif
#ifndef F
#define F 1
#endif
#ifndef N
#define N 3
#endif
#ifndef FT
#define FT double
#endif
#ifndef SD0
#define SD0 2.0
#endif
#ifndef LA
#define LA 1.0
#endif
#ifndef LB
#define LB 0.0
#endif
static double sarg[64]; static int ns;
struct func {
  static double log(double x) { return LA * x + LB; }
  static double sqrt(double x) { if (ns < 64) sarg[ns] = x; ns++; return SD0; }
};
static bool close(double a, double b) { return (a - b < 1e-6) & (b - a < 1e-6); }
extern "C" void vf_main() {
  NaiveBayes<FT, L, F, func> nb;
  FT x[N][F]; int y[N]; double w[N];
  double W[L], tot = 0;
  int cnt[L];
  for (int l = 0; l < L; ++l) { W[l] = 0; cnt[l] = 0; }
  for (int k = 0; k < N; ++k) {
    y[k] = pick(0, L - 1);
#ifdef WEIGHTS
    w[k] = pick(0, 1) ? 1 : 3;
#else
    w[k] = 1;
#endif
    FT keep[F];
    for (int f = 0; f < F; ++f) x[k][f] = keep[f] = (FT)nd_grid(-64, 64, 2);
    if (w[k] == 1) nb.train(x[k], y[k]); else nb.train(x[k], y[k], w[k]);
    for (int f = 0; f < F; ++f) CHECKM(x[k][f] == keep[f], "training leaves the caller's data alone");
    W[y[k]] += w[k]; tot += w[k]; cnt[y[k]]++;
  }
  FT q[F];
  for (int f = 0; f < F; ++f) q[f] = (FT)nd_grid(-64, 64, 2);
  double sc[L + 1], sc2[L + 1];
  sc[L] = sc2[L] = 4242;
  ns = 0;
  int p = nb.predict(q, sc);
  int calls = ns;
  CHECKM(p >= 0 && p < L, "the prediction is a label");
  vf_assume(p >= 0 && p < L);
  for (int l = 0; l < L; ++l) CHECKM(sc[p] >= sc[l] && (sc[p] > sc[l] || l >= p), "the prediction is the first label with the best score");
  CHECKM(sc[L] == 4242, "nothing outside the scores is written");
  // the statistics of each label and feature, from the definition
  double mean[L][F], var[L][F];
  for (int l = 0; l < L; ++l) for (int f = 0; f < F; ++f) {
    double s = 0, v = 0;
    for (int k = 0; k < N; ++k) if (y[k] == l) s += w[k] * (double)x[k][f];
    mean[l][f] = W[l] > 0 ? s / W[l] : 0;
    for (int k = 0; k < N; ++k) if (y[k] == l) { double d = (double)x[k][f] - mean[l][f]; v += w[k] * d * d; }
    var[l][f] = W[l] > 1 ? v / (W[l] - 1) : 0;
  }
#ifdef STATS
  // each variance is among the arguments handed to sqrt (as many times as it is expected)
  for (int l = 0; l < L; ++l) if (W[l] > 0) for (int f = 0; f < F; ++f) {
    bool found = false;
    for (int i = 0; i < calls && i < 64; ++i) found |= close(sarg[i], var[l][f]);
    CHECKM(found, "the variance of a feature is the unbiased weighted variance of the values seen for the label");
  }
  for (int i = 0; i < calls && i < 64; ++i) {
    bool found = false;
    for (int l = 0; l < L; ++l) if (W[l] > 0) for (int f = 0; f < F; ++f) found |= close(sarg[i], var[l][f]);
    CHECKM(found, "no other variance is used");
  }
#else
  for (int l = 0; l < L; ++l) {
    double e = LA * (W[l] / tot) + LB;
    for (int f = 0; f < F; ++f) {
      double d = (double)q[f] - mean[l][f], sd = SD0, pdf = 0;
      if (W[l] > 0) pdf = sd > 0 ? 1.0 / (2.50663 * sd) * exp(-(d * d / (2.0 * sd * sd))) : (d == 0 ? 1.0 : 0.0);
      e += LA * pdf + LB;
    }
    CHECKM(close(sc[l], e), "the score is log(prior) plus the log of the normal density of each feature");
    if (W[l] == 0) vf_reach("untrained");
  }
#endif
  int p2 = nb.predict(q, sc2);
  CHECKM(p2 == p && nb.predict(q) == p, "prediction does not depend on earlier predictions or on asking for scores");
  for (int l = 0; l < L; ++l) CHECKM(sc[l] == sc2[l], "scores do not change when asked again");
#ifdef STATS
  for (int i = 0; i < calls && i < 64; ++i) vf_obsd(sarg[i]);
#endif
  vf_reach("end");
}
