// MC-NN: streams of N points against a model of micro-clusters written from the documentation.
#include "vf.hpp"
#include "mc_nn.hpp"
#ifndef FT
#define FT double
#endif
#ifndef F
#define F 1
#endif
#ifndef N
#define N 3
#endif
#ifndef L
#define L 2
#endif
#ifndef MAXC
#define MAXC 4
#endif
#ifndef THR
#define THR 2
#endif
#ifndef CLEAN
#define CLEAN 0
#endif
#ifndef PERF
#define PERF 50
#endif
#ifndef RANGE
#define RANGE 2000
#endif
struct C { bool on; int label, err, n; double t0, ts; double s[F], q[F]; };
static C m[MAXC];
static double now = -1;
static void put(C &c, const FT *x, int label, double t) {
  c.on = true; c.label = label; c.err = THR; c.n = 1; c.t0 = c.ts = t;
  for (int f = 0; f < F; ++f) { c.s[f] = (double)x[f]; c.q[f] = (double)x[f] * (double)x[f]; }
}
static double perf(const C &c) { return c.ts * (100 / ((now * now + now) * 0.5 - (c.t0 * c.t0 + c.t0) * 0.5)); }
static double dist(const C &c, const FT *x) {
  double d = 0;
  for (int f = 0; f < F; ++f) { FT v = (FT)(c.s[f] / c.n); double e = (double)(x[f] - v); d += e * e; }
  return d;
}
static int lowest(int except) {
  int b = -1; double v = 0;
  for (int i = 0; i < MAXC; ++i) if (m[i].on && i != except) { double p = perf(m[i]); if (b < 0 || p < v) { b = i; v = p; } }
  return b;
}
static int nearest(const FT *x, int label, bool any, double &d) {
  int b = -1;
  for (int i = 0; i < MAXC; ++i) if (m[i].on && (any || m[i].label == label)) { double e = dist(m[i], x); if (b < 0 || e < d) { b = i; d = e; } }
  return b;
}
static void split(int i) {
  int j = -1;
  for (int k = MAXC - 1; k >= 0; --k) if (!m[k].on) j = k;
  if (j < 0) { if (CLEAN == 1) return; j = lowest(i); if (j < 0) return; }
  int a = 0; double va = 0;
  for (int f = 0; f < F; ++f) { double u = m[i].s[f] / m[i].n, v = m[i].q[f] / m[i].n - u * u; if (v < 0) v = 0; if (f == 0 || v > va) { va = v; a = f; } }
  FT lo[F], hi[F];
  for (int f = 0; f < F; ++f) lo[f] = hi[f] = (FT)(m[i].s[f] / m[i].n);
  double sd = sqrt(va);
  lo[a] -= sd; hi[a] += sd;
  int t = (int)(m[i].ts / m[i].n), lab = m[i].label;
  put(m[j], lo, lab, t); put(m[i], hi, lab, t);
  vf_reach("split");
}
static bool train(const FT *x, int label) {
  if (CLEAN == 1 || CLEAN == 2) for (int i = 0; i < MAXC; ++i) if (m[i].on && m[i].n > 1 && perf(m[i]) < PERF) { m[i].on = false; vf_reach("clean"); }
  now += 1;
  double d1 = 0, d2 = 0;
  int a = nearest(x, label, true, d1), b = nearest(x, label, false, d2);
  if (b >= 0 && a != b && d1 == d2) a = b;
  if (b < 0) {
    for (int i = 0; i < MAXC; ++i) if (!m[i].on) { put(m[i], x, label, now); return true; }
    if (CLEAN == 1) return false;
    put(m[lowest(-1)], x, label, now);
    vf_reach("evict");
    return true;
  }
  C &c = m[b];
  c.ts += now; c.n++;
  for (int f = 0; f < F; ++f) { c.s[f] += (double)x[f]; c.q[f] += (double)x[f] * (double)x[f]; }
  if (a == b) { c.err++; return true; }
  c.err--; m[a].err--;
  if (c.err <= 0) split(b);
  if (m[a].err <= 0) split(a);
  return true;
}
static FT value() {
#ifdef VALS
  static const double vals[] = VALS;
  return (FT)vals[pick(0, (int)(sizeof(vals) / sizeof(vals[0])) - 1)];
#else
  return (FT)nd_irange(-RANGE, RANGE);
#endif
}
extern "C" void vf_main() {
  MCNN<FT, F, MAXC> c(THR, CLEAN, PERF);
#ifdef LABELS
  static const int labels[] = LABELS;
#endif
  FT x[F];
  for (int f = 0; f < F; ++f) x[f] = 0;
  CHECKM(c.predict(x) == -1 && c.count_clusters() == 0, "an untrained model predicts the empty class");
  for (int k = 0; k < N; ++k) {
    FT keep[F];
#ifdef POINTS
    static const double pts[] = POINTS;
    if (k < (int)(sizeof(pts) / sizeof(pts[0])) / F) for (int f = 0; f < F; ++f) x[f] = (FT)pts[k * F + f];
    else
#endif
    for (int f = 0; f < F; ++f) x[f] = value();
    for (int f = 0; f < F; ++f) keep[f] = x[f];
#ifdef LABELS
    int y = labels[k];
#else
    int y = pick(0, L - 1);
#endif
    bool want = train(x, y), got = c.train(x, y);
    CHECKM(got == want, "train fails exactly when a new cluster is needed and cannot be made");
    for (int f = 0; f < F; ++f) CHECKM(x[f] == keep[f], "training leaves the caller's data alone");
    int n = 0;
    for (int i = 0; i < MAXC; ++i) n += m[i].on;
    CHECKM(c.count_clusters() == n, "count_clusters is the number of active clusters");
    CHECKM(n <= MAXC, "no more clusters than allowed");
    vf_obs(n);
  }
  FT q[F];
  for (int f = 0; f < F; ++f) q[f] = value();
  double d = 0;
  int b = nearest(q, 0, true, d);
  int p = c.predict(q);
  CHECKM(p == (b < 0 ? -1 : m[b].label), "the prediction is the label of the nearest cluster");
  CHECKM(c.predict(q) == p, "prediction does not change the model");
  // what the training stored, seen through queries at and around each centroid
  for (int i = 0; i < MAXC; ++i) if (m[i].on) {
    for (int f = 0; f < F; ++f) q[f] = (FT)(m[i].s[f] / m[i].n);
    b = nearest(q, 0, true, d);
    CHECKM(c.predict(q) == m[b].label, "each centroid predicts its label");
  }
  CHECKM(c.get_error_thr() == THR && c.get_performance_thr() == PERF, "the thresholds are those given");
  vf_obs(p);
  vf_reach("end");
}
