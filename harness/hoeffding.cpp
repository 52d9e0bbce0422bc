// Hoeffding tree: streams of N points against a tree written from the documentation (leaf statistics, information
// gain, Hoeffding bound).
#include "vf.hpp"
#include "hoeffding_tree.hpp"
#ifndef FT
#define FT double
#endif
#ifndef F
#define F 1
#endif
#ifndef L
#define L 2
#endif
#ifndef N
#define N 4
#endif
#ifndef BINS
#define BINS {3}
#endif
#ifndef DELTA
#define DELTA 0.99
#endif
#ifndef VALS
#define VALS {0, 1, 2}
#endif
#ifndef NODES
#define NODES 5    // room: number of nodes of the tree
#endif
#ifndef SLACK
#define SLACK 64   // spare bytes, not enough for another node
#endif
struct func {
  static double log(double x) { return std::log(x); }
  static double log2(double x) { return std::log2(x); }
  static double sqrt(double x) { return std::sqrt(x); }
  static bool isnan(double x) { return x != x; }
};
constexpr int bins[F] = BINS;
constexpr int sumb() { int s = 0; for (int i = 0; i < F; ++i) s += bins[i]; return s; }
constexpr int SUM = sumb(), C = SUM - F;
// room for NODES nodes, NODES odd: (NODES + 1) / 2 leaves have counters
template <int X> using T0 = HoeffdingTree<FT, F, L, X, func>;
constexpr int CNT = sizeof(int) + 2 * C * sizeof(double) + SUM * sizeof(int) * L;
#ifdef BIG
typedef T0<4000> Tree;
#else
typedef T0<NODES * (int)sizeof(T0<64>::Node) + (NODES + 1) / 2 * CNT + SLACK> Tree;
#endif
struct R { bool leaf; int f; double v, lo[F], hi[F], lim[C + 1], sg[C + 1]; int l, r, n, c[F][SUM][L]; };
static R t[16]; static int nn;
static int fresh() {
  R &a = t[nn]; a.leaf = true; a.n = 0;
  for (int f = 0; f < F; ++f) { a.lo[f] = std::numeric_limits<float>::infinity(); a.hi[f] = -a.lo[f]; for (int b = 0; b < SUM; ++b) for (int l = 0; l < L; ++l) a.c[f][b][l] = 0; }
  for (int i = 0; i <= C; ++i) a.lim[i] = a.sg[i] = 0;
  return nn++;
}
static double ent(const double *c) {
  double n = 0, e = 0;
  for (int l = 0; l < L; ++l) n += c[l];
  if (n > 0) for (int l = 0; l < L; ++l) if (c[l] > 0) e -= c[l] / n * std::log2(c[l] / n);
  return e;
}
static void gains(R &a, double *g) {
  for (int f = 0, i = 0; f < F; ++f) for (int k = 0; k + 1 < bins[f]; ++k, ++i) {
    double s[2][L], al[L], m[2] = {0, 0};
    for (int l = 0; l < L; ++l) { s[0][l] = s[1][l] = 0; for (int b = 0; b < bins[f]; ++b) s[b > k][l] += a.c[f][b][l]; al[l] = s[0][l] + s[1][l]; m[0] += s[0][l]; m[1] += s[1][l]; }
    double n = m[0] + m[1];
    g[i] = n > 0 ? ent(al) - m[0] / n * ent(s[0]) - m[1] / n * ent(s[1]) : 0;
  }
}
static int leaf_of(const FT *x) { int i = 0; while (!t[i].leaf) i = x[t[i].f] <= t[i].v ? t[i].l : t[i].r; return i; }
static void limits(R &a) { for (int f = 0, i = 0; f < F; ++f) for (int k = 1; k < bins[f]; ++k) a.lim[i++] = a.lo[f] + k * ((a.hi[f] - a.lo[f]) / bins[f]); }
// trains one leaf; true if it has to split at candidate `best`
static bool learn(R &a, const FT *x, int y, int &best) {
  a.n++;
  for (int f = 0; f < F; ++f) { if (x[f] < a.lo[f]) a.lo[f] = x[f]; if (x[f] > a.hi[f]) a.hi[f] = x[f]; }
  for (int f = 0, i = 0; f < F; ++f) {
    int b = 0;
    while (b + 1 < bins[f] && x[f] > a.lim[i + b]) b++;
    a.c[f][b][y]++; i += bins[f] - 1;
  }
  double g[C + 1];
  gains(a, g);
  double b1 = -1, b2 = -1;
  for (int i = 0; i < C; ++i) a.sg[i] += g[i];
  for (int i = 0; i < C; ++i) { double m = a.sg[i] / a.n; if (m > b1) { b1 = m; best = i; } }
  for (int i = 0; i < C; ++i) if (i != best && a.sg[i] / a.n > b2) b2 = a.sg[i] / a.n;
  if (C == 1) b2 = 0;
  double d = b1 - b2, e = 2 * std::log(1 / (double)DELTA) / a.n, z = d * d - e;
  vf_assume(z > 1e-9 || z < -1e-9);   // not on the threshold itself
  return z > 0 && b1 > 0;
}
static bool ref_train(const FT *x, int y) {
  int i = leaf_of(x), best = 0;
  R before = t[i];
  if (!learn(t[i], x, y, best)) return true;
#ifndef BIG
  if (nn + 2 > NODES) { vf_reach("memory"); return false; }
#endif
  int f = 0, k = best;
  while (k >= bins[f] - 1) { k -= bins[f] - 1; f++; }
  double v = t[i].lim[best];
  int l = fresh(), r = fresh();
  for (int q = 0; q < F; ++q) { t[l].lo[q] = t[r].lo[q] = t[i].lo[q]; t[l].hi[q] = t[r].hi[q] = t[i].hi[q]; }
  t[l].hi[f] = t[r].lo[f] = v;
  limits(t[l]); limits(t[r]);
  t[i].leaf = false; t[i].f = f; t[i].v = v; t[i].l = l; t[i].r = r;
  int dummy;
  int j = x[f] <= v ? l : r;
  learn(t[j], x, y, dummy);
  if (i == 0) vf_reach("split"); else vf_reach("split again");
  return true;
}
static bool near(double a, double b) { return (a - b < 1e-9) & (b - a < 1e-9); }
static void check_predict(Tree &h, const FT *q) {
  double s[L + 1], s2[L]; s[L] = 777;
  FT qc[F]; for (int f = 0; f < F; ++f) qc[f] = q[f];
  int p = h.predict(qc, s), p2 = h.predict(qc), p3 = h.predict(qc, s2);
  R &a = t[leaf_of(q)];
  double n = a.n, sum = 0;
  int first = 0;
  for (int l = 0; l < L; ++l) {
    double c = 0;
    for (int b = 0; b < bins[0]; ++b) c += a.c[0][b][l];
    double e = n > 0 ? c / n : 1.0 / L;
    CHECKM(near(s[l], e), "the score of a label is its share of the points counted in the leaf");
    CHECKM(s[l] == s2[l], "predicting has no effect on later predictions");
    sum += s[l];
    if (s[l] > s[first]) first = l;
  }
  CHECKM(near(sum, 1), "the scores sum to one");
  CHECKM(p == first && p2 == p && p3 == p, "the prediction is the first label of highest score");
  CHECKM(s[L] == 777, "only the scores are written");
  for (int f = 0; f < F; ++f) CHECKM(qc[f] == q[f], "predicting leaves the point alone");
  vf_obs(p); vf_obsd(s[0]);
}
extern "C" void vf_main() {
  static FT vals[] = VALS;
  const int NV = sizeof vals / sizeof *vals;
#ifdef LIMITS
  static double lims[] = LIMITS;
#endif
#ifdef POINTS
  static const FT pts[][F] = POINTS;
  static const int labs[] = LABELS;
  const int NP = sizeof labs / sizeof *labs;
#else
  static const FT pts[1][F] = {}; static const int labs[1] = {0}; const int NP = 0;
#endif
  int bc[F];
  for (int f = 0; f < F; ++f) bc[f] = bins[f];
  struct { long a; Tree h; long b; } m = {5, Tree(DELTA, bc), 6};
  for (int f = 0; f < F; ++f) bc[f] = -1;    // the tree keeps its own copy
  fresh();
#ifdef LIMITS
  m.h.get_root()->set_limits(lims);
  for (int i = 0; i < C; ++i) t[0].lim[i] = lims[i];
#endif
  FT x[F];
  for (int k = 0; k < N; ++k) {
    int y;
    if (k < NP) { for (int f = 0; f < F; ++f) x[f] = pts[k][f]; y = labs[k]; }
    else {
      for (int f = 0; f < F; ++f)
#ifdef SYM
        x[f] = (FT)nd_grid(-64, 192, 6);
#else
        x[f] = vals[pick(0, NV - 1)];
#endif
      y = pick(0, L - 1);
    }
    FT xc[F];
    for (int f = 0; f < F; ++f) xc[f] = x[f];
    bool root_leaf = m.h.get_root()->is_leaf();
    CHECKM(root_leaf == t[0].leaf, "the root splits when the Hoeffding bound says so");
    bool r = m.h.train(xc, y), e = ref_train(x, y);
    CHECKM(r == e, "training fails exactly when a split is due and there is no room for it");
    for (int f = 0; f < F; ++f) CHECKM(xc[f] == x[f], "training leaves the point alone");
    root_leaf = m.h.get_root()->is_leaf();
    CHECKM(root_leaf == t[0].leaf, "the root splits when the Hoeffding bound says so");
    vf_assume(root_leaf == t[0].leaf);
    if (t[0].leaf) {   // nodes are exposed, and a leaf predicts
      double s[L], s2[L];
      int p = m.h.get_root()->predict(xc, s), p2 = m.h.predict(xc, s2);
      CHECKM(p == p2, "a single leaf predicts as the tree");
      for (int l = 0; l < L; ++l) CHECKM(s[l] == s2[l], "a single leaf gives the scores of the tree");
    }
    if (t[0].leaf && C > 0) {
      double g[C + 2], eg[C + 1]; g[C] = 99;
      m.h.get_root()->compute_information_gain(g);
      gains(t[0], eg);
      for (int i = 0; i < C; ++i) CHECKM(near(g[i], eg[i]), "the information gain is the entropy removed by the split");
      CHECKM(g[C] == 99, "only the gains are written");
    }
  }
  FT q[F];
  for (int f = 0; f < F; ++f)
#ifdef SYMQ
    q[f] = (FT)nd_grid(-64, 192, 6);
#else
    q[f] = vals[pick(0, NV - 1)];
#endif
  check_predict(m.h, q);
  check_predict(m.h, x);
  CHECKM(m.a == 5 && m.b == 6, "nothing outside the tree is written");
  vf_obs(nn);
  vf_reach("end");
}
