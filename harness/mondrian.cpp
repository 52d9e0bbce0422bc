// Mondrian forests: streams of N points against Mondrian trees written from the paper, fed with the same draws.
#include "vf.hpp"
#ifndef W
#define W 0      // 0 MondrianForest, 1 MondrianForestUnbound, 2 CoarseMondrianForest
#endif
#if W == 0
#include "mondrian.hpp"
#elif W == 1
#include "mondrian_unbound.hpp"
#else
#include "mondrian_coarse.hpp"
#endif
#ifndef FT
#define FT double
#endif
#ifndef F
#define F 1
#endif
#ifndef L
#define L 2
#endif
#ifndef TREES
#define TREES 1
#endif
#ifndef N
#define N 3
#endif
#ifndef ROOM
#define ROOM 32      // number of nodes there is room for
#endif
#ifndef LIFE
#define LIFE 2.0
#endif
#ifndef BASE
#define BASE (1.0 / L)
#endif
#ifndef EXT
#define EXT 1        // coarse forest: what is done when there is no room: 0 stop, 1 extend the boxes, 2 ghost, 3 partial update, 4 count only, 5 barycenter (without splits)
#endif
#ifndef DEPTH
#define DEPTH 1000   // limit of the depth of a tree
#endif
#ifndef GAMMA
#define GAMMA 1.0
#endif
#ifndef VALS
#define VALS {0, 1, 3}
#endif
// ---- draws: recorded while the forest trains, replayed by the model
static double dr[256]; static bool isexp[256]; static int nd, nr;
static bool predicting;
struct func {
  // an exponential variate is log of (one minus) a draw: the value of log replaces the draw in the record
  static double rand_uniform() {
    vf_check(!predicting, "predicting draws no random number");
    double u = nd_unit();
    if (nd < 256) { dr[nd] = u; isexp[nd] = false; }
    nd++;
    return u;
  }
#ifdef LOGS
  static double log(double x) { static const double e[] = LOGS; double v = e[pick(0, sizeof e / sizeof *e - 1)]; if (nd > 0 && nd <= 256) { dr[nd - 1] = v; isexp[nd - 1] = true; } return v; }
#else
  static double log(double x) { double v = -nd_grid(0, 1 << 12, 8); if (nd > 0 && nd <= 256) { dr[nd - 1] = v; isexp[nd - 1] = true; } return v; }
#endif
#ifdef STEP
  // exponential of the discount: with the (huge) discount factors of these obligations it underflows to zero
  static double exp(double x) { return x == 0 ? 1.0 : x < -745 ? 0.0 : std::exp(x); }
#else
  static double exp(double x) { return std::exp(x); }
#endif
  static double sqrt(double x) { return std::sqrt(x); }
};
// ---- the model
struct R { bool leaf; int d, l, r, p, c[L]; double v, lo[F], hi[F], tau; };
static R t[2 * TREES * N + 8]; static int nn, used, root[TREES];
static double next() { vf_check(nr < nd, "the forest draws the random numbers of the process"); return nr < nd ? dr[nr++] : 0; }
static int leaf(const FT *x, int y, int p) {
  R &a = t[nn]; a.leaf = true; a.p = p; a.tau = LIFE;
  for (int f = 0; f < F; ++f) a.lo[f] = a.hi[f] = x[f];
  for (int l = 0; l < L; ++l) a.c[l] = l == y;
  used++;
  return nn++;
}
static int height(int i) { if (t[i].leaf) return 1; int a = height(t[i].l), b = height(t[i].r); return 1 + (a > b ? a : b); }
static int above(int i) { int n = 0; while (t[i].p >= 0) { i = t[i].p; n++; } return n; }
static void extend(int k, int i, const FT *x, int y) {
  double ptau = t[i].p >= 0 ? t[t[i].p].tau : 0, e[F], sum = 0;
  for (int f = 0; f < F; ++f) {
    double a = t[i].lo[f] - x[f], b = x[f] - t[i].hi[f];
    e[f] = (a > 0 ? a : 0) + (b > 0 ? b : 0); sum += e[f];
  }
  double E = sum > 0 ? next() / -sum : -1;
  const bool branch = sum > 0 && ptau + E < t[i].tau, can = used + 2 <= ROOM && (DEPTH >= 1000 || height(i) + above(i) + 1 <= DEPTH);
  vf_assume(sum == 0 || ptau + E != t[i].tau);
  if (branch && can) {
    double u = next(), acc = 0; int d = -1;
    for (int f = 0; f < F && d < 0; ++f) { acc += e[f] / sum; if (u < acc) d = f; }
    for (int f = F - 1; f >= 0 && d < 0; --f) if (e[f] > 0) d = f;
    bool right = x[d] > t[i].hi[d];
    double lo = right ? t[i].hi[d] : x[d], hi = right ? x[d] : t[i].lo[d];
    double v = lo + next() * (hi - lo);
    int p = nn++; used++;
    int s = leaf(x, y, p);
    R &a = t[p]; a.leaf = false; a.d = d; a.v = v; a.tau = ptau + E; a.p = t[i].p;
    a.l = right ? i : s; a.r = right ? s : i;
    for (int f = 0; f < F; ++f) { a.lo[f] = x[f] < t[i].lo[f] ? x[f] : t[i].lo[f]; a.hi[f] = x[f] > t[i].hi[f] ? x[f] : t[i].hi[f]; }
    if (t[i].p < 0) root[k] = p;
    else if (t[t[i].p].l == i) t[t[i].p].l = p; else t[t[i].p].r = p;
    t[i].p = p;
    if (EXT == 2) { for (int l = 0; l < L; ++l) a.c[l] = t[i].c[l] + (l == y); }
    vf_reach("split");
    return;
  }
  if (branch) { vf_reach("full"); while (nr < nd && !isexp[nr]) nr++; }  // draws made before noticing are not held against it
  if (EXT == 2) t[i].c[y]++;
  if (branch && (EXT == 2 || EXT == 3)) return;
  if (!branch || EXT != 4) for (int f = 0; f < F; ++f) { if (x[f] < t[i].lo[f]) t[i].lo[f] = x[f]; if (x[f] > t[i].hi[f]) t[i].hi[f] = x[f]; }
  if (t[i].leaf) t[i].c[y] += EXT != 2;
  else extend(k, x[t[i].d] <= t[i].v ? t[i].l : t[i].r, x, y);
}
static bool ref_train(const FT *x, int y) {
  bool ok = true;
  for (int k = 0; k < TREES; ++k)
    if (root[k] >= 0) { if (EXT == 0 && used + 2 >= ROOM) ok = false; else extend(k, root[k], x, y); }
    else if (used < ROOM) root[k] = leaf(x, y, -1);
    else ok = false;
  return ok;
}
static void count(int i) {
  if (t[i].leaf) return;
  count(t[i].l); count(t[i].r);
  for (int l = 0; l < L; ++l) t[i].c[l] = (t[t[i].l].c[l] > 0) + (t[t[i].r].c[l] > 0);
}
static void ref_predict(int k, const FT *x, double *s) {
  double G[L], keep = 1;
  for (int l = 0; l < L; ++l) { G[l] = BASE; s[l] = 0; }
  if (root[k] < 0) { for (int l = 0; l < L; ++l) s[l] = BASE; return; }
  if (EXT != 2) count(root[k]);
  for (int i = root[k];; i = x[t[i].d] <= t[i].v ? t[i].l : t[i].r) {
    double D = t[i].tau - (t[i].p >= 0 ? t[t[i].p].tau : 0), eta = 0;
    for (int f = 0; f < F; ++f) { double a = x[f] - t[i].hi[f], b = t[i].lo[f] - x[f]; eta += (a > 0 ? a : 0) + (b > 0 ? b : 0); }
    double p = 1 - func::exp(-D * eta), n = 0, tabs = 0;
    for (int l = 0; l < L; ++l) { n += t[i].c[l]; tabs += t[i].c[l] > 0; }
    if (p > 0) {
      double d = eta / (eta + GAMMA) * (1 - func::exp(-(eta + GAMMA) * D)) / (1 - func::exp(-(eta * D)));
      for (int l = 0; l < L; ++l) s[l] += keep * p * ((t[i].c[l] > 0) * (1 - d) / tabs + d * G[l]);
    }
    double d = func::exp(-GAMMA * D);
    for (int l = 0; l < L; ++l) G[l] = (t[i].c[l] - d * (t[i].c[l] > 0) + d * tabs * G[l]) / n;
    if (t[i].leaf) { for (int l = 0; l < L; ++l) s[l] += keep * (1 - p) * G[l]; return; }
    keep *= 1 - p;
  }
}
#if W == 0
template <int X> using M0 = MondrianForest<FT, func, TREES, F, L, X>;
typedef M0<ROOM * (int)sizeof(M0<4096>::Node) + 7> Forest;
#define MAKEARGS LIFE, BASE, GAMMA
#elif W == 1
typedef MondrianForestUnbound<FT, func, F, L> Forest;
#define MAKEARGS LIFE, BASE, GAMMA, TREES
#else
#ifndef STAT
#define STAT ErrorMetrics<>
#endif
template <int X> using M0 = CoarseMondrianForest<FT, func, STAT, F, L, X>;
typedef M0<ROOM * (int)sizeof(MondrianNode<F, L>) + TREES * (int)sizeof(M0<4096>::TreeBase) + 7> Forest;
#if DEPTH < 1000
#define MGMT COBBLE_MANAGEMENT
#else
#define MGMT PHOENIX_MANAGEMENT
#endif
#define MAKEARGS LIFE, BASE, GAMMA, TREES, MGMT, NODE_SIZE, DEPTH, 0, false, 0, 0, 1.0, true, true, 1.0, 1.0, 0, EXTS[EXT]
static const int EXTS[] = {EXTEND_NONE, EXTEND_ORIGINAL, EXTEND_GHOST, EXTEND_PARTIAL_UPDATE, EXTEND_COUNTER_NO_UPDATE, EXTEND_BARYCENTER};
#endif
static bool near(double a, double b) { return (a - b < 1e-9) & (b - a < 1e-9); }
static void check_predict(Forest &m, const FT *q) {
  double s[L + 1], s2[L], e[L], sum = 0;
  FT qc[F]; for (int f = 0; f < F; ++f) qc[f] = q[f];
  s[L] = 777;
  predicting = true;
  int p = m.predict(qc, s), p2 = m.predict(qc), p3 = m.predict(qc, s2);
  predicting = false;
  for (int l = 0; l < L; ++l) e[l] = 0;
  for (int k = 0; k < TREES; ++k) { double o[L]; ref_predict(k, q, o); for (int l = 0; l < L; ++l) e[l] += o[l] / TREES; }
  for (int l = 0; l < L; ++l) {
    CHECKM(near(s[l], e[l]), "the score of a label is the average over the trees of its smoothed posterior mean");
    CHECKM(s[l] == s2[l], "predicting has no effect on later predictions");
    sum += s[l];
#ifndef ABSTRACT
    CHECKM(s[l] > -1e-9 && s[l] < 1 + 1e-9, "a score is between 0 and 1");
#endif
  }
#ifndef ABSTRACT
  CHECKM(near(sum, BASE * L == 1 ? 1 : sum), "the scores sum to one");
#endif
  CHECKM(p >= 0 && p < L, "the prediction is a label");
  vf_assume(p >= 0 && p < L);
  for (int l = 0; l < L; ++l) CHECKM(l < p ? s[l] < s[p] : s[l] <= s[p], "the prediction is the first label of highest score");
  CHECKM(p2 == p && p3 == p, "predicting twice gives the same label");
  CHECKM(s[L] == 777, "only the scores are written");
  for (int f = 0; f < F; ++f) CHECKM(qc[f] == q[f], "predicting leaves the point alone");
  vf_obs(p); vf_obsd(s[0]);
}
static void run() {
  static FT vals[] = VALS;
  const int NV = sizeof vals / sizeof *vals;
#ifdef POINTS
  static const FT pts[][F] = POINTS;
  static const int labs[] = LABELS;
  const int NP = sizeof labs / sizeof *labs;
#else
  static const FT pts[1][F] = {}; static const int labs[1] = {0}; const int NP = 0;
#endif
  for (int k = 0; k < TREES; ++k) root[k] = -1;
  struct S { long a; Forest m; long b; S() : a(5), m(MAKEARGS), b(6) {} };
  S w;
  Forest &m = w.m;
  FT x[F];
#ifdef EMPTY
  for (int f = 0; f < F; ++f) x[f] = vals[pick(0, NV - 1)];
  check_predict(m, x);
#endif
  for (int k = 0; k < N; ++k) {
    int y;
    if (k < NP) { for (int f = 0; f < F; ++f) x[f] = pts[k][f]; y = labs[k]; }
    else {
      for (int f = 0; f < F; ++f) x[f] = vals[pick(0, NV - 1)];
#ifdef ALT
      y = k % L;
#else
      y = pick(0, L - 1);
#endif
    }
    FT xc[F];
    for (int f = 0; f < F; ++f) xc[f] = x[f];
    nd = nr = 0;
    bool r = m.train(xc, y), e = ref_train(x, y);
    CHECKM(nr == nd, "the forest draws only the random numbers of the process");
    CHECKM(r == e, "training fails exactly when a tree has no node at all");
    for (int f = 0; f < F; ++f) CHECKM(xc[f] == x[f], "training leaves the point alone");
#ifdef EACH
    check_predict(m, x);
#endif
  }
  check_predict(m, x);
  FT q[F];
  for (int f = 0; f < F; ++f)
#ifdef SYMQ
    q[f] = (FT)nd_grid(-64, 256, 6);
#else
    q[f] = vals[pick(0, NV - 1)];
#endif
  check_predict(m, q);
#ifdef COPY
  { Forest c(m); check_predict(c, q); nd = nr = 0; bool r = c.train(x, 0), e = ref_train(x, 0); CHECKM(r == e, "a copy trains"); check_predict(c, q); }
#endif
  CHECKM(w.a == 5 && w.b == 6, "nothing outside the forest is written");
  vf_obs(nn);
}
extern "C" void vf_main() {
  int before = vf_live();
  run();
  CHECKM(vf_live() == before, "a forest gives its memory back");
  vf_reach("end");
}
