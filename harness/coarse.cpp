// Coarse Mondrian forests: whatever the extension strategy, triggers and trimming, the trees stay trees.
#include "vf.hpp"
#include "mondrian_coarse.hpp"
#ifndef F
#define F 1
#endif
#ifndef L
#define L 2
#endif
#ifndef TREES
#define TREES 1
#endif
#ifndef N
#define N 3
#endif
#ifndef ROOM
#define ROOM 7
#endif
#ifndef EXT
#define EXT EXTEND_ORIGINAL
#endif
#ifndef MGMT
#define MGMT PHOENIX_MANAGEMENT
#endif
#ifndef LIMIT
#define LIMIT -1
#endif
#ifndef TRIM
#define TRIM TRIM_NONE
#endif
#ifndef FED
#define FED FE_DISTRIBUTION_ZERO
#endif
#ifndef FES
#define FES SPLIT_TRIGGER_NONE
#endif
#ifndef HELP
#define HELP SPLIT_HELPER_NONE
#endif
#ifndef VALS
#define VALS {0, 1, 3}
#endif
#ifndef FEP
#define FEP 1.0     // how much of the distance to a point a box grows when it takes it
#endif
#ifndef PRE
#define PRE 0       // number of points before the symbolic ones: the last concrete point, or with CYCLE all of them in turn
#endif
static bool predicting, fixedpart;
struct func {
  static double rand_uniform() { vf_check(!predicting, "predicting draws no random number"); 
    if (fixedpart) return 0.6;
#ifdef DRAWS
    static const double d[] = DRAWS; return d[pick(0, sizeof d / sizeof *d - 1)];
#else
    return nd_unit();
#endif
  }
  static double log(double x) { static const double e[] = LOGS; return fixedpart ? e[0] : e[pick(0, sizeof e / sizeof *e - 1)]; }
  static double exp(double x) { return std::exp(x); }
  static double sqrt(double x) { return std::sqrt(x); }
};
typedef MondrianNode<F, L> Node;
#ifndef STAT
#define STAT ErrorMetrics<>
#endif
template <int X> using M0 = CoarseMondrianForest<double, func, STAT, F, L, X>;
typedef M0<ROOM * (int)sizeof(Node) + TREES * (int)sizeof(M0<4096>::TreeBase) + 7> Forest;
static bool seen[ROOM];
static int walk(Node *n, int i, int up, double tau) {
  CHECKM(i >= 0 && i < ROOM, "a child or root is a node");
  vf_assume(i >= 0 && i < ROOM);
  CHECKM(!seen[i], "a node has one place in one tree");
  vf_assume(!seen[i]);
  seen[i] = true;
  CHECKM(!n[i].available(), "a node of a tree is in use");
  CHECKM(n[i].parent == up, "a node knows its parent");
  CHECKM(n[i].tau >= tau, "the time increases from a node to its children");
  for (int f = 0; f < F; ++f) CHECKM(n[i].bound_lower[f] <= n[i].bound_upper[f], "a box is not inside out");
  for (int l = 0; l < L; ++l) CHECKM(n[i].counters[l] >= 0, "a count is not negative");
  if (n[i].is_leaf()) return 1;
  CHECKM(n[i].split_dimension < F, "a split is along a feature");
  for (int s = 0; s < 2 && FEP == 1.0; ++s) {
    const int c = s ? n[i].child_right : n[i].child_left, d = n[i].split_dimension;
    if (c < 0 || c >= ROOM) continue;
    for (int f = 0; f < F; ++f) CHECKM((n[c].bound_lower[f] >= n[i].bound_lower[f]) & (n[c].bound_upper[f] <= n[i].bound_upper[f]), "the box of a node holds those of its children");
    CHECKM(s ? n[c].bound_lower[d] >= n[i].split_value : n[c].bound_upper[d] <= n[i].split_value, "a child lies on its side of the split");
  }
  return 1 + walk(n, n[i].child_left, i, n[i].tau) + walk(n, n[i].child_right, i, n[i].tau);
}
static int count(Node *n, int i) {   // points counted in the leaves
  if (!n[i].is_leaf()) return count(n, n[i].child_left) + count(n, n[i].child_right);
  int s = 0;
  for (int l = 0; l < L; ++l) s += n[i].counters[l];
  return s;
}
static int fewest(Node *n, int i) {   // smallest number of points of a leaf
  if (n[i].is_leaf()) return count(n, i);
  int a = fewest(n, n[i].child_left), b = fewest(n, n[i].child_right);
  return a < b ? a : b;
}
static bool has_leaf(Node *n, int i, int c) { return n[i].is_leaf() ? count(n, i) == c : has_leaf(n, n[i].child_left, c) || has_leaf(n, n[i].child_right, c); }
static bool single[ROOM];   // leaves whose box is one value
static void place(Node *n, int i, int *up) {
  up[i] = n[i].parent;
  single[i] = n[i].is_leaf();
  for (int f = 0; f < F; ++f) if (n[i].bound_lower[f] < n[i].bound_upper[f]) single[i] = false;
  if (!n[i].is_leaf()) { place(n, n[i].child_left, up); place(n, n[i].child_right, up); }
}
// A new split has an old node on one side and a new leaf on the other: the leaf takes the smaller part of the points.
static void check_splits(Forest &m, const int *up, const double *x) {
  Node *n = m.get_nodes();
  int now[ROOM];
  bool alone[ROOM];
  for (int i = 0; i < ROOM; ++i) alone[i] = up[i] != -2 && single[i];
  for (int i = 0; i < ROOM; ++i) now[i] = -2;
  place(n, m.get_bases()[0].root, now);
  for (int i = 0; i < ROOM; ++i) {
    if (now[i] == -2 || up[i] != -2 || n[i].is_leaf()) continue;
    const int a = n[i].child_left, b = n[i].child_right;
    if (up[a] == -2 && up[b] == -2) continue;
    const int fresh = up[a] == -2 ? a : b, kept = a + b - fresh;
    CHECKM(up[kept] != -2 && n[fresh].is_leaf(), "a new split separates an old node from a new leaf");
    const bool into = (x[n[i].split_dimension] <= n[i].split_value) == (fresh == a);
    const int cf = count(n, fresh) - into, ck = count(n, kept) - !into;
    if (cf) vf_reach("forced split");
    CHECKM(cf <= ck + 4, "a forced split moves the smaller part of the points");
    if (n[i].parent == up[kept]) CHECKM(!alone[kept] || into, "a leaf of a single value is only split from a new point");
    if (n[i].parent == up[kept]) CHECKM(n[kept].forced_extend >= n[fresh].forced_extend, "the larger part keeps most of the forced extensions");
  }
}
static int wellformed(Forest &m) {
  Node *n = m.get_nodes();
  int k = 0, in_use = 0;
  for (int i = 0; i < ROOM; ++i) seen[i] = false;
  for (int t = 0; t < TREES; ++t) if (!m.get_bases()[t].is_empty()) k += walk(n, m.get_bases()[t].root, -1, 0);
  for (int i = 0; i < ROOM; ++i) in_use += !n[i].available();
  CHECKM(k == in_use, "every node in use belongs to a tree");
  return k;
}
static void check_predict(Forest &m, const double *q) {
  double s[L + 1], s2[L], sum = 0;
  s[L] = 777;
  predicting = true;
  int p = m.predict(q, s), p2 = m.predict(q, s2);
  predicting = false;
  for (int l = 0; l < L; ++l) { CHECKM(s[l] > -1e-9 && s[l] < 1 + 1e-9, "a score is between 0 and 1"); CHECKM(s[l] == s2[l], "predicting has no effect on later predictions"); sum += s[l]; }
  CHECKM(sum - 1 < 1e-9 && 1 - sum < 1e-9, "the scores sum to one");
  CHECKM(p >= 0 && p < L && p == p2, "the prediction is a label");
  CHECKM(s[L] == 777, "only the scores are written");
  vf_obs(p);
}
extern "C" void vf_main() {
#ifdef NODECOPY
  Node a;
  a.split_dimension = nd_irange(-1, F - 1); a.split_value = nd_grid(-9, 9, 1); a.child_left = nd_irange(-1, 9); a.child_right = nd_irange(-1, 9); a.parent = nd_irange(-1, 9);
  a.tau = nd_grid(0, 9, 1); a.forced_extend = nd_irange(0, 9); a.fading_score = nd_grid(0, 9, 1);
  for (int f = 0; f < F; ++f) { a.bound_lower[f] = nd_grid(-9, 9, 1); a.bound_upper[f] = nd_grid(-9, 9, 1); }
  for (int l = 0; l < L; ++l) a.counters[l] = nd_irange(0, 9);
  Node b(a), c;
  c = a;
  for (int k = 0; k < 2; ++k) {
    Node &d = k ? c : b;
    CHECKM((d.split_dimension == a.split_dimension) & (d.split_value == a.split_value) & (d.child_left == a.child_left) & (d.child_right == a.child_right) & (d.parent == a.parent), "a copied node keeps its place and split");
    CHECKM((d.tau == a.tau) & (d.forced_extend == a.forced_extend) & (d.fading_score == a.fading_score), "a copied node keeps its time and scores");
    for (int f = 0; f < F; ++f) CHECKM((d.bound_lower[f] == a.bound_lower[f]) & (d.bound_upper[f] == a.bound_upper[f]), "a copied node keeps its box");
    for (int l = 0; l < L; ++l) CHECKM(d.counters[l] == a.counters[l], "a copied node keeps its counts");
  }
  vf_reach("end");
  return;
#endif
  static const double vals[] = VALS;
  const int NV = sizeof vals / sizeof *vals;
#ifdef POINTS
  static const double pts[][F] = POINTS;
  static const int labs[] = LABELS;
  const int NP = sizeof labs / sizeof *labs;
#else
  static const double pts[1][F] = {}; static const int labs[1] = {0}; const int NP = 0;
#endif
  struct S { long a; Forest m; long b; S() : a(5), m(2.0, 1.0 / L, 0.5, TREES, MGMT, NODE_SIZE, LIMIT, 0, false, FED, FES, 1.0, true, true, FEP, 1.0, HELP, EXT, TRIM), b(6) {} };
  S w;   // not static: nothing zeroes it
  Forest &m = w.m;
  double x[F];
  int total = 0;
  for (int k = 0; k < NP + PRE + N; ++k) {
    int y;
    if (k < NP) { for (int f = 0; f < F; ++f) x[f] = pts[k][f]; y = labs[k]; }
    else if (k < NP + PRE) {
#ifdef CYCLE
      const int q = k % NP;
#else
      const int q = NP - 1;
#endif
      for (int f = 0; f < F; ++f) x[f] = pts[q][f]; y = labs[q];
    }
    else {
      for (int f = 0; f < F; ++f) x[f] = vals[pick(0, NV - 1)];
#ifdef ALT
      y = k % L;
#else
      y = pick(0, L - 1);
#endif
    }
    fixedpart = k < NP + PRE;
    int was = k >= NP + PRE ? wellformed(m) : 0;
    bool inside = was > 0;
    if (was) { Node &b = m.get_nodes()[m.get_bases()[0].root]; for (int f = 0; f < F; ++f) if (x[f] < b.bound_lower[f] || x[f] > b.bound_upper[f]) inside = false; }
    const int root = was ? m.get_bases()[0].root : -1, before = was ? count(m.get_nodes(), root) : 0, few = was ? fewest(m.get_nodes(), root) : 0;
    bool leaf_count[128]; for (int c = 0; c < 128; ++c) leaf_count[c] = was && has_leaf(m.get_nodes(), root, c);
    int up[ROOM];      // parent of the nodes of the first tree, -2 elsewhere
    for (int i = 0; i < ROOM; ++i) up[i] = -2;
    if (was) place(m.get_nodes(), root, up);
    bool r = m.train(x, y);
    if (k >= NP + PRE || k + 1 == NP) {
      int now = wellformed(m);
      if (now < was) {
        vf_reach("trimmed");
        if (TREES == 1 && EXT == EXTEND_ORIGINAL) {
          int lost = before + 1 - count(m.get_nodes(), m.get_bases()[0].root);
          CHECKM(now == was - 2, "trimming removes a leaf and its parent");
          CHECKM(lost >= 0 && lost < 128 && leaf_count[lost], "trimming loses the points of one leaf");
          CHECKM(TRIM != TRIM_COUNT || lost == few, "trimming by count removes a leaf of fewest points");
        }
      }
      if (was && TREES == 1) {
        const int lost = before + 1 - count(m.get_nodes(), m.get_bases()[0].root);
        CHECKM(lost == 0 || (k % 100 == 0 && lost > 0 && lost < 128 && leaf_count[lost]), "a point is counted once, and only trimming a leaf loses counts");
      }
      if (now > was && was) { vf_reach("grown"); if (inside) vf_reach("grown inside"); }
      if (was && TREES == 1 && k % 100) check_splits(m, up, x);
      if (now + 1 >= ROOM) vf_reach("full");
    }
#ifdef COUNTED
    total += 1;
    for (int t = 0; t < TREES; ++t) CHECKM(m.get_bases()[t].is_empty() || count(m.get_nodes(), m.get_bases()[t].root) == total, "every point is counted in one leaf of each tree");
#endif
  }
  check_predict(m, x);
  for (int f = 0; f < F; ++f) x[f] = vals[pick(0, NV - 1)];
  check_predict(m, x);
  CHECKM(w.a == 5 && w.b == 6, "nothing outside the forest is written");
  vf_reach("end");
}
