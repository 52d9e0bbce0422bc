// Multi-layer perceptron: any weights and inputs, against the textbook formulas.
#include "vf.hpp"
static double lastr; static int nr;
struct func {
  static double random() { nr++; return lastr = nd_unit_closed(); }
  static double activation(double x) { return ACT; }
  static double derivative(double x) { return DER; }
};
#include "perceptron.hpp"
#ifndef STEPS
#define STEPS 1
#endif
#ifndef LR
#define LR 0.25
#endif
static const int lsz[] = SIZES;
#define LAYERS (int)(sizeof(lsz) / sizeof(lsz[0]))
#define MX 4
static bool close(double a, double b) { return (a - b < 1e-6) & (b - a < 1e-6); }
static double w[LAYERS][MX][MX + 1], o[LAYERS][MX], dl[LAYERS][MX];
static void forward(const double *in) {
  for (int i = 0; i < lsz[0]; ++i) o[0][i] = in[i];
  for (int l = 1; l < LAYERS; ++l) for (int j = 0; j < lsz[l]; ++j) {
    double s = 0;
    for (int i = 0; i < lsz[l - 1]; ++i) s += w[l][j][i] * o[l - 1][i];
    o[l][j] = func::activation(s + w[l][j][lsz[l - 1]]);
  }
}
extern "C" void vf_main() {
  int need = 0, neurons = lsz[0];
  for (int l = 1; l < LAYERS; ++l) { need += lsz[l] * (lsz[l - 1] + 1); neurons += lsz[l]; }
  struct S { double before; MultiLayerPerceptron<LAYERS, BYTES, func> n; double after; S() : n(lsz, LR) {} };
  S s;
  s.before = 1; s.after = 2;
  double *raw = s.n.get_weights();
  CHECKM(nr >= need, "every weight is drawn from the random function");
  for (int i = 0; i < need; ++i) CHECKM(raw[i] >= 0 && raw[i] <= 1, "initial weights come from the random function");
  // weights, set as the caller likes
  double flat[64];
  int p = 0;
  for (int l = 1; l < LAYERS; ++l) for (int j = 0; j < lsz[l]; ++j) for (int i = 0; i <= lsz[l - 1]; ++i) { w[l][j][i] = WEIGHT; flat[p++] = w[l][j][i]; }
  flat[p] = 999;
#if SETTER == 0
  s.n.set_weights(flat);
#elif SETTER == 1
  p = 0;
  for (int l = 1; l < LAYERS; ++l) { s.n.set_weights(l, flat + p); p += lsz[l] * (lsz[l - 1] + 1); }
#else
  for (int l = LAYERS - 1; l >= 1; --l) for (int j = lsz[l] - 1; j >= 0; --j) s.n.set_weights(l, j, w[l][j]);
#endif
  for (int i = 0; i < need; ++i) CHECKM(raw[i] == flat[i], "setting weights stores them in layer, neuron, input order");
  for (int step = 0; step < STEPS; ++step) {
    double in[MX], out[MX + 1], keep[MX];
    for (int i = 0; i < lsz[0]; ++i) in[i] = keep[i] = nd_grid(-16, 16, 2);
    out[lsz[LAYERS - 1]] = 4242;
    s.n.feed_forward(in, out);
    forward(in);
    for (int i = 0; i < lsz[0]; ++i) CHECKM(in[i] == keep[i], "the input is not modified");
    for (int j = 0; j < lsz[LAYERS - 1]; ++j) { CHECKM(close(out[j], o[LAYERS - 1][j]), "the output is the network's function of the input"); vf_obsd(out[j]); }
    CHECKM(out[lsz[LAYERS - 1]] == 4242, "nothing outside the output is written");
    for (int i = 0; i < need; ++i) { double e = 0; int q = 0; for (int l = 1; l < LAYERS; ++l) for (int j = 0; j < lsz[l]; ++j) for (int k = 0; k <= lsz[l - 1]; ++k) if (q++ == i) e = w[l][j][k]; CHECKM(close(raw[i], e), "feeding forward does not change the weights"); }
#ifdef BACK
    double exp_[MX];
    double err = 0;
    for (int j = 0; j < lsz[LAYERS - 1]; ++j) exp_[j] = nd_grid(-16, 16, 2);
    double got = s.n.backpropagate(exp_);
    const int Z = LAYERS - 1;
    for (int j = 0; j < lsz[Z]; ++j) { double e = o[Z][j] - exp_[j]; err += e * e; dl[Z][j] = e * func::derivative(o[Z][j]); }
    for (int l = Z - 1; l >= 1; --l) for (int i = 0; i < lsz[l]; ++i) {
      double t = 0;
      for (int j = 0; j < lsz[l + 1]; ++j) t += w[l + 1][j][i] * dl[l + 1][j];
      dl[l][i] = t * func::derivative(o[l][i]);
    }
    for (int l = 1; l <= Z; ++l) for (int j = 0; j < lsz[l]; ++j) for (int i = 0; i <= lsz[l - 1]; ++i)
      w[l][j][i] -= LR * dl[l][j] * (i < lsz[l - 1] ? o[l - 1][i] : 1);
    CHECKM(close(got * lsz[Z], err), "the returned error is the mean squared error of the output");
    int q = 0;
    for (int l = 1; l <= Z; ++l) for (int j = 0; j < lsz[l]; ++j) for (int i = 0; i <= lsz[l - 1]; ++i) {
      CHECKM(close(raw[q], w[l][j][i]), "each weight moves along the gradient of the squared error");
      q++;
    }
#endif
    CHECKM(s.before == 1 && s.after == 2, "nothing outside the network is written");
  }
  vf_reach("end");
}
