// LTC: any stream of N points; the receiver interpolates between the transmitted points.
#include "vf.hpp"
#include "ltc.hpp"
#ifndef ET
#define ET int
#endif
#ifndef TT
#define TT int
#endif
#ifndef EPS
#define EPS 3
#endif
#ifndef N
#define N 5
#endif
#ifndef TUD
#define TUD 1
#endif
#ifndef VMAX
#define VMAX 1000
#endif
#ifndef RANGE
#define RANGE VMAX
#endif
#ifndef SLACK
#define SLACK 0
#endif
#ifndef FRAC
#define FRAC 0
#endif
#ifndef GAPS
#define GAPS {1, 3}
#endif
#ifndef T0
#define T0 {0, 100}
#endif
#ifdef FLUSH  // two more points, out of reach of each other and of any segment, so that every segment is closed
#define M (N + 2)
#else
#define M N
#endif
extern "C" void vf_main() {
  LTC<ET, TT, EPS, VMAX, -VMAX, TUD> c;
  static const int gaps[] = GAPS, t0s[] = T0;
  const int ng = sizeof(gaps) / sizeof(gaps[0]), nt = sizeof(t0s) / sizeof(t0s[0]);
  double T[M], V[M], XT[M], XV[M];
  int xk[M], x = 0;
  int t = t0s[pick(0, nt - 1)];
  for (int k = 0; k < M; ++k) {
    if (k >= N) t += 1; else if (k) t += gaps[pick(0, ng - 1)];
    ET v = k >= N ? (ET)(k == N ? VMAX : -VMAX) : FRAC ? (ET)nd_grid(-(RANGE << FRAC), RANGE << FRAC, FRAC) : (ET)nd_irange(-RANGE, RANGE);
    T[k] = t; V[k] = (double)v;
    int r = c.add((TT)t, v);
    CHECKM(r == 0 || r == 1, "add returns a truth value");
    if (r) {
      TT a; ET b;
      c.get_value_to_transmit(a, b);
      XT[x] = (double)a; XV[x] = (double)b; xk[x] = k; x++;
      vf_reach("transmit");
      TT a2; ET b2;
      c.get_value_to_transmit(a2, b2);
      CHECKM(a2 == a && b2 == b, "reading the transmitted point does not change it");
    }
    vf_obs(r);
  }
  if (x >= 2) vf_reach("segment");
#ifdef RECON
  if (x) CHECKM(XT[0] == T[0] && XV[0] == V[0], "the first transmitted point is the first point of the stream");
  for (int s = 0; s + 1 < x; ++s) {
    CHECKM(XT[s] < XT[s + 1], "transmitted timestamps increase");
    for (int k = 0; k < M; ++k) if (T[k] >= XT[s] && T[k] <= XT[s + 1]) {
      double f = (T[k] - XT[s]) / (XT[s + 1] - XT[s]);
      double y = XV[s] + f * (XV[s + 1] - XV[s]);
      CHECKM((y - V[k] <= EPS + SLACK + 1e-6) & (V[k] - y <= EPS + SLACK + 1e-6), "every point is reconstructed within epsilon");
    }
  }
  for (int s = 0; s < x; ++s) {
    bool is = false;
    for (int k = 0; k < M; ++k) if (T[k] == XT[s]) is = true;
    CHECKM(is, "a transmitted timestamp is the timestamp of an input");
    // every input before the one that triggered the transmission has been handed out or is covered by the next point
    CHECKM(XT[s] < T[xk[s]], "a transmitted point precedes the point that triggered it");
  }
#else
  for (int k = 0; k < M; ++k) {
    // the segment whose transmission is triggered by point k, if any
    for (int s = 0; s < x; ++s) if (xk[s] == k) {
      bool none = false, none1 = false;
      for (int i = 0; i <= k; ++i) for (int j = 0; j <= k; ++j) if (T[i] > XT[s] && T[j] > XT[s]) {
        double di = T[i] - XT[s], dj = T[j] - XT[s];
        double l = (V[i] - EPS - XV[s]) / di, lc = (-VMAX - XV[s]) / di, h = (V[j] + EPS - XV[s]) / dj, hc = (VMAX - XV[s]) / dj;
        none |= (l > h - 1e-6) | (lc > h - 1e-6) | (l > hc - 1e-6) | (lc > hc - 1e-6);
        if (i < k && j < k) none1 |= (l > h + 1e-6) | (lc > h + 1e-6) | (l > hc + 1e-6) | (lc > hc + 1e-6);
      }
      CHECKM(none, "a point is transmitted only when no line within epsilon exists");
      CHECKM(!none1, "a point is transmitted as soon as no line within epsilon exists");
    }
  }
#endif
  vf_reach("end");
}
