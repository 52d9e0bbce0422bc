// Chained reservoir: histories of additions and expirations over any random sequence, against a model with arrays.
#include "vf.hpp"
#include "chained_reservoir.hpp"
#ifndef K
#define K 2
#endif
#ifndef PAT
#define PAT "aaaao"
#endif
#ifndef TS0
#define TS0 1
#endif
#ifndef GAP
#define GAP 1
#endif
#define OPS (int)(sizeof(PAT) - 1)
static double draw[64];
static int nd_;
static double arena[40][8];  // 64 bytes per allocation
static int na;
struct func {
  static double random() { double r = nd_unit_closed(); if (nd_ < 64) draw[nd_] = r; nd_++; return r; }
#ifdef ARENA
  static void *malloc(unsigned long n) { return n <= sizeof(arena[0]) && na < 40 ? (void *)arena[na++] : 0; }
#else
  static void *malloc(unsigned long n) { return ::malloc(n); }
#endif
};
static int ct[K][OPS + 1], ce[K][OPS + 1], len[K];
static unsigned nxt[K];
static int dp;
static int skip() { return (int)(draw[dp++] * (K - 1) + 0.5); }
extern "C" void vf_main() {
  ChainedReservoirSampling<int, K, func> r;
  static const char pat[] = PAT;
  unsigned n = 0;
  int ts = TS0;
  for (int o = 0; o < OPS; ++o) {
    if (pat[o] == 'a') {
      int e = 100 + (int)n;
      nd_ = 0; dp = 0;
      int old[K];
      for (int i = 0; i < K; ++i) if (i < (int)n) old[i] = r[i];
      r.add(e, (unsigned)ts);
      int at = -1;
      for (int i = 0; i < K; ++i) if (i <= (int)n) if (r[i] == e) { CHECKM(at == -1, "an element occupies at most one slot"); at = i; }
      if (n < K) {
        CHECKM(at == (int)n, "the first k elements are kept, in order");
        ct[n][0] = ts; ce[n][0] = e; len[n] = 1; nxt[n] = n + 1 + skip();
      } else {
        double p = (double)K / (n + 1);
        bool acc = draw[dp++] < p;
        CHECKM(acc == (at >= 0), "the n-th element is accepted with probability k/n");
        if (acc) {
          double u = draw[dp++];
          CHECKM(u * K >= at - 1e-9 && (u * K < at + 1 + 1e-9 || at == K - 1), "the replaced slot is uniform");
          vf_reach("replace");
          ct[at][0] = ts; ce[at][0] = e; len[at] = 1; nxt[at] = n + 1 + skip();
        }
      }
      for (int i = 0; i < K; ++i) if (i < (int)n && i != at) { CHECKM(r[i] == old[i], "an addition changes only the slot of the new element"); }
      for (int i = 0; i < K; ++i) if (i <= (int)n && nxt[i] == n) {
        ct[i][len[i]] = ts; ce[i][len[i]] = e; len[i]++; nxt[i] = n + 1 + skip();
        vf_reach("chained");
      }
      CHECKM(nd_ == dp, "one draw per decision");
      n++; ts += GAP;
    } else {
      int t = pick(TS0 - (TS0 > 0), ts);
      int old[K];
      for (int i = 0; i < K; ++i) old[i] = r[i];
      r.obsolete((unsigned)t);
      for (int i = 0; i < K; ++i) if (i < (int)n) {
        if (ct[i][0] > t) {
          CHECKM(r[i] == old[i], "a live element is not discarded");
          vf_reach("live");
        }
        int j = 0;
        while (j < len[i] && ct[i][j] <= t) j++;
        if (j == len[i]) { // nothing alive in this chain: the slot waits for its successor
          CHECKM(r[i] == old[i], "a slot without a live successor keeps its element");
        } else {
          if (j > 0) vf_reach("expire");
          CHECKM(r[i] == ce[i][j], "an expired element is replaced by the first live successor of its chain");
          for (int q = 0; q + j < len[i]; ++q) { ct[i][q] = ct[i][q + j]; ce[i][q] = ce[i][q + j]; }
          len[i] -= j;
        }
      }
    }
    for (int i = 0; i < K; ++i) if (i < (int)n) {
      CHECKM(r[i] == ce[i][0], "a slot holds the head of its chain");
      vf_obs(r[i]);
    }
  }
  // the timestamps of live heads order the slots' contents: walk every chain to its end
  vf_reach("end");
}
