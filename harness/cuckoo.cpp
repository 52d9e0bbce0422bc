// Cuckoo filter: histories of add/lookup/remove/clear (a concrete pattern of operations, symbolic elements) over any hash functions.
#include "vf.hpp"
#include "cuckoo_filter.hpp"
#ifndef BC
#define BC 2
#endif
#ifndef BS
#define BS 2
#endif
#ifndef ES
#define ES 3
#endif
#ifndef PAT
#define PAT "AARA"
#endif
#define OPS (int)(sizeof(PAT) - 1)
#ifndef ELEMS
#define ELEMS 3
#endif
#ifndef EMPTY
#define EMPTY 0
#endif
#ifndef DRAWS
#define DRAWS 4
#endif
#define NFP (1 << ES)
static unsigned fpt[ELEMS], ht[ELEMS], hf[NFP];
struct func {
  static unsigned char fingerprint(int const *e) { return (unsigned char)fpt[*e]; }
  static unsigned int hash(int const *e) { return ht[*e]; }
  static unsigned int hash(unsigned char fp) { return hf[fp]; }
};
static int draws, total, rpat;
static double rnd() {
#ifdef FULL
  return ((rpat >> (draws++ & 1)) & 1) ? 0.75 : 0.25;  // a pattern of period two
#else
  draws++;
  if (draws > DRAWS) {
    CHECKM(total >= BS, "insertion into a filter with room does not evict");
    vf_assume(false);
  }
  return nd_irange(0, 3) * 0.25 + 0.125;
#endif
}
static bool same(int a, int b) {  // indistinguishable for the filter
  return fpt[a] == fpt[b] && (ht[a] == ht[b] || (ht[a] ^ hf[fpt[a]]) == ht[b]);
}
extern "C" void vf_main() {
  CuckooFilter<int, BC, BS, ES, func, rnd, EMPTY> f;   // not static: nothing zeroes it
#ifdef FULL
  // up to renaming of buckets and fingerprints; one concrete case per path
  for (int i = 0; i < NFP; ++i) hf[i] = i == 1 || i == 2 ? pick(0, BC - 1) : 0;
  for (int e = 0; e < ELEMS; ++e) {
    fpt[e] = e == 0 ? 1 : pick(1, 2);
    ht[e] = e == 0 ? 0 : pick(0, BC - 1);
  }
#else
  for (int i = 0; i < NFP; ++i) hf[i] = (unsigned)nd_irange(0, BC - 1);
  for (int e = 0; e < ELEMS; ++e) {
    fpt[e] = (unsigned)nd_irange(0, NFP - 1);
    vf_assume(fpt[e] != EMPTY);
    ht[e] = (unsigned)nd_irange(0, BC - 1);
  }
#endif
  int n[ELEMS];  // accepted and not removed
  for (int e = 0; e < ELEMS; ++e) n[e] = 0;
  total = 0;
#ifdef FULL
  rpat = pick(0, 3);
#endif
  for (int o = 0; o < OPS; ++o) {
    static const char pat[] = PAT;  // A add, R remove, L lookup, C clear
    int op = pat[o] == 'A' ? 0 : pat[o] == 'R' ? 1 : pat[o] == 'L' ? 2 : 3;
#ifdef FULL
    int x = o % ELEMS, keep = x;
#else
    int x = nd_irange(0, ELEMS - 1), keep = x;
#endif
    int cls = 0;
    for (int e = 0; e < ELEMS; ++e) if (same(e, x)) cls += n[e];
    if (op == 0) {
      draws = 0;
      int before = total;
      bool ok = o % 2 ? f.add(x) : f.add(&x);
      if (ok) { n[x]++; total++; }
      CHECKM(total <= BC * BS, "no more elements accepted than there are entries");
      if (ok) vf_reach("accepted");
#ifdef FULL
      else vf_reach("refused");
#endif
      vf_obs(ok);
      CHECKM(ok || before >= BS, "insertion into a filter with room is accepted");
#ifndef FULL
      vf_reach("add");
      if (draws >= 2) vf_reach("evict");
#endif
    } else if (op == 1) {
#ifndef EXACT
      vf_assume(n[x] > 0);  // removing what was never added may remove a collision
#endif
      if (o % 2) f.remove(x); else f.remove(&x);
#ifdef EXACT
      if (cls > 0) {
        total--;
        bool done = false;
        for (int e = 0; e < ELEMS; ++e) if (!done && same(e, x) && n[e] > 0) { n[e]--; done = true; }
      }
#else
      n[x]--; total--;
#endif
      vf_reach("remove");
    } else if (op == 2) {
      bool got = o % 2 ? f.lookup(x) : f.lookup(&x);
#ifdef EXACT
      CHECKM(got == (cls > 0), "lookup is true exactly when an indistinguishable element is stored");
#else
      CHECKM(got || n[x] == 0, "a stored element is found");
#endif
    } else {
      f.clear();
      for (int e = 0; e < ELEMS; ++e) n[e] = 0;
      total = 0;
      vf_reach("clear");
    }
    CHECKM(x == keep, "the caller's element is not modified");
  }
  for (int e = 0; e < ELEMS; ++e) {
    int cls = 0;
    for (int q = 0; q < ELEMS; ++q) if (same(e, q)) cls += n[q];
    bool got = f.lookup(e);
#ifdef EXACT
    CHECKM(got == (cls > 0), "at the end lookup is true exactly when an indistinguishable element is stored");
#else
    CHECKM(got || n[e] == 0, "at the end every stored element is found");
#endif
    vf_obs(got);
  }
#ifdef EXACT
  // exactly as many removals succeed as elements are stored
  for (int e = 0; e < ELEMS; ++e) {
    int cls = 0;
    for (int q = 0; q < ELEMS; ++q) if (same(e, q)) cls += n[q];
    if (e == 0) {
      for (int k = 0; k < OPS; ++k) {
        bool got = f.lookup(e);
        CHECKM(got == (k < cls), "an element is found exactly as long as copies of it remain");
        f.remove(e);
      }
    } else if (!same(e, 0)) {
      CHECKM(f.lookup(e) == (cls > 0), "removing one element leaves the others");
    }
  }
#endif
  vf_reach("end");
}
