// Bloom filter: any history of add/lookup/clear/set over any hash functions.
#include "vf.hpp"
#include "bloom_filter.hpp"
#ifndef BITS
#define BITS 11
#endif
#ifndef HASHES
#define HASHES 3
#endif
#ifndef OPS
#define OPS 5
#endif
#ifndef ELEMS
#define ELEMS 4
#endif
#ifndef ET
#define ET unsigned int
#endif
static unsigned int table[HASHES][ELEMS];
template <int I> static unsigned int hfun(ET *e) { return table[I][(unsigned)*e]; }
#if HASHES == 1
static unsigned int (*hs[])(ET *) = {hfun<0>};
#elif HASHES == 2
static unsigned int (*hs[])(ET *) = {hfun<0>, hfun<1>};
#elif HASHES == 3
static unsigned int (*hs[])(ET *) = {hfun<0>, hfun<1>, hfun<2>};
#endif

extern "C" void vf_main() {
  for (int i = 0; i < HASHES; ++i)
    for (int e = 0; e < ELEMS; ++e) table[i][e] = (unsigned)nd_irange(0, BITS - 1);
  BloomFilter<ET, BITS, HASHES> f(hs);
  bool bit[BITS], added[ELEMS];
  for (int i = 0; i < BITS; ++i) bit[i] = false;
  for (int e = 0; e < ELEMS; ++e) added[e] = false;
  for (int o = 0; o < OPS; ++o) {
    int op = nd_irange(0, 6);
    ET x = (ET)nd_irange(0, ELEMS - 1);
    ET keep = x;
    if (op <= 1) {
      if (op == 0) f.add(x); else f.add(&x);
      for (int i = 0; i < HASHES; ++i) bit[table[i][(unsigned)keep]] = true;
      added[(unsigned)keep] = true;
      vf_reach("add");
    } else if (op <= 3) {
      bool got = op == 2 ? f.lookup(x) : f.lookup(&x);
      bool want = true;
      for (int i = 0; i < HASHES; ++i) want = want && bit[table[i][(unsigned)keep]];
#ifdef EXACT
      CHECKM(got == want, "lookup is true exactly when every position of the element is set");
#else
      CHECKM(got || !added[(unsigned)keep], "an added element is reported present");
#endif
      if (got) vf_reach("present"); else vf_reach("absent");
    } else if (op == 4) {
      f.clear();
      for (int i = 0; i < BITS; ++i) bit[i] = false;
      for (int e = 0; e < ELEMS; ++e) added[e] = false;
    } else {
      // all zero / all one bit arrays: independent of the bit layout
      unsigned char a[BITS];
      for (int i = 0; i < BITS; ++i) a[i] = op == 5 ? 0 : 0xff;
      f.set(a);
      for (int i = 0; i < BITS; ++i) bit[i] = op == 6;
      for (int e = 0; e < ELEMS; ++e) added[e] = op == 6;
    }
    CHECKM(x == keep, "the caller's element is not modified");
  }
  // every element, at the end
  for (int e = 0; e < ELEMS; ++e) {
    ET x = (ET)e;
    bool got = f.lookup(x), want = true;
    for (int i = 0; i < HASHES; ++i) want = want && bit[table[i][e]];
#ifdef EXACT
    CHECKM(got == want, "final lookup is true exactly when every position of the element is set");
#else
    CHECKM(got || !added[e], "every element added since the last reset is reported present");
#endif
    vf_obs(got);
  }
  vf_reach("end");
}
