// native run-time of the harnesses (replay of counterexamples, translator validation)
#include <cstdio>
#include <cstdlib>
#include <cstring>
typedef unsigned long u64;
extern "C" void vf_main();
static FILE *in; static u64 rnd;
static u64 word() { u64 w = 0; if (rnd) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; } if (!in || fread(&w, 8, 1, in) != 1) w = 0; return w; }
static void stop(int c) { fflush(stdout); _Exit(c); }
static int live;
static void *get(unsigned long n) { live++; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new(unsigned long n) { return get(n); }
void *operator new[](unsigned long n) { return get(n); }
void operator delete(void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete(void *p, unsigned long) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, unsigned long) noexcept { if (p) live--; free(p); }
extern "C" {
int vf_live() { return live; }
unsigned char nd_u8() { return (unsigned char)word(); }
unsigned short nd_u16() { return (unsigned short)word(); }
unsigned int nd_u32() { return (unsigned int)word(); }
u64 nd_u64() { return word(); }
float nd_float() { u64 w = word(); if (rnd) return (float)(long)(w % 4001 - 2000) / 16; float v; memcpy(&v, &w, 4); return v; }
double nd_double() { u64 w = word(); if (rnd) return (double)(long)(w % 4001 - 2000) / 16; double v; memcpy(&v, &w, 8); return v; }
void vf_assume(bool c) { if (!c) { puts("VF:assume"); stop(77); } }
int nd_irange(int lo, int hi) { if (rnd) return (int)((unsigned)lo + (unsigned)(word() % ((u64)hi - lo + 1))); int v = (int)nd_u32(); vf_assume(v >= lo && v <= hi); return v; }
double nd_grid(int lo, int hi, int s) { int v = nd_irange(lo, hi); return (double)v / (double)(1ul << s); }
double nd_unit() { if (rnd) return (double)(word() % (1 << 20)) / (1 << 20); double v = nd_double(); vf_assume(v >= 0.0 && v < 1.0); return v; }
double nd_unit_closed() { if (rnd) return (double)(word() % ((1 << 20) + 1)) / (1 << 20); double v = nd_double(); vf_assume(v >= 0.0 && v <= 1.0); return v; }
void vf_check(bool c, const char *m) { if (!c) { printf("VF:FAIL %s\n", m); stop(1); } }
void vf_reach(const char *m) { printf("VF:reach %s\n", m); }
void vf_obs(int x) { printf("VF:obs %d\n", x); }
void vf_obsd(double x) { printf("VF:obsd %.17g\n", x); }
}
int main() {
  if (getenv("VF_RANDOM")) rnd = strtoul(getenv("VF_RANDOM"), 0, 10) * 2654435761u + 88172645463325252ul;
  if (getenv("VF_INPUT")) { in = fopen(getenv("VF_INPUT"), "rb"); if (!in) return 3; }
  vf_main(); puts("VF:done"); stop(0);
}
