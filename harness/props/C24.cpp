// C24 - arithmetic helpers
#include "lib.h"
#include <ringing/mathutils.h>
#include <cmath>
using namespace lib; using namespace pbt;

static int gen_int(Src& s) {
  switch (s.below(4)) { case 0: return s.range(1, 30); case 1: return s.range(1, 1000); case 2: return 1 + s.below(0x7fffffff); default: {
    int v = 1; for (int k = s.below(8); k > 0; --k) v *= s.range(1, 12); return v; } }
}
static long gcd(long a, long b) { return b ? gcd(b, a % b) : a; }

SUB(hcf_lcm, 400000, 4000000, "two positive integers, often with common factors: highest common factor and, where it fits in an int, lowest common multiple; non-trivial when neither divides the other") {
  int a = gen_int(s), b = gen_int(s);
  if (s.coin()) { int k = s.range(2, 30); if (a < 70000000 && b < 70000000) { a *= k; b *= k; } }
  s.note(std::to_string(a) + " " + std::to_string(b)); s.nontrivial(a % b && b % a);
  long g = gcd(a, b), l = a / g * (long)b;
  CHECK_EQ((long)hcf(a, b), g, "hcf");
  if (l <= 0x7fffffff) { CHECK_EQ((long)lcm(a, b), l, "lcm"); s.label("lcm fits"); if ((long)a * b > 0x7fffffff) s.label("product does not fit"); }
}

SUB(sequences, 20000, 200000, "factorial to 12, fibonacci to 46, powers, primality and next prime to 100000, and the largest order of a row on up to 120 bells; non-trivial always") {
  unsigned n = s.below(13); long f = 1; for (unsigned i=2; i<=n; ++i) f *= i;
  CHECK_EQ((long)ringing::factorial(n), f, "factorial of " << n);
  n = s.below(47); unsigned long p = 1, q = 1; for (unsigned i=1; i<n; ++i) { unsigned long t = p + q; p = q; q = t; }
  CHECK_EQ((unsigned long)ringing::fibonacci(n), q, "fibonacci " << n);
  int base = s.range(-20, 20), e = s.range(-2, 14); long r = 1; for (int i=0; i<e; ++i) r *= base; if (e < 0) r = 0;
  s.note(std::to_string(base) + "^" + std::to_string(e));
  CHECK_EQ((long)ringing::ipower(base, e), r, "power " << base << "^" << e);
  unsigned m = s.below(100001); s.note(std::to_string(m)); s.nontrivial();
  auto prime = [](unsigned x) { if (x < 2) return false; for (unsigned d=2; d*d<=x; ++d) if (x % d == 0) return false; return true; };
  CHECK_EQ(ringing::is_prime(m), prime(m), "is prime"); unsigned nx = m + 1; while (!prime(nx)) ++nx;
  CHECK_EQ(ringing::next_prime(m), nx, "next prime after " << m);
  CHECK_EQ(ringing::sign(base), base > 0 ? 1 : base < 0 ? -1 : 0, "sign");
  // Landau's function by the obvious recursion over prime powers
  unsigned k = s.range(1, 120); std::vector<unsigned long> g(k+1, 1);
  for (unsigned d=2; d<=k; ++d) if (prime(d)) for (unsigned j=k; j>=d; --j) for (unsigned w=d; w<=j; w*=d) g[j] = std::max(g[j], w * g[j-w]);
  if (g[k] <= 0xffffffffu) CHECK_EQ((unsigned long)ringing::landau(k), g[k], "Landau's function of " << k);
}

static unsigned rnd_state, rnd_max; static int my_rand() { rnd_state = rnd_state * 1664525u + 1013904223u; return (rnd_state >> 8) % (rnd_max + 1ull); }
SUB(random, 20000, 200000, "random numbers from a generator of our own with a range of its own: all in range, extremes included, and evenly spread; non-trivial always") {
  rnd_max = s.pick(std::vector<unsigned>{32767u, 1000000u, 16777215u}); rnd_state = s.below(1u<<30);
  struct guard { std::pair<int(*)(),int> old; guard() : old(ringing::random_fn(&my_rand, rnd_max)) {} ~guard() { ringing::random_fn(old.first, old.second); } } g;
  CHECK(ringing::random_fn(0, 0).first == &my_rand, "the generator in use");
  unsigned m = s.range(1, 50); s.note(std::to_string(m) + " " + std::to_string(rnd_state) + " " + std::to_string(rnd_max)); s.nontrivial();
  std::vector<int> seen(m); int const N = 200 * m;
  for (int i=0; i<N; ++i) { unsigned r = ringing::random_int(m); CHECK(r < m, "in range"); ++seen[r]; }
  for (unsigned i=0; i<m; ++i) CHECK(seen[i] > 80 && seen[i] < 360, "value " << i << " of " << m << " came " << seen[i] << " times in " << N);
  double hi = s.range(1, 100), lo = -s.range(0, 100);
  for (int i=0; i<50; ++i) { double d = ringing::random_uniform_deviate(lo, hi); CHECK(d >= lo && d < hi, "uniform deviate"); double e = ringing::random_uniform_deviate(hi); CHECK(e >= 0 && e < hi, "uniform deviate"); }
  int yes = 0; for (int i=0; i<1000; ++i) { yes += ringing::random_bool(0.3); CHECK(!ringing::random_bool(0), "never"); }
  CHECK(yes > 180 && yes < 420, "true " << yes << " times in 1000 with probability 0.3");
}
