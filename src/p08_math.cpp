// P08: number theory helpers, and random choices as a function of the
// underlying generator (which is replaced by an enumerated one).
#include "rl.h"
#include <ringing/mathutils.h>
#include <ringing/extent.h>
#include <cmath>
using namespace ringing;
using namespace rl;

static long long G(long long a, long long b) { long long g = 1; if (!a) return b; if (!b) return a; for (long long d = 1; d <= std::min(a, b); ++d) if (a % d == 0 && b % d == 0) g = d; return g; }
VF_SECTION(hcf_lcm) {
  int N = vf::tier(200, 500);
  for (int a = 0; a <= N; ++a) CASE("hcf and lcm of ", a, " with each number") {
    for (int b = 0; b <= N; ++b) {
      vf::states();
      EXPECT(hcf(a, b) == G(a, b), "hcf", b, " gave ", hcf(a, b));
      if (a || b) { long long l = a && b ? (long long)a / G(a, b) * b : 0; EXPECT(lcm(a, b) == l, "lcm", b, " gave ", lcm(a, b)); }
    }
  } END_CASE
  // close to the top of the range
  std::vector<int> big = {1, 2, 46340, 46341, 65536, 65537, 1 << 20, 1000000, 999983, 2147483646, 2147483647, 1073741824, 715827882};
  for (int a : big) for (int b : big) CASE("hcf and lcm of ", a, " and ", b) { vf::states(); long long g = ref::gcd(a, b), l = (long long)a / g * b; EXPECT(hcf(a, b) == g, "hcf", "gave ", hcf(a, b)); if (l <= 2147483647) EXPECT(lcm(a, b) == l, "lcm", "gave ", lcm(a, b), " not ", l); } END_CASE
}
VF_SECTION(numbers) {
  CASE("factorials") { for (int n = 0; n <= 20; ++n) { vf::states(); EXPECT(factorial(n) == ref::fact(n), "factorial", n, " gave ", factorial(n), " not ", ref::fact(n)); } } END_CASE
  CASE("fibonacci") { unsigned a = 1, b = 1; for (int n = 0; n <= 46; ++n) { vf::states(); EXPECT(fibonacci(n) == a, "fibonacci", n, " gave ", fibonacci(n)); unsigned t = a + b; a = b; b = t; } } END_CASE
  int N = vf::tier(20000, 200000);
  std::vector<char> comp(N + 1000, 0); for (int i = 2; i < (int)comp.size(); ++i) for (long long j = 2ll * i; j < (int)comp.size(); j += i) comp[j] = 1;
  CASE("primes") { for (int n = 0; n <= N; ++n) { vf::states(); bool p = n > 1 && !comp[n]; EXPECT(is_prime(n) == p, "prime", n); int q = n + 1; while (q < 2 || comp[q]) ++q; EXPECT(next_prime(n) == (unsigned)q, "next-prime", n, " gave ", next_prime(n)); } } END_CASE
  for (int b = -12; b <= 12; ++b) CASE("powers of ", b) { long long v = 1; for (int e = 0; e <= 17; ++e) { vf::states(); EXPECT(ipower(b, e) == v, "power", e, " gave ", ipower(b, e)); v *= b; } EXPECT(ipower(b, -1) == 0 && ipower(b, -5) == 0, "power-negative", ""); } END_CASE
  CASE("powers of 2") { for (int e = 0; e < 63; ++e) EXPECT(ipower(2, e) == 1ll << e, "power", e); } END_CASE
  CASE("sign") { for (int i = -1000; i <= 1000; ++i) { vf::states(); EXPECT(sign(i) == (i > 0) - (i < 0), "sign", i); } EXPECT(sign(2147483647) == 1 && sign(-2147483647 - 1) == -1, "sign", ""); } END_CASE
  // the largest order of a row: over every partition
  int L = vf::tier(40, 60);
  for (int n = 1; n <= L; ++n) CASE("largest order on ", n) {
    vf::states();
    long long best = 1;
    std::function<void(int, int, long long)> go = [&](int left, int least, long long l) { best = std::max(best, l); for (int k = least; k <= left; ++k) go(left - k, k + (k > 1), l / ref::gcd(l, k) * k); };
    go(n, 2, 1);
    EXPECT(landau(n) == best, "landau", "gave ", landau(n), " not ", best);
  } END_CASE
}
static std::vector<int> seq; static size_t at; static size_t calls;
static int gen() { ++calls; return seq[at++ % seq.size()]; }
VF_SECTION(random) {
  CASE("the generator can be replaced and restored") {
    auto old = random_fn(NULL, 0); auto o2 = random_fn(gen, 64); EXPECT(o2 == old, "generator", ""); auto o3 = random_fn(NULL, 5); EXPECT(o3.first == gen && o3.second == 64, "generator", ""); random_fn(old.first, old.second); EXPECT(random_fn(NULL, 0) == old, "generator", "");
  } END_CASE
  auto old = random_fn(NULL, 0);
  for (unsigned max = 1; max <= 64; ++max) for (int m : {1, 2, 4, 16}) CASE("random_int(", max, ") over every generator value up to ", max * m) {
    // rand_max = max*m with m a power of two, so each value is due exactly m times
    random_fn(gen, max * m);
    std::vector<int> n(max, 0);
    for (int v = 0; v < (int)max * m; ++v) { vf::states(); seq = {v}; at = 0; unsigned r = random_int(max); EXPECT(r < max, "random-range", r); if (r < max) ++n[r]; }
    bool exact = true; for (int k : n) if (k != m) exact = false;
    // dividing by a number that is not a power of two may round one value down
    if ((max & (max - 1)) == 0) EXPECT(exact, "random-uniform", ""); else { int dev = 0; for (int k : n) dev = std::max(dev, std::abs(k - m)); EXPECT(dev <= 1, "random-uniform", "off by ", dev); }
    // the very largest value is thrown back
    seq = {(int)(max * m), 0}; at = 0; EXPECT(random_int(max) == 0 && at == 2, "random-top", "");
    random_fn(old.first, old.second);
  } END_CASE
  for (int nw = 1; nw <= 5; ++nw) for (int nh = 0; nh <= 2; ++nh) for (int x = 0; x <= 1; ++x) CASE("random_row(", nw, ",", nh, ",", nw + nh + x, ")") {
    int N = ref::fact(nw); std::map<std::string, int> n;
    random_fn(gen, N * 4);
    for (int v = 0; v < N * 4; ++v) { vf::states(); seq = {v}; at = 0; row r = x ? random_row(nw, nh, nw + nh + x) : random_row(nw, nh); EXPECT(r.bells() == nw + nh + x, "random-row-bells", show(r)); bool ok = true; for (int i = 0; i < r.bells(); ++i) if ((i < nh || i >= nw + nh) && r[i] != i) ok = false; EXPECT(ok, "random-row-fixed", show(r)); ++n[ref::str(un(r))]; }
    EXPECT((int)n.size() == N, "random-row-reaches-all", n.size(), " of ", N);
    for (auto &p : n) EXPECT(std::abs(p.second - 4) <= 1, "random-row-uniform", p.first, " ", p.second);
    random_fn(old.first, old.second);
  } END_CASE
  for (int k = 0; k <= 16; ++k) CASE("random_bool(", k, "/16)") {
    random_fn(gen, 16); int n = 0; for (int v = 0; v < 16; ++v) { vf::states(); seq = {v}; at = 0; n += random_bool(k / 16.0); } EXPECT(n == k, "random-bool", n); random_fn(old.first, old.second);
  } END_CASE
  CASE("uniform deviates") {
    random_fn(gen, 255);
    double prev = -1; for (int v = 0; v <= 255; ++v) { vf::states(); seq = {v}; at = 0; double d = random_uniform_deviate(); EXPECT(std::fabs(d - v / 256.0) < 1e-12 && d < 1 && d > prev, "uniform", v); prev = d; at = 0; d = random_uniform_deviate(8.0); EXPECT(std::fabs(d - v / 32.0) < 1e-12, "uniform-max", v); at = 0; d = random_uniform_deviate(-2.0, 2.0); EXPECT(std::fabs(d - (-2 + v / 64.0)) < 1e-12, "uniform-range", v); }
    random_fn(old.first, old.second);
  } END_CASE
  CASE("normal deviates") { // Box-Muller on every pair of generator values
    random_fn(gen, 63);
    for (int a = 0; a < 64; ++a) for (int b = 0; b < 64; ++b) {
      double x = -1 + 2 * (a / 64.0), y = -1 + 2 * (b / 64.0), r = x * x + y * y; if (r >= 1 || r == 0) { seq = {a, b, 48, 48}; x = y = 0.5; r = 0.5; } else seq = {a, b};
      at = 0; vf::states(); double d = random_normal_deviate(3, 2), f = std::sqrt(-2 * std::log(r) / r);
      EXPECT(at == seq.size() && (std::fabs(d - (3 + 2 * y * f)) < 1e-9 || std::fabs(d - (3 + 2 * x * f)) < 1e-9), "normal", a, ",", b, " gave ", d);
    }
    random_fn(old.first, old.second);
  } END_CASE
}
