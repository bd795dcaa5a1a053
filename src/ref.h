// ref.h - boring reference model: permutations as vector<int>, changes as
// sets of places, in plain C++ with no use of the library under test.
#ifndef REF_H
#define REF_H
#include <algorithm>
#include <numeric>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <cstdint>

namespace ref {
typedef std::vector<int> P;

inline P id(int n) { P p(n); std::iota(p.begin(), p.end(), 0); return p; }
inline int at(P const &p, int i) { return i < (int)p.size() ? p[i] : i; }
inline P ext(P p, int n) { while ((int)p.size() < n) p.push_back((int)p.size()); return p; }
// place i of the product is the bell in place b[i] of a
inline P mul(P const &a, P const &b) {
  int n = std::max(a.size(), b.size());
  P r(n);
  for (int i = 0; i < n; ++i) r[i] = at(a, at(b, i));
  return r;
}
inline P inv(P const &a) { P r(a.size()); for (int i = 0; i < (int)a.size(); ++i) r[a[i]] = i; return r; }
inline P div(P const &a, P const &b) { return mul(a, inv(b)); }
inline bool isid(P const &a) { for (int i = 0; i < (int)a.size(); ++i) if (a[i] != i) return false; return true; }
inline std::vector<std::vector<int>> cycles(P const &a) {
  std::vector<std::vector<int>> v; std::vector<char> d(a.size(), 0);
  for (int i = 0; i < (int)a.size(); ++i) if (!d[i]) {
    std::vector<int> c; int j = i;
    while (!d[j]) { d[j] = 1; c.push_back(j); j = a[j]; }
    v.push_back(c);
  }
  return v;
}
inline long long gcd(long long a, long long b) { while (b) { long long t = a % b; a = b; b = t; } return a; }
inline long long order(P const &a) { long long o = 1; for (auto &c : cycles(a)) o = o / gcd(o, c.size()) * c.size(); return o; }
inline int sign(P const &a) { // by counting inversions
  int s = 1;
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = i + 1; j < a.size(); ++j) if (a[i] > a[j]) s = -s;
  return s;
}
inline P pw(P const &a, long long k) { // by repeated multiplication
  P b = k < 0 ? inv(a) : a; if (k < 0) k = -k;
  P r = id(a.size());
  k %= order(a);
  while (k--) r = mul(r, b);
  return r;
}
inline std::vector<P> perms(int n) { std::vector<P> v; P p = id(n); do v.push_back(p); while (std::next_permutation(p.begin(), p.end())); return v; }
inline std::vector<P> perms_upto(int n) { std::vector<P> v; for (int k = 0; k <= n; ++k) { auto w = perms(k); v.insert(v.end(), w.begin(), w.end()); } return v; }

// A change on n bells: sw[i] true if places i,i+1 swap.
typedef std::vector<char> Sw;
inline void all_sw(int n, int i, Sw &cur, std::vector<Sw> &out) {
  if (i >= n - 1) { out.push_back(cur); return; }
  cur[i] = 0; all_sw(n, i + 1, cur, out);
  if (i == 0 || !cur[i - 1]) { cur[i] = 1; all_sw(n, i + 1, cur, out); cur[i] = 0; }
}
inline std::vector<Sw> changes(int n) { std::vector<Sw> v; Sw c(n > 0 ? n : 0, 0); all_sw(n, 0, c, v); return v; }
inline P sw_perm(Sw const &s) { P p = id(s.size()); for (size_t i = 0; i + 1 < s.size(); ++i) if (s[i]) std::swap(p[i], p[i + 1]); return p; }
inline bool is_place(Sw const &s, int i) { return !(i > 0 && s[i - 1]) && !(i + 1 < (int)s.size() && s[i]); }
inline std::vector<int> places(Sw const &s) { std::vector<int> v; for (int i = 0; i < (int)s.size(); ++i) if (is_place(s, i)) v.push_back(i); return v; }
static const char SYM[] = "1234567890ETABCDFGHJKLMNPQRSUVWYZ";
inline std::string sym(int b) { return b < 33 ? std::string(1, SYM[b]) : "{" + std::to_string(b + 1) + "}"; }
inline std::string str(P const &p) { std::string s; for (int b : p) s += sym(b); return s; }
// explicit place notation of a change, every place written out ("X" if none)
inline std::string pn(Sw const &s) { auto v = places(s); if (v.empty()) return "X"; std::string r; for (int p : v) r += sym(p); return r; }
inline uint64_t fact(int n) { uint64_t r = 1; while (n > 1) r *= n--; return r; }
} // namespace ref
#endif
