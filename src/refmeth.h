// refmeth.h - reference for the attributes of a method, phrased on paths.
#ifndef REFMETH_H
#define REFMETH_H
#include "rl.h"
#include "refpn.h"
#include <ringing/method.h>
#include <functional>
namespace refmeth {
using ref::P;
using ref::Sw;
using ringing::method;
typedef std::vector<Sw> M;

inline std::string show(M const &m) { std::string s; for (auto &c : m) s += ref::pn(c) + "."; return s; }
inline Sw rev(Sw const &s) { int n = s.size(); Sw r(n, 0); for (int i = 0; i + 1 < n; ++i) r[n - 2 - i] = s[i]; return r; }

// Everything below is phrased on paths: path(b) = places of the bell that
// starts in place b, one per row.
struct RefM {
  int n, L; M m; std::vector<P> sp; P lh;
  RefM(int n, M const &w) : n(n), L(w.size()), m(w) {
    lh = ref::id(n);
    for (auto &c : m) { P p = ref::sw_perm(c); sp.push_back(p); lh = ref::mul(lh, p); }
  }
  int step(int i, int pos) const { return ref::at(sp[((i % L) + L) % L], pos); }
  std::vector<int> path(int b) const { std::vector<int> v(1, b); for (int i = 0; i < L; ++i) v.push_back(step(i, v.back())); return v; }
  // reflection of the changes about change i
  bool pal(int i) const { for (int j = 1; j <= L / 2 && 2 * j < L + (L & 1); ++j) if (!(m[(i + j) % L] == m[(i - j + 2 * L) % L])) return false; return true; }
  bool sym() const { if (L % 2) return false; if (L == 0) return true; return pal(L / 2 - 1); }
  int sympt() const { if (L % 2) return -1; for (int i = 0; i < L / 2; ++i) if (pal(i)) return i; return -1; }
  // even L, 0 <= i < L/2: is this bell's path symmetrical about change i
  bool palb(int b, int i) const {
    int pos = b; for (int j = 0; j <= i; ++j) pos = step(j, pos);
    if (step(i, pos) != pos) return false;
    int f = pos, k = pos;
    for (int j = 1; j < L / 2; ++j) { f = step(i + j, f); k = step(i - j, k); if (f != k) return false; }
    return step(i + L / 2, f) == f;
  }
  int symptb(int b) const { for (int i = 0; i < L / 2; ++i) if (palb(b, i)) return i; return -1; }
  bool dbl() const { if (L % 2) return false; for (int i = 0; i < L / 2; ++i) if (!(m[i] == rev(m[i + L / 2]))) return false; return true; }
  bool plain(int b) const {
    auto p = path(b); int dir = b % 2 ? -1 : 1, turns = 0;
    for (int i = 0; i < L; ++i) { int d = p[i + 1] - p[i]; if (!d) { dir = -dir; ++turns; } else if (d != dir) return false; }
    return turns == 2 && p[L] == b;
  }
  bool dodges(int b) const {
    if (!L) return false;
    auto p = path(b); p.push_back(step(0, p.back()));
    for (size_t i = 2; i < p.size(); ++i) if (p[i] == p[i - 2] && p[i] != p[i - 1]) return true;
    return false;
  }
  bool places(int b) const { auto p = path(b); for (int i = 0; i < L; ++i) if (p[i] == p[i + 1] && p[i] > 0 && p[i] < n - 1) return true; return false; }
  int hunts() const { int k = 0; for (int i = 0; i < n; ++i) k += lh[i] == i; return k; }
  int pb(int h) const { // lead head is which power of the plain bob lead head with h hunt bells
    P l = ref::id(n); int nw = n - h;
    for (int k = 0; k < nw; ++k) { int s; if (k % 2 == 0) s = k == 0 ? (nw > 1 ? 1 : 0) : k - 2; else s = k + 2 < nw ? k + 2 : (k == nw - 1 ? nw - 2 : nw - 1); l[h + k] = h + s; }
    P q = l; for (int i = 1; i < nw; ++i) { if (q == lh) return i; q = ref::mul(q, l); } return 0;
  }
  int leadhunts() const { int h = 0; while (h < n && lh[h] == h) ++h; return h; }
  bool regular() const { if (!n) return true; int h = leadhunts(); return h && pb(h); }
  int maxblows() const {
    int best = 0;
    for (int p = 0; p < n; ++p) {
      int all = 1; for (auto &c : m) if (!ref::is_place(c, p)) all = 0;
      if (all && L) { best = std::max(best, L); continue; }
      int run = 0; for (int i = 0; i < 2 * L; ++i) { if (ref::is_place(m[i % L], p)) best = std::max(best, ++run); else run = 0; }
    }
    return best + 1;
  }
  std::string lhc() const {
    if (n < 3 || !regular() || lh[0] != 0 || lh[2] == 2) return "z";
    int h = leadhunts(), k = pb(h), o = n - h; Sw s; int grp = 0;
    if (h == 2) { ref::parse_change(n, "X", s); if (n % 2 == 0 && m[0] == s) grp = 1; ref::parse_change(n, "3", s); if (n % 2 && m[0] == s) grp = 2;
      // "X" on an odd stage reads as the last place made
      if (n % 2) { Sw x; ref::parse_change(n, "X", x); if (m[0] == x) grp = 1; }
      if (n % 2 == 0) { Sw y; if (ref::parse_change(n, "3", y) && m[0] == y) grp = 2; }
      k = o - k; }
    else { Sw y; if (ref::parse_change(n, "1", y) && m[L - 1] == y) grp = 1; else if (ref::parse_change(n, "12", y) && m[L - 1] == y) grp = 2; }
    if (!grp || ref::gcd(k, o) > 1) return "z";
    // the codes, in lead head order
    std::vector<std::string> c(o);
    for (int i = 1; i < o; ++i) {
      int near = i <= o / 2 ? i : o - i; bool back = i > o / 2;
      if (o % 2) { int l = std::min(near, 3) - 1; std::string q(1, grp == 2 ? (back ? "fed"[l] : "abc"[l]) : (back ? "mlk"[l] : "ghj"[l])); if (near > 3) q += std::to_string(near - 3); c[i] = q; }
      else { std::string q(1, grp == 2 ? (back ? 'q' : 'p') : (back ? 's' : 'r')); if (near > 1) q += std::to_string(near - 1); c[i] = q; }
    }
    return c[k];
  }
  // classification; -1 where the definition does not settle it
  int cls(int year) const {
    int c = 0;
    std::set<size_t> sizes; int cyc = 0; for (auto &y : ref::cycles(lh)) if (y.size() > 1) { sizes.insert(y.size()); ++cyc; }
    if (year >= 2019 ? sizes.size() > 1 : cyc > 1) c |= method::M_DIFFERENTIAL;
    int hb = 0; while (hb < n && lh[hb] != hb) ++hb;
    if (hb == n) return c | method::M_PRINCIPLE;
    auto p = path(hb); int lo = *std::min_element(p.begin(), p.end()), hi = *std::max_element(p.begin(), p.end());
    if (lo > 0 || hi < n - 1) c |= method::M_LITTLE;
    if (L % 2) return c | method::M_HYBRID;
    int sp = symptb(hb);
    if (sp < 0) return c | method::M_HYBRID;
    if (plain(hb)) {
      if (year < 2019 && hb == 0 && n > 1 && lh[1] == 1 && L && palb(1, L / 2 - 1)) return c | method::M_SLOW_COURSE;
      for (int i = 1; i < n; ++i) if (dodges(i)) return c | method::M_BOB;
      return c | method::M_PLACE;
    }
    // blows in each place over the half lead between the symmetry points
    std::map<int, int> blows; bool pl = false; 
    for (int j = sp + 1; j <= sp + L / 2; ++j) { ++blows[p[j]]; if (j < sp + L / 2 && p[j] == p[j + 1]) pl = true; }
    bool equal = true; for (int i = lo; i <= hi; ++i) if (blows[i] != blows[lo]) equal = false;
    if (!equal) return c | method::M_ALLIANCE;
    if (pl) return c | method::M_TREBLE_PLACE;
    if (hi - lo == 1) return c | method::M_TREBLE_BOB;
    if (sp != L / 2 - 1) return -1;
    // cross sections: the changes where the treble goes from one dodging position to the next
    int block = L / (hi - lo + 1), with = 0, without = 0;
    for (int i = 0; i < L; ++i) if ((i + 1) % block == 0 && i != L / 2 - 1 && i != L - 1) {
      bool in = false; for (int q : ref::places(m[i])) if (q > 0 && q < n - 1) in = true;
      (in ? with : without)++;
    }
    return c | (!with ? method::M_TREBLE_BOB : !without ? method::M_SURPRISE : method::M_DELIGHT);
  }
};
static const char *CN[] = {"", "", "Bob", "Place", "Treble Bob", "Surprise", "Delight", "Treble Place", "Alliance", "Hybrid", "Slow Course"};

} // namespace refmeth
#endif
