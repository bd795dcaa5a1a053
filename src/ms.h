// The methods with given bells, hunts and lead length, enumerated from the
// definition of a change and of the treble's path.
#pragma once
#include "ref.h"
#include "refpn.h"
#include "vf.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <set>
using namespace ref;
typedef std::vector<int> M; // changes, as indices into W::ch
struct W {
  int n, U, G, L, zf, zb; std::string force; // force: letters of criteria built into the universe
  std::vector<Sw> ch; std::vector<P> pm; std::vector<int> rev; int cross = -1, ident = -1; std::vector<M> all;
  std::vector<std::vector<int>> path; // path[hunt][t], t in 0..L
  bool pl(int c, int i) const { return is_place(ch[c], i); }
  int np(int c) const { return places(ch[c]).size(); }
  int find(Sw const &s) const { for (size_t i = 0; i < ch.size(); ++i) if (ch[i] == s) return i; return -1; }
  int find(std::string const &t) const { Sw s; if (!parse_change(n, t, s)) return -1; return find(s); }
  std::string txt(M const &m) const { std::string r; for (size_t i = 0; i < m.size(); ++i) r += (i ? "." : "") + pn(ch[m[i]]); return r; }
  P lh(M const &m) const { P r = id(n); for (int c : m) r = mul(r, pm[c]); return r; }
  std::vector<P> rows(M const &m) const { std::vector<P> v; P r = id(n); v.push_back(r); for (int c : m) v.push_back(r = mul(r, pm[c])); return v; }
  std::vector<std::string> args() const { std::vector<std::string> a = {"-b" + std::to_string(n), "-U" + std::to_string(U)}; if (G) a.push_back("-G" + std::to_string(G)); if (!U) a.push_back("-n" + std::to_string(L)); if (zf != 0 || zb != n - 1) a.push_back("-Z" + sym(zf) + "-" + sym(zb)); return a; }
  std::string name() const { std::string s; for (auto &x : args()) s += x + " "; return s; }
  int mirror(char s, int i) const { // partner of change i
    int c = s == 's' ? (U && U % 2 == 0 ? 2 * G : -2) - i : s == 'k' ? (U && U % 2 == 0 ? L / 2 + 2 * G : L / 2 - 2) - i : i + L / 2;
    return ((c % L) + L) % L;
  }
  W(int n_, int U_, int G_, int L_ = 0, std::string f = "", int a = 0, int b = -1) : n(n_), U(U_), G(G_), L(L_), zf(a), zb(b < 0 ? n_ - 1 : b), force(f) {
    ch = changes(n); for (auto &c : ch) { pm.push_back(sw_perm(c)); Sw r(n, 0); for (int i = 0; i + 1 < n; ++i) r[n - 2 - i] = c[i]; rev.push_back(find(r)); }
    for (size_t i = 0; i < ch.size(); ++i) { int k = np(i); if (k == n) ident = i; if (k == n % 2 && (n % 2 == 0)) cross = i; }
    if (U) { // the treble's path, and the other hunts following or leading it by two blows each
      std::vector<int> p; int w = zb - zf + 1; L = 2 * w * (1 + G);
      if (!G) for (int i = 0; i < w; ++i) p.push_back(zf + i); else for (int i = 0; i < w; i += 2) for (int d = 0; d <= G; ++d) { p.push_back(zf + i); p.push_back(zf + i + 1); }
      for (int i = (int)p.size() - 1; i >= 0; --i) p.push_back(p[i]);
      for (int h = 0; h < U; ++h) { int sh = h % 2 ? -(h + 1) : h; std::vector<int> q; for (int t = 0; t <= L; ++t) q.push_back(p[((t + sh) % L + L) % L]); path.push_back(q); }
    }
    M m; gen(m);
  }
  bool has(char c) const { return force.find(c) != std::string::npos; }
  void gen(M &m) {
    int i = m.size(); if (i == L) { all.push_back(m); return; }
    for (int c = 0; c < (int)ch.size(); ++c) {
      bool ok = true; for (auto &p : path) { P const &x = pm[c]; int to = -1; for (int j = 0; j < n; ++j) if (x[j] == p[i]) to = j; ok = ok && to == p[i + 1]; }
      if (!ok) continue; if (has('w') && !rightplace(c, i)) continue; if (has('2') && np(c) > 2) continue; if (has('n') && c == ident) continue; if (has('n') && i && m[i - 1] == c) continue;
      for (char s : {'s', 'k', 'd'}) if (has(s)) { int j = mirror(s, i); if (j == i ? (s != 's' && rev[c] != c) : (j < i && m[j] != (s == 's' ? c : rev[c]))) ok = false; }
      if (!ok) continue; m.push_back(c); gen(m); m.pop_back();
    }
  }
  bool rightplace(int c, int i) const {
    if (n % 2 == 0) return i % 2 ? true : c == cross;
    if (!U) return true; int lo = std::min(path[0][i], path[0][i + 1]), hi = std::max(path[0][i], path[0][i + 1]);
    for (int j = 0; j < n; ++j) if (pl(c, j) && ((j < lo && i % 2 == 0) || (j > hi && i % 2 == 1))) return false;
    return true;
  }
  // ---- criteria -------------------------------------------------------
  bool sym1(char s, M const &m) const { for (int i = 0; i < L; ++i) { int o = m[mirror(s, i)]; if (m[i] != (s == 's' ? o : rev[o])) return false; } return true; }
  int blows(M const &m) const { int best = 1; for (int p = 0; p < n; ++p) { int run = 1, i = 0; for (; i < 2 * L; ++i) { if (pl(m[i % L], p)) best = std::max(best, ++run); else run = 1; } if (run > L) return 1000000; } return best; }
  int maxplaces(M const &m) const { int b = 0; for (int c : m) b = std::max(b, np(c)); return b; }
  int adj(M const &m) const { int b = 0; for (int c : m) for (int i = 0, r = 0; i < n; ++i) { r = pl(c, i) ? r + 1 : 0; b = std::max(b, r); } return b; }
  bool right(M const &m) const { for (int i = 0; i < L; ++i) if (!rightplace(m[i], i)) return false; return true; }
  bool proper(M const &m) const { // exactly the hunts are hunts and the others form one cycle
    for (auto &c : cycles(lh(m))) if (c.size() == 1 ? !(c[0] >= zf && c[0] < zf + U) && n - U != 1 : (int)c.size() != n - U) return false; return true; }
  P pblh() const { P r = id(n); // plain bob with U hunts: working bells U+1..n
    M m; int k = n - U; std::vector<int> o; // the coursing order of the working bells, by the rule "odds down, evens up"
    for (int i = (k % 2 ? k - 1 : k - 2); i >= 0; i -= 2) o.push_back(U + i); std::vector<int> ev; for (int i = 1; i < k; i += 2) ev.push_back(U + i); std::vector<int> cyc(o.begin(), o.end()); cyc.insert(cyc.end(), ev.begin(), ev.end()); // rotating this order is a lead head
    for (size_t i = 0; i < cyc.size(); ++i) r[cyc[i]] = cyc[(i + 1) % cyc.size()];
    return r; }
  bool regular(M const &m) const { P b = pblh(), l = lh(m), r = b; for (int i = 0; i < n; ++i) { if (isid(r)) break; if (r == l) return true; r = mul(r, b); } return false; }
  bool cyclic(M const &m) const { P l = lh(m); if (isid(l)) return false; for (int i = 0; i < U; ++i) if (l[i] != i) return false; int k = n - U; for (int i = U + 1; i < n; ++i) if ((l[i] - l[i - 1] + k) % k != 1 % k) return false; return true; }
  bool limited(int c) const { return c == find("1") || c == find("1" + sym(U)); }
  int lept() const { return U && U % 2 == 0 ? G : L - 1; } int hlpt() const { return (lept() + L / 2) % L; }
  bool no78(M const &m) const { for (int i = 0; i < L; ++i) if (i != L / 2 - 1 && pl(m[i], n - 1) && pl(m[i], n - 2)) return false; return true; }
  bool cross_sections(M const &m, char how) const { int in = 0, ex = 0; for (int i = 0; i < L - 1; ++i) { if (i == L / 2 - 1) continue; int lo = std::min(path[0][i], path[0][i + 1]); if ((lo - zf) % 2 == 0) continue; bool x = false; for (int p = 1; p + 1 < n; ++p) x = x || pl(m[i], p); (x ? in : ex)++; }
    return how == 'S' ? ex == 0 : how == 'T' ? in == 0 : how == 'D' ? in && ex : how == 'x' ? in && ex == 1 : how == 'X' ? in && ex >= 2 : how == 'y' ? in && ex == 2 : how == 'z' ? in && ex == 3 : in && ex == 4; }
  bool sections(M const &m) const { int d = 2 * (1 + G); for (int s = 0; s < L; s += d) for (int i = 0; i + 1 < d; ++i) if (m[s + i] != m[s + d - 2 - i]) return false; return true; }
  bool parity(M const &m) const { auto r = rows(m); int d = 2 * (1 + G); for (int s = 0; s < L; s += d) for (int q = 0; q < 2; ++q) { int t = 0; for (int i = q; i < d; i += 2) t += sign(r[s + i]); if (t) return false; } return true; }
  bool nontrivial(M const &m) const { for (int i = 0; i < L; ++i) if (m[i] == ident || (L > 1 && m[i] == m[(i + 1) % L])) return false; return true; }
  bool half(M const &m) const { auto r = rows(m); for (int h = 0; h < 2; ++h) { std::set<P> s(r.begin() + h * (L / 2), r.begin() + (h + 1) * (L / 2)); if ((int)s.size() != L / 2) return false; } return true; }
  // from = 1 leaves the first row unproved: see the section first_row
  bool lead(M const &m, int from = 0) const { auto r = rows(m); std::set<P> s(r.begin() + from, r.end() - 1); return (int)s.size() == L - from && ((!from && isid(r.back())) || !s.count(r.back())); }
  bool course(M const &m, int from = 0) const { std::set<P> s; P r = id(n); bool first = from; do for (int c : m) { if (!first && !s.insert(r).second) return false; first = false; r = mul(r, pm[c]); } while (!isid(r)); return true; }
  bool extent(M const &m, bool pos) const { // is there a set of mutually true leads holding every row (of the leads considered) once?
    auto r = rows(m); r.pop_back(); std::vector<P> heads; for (auto &p : perms(n - 1)) { P q(1, 0); for (int x : p) q.push_back(x + 1); if (!pos || sign(q) > 0) heads.push_back(q); }
    std::map<P, int> ix; std::vector<std::vector<int>> ls; std::vector<std::vector<int>> at; for (auto &h : heads) { std::vector<int> v; for (auto &x : r) { auto k = ix.insert({mul(h, x), (int)ix.size()}).first; v.push_back(k->second); } ls.push_back(v); }
    at.resize(ix.size()); for (size_t i = 0; i < ls.size(); ++i) for (int x : ls[i]) { if (!at[x].empty() && at[x].back() == (int)i) return false; at[x].push_back(i); }
    std::vector<char> used(ix.size(), 0); std::function<bool()> go = [&]() -> bool { size_t i = 0; while (i < used.size() && used[i]) ++i; if (i == used.size()) return true; for (int l : at[i]) { bool ok = true; for (int x : ls[l]) ok = ok && !used[x]; if (!ok) continue; for (int x : ls[l]) used[x] = 1; if (go()) return true; for (int x : ls[l]) used[x] = 0; } return false; };
    return go(); }
};
static std::vector<std::string> lines(std::string const &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
static std::string diff(std::vector<std::string> const &got, std::vector<std::string> const &want) {
  std::vector<std::string> a, b; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(a)); std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(b));
  return vf::cat("listed ", got.size(), " not ", want.size(), a.empty() ? "" : " extra " + a[0], b.empty() ? "" : " missing " + b[0]);
}
