// P04: place notation is read as written, and a method's notation reads back.
#include "rl.h"
#include "refpn.h"
#include <ringing/method.h>
#include <ringing/place_notation.h>
#include <functional>
#include <list>
using namespace ringing;
using namespace rl;
using ref::Sw;

static bool same(std::vector<change> const &v, std::vector<Sw> const &w) {
  if (v.size() != w.size()) return false;
  for (size_t i = 0; i < v.size(); ++i) if (!(v[i] == mkc(w[i]))) return false;
  return true;
}
static std::string show(std::vector<change> const &v) { std::string s; for (auto &c : v) s += c.print() + "."; return s; }

static void one(int n, std::string const &t) {
  vf::states();
  std::vector<Sw> w; bool ok = ref::parse_pn(n, t, w);
  for (int how = 0; how < 5; ++how) {
    bool got = true; std::vector<change> v;
    // an exact-size heap copy, so that looking beyond the end is noticed
    char *buf = new char[t.size()]; memcpy(buf, t.data(), t.size());
    try {
      if (how == 0) { method m(t, n); v = m; EXPECT(m.bells() == n, "bells", m.bells()); }
      else if (how == 1) { method m(t.c_str(), n); v = m; }
      else if (how == 2) interpret_pn(n, (char const *)buf, (char const *)buf + t.size(), std::back_inserter(v));
      else if (how == 3) { std::list<change> l; interpret_pn(n, t.begin(), t.end(), std::back_inserter(l)); v.assign(l.begin(), l.end()); }
      else { std::vector<char> q(t.begin(), t.end()); interpret_pn(n, q.begin(), q.end(), std::back_inserter(v)); }
    } catch (std::invalid_argument const &) { got = false; }
    delete[] buf;
    EXPECT(got == ok, "accept", "accepted ", got, " expected ", ok, " via ", how);
    if (got && ok) EXPECT(same(v, w), "meaning", "via ", how, " gave ", show(v));
    if (got) vf::outcome(show(v));
  }
}
VF_SECTION(texts) {  // every text over the notation's alphabet
  std::string alpha = "123x-.,&+ {}";
  int L = vf::tier(5, 6);
  std::string t;
  std::function<void()> go = [&] {
    for (int n : {3, 4}) CASE("notation ", vf::quote(t), " on ", n) { one(n, t); } END_CASE
    if ((int)t.size() == L) return;
    for (char c : alpha) { t += c; go(); t.pop_back(); }
  };
  go();
}
VF_SECTION(tokens) {  // every sequence of notation tokens
  std::vector<std::string> tk = {"x", "X", "-", "14", "36", "2", "1", "12", "{3}4", "1{6}", ".", ",", "&", "+", " ", "7"};
  int L = vf::tier(4, 5);
  std::vector<int> h;
  std::function<void()> go = [&] {
    std::string t; for (int i : h) t += tk[i];
    for (int n : {5, 6}) CASE("notation ", vf::quote(t), " on ", n) { one(n, t); } END_CASE
    if ((int)h.size() == L) return;
    for (size_t i = 0; i < tk.size(); ++i) { h.push_back(i); go(); h.pop_back(); }
  };
  go();
}
VF_SECTION(stages) { // familiar notations on every stage up to 64
  for (int n = 2; n <= 64; ++n) for (int k = 0; k < 6; ++k) {
    std::string l = ref::sym(n - 1), l2 = ref::sym(n - 2);
    std::string t = k == 0 ? "&x1" + l + "x1" + l + ",12" : k == 1 ? "3,&1." + l + ".1." + l : k == 2 ? "&3.1." + l + ".3.1.3,1"
      : k == 3 ? "+x1" + l + " , +12" : k == 4 ? "&-3" + l + "-14-" + l2 + l + "-1" + l : "x." + l2 + ".x.12" + l;
    CASE("notation ", vf::quote(t), " on ", n) { one(n, t); } END_CASE
  }
}
static const int FLAGS = 0777;
static void formats(int n, std::vector<Sw> const &w) {
  vf::states();
  method m(0, n, "M"); for (auto &s : w) m.push_back(mkc(s));
  std::vector<change> orig(m);
  bool issym = w.size() % 2 == 0;
  if (issym) for (size_t i = 0; i + 1 < w.size(); ++i) if (!(w[i] == w[w.size() - 2 - i])) issym = false;
  std::set<std::string> seen;
  for (int f = 0; f <= FLAGS; ++f) {
    int cr = f & (method::M_UCROSS | method::M_LCROSS | method::M_DASH);
    if (cr && (cr & (cr - 1))) continue;
    if ((f & 0140) == 0100) continue;
    std::string s = m.format(f);
    if (!seen.insert(s + (f & method::M_OMIT_LH ? "o" : "")).second) continue;
    std::vector<Sw> back;
    bool ok = ref::parse_pn(n, s, back);
    std::vector<Sw> e = w;
    if ((f & method::M_OMIT_LH) && !e.empty()) e.pop_back();
    EXPECT(ok && back == e, "format", "flags 0", f / 64, f / 8 % 8, f % 8, " wrote ", s);
    std::vector<change> lib; bool threw = false;
    try { lib = method(s, n); } catch (std::exception const &) { threw = true; }
    EXPECT(!threw && same(lib, e), "format-round-trip", "flags 0", f / 64, f / 8 % 8, f % 8, " wrote ", s);
    for (char c : s) {
      if (c == 'X' || c == 'x' || c == '-') {
        char want = cr == method::M_LCROSS ? 'x' : cr == method::M_DASH ? '-' : 'X';
        EXPECT(c == want, "format-cross", "flags ", f, " wrote ", s);
      }
    }
    if (!(f & 0140)) EXPECT(s.find('&') == std::string::npos && s.find(',') == std::string::npos, "format-plain", s);
    if ((f & method::M_SYMMETRY) && issym && w.size() > 2) EXPECT((w.size() == 2 || s.find('&') == 0), "format-symmetric", "flags ", f, " wrote ", s);
    if (!(f & method::M_PLUS)) EXPECT(s.find('+') == std::string::npos, "format-plus", s);
    if (f & method::M_EXTERNAL) { // every place written
      std::string t, u; for (auto &x : e) t += ref::pn(x); 
      if (!(f & 0140)) { for (char c : s) if (c != '.' && c != '+') u += (c == 'x' || c == '-') ? 'X' : c; EXPECT(t == u, "format-external", "flags ", f, " wrote ", s); }
    }
    if ((f & method::M_DOTS) && !(f & 0140) && !e.empty()) { size_t d = 0; for (char c : s) d += c == '.'; EXPECT(d == e.size() - 1, "format-dots", s); }
  }
}
VF_SECTION(round_trips) {
  struct S { int n, len; };
  for (S s : {S{0, 0}, S{1, 3}, S{2, 5}, S{3, vf::tier(5, 7)}, S{4, vf::tier(4, 6)}, S{5, vf::tier(4, 4)}, S{6, vf::tier(3, 4)}, S{7, vf::tier(2, 3)}}) {
    auto cs = ref::changes(s.n);
    std::vector<Sw> w;
    std::function<void()> go = [&] {
      CASE("method on ", s.n, ": ", [&] { std::string t; for (auto &x : w) t += ref::pn(x) + "."; return t; }()) { formats(s.n, w); } END_CASE
      if ((int)w.size() == s.len) return;
      for (auto &c : cs) { w.push_back(c); go(); w.pop_back(); }
    };
    go();
    // palindromes about every point, of twice the length
    if (s.n >= 3) {
      std::vector<Sw> h;
      std::function<void(int)> pal = [&](int left) {
        if (left == 0) {
          int k = h.size() - 2; // h[0], h[1..k], h[k+1] -> cyclic palindrome of length 2(k+1)
          std::vector<Sw> p; p.push_back(h[0]); for (int i = 1; i <= k; ++i) p.push_back(h[i]); p.push_back(h[k + 1]); for (int i = k; i >= 1; --i) p.push_back(h[i]);
          for (size_t r = 0; r < p.size(); ++r) {
            std::vector<Sw> q(p); std::rotate(q.begin(), q.begin() + r, q.end());
            CASE("palindrome on ", s.n, ": ", [&] { std::string t; for (auto &x : q) t += ref::pn(x) + "."; return t; }()) { formats(s.n, q); } END_CASE
          }
          return;
        }
        for (auto &c : cs) { h.push_back(c); pal(left - 1); h.pop_back(); }
      };
      pal(std::max(2, std::min(s.len, vf::tier(3, 4))));
    }
  }
}
VF_SECTION(big_round_trips) {
  for (int n = 8; n <= 40; ++n) {
    if (!vf::thorough() && n > 12 && n < 32) continue;
    std::vector<Sw> fam;
    for (int k = 0; k < 6; ++k) {
      Sw s(n, 0);
      int lo = k == 1 || k == 3 ? 1 : k == 2 || k == 4 ? 2 : 0;
      for (int i = lo; i + 1 < n - (k == 4 ? 2 : 0); i += 2) s[i] = 1;
      if (k == 3) s[n / 2 - (n / 2 % 2 == 0)] = 0;
      if (k == 5) { for (int i = 0; i + 1 < n; ++i) s[i] = 0; }
      fam.push_back(s);
    }
    for (auto &a : fam) for (auto &b : fam) for (auto &c : fam)
      CASE("method on ", n, ": ", ref::pn(a), ".", ref::pn(b), ".", ref::pn(c)) { formats(n, {a, b, c, b}); formats(n, {a, b, c}); formats(n, {b, a, b, c}); } END_CASE
  }
}
