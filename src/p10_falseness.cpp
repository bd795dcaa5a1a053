// P10: falseness tables and false courses against direct comparison of rows.
#include "rl.h"
#include <cstring>
#include <ringing/group.h>
#include <ringing/method.h>
#include <ringing/falseness.h>
using namespace ringing;
using namespace rl;
using ref::P;
typedef std::set<P> S;
typedef std::vector<ref::Sw> M;

static S closure(std::vector<P> gens, int n) {
  for (auto &g : gens) g = ref::ext(g, n);
  S s; std::vector<P> q(1, ref::id(n)); s.insert(q[0]);
  while (!q.empty()) { P p = q.back(); q.pop_back(); for (auto &g : gens) { P r = ref::mul(p, g); if (s.insert(r).second) q.push_back(r); } }
  return s;
}
static method mkm(M const &m) { std::vector<change> v; for (auto &s : m) v.push_back(mkc(s)); return method(v); }
static std::string shm(M const &m) { std::string s; for (auto &c : m) s += ref::pn(c) + "."; return s; }
static std::vector<P> lead(M const &m, int n) { std::vector<P> v; P p = ref::id(n); for (auto &c : m) { v.push_back(p); p = ref::mul(p, ref::sw_perm(c)); } return v; }
static P lhead(M const &m, int n) { P p = ref::id(n); for (auto &c : m) p = ref::mul(p, ref::sw_perm(c)); return p; }
static std::vector<row> mks(std::vector<P> const &v) { std::vector<row> o; for (auto &p : v) o.push_back(mk(p)); return o; }

static S table(std::vector<P> a, std::vector<P> b, int flags) {
  S s;
  for (auto &x : a) for (auto &y : b) {
    P f = ref::div(x, y);
    if (!(flags & falseness_table::no_fixed_treble) && f[0] != 0) continue;
    if ((flags & falseness_table::in_course_only) && ref::sign(f) < 0) continue;
    if ((flags & falseness_table::out_of_course_only) && ref::sign(f) > 0) continue;
    s.insert(f);
  }
  return s;
}
static void same(falseness_table const &t, S const &e, char const *what, int flags, int n) {
  std::vector<P> got; for (auto &r : t) got.push_back(un(r));
  EXPECT(t.size() == e.size() && got.size() == e.size(), what, "flags ", flags, ": ", t.size(), " falsenesses, not ", e.size());
  EXPECT(std::is_sorted(got.begin(), got.end()), what, "not sorted");
  EXPECT(S(got.begin(), got.end()) == e, what, "flags ", flags, ": other falsenesses");
  std::vector<P> gens;
  if (flags & falseness_table::out_of_course_only) { for (auto &a : e) for (auto &b : e) gens.push_back(ref::div(a, b)); }
  else gens.assign(e.begin(), e.end());
  S g = closure(gens, n), h; group G = t.generate_group(); for (auto &r : G) h.insert(ref::ext(un(r), n));
  EXPECT(h == g && G.size() == g.size(), "group", "flags ", flags, ": group of ", G.size(), " not ", g.size());
}
static std::vector<P> half(std::vector<P> v) { v.resize(v.size() / 2); return v; }
template <class F> static void methods(int n, int len, F f) {
  auto cs = ref::changes(n); M m;
  std::function<void()> go = [&]() { if (!m.empty()) f(m); if ((int)m.size() < len) for (auto &c : cs) { m.push_back(c); go(); m.pop_back(); } };
  go();
}
static void check_pair(M const &a, M const &b, int n) {
  auto la = lead(a, n), lb = lead(b, n);
  for (int fl = 0; fl < 16; ++fl) {
    auto xa = fl & falseness_table::half_lead_only ? half(la) : la, xb = fl & falseness_table::half_lead_only ? half(lb) : lb;
    same(falseness_table(mkm(a), mkm(b), fl), table(xa, xb, fl), "two-methods", fl, n);
    if (a == b) same(falseness_table(mkm(a), fl), table(xa, xa, fl), "method", fl, n);
    if (!(fl & falseness_table::half_lead_only)) {
      same(falseness_table(mkm(a), mks(lb), fl), table(xa, xb, fl), "method-rows", fl, n);
      same(falseness_table(mks(la), mks(lb), fl), table(xa, xb, fl), "rows-rows", fl, n);
    }
  }
}
VF_SECTION(pairs) {      // every pair of short methods on three and four bells
  for (int n = 3; n <= 4; ++n) {
    std::vector<M> ms; methods(n, n == 3 ? vf::tier(3, 4) : 2, [&](M const &m) { ms.push_back(m); });
    for (auto &a : ms) CASE("method ", shm(a), " against every method up to ", n == 3 ? 3 : 2, " changes on ", n) { vf::states(); for (auto &b : ms) check_pair(a, b, n); } END_CASE
  }
}
VF_SECTION(single) {     // every method, against itself
  for (int n = 3; n <= 6; ++n) { int len = n == 3 ? vf::tier(6, 8) : n == 4 ? vf::tier(4, 6) : n == 5 ? vf::tier(3, 4) : vf::tier(2, 3);
    methods(n, len, [&](M const &m) { if (n == 4 && (int)m.size() == len && !vf::thorough() && m[0] != m[1] && m[2] == m[0]) return; CASE("method ", shm(m), " on ", n) { vf::states(); check_pair(m, m, n); } END_CASE }); }
}
VF_SECTION(row_sets) {   // arbitrary lists of rows
  auto ps = ref::perms(3);
  for (int a = 0; a < 64; ++a) CASE("rows ", a, " of the extent on three against each set of rows") {
    for (int b = 0; b < 64; ++b) { vf::states(); std::vector<P> x, y; for (int i = 0; i < 6; ++i) { if (a >> i & 1) x.push_back(ps[i]); if (b >> i & 1) y.push_back(ps[5 - i]); }
      for (int fl : {0, 1, 2, 3, 8, 9, 10}) same(falseness_table(mks(x), mks(y), fl), table(x, y, fl), "row-sets", fl, 3); }
  } END_CASE
  CASE("defaults and swapping") {
    falseness_table d; EXPECT(d.size() == 1 && d.begin()->isrounds() && d.generate_group().size() == 1, "default", "");
    M m = {ref::changes(4)[1], ref::changes(4)[3], ref::changes(4)[2]};
    for (int fl = 0; fl < 16; ++fl) for (int f2 = 0; f2 < 16; ++f2) { auto l = lead(m, 4); falseness_table a(mkm(m), fl), b(mkm(M(m.rbegin(), m.rend())), f2); auto l2 = lead(M(m.rbegin(), m.rend()), 4); a.swap(b);
      auto x = [&](std::vector<P> v, int f) { return f & 4 ? half(v) : v; };
      same(b, table(x(l, fl), x(l, fl), fl), "swap", fl, 4); same(a, table(x(l2, f2), x(l2, f2), f2), "swap", f2, 4); falseness_table c; c = b; same(c, table(x(l, fl), x(l, fl), fl), "assign", fl, 4); }
  } END_CASE
}
// ---- false courses
static bool tog(P const &p) { for (int i = 6; i < (int)p.size(); ++i) if (p[i] != i) return false; return true; }
static void courses(M const &m, int n) {
  P lh = lhead(m, n); auto ld = lead(m, n);
  bool hunt = lh[0] == 0; int ord = (int)ref::order(lh), ten = 1; for (P p = lh; p[n - 1] != n - 1; p = ref::mul(p, lh)) ++ten;
  std::vector<P> pw; { P p = ref::id(n); for (int i = 0; i < ord; ++i) { pw.push_back(p); p = ref::mul(p, lh); } }
  // rows of the plain course, and all course heads sharing one of them
  S all;
  for (auto &x : ld) for (auto &y : ld) { P f = ref::div(x, y); if (f[0] != 0) continue; for (auto &i : pw) for (auto &j : pw) { P c = ref::mul(ref::mul(i, f), j); if (c[0] == 0 && c[n - 1] == n - 1) all.insert(c); } }
  for (int fl = 0; fl < 4; ++fl) {
    false_courses fc(mkm(m), fl);
    if (!hunt) { vf::trans(); continue; }
    S e; for (auto &c : all) if (!((fl & false_courses::in_course_only) && ref::sign(c) < 0) && !((fl & false_courses::tenors_together) && !tog(c))) e.insert(c);
    std::vector<P> got; for (auto &r : fc) got.push_back(un(r));
    EXPECT(std::is_sorted(got.begin(), got.end()) && std::set<P>(got.begin(), got.end()).size() == fc.size(), "courses-order", "");
    for (auto &g : got) EXPECT(e.count(g), "course-not-false", "flags ", fl, ": ", show(g), " is not a false course head");
    if (ten == ord) EXPECT(got.size() == e.size(), "courses", "flags ", fl, ": ", got.size(), " false course heads, not ", e.size());
    else if (fl == 0) { S gs(got.begin(), got.end()); for (auto &c : e) { bool f = false; for (auto &j : pw) if (gs.count(ref::mul(c, j))) f = true; EXPECT(f, "course-missing", show(c)); } }
    false_courses d; d.swap(fc); EXPECT(std::distance(d.begin(), d.end()) == (long)got.size() && fc.size() == 1, "swap", "");
  }
}
VF_SECTION(false_course_heads) {
  for (int n = 3; n <= 6; ++n) { int len = n == 3 ? 5 : n == 4 ? vf::tier(4, 5) : n == 5 ? vf::tier(3, 4) : 2;
    methods(n, len, [&](M const &m) { CASE("courses of ", shm(m), " on ", n) { vf::states(); courses(m, n); } END_CASE }); }
}
// palindromic treble-hunting methods
static void hunting(int n, std::function<void(M const &)> f, int step) {
  // place notation choices at each change so that the treble plain hunts
  auto cs = ref::changes(n); std::vector<std::vector<ref::Sw>> ch(n);
  for (int i = 0; i < n - 1; ++i) for (auto &c : cs) if (c[i]) { int pl = (int)ref::places(c).size(); if (n <= 6 || pl <= 2) ch[i].push_back(c); }
  for (auto &c : cs) if (ref::is_place(c, n - 1) && (int)ref::places(c).size() <= 2) ch[n - 1].push_back(c);
  std::vector<ref::Sw> le; for (auto &c : cs) if (ref::is_place(c, 0) && (int)ref::places(c).size() <= 2) le.push_back(c);
  M h; long k = 0;
  std::function<void(int)> go = [&](int i) {
    if (i == n) { for (auto &l : le) if (k++ % step == 0) { M m(h); for (int j = n - 2; j >= 0; --j) m.push_back(h[j]); m.push_back(l); f(m); } return; }
    for (auto &c : ch[i]) { h.push_back(c); go(i + 1); h.pop_back(); }
  };
  go(0);
}
VF_SECTION(minor_courses) { hunting(6, [&](M const &m) { CASE("courses of ", shm(m), " on 6") { vf::states(); courses(m, 6); } END_CASE }, vf::tier(97, 7)); }
VF_SECTION(major_courses) { hunting(8, [&](M const &m) { CASE("courses of ", shm(m), " on 8") { vf::states(); courses(m, 8); } END_CASE }, vf::tier(2003, 211)); }
// ---- symbols
// one row for each standard name on eight bells, tenors together
static std::vector<std::pair<std::string, std::string>> const NAMES = {
  {"123456", "A"}, {"124365", "B"}, {"125634", "C"}, {"132546", "D"}, {"132465", "E"}, {"132654", "F"}, {"156423", "G"}, {"153462", "H"}, {"154632", "I"}, {"153624", "K"}, {"126543", "L"}, {"123564", "M"}, {"134562", "N"}, {"136524", "O"}, {"154326", "P"}, {"135642", "R"}, {"134625", "S"}, {"124536", "T"}, {"134256", "U"},
  {"123465", "a"}, {"125643", "b"}, {"135246", "c"}, {"134652", "d"}, {"136425", "e"}, {"154623", "f"}};
static P parse(std::string const &s) { P p; for (char c : s) p.push_back(c - '1'); return p; }
static S lhgroup(int n) { // lead heads and lead ends of plain bob
  P pb = ref::id(n); for (auto &c : {0, 1}) { (void)c; }
  ref::Sw x(n, 0), o(n, 0), t(n, 0); for (int i = 0; i + 1 < n; i += 2) x[i] = 1; for (int i = 1; i + 1 < n; i += 2) o[i] = 1; for (int i = 2; i + 1 < n; i += 2) t[i] = 1;
  P r = ref::id(n); for (int i = 0; i < n; ++i) { r = ref::mul(r, ref::sw_perm(x)); r = ref::mul(r, ref::sw_perm(i == n - 1 ? t : o)); }
  return closure({r, ref::sw_perm(t)}, n);
}
VF_SECTION(symbols) {
  std::vector<P> tt; for (auto &p : ref::perms(5)) { P q = ref::id(6); for (int i = 0; i < 5; ++i) q[i + 1] = p[i] + 1; tt.push_back(q); }
  std::map<int, std::map<P, std::string>> memo;
  for (int n : {8, 10, 12}) {
    S G = lhgroup(n);
    CASE("symbol classes on ", n) { EXPECT((int)G.size() == 2 * (n - 1), "group", G.size()); } END_CASE
    std::map<P, std::string> cls;   // least member of each class -> symbol
    std::map<std::string, P> back;
    for (auto &r : tt) for (int opt = 0; opt < 2; ++opt) CASE("symbol of ", ref::str(r), " on ", n, opt ? ", optimised" : "") {
      vf::states(); false_courses::optimise(opt ? n : 0);
      P f = ref::ext(r, n); std::string s = false_courses::lookup_symbol(mk(f));
      EXPECT(!s.empty(), "no-symbol", "");
      EXPECT(s == false_courses::lookup_symbol(mk(ref::inv(f))), "inverse-symbol", s);
      P low; for (auto &a : G) for (auto &b : G) { P x = ref::mul(ref::mul(a, f), b), y = ref::inv(x); if (low.empty() || x < low) low = x; if (y < low) low = y; }
      if (!opt) { auto i = cls.find(low); if (i == cls.end()) { cls[low] = s; EXPECT(!back.count(s), "one-symbol-two-classes", s, " for ", show(f)); back[s] = low; } else EXPECT(i->second == s, "one-class-two-symbols", s, " and ", i->second); memo[n][r] = s; }
      else EXPECT(s == cls[low], "optimised-symbol", s, " not ", cls[low]);
      if (n == 8) for (auto &nm : NAMES) if (parse(nm.first) == r) EXPECT(s == nm.second, "standard-name", s, " not ", nm.second);
      if (n > 8) EXPECT(s[0] == memo[8][r][0] || n == 10, "name-letter", s, " but ", memo[8][r], " on eight");
      if (opt) for (auto &a : G) { P x = ref::mul(a, f); if (n == 8) EXPECT(false_courses::lookup_symbol(mk(x)) == s, "class-member", show(x)); }
    } END_CASE
    false_courses::optimise(0);
  }
  // the symbols of methods
  int count = 0;
  for (int n : {6, 8, 10}) { S G = lhgroup(n);
  auto fn = [&](M const &m) {
    P lh = lhead(m, n); std::vector<std::string> lhs;
    bool reg = G.count(lh) && lh[0] == 0 && !ref::isid(lh); { S cyc; P p = ref::id(n); ref::Sw x(n, 0), o(n, 0), t(n, 0); for (int i = 0; i + 1 < n; i += 2) x[i] = 1; for (int i = 1; i + 1 < n; i += 2) o[i] = 1; for (int i = 2; i + 1 < n; i += 2) t[i] = 1; P r = p; for (int i = 0; i < n; ++i) { r = ref::mul(r, ref::sw_perm(x)); r = ref::mul(r, ref::sw_perm(i == n - 1 ? t : o)); } S rot = closure({r}, n); reg = reg && rot.count(lh); }
    if (!reg) return;
    CASE("symbols of ", shm(m), " on ", n) {
      vf::states(); ++count;
      for (int fl = 0; fl < 4; ++fl) {
        false_courses fc(mkm(m), fl); bool threw = false; std::string s;
        try { s = fc.symbols(); } catch (std::logic_error const &) { threw = true; }
        if (!(fl & false_courses::tenors_together) && n != 8) { EXPECT(threw, "split-tenors-refused", s); continue; }
        EXPECT(!threw, "refused", "");
        std::set<std::string> e; std::string w;
        for (auto &r : fc) if (tog(un(r))) { if (n == 6) continue; e.insert(false_courses::lookup_symbol(r)); }
        for (auto &x : e) w += x;
        if (n != 6) { if (fl & false_courses::tenors_together) EXPECT(s == w, "symbols", s, " not ", w); else { std::string z; for (char c : s) if (!strchr("XYZ", c)) z += c; EXPECT(z == w, "symbols", s, " not ", w); } EXPECT(s.find('A') != std::string::npos, "A", s); }
      }
    } END_CASE
  };
  hunting(n == 10 ? 8 : n, [&](M const &m) { if (n == 10) { M k; for (auto c : m) { c.push_back(0); c.push_back(0); if (!c[7 - 0] && ref::is_place(c, 8)) c[8] = 1; k.push_back(c); } fn(k); } else fn(m); }, n == 6 ? 11 : n == 8 ? vf::tier(499, 97) : vf::tier(499, 97)); }
  CASE("methods with symbols") { vf::note(vf::cat(count, " regular methods")); EXPECT(count > 50, "vacuous", count); } END_CASE
  // what has no symbol is refused
  CASE("refusals") {
    M odd = {ref::changes(5)[2], ref::changes(5)[4]}; bool t = false; try { false_courses(mkm(odd), 2).symbols(); } catch (std::logic_error const &) { t = true; } EXPECT(t, "odd-refused", "");
    t = false; ref::Sw x(6, 0), y(6, 0); x[0] = x[2] = x[4] = 1; M irr = {x, y}; try { false_courses(mkm(irr), 2).symbols(); } catch (std::logic_error const &) { t = true; } EXPECT(t, "irregular-refused", "");
    t = false; try { false_courses().symbols(); } catch (std::logic_error const &) { t = true; } EXPECT(t, "default-refused", "");
  } END_CASE
}
