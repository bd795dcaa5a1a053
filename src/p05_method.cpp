// P05: the attributes of a method follow from its changes.
#include "rl.h"
#include "refpn.h"
#include <ringing/method.h>
#include <functional>
using namespace ringing;
using namespace rl;
using ref::P;
using ref::Sw;
#include "refmeth.h"
using namespace refmeth;
static void check(int n, M const &w) {
  vf::states();
  RefM r(n, w);
  method m(0, n, "Name"); for (auto &c : w) m.push_back(mkc(c));
  int L = w.size();
  EXPECT(m.length() == L && m.bells() == n, "size", "");
  EXPECT(eq(m.lh(), r.lh), "lead-head", "gave ", rl::show(m.lh()), " not ", ref::str(r.lh));
  EXPECT(m.leads() == ref::order(r.lh), "leads", "gave ", m.leads());
  EXPECT(m.isregular() == r.regular(), "regular", "gave ", m.isregular());
  EXPECT(m.huntbells() == r.hunts(), "hunt-bells", "gave ", m.huntbells());
  EXPECT(m.issym() == r.sym(), "symmetric", "gave ", m.issym());
  EXPECT(m.symmetry_point() == r.sympt(), "symmetry-point", "gave ", m.symmetry_point(), " not ", r.sympt());
  EXPECT(m.ispalindromic() == (r.sympt() != -1), "palindromic", "");
  if (L <= 64) for (int i = 0; i < L; ++i) EXPECT(m.is_palindromic_about(i) == r.pal(i), "palindromic-about", "change ", i);
  EXPECT(m.isdouble() == r.dbl(), "double", "gave ", m.isdouble());
  EXPECT(m.maxblows() == r.maxblows(), "max-blows", "gave ", m.maxblows(), " not ", r.maxblows());
  for (int b = 0; b < n; ++b) {
    if (L > 64 && b > 3 && b < n - 1) continue;
    EXPECT(m.isplain(b) == r.plain(b), "plain-hunting", "bell ", b + 1, " gave ", m.isplain(b));
    EXPECT(m.hasdodges(b) == r.dodges(b), "dodges", "bell ", b + 1, " gave ", m.hasdodges(b));
    EXPECT(m.hasplaces(b) == r.places(b), "places", "bell ", b + 1, " gave ", m.hasplaces(b));
    if (L % 2) EXPECT(!m.issym(bell(b)), "bell-symmetric", "odd");
    else {
      if (L) EXPECT(m.issym(bell(b)) == r.palb(b, L / 2 - 1), "bell-symmetric", "bell ", b + 1, " gave ", m.issym(bell(b)));
      else EXPECT(m.issym(bell(b)), "bell-symmetric", "empty");
      EXPECT(m.symmetry_point(bell(b)) == r.symptb(b), "bell-symmetry-point", "bell ", b + 1, " gave ", m.symmetry_point(bell(b)), " not ", r.symptb(b));
      EXPECT(m.ispalindromic(bell(b)) == (r.symptb(b) != -1), "bell-palindromic", "bell ", b + 1);
      if (L <= 64) for (int i = 0; i < L - 1; ++i) EXPECT(m.is_palindromic_about(bell(b), i) == r.palb(b, i), "bell-palindromic-about", "bell ", b + 1, " change ", i);
    }
  }
  EXPECT(m.lhcode() == r.lhc(), "lead-head-code", "gave ", m.lhcode(), " not ", r.lhc(), " (", ref::str(r.lh), ")");
  for (int y : {1990, 2018, 2019, 9999}) {
    int e = r.cls(y), g = m.methclass(y);
    vf::outcome(vf::cat(g, m.lhcode()));
    if (e < 0) continue;
    EXPECT(g == e, "class", "year ", y, " gave ", g, " (", method::classname(g, y), ") not ", e);
    std::string cn; if (e & 0x10) cn += "Differential "; if (e & 0x80) cn += "Little ";
    if (!(y >= 2019 && (e & 15) == method::M_HYBRID) && *CN[e & 15]) cn += std::string(CN[e & 15]) + " ";
    if (n >= 3 && n <= 22) {
      std::string full = "Name " + cn + method::stagename(n);
      EXPECT(m.fullname(y) == full, "full-name", "year ", y, " gave ", m.fullname(y), " not ", full);
    }
    if (!cn.empty()) cn.pop_back();
    EXPECT(method::classname(e, y) == cn, "class-name", "year ", y, " gave ", method::classname(e, y));
  }
}
#define ONE(n, w) CASE("method on ", n, ": ", show(w)) { check(n, w); } END_CASE
static void all(int n, int len) {
  auto cs = ref::changes(n); M w;
  std::function<void()> go = [&] { ONE(n, w) if ((int)w.size() == len) return; for (auto &c : cs) { w.push_back(c); go(); w.pop_back(); } };
  go();
}
VF_SECTION(tiny) { all(0, 0); all(1, 3); all(2, 6); all(3, vf::tier(7, 9)); }
VF_SECTION(minimus) { all(4, vf::tier(6, 7)); }
VF_SECTION(doubles) { all(5, vf::tier(4, 5)); }
VF_SECTION(minor) { all(6, vf::tier(3, 4)); }
// all palindromes, rotated to every starting change
static void pals(int n, int half, bool rotate, std::function<bool(M const &)> keep = nullptr, std::vector<Sw> const *cset = 0) {
  auto cs = cset ? *cset : ref::changes(n); M h;
  std::function<void()> go = [&] {
    if ((int)h.size() == half + 1) {
      M p(h.begin(), h.begin() + half);               // 0..half-1, centre half-1
      for (int i = half - 2; i >= 0; --i) p.push_back(h[i]);
      p.push_back(h[half]);                            // lead end
      if (keep && !keep(p)) return;
      for (int r = 0; r < (rotate ? (int)p.size() : 1); ++r) { M q(p); std::rotate(q.begin(), q.begin() + r, q.end()); ONE(n, q) }
      return;
    }
    for (auto &c : cs) { h.push_back(c); go(); h.pop_back(); }
  };
  go();
}
VF_SECTION(palindromes) { for (int k = 1; k <= vf::tier(4, 6); ++k) pals(4, k, true); for (int k = 1; k <= vf::tier(3, 4); ++k) pals(5, k, true); pals(3, 5, true); pals(6, 2, true); if (vf::thorough()) pals(6, 3, true); }
// methods in which bell hb follows a given path
static void pathed(int n, std::vector<int> const &path, bool symmetric, std::vector<Sw> const &cs, int from = 0) {
  int L = path.size() - 1; M h;
  std::function<void()> go = [&] {
    int i = h.size();
    if (symmetric ? i == L / 2 + 1 : i == L) {
      M p;
      if (symmetric) { p.assign(h.begin(), h.begin() + L / 2); for (int j = L / 2 - 2; j >= 0; --j) p.push_back(h[j]); p.push_back(h[L / 2]); }
      else p = h;
      ONE(n, p)
      return;
    }
    int k = symmetric && i == L / 2 ? L - 1 : i;
    for (auto &c : cs) if (ref::at(ref::sw_perm(c), path[k]) == path[k + 1]) { h.push_back(c); go(); h.pop_back(); }
  };
  go();
}
static std::vector<int> hunt(int n) { std::vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i); for (int i = n - 1; i >= 0; --i) p.push_back(i); p.push_back(0); return p; }
static std::vector<int> dodge(int n, int times) { // treble bob hunting with the given number of dodges
  std::vector<int> up; for (int i = 0; i + 1 < n; i += 2) for (int t = 0; t <= times; ++t) { up.push_back(i); up.push_back(i + 1); }
  std::vector<int> p(up); p.insert(p.end(), up.rbegin(), up.rend()); p.push_back(0); return p;
}
VF_SECTION(plain_hunting) {
  pathed(4, hunt(4), false, ref::changes(4)); pathed(5, hunt(5), true, ref::changes(5));
  pathed(5, hunt(5), false, [] { std::vector<Sw> v; for (auto &s : ref::changes(5)) if (ref::places(s).size() == 1) v.push_back(s); return v; }());
  pathed(6, hunt(6), true, [] { std::vector<Sw> v; for (auto &s : ref::changes(6)) if (ref::places(s).size() <= (size_t)vf::tier(2, 4)) v.push_back(s); return v; }());
  // little: hunting to fewer places, with all the bells present
  for (int n : {5, 6}) for (int k = 2; k < n; ++k) pathed(n, hunt(k), true, [n] { std::vector<Sw> v; for (auto &s : ref::changes(n)) if (ref::places(s).size() <= 2) v.push_back(s); return v; }());
}
VF_SECTION(big_stages) { // lead head codes: every plain-bob-like and grandsire-like lead on up to 22 bells
  for (int n = 5; n <= 22; ++n) {
    auto P1 = [&](std::string const &t) { Sw s; ref::parse_change(n, t, s); return s; };
    std::string l = ref::sym(n - 1), x = n % 2 ? l : "x", nth = n % 2 ? "1" : "1" + l;
    for (std::string le : {std::string("12"), n % 2 ? std::string("1") : "1" + l, std::string("14"), std::string("16"), std::string("1234")})
      for (std::string hl : {nth, std::string("12"), std::string("1234"), std::string("14")})
        for (int k = 0; k <= n; ++k) { // k extra lead ends inserted symmetrically vary the lead head
          M p; bool bad = false; Sw t;
          for (auto *q : {&le, &hl}) if (!ref::parse_change(n, *q, t)) bad = true;
          if (bad) continue;
          // treble plain hunts
          for (int i = 0; i < 2 * n; ++i) {
            if (i == 2 * n - 1) p.push_back(P1(le));
            else if (i == n - 1) p.push_back(n % 2 ? P1(l) : P1(hl));
            else if (n % 2 == 0) p.push_back(i % 2 == 0 ? P1("x") : P1(i == k || i == 2 * n - 2 - k ? "1" + l : "1" + l));
            else p.push_back(i % 2 == 0 ? P1(l) : P1("1"));
          }
          // powers: ring the lead k+1 times to reach later lead heads
          if (k > n - 2) continue;
          if (!vf::thorough() && n > 14 && k > 3 && k % 3) continue;
          M q; for (int j = 0; j <= k; ++j) q.insert(q.end(), p.begin(), p.end());
          ONE(n, q)
        }
    // grandsire-like, twin hunt
    for (std::string st : {std::string("3"), std::string("x"), std::string("1"), std::string("34")}) for (int k = 0; k < n - 2; ++k) {
      Sw t; if (!ref::parse_change(n, st, t)) continue;
      M p; p.push_back(t);
      for (int i = 1; i < 2 * n; ++i) p.push_back(n % 2 ? (i % 2 ? P1("1") : P1(l)) : (i % 2 ? P1("1" + l) : P1("x")));
      M q; for (int j = 0; j <= k; ++j) q.insert(q.end(), p.begin(), p.end());
      ONE(n, q)
    }
  }
}
VF_SECTION(treble_dodging) {
  auto few = [](int n, size_t k) { std::vector<Sw> v; for (auto &s : ref::changes(n)) if (ref::places(s).size() <= k) v.push_back(s); return v; };
  pathed(4, dodge(4, 1), true, few(4, 2));
  // minor: restrict the changes so that each row leaves about two
  std::vector<Sw> cs; for (std::string t : {"X", "14", "12", "16", "36", "34", "56"}) { Sw s; if (t == "X" || t.size()) { ref::parse_change(6, t, s); cs.push_back(s); } }
  std::vector<Sw> small; for (std::string t : {"X", "14", "36", "16"}) { Sw s; ref::parse_change(6, t, s); small.push_back(s); }
  pathed(6, dodge(6, 1), true, vf::thorough() ? cs : small);
  // eight bells: the work above and below the treble is fixed, the cross sections vary
  std::vector<Sw> c8; for (std::string t : {"X", "18", "58", "14"}) { Sw s; ref::parse_change(8, t, s); c8.push_back(s); }
  pathed(8, dodge(8, 1), true, std::vector<Sw>(c8.begin(), c8.begin() + vf::tier(3, 4)));
  // two and three dodges in each position, and dodging in little methods
  pathed(4, dodge(4, 2), true, few(4, vf::tier(0, 2)).size() ? [&] { std::vector<Sw> v; for (std::string t : {"X", "14", "12", "34"}) { Sw s; ref::parse_change(4, t, s); v.push_back(s); } return v; }() : few(4, 2));
  pathed(6, dodge(4, 1), true, vf::thorough() ? cs : small);
  pathed(6, dodge(2, 1), true, few(6, 2));
  pathed(6, dodge(2, 3), true, small);
}
VF_SECTION(treble_paths) { // every closed symmetrical treble path on 5 bells: place, alliance, hybrid, little
  int n = 5;
  std::vector<Sw> cs; for (auto &s : ref::changes(n)) if ((int)ref::places(s).size() <= vf::tier(3, 5)) cs.push_back(s);
  for (int half = 1; half <= vf::tier(5, 6); ++half) {
    std::vector<int> up(1, 0);
    std::function<void()> go = [&] {
      if ((int)up.size() == half) {
        std::vector<int> p(up); p.insert(p.end(), up.rbegin(), up.rend()); p.push_back(p[0]);
        pathed(n, p, true, cs);
        return;
      }
      for (int d = -1; d <= 1; ++d) { int q = up.back() + d; if (q < 0 || q >= n) continue; up.push_back(q); go(); up.pop_back(); }
    };
    for (int st = 0; st < n; ++st) { up[0] = st; go(); }
  }
}
VF_SECTION(names) {
  const char *st[] = {"Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus", "Sextuples", "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty", "Decuples", "Twenty-two"};
  CASE("stage names") {
    for (int n = 0; n < 40; ++n) { vf::states(); std::string e = n >= 3 && n <= 22 ? st[n - 3] : std::to_string(n); EXPECT(method::stagename(n) == e, "stage", n, " gave ", method::stagename(n)); }
    for (int c = 0; c <= 10; ++c) for (int f : {0, 0x10, 0x80, 0x90}) for (int y : {2018, 2019}) {
      std::string e; if (f & 0x10) e += "Differential "; if (f & 0x80) e += "Little "; if (!(y >= 2019 && c == 9)) e += CN[c];
      if (!e.empty() && e.back() == ' ') e.pop_back();
      EXPECT(method::classname(c | f, y) == e, "class-name", c, "/", f, " in ", y, " gave ", method::classname(c | f, y));
    }
  } END_CASE
  // Grandsire and Union families carry no class
  struct N { const char *name, *pn; int n; const char *full; };
  N ns[] = {{"Grandsire", "3,&1.5.1.5.1", 5, "Grandsire Doubles"}, {"Grandsire", "3,&1.7.1.7.1.7.1", 7, "Grandsire Triples"}, {"Reverse Grandsire", "&1.5.1.5.1.5,345.1", 5, 0},
    {"Union", "3.1.7.1.5.1.7.1.7.1.5.1.7.1", 7, "Union Triples"}, {"Double Union", "3.1.7.1.5.1.7.1.7.1.5.1.7.1", 7, "Double Union Triples"}, {"Plain", "&x16x16x16,12", 6, "Plain Bob Minor"},
    {"Little", "&x16x14,12", 6, "Little Little Bob Minor"}, {"Cambridge", "&x36x14x12x36x14x56,12", 6, "Cambridge Surprise Minor"}, {"Kent", "&34x34.16x12x16x12x16,16", 6, "Kent Treble Bob Minor"},
    {"Oxford", "&x34x36x12x16x12x16,16", 6, 0}, {"St Simon's", "&5.1.5.3.1.3,1", 5, 0}, {"", "&x16x16x16,12", 6, "Bob Minor"},
    {"Grandsire", "&x16x16x16,12", 6, "Grandsire Minor"}, {"Union", "&5.1.5.1.5,125", 5, 0}, {"Double Grandsire", "3,&1.7.1.7.1.7.1", 7, "Double Grandsire Triples"}, {"Little Grandsire", "3,&1.7.1.7.1.7.1", 7, "Little Grandsire Triples"}};
  for (auto &x : ns) CASE("name ", x.name, " ", x.pn) { vf::states(); method m(x.pn, x.n, x.name); if (x.full) EXPECT(m.fullname() == x.full, "family-name", "gave ", m.fullname()); EXPECT(std::string(m.name()) == x.name, "name", m.name());
    method k(m); k.name("Other"); EXPECT(std::string(k.name()) == "Other" && std::string(m.name()) == x.name, "rename", ""); k.swap(m); EXPECT(std::string(m.name()) == "Other" && std::string(k.name()) == x.name && k.size() == m.size() && m.bells() == x.n, "swap", ""); } END_CASE
  CASE("untitled, set repeatedly") {
    EXPECT(std::string(method("x", 4).name()) == "Untitled", "untitled", "");
    for (std::string t : {"First", "Second", "Third"}) { method::set_untitled(t); EXPECT(std::string(method("x", 4).name()) == t && std::string(method(2, 4).name()) == t, "untitled", "after ", t, " gave ", method("x", 4).name()); }
    method::set_untitled("Untitled");
  } END_CASE
  // construction: from changes, sizes, pushes
  for (int n = 1; n <= 5; ++n) for (int l = 0; l < 3; ++l) CASE("construct ", n, " ", l) {
    vf::states();
    method m(l, n); EXPECT(m.length() == l && m.bells() == n, "construct", "");
    for (int i = 0; i < l; ++i) EXPECT(m[i] == change(n), "construct", "");
    for (int k = 1; k <= 6; ++k) { method c(m); c.push_back(change(k, "1")); EXPECT(c.bells() == std::max(n, k) && c.length() == l + 1 && c[l] == change(k, "1"), "push", "k=", k); }
    method d(m); d.push_back("1"); EXPECT(d.bells() == n && d[l] == change(n, "1"), "push-text", "");
    method e(std::vector<change>(d), "N"); EXPECT(e.bells() == n && e.length() == l + 1 && std::string(e.name()) == "N", "from-changes", "");
  } END_CASE
}
