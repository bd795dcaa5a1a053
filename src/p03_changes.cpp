// P03: single changes.
#include "rl.h"
#include <functional>
using namespace ringing;
using namespace rl;
using ref::P;
using ref::Sw;

static bool same(change const &c, Sw const &s) {
  if (c.bells() != (int)s.size()) return false;
  for (int i = 0; i + 1 < (int)s.size(); ++i) if (c.findswap(i) != (bool)s[i]) return false;
  return true;
}
static void full(change const &c, Sw const &s) {
  int n = s.size(); auto pl = ref::places(s);
  EXPECT(same(c, s), "swaps", "got ", c.print(), " on ", c.bells(), " not ", ref::pn(s));
  if (n) for (int i = 0; i < n; ++i) EXPECT(c.findplace(i) == ref::is_place(s, i), "findplace", ref::pn(s), " on ", n, " place ", i + 1);
  EXPECT(c.count_places() == (int)pl.size(), "count-places", ref::pn(s), " gave ", c.count_places());
  auto v = c.places(); std::vector<int> w(v.begin(), v.end());
  EXPECT(w == pl, "places", ref::pn(s));
  int sw = 0; for (char x : s) sw += x;
  EXPECT(c.sign() == (sw % 2 ? -1 : 1), "sign", ref::pn(s), " gave ", c.sign());
  bool in = false; for (int p : pl) if (p > 0 && p < n - 1) in = true;
  EXPECT(c.internal() == in, "internal", ref::pn(s), " on ", n, " gave ", c.internal());
  std::string e = n ? ref::pn(s) : "";
  EXPECT(c.print() == e, "print", "printed ", c.print(), " not ", e);
  std::string x = e == "X" ? "x" : e, d = e == "X" ? "-" : e;
  EXPECT(c.print(change::C_LCROSS) == x && c.print(change::C_DASH) == d && c.print(change::C_UCROSS) == e, "print-flags", e);
  std::ostringstream os; os << c; EXPECT(os.str() == e, "print-stream", os.str());
  EXPECT(change(n, e) == c, "round-trip", e, " on ", n);
  EXPECT(change(n, v) == c, "round-trip-places", e, " on ", n);
  Sw r(n, 0); for (int i = 0; i + 1 < n; ++i) r[n - 2 - i] = s[i];
  EXPECT(same(c.reverse(), r), "reverse", e, " on ", n, " gave ", c.reverse().print());
  EXPECT(c.reverse().reverse() == c && c.reverse() == mkc(r), "reverse-twice", e);
  // a change is an involution on rows
  row t(n); t *= c; EXPECT(eq(t, ref::sw_perm(s)), "acts", e, " gave ", show(t)); t *= c; EXPECT(t.isrounds(), "involution", e);
  for (int b = 0; b < n + 1; ++b) EXPECT((int)(bell(b) * c) == ref::at(ref::sw_perm(s), b), "bell", e, " bell ", b + 1, " to ", (int)(bell(b) * c) + 1);
}
VF_SECTION(all_changes) {
  for (int n = 0; n <= vf::tier(12, 16); ++n) for (auto &s : ref::changes(n))
    CASE("change ", ref::pn(s), " on ", n) { vf::states(); full(mkc(s), s); } END_CASE
  for (int n = 17; n <= 64; ++n)   // structured changes on many bells
    for (int k = 0; k < 5; ++k) CASE("change family ", k, " on ", n) {
      Sw s(n, 0);
      for (int i = k & 1; i + 1 < n; i += 2) s[i] = 1;
      if (k == 2) std::fill(s.begin(), s.end(), 0);
      if (k == 3) s[n / 2 % 2 == k % 2 ? n / 2 : n / 2 + 1] = 0;
      if (k == 4) for (int i = 0; i < n / 2; ++i) s[i] = 0;
      vf::states(); full(mkc(s), s);
    } END_CASE
}
// every text over a small alphabet, every size: meaning or refusal
VF_SECTION(parse) {
  std::string alpha = "12345xX-{}";
  int L = vf::tier(5, 6);
  std::string t;
  std::function<void()> go = [&] {
    for (int n = 0; n <= 7; ++n) CASE("change(", n, ", ", vf::quote(t), ")") {
      vf::states();
      bool ok = true; Sw s(n, 0);
      if (t.empty()) ok = n == 0;
      else {
        std::vector<int> pl;
        if (t != "x" && t != "X" && t != "-") for (size_t i = 0; i < t.size() && ok;) {
          if (t[i] >= '1' && t[i] <= '5') pl.push_back(t[i++] - '1');
          else if (t[i] == '{') {
            size_t j = i + 1, v = 0; while (j < t.size() && isdigit(t[j])) v = v * 10 + (t[j++] - '0');
            if (j == i + 1 || j >= t.size() || t[j] != '}' || v > 256 || v < 1) ok = false; else { pl.push_back(v - 1); i = j + 1; }
          } else ok = false;
        }
        // places ascend within the change, an even number of bells between
        // consecutive places; an odd run before the first or after the last
        // place implies a place at that end
        int at = 0; bool first = true;
        for (int p : pl) if (ok) {
          if (p >= n || p < at) { ok = false; break; }
          if ((p - at) % 2) { if (!first) { ok = false; break; } at = 1; }
          for (int i = at; i + 1 < p; i += 2) s[i] = 1;
          at = p + 1; first = false;
        }
        if (ok) for (int i = at; i + 1 < n; i += 2) s[i] = 1;
      }
      bool got = true; change c(3, "3");
      try { c = change(n, t); } catch (std::invalid_argument const &) { got = false; }
      EXPECT(got == ok, "parse-accept", "accepted ", got, " expected ", ok);
      if (got && ok) { EXPECT(same(c, s), "parse", "gave ", c.print(), " not ", ref::pn(s)); vf::outcome(c.print()); }
      if (!got) EXPECT(c == change(3, "3"), "parse-strong", "assignment that threw changed the target");
    } END_CASE
    if ((int)t.size() == L) return;
    for (char c : alpha) { t += c; go(); t.pop_back(); }
  };
  go();
}
// every list of places
VF_SECTION(place_lists) {
  for (int n = 0; n <= 7; ++n) {
    std::vector<bell> v;
    std::function<void()> go = [&] {
      CASE("places of ", n, ": ", [&] { std::string s; for (bell b : v) s += char('1' + (int)b); return s; }()) {
        vf::states();
        bool ok = true; Sw s(n, 0); int at = 0; bool first = true;
        for (int p : v) { if (p >= n || p < at) { ok = false; break; } if ((p - at) % 2) { if (!first) { ok = false; break; } at = 1; } for (int i = at; i + 1 < p; i += 2) s[i] = 1; at = p + 1; first = false; }
        if (ok) for (int i = at; i + 1 < n; i += 2) s[i] = 1;
        bool got = true; change c;
        try { c = change(n, v); } catch (change::invalid const &) { got = false; }
        EXPECT(got == ok, "places-accept", "accepted ", got, " expected ", ok);
        if (ok && got) EXPECT(same(c, s), "places", "gave ", c.print(), " not ", ref::pn(s));
      } END_CASE
      if (v.size() == 4) return;
      for (int b = 0; b <= 7; ++b) { v.push_back(bell(b)); go(); v.pop_back(); }
    };
    go();
  }
}
// all edit histories: swap/unswap pairs in every order, from every change
VF_SECTION(edits) {
  int D = vf::tier(4, 5);
  for (int n = 0; n <= 7; ++n) {
    std::set<std::string> seen;
    for (auto &s0 : ref::changes(n)) {
      std::vector<int> h;
      std::function<void()> go = [&] {
        if (!h.empty()) CASE("edit ", ref::pn(s0), " on ", n, " by ", [&] { std::string t; for (int x : h) t += char('1' + x); return t; }()) {
          change d = mkc(s0); Sw q(s0);
          for (int w : h) {
            bool oor = w + 2 > n, thrown = false, r = false;
            try { r = d.swappair(w); } catch (std::out_of_range const &) { thrown = true; }
            EXPECT(thrown == oor, "edit-range", "pair ", w + 1, " on ", n, " thrown ", thrown);
            if (!oor) {
              if (q[w]) { q[w] = 0; EXPECT(!r, "edit-result", "said swapped"); }
              else { q[w] = 1; if (w) q[w - 1] = 0; if (w + 1 < n) q[w + 1] = 0; EXPECT(r, "edit-result", "said unswapped"); }
            }
          }
          if (seen.insert(ref::pn(q)).second) { vf::states(); vf::outcome(ref::pn(q)); }
          EXPECT(same(d, q), "edit", "gave ", d.print(), " not ", ref::pn(q));
          EXPECT(d == mkc(q) && d.print() == (n ? ref::pn(q) : ""), "edit-canonical", "equality or text disagrees: ", d.print());
        } END_CASE
        if ((int)h.size() == D || (!h.empty() && h.back() + 2 > n)) return;
        for (int w = 0; w <= n; ++w) { h.push_back(w); go(); h.pop_back(); }
      };
      go();
    }
  }
}
VF_SECTION(compare) {
  std::vector<Sw> v; for (int n = 0; n <= 7; ++n) for (auto &s : ref::changes(n)) v.push_back(s);
  for (size_t i = 0; i < v.size(); ++i) CASE("compare ", ref::pn(v[i]), " on ", v[i].size()) {
    vf::states();
    change a = mkc(v[i]);
    for (size_t j = 0; j < v.size(); ++j) {
      change b = mkc(v[j]); bool e = v[i] == v[j];
      EXPECT((a == b) == e && (a != b) == !e, "equality", ref::pn(v[j]), " on ", v[j].size());
      int lt = a < b, gt = a > b;
      EXPECT(lt + gt + e == 1 && (a <= b) == (lt || e) && (a >= b) == (gt || e) && (b > a) == lt, "ordering", ref::pn(v[j]));
      if (a.bells() == b.bells()) {
        bool sp = false; for (size_t k = 0; k < v[i].size(); ++k) if (ref::is_place(v[i], k) && ref::is_place(v[j], k)) sp = true;
        EXPECT(have_same_places(a, b) == sp, "same-places", ref::pn(v[j]));
      } else { bool th = false; try { have_same_places(a, b); } catch (std::logic_error const &) { th = true; } EXPECT(th, "same-places-mismatch", ""); }
      for (size_t k = 0; k < v.size(); k += 7) { change c = mkc(v[k]); if (a < b && b < c) EXPECT(a < c, "transitive", ""); }
      change x(a), y(b); x.swap(y); EXPECT(x == b && y == a, "swap", "");
      x = a; y = b; std::swap(x, y); EXPECT(x == b && y == a, "swap", "");
    }
  } END_CASE
}
