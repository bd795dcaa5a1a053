// P13: touch searches find every true round block, once, and nothing else.
#include "rl.h"
#include <ringing/method.h>
#include <ringing/touch.h>
#include <ringing/basic_search.h>
#include <ringing/table_search.h>
#include <ringing/group.h>
using namespace ringing;
using namespace rl;
using ref::P;
typedef std::set<P> S;
typedef std::vector<ref::Sw> M;
typedef std::vector<int> C;       // calls, 0 being plain
typedef std::multiset<C> R;

static S closure(std::vector<P> gens, int n) {
  for (auto &g : gens) g = ref::ext(g, n);
  S s; std::vector<P> q(1, ref::id(n)); s.insert(q[0]);
  while (!q.empty()) { P p = q.back(); q.pop_back(); for (auto &g : gens) { P r = ref::mul(p, g); if (s.insert(r).second) q.push_back(r); } }
  return s;
}
static std::string shm(M const &m) { std::string s; for (auto &c : m) s += ref::pn(c) + "."; return s; }
static std::string shs(S const &h) { std::string o; for (auto &p : h) o += (o.empty() ? "" : ",") + ref::str(p); return o; }

struct Prob { int n; M m; M calls; };
static std::string show(Prob const &p) { return shm(p.m) + " on " + std::to_string(p.n) + (p.calls.empty() ? "" : " calls " + shm(p.calls)); }
// all true round blocks (one part of each), with rows of every part distinct
struct Ref {
  Prob const &p; S H; bool mut; size_t lo, hi, cap; R out; size_t nodes = 0; bool over = false;
  std::vector<P> hs; std::vector<P> lead; std::vector<P> lh; std::set<P> rows; C c;
  Ref(Prob const &p, S const &H, bool mut, size_t lo, size_t hi, size_t cap) : p(p), H(H), mut(mut), lo(lo), hi(hi), cap(cap), hs(H.begin(), H.end()) {
    P q = ref::id(p.n); for (size_t i = 0; i < p.m.size(); ++i) { lead.push_back(q); if (i + 1 < p.m.size()) q = ref::mul(q, ref::sw_perm(p.m[i])); }
    lh.push_back(ref::mul(q, ref::sw_perm(p.m.back()))); for (auto &x : p.calls) lh.push_back(ref::mul(q, ref::sw_perm(x)));
    go(ref::id(p.n));
  }
  void go(P const &r) {
    if (++nodes > cap) { over = true; return; }
    if (!c.empty() && H.count(r)) {       // come round (or to a part end)
      if (c.size() >= lo && c.size() <= hi && (mut || ref::order(r) == (int)H.size())) out.insert(c);
      return;
    }
    if (c.size() >= hi) return;
    std::vector<P> added; bool ok = true;
    for (auto &a : lead) { for (auto &h : hs) { P x = ref::mul(ref::mul(h, r), a); if (!rows.insert(x).second) { ok = false; break; } added.push_back(x); } if (!ok) break; }
    if (ok) for (size_t k = 0; k < lh.size() && !over; ++k) { c.push_back((int)k); go(ref::mul(r, lh[k])); c.pop_back(); }
    for (auto &x : added) rows.erase(x);
  }
};
static C least(C const &c) { C b(c), d(c); for (size_t i = 1; i < c.size(); ++i) { std::rotate(d.begin(), d.begin() + 1, d.end()); if (d < b) b = d; } return b; }

struct Out : search_base::outputer {
  Prob const &p; R got; bool bad = false; size_t stop = 0, n = 0, cap = 200000; std::vector<change> ch, ms;
  Out(Prob const &p, size_t stop = 0) : p(p), stop(stop) { ch.push_back(mkc(p.m.back())); for (auto &x : p.calls) ch.push_back(mkc(x)); for (auto &x : p.m) ms.push_back(mkc(x)); }
  bool operator()(touch const &t) {
    std::vector<change> v; for (auto i = t.begin(), e = t.end(); i != e; ++i) v.push_back(*i);
    size_t L = p.m.size(); C c;
    if (v.size() % L || v.empty()) bad = true;
    else for (size_t i = 0; i < v.size(); i += L) { for (size_t j = 0; j + 1 < L; ++j) if (v[i + j] != ms[j]) bad = true; int k = 0; while (k < (int)ch.size() && ch[k] != v[i + L - 1]) ++k; if (k == (int)ch.size()) bad = true; c.push_back(k); }
    got.insert(c); ++n; return n == stop || n >= cap;
  }
};
static std::string shc(C const &c) { std::string s; for (int i : c) s += char('0' + i); return s; }
static void cmp(R const &got, R const &want, char const *what, std::string const &how) {
  for (auto &c : got) { size_t a = got.count(c), b = want.count(c); EXPECT(b, what, how, ": found ", shc(c), ", which is not a true block asked for"); if (b) EXPECT(a == b, what, how, ": found ", shc(c), " ", a, " times"); if (a != b) return; }
  for (auto &c : want) { EXPECT(got.count(c), what, how, ": did not find ", shc(c)); if (!got.count(c)) return; }
}
static method mkm(M const &m) { std::vector<change> v; for (auto &s : m) v.push_back(mkc(s)); return method(v); }
static std::vector<change> mkv(M const &m) { std::vector<change> v; for (auto &s : m) v.push_back(mkc(s)); return v; }
static void run(search_base const &s, Prob const &p, R const &want, bool rot, char const *what, std::string const &how) {
  Out o(p); s.run(o); EXPECT(!o.bad, what, how, ": a touch that is not made of leads of the method");
  if (!rot) cmp(o.got, want, what, how);
  else { R a, b; for (auto &c : o.got) a.insert(least(c)); std::set<C> u; for (auto &c : want) u.insert(least(c)); b.insert(u.begin(), u.end()); cmp(a, b, what, how + ", ignoring rotations"); for (auto &c : o.got) EXPECT(want.count(c), what, how, ": rotation ", shc(c)); }
}
static size_t found = 0;
static bool one(Prob const &p, size_t cap) {
  Ref r(p, {ref::id(p.n)}, false, 0, 1000, cap); if (r.over) return false;
  vf::states(r.nodes); found += r.out.size();
  method m = mkm(p.m); auto c = mkv(p.calls);
  for (int rot = 0; rot < 2; ++rot) {
    run(basic_search(m, c, rot), p, r.out, rot, "basic-search", "basic search");
    run(table_search(m, c, bool(rot)), p, r.out, rot, "table-search", "table search");
    run(table_search(m, c, group(), rot ? table_search::ignore_rotations : table_search::no_flags), p, r.out, rot, "table-search-group", "table search, trivial group");
  }
  std::set<size_t> lens; for (auto &x : r.out) lens.insert(x.size());
  std::vector<std::pair<size_t, size_t>> rg = {{0, 0}, {2, 3}, {1, 4}}; if (!lens.empty()) { rg.push_back({*lens.rbegin(), *lens.rbegin()}); rg.push_back({*lens.begin(), *lens.rbegin() - 1}); rg.push_back({*lens.begin() + 1, size_t(-1)}); }
  for (auto &g : rg) {
    R w; for (auto &x : r.out) if (x.size() >= g.first && x.size() <= g.second) w.insert(x);
    std::string how = "lengths " + std::to_string(g.first) + "-" + std::to_string(g.second);
    for (int rot = 0; rot < 2; ++rot) {
      run(basic_search(m, c, g, rot), p, w, rot, "basic-length", how);
      run(table_search(m, c, g, bool(rot)), p, w, rot, "table-length", how);
    }
    size_t L = p.m.size(); // the same in changes, and not on a boundary
    auto ch = [&](size_t a, size_t b, std::string const &h) { R w2; for (auto &x : r.out) if (x.size() * L >= a && x.size() * L <= b) w2.insert(x); run(table_search(m, c, group(), {a, b}, table_search::length_in_changes), p, w2, false, "length-in-changes", h); };
    if (g.second < 1000) { ch(g.first * L, g.second * L, "changes " + how); ch(g.first * L + 1, g.second * L + L - 1, "changes+ " + how); } else ch(g.first * L, size_t(-1), "changes " + how);
  }
  // stopping after so many
  for (size_t k : {1, 2, 3}) { basic_search b(m, c); table_search t(m, c); Out o(p, k), q(p, k); b.run(o); t.run(q); EXPECT(o.n == std::min(k, r.out.size()) && q.n == o.n, "stop", "after ", k, ": ", o.n, " and ", q.n); }
  { std::vector<touch> ts; touch_search(basic_search(m, c), std::back_inserter(ts)); EXPECT(ts.size() == r.out.size(), "touch-search", ts.size()); size_t n = 0; std::vector<touch> t2; touch_search_until(table_search(m, c), std::back_inserter(t2), [&](touch const &) { return ++n == 2; }); EXPECT(t2.size() == std::min<size_t>(2, r.out.size()), "touch-search-until", t2.size()); }
  return true;
}
template <class F> static void methods(int n, int len, F f) { auto cs = ref::changes(n); M m; std::function<void()> go = [&]() { if ((int)m.size() == len) { f(m); return; } for (auto &c : cs) { m.push_back(c); go(); m.pop_back(); } }; go(); }
static std::vector<M> callsets(int n, ref::Sw const &plain, size_t k) { std::vector<M> o(1); auto cs = ref::changes(n); std::vector<ref::Sw> w; for (auto &c : cs) if (c != plain) w.push_back(c); for (auto &a : w) { o.push_back({a}); if (k > 1) for (auto &b : w) if (a != b) o.push_back({a, b}); } return o; }
static size_t skipped = 0;
static void all(int n, int len, size_t ncalls, size_t cap, size_t stride) {
  size_t k = 0; methods(n, len, [&](M const &m) { for (auto &cs : callsets(n, m.back(), ncalls)) { if (k++ % stride) continue; Prob p{n, m, cs}; CASE("search ", show(p)) { if (!one(p, cap)) ++skipped; } END_CASE } });
  vf::note(vf::cat(n, " bells, ", len, " changes: ", found, " touches found so far, ", skipped, " searches too long"));
}
VF_SECTION(three) { for (int l = 1; l <= vf::tier(5, 6); ++l) all(3, l, 2, 100000, 1); }
VF_SECTION(four_short) { all(4, 1, 2, vf::tier(20000, 400000), 1); all(4, 2, 2, vf::tier(20000, 400000), vf::tier(3, 1)); }
VF_SECTION(four) { all(4, 3, 1, vf::tier(20000, 200000), 1); all(4, 4, 2, vf::tier(20000, 200000), vf::tier(7, 1)); }
VF_SECTION(four_long) { all(4, 6, 1, vf::tier(20000, 200000), vf::tier(61, 5)); all(4, 8, 2, vf::tier(20000, 200000), vf::tier(40009, 4001)); }
// real methods
static M pn(int n, std::vector<std::string> const &v) { M m; for (auto &s : v) { ref::Sw w(n, 0); if (s == "X") { for (int i = 0; i + 1 < n; i += 2) w[i] = 1; } else { int b = 0; std::vector<char> pl(n, 0); for (char c : s) pl[c - '1'] = 1; for (b = 0; b + 1 < n;) if (!pl[b] && !pl[b + 1]) { w[b] = 1; b += 2; } else ++b; } m.push_back(w); } return m; }
static void methods_5(size_t part) {
  std::vector<M> ms = {pn(5, {"5", "1", "5", "1", "5", "1", "5", "1", "5", "125"}), pn(5, {"3", "1", "5", "1", "5", "1", "5", "1", "5", "1"}), pn(5, {"5", "1", "345", "1", "5", "1", "345", "1", "5", "125"}), pn(5, {"3", "1", "3", "1", "3", "1"}), pn(5, {"345", "145", "5", "1", "345", "1", "5", "145", "345", "1"}), pn(5, {"5", "1", "5", "1", "3", "1"})};
  size_t k = 0;
  for (auto &m : ms) for (auto &cs : callsets(5, m.back(), 2)) { if (k++ % 4 != part) continue; Prob p{5, m, cs}; CASE("search ", show(p)) { if (!one(p, vf::tier(1500, 60000))) ++skipped; } END_CASE }
  vf::note(vf::cat(found, " touches, ", skipped, " searches too long"));
  CASE("touches were found") { EXPECT(found > 100, "vacuous", found); } END_CASE
}
VF_SECTION(methods_5a) { methods_5(0); }
VF_SECTION(methods_5b) { methods_5(1); }
VF_SECTION(methods_5c) { methods_5(2); }
VF_SECTION(methods_5d) { methods_5(3); }
VF_SECTION(minor) {
  std::vector<M> ms = {pn(6, {"X", "16", "X", "16", "X", "16", "X", "16", "X", "16", "X", "12"}), pn(6, {"X", "34", "X", "16", "X", "12", "X", "36", "X", "12", "X", "16", "X", "12", "X", "36", "X", "12", "X", "16", "X", "34", "X", "12"}), pn(6, {"X", "14", "X", "16", "X", "16", "X", "16", "X", "14", "X", "12"})};
  for (auto &m : ms) for (auto &cs : {pn(6, {"14"}), pn(6, {"1234"}), pn(6, {"14", "1234"}), pn(6, {"16"})}) { Prob p{6, m, cs}; CASE("search ", show(p)) { for (size_t hi : {4u, 6u, 9u}) { Ref r(p, {ref::id(6)}, false, 1, hi, 2000000); if (r.over) continue; vf::states(r.nodes); for (int rot = 0; rot < 2; ++rot) { run(basic_search(mkm(p.m), mkv(p.calls), {1, hi}, rot), p, r.out, rot, "basic-minor", "length"); run(table_search(mkm(p.m), mkv(p.calls), {1, hi}, bool(rot)), p, r.out, rot, "table-minor", "length"); } } } END_CASE }
}
// multi-part touches
static void parts(Prob const &p, S const &H, size_t cap) {
  for (int mut = 0; mut < 2; ++mut) {
    Ref r(p, H, mut, 0, 1000, cap); if (r.over) { ++skipped; continue; }
    vf::states(r.nodes); found += r.out.size();
    std::vector<row> v; for (auto &x : H) v.push_back(mk(x)); group g(v);
    int fl = mut ? table_search::mutually_true_parts : 0; if (H.size() == 1) continue;
    run(table_search(mkm(p.m), mkv(p.calls), g, table_search::flags(fl)), p, r.out, false, mut ? "mutually-true" : "multi-part", "parts " + shs(H));
    size_t L = p.m.size() * H.size(); R w; for (auto &x : r.out) if (x.size() >= 2 && x.size() <= 3) w.insert(x);
    run(table_search(mkm(p.m), mkv(p.calls), g, {2, 3}, table_search::flags(fl)), p, w, false, "multi-part-length", "parts " + shs(H));
    run(table_search(mkm(p.m), mkv(p.calls), g, {L + 1, 3 * L + 1}, table_search::flags(fl | table_search::length_in_changes)), p, w, false, "multi-part-changes", "parts " + shs(H));
  }
}
static std::set<S> subgroups(int n, bool treble) { std::set<S> o; std::vector<P> ps; for (auto &p : ref::perms(n)) if (!treble || p[0] == 0) ps.push_back(p); for (auto &a : ps) for (auto &b : ps) o.insert(closure({a, b}, n)); return o; }
static bool fixes(Prob const &p) { P q = ref::id(p.n); for (auto &c : p.m) q = ref::mul(q, ref::sw_perm(c)); if (q[0] || !ref::is_place(p.m.back(), 0)) return false; for (auto &c : p.calls) if (!ref::is_place(c, 0)) return false; return true; }
VF_SECTION(multi_part) {
  auto s3 = subgroups(3, false), s4 = subgroups(4, false);
  for (int l = 1; l <= vf::tier(4, 5); ++l) methods(3, l, [&](M const &m) { for (auto &cs : callsets(3, m.back(), 1)) { Prob p{3, m, cs}; for (auto &H : s3) { bool t = true; for (auto &h : H) if (h[0]) t = false; if (fixes(p) && !t) continue; CASE("parts ", shs(H), " of ", show(p)) { parts(p, H, 100000); } END_CASE } } });
  size_t k = 0;
  for (int l = 1; l <= vf::tier(3, 4); ++l) methods(4, l, [&](M const &m) { for (auto &cs : callsets(4, m.back(), 1)) { Prob p{4, m, cs}; for (auto &H : s4) { bool t = true; for (auto &h : H) if (h[0]) t = false; if (fixes(p) && !t) continue; if (k++ % (l < 3 ? 1 : vf::tier(7, 1))) continue; CASE("parts ", shs(H), " of ", show(p)) { parts(p, H, 20000); } END_CASE } } });
  vf::note(vf::cat(found, " touches, ", skipped, " searches too long"));
}
VF_SECTION(multi_part_5) {
  std::vector<M> ms = {pn(5, {"5", "1", "5", "1", "5", "1", "5", "1", "5", "125"}), pn(5, {"5", "1", "345", "1", "5", "1", "345", "1", "5", "125"}), pn(5, {"3", "1", "3", "1"}), pn(5, {"5", "1", "3", "1", "345", "1"})};
  auto t = subgroups(5, true), a = subgroups(5, false); size_t k = 0;
  for (auto &m : ms) for (auto &cs : callsets(5, m.back(), 1)) { Prob p{5, m, cs}; for (auto &H : fixes(p) ? t : a) { if (H.size() < 2 || (!fixes(p) && k++ % vf::tier(5, 1))) continue; CASE("parts ", shs(H).substr(0, 60), "(", H.size(), ") of ", show(p)) { parts(p, H, vf::tier(3000, 30000)); } END_CASE } }
  vf::note(vf::cat(found, " touches, ", skipped, " searches too long"));
}
