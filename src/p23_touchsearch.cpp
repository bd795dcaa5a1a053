// P23: touchsearch prints every touch asked for, once, and nothing else.
#include "app.h"
#include "ref.h"
#include "refpn.h"
#include "vf.h"
#include <algorithm>
using namespace ref;
typedef std::vector<Sw> M; typedef std::set<P> S; typedef std::vector<int> C; // 0 is a plain lead
static std::string txt(M const &m) { std::string s; for (auto &c : m) s += (s.empty() ? "" : ".") + pn(c); return s; }
static S closure(std::vector<P> gens, int n) { S s; std::vector<P> q(1, id(n)); s.insert(q[0]); while (!q.empty()) { P p = q.back(); q.pop_back(); for (auto &g : gens) { P r = mul(p, ext(g, n)); if (s.insert(r).second) q.push_back(r); } } return s; }
static std::vector<std::string> lines(std::string const &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
static std::string join(std::vector<std::string> const &t, char const *sep = " | ") { std::string s; for (auto &x : t) s += (s.empty() ? "" : sep) + x; return s; }
struct Prob { int n; M m, calls; std::vector<P> parts; size_t lo = 0, hi = 1000; bool mut = false; };
struct Ref { // every true round block, proved row by row in every part
  Prob const &p; S H; std::vector<C> out; size_t nodes = 0, cap; bool over = false; std::vector<P> lead, lh; S rows; C c;
  Ref(Prob const &p, size_t cap) : p(p), H(closure(p.parts, p.n)), cap(cap) { P q = id(p.n); for (size_t i = 0; i < p.m.size(); ++i) { lead.push_back(q); if (i + 1 < p.m.size()) q = mul(q, sw_perm(p.m[i])); } lh.push_back(mul(q, sw_perm(p.m.back()))); for (auto &x : p.calls) lh.push_back(mul(q, sw_perm(x))); go(id(p.n)); }
  void go(P const &r) {
    if (++nodes > cap) { over = true; return; } size_t len = c.size() * p.m.size() * H.size();
    if (!c.empty() && H.count(r)) { if (len >= p.lo && len <= p.hi && (p.mut || order(r) == (int)H.size())) out.push_back(c); return; }
    if (len >= p.hi) return; std::vector<P> added; bool ok = true;
    for (auto &a : lead) { for (auto &h : H) { P x = mul(mul(h, r), a); if (!rows.insert(x).second) { ok = false; break; } added.push_back(x); } if (!ok) break; }
    if (ok) for (size_t k = 0; k < lh.size() && !over; ++k) { c.push_back(k); go(mul(r, lh[k])); c.pop_back(); }
    for (auto &x : added) rows.erase(x);
  }
  P end(C const &t) const { P r = id(p.n); for (int k : t) r = mul(r, lh[k]); return r; }
};
static char const *NAMES = ".bsxyz";
static std::string show(Ref const &r, C const &t, bool comma = false, std::string const &plain = "", bool named = true) {
  std::string one; auto nm = [&](int k) { return k ? named ? std::string(1, NAMES[k]) : pn(r.p.calls[k - 1]) : plain.empty() ? std::string(comma ? "p" : ".") : plain; };
  for (int k : t) one += (comma && !one.empty() ? "," : "") + nm(k); int o = order(r.end(t));
  if (comma) { std::string s = one; for (int i = 1; i < o; ++i) s += "," + one; return s; }
  return one + (o > 1 ? " x" + std::to_string(o) : "") + "  (" + std::to_string(o * t.size() * r.p.m.size()) + " changes)";
}
static C least(C const &c) { C b(c), d(c); for (size_t i = 1; i < c.size(); ++i) { std::rotate(d.begin(), d.begin() + 1, d.end()); if (d < b) b = d; } return b; }
static std::vector<std::string> args(Prob const &p, bool named = true) { std::vector<std::string> a = {"-b" + std::to_string(p.n)}; for (size_t i = 0; i < p.calls.size(); ++i) a.push_back("-C" + (named ? std::string(1, NAMES[i + 1]) + "=" : "") + pn(p.calls[i])); for (auto &x : p.parts) a.push_back("-P" + str(x)); if (p.mut) a.push_back("-m"); if (p.lo || p.hi < 1000) a.push_back("-l" + (p.lo == p.hi ? std::to_string(p.lo) : (p.lo ? std::to_string(p.lo) : "") + "-" + (p.hi < 1000 ? std::to_string(p.hi) : ""))); return a; }
static std::string name(Prob const &p) { return join(args(p), " ") + " " + txt(p.m); }
static std::vector<std::string> shown(Ref const &r, bool comma = false, std::string const &plain = "") { std::vector<std::string> v; for (auto &t : r.out) v.push_back(show(r, t, comma, plain)); std::sort(v.begin(), v.end()); return v; }
static void same(std::vector<std::string> got, std::vector<std::string> const &want, std::string const &how) { std::sort(got.begin(), got.end()); if (got == want) return; std::vector<std::string> a, b; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(a)); std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(b)); EXPECT(false, "touches", how, ": printed ", got.size(), " not ", want.size(), a.empty() ? "" : " extra " + a[0], b.empty() ? "" : " missing " + b[0]); }
static void rotations(std::vector<std::string> const &got, Ref const &r, std::string const &how) { // one of each class
  std::map<std::string, C> cls; std::set<C> want; for (auto &t : r.out) { cls[show(r, t)] = least(t); want.insert(least(t)); } std::vector<C> g; for (auto &x : got) { EXPECT(cls.count(x), "touches", how, " -r printed ", x); g.push_back(cls[x]); } std::sort(g.begin(), g.end()); EXPECT(g == std::vector<C>(want.begin(), want.end()), "rotations", how, ": printed ", g.size(), " not ", want.size()); }
static bool one(Prob const &p, size_t cap, bool rot = true) {
  Ref r(p, cap); if (r.over) return false; vf::states(r.nodes); auto a = args(p); a.push_back(txt(p.m));
  auto o = app::run("touchsearch", a); EXPECT(o.rc == 0, "status", o.rc, o.err); if (!p.calls.empty()) EXPECT(o.err.empty(), "status", o.err); same(lines(o.out), shown(r), "search"); vf::outcome(std::to_string(r.out.size()));
  if (rot && p.parts.empty()) { a.push_back("-r"); o = app::run("touchsearch", a); rotations(lines(o.out), r, "search"); }
  return true;
}
template <class F> static void methods(int n, int len, F f) { auto cs = changes(n); M m; std::function<void()> go = [&]() { if ((int)m.size() == len) { f(m); return; } for (auto &c : cs) { m.push_back(c); go(); m.pop_back(); } }; go(); }
static std::vector<M> callsets(int n, Sw const &plain, size_t k) { std::vector<M> o; std::vector<Sw> w; for (auto &c : changes(n)) if (c != plain) w.push_back(c); for (auto &a : w) { o.push_back({a}); if (k > 1) for (auto &b : w) if (a != b) o.push_back({a, b}); } return o; }
static M hunted(int n, std::vector<std::string> const &s) { M m; for (auto &x : s) { Sw c; parse_change(n, x, c); m.push_back(c); } return m; }
static std::vector<M> plain4() { // every symmetric plain method on four
  std::vector<M> v;
  for (std::string a : {"X", "34"}) for (std::string b : {"14"}) for (std::string c : {"X", "12"}) for (std::string d : {"14", "34"}) for (std::string e : {"12", "14"}) v.push_back(hunted(4, {a, b, c, d, c, b, a, e})); return v; }
VF_SECTION(short_methods) { for (int l = 1; l <= 3; ++l) methods(4, l, [&](M const &m) { for (auto &cs : callsets(4, m.back(), l < 3 ? 2 : 1)) { Prob p{4, m, cs}; p.hi = l == 1 ? 6 : l == 2 ? 10 : vf::tier(12, 18); CASE(name(p)) { one(p, 20000); } END_CASE } }); }
VF_SECTION(plain_methods) { for (auto &m : plain4()) for (auto &cs : callsets(4, m.back(), vf::tier(1, 2))) { bool tre = true; for (auto &c : cs) tre = tre && is_place(c, 0); if (!tre) continue; Prob p{4, m, cs}; CASE(name(p)) { one(p, 100000); } END_CASE } }
VF_SECTION(lengths) { auto ms = plain4(); for (size_t i = 0; i < ms.size(); i += vf::tier(4, 1)) for (size_t lo = 0; lo <= 32; lo += vf::tier(4, 1)) for (size_t hi = lo; hi <= 32; hi += vf::tier(4, 1)) { Prob p{4, ms[i], hunted(4, {ms[i].back() == hunted(4, {"14"})[0] ? "12" : "14", "1234"}), {}, lo, hi}; if (!hi) continue; CASE(name(p)) { one(p, 100000, false); } END_CASE Prob q = p; q.hi = 1000; if (lo == hi && lo) CASE(name(q)) { one(q, 100000, false); } END_CASE } }
VF_SECTION(parts) { auto ms = plain4(); ms.resize(vf::tier(4, 16)); methods(4, 2, [&](M const &m) { ms.push_back(m); }); for (auto &m : ms) for (auto &g : perms(4)) for (int mut = 0; mut < 2; ++mut) for (auto &cs : callsets(4, m.back(), 1)) { Prob p{4, m, cs, {g}, 0, m.size() == 2 ? 16u : 1000u, !!mut}; CASE(name(p)) { one(p, 20000); } END_CASE } 
  for (auto &g : perms(4)) for (auto &h : perms(4)) { if (vf::tier(1, 0) && (g[0] || h[0])) continue; Prob p{4, ms[0], hunted(4, {"14"}), {g, h}, 0, 1000, true}; CASE(name(p)) { one(p, 20000); } END_CASE } }
VF_SECTION(printing) { // every way of printing the same touches
  auto ms = plain4(); ms.resize(4); methods(4, 2, [&](M const &m) { if (m[0] != m[1]) ms.push_back(m); });
  for (auto &m : ms) for (int parts = 0; parts < 2; ++parts) for (int comma = 0; comma < 2; ++comma) for (std::string plain : {"", "P", "12"}) for (int cnt = 0; cnt < 3; ++cnt) for (int q = 0; q < 2; ++q) {
    Prob p{4, m, callsets(4, m.back(), 1)[0], parts ? std::vector<P>{{0, 2, 3, 1}} : std::vector<P>{}, 0, m.size() == 2 ? 12u : 1000u}; std::string nm = name(p) + vf::cat(" ", comma, plain, cnt, q);
    CASE(nm) { Ref r(p, 20000); if (r.over) return; vf::states(r.nodes); auto a = args(p); if (comma) a.push_back("-g"); if (!plain.empty()) { a.push_back("-p"); a.push_back(plain); } if (cnt) a.push_back(cnt == 1 ? "-c" : "--raw-count"); if (q) a.push_back("-q"); a.push_back(txt(m));
      auto o = app::run("touchsearch", a); auto got = lines(o.out); EXPECT(o.rc == 0, "status", o.rc); std::string tail = cnt == 1 ? "Found " + std::to_string(r.out.size()) + " touches" : std::to_string(r.out.size());
      if (cnt) { EXPECT(!got.empty() && got.back() == tail, "count", got.empty() ? "" : got.back(), " not ", tail); if (!got.empty()) got.pop_back(); if (!q && !got.empty() && got.back().empty()) got.pop_back(); } same(got, q ? std::vector<std::string>() : shown(r, comma, plain), "printing"); } END_CASE
  }
  CASE("unnamed call") { Prob p{4, ms[0], hunted(4, {"14"})}; p.hi = 16; if (p.m.back() == p.calls[0]) p.calls = hunted(4, {"12"}); Ref r(p, 20000); auto a = args(p, false); a.push_back(txt(p.m)); std::vector<std::string> w; for (auto &t : r.out) w.push_back(show(r, t, false, "", false)); std::sort(w.begin(), w.end()); same(lines(app::run("touchsearch", a).out), w, "unnamed"); } END_CASE
  CASE("no calls") { Prob p{4, hunted(4, {"X", "14", "X", "14", "X", "14", "X", "12"}), hunted(4, {"14"})}; Ref r(p, 20000); auto o = app::run("touchsearch", {"-b4", txt(p.m)}); EXPECT(o.rc == 0 && !o.err.empty(), "status", o.rc, o.err); same(lines(o.out), shown(r), "default calls"); } END_CASE
}
VF_SECTION(limits) { auto ms = plain4(); methods(4, 2, [&](M const &m) { ms.push_back(m); }); for (auto &m : ms) for (int lim = 1; lim <= 8; ++lim) for (int rot = 0; rot < 2; ++rot) { Prob p{4, m, callsets(4, m.back(), 1)[1], {}, 0, m.size() == 2 ? 8u : 1000u}; CASE(name(p) + vf::cat(" ", lim, rot)) {
    Ref r(p, 20000); if (r.over) return; vf::states(r.nodes); auto a = args(p); a.push_back("--limit=" + std::to_string(lim)); if (rot) a.push_back("-r"); a.push_back(txt(m)); auto got = lines(app::run("touchsearch", a).out); std::set<std::string> u(got.begin(), got.end()); auto w = shown(r); size_t n = w.size(); if (rot) { std::set<C> c; for (auto &t : r.out) c.insert(least(t)); n = c.size(); }
    EXPECT(u.size() == got.size() && got.size() == std::min<size_t>(lim, n), "limit", got.size(), " of ", n); for (auto &x : got) EXPECT(std::binary_search(w.begin(), w.end(), x), "touches", x); } END_CASE } }
VF_SECTION(filter) { // a method is passed on with one touch if there is any
  std::vector<M> ms; for (int l = 1; l <= 2; ++l) methods(4, l, [&](M const &m) { ms.push_back(m); }); for (auto &m : plain4()) ms.push_back(m);
  for (auto &call : changes(4)) for (size_t hi : {4u, 8u, 24u, 1000u}) for (size_t lo : {0u, 4u, 8u, 24u}) for (int mode = 0; mode < 4; ++mode) { if (lo > hi || (hi == 1000 && lo < 24)) continue; CASE(vf::cat(pn(call), " ", lo, "-", hi, " ", mode)) {
    std::string in; std::vector<M> use; for (auto &m : ms) { if (m.size() < 8 && hi > 8) continue; use.push_back(m); in += txt(m) + "\tpay " + std::to_string(use.size()) + "\n"; }
    Prob p0{4, ms[0], {call}, {}, lo, hi}; auto a = args(p0); a.push_back("--filter"); if (mode & 1) a.push_back("-r"); if (mode & 2) a.push_back("--limit=1"); auto o = app::run("touchsearch", a, in); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, o.err.substr(0, 100)); auto got = lines(o.out); size_t k = 0, found = 0;
    for (size_t i = 0; i < use.size(); ++i) { Prob p = p0; p.m = use[i]; Ref r(p, 200000); vf::states(r.nodes); if (r.over) return; std::string head = txt(use[i]) + "\tpay " + std::to_string(i + 1) + "\t"; bool has = k < got.size() && got[k].compare(0, head.size(), head) == 0; EXPECT(has == !r.out.empty(), "filter", txt(use[i]), has ? " passed" : " stopped"); if (has) { auto w = shown(r); EXPECT(std::binary_search(w.begin(), w.end(), got[k].substr(head.size())), "touches", got[k]); ++k; ++found; } }
    EXPECT(k == got.size(), "filter", "also printed ", k < got.size() ? got[k] : ""); a.push_back("-q"); a.push_back("-c"); o = app::run("touchsearch", a, in); EXPECT(o.out == "Found " + std::to_string(found) + " methods\n", "count", o.out); } END_CASE } }
// ---- plans: the method is settled by the lead head ---------------------
struct Plan { std::map<P, M> at; M calls; size_t lo, hi; std::vector<std::string> out; std::set<P> had; std::string c; size_t nodes = 0;
  void go(P const &lh, size_t len) { ++nodes; auto i = at.find(lh); if (i == at.end()) return; P le = lh; for (size_t k = 0; k + 1 < i->second.size(); ++k) le = mul(le, sw_perm(i->second[k])); if (had.count(lh) || had.count(le)) { if (isid(lh) && len >= lo && len <= hi) out.push_back(c + "  (" + std::to_string(len) + " changes)"); return; } if (len >= hi) return; had.insert(lh); had.insert(le); for (size_t k = 0; k < calls.size(); ++k) { c += NAMES[k + 1]; go(mul(le, sw_perm(calls[k])), len + i->second.size()); c.pop_back(); } had.erase(lh); had.erase(le); } };
VF_SECTION(plans) {
  std::vector<M> A = {hunted(4, {"X", "14", "X", "14", "X", "14", "X", "12"}), hunted(4, {"34", "14", "X", "14", "X", "14", "34", "12"}), hunted(4, {"X", "14", "12", "14", "12", "14", "X", "14"}), hunted(4, {"X", "12"})}; std::vector<P> lhs; for (auto &p : perms(3)) { P q(1, 0); for (int x : p) q.push_back(x + 1); lhs.push_back(q); }
  std::vector<int> pick(6); for (int k = 0; k < 5 * 5 * 5 * 5 * 5 * 5; ++k) { int x = k; for (auto &y : pick) { y = x % 5 - 1; x /= 5; } if (pick[0] < 0 || (vf::tier(1, 0) && k % 7)) continue; std::string nm; for (int y : pick) nm += char('0' + y + 1);
    CASE(nm) { for (int cs = 0; cs < 4; ++cs) { Plan p; std::string in; for (int i = 0; i < 6; ++i) if (pick[i] >= 0) { p.at[lhs[i]] = A[pick[i]]; in += str(lhs[i]) + " " + txt(A[pick[i]]) + "\n"; } p.calls = hunted(4, cs == 0 ? std::vector<std::string>{"12", "14"} : cs == 1 ? std::vector<std::string>{"14"} : cs == 2 ? std::vector<std::string>{"12", "1234"} : std::vector<std::string>{"12", "14", "1234"}); p.lo = k % 3 ? 0 : 12; p.hi = k % 5 ? 1000 : 26; p.go(id(4), 0); vf::states(p.nodes);
        Prob q{4, {}, p.calls, {}, p.lo, p.hi}; auto a = args(q); a.push_back("-a"); auto o = app::run("touchsearch", a, in); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, o.err.substr(0, 100)); std::sort(p.out.begin(), p.out.end()); same(lines(o.out), p.out, join(a, " ")); } } END_CASE }
}
VF_SECTION(refusals) {
  auto bad = [&](std::vector<std::string> a) { CASE(join(a, " ")) { auto o = app::run("touchsearch", a); EXPECT(o.rc == 1 && o.out.empty() && !o.err.empty(), "refused", o.rc, o.out.substr(0, 80)); vf::states(); } END_CASE };
  bad({"-b3", "-C1", "3.1"}); bad({"-b0", "-C1", "3.1"}); bad({"-b300", "-C1", "X"}); bad({"X"}); bad({"-b4", "-Cb=14"}); bad({"-b4", "-Cb=19", "X.12"}); bad({"-b4", "-Cb=14", "X.92"}); bad({"-b4", "-Cb=14", "-l8-4", "X.12"}); bad({"-b4", "-Cb=14", "-lx", "X.12"}); bad({"-b4", "-Cb=14", "-P11", "X.12"}); bad({"-b4", "-Cb=14", "-P12345", "X.12"}); bad({"-b4", "-Cb=14", "-a", "X.12"}); bad({"-b4", "--limit=x", "-C14", "X.12"});
}
VF_SECTION(plan_files) { // a line which cannot be read is reported by number and left out; tenors may be left out of a lead head
  std::vector<std::pair<std::string, int>> L = {{"1234 X.14.X.14.X.14.X.12 Bob", 1}, {"123 X.14.X.14.X.14.X.12", 1}, {"1 X.14.X.14.X.14.X.12", 1}, {"1342 X.14.X.14.X.14.X.12", 2}, {"12345 X.14.X.14.X.14.X.12", 0}, {"rubbish", 0}, {"1234", 0}, {"", 0}, {"1243 X.14.X.14.X.14.X.12", 4}, {"1324 X.14.X.14.X.14.X.12", 8}, {"132 X.14.X.14.X.14.X.12", 8}, {"1423 X.14.X.14.X.14.X.12", 16}};
  std::map<int, std::vector<int>> rows = {{1, {0, 1, 2, 3}}, {2, {0, 2, 3, 1}}, {4, {0, 1, 3, 2}}, {8, {0, 2, 1, 3}}, {16, {0, 3, 1, 2}}}; M pb = hunted(4, {"X", "14", "X", "14", "X", "14", "X", "12"});
  int k = L.size(); for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) for (int c = 0; c < k; ++c) CASE(vf::cat(a, " ", b, " ", c)) { Plan p; std::string in; std::vector<std::string> errs; int ln = 0; for (int x : {a, b, c}) { ++ln; in += L[x].first + "\n"; if (L[x].second) p.at[P(rows[L[x].second].begin(), rows[L[x].second].end())] = pb; else errs.push_back("Error reading line #" + std::to_string(ln)); }
    p.calls = hunted(4, {"14", "12"}); p.lo = 0; p.hi = 1000; p.go(id(4), 0); auto o = app::run("touchsearch", {"-b4", "-Cb=14", "-Cs=12", "-a"}, in); EXPECT(o.rc == 0, "status", o.rc, o.err); EXPECT(lines(o.err) == errs, "errors", o.err); std::sort(p.out.begin(), p.out.end()); same(lines(o.out), p.out, "plan"); vf::states(p.nodes); } END_CASE }
