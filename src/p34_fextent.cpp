// P34: fextent keeps only mutually true leads, whatever its random choices are.
#include "app.h"
#include "ref.h"
#include "refpn.h"
#include "vf.h"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <sstream>
using namespace ref;
typedef std::vector<Sw> M; typedef std::vector<std::string> V; typedef std::set<P> S;
int fextent_main(int argc, char **argv);
// ---- every random choice is made here ------------------------------------
static std::vector<int> script, arity; static size_t spos; static long ints, bools;
static int choose(int n) { if (n <= 1) return 0; if (spos == script.size()) { script.push_back(0); arity.push_back(n); } else arity[spos] = n; return script[spos++]; }
extern "C" unsigned __wrap__ZN7ringing10random_intEj(unsigned n) { ++ints; return choose(n); }
extern "C" bool __wrap__ZN7ringing11random_boolEd(double p) { ++bools; if (p <= 0) return false; if (p >= 1) return true; return choose(2); }
static bool next() { while (!script.empty() && script.back() + 1 >= arity.back()) { script.pop_back(); arity.pop_back(); } if (script.empty()) return false; ++script.back(); return true; }
static V lines(std::string const &s) { V v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
static std::string join(V const &t, char const *sep = " ") { std::string s; for (auto &x : t) s += (s.empty() ? "" : sep) + x; return s; }
static std::string exec(V const &args, std::string *err = 0) { std::vector<std::string> a = {"fextent"}; a.insert(a.end(), args.begin(), args.end()); std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(0); spos = 0; std::ostringstream o, e; std::streambuf *ob = std::cout.rdbuf(o.rdbuf()), *eb = std::cerr.rdbuf(e.rdbuf()); int rc = fextent_main(a.size(), v.data()); std::cout.rdbuf(ob); std::cerr.rdbuf(eb); if (err) *err = e.str(); EXPECT(rc == 0, "status", rc); return o.str(); }
// ---- what may be rung -----------------------------------------------------
struct Cfg { int n; std::string m; bool inc = false, prin = false, course = false, tt = false, link = false; V pe, req, calls, w; int iters = 3, loop = 1; V args() const { V a = {"-b" + std::to_string(n), "--seed=1", "-n" + std::to_string(iters), "--print-leads"}; if (inc) a.push_back("-i"); if (prin) a.push_back("-p"); if (course) a.push_back("-c"); if (tt) a.push_back("-t"); if (link) a.push_back("-k"); for (auto &x : pe) a.push_back("-P" + x); for (auto &x : req) a.push_back("-r" + x); for (auto &x : calls) a.push_back("-C" + x); for (auto &x : w) a.push_back("-W" + x); if (loop != 1) a.push_back("-l" + std::to_string(loop)); a.push_back(m); return a; } };
static P rowof(std::string const &s) { P p; for (char c : s) p.push_back(c - '1'); return p; }
struct Model {
  Cfg c; std::vector<P> lead, H; P lh, le; int courselen = 1; std::vector<S> rows; std::vector<P> rep; std::map<P, int> ix; std::vector<std::set<int>> bad; std::vector<bool> never; std::set<int> need; std::vector<double> wt; std::string error; bool skip = false;
  Model(Cfg const &c) : c(c) {
    M m; if (!parse_pn(c.n, c.m, m)) abort(); P r = id(c.n); for (auto &x : m) { lead.push_back(r); r = mul(r, sw_perm(x)); } lh = r; le = lead.back(); if (c.course) courselen = order(lh);
    { S s; P z = id(c.n); for (int j = 0; j < courselen; ++j) { for (auto &l : lead) if (!s.insert(mul(z, l)).second) skip = true; z = mul(z, lh); } if (!c.prin && lh[0]) skip = true; if (skip) return; } // false within the lead, or course: nothing is promised
    S h; std::vector<P> q(1, id(c.n)); h.insert(q[0]); while (!q.empty()) { P p = q.back(); q.pop_back(); for (auto &g : c.pe) { P y = mul(rowof(g), p); if (h.insert(y).second) q.push_back(y); } } H.assign(h.begin(), h.end());
    for (auto &p : perms(c.n)) { if (!c.prin && p[0]) continue; if (c.inc && sign(p) < 0) continue; if (c.course && p[c.n - 1] != c.n - 1) continue; if (c.tt) { bool ok = true; for (int b = 6; b < c.n; ++b) ok = ok && p[b] == b; if (!ok) continue; } if (ix.count(p)) continue; int k = rep.size(); rep.push_back(p); S all; bool self = false; for (auto &g : H) { P y = mul(g, p); ix[y] = k; P z = y; for (int j = 0; j < courselen; ++j) { for (auto &l : lead) if (!all.insert(mul(z, l)).second) self = true; z = mul(z, lh); } } rows.push_back(all); never.push_back(self); }
    bad.resize(rep.size()); for (size_t i = 0; i < rep.size(); ++i) for (size_t j = 0; j < i; ++j) { bool f = false; for (auto &x : rows[i]) if (rows[j].count(x)) { f = true; break; } if (f) { bad[i].insert(j); bad[j].insert(i); } }
    for (size_t i = 0; i < rep.size(); ++i) { double w = 1; for (auto &s : c.w) { double v = atof(s.substr(s.find('=') + 1).c_str()); char k = s[0]; bool t6 = true; for (int b = 6; b < c.n; ++b) t6 = t6 && rep[i][b] == b; if (k == 'b') w += v - 1; if (k == 'i' && sign(rep[i]) > 0) w += v; if (k == 'o' && sign(rep[i]) < 0) w += v; if (k == 't' && t6) w += v; if (k == 'f' && rep[i][c.n - 1] == c.n - 1 && rep[i][c.n - 3] == c.n - 2) w += v; } wt.push_back(w); }
    for (auto &s : c.req) { P p = rowof(s); if (c.course) for (int j = 0; j < courselen && p[c.n - 1] != c.n - 1; ++j) p = mul(p, lh); if (!ix.count(p)) { error = "required"; return; } int k = ix[p]; if (need.count(k) || never[k]) error = "required"; for (int o : need) if (bad[k].count(o)) error = "required"; need.insert(k); }
  }
  typedef std::set<int> Set;
  std::set<Set> step(std::set<Set> const &from) const { std::set<Set> to; for (auto &s : from) for (size_t i = 0; i < rep.size(); ++i) { if (never[i] || need.count(i)) { to.insert(s); continue; } double d; Set t = s; bool ok = true; if (s.count(i)) { d = -wt[i]; t.erase(i); } else { d = wt[i]; for (int j : bad[i]) if (s.count(j)) { if (need.count(j)) ok = false; d -= wt[j]; t.erase(j); } t.insert(i); } if (ok) to.insert(t); if (!ok || d < 0) to.insert(s); } return to; }
  // what the program shows for one run: the leads, and whether they can be rung together
  Set read(std::string const &out, bool &shown, std::string const &how) const {
    Set s; shown = false; size_t total = 0, given = 0; bool head = false; for (auto &l : lines(out)) { if (l.find(" leads (") != std::string::npos) { head = true; long a = 0, b = 0; sscanf(l.c_str(), "%ld leads (%ld)", &a, &b); given = a; EXPECT((size_t)b == a * lead.size(), "length", how, " ", l); continue; } size_t k = l.find(": "); if (!head || k == std::string::npos) continue; shown = true; std::string d = l.substr(k + 2, c.n); P p = rowof(d); bool ok = ix.count(p) && l.size() > k + 2 + c.n && l[k + 2 + c.n] == (sign(p) > 0 ? '+' : '-'); EXPECT(ok, "leads", how, " printed ", l); if (!ok) continue; EXPECT(s.insert(ix.at(p)).second, "leads", how, " printed twice ", l); ++total; }
    if (shown || !c.link) EXPECT(given == total * H.size() * courselen, "length", how, " says ", given, " with ", total); return s;
  }
  void judge(Set const &s, std::string const &how) const { for (int i : s) { EXPECT(!never[i], "false", how, " ", str(rep[i]), " is false with itself"); for (int j : s) if (j < i) EXPECT(!bad[i].count(j), "false", how, " ", str(rep[i]), " is false with ", str(rep[j])); } for (int i : need) EXPECT(s.count(i), "required", how, " left out ", str(rep[i])); vf::states(s.size() + 1); }
};
static std::string nameof(Cfg const &c) { return join(c.args()); }
// every run of the program, over all its random choices
static void explore(Cfg const &c, long cap = 200000) {
  Model m(c); if (m.skip) { vf::outcome("false in the lead"); return; } if (!m.error.empty()) { auto r = app::run("fextent", c.args(), "", 60); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "refused", nameof(c), " ", r.rc, " ", r.out.substr(0, 60)); vf::states(); vf::outcome("refused"); return; }
  if (m.never[m.ix.at(id(c.n))]) { auto r = app::run("fextent", c.args(), "", 60); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "conflict", r.rc); vf::states(); vf::outcome("conflict"); return; } // the first part would be false with another
  script.clear(); arity.clear(); std::set<Model::Set> got; long runs = 0; int steps = 0; do { ints = bools = 0; std::string err, out = exec(c.args(), &err); ++runs; V sc; for (int x : script) sc.push_back(std::to_string(x)); std::string how = join(sc, ","); steps = std::max(steps, (int)ints); bool shown; auto s = m.read(out, shown, how); m.judge(s, how); got.insert(s); if (err.find("ERROR") != std::string::npos) EXPECT(false, "self-check", how, " ", err); } while (runs < cap && next());
  vf::outcome(std::to_string(got.size())); if (runs >= cap) return; std::set<Model::Set> want; want.insert(m.need); for (int i = 0; i < steps; ++i) want = m.step(want); std::vector<Model::Set> x, y; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(x)); std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(y)); auto sh = [&](std::vector<Model::Set> const &v) { std::string t; if (!v.empty()) for (int i : v[0]) t += str(m.rep[i]) + " "; return t; }; EXPECT(x.empty() && y.empty(), "reached", x.size(), " sets too many, e.g. ", sh(x), "; ", y.size(), " not reached, e.g. ", sh(y), " in ", runs, " runs");
}
static V const m4 = {"&-1-1,2", "&-1-1,1", "&3.1.3,1", "&-14-34-12,12", "3.1.3.1.3.1.3.1", "&3.1,1", "&34.2.34,1", "&-34-14,12"}, m5 = {"&5.1.5.1.5,125", "&5.1.5.1.5,1", "&3.1.5.1.5,1", "&5.1.5.1.3,125", "3.1.3.1.3.1.3.1.3.1", "&345.3.5.145.5.125.5.123,1"};
VF_SECTION(minimus) {
  V pes = {"", "1342", "1324", "1243", "1432"}; for (auto &m : m4) for (auto &pe : pes) for (int inc = 0; inc < 2; ++inc) { if (inc && pe.size() && sign(rowof(pe)) < 0) continue; for (int k = 0; k < 5; ++k) { Cfg c; c.n = 4; c.m = m; c.inc = inc; if (pe.size()) c.pe.push_back(pe); if (k == 1) c.req.push_back(inc ? "1342" : "1423"); if (k == 2) { c.req.push_back("1234"); c.req.push_back(inc ? "1423" : "1324"); } if (k == 3) c.w.push_back("i=2"); if (k == 4) { c.w.push_back("base=3"); c.w.push_back("o=-2"); c.w.push_back("f=4"); } c.iters = vf::tier(2, 3); { Model t(c); if (t.rep.size() <= 3) c.iters += 2; } CASE(nameof(c)) { explore(c); } END_CASE } }
}
VF_SECTION(doubles) {
  V pes = {"", "13452", "13425", "12453", "12354", "13254"}; for (auto &m : m5) for (auto &pe : pes) for (int inc = 0; inc < 2; ++inc) { if (inc && pe.size() && sign(rowof(pe)) < 0) continue; for (int k = 0; k < 4; ++k) { Cfg c; c.n = 5; c.m = m; c.inc = inc; if (pe.size()) c.pe.push_back(pe); if (k == 1) c.req.push_back("13452"); if (k == 1 && inc) c.req[0] = "13425"; if (k == 2) { c.req.push_back("12345"); c.req.push_back("14523"); } if (k == 3) c.w.push_back("i=1"); c.iters = 2; Model t(c); if (t.rep.size() <= 8) c.iters = 3; if (t.rep.size() <= 3) c.iters = 5; if (vf::tier(0, 1) && t.rep.size() <= 12) ++c.iters; if (t.rep.size() > 12) { if (vf::tier(1, 0) && k == 3) continue; } CASE(nameof(c)) { explore(c); } END_CASE } }
}
VF_SECTION(principle) {
  for (auto s : {"3.1.3.1.3.1.3.1", "3.1", "&3.1,1", "3.1.3", "&34.12,14", "12.34"}) for (V const &pe : std::vector<V>{{}, {"2143"}, {"2341"}, {"2314"}, {"2134"}, {"2143", "3412"}}) for (int inc = 0; inc < 2; ++inc) { bool ok = true; for (auto &p : pe) if (inc && sign(rowof(p)) < 0) ok = false; if (!ok) continue; for (int k = 0; k < 2; ++k) { Cfg c; c.n = 4; c.m = s; c.inc = inc; c.prin = true; c.pe = pe; if (k) c.req.push_back("2314"); c.iters = 2; { Model t(c); if (t.rep.size() <= 6) c.iters = 3; } CASE(nameof(c)) { explore(c); } END_CASE } }
}
VF_SECTION(courses) {
  struct C { int n; char const *m; }; for (auto &x : std::vector<C>{{4, "&-1-1,2"}, {4, "&3.1.3,1"}, {5, "&5.1.5.1.5,125"}, {5, "&3.1.5.1.5,125"}, {5, "&5.1.5.1.3,125"}, {5, "&345.3.5.145.5.125.5.123,125"}, {5, "&5.1.5.1.5,1"}, {6, "&-1-1-1,2"}, {6, "&-34-14-12-36.14-12.56,12"}, {6, "&-34-14-12-16-12-16,12"}, {6, "&-34-14-12-16-34-16,12"}, {6, "&-36-14-12-36.14-12.56,12"}}) for (V const &pe : std::vector<V>{{}, {"13245"}, {"13425"}, {"134256"}, {"132456"}, {"13452"}, {"142356"}}) { if (pe.size() && (int)pe[0].size() != x.n) continue; if (pe.size() && rowof(pe[0])[x.n - 1] != x.n - 1) continue; for (int inc = 0; inc < 2; ++inc) { if (inc && pe.size() && sign(rowof(pe[0])) < 0) continue; for (int k = 0; k < 2; ++k) { Cfg c; c.n = x.n; c.m = x.m; c.course = true; c.inc = inc; c.pe = pe; if (k) c.req.push_back(x.n == 4 ? "1342" : x.n == 5 ? "13425" : "135264"); if (k && inc && sign(rowof(c.req[0])) < 0) continue; c.iters = x.n == 6 ? vf::tier(1, 2) : 2; CASE(nameof(c)) { explore(c, 40000); } END_CASE } } }
}
VF_SECTION(tenors) { // tenors-together courses of seven and eight
  struct C { int n; char const *m; }; for (auto &x : std::vector<C>{{8, "&-1-1-1-1,2"}, {8, "&-38-14-1258-36-14-58-16-78,12"}, {8, "&-34-14-12-36.14-12.56.18,12"}, {8, "&-5-4.5-5.36.4-4.5-4-1,8"}, {7, "&7.1.7.1.7.1.7,127"}}) for (V const &pe : std::vector<V>{{}, {"134256"}, {"145236"}, {"132456"}}) { V p; for (auto &s : pe) p.push_back(s + std::string("78").substr(0, x.n - 6)); M t; if (!parse_pn(x.n, x.m, t)) continue; for (int inc = 0; inc < 2; ++inc) { if (inc && p.size() && sign(rowof(p[0])) < 0) continue; Cfg c; c.n = x.n; c.m = x.m; c.course = c.tt = true; c.inc = inc; c.pe = p; c.iters = 1; CASE(nameof(c)) { explore(c, 300); } END_CASE } }
}
VF_SECTION(loops) { // with -l each run starts again
  for (auto &m : {"&-1-1,2", "&3.1,1", "&-14-34-12,12"}) for (int inc = 0; inc < 2; ++inc) for (int req = 0; req < 2; ++req) { Cfg c; c.n = 4; c.m = m; c.inc = inc; c.loop = 2; c.iters = inc ? 2 : 1; if (req) c.req.push_back("1342"); CASE(nameof(c)) { Model md(c); if (md.skip) return; script.clear(); arity.clear(); do { std::string out = exec(c.args()); V ls = lines(out), part[2]; int w = -1; long best = 0; for (auto &l : ls) { if (l.find(" leads (") != std::string::npos && l.find("highest") != std::string::npos) { ++w; long a = 0, b = 0, d = 0, e = 0; sscanf(l.c_str(), "%ld leads (%ld) [highest = %ld leads (%ld)]", &a, &b, &d, &e); best = std::max(best, a); EXPECT(d == best && e == best * (long)md.lead.size() && w < 2, "loop", l); } if (w >= 0 && w < 2) part[w].push_back(l); } EXPECT(w == 1, "loop", "runs ", w); for (auto &p : part) { bool sh; auto s = md.read(join(p, "\n"), sh, "loop"); md.judge(s, "loop"); } V q = c.args(); q[3] = "-q"; std::string o = exec(q); EXPECT(atol(o.c_str()) == best && lines(o).size() == 1, "quiet", o, " for ", best); } while (next()); vf::outcome("ok"); } END_CASE }
}
VF_SECTION(linked) { // with -k every lead is followed by another
  struct C { int n; char const *m; V calls; }; for (auto &x : std::vector<C>{{4, "&-1-1,2", {"14"}}, {4, "&-1-1,2", {"1234"}}, {4, "&3.1.3,1", {"12"}}, {4, "&-1-1,1", {"12", "1234"}}, {4, "&34.2.34,1", {"12"}}, {4, "&-14-34-12,12", {"14"}}, {5, "&5.1.5.1.5,125", {"145"}}, {5, "&5.1.5.1.5,1", {"125"}}, {5, "&3.1.5.1.5,1", {"123", "145"}}}) for (int inc = 0; inc < 2; ++inc) for (int pe = 0; pe < 3; ++pe) { Cfg c; c.n = x.n; c.m = x.m; c.calls = x.calls; c.link = true; c.inc = inc; if (pe) c.pe.push_back(x.n == 4 ? pe == 1 ? "1342" : "1324" : pe == 1 ? "13425" : "12354"); if (inc && pe && sign(rowof(c.pe[0])) < 0) continue; c.iters = x.n == 4 ? vf::tier(3, 4) : 2; CASE(nameof(c)) {
    Model m(c); if (m.skip) return; M mm; parse_pn(c.n, c.m, mm); std::vector<P> nx = {m.lh}; bool odd = false; for (auto &t : x.calls) { M ch; parse_pn(c.n, t, ch); nx.push_back(mul(m.le, sw_perm(ch[0]))); if (sign(sw_perm(ch[0])) != sign(sw_perm(mm.back()))) odd = true; } if (inc && (odd || sign(m.lh) < 0)) { if (odd) { auto r = app::run("fextent", c.args()); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "refused", r.rc); } vf::outcome("odd"); return; }
    if (m.never[m.ix.at(id(c.n))]) { vf::outcome("conflict"); return; }
    script.clear(); arity.clear(); long runs = 0, seen = 0; do { std::string out = exec(c.args()); ++runs; V sc; for (int y : script) sc.push_back(std::to_string(y)); std::string how = join(sc, ","); bool sh; auto s = m.read(out, sh, how); m.judge(s, how); if (!sh) continue; ++seen; for (int i : s) { bool ok = false; for (auto &f : nx) { int j = m.ix.at(mul(m.rep[i], f)); ok = ok || (j != i && s.count(j)); } EXPECT(ok, "linked", how, " nothing follows ", str(m.rep[i])); } } while (runs < 30000 && next()); vf::outcome(std::to_string(seen)); } END_CASE }
}
VF_SECTION(refused) {
  std::vector<V> bad = {{}, {"&-1-1,2"}, {"-b3", "&3.1,1"}, {"-b-1", "&-1-1,2"}, {"-bx", "&-1-1,2"}, {"-b99", "&-1-1,2"}, {"-b4"}, {"-b4", ""}, {"-b4", "foo"}, {"-b4", "&-9-1,2"}, {"-b4", "-p", "-c", "3.1"}, {"-b4", "-P2134", "&-1-1,2"}, {"-b4", "-P12354", "&-1-1,2"}, {"-b4", "-Px", "&-1-1,2"}, {"-b4", "-P1122", "&-1-1,2"}, {"-b4", "-i", "-P1324", "&-1-1,2"}, {"-b4", "-r2134", "&-1-1,2"}, {"-b4", "-r12354", "&-1-1,2"}, {"-b4", "-r1x", "&-1-1,2"}, {"-b4", "-i", "-r1324", "&-1-1,2"}, {"-b4", "-r1234", "-r1234", "&-1-1,2"}, {"-b4", "-t", "&-1-1,2"}, {"-b6", "-c", "-t", "&-1-1-1,2"}, {"-b8", "-t", "&-1-1-1-1,2"}, {"-b8", "-c", "-t", "-P13452678", "-P12345687", "&-1-1-1-1,2"}, {"-b4", "-Wfoo", "&-1-1,2"}, {"-b4", "-Wfoo=1", "&-1-1,2"}, {"-b4", "-Wi=x", "&-1-1,2"}, {"-b4", "-Z"}, {"-b4", "-k", "-Cx9", "&-1-1,2"}, {"-b4", "-i", "-k", "-C1234", "&-1-1,2"}};
  for (auto &a : bad) CASE(join(a)) { auto r = app::run("fextent", a, "", 20); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "refused", r.rc, r.out.substr(0, 80), r.err.substr(0, 80)); vf::states(); } END_CASE
  for (auto &m : m4) CASE("same seed " + m) { { Cfg c; c.n = 4; c.m = m; if (Model(c).skip) return; } for (int k = 1; k < vf::tier(6, 30); ++k) { V a = {"-b4", "--seed=" + std::to_string(k), "-n40", "--print-leads", m}; auto r = app::run("fextent", a), q = app::run("fextent", a); EXPECT(r.rc == 0 && q.rc == 0 && r.out == q.out && r.out.find("Started with seed " + std::to_string(k) + "\n") == 0, "seed", r.rc, r.out.substr(0, 60)); Cfg c; c.n = 4; c.m = m; Model md(c); bool sh; md.judge(md.read(r.out, sh, "seed"), "seed"); } vf::outcome("ok"); } END_CASE
}
