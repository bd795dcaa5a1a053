// P27: methsearch scores the music it is asked to, where it is asked to.
#include "app.h"
#include "refmeth.h"
#include "ms.h"
#include "refmus.h"
#include <memory>
typedef std::vector<std::string> A;
typedef long long I;
static std::string joined(A const &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
// ---- where: the rows which a block covers, with the stroke each is rung at --------------------------------
typedef std::vector<std::pair<P, int>> Block; // stroke 0 is a handstroke; the row with which a lead starts is a backstroke
struct Unc {};
static Block block(std::string const &type, P const &at, std::vector<P> const &pm) {
  int L = pm.size(), h = L / 2; Block b; if (type != "course" && type != "lead" && L % 2) throw Unc();
  auto run = [&](P r, int from, int to) { for (int i = from; i < to; ++i) { b.push_back({r, i % 2 == 0}); r = mul(r, pm[i]); } return r; };
  auto back = [&](P r, int at, int first) { for (int i = at; i > first; --i) r = mul(r, inv(pm[i - 1])); return r; };
  if (type == "course") { P r = at; int k = 0; do for (int i = 0; i < L; ++i) { b.push_back({r, k++ % 2 == 0}); r = mul(r, pm[i]); } while (r != at); if (k % 2) b[0].second = -1; } // of an odd course the row at both ends is rung at both strokes
  else if (type == "lead") run(at, 0, L); else if (type == "halflead") run(at, 0, h); else if (type == "2halflead") run(at, h, L);
  else if (type == "rhalflead") run(back(at, h - 1, 0), 0, h); else run(back(at, L - 1, h), h, L);
  return b;
}
// row expressions used here, with the rows they denote (given, not computed)
static bool heads(int n, std::string const &e, std::vector<P> &v) {
  auto row = [&](std::string s) { if (s.find('1') == std::string::npos) s = "1" + s; P r; for (char c : s) r.push_back(strchr(SYM, c) - SYM); for (int i = r.size(); i < n; ++i) r.push_back(i); return r; };
  v.clear(); if (e[0] == '{') { std::string x; for (char c : e.substr(1)) if (c == ',' || c == '}') { v.push_back(row(x)); x.clear(); } else x += c; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return true; }
  if (e[0] == '<') { size_t j = e.find('>'); P g = row(e.substr(1, j - 1)), r = id(n); P by = id(n); if (j + 1 < e.size()) by = row(e.substr(j + 2)); do { v.push_back(mul(r, by)); r = mul(r, g); } while (!isid(r)); return true; }
  v.push_back(row(e)); return true;
}
struct Item { std::string type; P at; };
struct Scorer { // the batches of a sequence of -M options
  int n; std::vector<std::pair<std::vector<Item>, std::vector<Pat>>> batches; bool bad = false;
  Scorer(int n, A const &opts) : n(n) {
    static A const types = {"course", "lead", "halflead", "2halflead", "2rhalflead", "rhalflead"}; std::vector<P> last(1, id(n)); bool in = false; // in: the batch has its patterns
    for (auto &o : opts) { size_t e = o.find('='); std::string t = o.substr(0, e); if (std::count(types.begin(), types.end(), t)) { if (batches.empty() || in) batches.emplace_back(), in = false; if (e != std::string::npos) heads(n, o.substr(e + 1), last); for (auto &r : last) batches.back().first.push_back({t, r}); }
      else { if (batches.empty()) batches.emplace_back(std::vector<Item>(1, Item{"course", id(n)}), std::vector<Pat>()); batches.back().second.push_back(pattern(n, o)); in = true; if (!batches.back().second.back().ok) bad = true; } }
    if (batches.empty()) batches.emplace_back(std::vector<Item>(1, Item{"course", id(n)}), std::vector<Pat>()); if (!in) batches.back().second.push_back(pattern(n, "<CRUs>"));
  }
  I score(std::vector<P> const &pm) const { I s = 0; for (auto &b : batches) for (auto &i : b.first) { Block rows = block(i.type, i.at, pm); for (auto &p : b.second) for (auto &r : rows) { int c = p.count(r.first); if (!c) continue; if (r.second < 0 && p.h != p.b) throw Unc(); s += I(c) * (r.second == 1 ? p.b : p.h); } } return s; }
};
// ---- worlds: lists of methods read in filter mode -------------------------------------------------
struct World { int n; std::string name, in; std::vector<std::vector<P>> ms; void add(std::vector<Sw> const &q) { std::vector<P> v; std::string s; for (auto &c : q) { v.push_back(sw_perm(c)); s += (s.empty() ? "" : ".") + pn(c); } ms.push_back(v); in += std::to_string(n) + ":" + s + "\n"; } };
static World all(int n, int L0, int L1, size_t every = 1) { World w; w.n = n; w.name = vf::cat("every method of ", n, " bells and ", L0, " to ", L1, " changes"); auto ch = changes(n); std::vector<Sw> q; size_t k = 0; std::function<void(int)> go = [&](int L) { if ((int)q.size() == L) { if (k++ % every == 0) w.add(q); return; } for (auto &c : ch) { if (places(c).size() == (size_t)n && (L < 3 || q.empty())) continue; q.push_back(c); go(L); q.pop_back(); } }; for (int L = L0; L <= L1; ++L) go(L); return w; }
static World from(W const &u, size_t every = 1) { World w; w.n = u.n; w.name = u.name(); for (size_t i = 0; i < u.all.size(); i += every) { std::vector<Sw> q; for (int c : u.all[i]) q.push_back(u.ch[c]); w.add(q); } return w; }
static World given(int n, A const &v) { World w; w.n = n; w.name = joined(v); for (auto &s : v) { std::vector<Sw> q; if (!parse_pn(n, s, q)) abort(); w.add(q); } return w; }
static World const &world(int k) { static std::map<int, std::unique_ptr<World>> m; auto &p = m[k]; if (!p) { World w; switch (k) {
  case 0: w = from(W(4, 1, 0)); break; case 1: w = all(3, 1, vf::tier(3, 4)); break; case 2: w = all(4, 3, 3); break; case 3: w = from(W(5, 1, 0, 0, "s"), vf::tier(3, 1)); break; case 4: w = from(W(4, 2, 0)); break; case 5: w = from(W(6, 1, 0, 0, "s2"), vf::tier(40, 4)); break;
  case 6: w = given(6, {"&x.16.x.16.x.16,12", "&x.34.x.16.x.12.x.16.x.12.x.16,12", "&34.x.56.16.12.x.12.16.12.x.14,12", "x.16.x.14", "&x.36.x.14.x.12.x.36.x.14.x.56,12"}); break; case 7: w = given(8, {"&x.18.x.18.x.18.x.18,12", "&x.38.x.14.x.12.58.x.36.x.14.x.58.x.16.x.78,12", "&x.38.x.14.x.1258.x.36.x.14.x.58.x.16.x.78,12", "&x.58.x.14.58.x.58.36.14.x.14.58.x.14.x.18,18", "x.18.x.18"}); break;
  case 8: w = given(7, {"&3.1.7.1.7.1.7,1", "&7.1.7.1.7.1.7,127", "3.1.7.3.1.3.1.3.7.1.3.1.3.1"}); break; case 9: w = given(5, {"&5.1.5.1.5,125", "&3.1.5.1.5,1", "3.1.5.3.1.3.1.3.5.1", "5.1.5"}); break; case 10: w = given(10, {"&x.10.x.10.x.10.x.10.x.10,12", "&x.30.x.14.x.50.x.16.x.90,12"}); break; case 11: w = given(9, {"&9.1.9.1.9.1.9.1.9,129", "&3.4.5.1.7.45.9.47.9,2"}); break; case 12: w = given(12, {"&x.1T.x.1T.x.1T.x.1T.x.1T.x.1T,12"}); break; }
  p.reset(new World(w)); } return *p; }
static A const FILT = {"-U0", "-A", "-Fx", "-I"};
static A lines1(std::string const &s) { A v; std::stringstream i(s); std::string x; while (getline(i, x)) v.push_back(x); return v; }
// the score of every method of the world
static void score(World const &w, A const &opts) {
  CASE(joined(opts), "of ", w.name) {
    Scorer s(w.n, opts); A a(FILT); for (auto &o : opts) a.push_back("-M" + o); a.push_back("-R$M"); auto o = app::run("methsearch", a, w.in, 120); vf::states(w.ms.size());
    if (s.bad) { EXPECT(o.rc == 1 && o.out.empty() && !o.err.empty(), "bad-pattern", "accepted: ", o.rc, " ", o.out.substr(0, 40)); return; }
    A got = lines1(o.out); EXPECT(o.rc == 0 && o.err.empty() && got.size() == w.ms.size(), "run", o.rc, " ", got.size(), " of ", w.ms.size(), " ", o.err.substr(0, 100)); if (got.size() != w.ms.size()) return;
    for (size_t i = 0; i < got.size(); ++i) { I want; try { want = s.score(w.ms[i]); } catch (Unc) { continue; } vf::outcome(got[i]); EXPECT(got[i] == std::to_string(want), "score", lines1(w.in)[i], " scored ", got[i], " not ", want); }
  } END_CASE
}
// ---- every pattern ----------------------------------------------------------------------------
static void patterns(int k, int len, A const &al, int shard, int of, bool where = false) { World const &w = world(k); int c = 0; std::function<void(std::string, int)> go = [&](std::string s, int d) { if (!s.empty() && c++ % of == shard) { score(w, where ? A{"lead", s} : A{s}); } if (d < len) for (auto &x : al) go(s + x, d + 1); }; go("", 0); }
VF_SECTION(patterns_1) { patterns(0, vf::tier(3, 4), {"1", "2", "4", "?", "*", "[12]", "[134]"}, 0, 2); }
VF_SECTION(patterns_2) { patterns(0, vf::tier(3, 4), {"1", "2", "4", "?", "*", "[12]", "[134]"}, 1, 2); }
VF_SECTION(patterns_3) { patterns(1, vf::tier(4, 5), {"1", "2", "3", "*", "[31]"}, 0, 1); }
VF_SECTION(patterns_4) { patterns(3, vf::tier(2, 4), {"1", "3", "5", "?", "*", "[24]"}, 0, 1, true); for (auto &s : A{"*45", "45*", "*345*", "5432", "1???5", "*5?4*", "[45][45]", "*[12][12]", "??345", "*?345", "345??", "?*?*?", "****", "*?*?*?*?*?", "*?*?*?*?*?*?", "??????", "[12345]2*", "[1][2][3][4][5]", "12345", "54321"}) score(world(3), {s}); }
VF_SECTION(named) { // the named patterns at every stage
  for (int k = 0; k < 13; ++k) { World const &w = world(k); for (auto &s : A{"rounds", "queens", "kings", "tittums", "reverse-rounds", "CRUs"}) { if (w.n < 6 && s == "CRUs") continue; score(w, {"<" + s + ">"}); score(w, {"2,-3:<" + s + ">"}); score(w, {"lead", "5:<" + s + ">"}); } for (int l = 2; l <= w.n + 1; ++l) for (auto &s : A{"", "front-", "back-"}) { if (w.n > 7 && l > 5 && l < w.n) continue; std::string r = "<" + s + std::to_string(l) + "-runs>"; score(w, {r}); score(w, {"1,10:" + r}); } } }
// ---- scores ------------------------------------------------------------------------------
VF_SECTION(scores) { // what a match is worth, by its stroke, alone and together
  A sc = {"", "1:", "0:", "7:", "-4:", "+3:", "10,100:", "0,1:", "1,0:", "-1,1:", "+2,-5:", "100000,-1:", "007:"}, ps = {"1*", "*4", "?2*", "*", "<3-runs>"}; for (int k : {0, 2, 3, 4}) { World const &w = world(k); for (auto &a : sc) for (auto &p : ps) { score(w, {a + p}); if (vf::tier(int(k == 0), 1)) for (auto &b : sc) for (auto &q : A{"1*", "*21", "<rounds>"}) if (vf::tier(int(b.size() < 4), 1)) score(w, {a + p, b + q}); } } }
// ---- every sequence of options ----------------------------------------------------------------
static void sequences(int k, A const &al, int len, int shard, int of) { World const &w = world(k); A v; int c = 0; std::function<void()> go = [&]() { if (c++ % of == shard) score(w, v); if ((int)v.size() < len) for (auto &x : al) { v.push_back(x); go(); v.pop_back(); } }; go(); }
static A const TOK = {"1,0:*4", "2:<3-runs>", "0,5:1*", "lead", "lead=2143", "halflead=342", "2halflead", "2rhalflead=4231", "rhalflead", "course={2143,1342}", "rhalflead=<342>*2143", "course"};
VF_SECTION(sequences_1) { sequences(0, TOK, vf::tier(3, 4), 0, 6); }
VF_SECTION(sequences_2) { sequences(0, TOK, vf::tier(3, 4), 1, 6); }
VF_SECTION(sequences_3) { sequences(0, TOK, vf::tier(3, 4), 2, 6); }
VF_SECTION(sequences_4) { sequences(0, TOK, vf::tier(3, 4), 3, 6); }
VF_SECTION(sequences_5) { sequences(0, TOK, vf::tier(3, 4), 4, 6); }
VF_SECTION(sequences_6) { sequences(0, TOK, vf::tier(3, 4), 5, 6); }
VF_SECTION(crus) { for (int k : {5, 6, 7, 8, 10, 11, 12}) { World const &w = world(k); score(w, {}); for (auto &t : A{"lead", "halflead", "2halflead", "course", "2rhalflead", "rhalflead", "lead=<34562>", "course=13254", "2rhalflead={132546,124365}"}) { score(w, {t}); score(w, {t, "3,1:<CRUs>"}); score(w, {"*6", t}); score(w, {t, "5:*6", "lead=21"}); } } }
// ---- every block type from every row ------------------------------------------------------------
static void blocks(int k) { World const &w = world(k); for (auto &t : A{"course", "lead", "halflead", "2halflead", "2rhalflead", "rhalflead"}) for (auto &r : perms(w.n)) { if (w.n >= 5 && vf::tier(1, 0) && (r[0] + r[1] * 2 + r[3]) % 4) continue; std::string s = str(r); score(w, {t + "=" + s, "100,1:" + s.substr(0, 2) + "*", "10000,1000000:*" + s.substr(w.n - 2)}); } }
VF_SECTION(blocks_3) { blocks(1); }
VF_SECTION(blocks_4) { blocks(0); blocks(4); }
VF_SECTION(blocks_4a) { blocks(2); }
VF_SECTION(blocks_5) { blocks(3); blocks(9); }
// ---- where a score is used ----------------------------------------------------------------------
VF_SECTION(uses) { // in formats and expressions, of searches and filters
  World const &w = world(0); for (auto &opts : std::vector<A>{{}, {"*4"}, {"0,1:*4", "lead", "<3-runs>"}, {"-20:1*"}, {"lead=2143", "7:*"}}) { Scorer s(4, opts); std::vector<I> sc; for (auto &m : w.ms) sc.push_back(s.score(m)); A base(FILT); for (auto &o : opts) base.push_back("-M" + o);
    auto go = [&](A const &a, std::string const &want, bool any) { CASE(joined(opts), joined(a)) { A b(base); b.insert(b.end(), a.begin(), a.end()); auto o = app::run("methsearch", b, w.in, 60); A g = lines1(o.out), v = lines1(want); while (!g.empty() && g[0].empty()) g.erase(g.begin()); if (any) { std::sort(g.begin(), g.end()); std::sort(v.begin(), v.end()); } vf::states(w.ms.size()); vf::outcome(o.out); EXPECT(o.rc == 0 && g == v, "use", o.rc, " ", o.out.substr(0, 60), " not ", want.substr(0, 60), o.err.substr(0, 80)); } END_CASE };
    std::string a, b, c, d; std::map<I, int> h; for (I x : sc) { std::string t = std::to_string(x); a += "[" + std::string(t.size() < 6 ? 6 - t.size() : 0, ' ') + t + "]\n"; b += std::to_string(x * 2 + 1) + "\n"; if (x > 4) c += t + "\n"; ++h[x]; d += t + "," + t + "\n"; } for (auto &x : h) ;
    go({"-R[$6M]"}, a, false); go({"-R$[$M * 2 + 1]"}, b, false); go({"-R$M", "-Q$M > 4"}, c, false); go({"-R$M,$M"}, d, false); std::string hs; for (auto &x : h) hs += std::to_string(x.second) + " " + std::to_string(x.first) + "\n"; go({"-q", "-H$c $M"}, hs, true);
    CASE(joined(opts), "searched") { A b = {"-b4", "-U1", "-A", "-Fx"}; for (auto &o : opts) b.push_back("-M" + o); b.push_back("-R$p $M"); auto o = app::run("methsearch", b, "", 60); auto g = lines1(o.out); vf::states(g.size()); EXPECT(o.rc == 0 && g.size() == w.ms.size(), "search", o.rc, " ", g.size()); for (auto &x : g) { size_t j = x.rfind(' '); std::vector<Sw> q; if (j == std::string::npos || !parse_pn(4, x.substr(0, j), q)) { EXPECT(false, "search", x); continue; } std::vector<P> pm; for (auto &y : q) pm.push_back(sw_perm(y)); EXPECT(x.substr(j + 1) == std::to_string(s.score(pm)), "search-score", x, " not ", s.score(pm)); } } END_CASE } }
VF_SECTION(mixed) { // methods of different stages in one run; patterns and blocks which fit them all
  World const *ws[] = {&world(0), &world(5), &world(7), &world(9)}; for (auto &opts : std::vector<A>{{}, {"1*"}, {"*"}, {"<3-runs>"}, {"1,0:<rounds>"}, {"0,1:<queens>"}, {"lead=21", "<tittums>", "2*"}, {"lead", "rhalflead", "*3"}, {"halflead=32", "3:<front-3-runs>"}, {"<kings>", "course=324", "4:*1"}}) { std::string in; std::vector<I> want; for (size_t i = 0; i < 12; ++i) for (auto *w : ws) if (i < w->ms.size()) { Scorer s(w->n, opts); try { want.push_back(s.score(w->ms[i])); } catch (Unc) { continue; } in += lines1(w->in)[i] + "\n"; }
    CASE(joined(opts)) { A a(FILT); for (auto &o : opts) a.push_back("-M" + o); a.push_back("-R$M"); auto o = app::run("methsearch", a, in, 60); std::string v; for (I x : want) v += std::to_string(x) + "\n"; vf::states(want.size()); EXPECT(o.rc == 0 && o.out == v, "mixed", o.rc, " ", o.out.substr(0, 80), " not ", v.substr(0, 80), o.err.substr(0, 80)); } END_CASE } }
// ---- mistakes ----------------------------------------------------------------------------------
VF_SECTION(mistakes) { // are reported, with no score given
  for (auto &o : A{"<foo>", "<5-runs>", "<2-runs>", "<-runs>", "<front-9-runs>", "<x-runs>", "<front-runs>", "[", "[1", "1]", "5", "*5", "12345", "a", ":1", "1:2:3", "1,2,3:1", "<CRUs", "CRUs>", "lead=", "lead=5", "lead=1122", "lead=x", "course=12354", "halflead=<", "2halflead={", "rhalflead=13*", "2rhalflead=(", "lead:1", "leads", "Lead", "course 1", "1*234 5"}) CASE("-M", o) { auto r = app::run("methsearch", {"-b4", "-U1", "-R$M", "-M" + o}); vf::states(); vf::outcome(r.err); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "accepted", r.rc, " ", r.out.substr(0, 60), r.err.substr(0, 80)); auto q = app::run("methsearch", {"-b4", "-U1", "-R$M", "-M*", "-M" + o, "-Mlead"}); EXPECT(q.rc == 1 && q.out.empty(), "accepted", q.rc); } END_CASE
  for (auto &o : A{"<foo>", "<7-runs>", "[", "5", "2:12", "x", "12345", "<"}) CASE("--row-match=2=", o) { auto r = app::run("methsearch", {"-b4", "-U1", "--row-match=2=" + o}); vf::states(); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "row-match", r.rc, " ", r.out.substr(0, 60)); } END_CASE
  for (auto &o : A{"lead", "rhalflead=1", "course=1234", "1:4*", "12*", "1234", "<3-runs>", "<4-runs>", "<front-3-runs>", "+1:1", "-1:1", "-1,+1:1", "lead={1,2143}", "lead=2143*1342", "lead=2143^2", "2halflead=<342>", "lead={1,2143}-{1}"}) CASE("-M", o) { auto r = app::run("methsearch", {"-b4", "-U1", "-R$M", "-M" + o}); vf::states(); EXPECT(r.rc == 0 && r.err.empty() && !r.out.empty(), "refused", r.rc, " ", r.err.substr(0, 80)); } END_CASE
}
