// P29: methodlib prints the methods it is asked for from the libraries it is given.
#include "app.h"
#include "vf.h"
#include "refpn.h"
#include <algorithm>
#include <map>
#include <set>
using namespace ref;
typedef std::vector<std::string> A;
static std::string joined(A const &v) { std::string s; for (auto &x : v) s += vf::quote(x) + " "; return s; }
static A lines(std::string const &s) { A v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
struct Me { int n; std::string name, title, code, pn, full; std::vector<Sw> m; }; // an entry of a library: code and pn as the file has them
static std::vector<Me> const &pool() { static std::vector<Me> v; if (v.empty()) {
  v = {{6, "Plain", "Plain Bob Minor", "a", "&-16-16-16", "&x.16.x.16.x.16,12", {}}, {6, "Cambridge", "Cambridge Surprise Minor", "b", "&-36-14-12-36-14-56", "&x.36.x.14.x.12.x.36.x.14.x.56,12", {}}, {6, "Kent", "Kent Treble Bob Minor", "m", "&34-34.16-12-16-12-16", "", {}}, {6, "Plainer", "Plainer Minor", "z", "+-16", "x.16", {}},
       {5, "Plain", "Plain Bob Doubles", "125z", "&5.1.5.1.5", "&5.1.5.1.5,125", {}}, {5, "Grandsire", "Grandsire Doubles", "z", "+3.1.5.1.5.1.5.1.5.1", "3.1.5.1.5.1.5.1.5.1", {}}, {4, "Plain", "Plain Bob Minimus", "a", "&-14-14", "&x.14.x.14,12", {}}, {4, "Cambridge", "Cambridge Minimus", "z", "+-14", "x.14", {}}, {8, "Plain", "Plain Bob Major", "a", "&-18-18-18-18", "&x.18.x.18.x.18.x.18,12", {}}, {8, "Little", "Little Little Bob Major", "a", "&-18-14", "&x.18.x.14,12", {}}};
  v[2] = {6, "Kent", "Kent Treble Bob Minor", "m", "&34-34.16-12-16-12-16", "&34.x.34.16.x.12.x.16.x.12.x.16,16", {}};
  for (auto &e : v) if (!parse_pn(e.n, e.full, e.m)) abort(); } return v; }
typedef std::vector<int> L; // a library: entries of the pool
static std::string file(L const &l) { std::string s; for (int i : l) { auto &e = pool()[i]; s += "* " + std::to_string(e.n) + "\n" + e.name + " " + e.code + " " + e.pn + "\n"; } return s; }
struct Ask { A libs; std::string env; bool useenv = false; int b = 0, l = 0; A titles; std::string starts, in, suf; bool readt = false, B = false, a = false, f = false, P = false, lng = false; };
struct Line { int e; std::string pay; bool haspay; };
static A args(Ask const &q) { A a; auto o = [&](char const *s, char const *l, std::string const &v) { if (q.lng) a.push_back(std::string(l) + "=" + v); else a.push_back(std::string(s) + v); }; auto f = [&](bool on, char const *s, char const *l) { if (on) a.push_back(q.lng ? l : s); };
  if (q.b) o("-b", "--bells", std::to_string(q.b)); if (q.l) o("-l", "--length", std::to_string(q.l)); for (auto &t : q.titles) o("-t", "--title", t); if (!q.starts.empty()) a.push_back("--starts-with=" + q.starts); f(q.readt, "-T", "--read-titles"); f(q.B, "-B", "--print-bells"); f(q.a, "-a", "--copy-payload"); f(q.f, "-f", "--full-title"); f(q.P, "-P", "--pn-only"); if (!q.suf.empty()) o("-S", "--method-suffixes", q.suf); for (auto &x : q.libs) a.push_back(x); return a; }
static A split(std::string const &s) { A v; size_t i = 0; for (;;) { size_t j = s.find(':', i); v.push_back(s.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) return v; i = j + 1; } }
static void ask(Ask const &q, std::set<int> const &have) {
  std::vector<Line> want; bool ok = true, ordered = true; int missing = 0; auto fits = [&](int i) { return (!q.b || pool()[i].n == q.b) && (!q.l || (int)pool()[i].m.size() == q.l); };
  auto title = [&](std::string const &t, std::string const &pay) { for (auto &s : split(q.suf)) { std::string x = s.empty() ? t : t + " " + s; for (int i : have) if (pool()[i].title == x) { bool hp = q.a || !q.suf.empty(); if (fits(i)) want.push_back({i, q.a ? pay : t, hp}); else ok = false; return; } } ++missing; ok = false; };
  if (q.readt) { for (auto l : lines(q.in)) { size_t h = l.find('#'); if (h != std::string::npos) l.erase(h); while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back(); if (l.empty()) continue; size_t t = q.a ? l.find('\t') : std::string::npos; title(l.substr(0, t), t == std::string::npos ? "" : l.substr(t + 1)); } }
  else if (!q.titles.empty()) for (auto &t : q.titles) title(t, t); else { ordered = false; for (int i : have) if (pool()[i].title.compare(0, q.starts.size(), q.starts) == 0 && fits(i)) want.push_back({i, "", false}); ok = !want.empty(); }
  if (q.a && !q.readt) return; // nothing to copy
  CASE(joined(args(q)), q.useenv ? q.env : "", vf::quote(q.in)) {
    A env; if (q.useenv) env.push_back("METHOD_LIBRARY=" + q.env); auto o = app::run("methodlib", args(q), q.in, 30, env); vf::states(want.size()); vf::outcome(std::to_string(want.size()) + o.err.substr(0, 40)); EXPECT(o.rc == (ok ? 0 : 1), "status", o.rc, " not ", ok ? 0 : 1, " ", o.err.substr(0, 80));
    A got = lines(o.out), err = lines(o.err); EXPECT(got.size() == want.size(), "count", got.size(), " not ", want.size(), " ", vf::quote(o.out.substr(0, 100))); EXPECT((int)err.size() == missing, "reports", o.err.substr(0, 100)); if (got.size() != want.size()) return;
    std::vector<char> used(want.size()); for (size_t k = 0; k < got.size(); ++k) { std::string s = got[k], b; if (q.B) { size_t c = s.find(':'); EXPECT(c != std::string::npos, "bells", s); if (c == std::string::npos) return; b = s.substr(0, c); s = s.substr(c + 1); } size_t t = s.find('\t'); EXPECT((t == std::string::npos) == q.P, "fields", got[k]); std::string rest = t == std::string::npos ? "" : s.substr(t + 1); s = s.substr(0, t);
      auto is = [&](size_t j) { auto &w = want[j]; auto &e = pool()[w.e]; std::vector<Sw> m; if (used[j] || (q.B && b != std::to_string(e.n)) || !parse_pn(e.n, s, m) || m != e.m) return false; return q.P || rest == (q.f ? e.title : w.haspay ? w.pay : e.name); };
      bool found = false; for (size_t j = 0; j < want.size() && !found; ++j) if ((!ordered || j == k) && is(j)) { used[j] = 1; found = true; } EXPECT(found, "line", "unexpected line ", vf::quote(got[k])); }
  } END_CASE
}
static std::vector<L> const LIBS = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {0}, {4, 0}, {1, 7, 9}, {2, 3, 5, 6, 8}, {0, 0, 1}};
static std::string lib(size_t k) { static std::map<size_t, std::string> m; auto &s = m[k]; if (s.empty()) s = app::put("lib" + std::string(1, 'a' + k), file(LIBS[k])); return s; }
static std::set<int> both(std::vector<size_t> const &v) { std::set<int> s; for (size_t k : v) s.insert(LIBS[k].begin(), LIBS[k].end()); return s; }
static std::vector<Ask> forms() { std::vector<Ask> v; for (int k = 0; k < 6; ++k) for (int B = 0; B < 2; ++B) { if (k > 3) continue; Ask q; q.B = B; q.a = k == 3; q.f = k == 1; q.P = k == 2; v.push_back(q); } return v; }
VF_SECTION(filters) { // every stage, length and beginning, in every form
  for (auto q : forms()) for (int b : {0, 2, 4, 5, 6, 7, 8, 12}) for (int l : {0, 1, 2, 3, 4, 8, 10, 12, 16, 24}) for (auto &s : A{"", "P", "Plain", "Plain ", "Plain Bob M", "Plain Bob Minor", "Plain Bob Minor ", "plain", "Bob", "Cambridge", "Little", "Kent Treble Bob Minor", "Z"}) for (int lng = 0; lng < 2; ++lng) { if (lng && (q.B || l)) continue; if (!vf::tier(0, 1) && q.B && b % 4) continue; if (q.a) continue; q.lng = lng; q.b = b; q.l = l; q.starts = s; q.libs = {lib(0)}; ask(q, both({0})); } }
VF_SECTION(libraries) { // the methods of all the libraries given, and of the environment's
  for (auto q : forms()) for (size_t i = 0; i < LIBS.size(); ++i) for (size_t j = 0; j <= LIBS.size(); ++j) for (int how = 0; how < 3; ++how) { if (q.a) continue; std::vector<size_t> v(1, i); q.libs = {lib(i)}; q.useenv = false; q.env.clear(); if (how == 2) { q.libs.clear(); q.useenv = true; q.env = lib(i); if (j < LIBS.size()) { q.libs.push_back(lib(j)); v.push_back(j); } } else if (j < LIBS.size()) { if (how) q.useenv = true, q.env = lib(j); else q.libs.push_back(lib(j)); v.push_back(j); } ask(q, both(v)); q.titles = {"Plain Bob Minor", "Cambridge Minimus"}; ask(q, both(v)); q.titles.clear(); } }
static A const TITLES = {"Plain Bob Minor", "Plain Bob Doubles", "Cambridge Surprise Minor", "Grandsire Doubles", "Plain", "plain bob minor", "Plain Bob Royal", "Little Little Bob Major", "Plainer Minor"};
VF_SECTION(titles) { // every pair of titles, by option and by standard input
  for (auto q : forms()) for (size_t i = 0; i < TITLES.size(); ++i) for (size_t j = 0; j <= TITLES.size(); ++j) for (int rd = 0; rd < 2; ++rd) for (size_t L : {0, 4}) for (int b : {0, 6}) { if (b && q.B) continue; q.libs = {lib(L)}; q.b = b; A t(1, TITLES[i]); if (j < TITLES.size()) t.push_back(TITLES[j]); q.readt = rd; q.in.clear(); q.titles.clear(); if (rd) for (auto &x : t) q.in += x + "\n"; else q.titles = t; ask(q, both({L})); } }
static A const SUF = {"Bob Minor", "Bob Minor:Surprise Minor", "Surprise Minor:Bob Minor", "Bob Doubles:Bob Minor:Bob Major", "Minor", ":Bob Minor", "Bob Minor:", "Bob Minor::Doubles", "Doubles:Minor", "Nothing", "Bob Doubles:Surprise Minor:Doubles:Treble Bob Minor:Minor:Bob Minor"};
VF_SECTION(suffixes) { // the first suffix with which there is a method
  for (auto q : forms()) for (auto &s : SUF) for (auto &t : A{"Plain", "Cambridge", "Plain Bob", "Grandsire", "Kent", "Plainer", "Plain Bob Minor", "None", "Little Little"}) for (auto &u : A{"", "Plain", "Grandsire", "None"}) for (int rd = 0; rd < 2; ++rd) for (int b : {0, 5}) { q.libs = {lib(0)}; q.suf = s; q.b = b; q.readt = rd; q.titles.clear(); q.in.clear(); if (rd) { q.in = t + "\n"; if (!u.empty()) q.in += u + "\n"; } else { q.titles = {t}; if (!u.empty()) q.titles.push_back(u); } ask(q, both({0})); } }
VF_SECTION(input) { // every text of a few lines
  A pool = {"Plain Bob Minor", "Plain Bob Minor\tone\ttwo", "Plain Bob Minor\t", "# comment", "", "  ", "Cambridge Surprise Minor # comment", "Cambridge Surprise Minor\tpay # x", "Grandsire Doubles  \t ", "None\tx", "Plain Bob Minor\r", "#"}; Ask q; q.libs = {lib(0)}; q.readt = true; A v; std::function<void()> go = [&]() { for (int end = 0; end < 2; ++end) { q.in.clear(); for (size_t i = 0; i < v.size(); ++i) q.in += v[i] + (end || i + 1 < v.size() ? "\n" : ""); if (q.in.empty()) continue; for (auto f : forms()) { if (f.B && !vf::tier(0, 1)) continue; f.libs = q.libs; f.readt = true; f.in = q.in; ask(f, both({0})); if (f.a && v.size() < 3) { f.suf = "Bob Minor:"; ask(f, both({0})); } } } if ((int)v.size() < vf::tier(2, 3)) for (auto &x : pool) { v.push_back(x); go(); v.pop_back(); } }; go(); }
VF_SECTION(mistakes) { std::string bad = app::put("notalib", "one two three four\n"), empty = app::put("emptylib", ""), none = app::put("nolib", "* 6\n"); for (auto &a : std::vector<A>{{}, {"-b1", lib(0)}, {"-b257", lib(0)}, {"-bx", lib(0)}, {"-tPlain Bob Minor", "-T", lib(0)}, {"-tPlain", "--starts-with=P", lib(0)}, {"-T", "--starts-with=P", lib(0)}, {"-a", "-f", lib(0)}, {"-a", "-P", lib(0)}, {"-f", "-P", lib(0)}, {"/nonexistent/lib"}, {bad}, {empty}, {none}, {lib(0), bad}, {lib(1), "/nonexistent/lib"}, {"-z", lib(0)}, {"--foo", lib(0)}}) CASE(joined(a)) { auto o = app::run("methodlib", a, "Plain Bob Minor\n"); vf::states(); EXPECT(o.rc == 1 && o.out.empty() && !o.err.empty(), "accepted", o.rc, " ", o.out.substr(0, 50)); } END_CASE }
