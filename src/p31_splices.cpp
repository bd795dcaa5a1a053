// P31: splices finds the splices between methods, and only those.
#include "app.h"
#include "ref.h"
#include "refpn.h"
#include "vf.h"
#include <algorithm>
using namespace ref;
typedef std::vector<Sw> M; typedef std::set<P> S; typedef std::vector<std::string> V;
static std::string txt(M const &m) { std::string s; for (auto &c : m) s += (s.empty() ? "" : ".") + pn(c); return s; }
static V lines(std::string const &s) { V v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
static std::string join(V const &t, char const *sep = " ") { std::string s; for (auto &x : t) s += (s.empty() ? "" : sep) + x; return s; }
static void same(V got, V want, std::string const &cat, std::string const &how) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); V a, b; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(a)); std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(b)); EXPECT(got == want, cat, how, ": also printed ", a.size(), " e.g. ", a.empty() ? "" : a[0], "; did not print ", b.size(), " e.g. ", b.empty() ? "" : b[0]); }
struct Meth { std::string name; M m; std::vector<P> rows, half; };
static Meth meth(int n, M const &m, std::string const &name) { Meth x; x.name = name; x.m = m; P r = id(n); for (size_t i = 0; i < m.size(); ++i) { x.rows.push_back(r); if (i < m.size() / 2) x.half.push_back(r); r = mul(r, sw_perm(m[i])); } return x; }
static S const &closure(S const &gens, int n) { static std::map<std::pair<int, S>, S> memo; auto k = std::make_pair(n, gens); auto f = memo.find(k); if (f != memo.end()) return f->second; S s; std::vector<P> q(1, id(n)); s.insert(q[0]); while (!q.empty()) { P p = q.back(); q.pop_back(); for (auto &g : gens) { P r = mul(p, g); if (s.insert(r).second) q.push_back(r); } } return memo[k] = s; }
enum { I = 1, O = 2, HL = 4 };
// f such that a lead of B begun at f shares a row with the first lead of A
static S falseness(std::vector<P> const &A, std::vector<P> const &B, int fl) { S s; for (auto &a : A) for (auto &b : B) { P f = mul(a, inv(b)); if (f[0]) continue; int g = sign(f); if ((fl & I) && g < 0) continue; if ((fl & O) && g > 0) continue; s.insert(f); } return s; }
static S const &spgroup(S const &f, int fl, int n) { if (!(fl & O)) return closure(f, n); S g; for (auto &a : f) for (auto &b : f) g.insert(mul(a, inv(b))); return closure(g, n); }
static std::string desc(S const &g, int n) {
  std::string d = std::to_string(g.size() / 2) + "-lead"; size_t z = g.size(), f2 = fact(n - 3), f1 = fact(n - 2); if (z <= 2) return d;
  if (z == f1 || 2 * z == f1) for (int b = 1; b < n; ++b) { bool ok = true; for (auto &p : g) ok = ok && p[b] == b; if (ok) { d += " (pivot: " + sym(b) + ")"; break; } }
  if (z == f2 || 2 * z == f2) { bool done = false; for (int b = 1; b < n && !done; ++b) for (int c = b + 1; c < n && !done; ++c) { bool ok = true; for (auto &p : g) ok = ok && ((p[b] == b && p[c] == c) || (p[b] == c && p[c] == b)); if (ok) { d += " (swaps: " + sym(b) + "&" + sym(c) + ")"; done = true; } } }
  return d;
}
// with -o the group differs (by a conjugation) with which of the two methods it is for
static std::string bare(std::string const &d) { return d.substr(0, d.find(" (")); }
struct Opt { int fl = 0, l = -1; bool n = false, e = false, g = false, filt = false; std::string str() const { std::string s; if (fl & I) s += "i"; if (fl & O) s += "o"; if (fl & HL) s += "h"; if (n) s += "n"; if (e) s += "e"; if (g) s += "g"; if (filt) s += "I"; return (s.empty() ? "" : "-" + s) + (l >= 0 ? " -l" + std::to_string(l) : ""); } V args(int n) const { V a = {"-b" + std::to_string(n)}; if (fl & I) a.push_back("-i"); if (fl & O) a.push_back("-o"); if (fl & HL) a.push_back("-h"); if (this->n) a.push_back("-n"); if (e) a.push_back("-e"); if (g) a.push_back("-g"); if (filt) a.push_back("-I"); if (l >= 0) a.push_back("-l" + std::to_string(l)); return a; } };
// what the splice between two methods is called, or nothing if it is not shown
static std::string splice(int n, std::vector<P> const &a, std::vector<P> const &b, Opt const &o, bool store = false) {
  S f = falseness(a, b, o.fl); S const &g = spgroup(f, o.fl, n); size_t mx = fact(n - 1); if (o.fl & (I | O)) mx /= 2; vf::states();
  if (!o.n && g.size() == mx) return ""; if (o.l >= 0 && g.size() != 2u * o.l && !(store && g.size() == 2)) return ""; return desc(g, n);
}
static std::string shw(std::string const &d, Opt const &o) { return o.fl & O ? bare(d) : d; }
static std::vector<P> const &rows(Meth const &m, Opt const &o) { return o.fl & HL ? m.half : m.rows; }
static std::string two(Meth const &a, Meth const &b, Opt const &o, int n, bool store = false) { if (!o.g && o.e && !(a.m.back() == b.m.back())) return ""; return splice(n, rows(a, o), rows(b, o), o, store); }
static std::string input(std::vector<Meth> const &v) { std::string s; for (auto &m : v) s += txt(m.m) + "\t" + m.name + "\n"; return s; }
static bool before(std::string const &x, std::string const &y) { bool a = isdigit(x[0]), b = isdigit(y[0]); if (a && b) { int p = atoi(x.c_str()), q = atoi(y.c_str()); if (p != q) return p < q; } else if (a != b) return a; return x < y; }
// every pair of methods from standard input
static V all(std::vector<Meth> const &v, Opt const &o, int n, bool byname = true) {
  V out; std::vector<std::pair<std::string, std::set<int>>> t; auto lead = [&](int i) { std::set<int> r; for (auto &x : t) if (x.first == "1-lead" && x.second.count(i)) { for (int k : x.second) if (v[k].m.back() == v[i].m.back()) r.insert(k); } if (r.size() == 1) r.clear(); return r; };
  for (int i = 0; i < (int)v.size(); ++i) {
    bool ls = false; for (int j = 0; j < i; ++j) { std::string d = two(v[i], v[j], o, n, o.g); if (d.empty()) continue; if (d == "1-lead") ls = true;
      if (!o.g) { if (!o.filt) out.push_back(std::min(v[i].name, v[j].name) + " / " + std::max(v[i].name, v[j].name) + "\t" + shw(d, o)); continue; }
      std::set<int> s = {i, j}; for (size_t k = 0; k < t.size();) if (t[k].first == d && (t[k].second.count(i) || t[k].second.count(j))) { s.insert(t[k].second.begin(), t[k].second.end()); t.erase(t.begin() + k); } else ++k; t.push_back({d, s}); }
    if (o.filt && !ls) out.push_back(v[i].name);
  }
  if (!o.g) return out;
  auto set = [&](std::set<int> const &s) { std::vector<int> k(s.begin(), s.end()); auto lt = [&](int a, int b) { return before(v[a].name, v[b].name); }; std::sort(k.begin(), k.end(), lt); std::set<int> done; V r; for (int i : k) { if (done.count(i)) continue; auto l = lead(i); if (l.empty()) { r.push_back(v[i].name); continue; } std::vector<int> q(l.begin(), l.end()); std::sort(q.begin(), q.end(), lt); V w; for (int x : q) { w.push_back(v[x].name); done.insert(x); } r.push_back("[" + join(w, ", ") + "]"); } return join(r, ", "); };
  for (auto &x : t) { if (o.l > 1 && x.first == "1-lead") continue; if (!o.e) { out.push_back(set(x.second) + "\t" + x.first); continue; }
    M m0 = v[*x.second.begin()].m; m0.pop_back(); bool just = true; std::map<Sw, std::set<int>> by; for (int i : x.second) { M m = v[i].m; m.pop_back(); just = just && m == m0; by[v[i].m.back()].insert(i); } if (just) continue; V p; for (auto &b : by) p.push_back(set(b.second)); std::sort(p.begin(), p.end()); out.push_back(join(p, " / ") + "\t" + x.first); }
  return out;
}
static V tidy(V const &g, Opt const &o, std::vector<Meth> const &v, int n, std::string const &how) { // the order of the pair, or of the lead ends, is not promised
  V r; for (auto &l : g) { size_t t = l.find('\t'); if (o.filt) { M m; bool ok = t != std::string::npos && parse_pn(n, l.substr(0, t), m); std::string nm = t == std::string::npos ? "" : l.substr(t + 1); bool hit = false; for (auto &x : v) if (x.name == nm && ok && x.m == m) hit = true; EXPECT(hit, "filter", how, " printed ", l); r.push_back(nm); continue; }
    std::string a = l.substr(0, t), d = t == std::string::npos ? "" : l.substr(t); if (o.fl & O) d = bare(d); V p; size_t i = 0, j; while ((j = a.find(" / ", i)) != std::string::npos) { p.push_back(a.substr(i, j - i)); i = j + 3; } p.push_back(a.substr(i)); std::sort(p.begin(), p.end()); r.push_back(join(p, " / ") + d); }
  return r;
}
static void run(std::vector<Meth> const &v, Opt const &o, int n) { auto a = o.args(n); auto r = app::run("splices", a, input(v), 100); std::string how = join(a); EXPECT(r.rc == 0 && r.err.empty(), "status", how, " ", r.rc, r.err.substr(0, 80)); V w = all(v, o, n); same(tidy(lines(r.out), o, v, n, how), w, o.filt ? "filter" : o.g ? "groups" : "pairs", how); vf::outcome(std::to_string(w.size())); }
static std::string nm(int i) { std::string s; for (int k = 0; k < 3; ++k) { s = char('a' + i % 26) + s; i /= 26; } s[0] = toupper(s[0]); return s; }
// changes on n bells in which the treble goes from a to b
static std::vector<Sw> moves(int n, int a, int b) { std::vector<Sw> v; for (auto &c : changes(n)) if (sw_perm(c)[a] == b) v.push_back(c); return v; }
static std::vector<M> palindromes(int n) { std::vector<M> v(1); for (int i = 0; i <= n; ++i) { auto c = i < n - 1 ? moves(n, i, i + 1) : i == n - 1 ? moves(n, n - 1, n - 1) : moves(n, 0, 0); std::vector<M> w; for (auto &m : v) for (auto &x : c) { bool none = places(x).size() == (size_t)n; if (none) continue; M y = m; if (i == n) for (int k = n - 2; k >= 0; --k) y.push_back(m[k]); y.push_back(x); w.push_back(y); } v = w; } return v; }
static M pm(int n, std::string const &s) { M m; if (!parse_pn(n, s, m)) abort(); return m; }
static std::vector<Meth> minor() { char const *t[] = {"&-1-1-1,2", "&-1-1-1,1", "&-1-1-3,2", "&-34-1-1,2", "&34-34.1-2-1.34-1,2", "&-34-14-12-16-12-16,12", "&34-34.16-12-16-12-16,12", "&-34-14-12-36.14-12.56,12", "&-34-14-12-36.14-12.36,12", "&-34-14-12-16-34-16,12", "&-34-14-12-16-34-16,16", "&-36-14-12-36.14-12.56,12", "&-34-1456-12-36-34-56,12", "&34-34.14-12-16.34-34.16,12", "&-36-14-12-36-14-16,16", "&-36-14-12-36-14-56,16", "&-1-1-12,1", "&-1-1-12,2", "&3-3.1-1,2", "&-3-1-2,2"}; std::vector<Meth> v; int i = 0; for (auto s : t) v.push_back(meth(6, pm(6, s), nm(i++))); return v; }
static std::vector<Opt> options() { std::vector<Opt> v; for (int k = 0; k < 6; ++k) for (int e = 0; e < 2; ++e) { Opt o; o.fl = k == 1 ? I : k == 2 ? HL : k == 3 ? O : k == 4 ? HL | I : k == 5 ? HL | O : 0; o.e = e; v.push_back(o); o.n = true; v.push_back(o); o.n = false; for (int l : {1, 2, 3, 6}) { o.l = l; v.push_back(o); o.g = true; if (!(o.fl & O)) v.push_back(o); o.g = false; } o.l = -1; o.g = true; if (!(o.fl & O)) v.push_back(o); o.g = false; o.filt = true; v.push_back(o); } return v; }
static std::vector<Meth> name(int n, std::vector<M> const &v, size_t step = 1, size_t off = 0) { std::vector<Meth> r; for (size_t i = off; i < v.size(); i += step) r.push_back(meth(n, v[i], nm(i))); return r; }
VF_SECTION(minimus) { auto v = name(4, palindromes(4)); for (auto &o : options()) CASE("4 " + o.str()) { run(v, o, 4); } END_CASE }
VF_SECTION(doubles) { auto p = palindromes(5); auto os = options(); size_t step = vf::tier<size_t>(31, 13); for (size_t k = 0; k < step; ++k) for (size_t i = 0; i < os.size(); ++i) { if (vf::tier(1, 0) && (i + k) % 3) continue; auto &o = os[i]; CASE("5 every " + std::to_string(step) + "th from " + std::to_string(k) + " " + o.str()) { run(name(5, p, step, k), o, 5); } END_CASE } }
VF_SECTION(minor) { for (auto &o : options()) CASE("6 " + o.str()) { run(minor(), o, 6); } END_CASE
  for (auto &o : options()) { if (!o.g && !o.filt) continue; CASE("numbered " + o.str()) { auto v = minor(); for (size_t i = 0; i < v.size(); ++i) v[i].name = i % 3 == 0 ? std::to_string(23 - i) : i % 3 == 1 ? std::to_string(i / 2 + 3) + nm(i) : nm(20 - i); run(v, o, 6); } END_CASE } }
// ---- one method on the command line, or two ----------------------------
VF_SECTION(against) { // one method and those on standard input
  for (int n : {4, 5, 6}) { auto v = n == 6 ? minor() : name(n, palindromes(n), n == 5 ? vf::tier(37, 7) : 1); size_t every = vf::tier<size_t>(n == 6 ? 4 : 3, 1); for (size_t k = 0; k < v.size(); k += every) for (int oi = 0; oi < 10; ++oi) { Opt o; if (oi == 1) o.fl = I; if (oi == 2) o.fl = HL; if (oi == 3) o.n = true; if (oi == 4) o.e = true; if (oi == 5) o.l = n == 6 ? 6 : 3; if (oi >= 6) o.filt = true; if (oi == 7) o.l = n == 5 ? 1 : 2; if (oi == 8) o.n = true; if (oi == 9) o.e = true;
      CASE(std::to_string(n) + " " + txt(v[k].m) + " " + o.str()) { auto a = o.args(n); a.push_back(txt(v[k].m)); auto r = app::run("splices", a, input(v), 60); EXPECT(r.rc == 0 && r.err.empty(), "status", r.rc, r.err.substr(0, 80)); V w; for (size_t j = 0; j < v.size(); ++j) if (j != k) { std::string d = two(v[j], v[k], o, n); if (!d.empty()) w.push_back(o.filt ? v[j].name : v[j].name + "\t" + shw(d, o)); } same(tidy(lines(r.out), o, v, n, "against"), w, o.filt ? "filter" : "pairs", "against"); vf::outcome(std::to_string(w.size())); } END_CASE } } }
VF_SECTION(pair) { // two on the command line: the falseness, the group, and their notation
  for (int n : {4, 5, 6}) { auto v = n == 6 ? minor() : name(n, palindromes(n), n == 5 ? vf::tier(53, 17) : vf::tier(2, 1)); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) { if (i == j) continue; for (int fl : {0, (int)I, (int)O, (int)HL, HL | I}) { if (vf::tier(1, 0) && (i + 2 * j + fl) % 5) continue; Opt o; o.fl = fl; CASE(std::to_string(n) + " " + txt(v[i].m) + " " + txt(v[j].m) + " " + o.str()) {
        S f = falseness(rows(v[j], o), rows(v[i], o), fl), fi; for (auto &x : f) fi.insert(inv(x)); auto a = o.args(n); a.push_back(txt(v[i].m)); a.push_back(txt(v[j].m)); auto read = [&](char const *opt) { auto b = a; b.push_back(opt); auto r = app::run("splices", b); EXPECT(r.rc == 0 && r.err.empty(), "status", opt, r.rc, r.err.substr(0, 80)); return lines(r.out); }; auto shown = [&](S const &s) { V w; for (auto &p : s) w.push_back(str(p)); std::sort(w.begin(), w.end()); return w; };
        V g = read("-F"); std::sort(g.begin(), g.end()); EXPECT(g == shown(f) || g == shown(fi), "falseness", "printed ", g.size(), " rows, not ", f.size()); { V h = read("-G"); std::sort(h.begin(), h.end()); EXPECT(h == shown(spgroup(f, fl, n)) || h == shown(spgroup(fi, fl, n)), "group", "printed ", h.size(), " rows"); }
        V p = read("-p"); std::string d = shw(two(v[j], v[i], o, n), o); EXPECT(p.size() == !d.empty(), "pair", "lines ", p.size()); if (p.size() == 1) { size_t t = p[0].find('\t'), s = p[0].find(" / "); M x, y; bool ok = t != std::string::npos && s < t && parse_pn(n, p[0].substr(0, s), x) && parse_pn(n, p[0].substr(s + 3, t - s - 3), y); std::string sd = t == std::string::npos ? "" : p[0].substr(t + 1); if (fl & O) sd = bare(sd); EXPECT(ok && sd == d && ((x == v[i].m && y == v[j].m) || (x == v[j].m && y == v[i].m)), "pair", p[0], " for ", d); } vf::outcome(d); } END_CASE } } } }
VF_SECTION(rows) { // the rows of a method, from a file or standard input
  for (int n : {4, 5, 6}) { auto v = n == 6 ? minor() : name(n, palindromes(n), n == 5 ? 37 : 3); for (size_t i = 0; i < v.size(); ++i) for (int k = 0; k < 4; ++k) { Opt o; if (k == 1) o.fl = I; if (k == 2) o.n = true; if (k == 3) o.filt = true; CASE(std::to_string(n) + " " + txt(v[i].m) + " " + o.str()) { std::vector<P> b; for (size_t j = 0; j < v[i].rows.size(); ++j) if (j % 3 != 1 || k % 2) b.push_back(v[i].rows[j]); std::string in; for (auto &p : b) in += str(p) + "\n"; std::string f = app::put("rows", in); auto a = o.args(n); a.push_back("--rows-file=" + f); auto r = app::run("splices", a, input(v)); EXPECT(r.rc == 0 && r.err.empty(), "status", r.rc, r.err.substr(0, 80)); V g, w; for (auto &x : v) { std::string d = splice(n, rows(x, o), b, o); if (!d.empty()) w.push_back(o.filt ? x.name : x.name + "\t" + shw(d, o)); } for (auto &l : tidy(lines(r.out), o, v, n, "rows")) { size_t t = l.find('\t'); std::string c = l.substr(0, t); while (!c.empty() && (c.back() == ' ' || c.back() == '/')) c.pop_back(); while (!c.empty() && (c[0] == ' ' || c[0] == '/')) c.erase(0, 1); g.push_back(c + (t == std::string::npos ? "" : l.substr(t))); } same(g, w, "rows", "rows-file");
        if (o.filt) return; auto c = o.args(n); c.push_back("--read-rows"); c.push_back(txt(v[0].m)); r = app::run("splices", c, in); std::string d = splice(n, rows(v[0], o), b, o); V q = lines(r.out); EXPECT(r.rc == 0 && r.err.empty() && q.size() == !d.empty() && (d.empty() || q[0].substr(q[0].find('\t') + 1) == d), "rows", "read-rows ", q.empty() ? "" : q[0], " for ", d); } END_CASE } } }
VF_SECTION(refused) {
  std::vector<V> bad = {{"&-1-1,2"}, {"-b0"}, {"-b-1"}, {"-bx"}, {"-b300"}, {"-b4", "-i", "-o"}, {"-b4", "-n", "-l3"}, {"-b4", "-g", "-n"}, {"-b4", "-g", "-G", "-1", "-2"}, {"-b4", "-g", "-F"}, {"-b4", "-F"}, {"-b4", "-G"}, {"-b4", "-F", "&-1-1,2"}, {"-b4", "-I", "-g"}, {"-b4", "-I", "-p"}, {"-b4", "-I", "-l3"}, {"-b4", "-I", "-n"}, {"-b4", "-I", "&-1-1,2", "&-1-1,1"}, {"-b4", "&-1-1,2", "&-1-1,1", "&-3-1,2"}, {"-b4", "&-9-1,2"}, {"-b4", "foo"}, {"-b4", "--read-rows", "-I"}, {"-b4", "--read-rows", "--rows-file=x"}, {"-b4", "-lx"}, {"-b4", "-Z"}, {"-b4", "--nonsense"}};
  for (auto &a : bad) CASE(join(a)) { auto r = app::run("splices", a, "&-1-1,2 A\n"); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "refused", r.rc, r.out.substr(0, 80)); vf::states(); } END_CASE
  CASE("nothing to do") { for (auto in : {"", "&-1-1,2 A\n"}) { auto r = app::run("splices", {"-b4"}, in); EXPECT(r.rc == 0 && r.out.empty() && r.err.empty(), "empty", r.rc, r.out, r.err); } vf::states(); } END_CASE
}
