// P30: psline draws the method it is given, the same in PostScript and PDF; printmethod writes its rows.
#include "app.h"
#include "vf.h"
#include "gfx.h"
#include "refpn.h"
#include <algorithm>
#include <set>
using namespace ref;
using gfx::Col;
typedef std::vector<std::string> A;
typedef std::vector<Sw> M;
static std::string joined(A const &v) { std::string s; for (auto &x : v) s += vf::quote(x) + " "; return s; }
struct Me { int n; std::string pn; M m; std::vector<P> sp; bool tb; };
static Me me(int n, std::string const &pn, bool tb = false) { Me x{n, pn, {}, {}, tb}; if (!parse_pn(n, pn, x.m)) { fprintf(stderr, "bad method %s\n", pn.c_str()); abort(); } for (auto &c : x.m) x.sp.push_back(sw_perm(c)); return x; }
static P head(Me const &m) { P p = id(m.n); for (auto &s : m.sp) p = mul(p, s); return p; }
static bool sym(Me const &m) { int L = m.m.size(); if (L % 2) return false; for (int j = 1; j < L / 2; ++j) if (m.m[(L / 2 - 1 + j) % L] != m.m[(L / 2 - 1 - j + L) % L]) return false; return true; }
// an option which draws lines: bells (or :a :h :w :v), whether only where it crosses, colour, width in points
struct Line { std::string who; bool x; Col col; double w; std::string colt, wt; };
static Col const BLUE = {{0, 0, 1}}, RED = {{1, 0, 0}}, BLACK = {{0, 0, 0}}, GREY = {{.9, .9, .9}};
struct Ask {
  std::string fmt; // "" PostScript, -e, -P
  bool land = false, nonum = false, lng = false; std::string miss, pn, title, calls, rounds, font, size, col; // miss: "" default
  std::vector<std::pair<int, int>> rules; bool norules = false; std::string pb; bool setpb = false; std::vector<Line> lines; bool nolines = false; int guide = 0; bool guidecol = false;
  int i = 0, I = 0, j = 0, J = 0, k = 0, d = 0, g = 0; bool across = false; double x = 0, y = 0, h = -1, v = -1, pw = 0, ph = 0, fw = 0, fh = 0; std::string lib, name, full; };
static std::string dec(double v) { char b[40]; snprintf(b, sizeof b, "%g", v); return b; }
static std::string pt(double v) { return dec(v) + "pt"; }
static A args(Me const &m, Ask const &q) {
  A a; auto o = [&](char const *s, char const *l, std::string const &v) { if (q.lng) a.push_back(std::string("--") + l + (v.empty() ? "" : "=" + v)); else a.push_back(std::string("-") + s + v); };
  if (q.fmt == "-e") o("e", "eps", ""); if (q.fmt == "-P") o("P", "pdf", ""); if (q.land) o("L", "landscape", ""); if (q.nonum) o("n", "no-numbers", ""); if (!q.miss.empty()) o("m", "miss-numbers", q.miss == "-" ? "" : q.miss); if (!q.pn.empty()) o("p", "place-notation", q.pn == "-" ? "" : q.pn); if (!q.title.empty()) o("t", "title", q.title == "-" ? "" : q.title); if (!q.calls.empty()) o("q", "calls", q.calls); if (!q.rounds.empty()) o("R", "rounds", q.rounds); if (!q.font.empty()) o("f", "font", q.font); if (!q.size.empty()) o("s", "font-size", q.size); if (!q.col.empty()) o("c", "colour", q.col);
  if (q.norules) o("r", "rule", ""); for (auto &r : q.rules) o("r", "rule", std::to_string(r.first) + (r.second ? "," + std::to_string(r.second) : "")); if (q.setpb) o("b", "place-bells", q.pb);
  if (q.nolines) o("l", "line", ""); for (auto &l : q.lines) o("l", "line", l.who + (l.x ? "x" : "") + (l.colt.empty() ? "" : "," + l.colt) + (l.wt.empty() ? "" : "," + l.wt)); if (q.guide) o("G", "guides", std::to_string(q.guide) + (q.guidecol ? ",50-0-100,2pt" : ""));
  auto num = [&](char const *s, char const *l, int v) { if (v) o(s, l, std::to_string(v)); }; num("i", "leads-per-column", q.i); num("I", "rows-per-column", q.I); num("j", "total-leads", q.j); num("J", "total-rows", q.J); num("k", "columns-across", q.k); num("d", "columns-down", q.d); num("g", "pages", q.g); if (q.across) o("a", "across-first", "");
  if (q.x) o("x", "xspace", pt(q.x)); if (q.y) o("y", "yspace", pt(q.y)); if (q.h >= 0) o("h", "hgap", pt(q.h)); if (q.v >= 0) o("v", "vgap", pt(q.v)); if (q.pw) o("S", "paper-size", pt(q.pw) + "," + pt(q.ph)); if (q.fw) o("F", "fit", pt(q.fw) + "," + pt(q.fh));
  if (q.lib.empty()) a.push_back(std::to_string(m.n) + ":" + m.pn); else { a.push_back(q.lib); a.push_back(q.name); } return a; }
struct Style { bool x; Col col; double w; };
static std::map<int, Style> lines(Me const &m, Ask const &q) {
  P lh = head(m); auto &last = m.m.back(); std::map<int, Style> r; int work = -1; for (int b = 0; b < m.n && work < 0; ++b) if (lh[b] != b && is_place(last, b)) work = b; if (work < 0) for (int b = 0; b < m.n && work < 0; ++b) if (lh[b] != b) work = b;
  if (!q.nolines && q.lines.empty()) { for (int b = 0; b < m.n; ++b) if (lh[b] == b) r[b] = {false, RED, .25}; else if (b == work) r[b] = {false, BLUE, .5}; return r; }
  std::map<std::string, Line const *> by; for (auto &l : q.lines) if (l.who[0] == ':') by[l.who] = &l; else for (char c : l.who) by[std::string(1, c)] = &l;
  for (int b = 0; b < m.n; ++b) { A keys = {ref::sym(b)}; if (lh[b] == b) keys.push_back(":h"); else { if (b == work) keys.push_back(":v"); keys.push_back(":w"); } keys.push_back(":a"); for (auto &k : keys) if (by.count(k)) { auto *l = by[k]; r[b] = {l->x, l->col, l->w}; break; } } return r; }
static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
static bool same(Col const &a, Col const &b) { for (int i = 0; i < 3; ++i) if (!near(a[i], b[i], .006)) return false; return true; }
static double const A4W = 210 * 72 / 25.4, A4H = 297 * 72 / 25.4;

// The picture: every column of rows with what stands beside it, in units of the spacing of places and rows, measured from the column's first place.
struct ET { double x, y; int al; std::string s; }; struct ES { double x1, y1, x2, y2; Col col; double w; }; struct EC { double x, y; bool fill; Col col; double r; }; struct ER { double x1, y1, x2, y2; Col col; };
struct Column { int page, c, s; std::vector<ET> t; std::vector<ES> g; std::vector<EC> o; std::vector<ER> r; };
struct Look { std::string font; Col col; std::map<int, Style> ln; int pb; };
static Look look(Me const &m, Ask const &q) { Look k; P lh = head(m); k.ln = lines(m, q); k.pb = -1; if (q.setpb && !q.pb.empty()) k.pb = tolower(q.pb[0]) == 'x' ? -1 : (int)std::string(SYM).find(q.pb); else for (int b = 0; b < m.n; ++b) if (lh[b] != b && k.ln.count(b)) { if (k.pb < 0) k.pb = b; else if (!q.setpb) { k.pb = -1; break; } }
  k.font = q.font.empty() ? "Helvetica" : q.font; k.col = BLACK; int a, b, c; if (!q.col.empty()) { if (sscanf(q.col.c_str(), "%d-%d-%d", &a, &b, &c) == 3) k.col = Col{{a / 100., b / 100., c / 100.}}; else k.col = Col{{atoi(q.col.c_str()) / 100., 0, 0}}, k.col[1] = k.col[2] = k.col[0]; } return k; }
static int total(Me const &m, Ask const &q) { int L = m.m.size(); return q.j ? q.j * L : q.J ? q.J : L * (int)order(head(m)); }
static int up(int a, int b) { return (a + b - 1) / b; }
struct Lay { int R, C, S; };
static bool fitted(Ask const &q) { return q.fw || !(q.x || q.y); }
static std::vector<Lay> layouts(Me const &m, Ask const &q) { // what the options allow
  int L = m.m.size(), T = total(m, q), g = q.g ? q.g : 1, R = q.i ? q.i * L : q.I, C = q.k, S = q.d; std::vector<Lay> v;
  if (R && C) v.push_back({R, C, S ? S : up(T, g * C * R)}); else if (R) v.push_back({R, up(T, g * std::max(S, 1) * R), std::max(S, 1)}); else if (C) v.push_back({up(T, g * C * std::max(S, 1) * L) * L, C, std::max(S, 1)}); else if (S) v.push_back({L, up(T, g * S * L), S}); else if (!fitted(q)) v.push_back({L, (int)order(head(m)), 1 << 20});
  else { int tr = up(T, g * L) * L; for (int k = 1; k * L <= tr; ++k) if (q.across) v.push_back({L, up(tr, L * k), k}); else v.push_back({k * L, up(tr, k * L), 1}); } return v; }
static std::vector<Column> columns(Me const &m, Ask const &q, Lay const &lay, Look const &lk) {
  int n = m.n, L = m.m.size(), T = total(m, q); std::vector<P> row(1, id(n)); if ((int)q.rounds.size() == n) for (int b = 0; b < n; ++b) row[0][b] = std::string(SYM).find(q.rounds[b]); for (int t = 0; t < T; ++t) row.push_back(mul(row.back(), m.sp[t % L]));
  bool symm = sym(m); std::string pn = q.pn == "-" ? "all" : q.pn.empty() ? "first" : q.pn; bool nox = pn.size() > 4 && pn.substr(pn.size() - 4) == ",nox"; if (nox) pn.resize(pn.size() - 4); std::string miss = q.miss.empty() || q.miss == "-" ? "lead" : q.miss;
  auto rules = q.rules; if (q.rules.empty() && !q.norules && !q.nonum) { if (m.tb) rules.push_back({4, 4}); else rules.push_back({L, 0}); }
  auto rule = [&](int i) { for (auto &r : rules) if (r.second ? i + 1 >= r.first && (i + 1 - r.first) % r.second == 0 : i + 1 == r.first) return true; return false; };
  auto pos = [&](P const &r, int b) { return (double)(std::find(r.begin(), r.end(), b) - r.begin()); }; auto &ln = lk.ln;
  std::vector<Column> v; int t = 0; for (int page = 0; t < T; ++page) for (int s = 0; s < lay.S && t < T; ++s) for (int c = 0; c < lay.C && t < T; ++c) { int len = std::min(lay.R, T - t); Column k{page, c, s, {}, {}, {}, {}};
    for (int u = 0; u <= len; ++u) { int at = t + u, i = at % L; P const &r = row[at]; bool all = miss == "never" || (miss == "lead" && i == 0) || (miss == "column" && (u == 0 || u == len));
      if (!q.nonum) for (int p = 0; p < n; ++p) { auto l = ln.find(r[p]); if (all || l == ln.end() || l->second.x) k.t.push_back({(double)p, (double)u, 0, ref::sym(r[p])}); }
      if (u && (pn == "all" || (pn == "first" && at <= L && (!symm || at <= (L + 1) / 2 || at == L)))) { std::string x = ref::pn(m.m[(at - 1) % L]); if (!(nox && x == "X")) k.t.push_back({-1, u - .5, 1, x}); }
      if (u < len && i == 0) { if (lk.pb >= 0 && lk.pb < n) { k.t.push_back({n + .5, (double)u, 0, std::to_string((int)pos(r, lk.pb) + 1)}); k.o.push_back({n + .5, (double)u, false, lk.col, 0}); } if (q.nonum) for (auto &l : ln) if (!l.second.x) k.o.push_back({pos(r, l.first), (double)u, true, l.second.col, l.second.w * 2}); }
      if (u && i == L - 1 && L > 1) { int lead = at / L; if (lead < (int)q.calls.size() && q.calls[lead] != ' ') k.t.push_back({n - .5, u - 1., -1, std::string("-") + q.calls[lead]}); }
      if (u < len && rule(i)) k.g.push_back({-.5, u + .5, n - .5, u + .5, lk.col, -1});
      if (u) for (auto &l : ln) { P const &o = row[at - 1]; double a = pos(o, l.first), b = pos(r, l.first); if (!l.second.x || (a != b && ln.count(r[(int)a]))) k.g.push_back({a, u - 1., b, (double)u, l.second.col, l.second.w}); } }
    Col gc = q.guidecol ? Col{{.5, 0, 1}} : GREY; if (q.guide == 1) for (int p = 0; p < n; ++p) k.g.push_back({(double)p, -.5, (double)p, len + .5, gc, q.guidecol ? 2. : .25}); if (q.guide == 2) for (int p = 0; p + 1 < n; p += 2) k.r.push_back({(double)p, -.5, p + 1., len + .5, gc});
    v.push_back(k); t += len; } return v; }
// What was drawn, and the search for where the columns stand.
struct T1 { double xl, xr, y; }; struct Drawn { std::map<std::string, std::vector<T1>> t; std::vector<gfx::Seg> g; gfx::Page const *p; size_t n = 0; };
static double ax(T1 const &t, int al) { return al < 0 ? t.xl : al > 0 ? t.xr : (t.xl + t.xr) / 2; }
struct Geo { double xs = 0, ys = 0, tol = .5; std::vector<double> X, Y; };
static bool has(Drawn const &d, ET const &e, Geo const &g, double X, double Y) { auto i = d.t.find(e.s); if (i == d.t.end()) return false; double x = X + e.x * g.xs, y = Y - e.y * g.ys; for (auto &t : i->second) if (std::fabs(ax(t, e.al) - x) <= g.tol && std::fabs(t.y - y) <= g.tol) return true; return false; }
static bool seghas(gfx::Seg const &s, ES const &e, Geo const &g, double X, double Y) { double x1 = X + e.x1 * g.xs, x2 = X + e.x2 * g.xs, y1 = Y - e.y1 * g.ys, y2 = Y - e.y2 * g.ys; auto n = [&](double a, double b) { return std::fabs(a - b) <= g.tol; }; return ((n(s.x1, x1) && n(s.y1, y1) && n(s.x2, x2) && n(s.y2, y2)) || (n(s.x1, x2) && n(s.y1, y2) && n(s.x2, x1) && n(s.y2, y1))) && same(s.col, e.col) && (e.w < 0 || near(s.w, e.w, .006)); }
static bool fits(Drawn const &d, Column const &c, Geo const &g, double X, double Y) { for (auto &e : c.t) if (!has(d, e, g, X, Y)) return false; if (c.t.empty()) for (auto &e : c.g) { bool ok = false; for (auto &s : d.g) if (seghas(s, e, g, X, Y)) { ok = true; break; } if (!ok) return false; } return true; }
// every place at which the column could stand, given the spacing
static std::vector<std::pair<double, double>> anchors(Drawn const &d, Column const &c, Geo const &g, std::function<bool(double, double)> const &want) { std::vector<std::pair<double, double>> v; auto add = [&](double X, double Y) { if (want(X, Y) && fits(d, c, g, X, Y)) v.push_back({X, Y}); };
  if (!c.t.empty()) { auto &e = c.t[0]; auto i = d.t.find(e.s); if (i != d.t.end()) for (auto &t : i->second) add(ax(t, e.al) - e.x * g.xs, t.y + e.y * g.ys); } else if (!c.g.empty()) for (auto &s : d.g) { auto &e = c.g[0]; add(s.x1 - e.x1 * g.xs, s.y1 + e.y1 * g.ys); add(s.x2 - e.x1 * g.xs, s.y2 + e.y1 * g.ys); } return v; }
static bool place(Me const &m, Ask const &q, std::vector<Drawn> const &d, std::vector<Column> const &col, Lay const &lay, Geo &g, std::string &why) {
  std::vector<Geo> hyp; Column const &c0 = col[0];
  if (q.x && q.y) { Geo h; h.xs = q.x; h.ys = q.y; hyp.push_back(h); } else { // two of the first row's and one of the last row's numbers
    std::vector<ET const *> r0, rl; double last = 0; for (auto &e : c0.t) if (e.al == 0 && e.x < m.n) { if (e.y == 0) r0.push_back(&e); last = std::max(last, e.y); } for (auto &e : c0.t) if (e.al == 0 && e.x < m.n && e.y == last) rl.push_back(&e); if (r0.size() < 2 || last == 0) { why = "no numbers to go by"; return false; }
    auto &a = *r0.front(), &b = *r0.back(), &z = *rl.front(); auto ia = d[0].t.find(a.s), ib = d[0].t.find(b.s), iz = d[0].t.find(z.s); if (ia == d[0].t.end() || ib == d[0].t.end() || iz == d[0].t.end()) { why = "number missing"; return false; }
    for (auto &p : ia->second) for (auto &r : ib->second) if (std::fabs(p.y - r.y) < .05 && ax(r, 0) > ax(p, 0)) { Geo h; h.xs = (ax(r, 0) - ax(p, 0)) / (b.x - a.x); if (q.x && !near(h.xs, q.x, .05)) continue; double X = ax(p, 0) - a.x * h.xs; for (auto &s : iz->second) if (s.y < p.y && near(ax(s, 0), X + z.x * h.xs, .1 + .05 * h.xs)) { h.ys = (p.y - s.y) / last; if (q.y && !near(h.ys, q.y, .05)) continue; Geo k = h; bool dup = false; for (auto &o : hyp) if (near(o.xs, k.xs, 1e-3) && near(o.ys, k.ys, 1e-3)) dup = true; if (!dup) hyp.push_back(k); } } }
  why = "the first column is not on the page"; int C = 0, S = 0; for (auto &c : col) { C = std::max(C, c.c + 1); if (c.page == 0) S = std::max(S, c.s + 1); }
  for (auto h : hyp) { h.tol = std::max(.06, std::min(.9, .22 * std::min(h.xs, h.ys))); for (auto &a : anchors(d[0], c0, h, [](double, double) { return true; })) { Geo k = h; k.X.assign(1, a.first); k.Y.assign(1, a.second); bool ok = true; double n = m.n;
      for (int c = 1; c < C && ok; ++c) { Column const *cc = 0; for (auto &x : col) if (x.page == 0 && x.c == c && x.s == 0) cc = &x; if (!cc) { ok = false; break; } double D = c > 1 ? k.X[1] - k.X[0] : 0; if (cc->t.empty() && cc->g.empty()) { k.X.push_back(k.X[c - 1] + (c > 1 ? D : (int)(n * k.xs) + (int)std::max(q.h, 0.))); continue; } auto v = anchors(d[0], *cc, k, [&](double X, double Y) { double s = X - k.X[c - 1]; return near(Y, k.Y[0], k.tol) && (c > 1 ? near(s, D, 1.1) : s > n * k.xs - 2.1 && (q.h < 0 || near(s, n * k.xs + q.h, 2.1))); }); if (v.empty()) { ok = false; why = "column " + std::to_string(c + 1) + " is not beside the first"; break; } if (c == 1 && v.size() > 1 && q.h < 0) std::sort(v.begin(), v.end()); k.X.push_back(v[0].first); }
      for (int s = 1; s < S && ok; ++s) { Column const *cc = 0; for (auto &x : col) if (x.page == 0 && x.c == 0 && x.s == s) cc = &x; double step = s > 1 ? k.Y[0] - k.Y[1] : 0; if (cc->t.empty() && cc->g.empty()) { k.Y.push_back(k.Y[s - 1] - (s > 1 ? step : (lay.R + 1) * k.ys + std::max(q.v, 0.))); continue; } auto v = anchors(d[0], *cc, k, [&](double X, double Y) { double dy = k.Y[s - 1] - Y; return near(X, k.X[0], k.tol) && (s > 1 ? near(dy, step, 2.1) : dy > (lay.R + 1) * k.ys - 2.1 && (q.v < 0 || near(dy, (lay.R + 1) * k.ys + q.v, 2.1))); }); if (v.empty()) { ok = false; why = "set " + std::to_string(s + 1) + " is not below the first"; break; } std::sort(v.begin(), v.end(), [](std::pair<double, double> const &a, std::pair<double, double> const &b) { return a.second > b.second; }); k.Y.push_back(v[0].second); }
      if (ok) { g = k; return true; } } }
  return false; }
static std::string at(double x, double y) { return "(" + dec(x) + "," + dec(y) + ")"; }
// every thing expected and nothing else
static bool match(std::vector<Drawn> const &d, std::vector<Column> const &col, Geo const &g, std::string &why) {
  for (size_t p = 0; p < d.size(); ++p) { std::map<std::string, std::vector<char>> used; std::vector<char> us(d[p].g.size()), uc(d[p].p->circles.size()), ur(d[p].p->rects.size()); size_t nt = 0, ng = 0, no = 0, nr = 0; std::string pg = " on page " + std::to_string(p + 1);
    for (auto &c : col) if (c.page == (int)p) { double X = g.X[c.c], Y = g.Y[c.s]; std::string cn = " in column " + std::to_string(c.c + 1) + "," + std::to_string(c.s + 1) + pg;
      for (auto &e : c.t) { auto i = d[p].t.find(e.s); bool ok = false; auto &u = used[e.s]; if (i != d[p].t.end()) { u.resize(i->second.size()); for (size_t z = 0; z < u.size() && !ok; ++z) if (!u[z] && std::fabs(ax(i->second[z], e.al) - X - e.x * g.xs) <= g.tol && std::fabs(i->second[z].y - Y + e.y * g.ys) <= g.tol) ok = u[z] = 1; } if (!ok) { why = "no " + e.s + " at " + at(e.x, e.y) + cn; return false; } ++nt; }
      for (auto &e : c.g) { bool ok = false; for (size_t z = 0; z < us.size() && !ok; ++z) if (!us[z] && seghas(d[p].g[z], e, g, X, Y)) ok = us[z] = 1; if (!ok) { why = "no line from " + at(e.x1, e.y1) + " to " + at(e.x2, e.y2) + cn; return false; } ++ng; }
      for (auto &e : c.o) { bool ok = false; for (size_t z = 0; z < uc.size() && !ok; ++z) { auto &o = d[p].p->circles[z]; if (!uc[z] && o.fill == e.fill && near(o.x, X + e.x * g.xs, g.tol) && near(o.y, Y - e.y * g.ys, g.tol) && same(o.col, e.col) && (e.r == 0 || near(o.r, e.r, .02))) ok = uc[z] = 1; } if (!ok) { why = "no circle at " + at(e.x, e.y) + cn; return false; } ++no; }
      for (auto &e : c.r) { bool ok = false; for (size_t z = 0; z < ur.size() && !ok; ++z) { auto &o = d[p].p->rects[z]; if (!ur[z] && same(o.col, e.col) && near(std::min(o.x1, o.x2), X + e.x1 * g.xs, g.tol) && near(std::max(o.x1, o.x2), X + e.x2 * g.xs, g.tol) && near(std::max(o.y1, o.y2), Y - e.y1 * g.ys, g.tol) && near(std::min(o.y1, o.y2), Y - e.y2 * g.ys, g.tol)) ok = ur[z] = 1; } if (!ok) { why = "no box at " + at(e.x1, e.y1) + cn; return false; } ++nr; } }
    if (nt != d[p].n) { why = std::to_string(d[p].n) + " pieces of text, not " + std::to_string(nt) + pg; return false; } if (ng != us.size()) { why = std::to_string(us.size()) + " lines, not " + std::to_string(ng) + pg; return false; } if (no != uc.size()) { why = std::to_string(uc.size()) + " circles, not " + std::to_string(no) + pg; return false; } if (nr != ur.size()) { why = std::to_string(ur.size()) + " boxes, not " + std::to_string(nr) + pg; return false; } }
  return true; }
#define NEED(c, cat, ...) do { bool vf_ok = (c); EXPECT(vf_ok, cat, __VA_ARGS__); if (!vf_ok) return; } while (0)
static void check(Me const &m, Ask const &q, std::string const &out) {
  gfx::Pic pic; bool eps = q.fmt == "-e", pdf = q.fmt == "-P"; std::string err; try { pic = pdf ? gfx::pdf(out) : gfx::postscript(out); } catch (std::exception &e) { err = e.what(); } NEED(err.empty(), "document", err);
  double W = q.pw ? q.pw : A4W, H = q.pw ? q.ph : A4H; if (q.land) { std::swap(W, H); if (!eps) for (auto &p : pic.pages) gfx::upright(p, pdf ? pic.w : H); } // the sheet, upright
  if (pdf) NEED(near(pic.w, q.land ? H : W, 1) && near(pic.h, q.land ? W : H, 1) && pic.dsc["Rotate"] == (q.land ? "90" : ""), "sheet", pic.w, " by ", pic.h, " rotated ", pic.dsc["Rotate"]);
  else if (eps) { double a, b, z1, z2; NEED(sscanf(pic.dsc["BoundingBox"].c_str(), "%lf %lf %lf %lf", &z1, &z2, &a, &b) == 4 && z1 == 0 && z2 == 0 && pic.dsc["Pages"] == "0" && pic.dsc["pages seen"] == "0", "eps comments", pic.dsc["BoundingBox"], " ", pic.dsc["Pages"]); W = a; H = b; }
  else NEED(pic.dsc["Pages"] == std::to_string(pic.pages.size()) && pic.dsc["pages seen"] == pic.dsc["Pages"] && pic.dsc["Orientation"] == (q.land ? "Landscape" : "Portrait"), "ps comments", pic.dsc["Pages"], " ", pic.dsc["pages seen"], " ", pic.dsc["Orientation"]);
  Look lk = look(m, q); if (pdf && lk.font != "Courier" && lk.font != "Times-Roman") lk.font = "Helvetica";
  // the title
  std::string title, tfont = "Helvetica"; double tsize = 18, tx = 0, ty = 0; Col tcol = BLACK; if (!q.title.empty()) { A f; size_t b = 0; for (;;) { size_t e = q.title.find(',', b); f.push_back(q.title.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) break; b = e + 1; } title = q.title == "-" ? "$" : f[0]; size_t p = title.find('$'); if (p != std::string::npos) title.replace(p, 1, q.full); if (f.size() > 1) tfont = f[1]; if (f.size() > 2) tsize = atof(f[2].c_str()); if (f.size() > 3) { int a, bb, c; if (sscanf(f[3].c_str(), "%d-%d-%d", &a, &bb, &c) == 3) tcol = Col{{a / 100., bb / 100., c / 100.}}; else tcol[0] = tcol[1] = tcol[2] = atoi(f[3].c_str()) / 100.; } }
  std::vector<Drawn> d(pic.pages.size()); bool titled = title.empty(); double size = 0; std::set<std::string> fonts; for (size_t p = 0; p < d.size(); ++p) { d[p].p = &pic.pages[p]; d[p].g = pic.pages[p].segs; for (auto &x : pic.pages[p].texts) { if (x.s.find_first_not_of(' ') == std::string::npos) continue; fonts.insert(x.font); if (!titled && p == 0 && x.s == title && x.font == tfont && near(x.size, tsize, .06) && same(x.col, tcol)) { titled = true; tx = (x.xl + x.xr) / 2; ty = x.y; continue; } NEED(same(x.col, lk.col) && x.font == lk.font, "style", vf::quote(x.s), " in ", x.font); bool pbs = x.s.size() > 1 && isdigit((unsigned char)x.s[0]); (void)pbs; if (!size) size = x.size; NEED(near(size, x.size, .01) && (q.size.empty() || near(size, atof(q.size.c_str()), .06)), "size", x.size); d[p].t[x.s].push_back({x.xl, x.xr, x.y + .3 * x.size}); ++d[p].n; } }
  NEED(titled, "title", "no title ", vf::quote(title)); if (!pdf) { std::string l = pic.dsc["DocumentNeededResources"]; for (auto &f : fonts) NEED((" " + l + " ").find(" " + f + " ") != std::string::npos, "fonts", f, " not in ", l); }
  // long lines are drawn row by row or all at once
  std::string why = "no layout"; bool found = false; auto split = [&](std::vector<Drawn> &e, double ys) { for (auto &p : e) { std::vector<gfx::Seg> v; for (auto &s : p.g) { double dy = std::fabs(s.y2 - s.y1); int k = (int)std::lround(dy / ys); bool guide = false; if (q.guide == 1 && std::fabs(s.x1 - s.x2) < 1e-6 && same(s.col, q.guidecol ? Col{{.5, 0, 1}} : GREY)) guide = true; if (guide || k < 2) { v.push_back(s); continue; } for (int j = 0; j < k; ++j) v.push_back({s.x1 + (s.x2 - s.x1) * j / k, s.y1 + (s.y2 - s.y1) * j / k, s.x1 + (s.x2 - s.x1) * (j + 1) / k, s.y1 + (s.y2 - s.y1) * (j + 1) / k, s.w, s.col}); } p.g = v; } }; if (q.y) split(d, q.y); auto lays = layouts(m, q); Geo g; std::vector<Column> col; Lay lay{};
  for (size_t z = 0; z < lays.size() && !found; ++z) { lay = lays[z]; int T = total(m, q); long cap = (long)lay.R * lay.C * std::min(lay.S, up(T, lay.R)); if (up(T, cap) != (int)d.size()) { if (lays.size() == 1) why = std::to_string(d.size()) + " pages, not " + std::to_string(up(T, cap)); continue; } col = columns(m, q, lay, lk); std::string w; if (!place(m, q, d, col, lay, g, w)) { if (why == "no layout" || lays.size() == 1) why = w; continue; }
    auto e = d; if (!q.y) split(e, g.ys);
    if (!match(e, col, g, w)) { if (why.compare(0, 8, "layout: ")) why = "layout: " + w; continue; } found = true; }
  NEED(found, "picture", why); vf::states(col.size());
  if (!title.empty()) { bool plain = true; for (unsigned char c : title) plain = plain && (isalnum(c) || c == 32); NEED(!plain || near(tx, W / 2, 2.6), "title", "title centred at ", tx, " not ", W / 2); NEED(ty > g.Y[0] + .4 * g.ys, "title", "title at ", ty, " below ", g.Y[0]); }
  double x1 = 1e9, x2 = -1e9, y1 = 1e9, y2 = -1e9; for (auto &p : pic.pages) { for (auto &s : p.segs) { x1 = std::min({x1, s.x1, s.x2}); x2 = std::max({x2, s.x1, s.x2}); y1 = std::min({y1, s.y1, s.y2}); y2 = std::max({y2, s.y1, s.y2}); } } for (auto &p : d) for (auto &t : p.t) for (auto &o : t.second) { x1 = std::min(x1, o.xl); x2 = std::max(x2, o.xr); y1 = std::min(y1, o.y); y2 = std::max(y2, o.y); }
  if (q.size.empty() && q.calls.empty() && (eps ? (!q.fw || !(q.x || q.y)) && m.n < 9 : fitted(q) && !(q.x || q.y))) NEED(x1 >= -2 - .3 * g.xs && y1 >= -2 && x2 <= W + 2 + .3 * g.xs && y2 <= H + 2, "bounds", at(x1, y1), " to ", at(x2, y2), " on a page of ", W, " by ", H);
}
static int const OK = 0;
static void ask(Me const &m, Ask const &q) { A a = args(m, q); CASE(joined(a)) { auto o = app::run("psline", a); bool eps = q.fmt == "-e"; auto l = layouts(m, q); bool many = eps && l.size() == 1 && total(m, q) > (long)l[0].R * l[0].C * std::min(l[0].S, up(total(m, q), l[0].R)); if (many) { EXPECT(o.rc == 1 && o.out.empty() && !o.err.empty(), "eps pages", o.rc); vf::states(); return; } if (eps && o.rc == 1 && o.out.empty() && o.err.find("only have one page") != std::string::npos && q.g > 1 && l.size() > 1) { vf::states(); vf::outcome("refused"); return; } EXPECT(o.rc == OK && o.err.empty(), "status", o.rc, " ", o.err.substr(0, 80)); vf::outcome(std::to_string(o.rc) + std::to_string(o.out.size() / 64)); if (o.rc == OK) check(m, q, o.out); } END_CASE }
static std::vector<Me> const &pool() { static std::vector<Me> v; if (v.empty()) v = {me(6, "&x.16.x.16.x.16,12"), me(5, "3.1.5.3.1.3.1.3.5.1.3.1"), me(6, "&x.36.x.14.x.12.x.36.x.14.x.56,12", true), me(4, "&x.14,12"), me(7, "3.1.7.1.7.1.7.1.7.1.7.1.7.1"), me(3, "3.1"), me(6, "x.16"), me(12, "&x.1T.x.1T,12"), me(5, "&5.1.5.1.5,125"), me(8, "x.18.x.18"), me(10, "&x.10.x.10.x.10,12"), me(4, "x"), me(5, "3"), me(8, "&x.38.x.14.x.58.x.16.x.12.x.38.x.14.x.78,12", true), me(6, "34.16.x.12.36"), me(2, "x.12")}; return v; }
static A const FMT = {"", "-P", "-e"};
static Ask fixed(std::string const &f, int R, int C, int S) { Ask q; q.fmt = f; q.x = 8; q.y = 9; q.h = 30; q.v = 11; q.I = R; q.k = C; q.d = S; return q; }
VF_SECTION(defaults) { // with nothing but the method, in every format
  for (auto &m : pool()) for (auto &f : FMT) for (int land = 0; land < 2; ++land) for (int lng = 0; lng < 2; ++lng) for (auto &mi : A{"", "-", "always", "never", "lead", "column"}) for (auto &pn : A{"", "-", "none", "all", "first", "first,nox", "all,nox"}) { Ask q; q.fmt = f; q.land = land; q.lng = lng; q.miss = mi; q.pn = pn; if (mi == "always") continue; if (lng && !vf::tier(0, 1) && (mi.size() + pn.size()) % 3) continue; ask(m, q); } }

typedef std::function<void(Ask &)> Set;
static std::vector<std::vector<Set>> const &dims() { static std::vector<std::vector<Set>> v; if (!v.empty()) return v; auto add = [&](std::vector<Set> x) { v.push_back(x); };
  auto line = [](std::string const &w, bool x, Col c, double t, std::string const &ct, std::string const &wt) { return Line{w, x, c, t, ct, wt}; }; auto L = [=](std::vector<Line> l, bool no = false) { return Set([=](Ask &q) { q.lines = l; q.nolines = no; }); }; Col HALF = {{.5, .5, .5}}, MIX = {{1, .25, 0}};
  add({[](Ask &) {}, [](Ask &q) { q.miss = "-"; }, [](Ask &q) { q.miss = "always"; }, [](Ask &q) { q.miss = "never"; }, [](Ask &q) { q.miss = "column"; }, [](Ask &q) { q.nonum = true; }});
  add({[](Ask &) {}, [](Ask &q) { q.pn = "-"; }, [](Ask &q) { q.pn = "none"; }, [](Ask &q) { q.pn = "all,nox"; }, [](Ask &q) { q.pn = "first,nox"; }});
  add({[](Ask &) {}, [](Ask &q) { q.norules = true; }, [](Ask &q) { q.rules = {{2, 6}}; }, [](Ask &q) { q.rules = {{3, 0}}; }, [](Ask &q) { q.rules = {{1, 2}, {4, 0}}; }, [](Ask &q) { q.rules = {{5, 2}}; }, [](Ask &q) { q.rules = {{1, 1}}; }, [](Ask &q) { q.rules = {{99, 0}}; }});
  add({[](Ask &) {}, [](Ask &q) { q.setpb = true; }, [](Ask &q) { q.setpb = true; q.pb = "x"; }, [](Ask &q) { q.setpb = true; q.pb = "X"; }, [](Ask &q) { q.setpb = true; q.pb = "1"; }, [](Ask &q) { q.setpb = true; q.pb = "3"; }, [](Ask &q) { q.setpb = true; q.pb = "T"; }});
  add({[](Ask &) {}, L({}, true), L({line("2", false, BLUE, .5, "", "")}), L({line("23", true, RED, .5, "100-0-0", "")}), L({line(":w", true, HALF, 2, "50", "2pt"), line(":h", false, BLUE, .5, "", "")}), L({line(":a", false, MIX, .25, "100-25-0", "1/4pt")}), L({line(":a", true, BLUE, 1.5, "0-0-100", "1.5pt")}), L({line(":w", false, BLUE, .5, "", ""), line("3", true, RED, .72, "100-0-0", "1/100in")}), L({line(":v", false, BLUE, .5, "", ""), line(":h", true, BLACK, .5, "0", "")}), L({line("1", false, BLUE, .5, "", ""), line("123", true, RED, .5, "100-0-0", "")}), L({line("2", false, RED, 72 / 25.4, "100-0-0", "1mm")}, true)});
  add({[](Ask &) {}, [](Ask &q) { q.guide = 1; }, [](Ask &q) { q.guide = 2; }, [](Ask &q) { q.guide = 1; q.guidecol = true; }, [](Ask &q) { q.guide = 2; q.guidecol = true; }});
  add({[](Ask &) {}, [](Ask &q) { q.calls = "H"; }, [](Ask &q) { q.calls = " W"; }, [](Ask &q) { q.calls = "HWB  S"; }});
  add({[](Ask &) {}, [](Ask &q) { q.rounds = "2143658709TE"; }, [](Ask &q) { q.rounds = "TE0987654321"; }, [](Ask &q) { q.rounds = "12"; }});
  add({[](Ask &) {}, [](Ask &q) { q.font = "Courier"; }, [](Ask &q) { q.font = "Times-Roman"; q.col = "0-50-100"; }, [](Ask &q) { q.size = "6.5"; }, [](Ask &q) { q.col = "30"; }, [](Ask &q) { q.font = "Unknown"; q.size = "3"; }});
  add({[](Ask &) {}, [](Ask &q) { q.title = "-"; q.full = "Untitled"; }, [](Ask &q) { q.title = "A title"; }, [](Ask &q) { q.title = "Of $.,Courier,12.5,100-0-0"; q.full = "Untitled"; }, [](Ask &q) { q.title = "(a(b\\c),Times-Roman"; }, [](Ask &q) { q.title = "x\xe9\x01y,Helvetica,9,50"; }});
  return v; }
static void tidy(Me const &m, Ask &q) { if (!q.rounds.empty() && q.rounds.size() > 2) { std::string t; for (char c : q.rounds) if ((int)std::string(SYM).find(c) < m.n) t += c; q.rounds = t; if ((int)t.size() != m.n) q.rounds = "12"; } for (auto &l : q.lines) if (l.who[0] != ':') { std::string t; for (char c : l.who) if ((int)std::string(SYM).find(c) < m.n) t += c; l.who = t.empty() ? "1" : t; } if (!q.full.empty()) q.full = ""; if (m.n == 2 && q.rounds == "12") q.rounds = ""; }
static std::string full(Me const &m) { static std::map<std::string, char const *> const N = {{"6:&x.16.x.16.x.16,12", "Bob Minor"}, {"5:3.1.5.3.1.3.1.3.5.1.3.1", "Doubles"}, {"6:&x.36.x.14.x.12.x.36.x.14.x.56,12", "Surprise Minor"}, {"4:&x.14,12", "Little Bob Minimus"}, {"7:3.1.7.1.7.1.7.1.7.1.7.1.7.1", "Bob Triples"}, {"3:3.1", "Singles"}, {"6:x.16", "Minor"}, {"12:&x.1T.x.1T,12", "Differential Maximus"}, {"5:&5.1.5.1.5,125", "Bob Doubles"}, {"8:x.18.x.18", "Major"}, {"10:&x.10.x.10.x.10,12", "Differential Royal"}, {"4:x", "Minimus"}, {"5:3", "Little Doubles"}, {"8:&x.38.x.14.x.58.x.16.x.12.x.38.x.14.x.78,12", "Surprise Major"}, {"6:34.16.x.12.36", "Differential Little Minor"}, {"2:x.12", "2"}}; return std::string("Untitled ") + N.at(std::to_string(m.n) + ":" + m.pn); }
VF_SECTION(content) { // every pair of values of the options which say what is printed, laid out as told
  auto &D = dims(); for (size_t k = 0; k < pool().size(); ++k) for (auto &f : FMT) for (size_t a = 0; a < D.size(); ++a) for (size_t b = a + 1; b < D.size(); ++b) for (size_t i = 1; i < D[a].size(); ++i) for (size_t j = 1; j < D[b].size(); ++j) { auto &m = pool()[k]; int L = m.m.size(); if (!vf::tier(0, 1) && (i + j + a + b + k) % 7 != (f.empty() ? 0 : f == "-P" ? 0 : 3)) continue; Ask q = fixed(f, (i + j) % 3 ? L : (i % 2) ? 2 * L : std::max(2, L - 1), 2 + (a + b) % 2, f == "-e" ? 99 : 1 + j % 2); if (f == "-e") { q.d = up(total(m, q), q.I * q.k); } D[a][i](q); D[b][j](q); bool t = !q.full.empty(); tidy(m, q); if (t) q.full = full(m); if (q.nonum && layouts(m, q).empty()) continue; ask(m, q); } }

VF_SECTION(layouts) { // every combination of the options which lay the picture out
  for (auto &m : pool()) for (auto &f : FMT) for (int rows = 0; rows < 6; ++rows) for (int tot = 0; tot < 4; ++tot) for (int k : {0, 1, 2, 3}) for (int d : {0, 1, 2}) for (int g : {0, 1, 2, 3}) for (int how = 0; how < 9; ++how) { int L = m.m.size(); if (!vf::tier(0, 1) && (rows * 5 + tot * 3 + k * 2 + d + g + how * 4 + (int)m.pn.size() + (f.empty() ? 0 : f[1])) % 47) continue;
      Ask q; q.fmt = f; int T = L * (int)order(head(m)); if (rows == 1) q.i = 1; if (rows == 2) q.i = 2; if (rows == 3) q.I = 1; if (rows == 4) q.I = std::max(1, L - 1); if (rows == 5) q.I = L + 2; if (tot == 1) q.j = 1; if (tot == 2) q.j = T / L + 2; if (tot == 3) q.J = L + 3; q.k = k; q.d = d; q.g = g; if (rows == 3 && T > 40) continue;
      if (how == 1) q.land = true; if (how == 2) q.across = true; if (how == 3) { q.fw = 300; q.fh = 400; } if (how == 4) { q.pw = 700; q.ph = 500; } if (how == 5) { q.x = 7; q.y = 11; } if (how == 6) { q.x = 9.5; q.h = 40; } if (how == 7) { q.y = 8.25; q.v = 17; } if (how == 8) { q.fw = 500; q.fh = 250; q.land = true; q.x = 6; q.lng = true; } if (how > 4 && how < 8) q.norules = false;
      ask(m, q); } }
VF_SECTION(lines) { // every choice of a line, a crossing line or none for each bell
  for (auto &pn : A{"&x.14.x.14,12", "3.1", "x.14", "&34.x.34.14,12", "12.34.14.x"}) { auto m = me(4, pn); for (int z = 0; z < 81; ++z) for (auto &f : FMT) for (int nn = 0; nn < 2; ++nn) for (auto &mi : A{"lead", "never", "column"}) { if (!vf::tier(0, 1) && (z + nn + mi.size() + f.size()) % 3) continue; Ask q = fixed(f, 2 * m.m.size(), 2, 1); q.d = up(total(m, q), q.I * q.k); q.miss = mi; q.nonum = nn; q.nolines = true; int y = z; for (int b = 0; b < 4; ++b, y /= 3) if (y % 3) q.lines.push_back({std::string(1, SYM[b]), y % 3 == 2, b % 2 ? RED : BLUE, b % 2 ? 1. : .5, b % 2 ? "100-0-0" : "", b % 2 ? "1pt" : ""}); if (q.lines.empty() && nn) continue; ask(m, q); } } }
static void words(int n, int len, std::vector<std::string> &cur, std::vector<std::string> &out) { if ((int)cur.size() == len) { std::string s; for (auto &c : cur) s += (s.empty() ? "" : ".") + c; out.push_back(s); return; } for (auto &c : changes(n)) { cur.push_back(ref::pn(c)); words(n, len, cur, out); cur.pop_back(); } }
VF_SECTION(methods) { // every method of a few changes
  for (int n = 2; n <= 5; ++n) for (int len = 1; len <= vf::tier(n < 4 ? 4 : n < 5 ? 2 : 1, n < 4 ? 5 : n < 5 ? 3 : 2); ++len) { std::vector<std::string> cur, all; words(n, len, cur, all); for (auto &w : all) { auto m = me(n, w); for (auto &f : FMT) { Ask q = fixed(f, total(m, Ask()), 1, 1); q.lines = {{":a", false, BLUE, .5, "", ""}}; q.miss = "never"; q.norules = true; q.pn = "all"; ask(m, q); q.pn = "first"; q.lines.clear(); q.miss = "lead"; q.setpb = true; q.rules = {{1, 2}}; ask(m, q); } } } }
VF_SECTION(runs) { // long hunts, and lines which lie still
  for (int n : {9, 10, 11, 12}) for (auto &pn : A{"hunt", "still", "wait"}) { std::string w; std::string e = ref::sym(n - 1), a = n % 2 ? e + ".1" : "x.1" + e; if (pn == "still") { std::string all; for (int b = 0; b < n; ++b) if (b < n - 2) all += ref::sym(b); for (int i = 0; i < 14; ++i) w += (i ? "." : "") + all; } else if (pn == "wait") { w = a; for (int i = 0; i < 11; ++i) w += n % 2 ? ".3" : ".12"; } else { w = a; for (int i = 0; i < n; ++i) w += "." + a; } auto m = me(n, w); for (auto &f : FMT) for (int x = 0; x < 3; ++x) for (int nn = 0; nn < 2; ++nn) { Ask q = fixed(f, 3 * m.m.size(), 2, 1); q.d = up(total(m, q), q.I * q.k); q.nonum = nn; q.norules = true; q.lines = {{x == 2 ? "123" : ":a", x == 1, BLUE, .5, "", ""}}; ask(m, q); } } }
VF_SECTION(rules) { for (auto &m : pool()) for (auto &f : FMT) for (int a = 0; a <= 13; ++a) for (int b = 0; b <= 7; ++b) { if (!vf::tier(0, 1) && (a + b + f.size() + m.n) % 3) continue; Ask q = fixed(f, m.m.size() + 1, 2, 1); q.d = up(total(m, q), q.I * q.k); q.rules = {{a, b}}; if (!b && !a) continue; ask(m, q); q.rules.push_back({b + 1, a}); ask(m, q); } }
VF_SECTION(classes) { // treble bob, surprise and delight methods are ruled off every four rows
  for (auto &a : A{"34", "36", "56", "3456"}) for (auto &c1 : A{"14", "16"}) for (auto &b : A{"12", "56", "1256"}) for (auto &c2 : A{"36", "16"}) for (auto &d : A{"12", "14"}) for (auto &le : A{"12", "16"}) for (auto &f : FMT) { if (!vf::tier(0, 1) && f != "-e" && a != "34") continue; auto m = me(6, "&x." + a + ".x." + c1 + ".x." + b + ".x." + c2 + ".x." + d + ".x.16," + le, true); Ask q; q.fmt = f; ask(m, q); } }
VF_SECTION(starts) { for (auto &pn : A{"&x.14.x.14,12", "3.1"}) { auto m = me(4, pn); for (auto &r : perms(4)) for (auto &f : FMT) for (int nn = 0; nn < 2; ++nn) { Ask q = fixed(f, m.m.size(), 3, 1); q.d = up(total(m, q), q.I * q.k); q.rounds = ref::str(r); q.nonum = nn; q.setpb = true; q.pb = "2"; q.calls = "ABC"; ask(m, q); } } }
VF_SECTION(titles) { // every byte in a title; every form of it
  auto &m = pool()[0]; for (auto &f : FMT) { for (int c = 1; c < 256; ++c) { if (c == ',' || c == '$') continue; Ask q = fixed(f, 24, 2, 2); for (auto &t : {std::string(1, (char)c) + "x", std::string("1") + (char)c + "7", std::string(3, (char)c)}) { q.title = "t" + t; ask(m, q); } }
    for (auto &t : A{"-", "$", "$ x", "x $", "a$b$c", "x,Courier", "x,Courier,10", "x,Courier,10.5,50", "x,Times-Roman,20,0-50-100"}) for (auto &m2 : pool()) for (int land = 0; land < 2; ++land) for (int lng = 0; lng < 2; ++lng) { Ask q; q.fmt = f; q.land = land; q.lng = lng; q.title = t; q.full = full(m2); ask(m2, q); } } }
VF_SECTION(library) { // a method of a library, by its name
  std::string lib = app::put("lib", "* 6\nPlain a &-16-16-16\nCambridge b &-36-14-12-36-14-56\n"), none = app::put("empty", "* 6\n"); for (auto &f : FMT) for (int w = 0; w < 2; ++w) for (int lng = 0; lng < 2; ++lng) { Ask q; q.fmt = f; q.lng = lng; q.lib = lib; q.name = w ? "Cambridge" : "Plain"; q.title = "-"; q.full = w ? "Cambridge Surprise Minor" : "Plain Bob Minor"; ask(pool()[w ? 2 : 0], q); }
  for (auto &a : std::vector<A>{{lib, "Nothing"}, {none, "Plain"}, {"/nonexistent/lib", "Plain"}, {"6:q"}, {"6:"}, {"x16x"}, {"y:x16"}, {}, {lib}, {"-m", "6:x.16", "x", "y"}, {"-msome", "6:x.16"}, {"-psome", "6:x.16"}, {"-pall,some", "6:x.16"}, {"-l2,300", "6:x.16"}, {"-l2,-1", "6:x.16"}, {"-l2,1-2", "6:x.16"}, {"-l2,1-2-3,1pt,4", "6:x.16"}, {"-l2,1,1furlong", "6:x.16"}, {"-l:z", "6:x.16"}, {"-l:", "6:x.16"}, {"-l!", "6:x.16"}, {"-lx,", "6:x.16"}, {"-b!", "6:x.16"}, {"-r1,2,3", "6:x.16"}, {"-rx", "6:x.16"}, {"-r1,x", "6:x.16"}, {"-i-1", "6:x.16"}, {"-i0", "6:x.16"}, {"-I-3", "6:x.16"}, {"-j-1", "6:x.16"}, {"-J-1", "6:x.16"}, {"-k-1", "6:x.16"}, {"-k0", "6:x.16"}, {"-d-2", "6:x.16"}, {"-g-1", "6:x.16"}, {"-g0", "6:x.16"}, {"-ix", "6:x.16"}, {"-F1pt", "6:x.16"}, {"-F1pt,2pt,3pt", "6:x.16"}, {"-F1,2", "6:x.16"}, {"-S1in", "6:x.16"}, {"-xfoo", "6:x.16"}, {"-x5", "6:x.16"}, {"-tx,y,z", "6:x.16"}, {"-tx,y,1,101", "6:x.16"}, {"-tx,y,1,2,3", "6:x.16"}, {"-sx", "6:x.16"}, {"-c200", "6:x.16"}, {"-c1-2", "6:x.16"}, {"-Gx", "6:x.16"}, {"-G1,2,3pt,4", "6:x.16"}, {"-Z", "6:x.16"}, {"--foo", "6:x.16"}}) CASE(joined(a)) { auto o = app::run("psline", a); vf::states(); EXPECT(o.rc == 1 && !o.err.empty() && o.out.find("%!PS") == std::string::npos, "accepted", o.rc, " ", o.err.substr(0, 60)); } END_CASE
  for (auto &f : FMT) CASE("output file ", f) { std::string fn = app::work() + "/out"; unlink(fn.c_str()); A a = {"-o" + fn, "6:x.16"}; if (!f.empty()) a.insert(a.begin(), f); auto o = app::run("psline", a); a.erase(a.begin() + (f.empty() ? 0 : 1)); auto p = app::run("psline", a); std::ifstream in(fn.c_str(), std::ios::binary); std::string got((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); EXPECT(o.rc == 0 && o.out.empty() && got == p.out && !got.empty(), "file", o.rc, " ", got.size(), " ", p.out.size()); vf::states(); } END_CASE }
// ---------------------------------------------------------------- printmethod
struct Txt { bool c = false, F = false, S = false, lng = false; int r = 0, f = 0; std::string s; bool colon = false; };
static void text(Me const &m, Txt const &q) { A a; auto o = [&](char const *s, char const *l, std::string const &v) { if (q.lng) a.push_back(std::string("--") + l + (v.empty() ? "" : "=" + v)); else a.push_back(std::string("-") + s + v); };
  if (!q.colon) o("b", "bells", std::to_string(m.n)); if (q.c) o("c", "course", ""); if (q.F) o("F", "omit-final", ""); if (q.S) o("S", "omit-start", ""); if (q.r) o("r", "init-rounds", std::to_string(q.r)); if (q.f) o("f", "final-rounds", std::to_string(q.f)); if (!q.s.empty()) o("s", "start", q.s); a.push_back(q.colon ? std::to_string(m.n) + ":" + m.pn : m.pn);
  CASE(joined(a)) { P p = id(m.n); if (!q.s.empty()) for (int b = 0; b < m.n; ++b) p[b] = std::string(SYM).find(q.s[b]); P s = p; std::string want; for (int i = 0; i < 2 * q.r; ++i) want += ref::str(s) + "\n"; if (!q.S && !q.r) want += ref::str(s) + "\n"; int leads = q.c ? (int)order(head(m)) : 1; std::vector<P> rows; for (int l = 0; l < leads; ++l) for (auto &c : m.sp) { p = mul(p, c); rows.push_back(p); } for (size_t i = 0; i < rows.size(); ++i) if (i + 1 < rows.size() || !q.F) want += ref::str(rows[i]) + "\n"; for (int i = 0; i < 2 * q.f; ++i) want += ref::str(p) + "\n"; auto o2 = app::run("printmethod", a); vf::states(rows.size()); vf::outcome(std::to_string(want.size())); EXPECT(o2.rc == 0 && o2.out == want, "rows", o2.rc, " ", vf::quote(o2.out.substr(0, 200)), " not ", vf::quote(want.substr(0, 200))); } END_CASE }
VF_SECTION(text) { // printmethod: the rows, one to a line
  for (auto &m : pool()) for (int z = 0; z < 32; ++z) for (int r = 0; r < 4; ++r) for (int f = 0; f < 4; ++f) { Txt q; q.c = z & 1; q.F = z & 2; q.S = z & 4; q.lng = z & 8; q.colon = z & 16; q.r = r; q.f = f; text(m, q); std::string s; for (int b = m.n - 1; b >= 0; --b) s += SYM[b]; if (!r || !f) { q.s = s; text(m, q); } }
  for (auto &r : perms(4)) for (auto &pn : A{"&x.14.x.14,12", "3.1", "x.12", "34"}) for (int c = 0; c < 2; ++c) { Txt q; q.c = c; q.s = ref::str(r); text(me(4, pn), q); q.r = q.f = 1; text(me(4, pn), q); } 
  for (int n = 1; n <= vf::tier(4, 5); ++n) for (int len = 1; len <= vf::tier(n < 4 ? 4 : 2, n < 4 ? 5 : 3); ++len) { std::vector<std::string> cur, all; words(n, len, cur, all); for (auto &w : all) for (int c = 0; c < 2; ++c) { Txt q; q.c = c; if (n == 1 && c) continue; text(me(n, w), q); } }
  for (auto &a : std::vector<A>{{}, {"x.16"}, {"-b5", "6:x.16"}, {"-b6", "x.17"}, {"-b6", "z"}, {"-b6", "-s12345", "x.16"}, {"-b6", "-s1234567", "x.16"}, {"-b6", "-s112345", "x.16"}, {"-bx", "x.16"}, {"-b6", "-rx", "x.16"}, {"-Z", "6:x.16"}, {"x:x.16"}}) CASE(joined(a)) { auto o = app::run("printmethod", a); vf::states(); EXPECT(o.rc == 1 && o.out.empty() && !o.err.empty(), "accepted", o.rc, " ", o.out.substr(0, 60)); } END_CASE }
