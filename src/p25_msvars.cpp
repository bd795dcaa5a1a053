// P25: methsearch's method variables, format strings and statistics say what each method is.
#include "app.h"
#include "refmeth.h"
#include "ms.h"
#include <memory>
typedef std::vector<std::string> A;
using refmeth::RefM;
static std::string join(A const &t, char const *sep = " ") { std::string s; for (auto &x : t) s += (s.empty() ? "" : sep) + x; return s; }
static A split(std::string const &s, char c) { A v(1); for (char x : s) if (x == c) v.push_back(""); else v.back() += x; return v; }
static A sorted(A v) { std::sort(v.begin(), v.end()); return v; }
static A plus(A a, A const &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static std::string pad(std::string s, int w) { if ((int)s.size() < w) s.insert(0, w - s.size(), ' '); return s; }
typedef std::vector<Sw> Q;
static std::string txt(Q const &m) { std::string r; for (auto &c : m) r += (r.empty() ? "" : ".") + pn(c); return r; }
static Sw rv(Sw const &s) { int n = s.size(); Sw r(n, 0); for (int i = 0; i + 1 < n; ++i) r[n - 2 - i] = s[i]; return r; }
static P lhof(int n, Q const &m) { P r = id(n); for (auto &c : m) r = mul(r, sw_perm(c)); return r; }
static char const *STAGE[] = {"Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus", "Sextuples", "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty", "Decuples", "Twenty-two"};
static std::string stage(int n) { return n >= 3 && n <= 22 ? STAGE[n - 3] : std::to_string(n); }
// ---- lead head codes of doubles and minor, as tabulated in the manual ----------
struct Code { char const *le, *lh, *code, *utf; };
static Code const C5[] = {
  {"13254", "13524", "A", 0}, {"14523", "14253", "B", 0}, {"12354", "12534", "G", 0}, {"13245", "13425", "H", 0}, {"14325", "14235", "J", 0}, {"12543", "12453", "K", 0},
  {"15342", "13524", "C", 0}, {"12435", "14253", "D", 0}, {"12543", "15234", "E", 0}, {"14325", "13452", "F", 0},
  {"15432", "15423", "Q", 0}, {"14523", "14532", "R", 0}, {"12435", "12453", "S", 0}, {"12543", "12534", "T", 0}, {"14325", "14352", "U", 0}, {"15342", "15324", "V", 0},
  {"14523", "15423", "M", 0}, {"15432", "14532", "N", 0}, {"12435", "14235", "W", 0}, {"14325", "13425", "X", 0}, {"12543", "15243", "Y", 0}, {"13542", "13542", "Z", 0}};
static Code const C6[] = { // le: the lead end change
  {"12", "135264", "G", 0}, {"1", "135264", "L", 0}, {"12", "156342", "H", 0}, {"1", "156342", "M", 0}, {"12", "164523", "J", 0}, {"1", "164523", "N", 0}, {"12", "142635", "K", 0}, {"1", "142635", "O", 0},
  {"12", "142563", "P", 0}, {"12", "154632", "S", 0}, {"12", "165324", "R", 0}, {"12", "136245", "Q", 0}, {"1", "152364", "T", 0}, {"1", "165243", "V", 0}, {"1", "146532", "U", 0}, {"1", "134625", "W", 0},
  {"14", "145362", "X", 0}, {"14", "162534", "Y", 0}, {"14", "136524", "?", "\xCE\xBC"}, {"14", "152643", "?", "\xCE\xB8"}, {"14", "164235", "?", "\xCE\xB4"}, {"14", "146325", "?", "\xCE\xA8"}, {"14", "154263", "?", "\xCE\xA3"}, {"14", "135642", "?", "\xCE\xBB"}};
static std::string oldcode(int n, Q const &m, bool utf) {
  std::string l = str(lhof(n, m));
  if (n == 5) for (auto &c : C5) if (l == c.lh && (c.code[0] == 'Z' ? pn(m.back()) == "145" : str(lhof(n, Q(m.begin(), m.end() - 1))) == c.le)) return c.code;
  if (n == 6) for (auto &c : C6) { Sw s; parse_change(6, c.le, s); if (l == c.lh && m.back() == s) return utf && c.utf ? c.utf : c.code; }
  return "?";
}
static std::string symm(Q const &m) {
  int L = m.size(); std::string s; auto any = [&](bool r, bool rows) { for (int a = 0; a < 2 * L; a += rows ? 1 : 2) { bool ok = true; for (int i = 0; i < L; ++i) { auto &o = m[((a - i) % L + L) % L]; ok = ok && m[i] == (r ? rv(o) : o); } if (ok) return true; } return false; };
  if (any(false, false)) s += 'P'; bool mi = true, gl = L % 2 == 0; for (int i = 0; i < L; ++i) { mi = mi && m[i] == rv(m[i]); gl = gl && m[i] == rv(m[(i + L / 2) % L]); }
  if (mi) s += 'M'; if (gl) s += 'G'; if (any(true, true)) s += 'R'; return s;
}
static bool still(int n, Q const &m) { for (int i = 0; i + 1 < n; ++i) { bool all = true; for (auto &c : m) all = all && (c[i] || (is_place(c, i) && is_place(c, i + 1))); if (all) return true; } return false; }
static int staticity(int n, Q const &m) { // blows each pair spends together beyond the first crossing
  int L = m.size(), t = 0; for (int i = 0; i + 1 < n; ++i) { auto in = [&](int k) { Sw const &c = m[((k % L) + L) % L]; return c[i] || (is_place(c, i) && is_place(c, i + 1)); }; for (int k = 0; k < L; ++k) if (in(k) && in(k - 1)) ++t; } return t;
}
static std::string order_of_coursing(int n, P const &lh) { // empty: there is none
  P p = lh; for (int k = 0; k < n; ++k, p = mul(p, lh)) if (p[n - 1] == n - 2) { std::string s; int b = n - 1; do s += sym(b = p[b]); while (b != n - 1); return s; } return "";
}
static Q part(int n, Q const &m, bool over) { // the work above or below the treble, with crosses elsewhere
  Q v; int t = 0; for (auto &c : m) { int u = sw_perm(c)[t] == t ? t : 0; P p = sw_perm(c); for (int j = 0; j < n; ++j) if (p[j] == t) u = j; int lo = std::min(t, u), hi = std::max(t, u); Sw o(n, 0); if (n > 1 && lo != hi) o[lo] = 1;
    if (over) { for (int i = hi; i + 1 < n; ++i) o[i] = lo != hi && i == lo ? 1 : c[i]; for (int i = lo - 2; i >= 0; i -= 2) o[i] = 1; } else { for (int i = 0; i < lo; ++i) o[i] = c[i]; for (int i = hi + 1; i + 1 < n; i += 2) o[i] = 1; }
    if (lo != hi) o[lo] = 1; v.push_back(o); t = u; } return v;
}
// the notation reads back as these changes
static bool reads(int n, std::string const &s, Q const &m) { Q v; return parse_pn(n, s, v) && v == m; }
static bool palin(Q const &m, int last) { int L = m.size(); // m[0..last] is symmetrical about its middle
  (void)L; for (int i = 0; i <= last; ++i) if (!(m[i] == m[last - i])) return false; return true; }
static void feed(std::string const &how, std::vector<std::pair<int, Q>> const &ms, A const &opt, std::string const &fmt, std::function<void(size_t, A const &)> f, char const *pay = "") {
  std::string in; for (auto &m : ms) in += std::to_string(m.first) + ":" + txt(m.second) + pay + "\n"; A a{"-U0", "-A", "-Fx", "-I", "-R" + fmt}; a = plus(a, opt);
  auto o = app::run("methsearch", a, in, 120); EXPECT(o.rc == 0 && o.err.empty(), "status", how, " ", o.rc, " ", o.err.substr(0, 200)); auto g = lines(o.out); EXPECT(g.size() == ms.size(), "listed", how, " ", g.size(), " not ", ms.size());
  if (g.size() != ms.size()) return; vf::states(g.size()); for (size_t i = 0; i < g.size(); ++i) { vf::outcome(g[i]); f(i, split(g[i], '|')); }
}
static std::vector<std::pair<int, Q>> every(int n, int L, size_t step = 1) { auto c = changes(n); std::vector<std::pair<int, Q>> v; std::vector<int> ix(L, 0); size_t k = 0; for (;;) { if (k++ % step == 0) { Q m; for (int i : ix) m.push_back(c[i]); v.push_back({n, m}); } int i = 0; while (i < L && ++ix[i] == (int)c.size()) ix[i++] = 0; if (i == L) return v; } }
static std::vector<std::pair<int, Q>> world(W const &w, size_t step = 1) { std::vector<std::pair<int, Q>> v; for (size_t i = 0; i < w.all.size(); i += step) { Q m; for (int c : w.all[i]) m.push_back(w.ch[c]); v.push_back({w.n, m}); } return v; }
static void variables(std::string const &how, std::vector<std::pair<int, Q>> const &all) {
  for (size_t at = 0; at < all.size(); at += 2000) { std::vector<std::pair<int, Q>> ms(all.begin() + at, all.begin() + std::min(all.size(), at + 2000));
    CASE(how, " from ", at) { size_t L = 0; for (auto &m : ms) L = std::max(L, m.second.size()); int n = ms[0].first;
      std::string fmt = "$L|$4L|$l|$p|$q|$Q|$b|$o|$u|$B|$G|$d|$D|$y|$C|$S|$s|$V|$U|$#|$a|$3b|$3o|$3u|$3B|$3G|$5s|$6#|%l|$5?"; int base = 30;
      for (size_t i = 0; i <= L; ++i) fmt += "|$" + std::to_string(i) + "r"; for (size_t i = 1; i <= L; ++i) fmt += "|$" + std::to_string(i) + "h"; for (int i = 1; i <= n; ++i) fmt += "|$" + std::to_string(i) + "P";
      feed(how, ms, {}, fmt, [&](size_t k, A const &f) { auto &m = ms[k].second; RefM r(n, m); std::string id = how + " " + txt(m); if (f.size() != base + (L + 1) + L + n) { vf::fail("fields", id + " " + std::to_string(f.size())); return; }
        auto is = [&](int i, char const *what, std::string const &w) { EXPECT(f[i] == w, what, id, " gave ", f[i], " not ", w); };
        is(0, "lead-length", std::to_string(L)); is(1, "lead-length", pad(f[0], 4)); is(2, "lead-head", str(r.lh)); is(3, "verbose-notation", txt(m)); EXPECT(reads(n, f[4], m), "notation", id, " gave ", f[4]);
        EXPECT(f[4].find_first_of("xX+") == std::string::npos, "notation-style", id, " gave ", f[4]); if (L > 2 && L % 2 == 0 && (palin(m, L - 2) || r.sympt() >= 0)) EXPECT(f[4][0] == '&' || f[4].find(",&") != std::string::npos, "notation-style", id, " gave ", f[4], " for a palindrome");
        { Q h(m.begin(), m.end() - 1); EXPECT(reads(n, f[5], h) , "notation-less-lead-end", id, " gave ", f[5]); }
        is(6, "blows", std::to_string(r.maxblows())); is(7, "leads", std::to_string(order(r.lh))); is(8, "hunts", std::to_string(r.hunts())); is(9, "bells", std::to_string(n)); is(10, "cycles", std::to_string(cycles(r.lh).size())); is(11, "lead-head-code", r.lhc()); is(12, "old-lead-head-code", oldcode(n, m, false)); is(13, "symmetries", symm(m));
        int e = r.cls(9999); if (e >= 0) { std::string cn; if (e & 0x10) cn += "Differential "; if (e & 0x80) cn += "Little "; if ((e & 15) != 9) cn += refmeth::CN[e & 15]; if (!cn.empty() && cn.back() == ' ') cn.pop_back(); is(14, "class", cn); }
        is(15, "stage", stage(n)); if (!still(n, m)) { is(16, "staticity", std::to_string(staticity(n, m))); is(26, "staticity", pad(f[16], 5)); }
        EXPECT(reads(n, f[17], part(n, m, true)), "overwork", id, " gave ", f[17], " not ", txt(part(n, m, true))); EXPECT(reads(n, f[18], part(n, m, false)), "underwork", id, " gave ", f[18], " not ", txt(part(n, m, false)));
        is(19, "number", std::to_string(k + 1)); is(20, "payload", ""); is(21, "blows", pad(f[6], 3)); is(22, "leads", pad(f[7], 3)); is(23, "hunts", pad(f[8], 3)); is(24, "bells", pad(f[9], 3)); is(25, "cycles", pad(f[10], 3)); is(27, "number", pad(f[19], 6)); is(28, "lead-head", f[2]); is(29, "exit-status", "    0");
        P p = ref::id(n); is(base, "row", str(p)); for (size_t i = 0; i < L; ++i) { p = mul(p, sw_perm(m[i])); is(base + 1 + i, "row", str(p)); is(base + L + 1 + i, "change", pn(m[i])); }
        for (int b = 0; b < n; ++b) { auto v = r.path(b); std::string s; for (int x : v) s += sym(x); is(base + 2 * L + 1 + b, "path", s); }
      }); } END_CASE }
}
VF_SECTION(variables_2_3) { for (int L = 1; L <= vf::tier(8, 12); ++L) variables(vf::cat("all of ", L, " on 2"), every(2, L)); for (int L = 1; L <= vf::tier(7, 9); ++L) variables(vf::cat("all of ", L, " on 3"), every(3, L)); }
VF_SECTION(variables_4) { for (int L = 1; L <= vf::tier(5, 7); ++L) variables(vf::cat("all of ", L, " on 4"), every(4, L)); }
VF_SECTION(variables_5) { for (int L = 1; L <= vf::tier(4, 5); ++L) variables(vf::cat("all of ", L, " on 5"), every(5, L)); }
VF_SECTION(variables_6) { for (int L = 1; L <= vf::tier(3, 4); ++L) variables(vf::cat("all of ", L, " on 6"), every(6, L)); variables("all of 4 on 6, every 11th", every(6, 4, 11)); }
VF_SECTION(variables_7_8) { for (int n : {7, 8}) for (int L = 1; L <= vf::tier(2, 3); ++L) variables(vf::cat("all of ", L, " on ", n), every(n, L)); }
VF_SECTION(variables_hunt) { for (int n : {3, 4}) variables(vf::cat("plain hunt ", n), world(W(n, 1, 0))); variables("plain hunt 5", world(W(5, 1, 0), vf::tier(9, 1))); variables("symmetric 6", world(W(6, 1, 0, 0, "s"), vf::tier(2, 1))); variables("symmetric 7", world(W(7, 1, 0, 0, "s2"), vf::tier(9, 1))); }
VF_SECTION(variables_twin) { for (int n : {4, 5, 6}) variables(vf::cat("twin hunt ", n), world(W(n, 2, 0, 0, n > 4 ? "s" : ""))); }
VF_SECTION(variables_dodging) { variables("dodging 4", world(W(4, 1, 1), vf::tier(11, 1))); variables("symmetric dodging 4", world(W(4, 1, 1, 0, "s"))); variables("dodging 6", world(W(6, 1, 1, 0, "swn2"), vf::tier(3, 1))); variables("symmetric dodging twice 4", world(W(4, 1, 2, 0, "s"), vf::tier(5, 1))); }
VF_SECTION(variables_little) { variables("little 4", world(W(4, 1, 0, 0, "", 0, 2), 1)); variables("little 5", world(W(5, 1, 0, 0, "s", 0, 2))); variables("little 6", world(W(6, 1, 0, 0, "s", 0, 3))); }
// ---- lead heads ------------------------------------------------------------
static Q reach(int n, P const &lh, Sw const &le) { // changes from rounds to the row before the lead end change, then that change
  P t = mul(lh, sw_perm(le)); Q m; P r = id(n); for (int pass = 0; !(r == t) && pass < 3 * n; ++pass) { Sw s(n, 0); for (int i = pass % 2; i + 1 < n; i += 2) { int a = std::find(t.begin(), t.end(), r[i]) - t.begin(), b = std::find(t.begin(), t.end(), r[i + 1]) - t.begin(); if (a > b) s[i] = 1; } m.push_back(s); r = mul(r, sw_perm(s)); }
  m.push_back(le); return m;
}
VF_SECTION(lead_heads) { // every lead head on five and six bells, with every lead end change
  for (int n : {3, 4, 5, 6}) { auto cs = changes(n); std::vector<std::pair<int, Q>> v; for (auto &p : perms(n)) for (auto &c : cs) if (n < 6 || p[0] == 0 || vf::tier(0, 1)) v.push_back({n, reach(n, p, c)});
    for (int utf = 0; utf < 2; ++utf) CASE(n, utf ? " in UTF-8" : "") { A opt; if (utf) opt.push_back("-Outf8"); feed(vf::cat(n), v, opt, "$l|$d|$D|$G|$u|$o", [&](size_t k, A const &f) { auto &m = v[k].second; RefM r(n, m); EXPECT(f.size() == 6 && f[0] == str(r.lh), "lead-head", txt(m), " gave ", f[0], " not ", str(r.lh)); EXPECT(f[1] == r.lhc(), "lead-head-code", txt(m), " gave ", f[1], " not ", r.lhc()); std::string d = oldcode(n, m, utf); EXPECT(f[2] == d, "old-lead-head-code", txt(m), " ", f[0], " gave ", f[2], " not ", d);
      EXPECT(f[3] == std::to_string(cycles(r.lh).size()) && f[4] == std::to_string(r.hunts()) && f[5] == std::to_string(order(r.lh)), "cycles", txt(m), " gave ", f[3], " ", f[4], " ", f[5]); }); } END_CASE }
}
VF_SECTION(coursing_orders) { // every lead head, with <ERROR> where the tenors do not course
  for (int n : {2, 3, 4, 5, 6}) { std::vector<std::pair<int, Q>> v; Sw c; parse_change(n, n > 3 ? "12" : "1", c); for (auto &p : perms(n)) v.push_back({n, reach(n, p, c)});
    CASE(n) { feed(vf::cat(n), v, {}, "$l|$O", [&](size_t k, A const &f) { std::string w = order_of_coursing(n, lhof(n, v[k].second)); if (w.empty()) w = "<ERROR>"; EXPECT(f.size() == 2 && f[1] == w, "coursing-order", f[0], " gave ", f.back(), " not ", w); }); } END_CASE }
}
// ---- parts of the notation ---------------------------------------------------
VF_SECTION(notation_slices) { std::vector<std::pair<int, Q>> v; for (int n : {3, 4, 5}) for (int L = 1; L <= (n == 3 ? 6 : 4); ++L) { auto e = every(n, L, n == 5 ? 7 : n == 4 ? 3 : 1); v.insert(v.end(), e.begin(), e.end()); }
  for (int i = 1; i <= 6; ++i) for (int j = 0; j <= 6; ++j) { if (j && j < i) continue; std::vector<std::pair<int, Q>> w; for (auto &m : v) if ((int)m.second.size() >= std::max(i, j)) w.push_back(m); if (w.empty()) continue;
    CASE(i, ",", j) { std::string p = "$" + std::to_string(i) + (j ? "," + std::to_string(j) : ""); feed(p, w, {}, p + "p|" + p + "q|$[" + p + "p]|$[" + p + "q]", [&](size_t k, A const &f) { Q s(w[k].second.begin() + i - 1, w[k].second.begin() + (j ? j : i)); int n = w[k].first; EXPECT(f[0] == txt(s), "verbose-notation", p, " of ", txt(w[k].second), " gave ", f[0], " not ", txt(s)); EXPECT(reads(n, f[1], s), "notation", p, " of ", txt(w[k].second), " gave ", f[1]); EXPECT(f[2] == f[0] && f[3] == f[1], "expression", p, " gave ", f[2], " ", f[3], " not ", f[0], " ", f[1]); }); } END_CASE }
}
VF_SECTION(beyond_the_lead) { // what a lead does not have is an error in that method alone
  std::vector<std::pair<int, Q>> v; for (int L = 1; L <= 4; ++L) { auto e = every(3, L, 5), f = every(4, L, 41); v.insert(v.end(), e.begin(), e.end()); v.insert(v.end(), f.begin(), f.end()); }
  struct X { std::string var; std::function<std::string(int, Q const &)> f; }; std::vector<X> xs; auto S = [](int i) { return std::to_string(i); };
  for (int i = 0; i <= 6; ++i) { xs.push_back({"$" + S(i) + "r", [=](int n, Q const &m) { return i > (int)m.size() ? std::string() : str(lhof(n, Q(m.begin(), m.begin() + i))); }}); xs.push_back({"$" + S(i) + "h", [=](int, Q const &m) { return i < 1 || i > (int)m.size() ? std::string() : pn(m[i - 1]); }}); xs.push_back({"$" + S(i) + "P", [=](int n, Q const &m) { if (i < 1 || i > n) return std::string(); std::string s; for (int x : RefM(n, m).path(i - 1)) s += sym(x); return s; }});
    if (i) xs.push_back({"$" + S(i) + "p", [=](int, Q const &m) { return i > (int)m.size() ? std::string() : pn(m[i - 1]); }}); for (int j = 1; i && j <= 6; ++j) xs.push_back({"$" + S(i) + "," + S(j) + "p", [=](int, Q const &m) { return i > (int)m.size() || j > (int)m.size() || j < i ? std::string() : txt(Q(m.begin() + i - 1, m.begin() + j)); }}); }
  for (auto &x : xs) CASE(x.var) { feed(x.var, v, {}, "$l|" + x.var + "|$[" + x.var + "]|$[\"<\"." + x.var + ".\">\"]|$B", [&](size_t k, A const &f) { std::string w = x.f(v[k].first, v[k].second), e = "<ERROR>"; A want{str(lhof(v[k].first, v[k].second)), w.empty() ? e : w, w.empty() ? e : w, w.empty() ? e : "<" + w + ">", std::to_string(v[k].first)}; EXPECT(f == want, "beyond", txt(v[k].second), " gave ", join(f, "|"), " not ", join(want, "|")); }); } END_CASE
  // known when the program starts
  for (std::string var : {"$9r", "$9h"}) CASE(var) { auto o = app::run("methsearch", {"-b4", "-U1", "-A", "-Fx", "-R" + var}); EXPECT(o.rc == 1 && o.out.empty() && !o.err.empty(), "refused", o.rc, " ", o.err); } END_CASE
}
VF_SECTION(notation_styles) { // --pn-format
  std::vector<std::pair<int, Q>> v; for (int n : {3, 4, 5}) for (int L = 1; L <= 4; ++L) { auto e = every(n, L, n == 5 && L == 4 ? 13 : 3); for (auto &m : e) v.push_back(m); } for (auto &m : world(W(4, 1, 0, 0, "s"))) v.push_back(m); for (auto &m : world(W(5, 1, 0, 0, "s"), 5)) v.push_back(m);
  struct O { A names; char k; }; std::vector<O> os = {{{"dots", "."}, 'd'}, {{"external", "ext"}, 'e'}, {{"lower-case", "lcross", "x"}, 'x'}, {{"upper-case", "ucross", "X"}, 'X'}, {{"std-symmetry", "std-sym"}, 's'}, {{"no-symmetry", "no-sym"}, 'n'}, {{"plus-prefix", "plus", "+"}, '+'}};
  for (int mask = 1; mask < 128; ++mask) { if ((mask & 12) == 12 || (mask & 48) == 48) continue; for (int w = 0; w < (__builtin_popcount(mask) == 1 ? 3 : 1); ++w) { std::string opt, ks; for (int i = 0; i < 7; ++i) if (mask >> i & 1) { opt += (opt.empty() ? "" : ",") + os[i].names[std::min<size_t>(w + (mask % 3 == 1 && __builtin_popcount(mask) > 1), os[i].names.size() - 1)]; ks += os[i].k; }
    auto has = [ks](char c) { return ks.find(c) != std::string::npos; };
    CASE(opt) { feed(opt, v, {"--pn-format=" + opt}, "$q|$Q|$V|$U|$p", [&](size_t k, A const &f) { int n = v[k].first; auto &m = v[k].second; int L = m.size(); std::string q = f[0], id = opt + " " + txt(m) + " gave " + q; bool cross = false; Sw x; parse_change(n, "X", x); for (auto &c : m) cross = cross || (n % 2 == 0 && c == x);
      EXPECT(reads(n, q, m), "notation", id); EXPECT(reads(n, f[1], Q(m.begin(), m.end() - 1)), "notation-less-lead-end", id, " and ", f[1]); EXPECT(f[4] == txt(m), "verbose-notation", id, " and ", f[4]);
      EXPECT(reads(n, f[2], part(n, m, true)) && reads(n, f[3], part(n, m, false)), "works", id, " and ", f[2], " ", f[3]);
      char c = has('x') ? 'x' : has('X') ? 'X' : '-'; for (char o : {'x', 'X', '-'}) if (o != c) EXPECT(q.find(o) == std::string::npos, "cross", id); if (cross) EXPECT(q.find(c) != std::string::npos, "cross", id);
      bool pal = L > 2 && L % 2 == 0 && palin(m, L - 2); if (has('n')) EXPECT(q.find('&') == std::string::npos, "symmetry", id); else if (pal) EXPECT(q.find('&') != std::string::npos, "symmetry", id); else if (has('s')) EXPECT(q.find('&') == std::string::npos, "symmetry", id);
      if (has('+')) for (auto &b : split(q, ',')) EXPECT(b[0] == '&' || b[0] == '+', "prefix", id); else EXPECT(q.find('+') == std::string::npos, "prefix", id);
      // every change as written: with its external places or with none
      for (auto &b : split(q, ',')) { std::string t = b; if (t[0] == '&' || t[0] == '+') t = t.substr(1); if (has('d')) { for (size_t i = 0; i < t.size(); ++i) if (t[i] == c) EXPECT((i == 0 || t[i - 1] == '.') && (i + 1 == t.size() || t[i + 1] == '.'), "dots", id); } else EXPECT(t.find(std::string(".") + c) == std::string::npos && t.find(std::string(1, c) + ".") == std::string::npos, "dots", id);
        std::string u; for (char ch : t) u += ch == c ? '.' : ch; for (auto &w2 : split(u, '.')) if (!w2.empty()) { Sw s; EXPECT(parse_change(n, w2, s), "change", id); std::string full = pn(s); if (has('e')) EXPECT(w2 == full, "external", id, ": ", w2); else { bool in = false; for (int p : places(s)) in = in || (p > 0 && p < n - 1); for (char ch : w2) if (in) { int p = strchr(SYM, ch) - SYM; EXPECT(p > 0 && p < n - 1, "external", id, ": ", w2); } } } }
    }); } END_CASE } }
}
// ---- names -------------------------------------------------------------------
VF_SECTION(names) { // names come from the libraries; what a library lacks is untitled
  for (int n : {4, 5}) for (int un = 0; un < 3; ++un) for (int inc = 0; inc < 3; ++inc) CASE(n, " ", un, " ", inc) { auto v = world(W(n, 1, 0, 0, "s")); std::string lib = "* " + std::to_string(n) + "\n"; std::vector<std::string> name(v.size()); size_t k = 0;
    for (size_t i = 0; i < v.size(); ++i) { if (i % 3) { name[i] = "Name" + std::string(1, 'A' + i % 26) + std::string(1, 'a' + i / 26 % 26) + std::string(1, 'a' + i / 676 % 26); lib += name[i] + " z " + txt(v[i].second) + "\n"; ++k; } } std::string fn = app::put("lib" + std::to_string(n), lib);
    A opt{"-L" + fn}; if (un == 1) opt.push_back("--unnamed-name=No Name"); if (un == 2) opt.push_back("--unnamed-name=X"); if (inc) opt.push_back(inc == 1 ? "--named" : "--unnamed"); std::vector<std::pair<int, Q>> w = v; std::vector<std::string> nm = name; if (inc) { std::vector<std::pair<int, Q>> a; std::vector<std::string> b; for (size_t i = 0; i < v.size(); ++i) if ((inc == 1) == !name[i].empty()) { a.push_back(v[i]); b.push_back(name[i]); } w = a; nm = b; }
    std::string in; for (auto &m : v) in += std::to_string(n) + ":" + txt(m.second) + "\n"; auto o = app::run("methsearch", plus({"-U0", "-A", "-Fx", "-I", "-R$n|$N|$C|$S|$p|$[$n]|$[$n.\" \".$C.\" \".$S eq $N]"}, opt), in); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, o.err.substr(0, 200)); auto g = lines(o.out); EXPECT(g.size() == w.size(), "listed", g.size(), " not ", w.size()); if (g.size() != w.size()) return; vf::states(g.size());
    for (size_t i = 0; i < g.size(); ++i) { auto f = split(g[i], '|'); std::string nn = nm[i].empty() ? un == 1 ? "No Name" : un == 2 ? "X" : "Untitled" : nm[i]; RefM r(n, w[i].second); int e = r.cls(9999); if (e < 0) continue; std::string cn; if (e & 0x10) cn += "Differential "; if (e & 0x80) cn += "Little "; if ((e & 15) != 9) { cn += refmeth::CN[e & 15]; } std::string t = nn + " " + cn + (cn.empty() || cn.back() == ' ' ? "" : " ") + stage(n); vf::outcome(t);
      EXPECT(f.size() == 7 && f[0] == nn, "name", txt(w[i].second), " gave ", f[0], " not ", nn); EXPECT(f[1] == t, "title", txt(w[i].second), " gave ", f[1], " not ", t); EXPECT(f[4] == txt(w[i].second), "method", f[4]); EXPECT(f[5] == f[0], "name-expression", f[5]); if (!cn.empty() && cn.back() != ' ') EXPECT(f[6] == "1", "title-of-parts", g[i]); } } END_CASE
}
VF_SECTION(work_maps) { // the overwork and underwork are named where the map has their name
  for (int under = 0; under < 2; ++under) for (int some = 0; some < 3; ++some) CASE(under ? "underwork " : "overwork ", some) { auto v = world(W(5, 1, 0, 0, "s")); std::map<Q, std::string> nm; std::string map; for (auto &m : v) { Q p = part(5, m.second, !under); if (nm.count(p)) continue; std::string &s = nm[p]; if (some == 0 || (some == 1 && nm.size() % 2)) { s = "Work " + std::to_string(nm.size()); map += "5:" + txt(p) + "\t" + s + "\n"; } else if (nm.size() % 4 == 0) map += "5:" + txt(p) + "\n"; }
    std::string fn = app::put("works", map); feed("map", v, {under ? "--underwork-map=" + fn : "--overwork-map=" + fn}, "$U|$V", [&](size_t k, A const &f) { auto &m = v[k].second; Q p = part(5, m, !under), q = part(5, m, under); std::string w = nm[p]; EXPECT(w.empty() ? reads(5, f[!under], p) : f[!under] == w, "mapped", txt(m), " gave ", f[!under], " not ", w, " ", txt(p)); EXPECT(reads(5, f[under], q), "other", txt(m), " gave ", f[under]); }); } END_CASE
}
// ---- format strings --------------------------------------------------------------
// the text a format stands for on method m; false if it is not a format
static bool expand(std::string const &f, int n, Q const &m, std::string &out, bool &unclaimed) {
  out = ""; unclaimed = false; bool nl = true; auto hex = [](char c) { return isdigit((unsigned char)c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '\\') { if (i + 1 == f.size()) { nl = false; break; } char c = f[++i]; char const *p; if (c == 'x') { if (i + 2 >= f.size() || hex(f[i + 1]) < 0 || hex(f[i + 2]) < 0) return false; out += (char)(hex(f[i + 1]) * 16 + hex(f[i + 2])); i += 2; } else if ((p = strchr("abfnrtv", c))) out += "\a\b\f\n\r\t\v"[p - "abfnrtv"]; else out += c; continue; }
    if (f[i] != '$' && f[i] != '%') { out += f[i]; continue; }
    size_t j = ++i; while (i < f.size() && isdigit((unsigned char)f[i])) ++i; std::string a = f.substr(j, i - j), b; bool two = false; if (i < f.size() && f[i] == ',') { j = ++i; while (i < f.size() && isdigit((unsigned char)f[i])) ++i; b = f.substr(j, i - j); two = true; } if (i == f.size()) return false;
    int w = a.empty() ? 0 : atoi(a.c_str()); P lh = lhof(n, m); switch (f[i]) {
      case '$': case '%': case ')': if (two && !b.empty()) return false; out += f[i]; break;
      case 'B': if (!b.empty()) return false; out += pad(std::to_string(n), w); break; case 'L': if (!b.empty()) return false; out += pad(std::to_string(m.size()), w); break; case 'l': if (!a.empty() || !b.empty()) return false; out += str(lh); break;
      case 'h': if (a.empty() || !b.empty()) return false; if (w < 1 || w > (int)m.size()) { out += "<ERROR>"; break; } out += pn(m[w - 1]); break;
      case 'r': if (a.empty() || !b.empty()) return false; if (w > (int)m.size()) { out += "<ERROR>"; break; } out += str(lhof(n, Q(m.begin(), m.begin() + w))); break;
      case 'p': if (two && a.empty()) { unclaimed = true; return true; } { int e = b.empty() ? 0 : atoi(b.c_str()); if (w == 0) { if (e) return false; out += txt(m); break; } if (!e) e = w; if (w > (int)m.size() || e > (int)m.size() || e < w) { out += "<ERROR>"; break; } out += txt(Q(m.begin() + w - 1, m.begin() + e)); break; }
      default: if (strchr("bouGydDqQCSMFPOVUsia#Tc?nN[(*", f[i])) { unclaimed = true; return true; } return false; }
  }
  if (nl) out += '\n'; return true;
}
static void formats(std::string const &alpha, int len, int shard = 0, int of = 1) { // every format string over this alphabet: accepted ones are run together
  Q m; parse_pn(4, "X.14.12", m); std::vector<std::pair<std::string, std::string>> good; std::string s; auto flush = [&]() { if (good.empty()) return; std::string f, w; for (auto &g : good) { f += g.first + "\\n"; w += g.second; } CASE("formats from ", vf::quote(good[0].first), " to ", vf::quote(good.back().first)) { auto o = app::run("methsearch", {"-U0", "-A", "-Fx", "-I", "-R" + f + "\\"}, "4:X.14.12\n"); vf::states(good.size()); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, " ", o.err.substr(0, 100)); if (o.out == w) return;
      for (auto &g : good) { auto r = app::run("methsearch", {"-U0", "-A", "-Fx", "-I", "-R" + g.first}, "4:X.14.12\n"); EXPECT(r.rc == 0 && r.out == g.second, "format", vf::quote(g.first), " gave ", vf::quote(r.out.substr(0, 60)), " not ", vf::quote(g.second)); } } END_CASE good.clear(); };
  uint64_t k = 0; std::function<void()> go = [&]() { if (!s.empty() && (int)(k++ % of) == shard) { std::string w; bool un; if (expand(s, 4, m, w, un)) { if (!un) { vf::outcome(w); if (s.back() == '\\' && (w.empty() || w.back() != '\n')) { CASE(vf::quote(s)) { auto r = app::run("methsearch", {"-U0", "-A", "-Fx", "-I", "-R" + s}, "4:X.14.12\n"); vf::states(); EXPECT(r.rc == 0 && r.out == w, "format", " gave ", vf::quote(r.out.substr(0, 60)), " not ", vf::quote(w)); } END_CASE } else { good.push_back({s, w}); if (good.size() == 400) flush(); } } }
      else CASE(vf::quote(s)) { auto r = app::run("methsearch", {"-U0", "-A", "-Fx", "-I", "-R" + s}, "4:X.14.12\n"); vf::states(); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "refused", r.rc, " ", vf::quote(r.out.substr(0, 60)), " ", r.err.substr(0, 80)); } END_CASE }
    if ((int)s.size() < len) for (char c : alpha) { s += c; go(); s.pop_back(); } };
  go(); flush();
}
VF_SECTION(escapes) { formats("\\x24anq$", vf::tier(4, 5)); }
VF_SECTION(escapes_2) { formats("\\abfrtv%)z", vf::tier(3, 4)); formats("\\x0aFg", vf::tier(5, 6)); }
VF_SECTION(numbers) { formats("$12,ph", vf::tier(4, 5)); }
VF_SECTION(numbers_2) { formats("$03rBl%", vf::tier(4, 5)); formats("$4 L,.p", vf::tier(4, 5)); }
VF_SECTION(every_byte) { for (int c = 1; c < 256; ++c) for (int how = 0; how < 4; ++how) { char const *pre[] = {"", "\\", "a\\x", "$"}; std::string s = pre[how]; char h[4]; snprintf(h, sizeof h, how == 2 && c % 2 ? "%02X" : "%02x", c); if (how == 2) s += h; else s += (char)c; if (how == 3 && strchr("bouGydDqQCSMFPOVUsia#Tc?nN[(*", c)) continue; s += "z"; if (how == 1 && c == 'x') continue;
  CASE(vf::quote(s)) { Q m; parse_pn(4, "X.14.12", m); std::string w; bool un, ok = expand(s, 4, m, w, un); auto r = app::run("methsearch", {"-U0", "-A", "-Fx", "-I", "-R" + s}, "4:X.14.12\n"); vf::states(); vf::outcome(w); if (ok) EXPECT(r.rc == 0 && r.out == w, "format", " gave ", vf::quote(r.out.substr(0, 60)), " not ", vf::quote(w)); else EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "refused", r.rc, " ", vf::quote(r.out.substr(0, 60))); } END_CASE }
}
VF_SECTION(variable_rules) { // which variables want a number, take one or two, and may be used where
  for (char c : std::string("pqQhrlLbouBGdDynNCSMFPOVUsia#Tc?")) for (int num = 0; num < 3; ++num) for (int where = 0; where < 3; ++where) CASE("$", num == 0 ? "" : num == 1 ? "1" : "1,2", c, " in ", where == 0 ? "-R" : where == 1 ? "-H" : "an expression in -H") {
    bool need = strchr("hrP", c), may = strchr("LbouBGMsi#c?pq", c) || need, two = strchr("pq", c), ok = num == 0 ? !need : num == 1 ? may : two; if (c == 'c') ok = ok && where == 1; if (strchr("#T", c)) ok = ok && where == 0; if (strchr("pqQnNi", c) && where == 1) ok = false; if (where == 2 && (c == 'c' || strchr("#T", c))) return;
    std::string v = std::string("$") + (num == 0 ? "" : num == 1 ? "1" : "1,2") + c; A a{c == 'F' ? "-rs" : "-A", c == 'F' ? "-U1" : "-U0", "-Fx", "-I", where == 0 ? "-R" + v : where == 1 ? "-H" + v : "-H$[" + v + "]"}; if (where) a.push_back("-q"); if (c == 'M') a.push_back("-M1*"); if (strchr("nNi", c)) a.push_back("-L" + app::put("lib4", "* 4\nPlain z X.14.X.14.X.14.X.12\n")); auto r = app::run("methsearch", a, "4:X.14.X.14.X.14.X.12\n"); vf::states(); vf::outcome(r.out); if (ok) EXPECT(r.rc == 0 && r.err.empty() && !r.out.empty(), "accepted", r.rc, " ", r.err.substr(0, 100)); else EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "refused", r.rc, " ", vf::quote(r.out)); } END_CASE
}
// ---- statistics --------------------------------------------------------------------
VF_SECTION(statistics) { // each distinct value once, with the number of methods that have it
  struct X { std::string fmt; std::function<std::string(W const &, M const &)> f; }; auto qm = [](W const &w, M const &m) { Q q; for (int c : m) q.push_back(w.ch[c]); return q; }; std::vector<X> xs = {
    {"$l", [](W const &w, M const &m) { return str(w.lh(m)); }}, {"$o", [](W const &w, M const &m) { return std::to_string(order(w.lh(m))); }}, {"$b", [=](W const &w, M const &m) { return std::to_string(RefM(w.n, qm(w, m)).maxblows()); }}, {"$y", [=](W const &w, M const &m) { return symm(qm(w, m)); }}, {"$2h", [](W const &w, M const &m) { return pn(w.ch[m[1]]); }}, {"$3r", [](W const &w, M const &m) { return str(w.rows(m)[3]); }}, {"$2P", [=](W const &w, M const &m) { std::string s; for (int x : RefM(w.n, qm(w, m)).path(1)) s += sym(x); return s; }}, {"$d", [=](W const &w, M const &m) { return RefM(w.n, qm(w, m)).lhc(); }}, {"$u", [=](W const &w, M const &m) { return std::to_string(RefM(w.n, qm(w, m)).hunts()); }}, {"$[$u*10+$o]", [=](W const &w, M const &m) { return std::to_string(RefM(w.n, qm(w, m)).hunts() * 10 + order(w.lh(m))); }}, {"$[$l ~~ \"12*\" ? \"slow\" : $1h]", [](W const &w, M const &m) { P l = w.lh(m); return l[0] == 0 && l[1] == 1 ? std::string("slow") : pn(w.ch[m[0]]); }}, {"$[$2,3p]", [](W const &w, M const &m) { return pn(w.ch[m[1]]) + "." + pn(w.ch[m[2]]); }}};
  std::vector<std::unique_ptr<W>> ws; ws.emplace_back(new W(4, 1, 0)); ws.emplace_back(new W(3, 1, 0)); ws.emplace_back(new W(4, 0, 0, 3)); ws.emplace_back(new W(4, 0, 0, 4)); ws.emplace_back(new W(5, 1, 0, 0, "s")); ws.emplace_back(new W(4, 1, 1, 0, "s")); ws.emplace_back(new W(4, 2, 0));
  for (auto &pw : ws) { W &w = *pw; std::vector<std::map<std::string, std::string>> memo; for (size_t i = 0; i < xs.size(); ++i) for (size_t j = 0; j <= xs.size(); ++j) for (int how = 0; how < 4; ++how) { if (j < xs.size() && (i + j + how) % 3 && vf::tier(1, 0)) continue;
    std::string sep = how == 2 ? "$$" : how == 3 ? "\\t" : "|", cnt = how == 0 ? "$c" : how == 1 ? "$5c" : how == 2 ? "" : "$c $c"; std::string f = how == 3 ? xs[i].fmt + sep + cnt : cnt + sep + xs[i].fmt; if (j < xs.size()) f += sep + xs[j].fmt; CASE(w.name(), w.force, " ", f) {
      A a = w.args(); a.insert(a.end(), {"-A", "-Fx", "-q", "-H" + f}); for (char c : w.force) a.push_back(std::string("-") + c); std::map<std::pair<std::string, std::string>, int> h; for (auto &m : w.all) ++h[{xs[i].f(w, m), j < xs.size() ? xs[j].f(w, m) : ""}]; std::string sp = how == 2 ? "$" : how == 3 ? "\t" : "|"; A want; for (auto &e : h) { std::string n = std::to_string(e.second); std::string c = how == 0 ? n : how == 1 ? pad(n, 5) : how == 2 ? "" : n + " " + n; want.push_back((how == 3 ? e.first.first + sp + c : c + sp + e.first.first) + (j < xs.size() ? sp + e.first.second : "")); }
      auto o = app::run("methsearch", a); vf::states(w.all.size()); vf::outcome(o.out); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, " ", o.err.substr(0, 100)); auto g = sorted(lines(o.out)); want = sorted(want); EXPECT(g == want, "statistics", diff(g, want)); } END_CASE } }
}
