// P28: extent lists every row it should once, and musgrep finds and scores the rows which match.
#include "app.h"
#include "vf.h"
#include "refmus.h"
#include <map>
typedef std::vector<std::string> A;
static std::string joined(A const &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
static A lines(std::string const &s) { A v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
// ---- extent -----------------------------------------------------------------------------------
static void extents(int b) {
  for (int h = 0; h <= b; ++h) for (int t = 0; h + t <= b; ++t) for (int ic = 0; ic < 2; ++ic) for (int form = 0; form < 2; ++form) CASE("extent -b", b, " -h", h, " -t", t, ic ? " -i" : "", form ? " long" : "") {
    if (form && b > 5) return; A a = form ? A{"--bells=" + std::to_string(b), "--hunts=" + std::to_string(h), "--tenors=" + std::to_string(t)} : A{"-b" + std::to_string(b)}; if (!form && h) a.push_back("-h" + std::to_string(h)); if (!form && t) a.push_back("-t" + std::to_string(t)); if (ic) a.push_back(form ? "--in-course" : "-i");
    auto o = app::run("extent", a, "", 60); A got = lines(o.out), want; for (auto &p : perms(b - h - t)) { P r = id(b); for (size_t i = 0; i < p.size(); ++i) r[h + i] = h + p[i]; if (!ic || sign(r) > 0) want.push_back(str(r)); }
    vf::states(want.size()); vf::outcome(std::to_string(want.size())); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, o.err.substr(0, 60)); EXPECT(!o.out.empty() && o.out.back() == '\n', "newline", ""); EXPECT(got.size() == want.size(), "count", got.size(), " not ", want.size()); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); EXPECT(got == want, "rows", "the rows differ");
  } END_CASE
}
VF_SECTION(extent_1) { for (int b = 1; b < 8; ++b) extents(b); }
VF_SECTION(extent_2) { extents(8); }
VF_SECTION(extent_3) { if (vf::tier(0, 1)) extents(9); for (int b = 10; b < 34; ++b) CASE("extent on ", b) { for (int w = 0; w < 4; ++w) for (int h = 0; h + w <= b; h += 3) { auto o = app::run("extent", {"-b" + std::to_string(b), "-h" + std::to_string(h), "-t" + std::to_string(b - w - h)}); A got = lines(o.out), want; for (auto &p : perms(w)) { P r = id(b); for (int i = 0; i < w; ++i) r[h + i] = h + p[i]; want.push_back(str(r)); } std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); vf::states(want.size()); EXPECT(o.rc == 0 && got == want, "rows", h, " ", w, " gave ", got.size()); } } END_CASE }
VF_SECTION(extent_mistakes) { for (auto &a : std::vector<A>{{"-b3", "-h4"}, {"-b3", "-t4"}, {"-b3", "-h2", "-t2"}, {"-b-1"}, {"-b3", "-h-1"}, {"-b3", "-t-1"}, {"-bx"}, {"-b"}, {"-b4", "-hx"}, {"-b4", "-z"}, {"-b4", "1234"}, {"-b4", "--hunt"}, {"-b4", "--in-course=1"}}) CASE(joined(a)) { auto o = app::run("extent", a); vf::states(); EXPECT(o.rc == 1 && o.out.empty() && !o.err.empty(), "accepted", o.rc, " ", o.out.substr(0, 40)); } END_CASE }
// ---- musgrep ----------------------------------------------------------------------------------
struct Modes { bool c = 0, s = 0, S = 0, p = 0, n = 0, H = 0; int course = 0; };
static A args(int n, Modes const &m, bool lng = false) { A a = {lng ? "--bells=" + std::to_string(n) : "-b" + std::to_string(n)}; auto add = [&](bool f, char const *x, char const *l) { if (f) a.push_back(lng ? l : x); }; add(m.c, "-c", "--count"); add(m.s, "-s", "--score"); add(m.S, "-S", "--scores"); add(m.p, "-p", "--positive"); add(m.n, "-n", "--negative"); add(m.H, "-H", "--highlight"); add(m.course == 1, "-i", "--in-course"); add(m.course == 2, "-o", "--out-of-course"); return a; }
static std::string expected(int n, Modes const &m, A const &pats, std::vector<P> const &rows) {
  std::vector<Pat> ps; for (auto &p : pats) ps.push_back(pattern(n, p)); std::vector<long long> tot(ps.size()); long long sum = 0; int cnt = 0, pos = 0, neg = 0, k = 0; std::string out; bool list = !(m.c || m.s || m.S || m.p || m.n);
  for (auto &r : rows) { if ((int)r.size() != n) continue; bool back = k++ % 2; if (m.course == 1 && sign(r) < 0) continue; if (m.course == 2 && sign(r) > 0) continue; long long d = 0; bool any = false; for (size_t i = 0; i < ps.size(); ++i) { int c = ps[i].count(r); any = any || c; long long x = (long long)c * (back ? ps[i].b : ps[i].h); tot[i] += x; d += x; } sum += d; if (any) { ++cnt; pos += d > 0; neg += d < 0; } if (list && (any || m.H)) out += str(r) + (m.H && any ? " *" : "") + "\n"; }
  std::string l; auto put = [&](long long x) { if (!l.empty()) l += "\t"; l += std::to_string(x); }; if (m.p) put(pos); if (m.n) put(neg); if (m.c) put(cnt); if (m.s) put(sum); if (!l.empty()) out += l + "\n"; if (m.S) { l.clear(); for (auto x : tot) put(x); if (!l.empty()) out += l + "\n"; } return out;
}
static std::string text(std::vector<P> const &rows, std::string const &sep = "\n", bool end = true) { std::string s; for (size_t i = 0; i < rows.size(); ++i) s += str(rows[i]) + (end || i + 1 < rows.size() ? sep : ""); return s; }
static void grep(int n, Modes const &m, A const &pats, std::vector<P> const &rows, std::string const &name, std::string const &in, bool lng = false) {
  A a = args(n, m, lng); a.insert(a.end(), pats.begin(), pats.end()); CASE(joined(a), "on ", name) { auto o = app::run("musgrep", a, in, 60); std::string want = expected(n, m, pats, rows); vf::states(rows.size()); vf::outcome(o.out.substr(0, 200)); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, " ", o.err.substr(0, 60)); EXPECT(o.out == want, "output", vf::quote(o.out.substr(0, 100)), " not ", vf::quote(want.substr(0, 100))); } END_CASE
}
static std::vector<Modes> modes(bool all) { std::vector<Modes> v; for (int k = 0; k < 32; ++k) for (int H = 0; H < 2; ++H) for (int c = 0; c < 3; ++c) { Modes m; m.c = k & 1; m.s = k & 2; m.S = k & 4; m.p = k & 8; m.n = k & 16; m.H = H; m.course = c; if (!all && !(k == 0 || (k & (k - 1)) == 0 || k == 31)) continue; if (!all && k && H) continue; v.push_back(m); } return v; }
VF_SECTION(every_mode) { // every set of options over the extent
  auto rows = perms(4); std::string in = text(rows); for (auto &m : modes(true)) for (auto &p : std::vector<A>{{"*4"}, {"1*", "-3:*4"}, {"2,-1:?2*", "<3-runs>", "0:3*"}}) { A q; bool neg = false; for (auto &x : p) neg = neg || x[0] == '-'; if (neg) q = {"1*", "+0,-3:*4"}; else q = p; grep(4, m, q, rows, "the extent", in); grep(4, m, q, rows, "the extent, long options", in, true); } }
VF_SECTION(every_stream) { // every stream of a few rows, some of other sizes
  std::vector<P> pool = {P{0, 1, 2, 3}, P{1, 0, 3, 2}, P{0, 2, 1, 3}, P{3, 2, 1, 0}, P{0, 1, 2}, P{0, 1, 2, 3, 4}, P{2, 0, 1, 3}}; std::vector<P> v; std::vector<Modes> ms(4); ms[1].H = true; ms[2].s = ms[2].c = ms[2].S = ms[2].p = ms[2].n = true; ms[3].course = 1; ms[3].s = true;
  std::function<void()> go = [&]() { std::string in = text(v), nm; for (auto &r : v) nm += str(r) + " "; if (!in.empty()) for (auto &m : ms) grep(4, m, {"5,-7:1*", "<3-runs>"}, v, nm, in); if ((int)v.size() < vf::tier(3, 5)) for (auto &p : pool) { v.push_back(p); go(); v.pop_back(); } }; go(); }
static void every_pattern(int shard, int of) { auto rows = perms(4); std::string in = text(rows); A al = {"1", "2", "4", "?", "*", "[12]", "[341]"}; std::vector<A> ps; int c = 0; std::function<void(std::string, int)> go = [&](std::string s, int d) { if (!s.empty() && c++ % of == shard) { grep(4, Modes(), {s}, rows, "the extent", in); Modes m; m.s = m.c = m.p = true; grep(4, m, {"2,-1:" + s, "*1"}, rows, "the extent", in); } if (d < vf::tier(3, 5)) for (auto &x : al) go(s + x, d + 1); }; go("", 0); }
VF_SECTION(every_pattern_1) { every_pattern(0, 3); }
VF_SECTION(every_pattern_2) { every_pattern(1, 3); }
VF_SECTION(every_pattern_3) { every_pattern(2, 3); }
VF_SECTION(pairs) { // rows that match several patterns are counted once and scored for each
  auto rows = perms(4); std::string in = text(rows); A ps = {"1*", "*4", "-2,3:1*", "?2*", "<rounds>", "10:<queens>", "<3-runs>", "0,1:<4-runs>", "<back-3-runs>", "0:*", "+1,-1:[12]*", "*21*"}; auto ms = modes(false); for (auto &p : ps) for (auto &q : ps) { if (p[0] == '-') continue; for (auto &m : ms) { if (m.course && !vf::tier(0, 1) && !(m.s && !m.c)) continue; grep(4, m, q[0] == '-' ? A{p, "+" + q.substr(1)} : A{p, q}, rows, "the extent", in); } } }
VF_SECTION(stages) { for (int n = 1; n <= 12; ++n) { std::vector<P> rows; if (n < 6) rows = perms(n); else { auto w = perms(5); for (size_t i = 0; i < w.size(); ++i) { P r = id(n); for (int j = 0; j < 5; ++j) r[n - 5 + j] = n - 5 + w[i][j]; if (i % 3 == 1) std::reverse(r.begin(), r.end()); if (i % 3 == 2) std::rotate(r.begin(), r.begin() + i % n, r.end()); rows.push_back(r); } for (auto &s : A{"rounds", "queens", "kings", "tittums", "reverse-rounds"}) rows.push_back(named_row(s, n)); } std::string in = text(rows); A pats = {"<rounds>", "<queens>", "2,3:<kings>", "<tittums>", "<reverse-rounds>", "1*", "*1"}; if (n >= 6) pats.push_back("<CRUs>"); for (int l = 3; l <= n && l < 7; ++l) for (auto &x : A{"", "front-", "back-"}) pats.push_back("<" + x + std::to_string(l) + "-runs>"); for (auto &p : pats) for (auto &m : modes(false)) { if (m.course && m.H) continue; grep(n, m, {p}, rows, "rows", in); } Modes m; m.S = m.s = m.c = true; grep(n, m, pats, rows, "rows", in); } }
VF_SECTION(spacing) { // however the rows are separated
  auto rows = perms(4); Modes m; m.s = true; for (auto &sep : A{"\n", " ", "\t", "\r\n", "\n\n", "  \n\t"}) for (int end = 0; end < 2; ++end) for (size_t k = 1; k <= rows.size(); ++k) { std::vector<P> v(rows.begin(), rows.begin() + k); for (auto &x : {Modes(), m}) grep(4, x, {"3,7:*4", "1*"}, v, vf::cat(k, " rows ", vf::quote(sep), end), (end ? "" : sep) + text(v, sep, end)); } for (auto &m : modes(true)) for (auto &in : A{"\n", " ", "\n\n\t"}) { grep(4, m, {"1*"}, {}, "nothing", in); grep(4, m, {}, {}, "nothing, no patterns", in); } for (auto &m : modes(true)) grep(4, m, {}, rows, "no patterns", text(rows)); }
VF_SECTION(mistakes) { for (auto &a : std::vector<A>{{"1*"}, {"-b0", "1*"}, {"-b-1", "1*"}, {"-bx", "*"}, {"-b4", "-i", "-o", "*"}, {"-b4", "5*"}, {"-b4", "["}, {"-b4", "<foo>"}, {"-b4", "<5-runs>"}, {"-b4", "<2-runs>"}, {"-b4", "1,2,3:*"}, {"-b4", "a"}, {"-b4", "--foo", "*"}, {"-b4", "-z", "*"}, {"-b4", "*", "1]"}, {"-b4", "--count=3", "*"}}) CASE(joined(a)) { auto o = app::run("musgrep", a, "1234\n2143\n"); vf::states(); EXPECT(o.rc == 1 && o.out.empty() && !o.err.empty(), "accepted", o.rc, " ", o.out.substr(0, 40)); } END_CASE }
