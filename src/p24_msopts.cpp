// P24: methsearch's masks, prefixes, limits, counts, filters and orders select as its manual says.
#include "app.h"
#include "ms.h"
#include <memory>
typedef std::vector<std::string> A;
static std::string join(A const &t, char const *sep = " ") { std::string s; for (auto &x : t) s += (s.empty() ? "" : sep) + x; return s; }
static std::string line(W const &w, M const &m) { return w.txt(m) + "\t" + str(w.lh(m)); }
static A sorted(A v) { std::sort(v.begin(), v.end()); return v; }
static A plus(A a, A const &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static A base(W const &w) { A a = w.args(); a.push_back("-A"); a.push_back("-Fx"); for (char c : w.force) a.push_back(std::string("-") + c); return a; }
typedef std::function<bool(M const &)> Pred;
static A wanted(W const &w, Pred f) { A v; for (auto &m : w.all) if (f(m)) v.push_back(line(w, m)); std::sort(v.begin(), v.end()); return v; }
static void expect(A const &a, A const &want, bool mayrefuse, std::string const &how) {
  auto o = app::run("methsearch", a); vf::states(want.size() + 1); vf::outcome(std::to_string(want.size()));
  if (want.empty() && mayrefuse && o.rc == 1 && o.out.empty() && !o.err.empty()) return;
  EXPECT(o.rc == 0 && o.err.empty(), "status", how, " ", o.rc, " ", o.err.substr(0, 200)); auto got = sorted(lines(o.out)); EXPECT(got == want, "methods", how, " ", diff(got, want));
}
// ---- masks -----------------------------------------------------------------
struct Tok { char k; std::vector<int> c; }; // '?', '*', or 'c' with one or more changes
typedef std::vector<Tok> Seq;
struct Blk { bool amp = false, split = false; Seq a, b; };
typedef std::vector<Blk> Mask;
struct Pos { Tok a, b; bool split; };
static bool sized(Blk const &, Seq const &s, bool amp, int len, std::vector<Tok> &out) { // len < 0: no star
  int k = s.size(), st = -1; for (int i = 0; i < k; ++i) if (s[i].k == '*') st = i; Tok q{'?', {}}; out.clear();
  if (!amp) { int y = st < 0 ? 0 : len - (k - 1); if (y < 0) return false; for (int i = 0; i < k; ++i) if (i == st) out.insert(out.end(), y, q); else out.push_back(s[i]); }
  else { int y = 0; if (st >= 0) { if (st == k - 1) { y = len - 2 * (k - 1); if (y < 1 || y % 2 == 0) return false; } else { int r = len - (2 * k - 3); if (r < 0 || r % 2) return false; y = r / 2; } }
    Seq h; for (int i = 0; i < k - 1; ++i) if (i == st) h.insert(h.end(), y, q); else h.push_back(s[i]); out = h; if (st == k - 1) out.insert(out.end(), y, q); else out.push_back(s[k - 1]); for (int i = (int)h.size() - 1; i >= 0; --i) out.push_back(h[i]); }
  return len < 0 || (int)out.size() == len;
}
static int fixedlen(Seq const &s, bool amp) { for (auto &t : s) if (t.k == '*') return -1; return s.empty() ? 0 : amp ? 2 * s.size() - 1 : s.size(); }
static bool eval(Mask const &m, int L, std::vector<Pos> &out) {
  int unk = -1, have = 0; std::vector<int> len; for (size_t i = 0; i < m.size(); ++i) { int l = fixedlen(m[i].a, m[i].amp); if (m[i].split) { int l2 = fixedlen(m[i].b, m[i].amp); if (l >= 0 && l2 >= 0 && l != l2) return false; l = std::max(l, l2); } if (l < 0) { if (unk >= 0) return false; unk = i; } else have += l; len.push_back(l); }
  if (unk >= 0) { if (have > L) return false; len[unk] = L - have; } else if (have != L) return false;
  out.clear(); for (size_t i = 0; i < m.size(); ++i) { std::vector<Tok> a, b; if (!sized(m[i], m[i].a, m[i].amp, len[i], a)) return false; b = a; if (m[i].split && !sized(m[i], m[i].b, m[i].amp, len[i], b)) return false; for (size_t k = 0; k < a.size(); ++k) out.push_back({a[k], b[k], m[i].split}); }
  return true;
}
static bool moves(W const &w, int c, int i) { for (auto &p : w.path) { int to = -1; for (int j = 0; j < w.n; ++j) if (w.pm[c][j] == p[i]) to = j; if (to != p[i + 1]) return false; } return true; }
static bool fits(W const &w, std::vector<Pos> const &p) { for (size_t i = 0; i < p.size(); ++i) { for (int c : p[i].a.c) if (!moves(w, c, i)) return false; for (int c : p[i].b.c) if (!moves(w, c, i)) return false; } return true; }
static bool sameabove(W const &w, int c, int d, int i) { int hi = std::max(w.path[0][i], w.path[0][i + 1]); for (int j = hi; j + 1 < w.n; ++j) if (w.ch[c][j] != w.ch[d][j]) return false; return true; }
static bool samebelow(W const &w, int c, int d, int i) { int lo = std::min(w.path[0][i], w.path[0][i + 1]); for (int j = 0; j < lo; ++j) if (w.ch[c][j] != w.ch[d][j]) return false; return true; }
static bool match(W const &w, std::vector<Pos> const &p, M const &m) {
  for (size_t i = 0; i < p.size(); ++i) {
    if (!p[i].split) { if (p[i].a.k != '?' && std::find(p[i].a.c.begin(), p[i].a.c.end(), m[i]) == p[i].a.c.end()) return false; continue; }
    bool oa = p[i].a.k == '?', ob = p[i].b.k == '?'; for (int c : p[i].a.c) oa = oa || sameabove(w, c, m[i], i); for (int c : p[i].b.c) ob = ob || samebelow(w, c, m[i], i); if (!oa || !ob) return false;
  }
  return true;
}
static std::string print(W const &w, Seq const &s, int style) { std::string r; bool sep = false; for (auto &t : s) { std::string x; if (t.k != 'c') x = t.k; else if (t.c.size() > 1) { for (int c : t.c) x += (x.empty() ? "(" : "|") + pn(w.ch[c]); x += ")"; } else { x = pn(w.ch[t.c[0]]); if (style & 1) { if (x == "X") x = style & 2 ? "-" : "x"; else { std::string y; for (char ch : x) y += "{" + std::to_string(int(strchr(ref::SYM, ch) - ref::SYM) + 1) + "}"; x = y; } } }
    bool word = t.k == 'c' && t.c.size() == 1 && x != "X" && x != "x" && x != "-"; if (!r.empty() && ((sep && word) || (style & 4))) r += "."; r += x; sep = word; } return r; }
static std::string print(W const &w, Mask const &m, int style = 0) { std::string r; for (auto &b : m) { if (!r.empty()) r += style & 8 ? " , " : ","; std::string amp = b.amp ? style & 8 ? "& " : "&" : style & 2 ? "+" : ""; r += amp + print(w, b.a, style); if (b.split) r += "/" + amp + print(w, b.b, style); } return r; }
static void judge(W const &w, Mask const &m, int style = 0, A const &extra = {}, Pred also = 0) {
  std::vector<Pos> p; bool ok = eval(m, w.L, p); if (ok && !fits(w, p)) return; std::string t = print(w, m, style);
  A a = plus(plus(base(w), extra), {"-m" + t});
  if (!ok) { auto o = app::run("methsearch", a); EXPECT(o.rc == 1 && o.out.empty() && !o.err.empty(), "refused", t, " ", o.rc, " ", o.out.substr(0, 80)); EXPECT(o.err.find("vector") == std::string::npos, "refused", o.err.substr(0, 200)); vf::states(); return; }
  A want = wanted(w, [&](M const &x) { return match(w, p, x) && (!also || also(x)); }); if (want.size() > (size_t)vf::tier(1000, 100000)) return;
  expect(a, want, true, join(extra) + " -m" + t);
}
static std::vector<Tok> toks(W const &w, int lists = 2, int at = -1) { std::vector<Tok> v{{'?', {}}, {'*', {}}}; std::vector<int> cs; for (int c = 0; c < (int)w.ch.size(); ++c) { bool ok = at < 0 && !w.U; for (int i = 0; i < w.L && w.U; ++i) if ((at < 0 || at == i) && moves(w, c, i)) ok = true; if (ok) cs.push_back(c); } for (int c : cs) v.push_back({'c', {c}});
  if (lists > 0 && cs.size() > 1) v.push_back({'c', {cs[0], cs[1]}}); if (lists > 1 && cs.size() > 2) { v.push_back({'c', {cs.back(), cs[0]}}); v.push_back({'c', cs}); } return v; }
template <class F> static void seqs(std::vector<Tok> const &T, int len, F f) { Seq s; std::function<void()> go = [&] { if ((int)s.size() == len) { f(s); return; } for (auto &t : T) { if (t.k == '*') { bool had = false; for (auto &x : s) had = had || x.k == '*'; if (had) continue; } s.push_back(t); go(); s.pop_back(); } }; go(); }
static void principle_masks(W const &w, int maxlen, int ampfrom) { int n = 0; auto T = toks(w, 2), T1 = toks(w, 1);
  for (int l = 1; l <= maxlen; ++l) seqs(l < 4 ? T : T1, l, [&](Seq const &s) { int st = n++ % 16; CASE(w.name() + print(w, {{false, false, s, {}}}) + vf::cat(" ", st)) { judge(w, {{false, false, s, {}}}, st); } END_CASE });
  for (int l = 1; l <= ampfrom; ++l) seqs(T1, l, [&](Seq const &s) { for (int x = 0; x <= 2; ++x) seqs(x == 2 ? std::vector<Tok>{{'?', {}}, {'*', {}}, {'c', {0}}} : T1, x, [&](Seq const &u) { Mask m{{true, false, s, {}}}; if (x) m.push_back({false, false, u, {}}); int f = 0; for (auto &b : m) { int k = fixedlen(b.a, b.amp); f = k < 0 || f < 0 ? -1 : f + k; } if (f >= 0 && f != w.L && n % 5) { ++n; return; } int st = n++ % 16; CASE(w.name() + print(w, m) + vf::cat(" ", st)) { judge(w, m, st); if (x) judge(w, {m[1], m[0]}, st); } END_CASE }); });
}
VF_SECTION(masks_3) { principle_masks(W(3, 0, 0, 2), 3, 2); principle_masks(W(3, 0, 0, 3), 4, 2); }
VF_SECTION(masks_4) { principle_masks(W(4, 0, 0, 2), 3, 2); principle_masks(W(4, 0, 0, 3), vf::tier(3, 4), 2); }
VF_SECTION(masks_4_sym) { principle_masks(W(4, 0, 0, 4), 1, vf::tier(2, 3)); principle_masks(W(4, 0, 0, 1), 2, 1); }
VF_SECTION(masks_5) { principle_masks(W(5, 0, 0, 2), 3, 2); }
// hunt bells: every position given a token of its own, in the forms that fill the lead
static void hunt_masks(W const &w, int stride) { int n = 0; int L = w.L, h = L / 2;
  auto tk = [&](int i) { auto v = toks(w, 2, i); std::vector<Tok> o; for (auto &t : v) if (t.k != '*') o.push_back(t); return o; };
  auto at = [&](std::function<Mask(std::vector<Tok> const &)> mk, std::vector<int> const &pos, int str) { std::vector<Tok> pick(pos.size()); std::function<void(size_t)> go = [&](size_t k) { if (k == pos.size()) { if (n++ % str) return; Mask m = mk(pick); int st = n % 16; CASE(w.name() + print(w, m) + vf::cat(" ", st)) { judge(w, m, st); } END_CASE return; } for (auto &t : tk(pos[k])) { pick[k] = t; go(k + 1); } }; go(0); };
  for (int i = 0; i < L; ++i) for (int j = i + 1; j < L; ++j) { at([&](std::vector<Tok> const &p) { Seq s(L, Tok{'?', {}}); s[i] = p[0]; s[j] = p[1]; return Mask{{false, false, s, {}}}; }, {i, j}, stride * 2); } // two positions in full
  for (int i = 0; i < 3; ++i) at([&](std::vector<Tok> const &p) { Seq s(p.begin(), p.begin() + i); s.push_back({'*', {}}); s.insert(s.end(), p.begin() + i, p.end()); return Mask{{false, false, s, {}}}; }, i == 0 ? std::vector<int>{L - 2, L - 1} : i == 1 ? std::vector<int>{0, L - 1} : std::vector<int>{0, 1}, 1); // star first, inside and last
  { std::vector<int> pos; for (int i = 0; i < h; ++i) pos.push_back(i); pos.push_back(L - 1); at([&](std::vector<Tok> const &p) { Seq s(p.begin(), p.end() - 1); return Mask{{true, false, s, {}}, {false, false, {p.back()}, {}}}; }, pos, stride * 16); } // &...,x
  for (int star = 0; star < 3; ++star) at([&](std::vector<Tok> const &p) { Seq s{p[0], p[1]}; s.insert(s.begin() + star, Tok{'*', {}}); return Mask{{true, false, s, {}}, {false, false, {p.back()}, {}}}; }, star == 2 ? std::vector<int>{0, 1, L - 1} : star == 1 ? std::vector<int>{0, h - 1, L - 1} : std::vector<int>{h - 2, h - 1, L - 1}, stride); // &.*.,x
  { std::vector<int> pos{0, 1, h - 1, L - 1}; at([&](std::vector<Tok> const &p) { Seq a{p[0], {'*', {}}, p[2]}, b{p[0], p[1], {'*', {}}}; return Mask{{true, true, a, b}, {false, false, {p.back()}, {}}}; }, pos, stride * 2); } // &a/&b with two stars
  { std::vector<int> pos; for (int i = 0; i < h; ++i) pos.push_back(i); at([&](std::vector<Tok> const &p) { Seq s(p.begin(), p.end()); return Mask{{true, true, s, {{'*', {}}}}, {false, false, {{'?', {}}}, {}}}; }, pos, stride * 8); at([&](std::vector<Tok> const &p) { Seq s(p.begin(), p.end()); return Mask{{true, true, {{'*', {}}}, s}, {false, false, {{'?', {}}}, {}}}; }, pos, stride * 8); } // above or below given
  { std::vector<int> pos{0, 1, 2, 1, 2}; at([&](std::vector<Tok> const &p) { Seq a{p[0], p[1], p[2]}, b{{'?', {}}, p[3], p[4]}; return Mask{{false, true, a, b}, {false, false, {{'*', {}}}, {}}}; }, pos, stride * 8); } // sections of equal length
}
VF_SECTION(masks_hunt_3) { hunt_masks(W(3, 1, 0), 1); }
VF_SECTION(masks_hunt_4) { hunt_masks(W(4, 1, 0), vf::tier(2, 1)); }
VF_SECTION(masks_hunt_6) { hunt_masks(W(6, 1, 0, 0, "s"), vf::tier(160, 16)); }
VF_SECTION(masks_dodging) { hunt_masks(W(4, 1, 1, 0, "s"), vf::tier(16, 2)); }
VF_SECTION(mask_alternatives) { // above and below work of one alternative are not mixed with those of another
  W w(6, 1, 0, 0, vf::tier(1, 0) ? "sk" : "s"); for (int i : {1, 2, 3}) { auto T = toks(w, 0, i); std::vector<int> cs; for (auto &t : T) if (t.k == 'c') cs.push_back(t.c[0]); for (size_t a = 0; a < cs.size(); ++a) for (size_t b = 0; b < cs.size(); ++b) for (size_t c = b; c < cs.size(); ++c) { if (a == b) continue; Seq s(i, Tok{'?', {}}); Tok t{'c', {cs[a], cs[b]}}; if (c != b) t.c.push_back(cs[c]); s.push_back(t); s.push_back({'*', {}}); Mask m{{true, false, s, {}}, {false, false, {{'?', {}}}, {}}}; CASE(print(w, m)) { judge(w, m); } END_CASE } }
}
static void masked_pairs(W const &w, std::string const &opt, std::vector<M> const &all, int stride, bool split) { // two positions given
  int L = w.L, n = 0; for (int i = 0; i < L; ++i) for (int j = i + 1; j < L; ++j) { auto A1 = toks(w, 2, w.U ? i : -1), A2 = toks(w, 2, w.U ? j : -1); for (auto &x : A1) for (auto &y : A2) { if (x.k != 'c' || y.k != 'c' || n++ % stride) continue;
    Seq s(L, Tok{'?', {}}); s[i] = x; s[j] = y; Mask m{{false, false, s, {}}}; if (split) { Seq o(L, Tok{'?', {}}); Seq o2 = o; o[i] = x; o2[j] = y; m = {{false, true, s, s}}; if (n % 3 == 1) m = {{false, true, o, o2}}; if (n % 3 == 2) m = {{false, true, s, o}}; }
    CASE(w.name() + opt + " " + print(w, m)) { std::vector<Pos> p; eval(m, L, p); if (!fits(w, p)) return; A a = w.args(); a.insert(a.end(), {"-A", "-Fx", "-m" + print(w, m)}); std::istringstream is(opt); std::string o; while (is >> o) a.push_back(o);
      A want; for (auto &q : all) if (match(w, p, q)) want.push_back(line(w, q)); std::sort(want.begin(), want.end()); expect(a, want, true, join(a)); } END_CASE } }
}
VF_SECTION(mask_symmetry) { // a mask is refused as inconsistent only when no method satisfies it
  struct X { int n, U, G, L, str; }; for (X x : {X{4, 1, 0, 0, 1}, X{4, 2, 0, 0, 1}, X{4, 1, 1, 0, 40}, X{4, 0, 0, 4, 40}, X{3, 0, 0, 4, 10}, X{5, 2, 0, 0, 60}}) for (char const *sy : {"s", "k", "d", "sk"}) { int L = x.U ? 2 * x.n * (1 + x.G) : x.L; if (L % 4 && strchr(sy, 'k')) continue; W w(x.n, x.U, x.G, x.L, sy); for (int sp = 0; sp < (x.U ? 2 : 1); ++sp) masked_pairs(w, std::string("-") + sy, w.all, vf::tier(x.str * (sp + 1), (x.str + 3) / 4), sp); }
}
VF_SECTION(mask_twin) { // masks on dodging twin hunts select from the search without a mask
  for (char const *sy : {"-s", "-k", "-d"}) for (int n : {4, 5}) { A a{"-b" + std::to_string(n), "-U2", "-G1", "-A", "-Fx", sy}; if (n == 5) a.push_back("-l3"); auto all = lines(app::run("methsearch", a).out); std::vector<A> pn; std::vector<std::set<std::string>> at; for (auto &l : all) { A x; std::istringstream is(l.substr(0, l.find('\t'))); std::string t; while (std::getline(is, t, '.')) x.push_back(t); pn.push_back(x); at.resize(x.size()); for (size_t i = 0; i < x.size(); ++i) at[i].insert(x[i]); }
    int k = 0; for (size_t i = 0; i < at.size(); ++i) for (size_t j = i + 1; j < at.size(); ++j) for (auto &x : at[i]) for (auto &y : at[j]) { if (k++ % vf::tier(n == 4 ? 2 : 9, 1)) continue; std::string m; for (size_t t = 0; t < at.size(); ++t) m += t == i ? (t ? "." : "") + x + "." : t == j ? y + "." : "?"; CASE(join(a) + " " + m) { A want; for (size_t t = 0; t < pn.size(); ++t) if (pn[t][i] == x && pn[t][j] == y) want.push_back(all[t]); std::sort(want.begin(), want.end()); expect(plus(a, {"-m" + m}), want, true, join(a) + " -m" + m); } END_CASE } }
}
VF_SECTION(mask_floating) { for (char const *sy : {"-s", "-k", "-d"}) for (int L : {4, 6}) { if (L == 6 && *(sy + 1) == 'k') continue; W w(3, 0, 0, L); std::string opt = std::string(sy) + " --floating-sym"; auto o = app::run("methsearch", plus(base(w), {sy, "--floating-sym"})); std::set<std::string> on; for (auto &l : lines(o.out)) on.insert(l); std::vector<M> all; for (auto &m : w.all) if (on.count(line(w, m))) all.push_back(m); masked_pairs(w, opt, all, vf::tier(L == 4 ? 3 : 20, 1), false); } }
VF_SECTION(mask_overrides) { // what a mask gives is not subject to -w and -f, nor without hunt bells to -l, -j, --changes and -Fn
  { W w(4, 1, 0); for (int i = 0; i < w.L; ++i) for (auto &t : toks(w, 2, i)) { if (t.k != 'c') continue; Seq s(w.L, Tok{'?', {}}); s[i] = t; Mask m{{false, false, s, {}}};
    for (int o = 0; o < 2; ++o) if (!o || i != w.L - 1) CASE(w.name() + print(w, m) + (o ? " -f" : " -w")) { judge(w, m, 0, {o ? "-f" : "-w"}, [&](M const &x) { for (int k = 0; k < w.L; ++k) { if (k == i) continue; if (o ? k != w.L / 2 - 1 && w.pl(x[k], w.n - 1) && w.pl(x[k], w.n - 2) : !w.rightplace(x[k], k)) return false; } return true; }); } END_CASE } }
  for (int L = 1; L <= 3; ++L) { W w(4, 0, 0, L); for (int i = 0; i < L; ++i) for (auto &t : toks(w, 2, i < 0 ? 0 : -1)) { if (t.k != 'c') continue; Seq s(L, Tok{'?', {}}); s[i] = t; Mask m{{false, false, s, {}}};
    for (int o = 0; o < 7; ++o) { if (o == 1 && i == L - 1) continue; A e = o == 0 ? A{"-w"} : o == 1 ? A{"-f"} : o == 2 ? A{"-l1"} : o == 3 ? A{"-l2"} : o == 4 ? A{"-j1"} : o == 5 ? A{"--changes=X,14"} : A{"--changes=!X,14"}; int x = w.find("X"), y = w.find("14"); CASE(w.name() + print(w, m) + " " + join(e)) { judge(w, m, 0, e, [&](M const &q) { for (int k = 0; k < L; ++k) { int c = q[k]; if (k == i) continue; auto pl = places(w.ch[c]); bool adj = false; for (int z = 0; z + 1 < 4; ++z) adj = adj || (w.pl(c, z) && w.pl(c, z + 1)); bool ok = o == 0 ? k % 2 || c == x : o == 1 ? !w.pl(c, 2) : o == 2 ? w.np(c) <= 1 : o == 3 ? w.np(c) <= 2 : o == 4 ? !adj : o == 5 ? c == x || c == y : c != x && c != y; if (!ok) return false; } return true; }); } END_CASE } } }
}
VF_SECTION(bell_expressions) { for (int n = 4; n <= 32; n += 2) { std::string N = n <= 33 ? std::string(1, sym(n - 1)[0]) : "{" + std::to_string(n) + "}"; P r = id(n); Sw x, y; parse_change(n, "X", x); y.assign(n, 0); for (int i = 1; i + 1 < n - 1; i += 2) y[i] = 1; P lh = mul(sw_perm(x), sw_perm(y));
  for (std::string f : std::vector<std::string>{"X1{N}", "-.1{N}", "x{1}{" + std::to_string(n) + "}", "X1", "X{N}", "(X|{1})1", "X,{N}", "?{N}", "X1{ N }"}) { if (f[0] == '?' && n > 6) continue; if (f[0] == '(') f = "(X|1" + N + ")1"; CASE(vf::cat(n, " ", f)) { A a{"-b" + std::to_string(n), "-U0", "-n2", "-A", "-Fx", "-l2", "-m" + f}; auto o = app::run("methsearch", a); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, o.err.substr(0, 200)); std::string want = "X.1" + N + "\t" + str(lh); auto g = lines(o.out); EXPECT(std::count(g.begin(), g.end(), want) == 1, "methods", o.out.substr(0, 200), " not ", want); EXPECT((g.size() == 1) == (f[0] != '?' && f[0] != '('), "methods", g.size()); vf::states(); } END_CASE }
  { CASE(vf::cat(n, " {N-1}")) { std::string f = "X.{N-" + std::to_string(n - 2) + "}{N-1}"; auto o = app::run("methsearch", {"-b" + std::to_string(n), "-U0", "-n2", "-A", "-Fx", "-m" + f}); bool bad = n % 2 == 1 || n < 4; Sw c; std::string t = "2{" + std::to_string(n - 1) + "}"; bad = !parse_change(n, t, c); if (bad) EXPECT(o.rc == 1, "refused", f); else { P l = mul(sw_perm(x), sw_perm(c)); EXPECT(o.rc == 0 && lines(o.out).size() == 1 && o.out.find("\t" + str(l) + "\n") != std::string::npos, "methods", f, " ", o.rc, o.out, o.err); } vf::states(); } END_CASE }
} }
// ---- prefixes, starting points, limits and counts --------------------------
static std::vector<W *> worlds() { static std::vector<std::unique_ptr<W>> v; if (v.empty()) { v.emplace_back(new W(4, 1, 0)); v.emplace_back(new W(3, 1, 0)); v.emplace_back(new W(4, 0, 0, 3)); v.emplace_back(new W(3, 0, 0, 4)); for (char const *s : {"s", "k", "d", "sk"}) v.emplace_back(new W(4, 1, 0, 0, s)); v.emplace_back(new W(6, 1, 0, 0, "sk")); v.emplace_back(new W(4, 1, 1, 0, "s")); v.emplace_back(new W(4, 2, 0, 0, "s")); v.emplace_back(new W(5, 2, 0, 0, "s")); } std::vector<W *> r; for (auto &p : v) r.push_back(p.get()); return r; }
static A basef(W const &w) { return base(w); }
VF_SECTION(prefixes) { for (W *w : worlds()) { if (w->all.size() > 3000) continue; std::set<M> pre; for (auto &m : w->all) for (int k = 1; k <= 3 && k <= w->L; ++k) pre.insert(M(m.begin(), m.begin() + k)); for (size_t i = 0; i < w->all.size(); i += std::max<size_t>(1, w->all.size() / 20)) pre.insert(w->all[i]);
  for (auto &p : pre) for (int o = 0; o < 2; ++o) CASE(w->name() + w->force + " " + w->txt(p) + (o ? " with a mask" : "")) { A a = plus(basef(*w), {"--prefix=" + w->txt(p)}); M l = w->all[w->all.size() / 2]; if (o) a.push_back("-m*." + w->txt(M(l.end() - 1, l.end()))); expect(a, wanted(*w, [&](M const &m) { return std::equal(p.begin(), p.end(), m.begin()) && (!o || m.back() == l.back()); }), true, join(a)); } END_CASE } }
static void starts(W const &w, A const &opt, int step) { A b = plus(basef(w), opt); auto all = lines(app::run("methsearch", b).out); for (size_t i = 0; i < all.size(); i += step) CASE(join(b) + " " + all[i]) { auto o = app::run("methsearch", plus(b, {"--start-at=" + all[i].substr(0, all[i].find('\t'))})); auto g = lines(o.out); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, o.err); A want(all.begin() + i, all.end()); EXPECT(g == want, "resumed", "from ", all[i], ": ", diff(sorted(g), sorted(want))); vf::states(g.size()); } END_CASE }
VF_SECTION(starting_points) { for (W *w : worlds()) starts(*w, {}, std::max<int>(1, w->all.size() / vf::tier(40, 200))); starts(W(4, 1, 0), {"-p2"}, vf::tier(9, 1)); starts(W(4, 1, 0), {"-l2"}, vf::tier(9, 1)); starts(W(4, 1, 0), {"-w"}, 1); starts(W(5, 1, 0), {"-l2", "-p2", "-j1"}, vf::tier(29, 3)); }
VF_SECTION(limits) { for (W *w : worlds()) for (int how = 0; how < 3; ++how) { A b = basef(*w); if (how == 1) b.push_back("-l2"); if (how == 2) b.push_back("-p2"); A all; for (size_t k : {1, 2, 3, 5, 8, 13, 21, 50, 100, 1000, 100000}) CASE(join(b) + vf::cat(" ", k)) { if (all.empty()) all = wanted(*w, [&](M const &m) { return how == 0 ? true : how == 1 ? w->maxplaces(m) <= 2 : w->blows(m) <= 2; }); if (all.size() > 20000 && k > 1000) return; auto o = app::run("methsearch", plus(b, {"--limit=" + std::to_string(k), "--raw-count"})); auto g = lines(o.out); std::string n = std::to_string(std::min(k, all.size())); EXPECT(o.rc == 0 && g.size() >= 1, "status", o.rc, o.err); EXPECT(g.back() == n, "count", g.back(), " not ", n); g.pop_back(); if (!g.empty()) { EXPECT(g.back().empty(), "layout", g.back()); g.pop_back(); } std::set<std::string> u(g.begin(), g.end()); EXPECT(u.size() == g.size() && g.size() == std::min(k, all.size()), "limit", g.size(), " of ", all.size()); for (auto &x : u) EXPECT(std::binary_search(all.begin(), all.end(), x), "methods", x); vf::states(g.size()); } END_CASE } }
VF_SECTION(outputs) { // listing, statistics and counts, in that order, with blank lines between
  std::vector<std::pair<W *, A>> v; for (W *w : worlds()) { v.push_back({w, {}}); v.push_back({w, {"-l2"}}); v.push_back({w, {"-l2", "-p2", "-mX*"}}); }
  for (auto &x : v) { W &w = *x.first; if (w.all.size() > 3000) continue; A all = lines(app::run("methsearch", plus(basef(w), x.second)).out); for (int q = 0; q < 2; ++q) for (int h = 0; h < 4; ++h) for (int c = 0; c < 3; ++c) for (int of = 0; of < 2; ++of) { CASE(join(plus(basef(w), x.second)) + vf::cat(" ", q, h, c, of)) {
    A a = plus(basef(w), x.second); std::string fn = app::work() + "/list"; unlink(fn.c_str()); if (q) a.push_back("-q"); if (h) a.push_back(h == 1 ? "-H$c $l" : h == 2 ? "-H$4c:$l" : "-H$l"); if (c) a.push_back(c == 1 ? "-C" : "--raw-count"); if (of) a.push_back("-o" + fn);
    auto o = app::run("methsearch", a); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, o.err.substr(0, 100)); std::map<std::string, int> hist; for (auto &s : all) ++hist[s.substr(s.find('\t') + 1)];
    A st; if (h) for (auto &e : hist) { std::string k = std::to_string(e.second); if (h == 2) k.insert(0, k.size() < 4 ? 4 - k.size() : 0, ' '); st.push_back(h == 1 ? k + " " + e.first : h == 2 ? k + ":" + e.first : e.first); }
    A g = lines(o.out), part[3]; size_t k = 0; if (c && !g.empty()) { part[2] = {g.back()}; g.pop_back(); if (!g.empty()) { EXPECT(g.back().empty(), "layout", "no blank line before the count: ", g.back()); g.pop_back(); } } if (h) { size_t m = std::min(g.size(), st.size()); part[1].assign(g.end() - m, g.end()); g.resize(g.size() - m); if (!q && !of && m) { EXPECT(!g.empty() && g.back().empty(), "layout", "no blank line before the statistics"); if (!g.empty()) g.pop_back(); } else while (!g.empty() && g.back().empty()) g.pop_back(); } part[0] = g; (void)k;
    if (of && !q) { std::ifstream f(fn.c_str()); std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); EXPECT(sorted(lines(t)) == sorted(all), "file", lines(t).size(), " not ", all.size()); } while (!part[0].empty() && part[0].back().empty()) part[0].pop_back(); EXPECT(sorted(part[0]) == (q || of ? A() : sorted(all)), "listing", part[0].size(), " of ", all.size());
    if (h) EXPECT(sorted(part[1]) == sorted(st), "statistics", join(part[1], "|").substr(0, 150), " not ", join(st, "|").substr(0, 150)); if (c) { std::string n = std::to_string(all.size()); std::string want = c == 2 ? n : "Found " + n + " methods"; EXPECT(part[2] == A{want}, "count", join(part[2]), " not ", want); } vf::states(all.size()); } END_CASE } }
}
// ---- filters -----------------------------------------------------------------
VF_SECTION(filters) { // a filter passes exactly the methods a search finds, in order and with what follows them
  struct F { A opt; Pred f; }; std::vector<std::unique_ptr<W>> ws; ws.emplace_back(new W(4, 1, 0)); ws.emplace_back(new W(3, 1, 0)); ws.emplace_back(new W(4, 0, 0, 3)); ws.emplace_back(new W(4, 1, 1, 0, "s"));
  for (auto &pw : ws) { W &w = *pw; std::vector<F> fs; auto any = [](M const &) { return true; }; fs.push_back({{}, any}); for (int k = 2; k <= 4; ++k) fs.push_back({{"-p" + std::to_string(k)}, [&w, k](M const &m) { return w.blows(m) <= k; }}); for (int k = 1; k <= 3; ++k) { fs.push_back({{"-l" + std::to_string(k)}, [&w, k](M const &m) { return w.maxplaces(m) <= k; }}); fs.push_back({{"-j" + std::to_string(k)}, [&w, k](M const &m) { return w.adj(m) <= k; }}); }
    if (w.L % 2 == 0) for (char c : {'s', 'k', 'd'}) if (w.U) fs.push_back({{std::string("-") + c}, [&w, c](M const &m) { return w.sym1(c, m); }}); if (w.U) { fs.push_back({{"-w"}, [&w](M const &m) { return w.right(m); }}); fs.push_back({{"-r"}, [&w](M const &m) { return w.regular(m); }}); fs.push_back({{"-c"}, [&w](M const &m) { return w.cyclic(m); }}); fs.push_back({{"-mX*"}, [&w](M const &m) { return m[0] == w.cross && w.cross >= 0; }}); fs.push_back({{"-m*,1"}, [&w](M const &m) { return m.back() == w.find("1"); }}); }
    A in; for (size_t i = 0; i < w.all.size(); ++i) in.push_back(w.txt(w.all[i])); size_t step = std::max<size_t>(1, w.all.size() / 1500);
    for (auto &f : fs) for (int inv = 0; inv < 2; ++inv) for (int bells = 0; bells < 2; ++bells) for (int lim = 0; lim < 3; ++lim) for (int cnt = 0; cnt < 2; ++cnt) { if (f.opt == A{"-mX*"} && w.cross < 0) continue; if (f.opt == A{"-mX*"} && !w.U) continue; if (inv && std::none_of(w.all.begin(), w.all.end(), f.f)) continue; CASE(w.name() + join(f.opt) + vf::cat(" ", inv, bells, lim, cnt)) {
      A want; std::string text; size_t max = lim == 0 ? 1000000 : lim == 1 ? 1 : 5, found = 0; for (size_t i = 0; i < w.all.size(); i += step) { std::string pay = i % 3 == 0 ? "" : i % 3 == 1 ? "pay " + std::to_string(i) : "x\ty"; text += (bells ? std::to_string(w.n) + ":" : "") + in[i] + (pay.empty() ? "" : "\t" + pay) + "\n"; if (i % 7 == 0) text += "\n"; if (bells && i % 5 == 0) text += std::to_string(w.n + 1) + ":" + "1.2\n"; if (f.f(w.all[i]) == !inv && found < max) { ++found; want.push_back(in[i] + "\t" + pay); } }
      A a = base(w); if (bells) a.erase(a.begin()); a = plus(a, f.opt); a.push_back("-I"); if (inv) a.push_back("--invert-filter"); if (lim) a.push_back("--limit=" + std::to_string(max)); if (cnt) a.push_back("--raw-count");
      auto o = app::run("methsearch", a, text); auto g = lines(o.out); if (o.err.find("No such method can exist") != std::string::npos) { for (auto &m : w.all) EXPECT(!f.f(m), "status", "refused although ", w.txt(m)); return; } EXPECT(o.rc == 0, "status", o.rc, o.err.substr(0, 200)); if (cnt) { EXPECT(!g.empty() && g.back() == std::to_string(found), "count", g.empty() ? "" : g.back(), " not ", found); if (!g.empty()) g.pop_back(); if (!g.empty()) g.pop_back(); } EXPECT(g == want, "filter", join(a), " ", diff(sorted(g), sorted(want))); vf::states(want.size() + 1); } END_CASE }
  }
}
VF_SECTION(filter_lengths) { // without a lead length or number of bells each line stands for itself
  for (int lim = 0; lim < 5; ++lim) for (int inv = 0; inv < 2; ++inv) CASE(vf::cat(lim, inv)) { std::string text; A want; for (int n : {3, 4, 5}) for (int L : {1, 2, 3}) { W w(n, 0, 0, L); for (size_t i = 0; i < w.all.size(); i += 3) { auto &m = w.all[i]; text += std::to_string(n) + ":" + w.txt(m) + "\n"; bool ok = lim == 0 ? true : lim == 1 ? w.blows(m) <= 2 : lim == 2 ? w.maxplaces(m) <= 2 : lim == 3 ? w.adj(m) <= 1 : isid(w.lh(m)); if (ok != (bool)inv) want.push_back(std::to_string(n) + ":" + w.txt(m)); } }
    A a{"-U0", "-A", "-Fx", "-I", "-R$B:$p"}; if (lim) a.push_back(lim == 1 ? "-p2" : lim == 2 ? "-l2" : lim == 3 ? "-j1" : "-Q$u==$B"); if (inv) a.push_back("--invert-filter"); auto o = app::run("methsearch", a, text); EXPECT(o.rc == 0, "status", o.rc, o.err.substr(0, 200)); EXPECT(lines(o.out) == want, "filter", join(a), " ", diff(sorted(lines(o.out)), sorted(want))); vf::states(want.size()); } END_CASE
}
// ---- changes and rows ----------------------------------------------------------
VF_SECTION(change_lists) { std::vector<std::unique_ptr<W>> ws; ws.emplace_back(new W(4, 1, 0)); ws.emplace_back(new W(4, 0, 0, 3)); ws.emplace_back(new W(5, 0, 0, 2)); ws.emplace_back(new W(4, 1, 0, 0, "k")); ws.emplace_back(new W(4, 1, 0, 0, "s")); ws.emplace_back(new W(4, 1, 0, 0, "d")); ws.emplace_back(new W(4, 2, 0));
  for (auto &pw : ws) { W &w = *pw; int nc = w.ch.size(); for (int mask = 1; mask < (1 << nc); ++mask) for (int inv = 0; inv < 2; ++inv) { if (nc > 5 && mask % 3 && vf::tier(1, 0)) continue; std::string l; for (int c = 0; c < nc; ++c) if (mask >> c & 1) l += (l.empty() ? "" : ",") + pn(w.ch[c]); CASE(w.name() + w.force + (inv ? " !" : " ") + l) { A a = plus(base(w), {std::string("--changes=") + (inv ? "!" : "") + l}); expect(a, wanted(w, [&](M const &m) { for (int c : m) if ((mask >> c & 1) == inv) return false; return true; }), true, join(a)); } END_CASE } }
}
VF_SECTION(row_matches) { W w(4, 1, 0, 0, "s"); A pats{"1*", "*1", "[12]*", "?2*", "1?3?", "*4", "12*", "4321", "*[34]", "2*3"}; auto hit = [&](std::string const &p, P const &r) { std::vector<std::string> e; bool star = false; size_t sp = 0; for (size_t i = 0; i < p.size(); ++i) { if (p[i] == '*') { star = true; sp = e.size(); } else if (p[i] == '[') { size_t j = p.find(']', i); e.push_back(p.substr(i + 1, j - i - 1)); i = j; } else if (p[i] == '?') e.push_back("12345678"); else e.push_back(std::string(1, p[i])); } size_t gap = r.size() - e.size(); if (e.size() > r.size() || (!star && gap)) return false; for (size_t i = 0; i < e.size(); ++i) if (e[i].find(sym(r[i < sp || !star ? i : i + gap])[0]) == std::string::npos) return false; return true; };
  for (int n = 0; n <= w.L; ++n) for (auto &p : pats) for (int k = 0; k < 3; ++k) CASE(vf::cat(n, "=", p, " ", k)) { int n2 = (n + 3) % (w.L + 1); std::string q = pats[(&p - &pats[0] + k) % pats.size()]; A a = plus(base(w), {"--row-match=" + std::to_string(n) + "=" + p}); if (k) a.push_back("--row-match=" + std::to_string(n2) + "=" + q); expect(a, wanted(w, [&](M const &m) { auto r = w.rows(m); return hit(p, r[n]) && (!k || hit(q, r[n2])); }), true, join(a)); } END_CASE
}
VF_SECTION(avoid_rows) { // rows avoided, from the row the method starts in, in the half-lead, lead or course
  for (int which = 0; which < 6; ++which) { W w(which < 3 || which == 5 ? 4 : which == 3 ? 3 : 5, which == 1 ? 0 : which == 4 ? 2 : 1, which == 2 ? 1 : 0, which == 1 ? 4 : 0, which == 2 || which == 4 ? "s" : which == 5 ? "sk" : ""); int n = w.n; auto rs = perms(n); int k = 0;
    for (size_t s = 0; s < rs.size(); ++s) for (size_t r = 0; r < rs.size(); ++r) { if (k++ % vf::tier(n == 5 ? 97 : n == 3 ? 1 : 5, n == 5 ? 5 : 1)) continue; for (char const *f : {"h", "l", "c", "l2", "c2"}) { int N = f[1] ? 2 : 1; if (*f == 'h' && !w.U) continue; for (int two = 0; two < 2; ++two) { size_t r2 = (r * 7 + s + 3) % rs.size(); CASE(w.name() + w.force + vf::cat(" from ", str(rs[s]), " without ", str(rs[r]), two ? str(rs[r2]) : "", " ", f)) {
      A a = w.args(); for (char c : w.force) a.push_back(std::string("-") + c); a.insert(a.end(), {"-A", std::string("-F") + *f, "-FN=" + std::to_string(N), "-Fs=" + str(rs[s]), "-Fr=" + str(rs[r])}); std::set<P> bad{rs[r]}; if (two) { a.push_back("-Fr=" + str(rs[r2])); bad.insert(rs[r2]); }
      auto hit = [&](M const &m) { P x, l = w.lh(m), h = rs[s]; std::map<P, int> seen; do { x = h; for (int i = 0; i < (*f == 'h' ? w.L / 2 : w.L); ++i) { if (bad.count(x) || ++seen[x] > N) return true; x = mul(x, w.pm[m[i]]); } h = mul(h, l); } while (*f == 'c' && h != rs[s]); return *f == 'l' && h != rs[s] && seen.count(h) && seen[h] >= N; };
      expect(a, wanted(w, [&](M const &m) { return w.nontrivial(m) && !hit(m); }), true, join(a)); } END_CASE } } } }
}
// ---- random order ----------------------------------------------------------------
VF_SECTION(random_orders) { for (W *w : worlds()) { if (w->all.size() > 5000) continue; A all; for (int seed = 1; seed <= vf::tier(6, 60); ++seed) CASE(w->name() + w->force + vf::cat(" seed ", seed)) { if (all.empty()) all = wanted(*w, [](M const &) { return true; }); A b = plus(base(*w), {"--random", "--seed=" + std::to_string(seed)}); auto o = app::run("methsearch", b); EXPECT(o.rc == 0 && sorted(lines(o.out)) == all, "random", diff(sorted(lines(o.out)), all)); auto o2 = app::run("methsearch", b); EXPECT(o2.out == o.out, "seeded", "two listings with one seed differ"); auto o3 = app::run("methsearch", plus(b, {"--limit=3"})); auto g = lines(o3.out); EXPECT(o.out.compare(0, o3.out.size(), o3.out) == 0 && g.size() == std::min<size_t>(3, all.size()), "limit", o3.out); auto o4 = app::run("methsearch", plus(b, {"--loop=4"})); g = lines(o4.out); EXPECT(g.size() == 4, "loop", g.size()); for (auto &x : g) EXPECT(std::binary_search(all.begin(), all.end(), x), "loop", x); auto o5 = app::run("methsearch", plus(b, {"--loop", "--limit=5"})); g = lines(o5.out); EXPECT(g.size() == 5, "loop", g.size()); for (auto &x : g) EXPECT(std::binary_search(all.begin(), all.end(), x), "loop", x); vf::states(all.size()); } END_CASE } }
VF_SECTION(response_files) { W w(4, 1, 0); std::vector<A> as{{"-s"}, {"-s", "-p2"}, {"-m&X*,12"}, {"-l2", "-R$q $l"}, {"-w", "-C"}, {"-Q$u==1", "-p4"}, {"-R'$p'"}}; for (auto &e : as) for (int how = 0; how < 4; ++how) for (int at = 0; at < 2; ++at) CASE(join(e) + vf::cat(" ", how, at)) { std::string t; for (auto &x : e) { std::string y = x; if (x.find_first_of(" '$&*") != std::string::npos || how == 3) { if (x.find('\'') != std::string::npos) y = "\"" + x + "\""; else y = "'" + x + "'"; } t += y + (how == 0 ? " " : how == 1 ? "\n" : how == 2 ? "\t\n " : " "); } std::string fn = app::put("resp", t); A b = base(w), c = b; if (at) { c = plus(c, {"@" + fn}); b = plus(b, e); } else { c.insert(c.begin(), "@" + fn); b.insert(b.begin(), e.begin(), e.end()); } auto o = app::run("methsearch", c), p = app::run("methsearch", b); EXPECT(o.rc == p.rc && o.out == p.out && !o.out.empty(), "response", t, ": ", o.rc, " ", p.rc, " ", o.err.substr(0, 100)); vf::states(); } END_CASE }
VF_SECTION(refusals) { auto bad = [&](A a) { CASE(join(a)) { auto o = app::run("methsearch", a); EXPECT(o.rc == 1 && o.out.empty() && !o.err.empty(), "refused", o.rc, " ", o.out.substr(0, 80)); EXPECT(o.err.find("vector") == std::string::npos && o.err.find("basic_string") == std::string::npos, "refused", o.err.substr(0, 200)); vf::states(); } END_CASE };
  for (char const *m : {"X", "X.14.X", "**", "X*.*", "&X*.14*", "(X", "(X|", "()", "X.19", "&X.14/X*,12", "X/X/X", "*/*/*", "&X.14.X.14,1,2,3", "X.14.X.14.X.14.X.14.X*", "X.14.X.14.X.14.X.14.*.X", "&X.14.X.14.X.14.*,1", "{5}*", "{N*", "{M}*", "{N-9}*", "{N+1}*", "X;14", "[12]*", "$*", "&", "&,*"}) bad({"-b4", "-A", "-Fx", std::string("-m") + m});
  for (char const *m : {"X/X", "*/*", "X.14.X.14.X", "&X*.14,X.X.X.X"}) bad({"-b4", "-U0", "-n4", "-A", "-Fx", std::string("-m") + m});
  bad({"-b4", "-U0", "-m&X"}); bad({"-b8", "-U1", "--3rds-place-delight", "-s", "-l2", "--limit=1"}); bad({"-b8", "-U1", "--4ths-place-delight", "-s", "-l2", "--limit=1"}); bad({"-b4", "--prefix=19"}); bad({"-b4", "--start-at=19"}); bad({"-b4", "--changes=19"}); bad({"-b4", "--changes=X,,19"}); bad({"-b4", "--row-match=9=1*"}); bad({"-b4", "--row-match=1"}); bad({"-b4", "--row-match=x=1*"}); bad({"-b4", "--row-match=1=[[*"}); bad({"-b4", "--row-match=1=1*", "--row-match=1=*1"}); bad({"-b4", "--invert-filter"}); bad({"-b4", "-I", "--filter-lib"}); bad({"-b4", "--filter-lib"}); bad({"-b4", "--loop=3"}); bad({"-b4", "-I", "--random"}); bad({"-b4", "--random", "--loop=3", "--limit=3"}); bad({"-b4", "--named"}); bad({"-b4", "-R$n"}); bad({"-b4", "-R$a"}); bad({"-b4", "-Oxml"}); bad({"-b4", "-Oxml", "-o-"}); bad({"-b4", "-Ozzz"}); bad({"-b4", "--pn-format=zzz"}); bad({"-b4", "-H$p"}); bad({"-b4", "-R$c"}); bad({"-b4", "-R$9r"}); bad({"-b4", "-Q$"}); bad({"-b4", "-Q1+"}); bad({"-b4", "@/nonexistent/file"}); bad({"-b1"}); bad({"-b257"}); bad({"-b0"}); bad({}); bad({"-bx"}); bad({"-b4", "-Z3-2"}); bad({"-b4", "-Z1-9"}); bad({"-b4", "-U4"}); bad({"-b4", "-U0"}); bad({"-b4", "-n8"}); bad({"-b5", "-U0", "-n2", "-w"}); bad({"-b6", "-S", "-T", "-G1"}); bad({"-b5", "-G1"}); bad({"-b4", "junk"});
}
