// P32: spliceplan finds every plan of splicing given methods, and only those.
#include "app.h"
#include "ref.h"
#include "refpn.h"
#include "vf.h"
#include <algorithm>
#include <bitset>
#include <dirent.h>
#include <sys/stat.h>
using namespace ref;
typedef std::vector<Sw> M; typedef std::vector<std::string> V; typedef std::bitset<720> B;
static std::string txt(M const &m) { std::string s; for (auto &c : m) s += (s.empty() ? "" : ".") + pn(c); return s; }
static V lines(std::string const &s) { V v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
static std::string join(V const &t, char const *sep = " ") { std::string s; for (auto &x : t) s += (s.empty() ? "" : sep) + x; return s; }
static int rank(P const &p) { int r = 0, n = p.size(); for (int i = 0; i < n; ++i) { int c = 0; for (int j = i + 1; j < n; ++j) c += p[j] < p[i]; r = r * (n - i) + c; } return r; }
struct Meth { M m; std::vector<P> rows; P le; bool selftrue; };
static Meth meth(int n, M const &m) { Meth x; x.m = m; P r = id(n); std::set<P> s; for (auto &c : m) { x.rows.push_back(r); s.insert(r); r = mul(r, sw_perm(c)); } x.le = x.rows.back(); x.selftrue = s.size() == m.size(); return x; }
// a plan: which method is rung from each row with the treble leading
typedef std::vector<int> Plan;
struct Ref {
  int n; std::vector<Meth> ms; std::vector<P> X; std::map<P, int> ix; std::vector<P> H; size_t cap; bool over = false;
  struct Block { B rows; std::vector<int> slots; int m; }; std::vector<Block> bl; std::vector<std::vector<int>> at; std::vector<Plan> out; Plan cur; long nodes = 0;
  Ref(int n, std::vector<Meth> const &v, bool inc, std::vector<P> const &pe, size_t cap) : n(n), ms(v), cap(cap) {
    for (auto &p : perms(n)) if (p[0] == 0 && (!inc || sign(p) > 0)) { ix[p] = X.size(); X.push_back(p); }
    std::set<P> h; std::vector<P> q(1, id(n)); h.insert(q[0]); while (!q.empty()) { P p = q.back(); q.pop_back(); for (auto &g : pe) { P r = mul(g, p); if (h.insert(r).second) q.push_back(r); } } H.assign(h.begin(), h.end());
    std::set<std::pair<std::vector<int>, int>> seen;
    for (int m = 0; m < (int)v.size(); ++m) for (auto &x : X) { // the lead from x, with its images in the other parts
      Block b; b.m = m; bool ok = true; std::set<int> slots;
      for (auto &h : H) { P y = mul(h, x); int i = ix.at(y), j = ix.at(mul(y, v[m].le)); if (slots.count(i) && slots.count(j)) continue; if (slots.count(i) || slots.count(j)) { ok = false; break; } B r; for (auto &z : v[m].rows) r.set(rank(mul(y, z))); if ((r & b.rows).any()) { ok = false; break; } b.rows |= r; slots.insert(i); slots.insert(j); }
      if (!ok) continue; b.slots.assign(slots.begin(), slots.end()); if (seen.insert({b.slots, m}).second) bl.push_back(b); }
    at.resize(X.size()); for (size_t k = 0; k < bl.size(); ++k) for (int s : bl[k].slots) at[s].push_back(k);
    cur.assign(X.size(), -1); go(B());
  }
  void go(B const &used) {
    if (over || ++nodes > 3000000) { over = true; return; } int best = -1; std::vector<int> opt; size_t bn = 1u << 30;
    for (size_t s = 0; s < X.size() && bn; ++s) { if (cur[s] >= 0) continue; std::vector<int> o; for (int k : at[s]) { if ((bl[k].rows & used).any()) continue; bool ok = true; for (int t : bl[k].slots) ok = ok && cur[t] < 0; if (ok) o.push_back(k); } if (o.size() < bn) { bn = o.size(); best = s; opt = o; } }
    if (best < 0) { out.push_back(cur); if (out.size() > cap) over = true; return; }
    for (int k : opt) { for (int t : bl[k].slots) cur[t] = bl[k].m; go(used | bl[k].rows); for (int t : bl[k].slots) cur[t] = -1; }
  }
  Plan rot(Plan const &p, P const &r) const { Plan q(p.size()); for (size_t i = 0; i < X.size(); ++i) q[ix.at(mul(r, X[i]))] = p[i]; return q; }
};
static std::string nm(int i) { return std::string("M") + char('a' + i % 26) + (i >= 26 ? std::string(1, char('a' + i / 26)) : ""); }
static std::string count(Plan const &p) { std::map<int, int> c; for (int m : p) ++c[m]; V v; for (auto &x : c) v.push_back(nm(x.first) + " (" + std::to_string(x.second) + ")"); return join(v, ", "); }
struct Opt { bool inc = false, rot = false; std::vector<P> pe; V args(int n) const { V a = {"-b" + std::to_string(n)}; if (inc) a.push_back("-i"); if (rot) a.push_back("-r"); for (auto &p : pe) a.push_back("-P" + str(p)); return a; } };
static std::string input(int n, std::vector<Meth> const &v, int off = 0) { std::string s; int i = 0; for (auto &m : v) s += txt(m.m) + "\t" + nm(i++) + "\n"; return s; }
static void wipe(std::string const &d) { if (DIR *h = opendir(d.c_str())) { while (dirent *e = readdir(h)) { std::string f = e->d_name; if (f.find("plan") != std::string::npos) unlink((d + "/" + f).c_str()); } closedir(h); } }
static void run(int n, std::vector<Meth> const &v, Opt const &o, size_t cap, int files = 0) {
  Ref r(n, v, o.inc, o.pe, cap); vf::states(r.nodes); if (r.over) { vf::outcome("too many"); return; }
  V want; std::set<Plan> ps(r.out.begin(), r.out.end()); EXPECT(ps.size() == r.out.size(), "reference", "repeats"); std::map<Plan, Plan> rep;
  if (o.rot) { std::set<Plan> left = ps; while (!left.empty()) { std::set<Plan> c; Plan p = *left.begin(); for (auto &x : r.X) { Plan q = r.rot(p, x); c.insert(q); rep[q] = p; } for (auto &q : c) left.erase(q); want.push_back(count(p) + " [" + std::to_string(c.size()) + " rotations]"); } }
  else for (auto &p : r.out) want.push_back(count(p));
  V a = o.args(n); std::string dir = app::work() + "/plans"; if (files) { mkdir(dir.c_str(), 0755); wipe(dir); a.push_back(files == 1 ? "-O" + dir : "--output-plans=" + dir + "/x%y.plan"); if (files == 2) a.push_back("-q"); }
  auto t = app::run("spliceplan", a, input(n, v), 60); std::string how = join(a); EXPECT(t.rc == 0 && t.err.empty(), "status", how, " ", t.rc, " ", t.err.substr(0, 80));
  V got = lines(t.out); size_t N = want.size(); vf::outcome(std::to_string(N)); std::sort(want.begin(), want.end()); V raw = got; std::sort(got.begin(), got.end());
  if (files != 2) { V x, y; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(x)); std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(y)); EXPECT(got == want, o.rot ? "rotations" : o.pe.empty() ? "plans" : "parts", how, ": printed ", got.size(), " of ", want.size(), "; also ", x.empty() ? "" : x[0], "; not ", y.empty() ? "" : y[0]); }
  else EXPECT(got.empty(), "quiet", how, " printed ", got.size());
  if (!files) return;
  std::set<Plan> wr; for (size_t k = 1; k <= N; ++k) { std::string f = files == 1 ? dir + "/" + std::to_string(k) + ".plan" : dir + "/x" + std::to_string(k) + "y.plan"; std::ifstream in(f.c_str()); EXPECT(!!in, "files", how, " did not write ", f); if (!in) return; std::string l; Plan p(r.X.size(), -1);
    while (std::getline(in, l)) { size_t i = l.find('\t'), j = l.find('\t', i + 1); bool ok = i != std::string::npos && j != std::string::npos; P row; if (ok) { for (char c : l.substr(0, i)) { char const *q = strchr("1234567890", c); row.push_back(q ? int(q - "1234567890") : 99); } } int m = -1; if (ok) for (size_t z = 0; z < v.size(); ++z) if (l.substr(j + 1) == nm(z)) m = z; M pnm; ok = ok && r.ix.count(row) && m >= 0 && parse_pn(n, l.substr(i + 1, j - i - 1), pnm) && pnm == v[m].m && p[r.ix[row]] < 0; EXPECT(ok, "files", how, " plan ", k, " has the line ", l); if (!ok) return; p[r.ix[row]] = m; }
    EXPECT(o.rot ? rep.count(p) : ps.count(p), "files", how, " file ", k, " is not a plan"); EXPECT(wr.insert(o.rot ? rep[p] : p).second, "files", how, " file ", k, " repeats a plan"); if (files == 1) EXPECT(raw[k - 1].substr(0, raw[k - 1].find(" [")) == count(p), "files", how, " file ", k, " differs from the line printed"); }
  std::ifstream more((dir + "/" + std::to_string(N + 1) + ".plan").c_str()), more2((dir + "/x" + std::to_string(N + 1) + "y.plan").c_str()); EXPECT(!more && !more2, "files", how, " wrote more than ", N); wipe(dir);
}
static std::vector<Sw> moves(int n, int a, int b) { std::vector<Sw> v; for (auto &c : changes(n)) if (sw_perm(c)[a] == b) v.push_back(c); return v; }
// every palindromic method with a plain-hunting treble, true in the lead
static std::vector<Meth> palindromes(int n) { std::vector<M> v(1); for (int i = 0; i <= n; ++i) { auto c = i < n - 1 ? moves(n, i, i + 1) : i == n - 1 ? moves(n, n - 1, n - 1) : moves(n, 0, 0); std::vector<M> w; for (auto &m : v) for (auto &x : c) { if (places(x).size() == (size_t)n) continue; M y = m; if (i == n) for (int k = n - 2; k >= 0; --k) y.push_back(m[k]); y.push_back(x); w.push_back(y); } v = w; } std::vector<Meth> r; for (auto &m : v) { Meth x = meth(n, m); if (x.selftrue) r.push_back(x); } return r; }
// and ones in which the treble dodges, or does not leave the lead
static std::vector<Meth> odd4() { std::vector<Meth> v; for (auto s : {"&-14-34-12,12", "3.1.3.1.3.1", "&34.2.34,1", "&-34-14,12", "&34-12-14,12", "&34-34.14,34", "&3.1,1", "&3.1.3.1,1", "&-14-14-14,12", "&-12-14-34,14"}) { M m; if (!parse_pn(4, s, m)) continue; Meth x = meth(4, m); if (x.selftrue && x.le[0] == 0 && !isid(x.le) && mul(x.le, x.le) == id(4)) { bool pal = true; int L = m.size(); for (int i = 0; i < L - 1; ++i) pal = pal && m[i] == m[L - 2 - i]; if (pal) v.push_back(x); } } return v; }
static std::vector<Meth> minor() { std::vector<Meth> v; for (auto s : {"&-1-1-1,2", "&-1-1-1,1", "&-1-1-3,2", "&-34-1-1,2", "&34-34.1-2-1.34-1,2", "&-34-14-12-16-12-16,12", "&34-34.16-12-16-12-16,12", "&-34-14-12-36.14-12.56,12", "&-34-14-12-36.14-12.36,12", "&-34-14-12-16-34-16,12", "&-34-14-12-16-34-16,16", "&-36-14-12-36.14-12.56,12", "&-34-1456-12-36-34-56,12", "&34-34.14-12-16.34-34.16,12", "&-36-14-12-36-14-16,16", "&-36-14-12-36-14-56,16", "&-1-1-12,1", "&-1-1-12,2", "&3-3.1-1,2", "&-3-1-2,2"}) { M m; if (!parse_pn(6, s, m)) abort(); Meth x = meth(6, m); if (x.selftrue && x.le[0] == 0 && !isid(x.le) && isid(mul(x.le, x.le))) v.push_back(x); } return v; }
static bool usable(std::vector<Meth> const &v, bool inc) { for (auto &m : v) if (inc && sign(m.le) < 0) return false; return true; }
static std::vector<std::vector<P>> parts(int n, bool inc) { std::vector<std::vector<P>> r; std::vector<P> t; for (auto &p : perms(n)) if (p[0] == 0 && (!inc || sign(p) > 0)) t.push_back(p); for (auto &p : t) if (!isid(p)) r.push_back({p}); r.push_back({t[1], t[t.size() - 1]}); r.push_back({t[t.size() / 2], t[t.size() / 3]}); r.push_back({t[1], t[2], t[t.size() - 1]}); return r; }
static std::string names(std::vector<Meth> const &v) { V s; for (auto &m : v) s.push_back(txt(m.m)); return join(s); }
VF_SECTION(minimus) {
  auto all = palindromes(4); auto odd = odd4(); all.insert(all.end(), odd.begin(), odd.end()); size_t N = all.size(); std::vector<std::vector<Meth>> sets;
  for (size_t i = 0; i < N; ++i) { sets.push_back({all[i]}); for (size_t j = i; j < N; ++j) { sets.push_back({all[i], all[j]}); if (j > i) for (size_t k = j + 1; k < N; ++k) if (vf::tier((i + j + k) % 41 == 0, (i + j + k) % 5 == 0)) sets.push_back({all[k], all[i], all[j]}); } } for (size_t s = 2; s < 12; ++s) { std::vector<Meth> w; for (size_t i = s; i < N; i += s) w.push_back(all[i]); sets.push_back(w); } sets.push_back(all);
  for (size_t q = 0; q < sets.size(); ++q) for (int k = 0; k < 4; ++k) { if (vf::tier(1, 0) && sets[q].size() == 2 && (q + k) % 3) continue; Opt o; o.inc = k & 1; o.rot = k & 2; if (!usable(sets[q], o.inc)) continue; CASE("4 " + (sets[q].size() > 4 ? std::to_string(sets[q].size()) + " methods" : names(sets[q])) + (o.inc ? " -i" : "") + (o.rot ? " -r" : "")) { run(4, sets[q], o, 60000, q % 7 == 0 ? 1 : q % 7 == 1 ? 2 : 0); } END_CASE }
  for (size_t q = 0; q < sets.size(); ++q) { if (vf::tier(1, 0) && sets[q].size() == 2 && q % 5) continue; for (int inc = 0; inc < 2; ++inc) { if (!usable(sets[q], inc)) continue; auto pe = parts(4, inc); for (size_t z = 0; z < pe.size(); ++z) { if (vf::tier(1, 0) && sets[q].size() > 1 && (q + z) % 3) continue; Opt o; o.inc = inc; o.pe = pe[z]; CASE("4 " + (sets[q].size() > 4 ? std::to_string(sets[q].size()) + " methods" : names(sets[q])) + " " + join(o.args(4))) { run(4, sets[q], o, 60000, (q + z) % 9 == 0 ? 1 : 0); } END_CASE } } }
}
VF_SECTION(doubles) {
  auto all = palindromes(5); size_t N = all.size(), step = vf::tier<size_t>(7, 1); std::vector<std::vector<Meth>> sets; for (size_t i = 0; i < N; i += step) { sets.push_back({all[i]}); for (size_t d : {1, 5, 17, 41}) sets.push_back({all[i], all[(i * 3 + d * 11) % N]}); sets.push_back({all[i], all[(i * 7 + 3) % N], all[(i * 5 + 9) % N]}); }
  for (size_t q = 0; q < sets.size(); ++q) { for (int k = 0; k < 4; ++k) { Opt o; o.inc = k & 1; o.rot = k & 2; if (!usable(sets[q], o.inc)) continue; CASE("5 " + names(sets[q]) + (o.inc ? " -i" : "") + (o.rot ? " -r" : "")) { run(5, sets[q], o, 4000, q % 5 == 0 ? 1 : 0); } END_CASE }
    for (int inc = 0; inc < 2; ++inc) { if (!usable(sets[q], inc)) continue; auto pe = parts(5, inc); for (size_t z = 0; z < pe.size(); ++z) { if ((q + z) % vf::tier<size_t>(9, 3)) continue; Opt o; o.inc = inc; o.pe = pe[z]; CASE("5 " + names(sets[q]) + " " + join(o.args(5))) { run(5, sets[q], o, 4000); } END_CASE } } }
}
VF_SECTION(minor) {
  auto all = minor(); size_t N = all.size(); std::vector<std::vector<Meth>> sets; for (size_t i = 0; i < N; ++i) { sets.push_back({all[i]}); for (size_t j = 0; j < i; ++j) { sets.push_back({all[i], all[j]}); if (j) sets.push_back({all[i], all[j], all[(i + j) % j]}); } }
  for (size_t q = 0; q < sets.size(); ++q) { if (vf::tier(1, 0) && sets[q].size() > 1 && q % 5) continue; for (int k = 0; k < 2; ++k) { Opt o; o.inc = true; o.rot = k; if (!usable(sets[q], true)) continue; CASE("6 " + names(sets[q]) + " -i" + (k ? " -r" : "")) { run(6, sets[q], o, 1000, q % 3 == 0); } END_CASE }
    for (char const *p : {"134562", "145236", "132465", "134265", "142356"}) for (int inc = 0; inc < 2; ++inc) { P r; for (char const *c = p; *c; ++c) r.push_back(*c - '1'); if (inc && sign(r) < 0) continue; if (!usable(sets[q], inc)) continue; Opt o; o.inc = inc; o.pe = {r}; CASE("6 " + names(sets[q]) + " " + join(o.args(6))) { run(6, sets[q], o, 1000); } END_CASE } }
}
// doubles with a treble which dodges, so that leads can be false with other leads; only in course is there room for them
static bool isfalse(Meth const &m) { for (auto &a : m.rows) for (auto &b : m.rows) { P f = mul(a, inv(b)); if (!f[0] && !isid(f) && f != m.le) return true; } return false; }
static std::vector<Meth> dodging(std::vector<int> const &path, bool f) { std::vector<M> v(1); int n = 5, h = path.size(); for (int i = 0; i <= h; ++i) { auto c = i < h - 1 ? moves(n, path[i], path[i + 1]) : i == h - 1 ? moves(n, path[i], path[i]) : moves(n, 0, 0); std::vector<M> w; for (auto &m : v) for (auto &x : c) { if (places(x).size() == (size_t)n) continue; if (i == h && sign(sw_perm(x)) < 0) continue; M y = m; if (i == h) for (int k = h - 2; k >= 0; --k) y.push_back(m[k]); y.push_back(x); w.push_back(y); } v = w; } std::vector<Meth> r; for (auto &m : v) { Meth x = meth(n, m); if (x.selftrue && sign(x.le) > 0 && isfalse(x) == f) r.push_back(x); } return r; }
static std::vector<std::vector<P>> groups(int n) { std::vector<std::vector<P>> r; std::set<std::set<P>> seen; std::vector<P> t; for (auto &p : perms(n)) if (p[0] == 0 && sign(p) > 0) t.push_back(p); for (auto &a : t) for (auto &b : t) { std::set<P> h; std::vector<P> q(1, id(n)); h.insert(q[0]); while (!q.empty()) { P p = q.back(); q.pop_back(); for (auto &g : {a, b}) { P x = mul(g, p); if (h.insert(x).second) q.push_back(x); } } if (h.size() > 1 && seen.insert(h).second) { if (a == b) r.push_back({a}); else r.push_back({a, b}); } } return r; }
VF_SECTION(dodging) {
  auto gs = groups(5); int pi = 0; for (auto &path : std::vector<std::vector<int>>{{0, 1, 0, 1, 2, 3, 2, 3, 4}, {0, 1, 2, 1, 2, 3, 4}, {0, 0, 1, 2, 3, 4}, {0, 1, 2, 3, 4, 3, 4}, {0, 1, 1, 2, 2, 3, 4}, {0, 1, 2, 3, 2, 3, 4}, {0, 1, 2, 3, 2, 3, 4, 3, 4, 4}, {0, 1, 0, 1, 2, 1, 2, 3, 2, 3}}) { ++pi;
    auto f = dodging(path, true), t = dodging(path, false); std::vector<std::vector<Meth>> sets; size_t most = vf::tier<size_t>(40, 300); for (size_t k = 0; k < most && k < f.size(); ++k) { size_t i = k * f.size() / std::min(most, f.size()); sets.push_back({f[i]}); if (!t.empty()) sets.push_back({f[i], t[(i * 7) % t.size()]}); sets.push_back({f[i], f[(i * 3 + 1) % f.size()], f[(i * 5 + 2) % f.size()]}); } for (size_t k = 0; k < 5 && k < t.size(); ++k) sets.push_back({t[k * t.size() / 5]}); for (size_t b : {6, 20}) { std::vector<Meth> w; for (size_t k = 0; k < b && k < f.size(); ++k) w.push_back(f[k * f.size() / b % f.size()]); if (w.size()) sets.push_back(w); }
    for (size_t q = 0; q < sets.size(); ++q) { for (int k = 0; k < 2; ++k) { Opt o; o.inc = true; o.rot = k; CASE(std::to_string(pi) + " 5 " + names(sets[q]) + (k ? " -i -r" : " -i")) { run(5, sets[q], o, 2000); } END_CASE } for (size_t z = 0; z < gs.size(); ++z) { if (vf::tier(1, 0) && sets[q].size() > 1 && (q + z) % 2) continue; Opt o; o.inc = true; o.pe = gs[z]; CASE(std::to_string(pi) + " 5 " + names(sets[q]) + " " + join(o.args(5))) { run(5, sets[q], o, 2000); } END_CASE } } }
}
VF_SECTION(refused) {
  std::string ok = "&-1-1,2\tA\n"; struct C { V a; std::string in; };
  std::vector<C> bad = {{{}, ok}, {{"-b0"}, ok}, {{"-b-1"}, ok}, {{"-bx"}, ok}, {{"-b300"}, ok}, {{"-b4", "xx"}, ok}, {{"-b4", "-Z"}, ok}, {{"-b4", "--nonsense"}, ok}, {{"-b4", "-P1342", "-r"}, ok}, {{"-b4", "-P2134"}, ok}, {{"-b4", "-P12354"}, ok}, {{"-b4", "-P1x"}, ok}, {{"-b4", "-P1223"}, ok}, {{"-b4", "-i", "-P1324"}, ok}, {{"-b4", "-P1342", "-P2341"}, ok}, {{"-b4"}, "foo\tA\n"}, {{"-b4"}, "&-5-1,2\tA\n"}, {{"-b4", "-i"}, "&-1-1,1\tA\n"}, {{"-b4"}, "&-1-1\tA\n"}, {{"-b4"}, ok + "-1\tB\n"}, {{"-b4", "-i"}, ok + "&-1-1,1\tB\n"}, {{"-b4", "-O" + app::work() + "/no/such/place"}, ok}};
  for (auto &c : bad) CASE(join(c.a) + " | " + c.in) { auto r = app::run("spliceplan", c.a, c.in); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty() && r.err.find("terminate") == std::string::npos, "refused", r.rc, r.out.substr(0, 80), r.err.substr(0, 80)); vf::states(); } END_CASE
  CASE("nothing, or only -v") { auto r = app::run("spliceplan", {"-b4"}, ""); EXPECT(r.rc == 0 && r.out.empty() && r.err.empty(), "empty", r.rc, r.out, r.err); auto a = app::run("spliceplan", {"-b4"}, ok), b = app::run("spliceplan", {"-b4", "-v", "-v", "-v"}, ok); EXPECT(b.rc == 0 && a.out == b.out && !b.err.empty(), "verbose", b.rc, b.out); vf::states(); } END_CASE
}
