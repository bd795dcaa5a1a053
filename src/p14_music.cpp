// P14: music patterns match, count and score exactly the rows they describe.
#include "rl.h"
#include <ringing/music.h>
#include <ringing/row_wildcard.h>
using namespace ringing;
using namespace rl;
using ref::P;
typedef std::vector<std::string> Tok;      // "1", "?", "*", "[12]"
typedef std::vector<int> W;
// ---- what a pattern means -------------------------------------------------
static int bellof(char c) { std::string s(ref::SYM); auto p = s.find(c); return p == s.npos ? -1 : (int)p; }
static Tok toks(std::string const &s) { Tok t; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '[') { size_t j = s.find(']', i); t.push_back(s.substr(i, j - i + 1)); i = j; } else t.push_back(std::string(1, s[i])); return t; }
static bool hit(std::string const &t, int b) { if (t == "?") return true; for (char c : t) if (c != '[' && c != ']' && bellof(c) == b) return true; return false; }
// every way of matching: the lists of bells that fell to wildcards
static void ways(Tok const &t, size_t i, P const &r, size_t pos, W &w, std::set<W> &out) {
  if (out.size() > 200) return;
  if (i == t.size()) { if (pos == r.size()) out.insert(w); return; }
  if (t[i] == "*") { ways(t, i + 1, r, pos, w, out); if (pos < r.size()) { w.push_back(r[pos]); ways(t, i, r, pos + 1, w, out); w.pop_back(); } return; }
  if (pos < r.size() && hit(t[i], r[pos])) { bool q = t[i] == "?"; if (q) w.push_back(r[pos]); ways(t, i + 1, r, pos + 1, w, out); if (q) w.pop_back(); }
}
static Tok full(std::string const &s, int n) { Tok t = toks(s); bool star = false; for (auto &x : t) star |= x == "*"; if (!star && (int)t.size() < n) t.push_back("*"); return t; }
static std::set<W> wild(std::string const &s, P const &r) { std::set<W> o; W w; ways(full(s, r.size()), 0, r, 0, w, o); return o; }
static bool matches(Tok const &t, size_t i, P const &r, size_t pos) {
  if (i == t.size()) return pos == r.size();
  if (t[i] == "*") return matches(t, i + 1, r, pos) || (pos < r.size() && matches(t, i, r, pos + 1));
  return pos < r.size() && hit(t[i], r[pos]) && matches(t, i + 1, r, pos + 1);
}
static bool matches(std::string const &s, P const &r) { return matches(full(s, r.size()), 0, r, 0); }
static std::vector<P> const &rows(int n) { static std::map<int, std::vector<P>> m; auto &v = m[n]; if (v.empty()) v = ref::perms(n); return v; }
static std::vector<row> const &lrows(int n) { static std::map<int, std::vector<row>> m; auto &v = m[n]; if (v.empty()) for (auto &p : rows(n)) v.push_back(mk(p)); return v; }
template <class F> static void patterns(Tok const &al, int len, F f) { std::string s; std::function<void(int)> go = [&](int d) { f(s); if (d < len) for (auto &a : al) { size_t k = s.size(); s += a; go(d + 1); s.resize(k); } }; go(0); }
static bool legal(std::string const &s, int n) { for (char c : s) if (bellof(c) >= n) return false; return true; }

static void one(std::string const &s, int n) {
  auto &rs = rows(n); auto &ls = lrows(n); uint64_t want = 0; vf::states(rs.size());
  music m(n); m.push_back(music_details(s, 3, -2)); bool back = false; uint64_t h = 0, b = 0;
  for (size_t k = 0; k < rs.size(); ++k, back = !back) {
    bool w = matches(s, rs[k]); if (w) { ++want; (back ? b : h)++; }
    bool g = m.process_row(ls[k], back);
    EXPECT(g == w, w ? "match-missed" : "match-extra", ref::str(rs[k])); if (g != w) return;
    auto lw = m.begin()->last_wildcard_matches(); W v; for (auto x : lw) v.push_back(int(x));
    if (w) { auto ok = wild(s, rs[k]); EXPECT(ok.count(v) || ok.size() > 200, "wildcards", ref::str(rs[k]), " gave ", v.size(), " bells"); } else EXPECT(v.empty(), "wildcards", "left over");
  }
  EXPECT(m.begin()->count(eHandstroke) == h && m.begin()->count(eBackstroke) == b && m.begin()->count() == want, "count", "counted ", m.begin()->count(eHandstroke), "+", m.begin()->count(eBackstroke), " of ", h, "+", b);
  EXPECT(m.get_count() == want && m.get_count(eBackstroke) == b, "music-count", m.get_count());
  EXPECT(m.get_score() == int(3 * h) - int(2 * b) && m.get_score(eHandstroke) == int(3 * h) && m.begin()->total(eBackstroke) == -2 * int(b) && m.begin()->total() == m.get_score(), "score", m.get_score());
  unsigned long long c = row_wildcard(s).count(n), c2 = row_wildcard(s, n).count();
  EXPECT(c == want && c2 == want, "possible", "counted ", c, " possible rows, not ", want);
  EXPECT(music_details(s).possible_matches(n) == want && music_details(s, 2, 5).possible_score(n) == int(5 * want) && m.get_possible_score() == int(3 * want), "possible-score", "");
  EXPECT(m.begin()->get() == s && m.size() == 1 && m.bells() == unsigned(n), "get", "");
}
static void all(int n, Tok const &al, int len, size_t stride) { size_t k = 0; patterns(al, len, [&](std::string const &s) { if (!legal(s, n) || k++ % stride) return; CASE("pattern ", vf::quote(s), " on ", n) { one(s, n); } END_CASE }); }
VF_SECTION(small_1_3) { all(1, {"1", "?", "*", "[1]"}, 5, 1); all(2, {"1", "2", "?", "*", "[12]", "[2]"}, 5, 1); all(3, {"1", "3", "?", "*", "[12]", "[23]"}, vf::tier(5, 6), 1); }
VF_SECTION(small_4) { all(4, {"1", "2", "4", "?", "*", "[12]", "[34]"}, vf::tier(5, 6), 1); }
VF_SECTION(small_5) { all(5, {"1", "5", "?", "*", "[35]", "[135]"}, vf::tier(5, 6), vf::tier(2, 1)); }
VF_SECTION(repeats) { all(4, {"1", "[1]", "[11]", "[121]", "[]", "*", "?"}, vf::tier(4, 5), 1); }
VF_SECTION(stars) { all(4, {"*", "1", "[23]"}, 8, vf::tier(3, 1)); all(5, {"*", "2", "[12]"}, 7, vf::tier(3, 1)); all(6, {"*", "?", "[12345]", "6"}, vf::tier(4, 5), vf::tier(2, 1)); }
VF_SECTION(longer) {
  Tok al = {"*", "7", "[56]", "?"};
  for (int n : {7}) all(n, al, 4, vf::tier(6, 1));
  // patterns of fixed bells between stars, on many bells: every place is found
  for (int n = 6; n <= vf::tier(16, 20); ++n) for (int len = 1; len <= 4; ++len) CASE("run of ", len, " anywhere on ", n) {
    std::string s = "*"; for (int i = 0; i < len; ++i) s += ref::SYM[i]; s += "*"; music m(n); m.push_back(music_details(s));
    for (int at = 0; at + len <= n; ++at) { P p; for (int i = len; (int)p.size() < at; ++i) p.push_back(i); for (int i = 0; i < len; ++i) p.push_back(i); for (int i = len + at; (int)p.size() < n; ++i) p.push_back(i); EXPECT(m.process_row(mk(p)), "far", "not found in place ", at + 1); P q(p); std::swap(q[at], q[(at + len) % n]); EXPECT(m.process_row(mk(q)) == matches(s, q), "far-not", at); vf::states(); }
    std::string e = s.substr(0, s.size() - 1), f = s.substr(1); EXPECT(row_wildcard(e).count(n) == ref::fact(n - len) && row_wildcard(f).count(n) == ref::fact(n - len), "many-end", row_wildcard(e).count(n));
    EXPECT(row_wildcard(s).count(n) == ref::fact(n - len) * (n - len + 1), "many-anywhere", row_wildcard(s).count(n));
  } END_CASE
  for (int n = 8; n <= 16; n += 2) CASE("two runs on ", n) { // *12*34*
    uint64_t w = 0; for (int a = 0; a + 2 <= n; ++a) for (int b = a + 2; b + 2 <= n; ++b) ++w; EXPECT(row_wildcard("*12*34*").count(n) == w * ref::fact(n - 4), "two-runs", row_wildcard("*12*34*").count(n));
    music m(n); m.push_back(music_details("*12*34*", 1)); for (int a = 0; a + 2 <= n; ++a) for (int b = 0; b + 2 <= n; ++b) { if (b >= a - 1 && b <= a + 1) continue; P p(n, -1); p[a] = 0; p[a + 1] = 1; p[b] = 2; p[b + 1] = 3; int k = 4; for (int &x : p) if (x < 0) x = k++; EXPECT(m.process_row(mk(p)) == (a < b), "two-runs-match", ref::str(p)); }
  } END_CASE
}
// several patterns in one music neither help nor hinder each other
VF_SECTION(together) {
  std::vector<std::string> ps; patterns({"1", "4", "?", "*", "[24]"}, vf::tier(3, 4), [&](std::string const &s) { ps.push_back(s); });
  size_t st = vf::tier(7, 3), k = 0;
  for (auto &a : ps) for (auto &b : ps) { if (k++ % st) continue; CASE("patterns ", vf::quote(a), " and ", vf::quote(b)) {
    music m(4); m.push_back(music_details(a, 2)); m.push_back(music_details(b, 5)); uint64_t x = 0, y = 0;
    for (size_t i = 0; i < 24; ++i) { bool p = matches(a, rows(4)[i]), q = matches(b, rows(4)[i]); x += p; y += q; EXPECT(m.process_row(lrows(4)[i]) == (p || q), "either", ref::str(rows(4)[i])); }
    EXPECT(m.begin()->count() == x && (m.begin() + 1)->count() == y, "separately", m.begin()->count(), " and ", (m.begin() + 1)->count(), ", not ", x, " and ", y);
    EXPECT(m.get_score() == int(2 * x + 5 * y) && m.get_count() == x + y, "together", m.get_score());
    vf::states(24);
  } END_CASE }
}
// what is not a pattern
VF_SECTION(invalid) {
  std::string al = "13?*[]{A-"; int L = vf::tier(5, 6); std::string s;
  auto valid = [&](std::string const &t) { bool in = false; for (char c : t) { if (bellof(c) >= 0) continue; if (c == '?' || c == '*') { if (in) return false; } else if (c == '[') { if (in) return false; in = true; } else if (c == ']') { if (!in) return false; in = false; } else return false; } return !in; };
  std::function<void()> go = [&]() {
    CASE("text ", vf::quote(s)) {
      bool v = valid(s), g = true, g2 = true, g3 = true; try { music_details d(s); } catch (music_details::invalid_regex const &) { g = false; } try { row_wildcard w(s); } catch (row_wildcard::invalid_pattern const &) { g2 = false; } music_details d("12"); try { d.set(s); } catch (music_details::invalid_regex const &) { g3 = false; }
      EXPECT(g == v && g2 == v && g3 == v, v ? "refused" : "accepted", "");
      if (v) for (int n : {2, 3, 12}) { bool ok = legal(s, n), o = true, o2 = true, o3 = true; try { row_wildcard w(s, n); } catch (row_wildcard::invalid_pattern const &) { o = false; } music m(n); try { m.push_back(music_details(s)); } catch (music_details::invalid_regex const &) { o2 = false; } row_wildcard w(s); try { w.set_bells(n); } catch (row_wildcard::invalid_pattern const &) { o3 = false; } EXPECT(o == ok && o2 == ok && o3 == ok, ok ? "range-refused" : "range-accepted", n, " bells"); EXPECT(m.size() == (ok ? 1u : 0u), "range-size", ""); if (!ok) { m.push_back(music_details("12")); m.process_row(row(n)); EXPECT(m.get_count() == 1, "range-after", ""); } }
    } END_CASE
    if ((int)s.size() < L) for (char c : al) { s += c; go(); s.resize(s.size() - 1); }
  };
  go();
  CASE("no bells") { bool t = false; try { row_wildcard("12").count(); } catch (row_wildcard::invalid_pattern const &) { t = true; } EXPECT(t, "unspecified", ""); } END_CASE
}
// histories of one music
struct Mod { int n; std::vector<std::pair<std::string, int>> pat; std::vector<std::pair<int, int>> cnt; };
VF_SECTION(histories) {
  std::vector<std::string> ps = {"*4", "12", "*[23]*", "?1*2"}; std::vector<int> ops; int D = vf::tier(4, 5);
  // 0-3 push pattern; 4,5,6 set_bells 4,5,6; 7 clear(); 8 clear(5); 9,10 rows; 11 reset; 12 copy and go on with the copy; 13 copy, change the copy
  std::function<void()> go = [&]() {
    if (!ops.empty()) CASE("operations", [&] { std::string s; for (int o : ops) s += " " + std::to_string(o); return s; }()) {
      music m(5); Mod d{5, {}, {}}; vf::states();
      auto rowsof = [&](int o) { std::vector<P> v; v.push_back(ref::id(d.n)); P p = ref::id(d.n); std::reverse(p.begin(), p.end()); v.push_back(p); p = ref::id(d.n); std::swap(p[1], p[2]); std::swap(p[3], p[d.n - 1]); v.push_back(p); p = ref::id(d.n); std::swap(p[0], p[1]); v.push_back(p); if (o == 10) std::rotate(v.begin(), v.begin() + 1, v.end()); return v; };
      auto check = [&](music const &x) {
        EXPECT(x.size() == d.pat.size() && x.bells() == unsigned(d.n), "size", x.size(), " patterns on ", x.bells()); if (x.size() != d.pat.size()) return;
        int sc = 0; for (size_t i = 0; i < d.pat.size(); ++i) { auto k = x.begin() + i; EXPECT(k->get() == d.pat[i].first, "pattern", i); EXPECT((int)k->count(eHandstroke) == d.cnt[i].first && (int)k->count(eBackstroke) == d.cnt[i].second, "counts", k->count(), " for ", d.pat[i].first, ", not ", d.cnt[i].first, "+", d.cnt[i].second); sc += d.pat[i].second * (d.cnt[i].first + d.cnt[i].second); }
        EXPECT(x.get_score() == sc, "score", x.get_score(), " not ", sc);
      };
      for (int o : ops) {
        if (o < 4) { m.push_back(music_details(ps[o], o + 1)); d.pat.push_back({ps[o], o + 1}); d.cnt.push_back({0, 0}); }
        else if (o < 7) { m.set_bells(o); d.n = o; }
        else if (o == 7) { m.clear(); d.pat.clear(); d.cnt.clear(); }
        else if (o == 8) { m.clear(6); d.n = 6; d.pat.clear(); d.cnt.clear(); }
        else if (o == 9) { bool bk = false; for (auto &p : rowsof(o)) { bool any = false; for (size_t i = 0; i < d.pat.size(); ++i) if (matches(d.pat[i].first, p)) { any = true; (bk ? d.cnt[i].second : d.cnt[i].first)++; } EXPECT(m.process_row(mk(p), bk) == any, "row", ref::str(p)); bk = !bk; } }
        else if (o == 10) { std::vector<row> v; for (auto &p : rowsof(o)) v.push_back(mk(p)); for (auto &c : d.cnt) c = {0, 0}; bool bk = true; for (auto &p : rowsof(o)) { for (size_t i = 0; i < d.pat.size(); ++i) if (matches(d.pat[i].first, p)) (bk ? d.cnt[i].second : d.cnt[i].first)++; bk = !bk; } m.process_rows(v.begin(), v.end(), true); }
        else if (o == 11) { m.reset_music(); for (auto &c : d.cnt) c = {0, 0}; }
        else if (o == 12) { music k(m); music e(2); e = k; m = e; }
        else { music k(m); k.push_back(music_details("*", 7)); k.process_row(row(d.n)); EXPECT(k.size() == m.size() + 1, "copy", ""); }
        check(m);
      }
    } END_CASE
    if ((int)ops.size() < D) for (int o = 0; o < 14; ++o) { ops.push_back(o); go(); ops.pop_back(); }
  };
  go();
}
// named music
static int run_at(P const &r, int i, int n, int d) { if (i < 0 || i + n > (int)r.size()) return 0; for (int j = 1; j < n; ++j) if (r[i + j] != r[i + j - 1] + d) return 0; return 1; }
VF_SECTION(named) {
  for (int n = 4; n <= vf::tier(7, 8); ++n) {
    auto &rs = rows(n); auto &ls = lrows(n);
    auto chk = [&](std::string const &name, std::function<int(P const &)> f) { CASE("music ", name, " on ", n) {
      music m(n); m.add_named_music(name, 2, 3); music m2(n); m2.add_named_music(name); music m3(n); m3.add_scored_music_string("2,3:<" + name + ">"); music m4(n); m4.add_scored_music_string("<" + name + ">"); int h = 0, b = 0; bool bk = false; size_t poss = 0; vf::states(rs.size());
      for (size_t k = 0; k < rs.size(); ++k, bk = !bk) { int w = f(rs[k]); (bk ? b : h) += w; poss += w; unsigned c0 = m.get_count(); EXPECT(m.process_row(ls[k], bk) == (w > 0), "named-row", ref::str(rs[k])); EXPECT(m.get_count() - c0 == unsigned(w), "named-count", ref::str(rs[k]), " ", m.get_count() - c0, " not ", w); m3.process_row(ls[k], bk); }
      EXPECT(m.get_score() == 2 * h + 3 * b && m3.get_score() == 2 * h + 3 * b, "named-score", m.get_score()); m2.process_rows(ls.begin(), ls.end()); m4.process_rows(ls.begin(), ls.end(), true); EXPECT(m2.get_score() == h + b && m4.get_score() == h + b, "named-one", m2.get_score());
      EXPECT(m.get_possible_score() == int(3 * poss), "named-possible", m.get_possible_score());
    } END_CASE };
    P id = ref::id(n), q, k, t, rv(id); std::reverse(rv.begin(), rv.end());
    for (int i = 0; i < n; i += 2) q.push_back(i); for (int i = 1; i < n; i += 2) q.push_back(i);
    for (int i = (n - 1) / 2 * 2; i >= 0; i -= 2) k.push_back(i); for (int i = 1; i < n; i += 2) k.push_back(i);
    for (int i = 0; i < (n + 1) / 2; ++i) { t.push_back(i); if ((int)t.size() < n) t.push_back(i + (n + 1) / 2); }
    auto is = [](P x) { return [x](P const &r) { return int(r == x); }; };
    chk("rounds", is(id)); chk("queens", is(q)); chk("kings", is(k)); chk("tittums", is(t)); chk("reverse-rounds", is(rv));
    chk("CRUs", [n](P const &r) { if (n < 6) return 0; for (int i = 6; i < n; ++i) if (r[i] != i) return 0; int a = r[4], b = r[5]; return int(a >= 3 && a < 6 && b >= 3 && b < 6); });
    for (int len = 3; len <= n; ++len) { std::string l = std::to_string(len);
      chk(l + "-runs", [=](P const &r) { int c = 0; for (int i = 0; i < n; ++i) c += run_at(r, i, len, 1) + run_at(r, i, len, -1); return c; });
      chk("front-" + l + "-runs", [=](P const &r) { return run_at(r, 0, len, 1) + run_at(r, 0, len, -1); });
      chk("back-" + l + "-runs", [=](P const &r) { return run_at(r, n - len, len, 1) + run_at(r, n - len, len, -1); }); }
    for (int len = 1; len <= n; ++len) for (int pos = 0; pos < 3; ++pos) for (int dir = -1; dir <= 1; ++dir) CASE("runs of ", len, " pos ", pos, " dir ", dir, " on ", n) {
      music m = music::make_runs_match(n, len, music::match_pos(pos), dir, 1, 1); int tot = 0; for (size_t x = 0; x < rs.size(); x += vf::tier(3, 1)) { int w = 0; for (int i = 0; i + len <= n; ++i) { if ((pos == 1 && i) || (pos == 2 && i + len != n)) continue; if (dir >= 0) w += run_at(rs[x], i, len, 1); if (dir <= 0) w += run_at(rs[x], i, len, -1); } tot += w; m.process_row(ls[x]); } EXPECT((int)m.get_count() == tot, "runs", m.get_count(), " not ", tot);
    } END_CASE
    for (auto &bad : {"", "round", "Rounds", "2-runs", "runs", "-runs", "4-run", "front-runs", "front-2-runs", "back-x-runs", "4-runsx", "middle-4-runs", "99-runs", "front-99-runs"}) CASE("not music ", bad, " on ", n) { music m(n); bool t = false; try { m.add_named_music(bad); } catch (invalid_named_music const &) { t = true; } EXPECT(t, "named-accepted", ""); EXPECT(m.size() == 0, "named-left", ""); } END_CASE
  }
}
VF_SECTION(scored) {
  std::vector<std::pair<std::string, int>> sc; for (int v : {0, 1, 2, 10, 37}) { sc.push_back({std::to_string(v), v}); sc.push_back({"+" + std::to_string(v), v}); sc.push_back({"-" + std::to_string(v), -v}); }
  std::vector<std::string> pats = {"*4", "1*", "*", "2143", "?[12]*", "3", "12?4"};
  auto chk = [](std::string const &s, int h, int b, std::string const &p) { CASE("music ", s) { music m(4); m.add_scored_music_string(s); EXPECT(m.size() == 1 && m.begin()->get() == p, "scored-pattern", m.size() ? m.begin()->get() : "none"); int eh = 0, eb = 0; for (auto &r : rows(4)) { bool w = matches(p, r); m.process_row(mk(r), false); m.process_row(mk(r), true); eh += w * h; eb += w * b; } EXPECT(m.get_score(eHandstroke) == eh && m.get_score(eBackstroke) == eb, "scored", m.get_score(eHandstroke), " ", m.get_score(eBackstroke), " not ", eh, " ", eb); vf::states(24); } END_CASE };
  for (auto &p : pats) { chk(p, 1, 1, p); for (auto &a : sc) { chk(a.first + ":" + p, a.second, a.second, p); for (auto &b : sc) chk(a.first + "," + b.first + ":" + p, a.second, b.second, p); } }
}
