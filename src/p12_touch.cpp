// P12: a touch iterates over exactly the changes its tree denotes.
#include "rl.h"
#include <ringing/touch.h>
#include <ringing/search_base.h>
#include <memory>
using namespace ringing;
using namespace rl;
typedef std::vector<int> V;   // changes by index
static std::vector<change> const &CH() { static std::vector<change> v; if (v.empty()) for (auto &s : ref::changes(4)) v.push_back(mkc(s)); return v; }
// a tree: a leaf (list of changes) or a list of (repeats, child)
struct T { bool leaf; V ch; std::vector<std::pair<int, int>> kids; V exp; int size; std::string name; };
static std::vector<T> pool;
static int leaf(V v) { T t; t.leaf = true; t.ch = v; t.exp = v; t.size = 1; t.name = "["; for (int i : v) t.name += char('a' + i); t.name += "]"; pool.push_back(t); return pool.size() - 1; }
static T node(std::vector<std::pair<int, int>> const &k) { T t; t.leaf = false; t.kids = k; t.size = 1; t.name = "("; for (auto &x : k) { auto &c = pool[x.second]; t.size += c.size; t.name += std::to_string(x.first) + c.name; for (int r = 0; r < x.first; ++r) t.exp.insert(t.exp.end(), c.exp.begin(), c.exp.end()); } t.name += ")"; return t; }
static touch_node *build(touch &t, T const &x, bool shared, std::map<int, touch_node *> &memo) {
  touch_node *n;
  if (x.leaf) { auto *c = new touch_changes; for (int i : x.ch) c->push_back(CH()[i]); n = c; t.push_back(n); }
  else { auto *c = new touch_child_list; t.push_back(c); for (auto &k : x.kids) { touch_node *m; if (shared && memo.count(k.second)) m = memo[k.second]; else memo[k.second] = m = build(t, pool[k.second], shared, memo); c->push_back(k.first, m); } n = c; }
  return n;
}
static void check(T const &x) {
  for (int shared = 0; shared < 2; ++shared) {
    vf::states(); touch t; std::map<int, touch_node *> memo; touch_node *h = build(t, x, shared, memo); t.set_head(h);
    EXPECT(t.get_head() == h, "head", "");
    V got; size_t lim = x.exp.size() + 3;
    touch::const_iterator i = t.begin(), e = t.end();
    std::vector<touch::const_iterator> pos;
    for (; i != e && got.size() < lim; ++i) { pos.push_back(i); change c = *i; int k = 0; while (k < (int)CH().size() && CH()[k] != c) ++k; got.push_back(k); EXPECT(i->bells() == 4, "arrow", ""); }
    EXPECT(got == x.exp, "changes", "got ", got.size(), " changes, not ", x.exp.size());
    if (got.size() >= lim) continue;
    EXPECT(i == e && !(i != e) && e == t.end(), "end", "");
    // every position keeps its place while others move on, and positions differ
    for (size_t a = 0; a < pos.size() && a < 12; ++a) {
      EXPECT(*pos[a] == CH()[x.exp[a]], "kept", a);
      EXPECT(pos[a] != e, "not-end", a);
      for (size_t b = 0; b < pos.size() && b < 12; ++b) EXPECT((pos[a] == pos[b]) == (a == b), "positions", a, " and ", b);
      touch::const_iterator k(pos[a]), l; l = pos[a]; touch::const_iterator old = k++; EXPECT(old == pos[a] && l == pos[a] && (a + 1 < pos.size() ? k == pos[a + 1] : k == e), "post-increment", a);
      touch::const_iterator w(pos[a]); size_t n = a; for (; w != e && n < lim; ++w) ++n; EXPECT(n == x.exp.size(), "walk-from", a);
    }
    touch u(t); V g2; for (auto j = u.begin(), f = u.end(); j != f && g2.size() < lim; ++j) g2.push_back(0); EXPECT(g2.size() == x.exp.size(), "copy", "");
    touch *d = new touch(t); touch v(*d); delete d; V g3; for (auto j = v.begin(), f = v.end(); j != f && g3.size() < lim; ++j) g3.push_back(0); EXPECT(g3.size() == x.exp.size(), "copy-outlives", "");
  }
}
VF_SECTION(trees) {
  pool.clear(); std::vector<int> lv = {leaf({}), leaf({0}), leaf({1, 2}), leaf({2, 2, 0})};
  for (int l : lv) CASE("touch ", pool[l].name) { check(pool[l]); } END_CASE
  // lists of up to three leaves, each 0..3 times
  std::vector<std::vector<std::pair<int, int>>> lists(1); size_t from = 0; int W = vf::tier(3, 4);
  for (int w = 0; w < W; ++w) { size_t to = lists.size(); for (size_t i = from; i < to; ++i) for (int r = 0; r <= 3; ++r) for (int l : lv) { if (w >= 2 && (l == lv[3] || r == 3)) continue; auto k = lists[i]; k.push_back({r, l}); lists.push_back(k); } from = to; }
  for (auto &k : lists) { T t = node(k); CASE("touch ", t.name) { check(t); } END_CASE }
  // lists of lists, two deep, with leaves among them
  std::vector<int> mid; for (auto &k : lists) if (k.size() <= 1 || (k.size() == 2 && (k[0].first != k[1].first || vf::thorough()) && k[0].first <= 2 && k[1].first <= 2)) { pool.push_back(node(k)); mid.push_back(pool.size() - 1); }
  std::vector<int> kids(mid); kids.insert(kids.end(), lv.begin(), lv.begin() + 3);
  size_t stride = vf::tier(3, 1), cnt = 0; std::vector<int> deep;
  for (int a : kids) for (int ra = 0; ra <= 2; ++ra) {
    { T t = node({{ra, a}}); CASE("touch ", t.name) { check(t); } END_CASE if (ra && deep.size() < 60) { pool.push_back(t); deep.push_back(pool.size() - 1); } }
    for (int b : kids) for (int rb = 0; rb <= 2; ++rb) { if (cnt++ % stride) continue; T t = node({{ra, a}, {rb, b}}); CASE("touch ", t.name) { check(t); } END_CASE }
  }
  for (int a : deep) for (int b : deep) for (int r = 0; r <= 2; ++r) { T t = node({{r, a}, {2 - r, b}, {1, lv[1]}}); CASE("touch ", t.name) { check(t); } END_CASE }
}
VF_SECTION(histories) {   // editing a list between walks
  pool.clear(); std::vector<int> lv = {leaf({}), leaf({0}), leaf({1, 2})};
  int D = vf::tier(5, 6); std::vector<int> ops;
  std::function<void()> go = [&]() {
    if (!ops.empty()) CASE("edits", [&]{ std::string s; for (int o : ops) s += o == 9 ? " pop" : " push" + std::to_string(o / 3) + pool[lv[o % 3]].name; return s; }()) {
      touch t; auto *c = new touch_child_list; t.push_back(c); std::vector<touch_node *> n; for (int l : lv) { auto *x = new touch_changes; for (int i : pool[l].ch) x->push_back(CH()[i]); t.push_back(x); n.push_back(x); } t.set_head(c);
      EXPECT(t.get_node(0) == c && t.get_node(1) == n[0], "nodes", "");
      std::vector<std::pair<int, int>> k; vf::states();
      for (int o : ops) { if (o == 9) { if (k.empty()) continue; k.pop_back(); c->pop_back(); } else { k.push_back({o / 3, lv[o % 3]}); c->push_back(o / 3, n[o % 3]); }
        V e = node(k).exp; V g; for (auto i = t.begin(), z = t.end(); i != z && g.size() < e.size() + 3; ++i) { int q = 0; while (q < (int)CH().size() && CH()[q] != *i) ++q; g.push_back(q); } EXPECT(g == e, "after-edit", g.size(), " not ", e.size()); EXPECT(c->children().size() == k.size(), "children", ""); }
    } END_CASE
    if ((int)ops.size() < D) for (int o : {0, 1, 3, 4, 5, 7, 9}) { if (o == 9 && ops.empty()) continue; ops.push_back(o); go(); ops.pop_back(); }
  };
  go();
  CASE("no head") { touch t; EXPECT(t.begin() == t.end() && !t.get_head(), "empty", ""); } END_CASE
  // from place notation, and from ranges
  for (auto &s : {"X", "12", "X12", "&X.12,14"}) CASE("notation ", s) { touch t; auto *c = new touch_changes(s, 4); t.push_back(c); t.set_head(c); std::vector<change> e; std::string x(s); interpret_pn(4, x.begin(), x.end(), std::back_inserter(e)); std::vector<change> g; for (auto i = t.begin(); i != t.end(); ++i) g.push_back(*i); EXPECT(g == e, "notation", ""); touch_changes d(e), f(e.begin(), e.end()); std::vector<change> g2(d.begin(), d.end()), g3(f.begin(), f.end()); EXPECT(g2 == e && g3 == e, "ranges", ""); } END_CASE
}
