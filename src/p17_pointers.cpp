// P17: every history of the smart pointers frees each object once, when its last owner lets go,
// and shares, copies or clones it as the kind of pointer promises.
#include <ringing/common.h>
#include "vf.h"
#include <algorithm>
#include <memory>
#include <ringing/pointers.h>
using namespace ringing;
static int g_live, g_next; static std::map<int, int> g_alive, g_deaths;
struct Obj { int id, val; explicit Obj(int v) : id(g_next++), val(v) { ++g_live; g_alive[id] = 1; } Obj(Obj const &o) : id(g_next++), val(o.val) { ++g_live; g_alive[id] = 1; } virtual ~Obj() { --g_live; g_alive.erase(id); ++g_deaths[id]; } Obj *clone() const { return new Obj(*this); } void set(int v) { val = v; } int get() const { return val; } };
static int g_custom; static void custom(Obj *&p) { ++g_custom; delete p; p = 0; }
static void reset_world() { g_live = g_next = 0; g_alive.clear(); g_deaths.clear(); g_custom = 0; }
static int const N = 3;
// The model: a slot names an owned model object (or nothing); several slots may name one.
struct MO { int val; };
typedef std::shared_ptr<MO> MP;
template <class P> static bool isset(P const &p) { return p ? true : false; }
template <class P> static void compare(P const *p, MP const *m, bool sharing) {
  for (int i = 0; i < N; ++i) {
    EXPECT(isset(p[i]) == (m[i] != 0) && !p[i] == (m[i] == 0), "null", i); EXPECT((p[i].get() != 0) == (m[i] != 0), "get", i);
    if (m[i] && p[i].get()) { EXPECT(p[i]->get() == m[i]->val && (*p[i]).get() == m[i]->val && p[i].get()->get() == m[i]->val, "value", i, ": ", p[i]->get(), " not ", m[i]->val); EXPECT(g_alive.count(p[i]->id), "dangling", i); }
    for (int j = 0; j < N; ++j) { bool same = p[i].get() == p[j].get(); if (sharing) EXPECT(same == (m[i] == m[j]), "sharing", i, j); else EXPECT(same == (i == j || (!m[i] && !m[j])), "aliasing", i, j);
      EXPECT((p[i] == p[j]) == same && (p[i] != p[j]) == !same && (p[i] < p[j]) == (p[i].get() < p[j].get()) && (p[i] > p[j]) == (p[i].get() > p[j].get()) && (p[i] <= p[j]) == (p[i].get() <= p[j].get()) && (p[i] >= p[j]) == (p[i].get() >= p[j].get()), "compare", i, j); }
  }
}
static void alive(MP const *m, bool sharing, int released) { int n = 0; for (int i = 0; i < N; ++i) if (m[i]) { bool first = true; if (sharing) for (int j = 0; j < i; ++j) if (m[j] == m[i]) first = false; n += first; } EXPECT(g_live == n + released, "live-objects", g_live, " not ", n + released); for (auto &d : g_deaths) EXPECT(d.second == 1, "freed-twice", d.first); }
struct Op { int k, i, j; };
static std::string opname(Op const &o) { static char const *n[] = {"new", "assign", "reset", "resetnew", "swap", "temp", "set", "release", "stdswap", "resetself", "newdel", "clone", "vector", "resetnull", "rebuild"}; return vf::cat(" ", n[o.k], o.i, o.j >= 0 ? std::to_string(o.j) : ""); }
static std::vector<Op> ops_for(std::set<int> const &kinds, bool pairs) { std::vector<Op> v; for (int k : kinds) for (int i = 0; i < N; ++i) { if (k == 1 || k == 4 || k == 5 || k == 8) { for (int j = 0; j < N; ++j) if (pairs) v.push_back({k, i, j}); } else if (k == 12) { if (i == 0) v.push_back({k, i, -1}); } else v.push_back({k, i, -1}); } return v; }
template <class Run> static void explore(std::set<int> const &kinds, int D, Run run) {
  auto all = ops_for(kinds, true); std::vector<Op> seq;
  std::function<void()> go = [&]() { if (!seq.empty()) CASE("history", [&] { std::string s; for (auto &o : seq) s += opname(o); return s; }()) { reset_world(); run(seq); EXPECT(g_live == 0, "leaked", g_live); for (auto &d : g_deaths) EXPECT(d.second == 1, "freed-twice", d.first); EXPECT((int)g_deaths.size() == g_next, "never-freed", ""); vf::states(); } END_CASE
    if ((int)seq.size() < D) for (auto &o : all) { if (seq.empty() && o.i) continue; seq.push_back(o); go(); seq.pop_back(); } };
  go();
}
template <class P> static Obj *mut(P &p) { return p.get(); }
VF_SECTION(shared) {
  explore({0, 1, 2, 3, 4, 5, 6, 9, 10, 12}, vf::tier(4, 5), [](std::vector<Op> const &seq) {
    shared_pointer<Obj> p[N]; MP m[N]; int v = 1, cust = 0; std::set<MO *> cs;
    auto gone = [&](MP &x) { if (x && x.use_count() == 1 && cs.erase(x.get())) ++cust; x.reset(); };
    for (auto &o : seq) { switch (o.k) {
      case 0: p[o.i] = shared_pointer<Obj>(new Obj(v)); gone(m[o.i]); m[o.i] = MP(new MO{v++}); break;
      case 1: { p[o.i] = p[o.j]; if (o.i != o.j && m[o.i] != m[o.j]) gone(m[o.i]); m[o.i] = m[o.j]; } break;
      case 2: p[o.i].reset(); gone(m[o.i]); break;
      case 3: p[o.i].reset(new Obj(v)); gone(m[o.i]); m[o.i] = MP(new MO{v++}); break;
      case 4: p[o.i].swap(p[o.j]); std::swap(m[o.i], m[o.j]); break;
      case 5: { shared_pointer<Obj> t(p[o.i]); p[o.i] = p[o.j]; p[o.j] = t; std::swap(m[o.i], m[o.j]); } break;
      case 6: if (p[o.i]) { p[o.i]->set(v); m[o.i]->val = v++; } break;
      case 9: p[o.i].reset(p[o.i].get()); break;
      case 10: p[o.i] = shared_pointer<Obj>(new Obj(v), custom); gone(m[o.i]); m[o.i] = MP(new MO{v++}); cs.insert(m[o.i].get()); break;
      case 12: { std::vector<shared_pointer<Obj>> w(p, p + N); w.insert(w.begin(), w.back()); std::reverse(w.begin(), w.end()); w.erase(w.begin() + 1); std::vector<shared_pointer<Obj>> x(w); w.clear(); for (int i = 0; i < N; ++i) p[i] = x[i]; MP y[N] = {m[2], m[0], m[2]}; std::vector<MP> r = {m[2], m[0], m[1], m[2]}; std::reverse(r.begin(), r.end()); std::vector<MP> q = {m[2], m[0], m[1], m[2]}; std::reverse(q.begin(), q.end()); q.erase(q.begin() + 1); r.clear(); MP z[N]; for (int i = 0; i < N; ++i) z[i] = q[i]; q.clear(); for (auto &e : y) e.reset(); for (int i = 0; i < N; ++i) { bool kept = false; for (auto &e : z) if (e == m[i]) kept = true; bool later = false; for (int j = i + 1; j < N; ++j) if (m[j] == m[i]) later = true; if (!kept && !later) gone(m[i]); else m[i].reset(); } for (int i = 0; i < N; ++i) m[i] = z[i]; } break;
    } compare(p, m, true); alive(m, true, 0); EXPECT(g_custom == cust, "deletor", g_custom, " not ", cust); }
  });
}
VF_SECTION(cow) {
  explore({0, 1, 2, 3, 4, 5, 6, 9, 11, 12}, vf::tier(4, 5), [](std::vector<Op> const &seq) {
    cow_pointer<Obj> p[N]; MP m[N]; int v = 1; cow_pointer<Obj> const *c = p;
    auto own = [&](int i) { if (m[i] && m[i].use_count() > 1) m[i] = MP(new MO(*m[i])); };
    for (auto &o : seq) { switch (o.k) {
      case 0: p[o.i] = cow_pointer<Obj>(new Obj(v)); m[o.i] = MP(new MO{v++}); break;
      case 1: p[o.i] = p[o.j]; m[o.i] = m[o.j]; break;
      case 2: p[o.i].reset(); m[o.i].reset(); break;
      case 3: p[o.i].reset(new Obj(v)); m[o.i] = MP(new MO{v++}); break;
      case 4: p[o.i].swap(p[o.j]); std::swap(m[o.i], m[o.j]); break;
      case 5: { cow_pointer<Obj> t(p[o.i]); p[o.i] = p[o.j]; p[o.j] = t; std::swap(m[o.i], m[o.j]); } break;
      case 6: if (p[o.i]) { if (v % 3 == 0) p[o.i]->set(v); else if (v % 3 == 1) (*p[o.i]).set(v); else p[o.i].get()->set(v); own(o.i); m[o.i]->val = v++; } break;
      case 9: p[o.i].reset(const_cast<Obj *>(c[o.i].get())); break;
      case 11: p[o.i].clone(); own(o.i); break;
      case 12: { std::vector<cow_pointer<Obj>> w(p, p + N); std::rotate(w.begin(), w.begin() + 1, w.end()); if (w[0]) w[0]->set(v); for (int i = 0; i < N; ++i) p[i] = w[i]; std::rotate(m, m + 1, m + N); own(0); if (m[0]) m[0]->val = v; ++v; } break;
    }
      for (int i = 0; i < N; ++i) { EXPECT(isset(c[i]) == (m[i] != 0) && !c[i] == !m[i], "null", i); if (m[i] && c[i].get()) { EXPECT(c[i]->get() == m[i]->val && (*c[i]).get() == m[i]->val, "value", i, ": ", c[i]->get(), " not ", m[i]->val); EXPECT(g_alive.count(c[i]->id), "dangling", i); } for (int j = 0; j < N; ++j) { bool same = c[i].get() == c[j].get(); EXPECT(same == (m[i] == m[j]), "sharing", i, j, ": ", same); EXPECT((c[i] == c[j]) == same && (c[i] != c[j]) == !same && (c[i] < c[j]) == (c[i].get() < c[j].get()) && (c[i] >= c[j]) == (c[i].get() >= c[j].get()) && (c[i] > c[j]) == (c[i].get() > c[j].get()) && (c[i] <= c[j]) == (c[i].get() <= c[j].get()), "compare", i, j); } }
      alive(m, true, 0); }
  });
}
VF_SECTION(cloning) {
  explore({0, 1, 2, 3, 4, 5, 6, 7, 10, 12, 13}, vf::tier(4, 5), [](std::vector<Op> const &seq) {
    cloning_pointer<Obj> p[N]; MP m[N]; int v = 1; std::vector<Obj *> out; int released = 0; cloning_pointer<Obj> const *c = p;
    auto dup = [](MP const &x) { return x ? MP(new MO(*x)) : MP(); };
    for (auto &o : seq) { switch (o.k) {
      case 0: p[o.i] = cloning_pointer<Obj>(new Obj(v)); m[o.i] = MP(new MO{v++}); break;
      case 1: p[o.i] = p[o.j]; m[o.i] = dup(m[o.j]); break;
      case 2: p[o.i].reset(); m[o.i].reset(); break;
      case 3: p[o.i].reset(new Obj(v)); m[o.i] = MP(new MO{v++}); break;
      case 4: p[o.i].swap(p[o.j]); std::swap(m[o.i], m[o.j]); break;
      case 5: { cloning_pointer<Obj> t(p[o.i]); p[o.i] = p[o.j]; p[o.j] = t; MP u = dup(m[o.i]); m[o.i] = dup(m[o.j]); m[o.j] = u; } break;
      case 6: if (p[o.i]) { if (v % 3 == 0) p[o.i]->set(v); else if (v % 3 == 1) (*p[o.i]).set(v); else p[o.i].get()->set(v); m[o.i]->val = v++; } break;
      case 7: { Obj *x = p[o.i].release(); EXPECT((x != 0) == (m[o.i] != 0), "release", ""); if (x) { EXPECT(x->val == m[o.i]->val, "release", ""); ++released; out.push_back(x); } m[o.i].reset(); } break;
      case 10: p[o.i] = cloning_pointer<Obj>(new Obj(v), custom, clone_helper<Obj>::fn); m[o.i] = MP(new MO{v++}); break;
      case 12: { std::vector<cloning_pointer<Obj>> w(p, p + N); std::rotate(w.begin(), w.begin() + 1, w.end()); if (w[0]) w[0]->set(v); for (int i = 0; i < N; ++i) p[i] = w[i]; std::rotate(m, m + 1, m + N); if (m[0]) m[0]->val = v; ++v; } break;
      case 13: p[o.i].reset(0); m[o.i].reset(); break;
    } compare(c, m, false); alive(m, false, released); }
    for (Obj *x : out) delete x;
  });
}
VF_SECTION(scoped) {
  explore({2, 3, 6, 7, 10, 13, 14}, vf::tier(5, 6), [](std::vector<Op> const &seq) {
    std::unique_ptr<scoped_pointer<Obj>> p[N]; for (auto &x : p) x.reset(new scoped_pointer<Obj>); MP m[N]; int v = 1, released = 0, cust = 0; std::vector<Obj *> out; bool cs[N] = {false, false, false};
    auto gone = [&](int i) { if (m[i] && cs[i]) ++cust; cs[i] = false; m[i].reset(); };
    for (auto &o : seq) { scoped_pointer<Obj> &q = *p[o.i]; switch (o.k) {
      case 2: { int w = m[o.i] && cs[o.i]; int was = g_custom; bool n0 = !m[o.i]; q.reset(); if (n0) g_custom = was; (void)w; gone(o.i); } break;
      case 3: { int was = g_custom; bool n0 = !m[o.i]; q.reset(new Obj(v)); if (n0) g_custom = was; gone(o.i); m[o.i] = MP(new MO{v++}); } break;
      case 6: if (q) { q->set(v); m[o.i]->val = v++; } break;
      case 7: { Obj *x = q.release(); EXPECT((x != 0) == (m[o.i] != 0), "release", ""); if (x) { EXPECT(x->val == m[o.i]->val, "release", ""); out.push_back(x); ++released; } m[o.i].reset(); cs[o.i] = false; } break;
      case 10: p[o.i].reset(new scoped_pointer<Obj>(new Obj(v), custom)); gone(o.i); m[o.i] = MP(new MO{v++}); cs[o.i] = true; break;
      case 13: { int was = g_custom; bool n0 = !m[o.i]; q.reset(0); if (n0) g_custom = was; gone(o.i); } break;
      case 14: p[o.i].reset(new scoped_pointer<Obj>(new Obj(v))); gone(o.i); m[o.i] = MP(new MO{v++}); break;
    }
      for (int i = 0; i < N; ++i) { scoped_pointer<Obj> const &c = *p[i]; EXPECT(isset(c) == (m[i] != 0) && !c == !m[i] && (c.get() != 0) == (m[i] != 0), "null", i); if (m[i] && c.get()) { EXPECT(c->get() == m[i]->val && (*c).get() == m[i]->val && c.get()->get() == m[i]->val, "value", i); EXPECT(g_alive.count(c->id), "dangling", i); } for (int j = 0; j < N; ++j) { scoped_pointer<Obj> const &d = *p[j]; EXPECT((c == d) == (c.get() == d.get()) && (c != d) == (c.get() != d.get()) && (c < d) == (c.get() < d.get()) && (c > d) == (c.get() > d.get()) && (c <= d) == (c.get() <= d.get()) && (c >= d) == (c.get() >= d.get()), "compare", i, j); } }
      alive(m, false, released); EXPECT(g_custom == cust, "deletor", g_custom, " not ", cust); }
    for (Obj *x : out) delete x;
  });
}
