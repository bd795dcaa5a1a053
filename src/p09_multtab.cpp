// P09: multiplication tables give the products of the rows they tabulate.
#include "rl.h"
#include <ringing/group.h>
#include <ringing/multtab.h>
#include <memory>
using namespace ringing;
using namespace rl;
using ref::P;
typedef std::set<P> S;

static S closure(std::vector<P> gens, int n) {
  for (auto &g : gens) g = ref::ext(g, n);
  S s; std::vector<P> q(1, ref::id(n)); s.insert(q[0]);
  while (!q.empty()) { P p = q.back(); q.pop_back(); for (auto &g : gens) { P r = ref::mul(p, g); if (s.insert(r).second) q.push_back(r); } }
  return s;
}
static std::set<S> subgroups(int n) {
  std::set<S> o; auto ps = ref::perms(n);
  for (auto &a : ps) for (auto &b : ps) o.insert(closure({a, b}, n));   // every subgroup on up to 5 bells is two-generated
  if (n == 4) {}
  return o;
}
static group mkg(S const &s) { std::vector<row> v; for (auto &p : s) v.push_back(mk(p)); return group(v); }
static std::string shows(S const &s) { std::string o; for (auto &p : s) o += (o.empty() ? "" : ",") + ref::str(p); return o; }
static bool commutes(P const &x, S const &g) { for (auto &h : g) if (ref::mul(x, h) != ref::mul(h, x)) return false; return true; }

// A table of ROWS with part ends H (and K after), in step with the model.
struct Model {
  std::vector<P> rows; S H, K; std::set<P> in;
  std::map<P, P> rep;        // representative of any row of H.rows.K
  Model(std::vector<P> const &r, S const &h, S const &k) : rows(r), H(h), K(k), in(r.begin(), r.end()) {
    // join the rows that part ends and the post group identify; the least row listed stands for them
    std::set<P> univ; for (auto &x : rows) for (auto &a : H) for (auto &b : K) univ.insert(ref::mul(ref::mul(a, x), b));
    for (auto &u : univ) { P best; for (auto &a : H) for (auto &b : K) { P v = ref::mul(ref::mul(a, u), b); if (in.count(v) && (best.empty() || v < best)) best = v; } rep[u] = best; }
  }
  std::set<P> reps() const { std::set<P> s; for (auto &x : rows) s.insert(rep.at(x)); return s; }
};
typedef multtab::post_col_t PC; typedef multtab::pre_col_t RC;

static void basics(multtab const &t, Model const &m, int n) {
  auto reps = m.reps();
  EXPECT(t.size() == reps.size(), "size", t.size(), " not ", reps.size());
  EXPECT(t.bells() == n, "bells", t.bells());
  EXPECT(t.group_size() == m.H.size() && t.partends().size() == m.H.size(), "group-size", t.group_size());
  std::set<P> seen; size_t k = 0;
  for (multtab::row_iterator i = t.begin_rows(), e = t.end_rows(); i != e; ++i, ++k) {
    EXPECT(i->index() == k && i->isrounds() == (k == 0), "iterate", "index ", i->index(), " at ", k);
    row r = t.find(*i); seen.insert(un(r));
    EXPECT(t.find(r) == *i, "find-both-ways", show(r));
    EXPECT(multtab::row_t::from_index(i->index()) == *i, "from-index", k);
  }
  EXPECT(k == reps.size() && seen == reps, "representatives", "the rows of the table are not the least of each class");
  for (auto &x : m.rep) EXPECT(un(t.find(t.find(mk(x.first)))) == x.second, "find", show(x.first), " gave ", show(t.find(t.find(mk(x.first)))), " not ", show(x.second));
}
static void post(multtab &t, Model const &m, P const &x, PC c) {
  EXPECT(!c.null(), "null", "");
  for (auto &r : m.rows) {
    P q = ref::mul(r, x); auto i = m.rep.find(q); if (i == m.rep.end()) continue;
    row got = t.find(t.find(mk(r)) * c);
    EXPECT(un(got) == i->second, "post-product", show(r), " * ", show(x), " gave ", show(got), " not ", show(i->second));
  }
}
static void pre(multtab &t, Model const &m, P const &x, RC c) {
  EXPECT(!c.null(), "null", "");
  for (auto &r : m.rows) {
    P q = ref::mul(x, r); auto i = m.rep.find(q); if (i == m.rep.end()) continue;
    row got = t.find(c * t.find(mk(r)));
    EXPECT(un(got) == i->second, "pre-product", show(x), " * ", show(r), " gave ", show(got), " not ", show(i->second));
  }
}
// every column, both sides
static void columns(multtab &t, Model const &m, std::vector<P> const &xs, int step) {
  for (size_t k = 0; k < xs.size(); k += step) {
    P const &x = xs[k];
    bool cp = commutes(x, m.K), threw = false; PC c;
    try { c = t.compute_post_mult(mk(x)); } catch (std::logic_error const &) { threw = true; }
    EXPECT(threw == !cp, "post-refused", "column ", show(x), threw ? " refused" : " accepted");
    if (!threw && cp) post(t, m, x, c);
    bool ch = commutes(x, m.H); threw = false; RC d;
    try { d = t.compute_pre_mult(mk(x)); } catch (std::logic_error const &) { threw = true; }
    EXPECT(threw == !ch, "pre-refused", "column ", show(x), threw ? " refused" : " accepted");
    if (!threw && ch) pre(t, m, x, d);
  }
}
template <class T> static std::vector<row> mks(T const &v) { std::vector<row> o; for (auto &p : v) o.push_back(mk(p)); return o; }

VF_SECTION(part_ends) {   // every part-end group of every group of rows on up to 4 (5) bells
  for (int n = 1; n <= 5; ++n) {
    auto subs = subgroups(n);
    for (auto &G : subs) for (auto &H : subs) {
      if (!std::includes(G.begin(), G.end(), H.begin(), H.end())) continue;
      if (n == 5 && !vf::thorough() && (G.size() < 60 || H.size() == 1 )) continue;
      CASE("rows ", G.size() > 24 ? std::to_string(G.size()) + " of " + std::to_string(n) + " bells" : shows(G), " by part ends ", shows(H)) {
        vf::states();
        std::vector<P> rows(G.begin(), G.end());
        Model m(rows, H, {ref::id(n)});
        auto rr = mks(rows);
        if (n > 2) std::swap(rr.front(), rr.back());   // the order they come in does not matter
        multtab t(rr.begin(), rr.end(), mkg(H));
        basics(t, m, n); columns(t, m, rows, n == 5 ? vf::tier(11, 3) : 1);
        if (H.size() == 1 && n < 5) { auto r3 = mks(rows); multtab u(r3.begin(), r3.end()); EXPECT(u.size() == rows.size() && u.find(mk(rows[0])).index() == 0, "plain", ""); Model m2(rows, H, {ref::id(n)}); basics(u, m2, n); columns(u, m2, rows, 1); }
        // a single part end generates the group
        for (auto &g : H) if (closure({g}, n) == H && n < 5) { multtab u(rr.begin(), rr.end(), mk(g)); basics(u, m, n); columns(u, m, rows, 3); }
      } END_CASE
    }
  }
}
VF_SECTION(post_groups) {   // rows that are representatives of cosets, as for whole courses
  for (int n = 2; n <= 4; ++n) {
    auto subs = subgroups(n); auto all = ref::perms(n);
    for (auto &K : subs) for (auto &H : subs) {
      // one row from each coset xK: least, greatest and a mixture
      for (int pick = 0; pick < 3; ++pick) {
        std::vector<P> T; std::set<P> done; int cnt = 0; bool free = true;
        for (auto &x : all) if (!done.count(x)) { std::vector<P> cs; for (auto &k : K) { P y = ref::mul(x, k); cs.push_back(y); done.insert(y); } std::sort(cs.begin(), cs.end()); T.push_back(pick == 0 ? cs.front() : pick == 1 ? cs.back() : cs[(cnt++ * 5 + 1) % cs.size()]); }
        if (K.size() == 1 && pick) continue;
        Model m(T, H, K);
        free = m.reps().size() * H.size() == T.size();
        if (!free) continue;
        CASE("rows ", shows(S(T.begin(), T.end())), " by part ends ", shows(H), " and post group ", shows(K)) {
          vf::states(); auto rr = mks(T);
          multtab t(rr.begin(), rr.end(), mkg(H), mkg(K)); basics(t, m, n); columns(t, m, all, 1);
        } END_CASE
      }
    }
  }
}
VF_SECTION(histories) {   // every sequence of columns computed, with copies in between
  int n = 3; auto all = ref::perms(n); auto subs = subgroups(n); int D = vf::tier(3, 4);
  for (auto &H : subs) {
    Model m(all, H, {ref::id(n)});
    std::vector<int> seq; int A = 12;
    std::function<void()> go = [&]() {
      if (!seq.empty()) CASE("part ends ", shows(H), ", columns ", [&]{ std::string s; for (int k : seq) s += (k % 2 ? " pre " : " post ") + ref::str(all[k / 2]); return s; }()) {
        auto rr = mks(all); vf::states();
        multtab t(rr.begin(), rr.end(), mkg(H));
        std::map<int, PC> pcs; std::map<int, RC> rcs; std::set<size_t> idx; size_t expect = 0;
        for (size_t s = 0; s < seq.size(); ++s) {
          int k = seq[s]; P x = all[k / 2];
          if (k % 2) { if (!commutes(x, H)) { bool th = false; try { t.compute_pre_mult(mk(x)); } catch (std::logic_error const &) { th = true; } EXPECT(th, "pre-refused", ""); continue; }
            RC c = t.compute_pre_mult(mk(x)); if (rcs.count(k)) EXPECT(rcs[k] == c, "same-column", show(x)); else { expect++; idx.insert(c.col_index()); rcs[k] = c; } }
          else { PC c = t.compute_post_mult(mk(x)); if (pcs.count(k)) EXPECT(pcs[k] == c, "same-column", show(x)); else { expect++; idx.insert(c.col_index()); pcs[k] = c; } }
          EXPECT(idx.size() == expect, "columns-distinct", idx.size());
          for (auto &p : pcs) post(t, m, all[p.first / 2], p.second);
          for (auto &p : rcs) pre(t, m, all[p.first / 2], p.second);
          if (s + 1 == seq.size()) {   // a copy carries on alone, and the original is left as it was
            multtab u(t); multtab v(rr.begin(), rr.begin() + 1); v = t;
            for (size_t z = 0; z < all.size(); ++z) { PC c = u.compute_post_mult(mk(all[z])); post(u, m, all[z], c); PC d = v.compute_post_mult(mk(all[z])); post(v, m, all[z], d); }
            for (auto &p : pcs) post(t, m, all[p.first / 2], p.second);
            for (auto &p : rcs) pre(t, m, all[p.first / 2], p.second);
            multtab w(rr.begin(), rr.end()); Model mw(all, {ref::id(n)}, {ref::id(n)});
            w.swap(u); basics(w, m, n); basics(u, mw, n); columns(w, m, all, 1); columns(u, mw, all, 1);
          }
        }
      } END_CASE
      if ((int)seq.size() < D) for (int k = 0; k < A; ++k) { if (!vf::thorough() && seq.size() == 2 && k % 3 != (int)(seq[0] + seq[1]) % 3) continue; seq.push_back(k); go(); seq.pop_back(); }
    };
    go();
  }
}
VF_SECTION(changes) {   // changes as columns, from every row
  for (int n = 1; n <= vf::tier(5, 6); ++n) {
    auto all = ref::perms(n); auto rr = mks(all); Model m(all, {ref::id(n)}, {ref::id(n)});
    multtab t(rr.begin(), rr.end());
    for (auto &s : ref::changes(n)) CASE("change ", ref::pn(s), " on ", n) { vf::states(); post(t, m, ref::sw_perm(s), t.compute_post_mult(mkc(s))); if (n > 1) { ref::Sw s2(s.begin(), s.end() - 1); if (!s[n - 2]) post(t, m, ref::sw_perm(s), t.compute_post_mult(mkc(s2))); } } END_CASE
  }
}
VF_SECTION(square) {     // all products of all rows
  for (int n = 1; n <= 5; ++n) { auto subs = subgroups(n); for (auto &G : subs) {
    if (n == 5 && !vf::thorough() && G.size() != 120 && G.size() % 10) continue;
    CASE("square table of ", G.size() > 24 ? std::to_string(G.size()) + " rows" : shows(G)) {
      vf::states(); std::vector<P> rows(G.begin(), G.end()); auto rr = mks(rows);
      sqmulttab t(rr.begin(), rr.end());
      EXPECT(t.size() == rows.size(), "size", t.size());
      for (auto &a : rows) for (auto &b : rows) {
        row got = t.find(t.find(mk(a)) * t.find(mk(b)));
        EXPECT(un(got) == ref::mul(a, b), "square-product", show(a), " * ", show(b), " gave ", show(got));
        got = t.find(t.compute_pre_mult(mk(a)) * t.find(mk(b))); EXPECT(un(got) == ref::mul(a, b), "square-pre", "");
        got = t.find(t.find(mk(a)) * t.compute_post_mult(mk(b))); EXPECT(un(got) == ref::mul(a, b), "square-post", "");
        got = t.multtab::find(multtab::row_t(t.find(mk(a))) * multtab::post_col_t(t.find(mk(b)))); EXPECT(un(got) == ref::mul(a, b), "square-col", "");
      }
    } END_CASE
  } }
}
