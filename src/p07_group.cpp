// P07: groups of rows: closure, membership, cosets, subgroups, products.
#include "rl.h"
#include <ringing/group.h>
#include <ringing/extent.h>
#include <functional>
using namespace ringing;
using namespace rl;
using ref::P;
typedef std::set<P> S;

static S closure(std::vector<P> gens, int n) {
  for (auto &g : gens) g = ref::ext(g, n);
  S s; std::vector<P> q(1, ref::id(n)); s.insert(q[0]);
  while (!q.empty()) { P p = q.back(); q.pop_back(); for (auto &g : gens) { P r = ref::mul(p, g); if (s.insert(r).second) q.push_back(r); } }
  return s;
}
static S conj(S const &g, P const &r) { S o; for (auto &x : g) o.insert(ref::mul(ref::mul(ref::inv(r), x), r)); return o; }
static void same(group const &g, S const &e, int n, char const *what) {
  EXPECT((int)g.bells() == n, what, "bells ", g.bells(), " not ", n);
  EXPECT(g.size() == e.size() && (size_t)std::distance(g.begin(), g.end()) == e.size(), what, "size ", g.size(), " not ", e.size());
  S got; bool sz = true; for (auto &r : g) { got.insert(un(r)); if (r.bells() != n) sz = false; }
  EXPECT(sz, what, "an element has the wrong number of bells");
  EXPECT(got == e, what, "elements differ");
  std::vector<int> inv; for (int b = 0; b < n; ++b) { bool fix = true; for (auto &p : e) if (p[b] != b) fix = false; if (fix) inv.push_back(b); }
  auto iv = g.invariants(); std::vector<int> w(iv.begin(), iv.end()); std::sort(w.begin(), w.end());
  EXPECT(w == inv, what, "invariant bells differ");
}
static void cosets(group const &g, S const &e, int n, std::vector<P> const &rows) {
  for (auto &r : rows) {
    P rl_, ll; bool f = true;
    int m = std::max<int>(n, r.size());
    for (auto &x : e) { P a = ref::mul(x, r), b = ref::mul(r, x); if (f || a < rl_) rl_ = a; if (f || b < ll) ll = b; f = false; }
    row got = g.rcoset_label(mk(r));
    EXPECT(ref::ext(un(got), m) == rl_ , "right-coset-label", show(r), " gave ", show(got), " not ", show(rl_));
    got = g.lcoset_label(mk(r));
    EXPECT(ref::ext(un(got), m) == ll, "left-coset-label", show(r), " gave ", show(got), " not ", show(ll));
  }
}
static std::vector<std::pair<P, P>> *pairs_;
VF_SECTION(generated) {  // every group generated by up to two rows on up to 5 bells
  int N = vf::tier(5, 5);
  for (int n = 0; n <= N; ++n) {
    auto ps = ref::perms(n);
    std::set<S> seen;
    for (size_t i = 0; i < ps.size(); ++i) for (size_t j = i; j < ps.size(); ++j) {
      CASE("group of ", show(ps[i]), " and ", show(ps[j])) {
        S e = closure({ps[i], ps[j]}, n);
        group g = i == j ? group(mk(ps[i])) : group(mk(ps[i]), mk(ps[j]));
        bool fresh = seen.insert(e).second; if (fresh) vf::states();
        same(g, e, n, "generated");
        group g2(std::vector<row>{mk(ps[j]), mk(ps[i]), mk(ps[j])});
        EXPECT(g == g2 && !(g != g2) && !(g < g2) && !(g > g2) && g <= g2 && g >= g2, "same-group-equal", "generators in another order");
        if (fresh) {
          cosets(g, e, n, ps);
          if (n <= 4) { cosets(g, e, n, ref::perms_upto(n)); cosets(g, e, n, ref::perms(n + 1)); }
          S ev; for (auto &p : e) if (ref::sign(p) > 0) ev.insert(p);
          same(g.even_subgroup(), ev, n, "even-subgroup");
          for (size_t k = 0; k < ps.size(); k += n == 5 ? 11 : 1) same(g.conjugate(mk(ps[k])), conj(e, ps[k]), n, "conjugate");
          P longer = ref::id(n + 2); std::rotate(longer.begin(), longer.begin() + 1, longer.end());
          same(g.conjugate(mk(longer)), conj(e, longer), n + 2, "conjugate-longer");
          // comparing with the conjugates orders them totally
          group c(g.conjugate(mk(ps[ps.size() / 2]))); bool eqv = conj(e, ps[ps.size() / 2]) == e;
          EXPECT((c == g) == eqv && ((c < g) + (g < c) + eqv) == 1 && (c > g) == (g < c), "compare", "");
          group a(g), b; a.swap(b); same(b, e, n, "swap"); EXPECT(a.size() == 1 && a.bells() == 0, "swap-empty", "");
        }
      } END_CASE
    }
  }
}
VF_SECTION(mixed_sizes) {
  auto ps = ref::perms_upto(4);
  for (auto &a : ps) for (auto &b : ps) if (a.size() != b.size()) CASE("group of ", show(a), " and ", show(b)) {
    vf::states(); int n = std::max(a.size(), b.size()); S e = closure({a, b}, n);
    same(group(mk(a), mk(b)), e, n, "mixed"); same(group(std::vector<row>{mk(a), mk(b)}), e, n, "mixed-vector");
  } END_CASE
  CASE("no generators") { group g; EXPECT(g.size() == 1 && g.bells() == 0 && g.begin()->bells() == 0, "identity", ""); group h((std::vector<row>())); EXPECT(h == g, "identity", ""); } END_CASE
}
VF_SECTION(three) {  // three generators on 4 bells, and chosen ones on 6
  auto ps = ref::perms(4);
  for (size_t i = 0; i < ps.size(); i += 1) for (size_t j = i; j < ps.size(); ++j) for (size_t k = j; k < ps.size(); ++k) CASE("group of ", show(ps[i]), ",", show(ps[j]), ",", show(ps[k])) { vf::states(); same(group(std::vector<row>{mk(ps[k]), mk(ps[i]), mk(ps[j])}), closure({ps[i], ps[j], ps[k]}, 4), 4, "three"); } END_CASE
  auto p6 = ref::perms(6);
  for (size_t i = 0; i < p6.size(); i += vf::tier(11, 3)) for (size_t j = 0; j < p6.size(); j += vf::tier(17, 5)) CASE("group of ", show(p6[i]), " and ", show(p6[j])) { vf::states(); S e = closure({p6[i], p6[j]}, 6); group g(mk(p6[i]), mk(p6[j])); same(g, e, 6, "six"); cosets(g, e, 6, {p6[1], p6[100], p6[333], p6[719], ref::id(7)}); } END_CASE
}
VF_SECTION(named) {
  for (int nw = 1; nw <= vf::tier(6, 7); ++nw) for (int nh = 0; nh <= 2; ++nh) for (int x = 0; x <= 2; ++x) CASE("named groups: ", nw, " working, ", nh, " hunts, ", x, " covers") {
    vf::states();
    int nt = nw + nh + x, arg = x ? nt : 0;
    auto up = [&](P p) { P r = ref::id(nt); for (int i = 0; i < nw; ++i) r[nh + i] = nh + p[i]; return r; };
    S sym, alt; for (auto &p : ref::perms(nw)) { sym.insert(up(p)); if (ref::sign(p) > 0) alt.insert(up(p)); }
    same(group::symmetric_group(nw, nh, arg), sym, nt, "symmetric"); same(group::symmetric(nw, nh, arg), sym, nt, "symmetric");
    same(group::alternating_group(nw, nh, arg), alt, nt, "alternating"); same(group::alternating(nw, nh, arg), alt, nt, "alternating");
    P cyc = ref::id(nw), pb = ref::id(nw), rev = ref::id(nw); std::rotate(cyc.begin(), cyc.begin() + 1, cyc.end()); std::reverse(rev.begin(), rev.end());
    for (int k = 0; k < nw; ++k) pb[k] = k % 2 == 0 ? (k == 0 ? (nw > 1 ? 1 : 0) : k - 2) : (k + 2 < nw ? k + 2 : (k == nw - 1 ? nw - 2 : nw - 1));
    same(group::cyclic_c(nw, nh, arg), closure({up(cyc)}, nt), nt, "cyclic-c"); same(group::cyclic_r(nw, nh, arg), closure({up(pb)}, nt), nt, "cyclic-r");
    same(group::dihedral_c(nw, nh, arg), closure({up(cyc), up(rev)}, nt), nt, "dihedral-c"); same(group::dihedral_r(nw, nh, arg), closure({up(pb), up(rev)}, nt), nt, "dihedral-r");
    same(group::trivial(nt), closure({}, nt), nt, "trivial");
    EXPECT(group::symmetric(nw, nh, arg).even_subgroup() == group::alternating(nw, nh, arg) , "even-of-symmetric", "");
    std::vector<P> rows; { P r = ref::id(nt); std::reverse(r.begin(), r.end()); rows.push_back(r); std::rotate(r.begin(), r.begin() + nt / 2, r.end()); rows.push_back(r); rows.push_back(ref::id(nt + 1)); std::rotate(rows.back().begin(), rows.back().begin() + 1, rows.back().end()); rows.push_back(ref::id(nt > 1 ? nt - 1 : 0)); rows.push_back(ref::id(2)); std::swap(rows.back()[0], rows.back()[1]); }
    cosets(group::symmetric(nw, nh, arg), sym, nt, rows); cosets(group::alternating(nw, nh, arg), alt, nt, rows);
    if (nw <= 5) cosets(group::symmetric(nw, nh, arg), sym, nt, ref::perms(std::min(nt, 6)));
  } END_CASE
}
VF_SECTION(products) {
  std::vector<std::pair<std::vector<P>, int>> gs;
  for (int n = 0; n <= 4; ++n) { std::set<S> seen; auto ps = ref::perms(n); for (auto &a : ps) for (auto &b : ps) { S s = closure({a, b}, n); if (seen.insert(s).second) gs.push_back({{a, b}, n}); } }
  for (auto &a : gs) CASE("direct products with the group of ", show(a.first[0]), ",", show(a.first[1])) {
    group A(mk(a.first[0]), mk(a.first[1])); S ea = closure(a.first, a.second);
    for (auto &b : gs) {
      if (!vf::thorough() && a.second == 4 && b.second == 4 && (ea.size() > 4)) continue;
      vf::states();
      group B(mk(b.first[0]), mk(b.first[1])); S eb = closure(b.first, b.second), e; int n = a.second + b.second;
      for (auto &x : ea) for (auto &y : eb) { P p(x); for (int v : y) p.push_back(a.second + v); e.insert(p); }
      group g = group::direct_product(A, B);
      same(g, e, n, "direct-product");
      P r = ref::id(n); std::reverse(r.begin(), r.end()); P q(r); if (n > 1) std::rotate(q.begin(), q.begin() + 1, q.end());
      cosets(g, e, n, {r, q, ref::id(n)});
    }
  } END_CASE
}
