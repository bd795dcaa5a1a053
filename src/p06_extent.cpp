// P06: enumerations of rows and changes, and rank/unrank.
#include "rl.h"
#include <ringing/extent.h>
#include <ringing/mathutils.h>
#include <iterator>
using namespace ringing;
using namespace rl;
using ref::P;

struct Sh { int nw, nh, nt; };
static std::vector<Sh> shapes(int N) { std::vector<Sh> v; for (int nw = 0; nw <= N; ++nw) for (int nh = 0; nh <= 3; ++nh) for (int x = 0; x <= 2; ++x) v.push_back({nw, nh, nw + nh + x}); return v; }
static std::vector<P> full(Sh s) {
  std::vector<P> v;
  for (auto &p : ref::perms(s.nw)) { P r = ref::id(s.nt); for (int i = 0; i < s.nw; ++i) r[s.nh + i] = s.nh + p[i]; v.push_back(r); }
  return v;
}
#define ID(s) s.nw, " working, ", s.nh, " hunts, ", s.nt, " in all"
VF_SECTION(forward) {
  for (Sh s : shapes(vf::tier(7, 9))) CASE("extent: ", ID(s)) {
    auto e = full(s);
    ringing::extent x(s.nw, s.nh, s.nt);
    EXPECT(x.size() == e.size(), "size", "gave ", x.size());
    size_t n = 0;
    for (extent_iterator i(s.nw, s.nh, s.nt), z; i != z; ++i, ++n) {
      vf::states();
      if (n >= e.size()) { vf::fail("too-many", show(*i)); break; }
      EXPECT(eq(*i, e[n]) && i->bells() == s.nt && !i.is_end(), "forward", "row ", n, " gave ", show(*i), " not ", show(e[n]));
    }
    EXPECT(n == e.size(), "count", "gave ", n);
    n = 0; for (extent_iterator i = x.begin(); i != x.end(); i++, ++n) { if (n >= e.size()) break; EXPECT(eq(*i, e[n]), "container", "row ", n); }
    EXPECT(n == e.size(), "container-count", n);
    if (s.nt == s.nw + s.nh) {
      n = 0; for (extent_iterator i(s.nw, s.nh); i != extent_iterator::end(s.nw, s.nh); ++n) { extent_iterator old = i++; if (n < e.size()) EXPECT(eq(*old, e[n]), "post-increment", n); }
      EXPECT(n == e.size(), "count-2", n);
      EXPECT(ringing::extent(s.nw, s.nh).size() == e.size(), "size", "");
    }
    EXPECT(extent_iterator().is_end() && x.end().is_end() && x.end() == extent_iterator(), "end", "");
  } END_CASE
}
VF_SECTION(backward) {
  for (Sh s : shapes(vf::tier(6, 7))) {
    if (s.nw == 0) continue;
    CASE("backwards: ", ID(s)) {
      auto e = full(s);
      extent_iterator i = extent_iterator::end(s.nw, s.nh, s.nt), b(s.nw, s.nh, s.nt);
      for (size_t n = e.size(); n--;) {
        vf::states();
        --i;
        EXPECT(!i.is_end(), "decrement-from-end", "still at the end after stepping back");
        if (i.is_end()) break;
        EXPECT(eq(*i, e[n]), "backward", "row ", n, " gave ", show(*i), " not ", show(e[n]));
        extent_iterator f(i); ++f; if (n + 1 < e.size()) EXPECT(eq(*f, e[n + 1]), "there-and-back", n); else EXPECT(f.is_end(), "there-and-back", n);
      }
      if (e.size() > 1 || true) EXPECT(i == b, "back-to-begin", "");
      // from the end reached by incrementing
      extent_iterator k(s.nw, s.nh, s.nt); while (!k.is_end()) ++k;
      EXPECT(k == extent_iterator::end(s.nw, s.nh, s.nt), "end-equal", "");
      extent_iterator o = k--; EXPECT(o.is_end() && !k.is_end() && eq(*k, e.back()), "decrement-reached-end", "");
    } END_CASE
  }
}
VF_SECTION(order) {  // iterators compare like positions
  for (Sh s : {Sh{4, 0, 4}, Sh{3, 1, 5}, Sh{4, 2, 6}, Sh{1, 0, 1}}) {
    std::vector<extent_iterator> v; for (extent_iterator i(s.nw, s.nh, s.nt); !i.is_end(); ++i) v.push_back(i);
    v.push_back(extent_iterator::end(s.nw, s.nh, s.nt));
    for (size_t i = 0; i < v.size(); ++i) CASE("order ", ID(s), " at ", i) {
      vf::states();
      for (size_t j = 0; j < v.size(); ++j) {
        EXPECT((v[i] == v[j]) == (i == j) && (v[i] != v[j]) == (i != j), "equal", j);
        EXPECT((v[i] < v[j]) == (i < j) && (v[i] > v[j]) == (i > j) && (v[i] <= v[j]) == (i <= j) && (v[i] >= v[j]) == (i >= j), "less", j);
      }
    } END_CASE
  }
}
VF_SECTION(ranks) {
  for (Sh s : shapes(vf::tier(7, 8))) CASE("ranks: ", ID(s)) {
    auto e = full(s); ringing::extent x(s.nw, s.nh, s.nt); size_t ic = 0;
    for (size_t n = 0; n < e.size(); ++n) {
      vf::states();
      row r = mk(e[n]);
      EXPECT(position_in_extent(r, s.nw, s.nh, s.nt) == n && x[r] == n, "rank", show(r), " gave ", position_in_extent(r, s.nw, s.nh, s.nt), " not ", n);
      EXPECT(eq(nth_row_of_extent(n, s.nw, s.nh, s.nt), e[n]) && eq(x[n], e[n]), "unrank", n, " gave ", show(x[n]));
      if (s.nt == s.nw + s.nh) { EXPECT(position_in_extent(r, s.nw, s.nh) == n && eq(nth_row_of_extent(n, s.nw, s.nh), e[n]), "rank-default", n); if (!s.nh) EXPECT(position_in_extent(r) == n, "rank-default", n); }
      int sg = ref::sign(e[n]);
      EXPECT(sign_of_nth_row_of_extent(n) == sg, "sign-of-nth", n, " gave ", sign_of_nth_row_of_extent(n));
      if (sg > 0) {
        EXPECT(position_in_incourse_extent(r, s.nw, s.nh, s.nt) == ic, "in-course-rank", show(r));
        EXPECT(eq(nth_row_of_incourse_extent(ic, s.nw, s.nh, s.nt), e[n]), "in-course-unrank", ic, " gave ", show(nth_row_of_incourse_extent(ic, s.nw, s.nh, s.nt)), " not ", show(e[n]));
        if (s.nt == s.nw + s.nh) { EXPECT(position_in_incourse_extent(r, s.nw, s.nh) == ic && eq(nth_row_of_incourse_extent(ic, s.nw, s.nh), e[n]), "in-course-default", ic); if (!s.nh) EXPECT(position_in_incourse_extent(r) == ic, "in-course-default", ic); }
        ++ic;
      }
      // the same row without its fixed tenors
      int m = s.nt; while (m > 0 && e[n][m - 1] == m - 1) {
        --m;
        row q = mk(P(e[n].begin(), e[n].begin() + m));
        EXPECT(position_in_extent(q, s.nw, s.nh, s.nt) == n, "rank-short", show(q), " gave ", position_in_extent(q, s.nw, s.nh, s.nt));
      }
    }
  } END_CASE
  // rows that are not in the extent are refused
  for (Sh s : {Sh{3, 1, 5}, Sh{2, 2, 4}, Sh{2, 0, 4}, Sh{4, 0, 4}, Sh{1, 1, 3}, Sh{0, 0, 0}, Sh{3, 0, 5}}) for (int n = 0; n <= 6; ++n) for (auto &p : ref::perms(n))
    CASE("membership of ", show(p), " in ", ID(s)) {
      vf::states();
      bool in = n <= s.nt;
      for (int i = 0; i < n; ++i) if ((i < s.nh || i >= s.nh + s.nw) && p[i] != i) in = false;
      bool got = true; try { position_in_extent(mk(p), s.nw, s.nh, s.nt); } catch (std::out_of_range const &) { got = false; }
      EXPECT(got == in, "membership", "accepted ", got);
    } END_CASE
}
VF_SECTION(big_ranks) {  // structured positions on many bells
  for (int nw = 8; nw <= 20; ++nw) for (int nh : {0, 1, 3}) CASE("big ranks ", nw, " working, ", nh, " hunts") {
    uint64_t N = ref::fact(nw);
    EXPECT(ringing::extent(nw, nh).size() == N, "big-size", "gave ", ringing::extent(nw, nh).size(), " not ", N);
    std::vector<uint64_t> ks = {0, 1, 2, N - 1, N - 2, N / 2, N / 2 - 1, N / 3, N / 7};
    for (int k = 1; k < nw; ++k) for (uint64_t j = 1; j <= 3; ++j) for (int d = -1; d <= 1; ++d) { uint64_t q = ref::fact(k) * j + d; if (q < N) ks.push_back(q); }
    for (uint64_t k : ks) {
      vf::states();
      // unrank by hand
      P pool = ref::id(nw), r = ref::id(nw + nh + 1); uint64_t q = k;
      for (int i = 0; i < nw; ++i) { uint64_t f = ref::fact(nw - 1 - i); int d = q / f; q %= f; r[nh + i] = nh + pool[d]; pool.erase(pool.begin() + d); }
      EXPECT(eq(nth_row_of_extent(k, nw, nh, nw + nh + 1), r), "big-unrank", k, " gave ", show(nth_row_of_extent(k, nw, nh, nw + nh + 1)), " not ", show(r));
      EXPECT(position_in_extent(mk(r), nw, nh, nw + nh + 1) == k, "big-rank", k);
      EXPECT(sign_of_nth_row_of_extent(k) == ref::sign(r), "big-sign", k);
      if (ref::sign(r) > 0) EXPECT(position_in_incourse_extent(mk(r), nw, nh, nw + nh + 1) == k / 2 && eq(nth_row_of_incourse_extent(k / 2, nw, nh, nw + nh + 1), r), "big-in-course", k);
    }
  } END_CASE
}
VF_SECTION(in_course) {
  for (Sh s : shapes(vf::tier(7, 8))) CASE("in-course extent: ", ID(s)) {
    std::vector<P> e; for (auto &p : full(s)) if (ref::sign(p) > 0) e.push_back(p);
    size_t n = 0;
    for (incourse_extent_iterator i(s.nw, s.nh, s.nt), z; i != z; ++i, ++n) { vf::states(); if (n >= e.size()) { vf::fail("in-course-extra", show(*i)); break; } EXPECT(eq(*i, e[n]) && i->bells() == s.nt, "in-course", n, " gave ", show(*i)); }
    EXPECT(n == e.size(), "in-course-count", n);
    if (s.nt == s.nw + s.nh) { n = 0; for (incourse_extent_iterator i(s.nw, s.nh), z; !(i == z); ++n) { incourse_extent_iterator o = i++; if (n < e.size()) EXPECT(eq(*o, e[n]), "in-course-post", n); } EXPECT(n == e.size(), "in-course-count", n); }
  } END_CASE
}
VF_SECTION(changes) {
  for (int nw = 1; nw <= vf::tier(12, 16); ++nw) for (int nh = 0; nh <= 3; ++nh) for (int x = 0; x <= 2; ++x) CASE("changes: ", nw, " working, ", nh, " hunts, ", x, " covers") {
    std::set<std::string> e, g; int nt = nw + nh + x;
    for (auto &c : ref::changes(nw)) { ref::Sw s(nt, 0); for (int i = 0; i + 1 < nw; ++i) s[nh + i] = c[i]; e.insert(ref::pn(s)); }
    size_t n = 0; ringing::change prev;
    for (changes_iterator i(nw, nh, nt), z; i != z && n <= e.size() + 2; ++i, ++n) { vf::states(); EXPECT(i->bells() == nt, "bells", ""); EXPECT(g.insert(i->print()).second, "change-repeated", i->print()); EXPECT(e.count((*i).print()), "change-outside", i->print()); }
    EXPECT(n == e.size() && g == e, "change-missing", "gave ", n, " of ", e.size());
    EXPECT(fibonacci(nw) == e.size(), "fibonacci", fibonacci(nw));
    if (!x) { n = 0; g.clear(); for (changes_iterator i(nw, nh), z; i != z && n <= e.size() + 2; ++n) { changes_iterator o = i++; g.insert(o->print()); } EXPECT(n == e.size() && g == e, "change-missing", "gave ", n); }
  } END_CASE
}
