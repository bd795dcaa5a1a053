// P01: row algebra against permutation arithmetic.
#include "rl.h"
#include <unordered_map>
#include <functional>
using namespace ringing;
using namespace rl;
using ref::P;

static void binary(P const &a, P const &b, row const &x, row const &y) {
  P ab = ref::mul(a, b), q = ref::div(a, b), cj = ref::mul(ref::mul(ref::inv(b), a), b);
  EXPECT(eq(x * y, ab), "product", show(a), "*", show(b), " gave ", show(x * y), " not ", show(ab));
  EXPECT(eq(x / y, q), "quotient", show(a), "/", show(b), " gave ", show(x / y), " not ", show(q));
  { row t(x); row &ref1 = (t *= y); EXPECT(eq(t, ab) && &ref1 == &t, "product-assign", show(a), "*=", show(b), " gave ", show(t)); }
  { row t(x); t /= y; EXPECT(eq(t, q), "quotient-assign", show(a), "/=", show(b), " gave ", show(t)); }
  EXPECT(eq(x.conjugate(y), cj), "conjugate", show(a), " by ", show(b), " gave ", show(x.conjugate(y)), " not ", show(cj));
  bool same = a == b;
  EXPECT((x == y) == same && (x != y) == !same, "equality", show(a), " vs ", show(b));
  if (same) EXPECT(x.hash() == y.hash(), "hash", show(a), " equal rows hash differently");
  int lt = (x < y), gt = (x > y), le = (x <= y), ge = (x >= y);
  EXPECT(lt + gt + same == 1 && le == (lt || same) && ge == (gt || same) && gt == (y < x), "ordering", show(a), " vs ", show(b));
  if (a.size() == b.size()) EXPECT(lt == (int)(a < b), "ordering-lexicographic", show(a), " vs ", show(b));
  { row s(x), t(y); s.swap(t); EXPECT(s == y && t == x, "swap", show(a), " with ", show(b)); using std::swap; swap(s, t); EXPECT(s == x && t == y, "swap", show(a), " with ", show(b)); }
}

static void cjg(P const &a, P const &b, row const &x, row const &y) {
  auto ca = ref::cycles(a), cb = ref::cycles(b);
  std::multiset<size_t> sa, sb;
  for (auto &c : ca) sa.insert(c.size());
  for (auto &c : cb) sb.insert(c.size());
  bool conj = a.size() == b.size() && sa == sb;
  EXPECT(are_conjugate(x, y) == conj, "are-conjugate", show(a), " and ", show(b), " said ", are_conjugate(x, y));
  row r = conjugator(x, y);
  if (conj) {
    bool ok = r.bells() == (int)a.size() && eq(x.conjugate(r), b);
    EXPECT(ok, "conjugator", show(a), " and ", show(b), " gave ", show(r));
  } else EXPECT(r.bells() == 0, "conjugator-none", show(a), " and ", show(b), " gave ", show(r));
}

VF_SECTION(pairs) {   // every pair of rows on 0..5 bells, mixed sizes included
  auto v = ref::perms_upto(vf::tier(5, 6));
  std::vector<row> rs; for (auto &p : v) rs.push_back(mk(p));
  for (size_t i = 0; i < v.size(); ++i)
    CASE("a=", show(v[i]), " with every b on up to ", vf::tier(5, 6), " bells") {
      vf::states();
      for (size_t j = 0; j < v.size(); ++j) binary(v[i], v[j], rs[i], rs[j]);
    } END_CASE
}
VF_SECTION(pairs6) {  // every pair on 6 bells; quick: against a generating half
  auto v = ref::perms(6);
  std::vector<row> rs; for (auto &p : v) rs.push_back(mk(p));
  for (size_t i = 0; i < v.size(); ++i)
    CASE("a=", show(v[i]), " with every b on 6 bells") {
      vf::states();
      for (size_t j = 0; j < v.size(); j += 1) {
        EXPECT(eq(rs[i] * rs[j], ref::mul(v[i], v[j])), "product", show(v[i]), "*", show(v[j]));
        EXPECT(eq(rs[i] / rs[j], ref::div(v[i], v[j])), "quotient", show(v[i]), "/", show(v[j]));
      }
    } END_CASE
}
VF_SECTION(conjugators) {
  auto v = ref::perms_upto(vf::tier(5, 6));
  std::vector<row> rs; for (auto &p : v) rs.push_back(mk(p));
  for (size_t i = 0; i < v.size(); ++i)
    CASE("a=", show(v[i]), " conjugacy with every b") {
      vf::states();
      for (size_t j = 0; j < v.size(); ++j) cjg(v[i], v[j], rs[i], rs[j]);
    } END_CASE
}
static void unary(P const &a) {
  row x = mk(a); int n = a.size();
  EXPECT(eq(x, a), "construct", show(a));
  EXPECT(eq(x.inverse(), ref::inv(a)), "inverse", show(a), " gave ", show(x.inverse()));
  EXPECT(x.sign() == ref::sign(a), "sign", show(a), " gave ", x.sign());
  EXPECT(x.order() == ref::order(a), "order", show(a), " gave ", x.order());
  EXPECT(x.isrounds() == ref::isid(a), "isrounds", show(a));
  auto c = ref::cycles(a);
  EXPECT(x.num_cycles() == c.size(), "num-cycles", show(a), " gave ", x.num_cycles());
  std::string cs;
  for (auto &y : c) { if (!cs.empty()) cs += ","; for (int b : y) cs += b < 33 ? ref::SYM[b] : '*'; }
  EXPECT(x.cycles() == cs, "cycles", show(a), " gave ", x.cycles(), " not ", cs);
  for (auto &y : c) for (int b : y) EXPECT(x.cycle_size(b) == y.size(), "cycle-size", show(a), " bell ", b + 1, " gave ", x.cycle_size(b));
  P iv = ref::inv(a);
  for (int b = 0; b < n + 2; ++b) EXPECT(x.find(b) == ref::at(iv, b), "find", show(a), " bell ", b + 1, " gave ", x.find(b));
  // aliasing
  { row t(x); t *= t; EXPECT(eq(t, ref::mul(a, a)), "alias-product", show(a)); }
  { row t(x); t /= t; EXPECT(eq(t, ref::id(n)), "alias-quotient", show(a)); }
  EXPECT(eq(x * x.inverse(), ref::id(n)) && eq(x.inverse() * x, ref::id(n)), "inverse-law", show(a));
  { row t(x); t.rounds(); EXPECT(eq(t, ref::id(n)), "rounds", show(a)); }
}
static void powers(P const &a, std::vector<int> const &ks) {
  row x = mk(a);
  for (int k : ks) EXPECT(eq(x.power(k), ref::pw(a, k)), "power", show(a), "^", k, " gave ", show(x.power(k)));
}
VF_SECTION(unary) {
  for (int n = 0; n <= vf::tier(7, 9); ++n) {
    auto v = ref::perms(n);
    for (auto &a : v) CASE("row ", show(a)) { vf::states(); unary(a); vf::outcome(mk(a).cycles()); } END_CASE
  }
}
VF_SECTION(powers) {
  std::vector<int> ks; for (int k = -40; k <= 60; ++k) ks.push_back(k);
  for (int k : {63, 64, 65, 99, 100, 101, 127, 128, 719, 720, 721, 5039, 65535, 1000000, 1000001, 2147483647, -41, -100, -721, -5041, -1000003, -2147483647}) ks.push_back(k);
  for (int n = 0; n <= vf::tier(6, 7); ++n)
    for (auto &a : ref::perms(n)) CASE("powers of ", show(a)) { vf::states(); powers(a, ks); } END_CASE
}
VF_SECTION(resize) {  // resize to every size from every row; an unusable truncation must be refused
  for (int n = 0; n <= 6; ++n) for (auto &a : ref::perms(n)) for (int m = 0; m <= 9; ++m)
    CASE("resize ", show(a), " to ", m) {
      vf::states();
      bool ok = true;
      for (int i = 0; i < m && i < n; ++i) if (a[i] >= m) ok = false;
      P e = m >= n ? ref::ext(a, m) : P(a.begin(), a.begin() + m);
      row x = mk(a);
      try { x.resize(m); EXPECT(ok, "resize-accepted", "kept ", show(x)); EXPECT(eq(x, e), "resize", "gave ", show(x)); }
      catch (row::invalid const &) { EXPECT(!ok, "resize-refused", "refused"); EXPECT(eq(x, a), "resize-strong", "changed to ", show(x)); }
    } END_CASE
}
VF_SECTION(times_change) {  // every row x every change, all mixed sizes
  int N = vf::tier(6, 7), M = vf::tier(7, 8);
  std::vector<std::pair<ref::Sw, change>> cs;
  for (int m = 0; m <= M; ++m) for (auto &s : ref::changes(m)) cs.push_back({s, mkc(s)});
  for (int n = 0; n <= N; ++n) for (auto &a : ref::perms(n))
    CASE("row ", show(a), " x every change on up to ", M, " bells") {
      vf::states();
      row x = mk(a);
      for (auto &c : cs) {
        // the row grows to the change's size; then the change swaps adjacent places
        P e = ref::mul(ref::ext(a, c.first.size()), ref::sw_perm(c.first));
        EXPECT(eq(x * c.second, e), "row-times-change", show(a), " * ", ref::pn(c.first), " on ", c.first.size(), " gave ", show(x * c.second), " not ", show(e));
        row t(x); t *= c.second;
        EXPECT(eq(t, e), "row-times-change-assign", show(a), " *= ", ref::pn(c.first), " gave ", show(t));
        for (int b = 0; b < n; ++b) { // a bell in place b moves as the change says
          P q = ref::sw_perm(c.first);
          bell y(b); y *= c.second;
          EXPECT((int)y == ref::at(q, b) && (int)(bell(b) * c.second) == ref::at(q, b), "bell-times-change", "bell ", b + 1, " * ", ref::pn(c.first), " on ", c.first.size(), " gave ", (int)y + 1);
        }
      }
    } END_CASE
}
static std::vector<P> big_family(int n) {
  std::vector<P> v;
  v.push_back(ref::id(n));
  P r = ref::id(n); std::reverse(r.begin(), r.end()); v.push_back(r);
  for (int k : {1, 2, n / 2}) { P q = ref::id(n); if (n) std::rotate(q.begin(), q.begin() + k % n, q.end()); v.push_back(q); }
  { P q = ref::id(n); for (int i = 0; i + 1 < n; i += 2) std::swap(q[i], q[i + 1]); v.push_back(q); }
  { P q = ref::id(n); for (int i = 1; i + 1 < n; i += 2) std::swap(q[i], q[i + 1]); v.push_back(q); }
  { P q; for (int i = 0; i < n; i += 2) q.push_back(i); for (int i = 1; i < n; i += 2) q.push_back(i); v.push_back(q); }
  { P q = ref::id(n); if (n > 1) std::swap(q[0], q[n - 1]); v.push_back(q); }
  { P q = ref::id(n); for (int i = 0; i < n; ++i) { int L = 2 + i % 3; if (i + L <= n && i % 9 == 0) std::rotate(q.begin() + i, q.begin() + i + 1, q.begin() + i + L); } v.push_back(q); }
  return v;
}
VF_SECTION(big) {     // structured rows on up to 64 (and 256) bells
  std::vector<int> ns = {8, 9, 10, 11, 12, 13, 16, 22, 31, 32, 33, 34, 35, 40, 63, 64, 65, 128, 255, 256};
  for (int n : ns) {
    auto v = big_family(n);
    for (size_t i = 0; i < v.size(); ++i) {
      CASE("big row ", i, " on ", n) {
        vf::states();
        row x = mk(v[i]);
        EXPECT(eq(x.inverse(), ref::inv(v[i])), "inverse", "");
        EXPECT(x.sign() == ref::sign(v[i]), "sign", "gave ", x.sign());
        if (n <= 64) EXPECT(x.order() == ref::order(v[i]), "order", "gave ", x.order());
        EXPECT(x.num_cycles() == ref::cycles(v[i]).size(), "num-cycles", "");
        for (int b = 0; b < n; ++b) EXPECT(x.find(b) == ref::inv(v[i])[b], "find", "bell ", b);
        if (n <= 64) powers(v[i], {-3, -1, 0, 1, 2, 3, 7, 12, 100, 5000});
        for (int m : {3, 8, 12, 33, 34, 64}) for (auto &w : big_family(m)) {
          row y = mk(w);
          binary(v[i], w, x, y); binary(w, v[i], y, x);
        }
        for (size_t j = 0; j < v.size(); ++j) {
          row y = mk(v[j]);
          binary(v[i], v[j], x, y); if (n <= 64) cjg(v[i], v[j], x, y);
        }
      } END_CASE
    }
  }
}
VF_SECTION(named) {   // the named rows
  int N = 40;
  auto pblh = [](int n, int h) {   // place bells of plain bob: hunt one blow in and out
    P p = ref::id(n); int nw = n - h;
    if (nw > 0) for (int k = 0; k < nw; ++k) {
      int s; // bell in working place k comes from...
      if (k % 2 == 0) s = k == 0 ? (nw > 1 ? 1 : 0) : k - 2; else s = k + 2 < nw ? k + 2 : (k == nw - 1 ? nw - 2 : nw - 1);
      p[h + k] = h + s;
    }
    return p;
  };
  for (int n = 0; n <= N; ++n) {
    CASE("named rows on ", n) {
      vf::states();
      P odd, even; for (int i = 0; i < n; ++i) (i % 2 ? even : odd).push_back(i);
      P q = odd; q.insert(q.end(), even.begin(), even.end());
      EXPECT(eq(row::queens(n), q), "queens", show(row::queens(n)));
      P k(odd.rbegin(), odd.rend()); k.insert(k.end(), even.begin(), even.end());
      if (n > 2) EXPECT(eq(row::kings(n), k), "kings", show(row::kings(n)));
      P t(n); { int j = 0; for (int i = 0; i < n; i += 2) t[i] = j++; for (int i = 1; i < n; i += 2) t[i] = j++; }
      EXPECT(eq(row::tittums(n), t), "tittums", show(row::tittums(n)));
      P b = ref::id(n); std::reverse(b.begin(), b.end());
      EXPECT(eq(row::reverse_rounds(n), b), "back-rounds", show(row::reverse_rounds(n)));
      EXPECT(eq(row::rounds(n), ref::id(n)) && eq(row(n), ref::id(n)), "rounds", "");
      for (int h = 0; h <= n; ++h) {
        P w = ref::id(n); std::reverse(w.begin() + h, w.end());
        if (n - h + h > 0) EXPECT(eq(row::reverse_rounds(n - h, h), w), "back-rounds-hunts", "h=", h, " ", show(row::reverse_rounds(n - h, h)));
        for (int tot = n + 1; tot <= n + 3; ++tot) EXPECT(eq(row::reverse_rounds(n - h, h, tot), ref::ext(w, tot)), "back-rounds-covers", "h=", h, " nt=", tot);
        P l = pblh(n, h);
        EXPECT(eq(row::pblh(n, h), l), "pblh", "h=", h, " gave ", show(row::pblh(n, h)), " not ", show(l));
        P pw = l; int nw = n - h;
        for (int i = 1; i < nw; ++i) {
          int first = i; // powers repeat with period order(l)
          for (int j = 1; j < i; ++j) if (ref::pw(l, j) == pw) { first = j; break; }
          EXPECT(mk(pw).ispblh(h) == first, "ispblh", "h=", h, " power ", i, " gave ", mk(pw).ispblh(h));
          pw = ref::mul(pw, l);
        }
        for (int c = -n - 1; c <= n + 1; ++c) {
          P y = ref::id(n);
          if (h < n) { int s = ((c % (n - h)) + (n - h)) % (n - h); std::rotate(y.begin() + h, y.begin() + h + s, y.end()); }
          EXPECT(eq(row::cyclic(n, h, c), y), "cyclic", "h=", h, " c=", c, " gave ", show(row::cyclic(n, h, c)));
        }
      }
      if (n >= 2) EXPECT(row::pblh(n) == row::pblh(n, 1) && row::cyclic(n) == row::cyclic(n, 1, 1), "defaults", "");
    } END_CASE
  }
  // which plain bob lead head is it?  every row on 3..7 bells
  for (int n = 1; n <= vf::tier(6, 7); ++n) for (auto &a : ref::perms(n))
    CASE("ispblh ", show(a)) {
      vf::states();
      int hu = 0; while (hu < n && a[hu] == hu) ++hu;
      for (int h = 0; h < n; ++h) {
        P l = pblh(n, h), q = l; int e = 0;
        for (int i = 1; i < n - h; ++i) { if (q == a) { e = i; break; } q = ref::mul(q, l); }
        EXPECT(mk(a).ispblh(h) == e, "ispblh-h", "h=", h, " gave ", mk(a).ispblh(h), " not ", e);
        if (h == hu) EXPECT(mk(a).ispblh() == (h ? e : 0), "ispblh", "gave ", mk(a).ispblh());
      }
    } END_CASE
}
// histories: every sequence of operations on one row object, in step with the model
VF_SECTION(histories) {
  int D = vf::tier(4, 5);
  struct Op { const char *n; int k; P p; ref::Sw s; };
  std::vector<Op> ops;
  auto addp = [&](const char *n, int k, std::vector<int> p) { Op o; o.n = n; o.k = k; o.p = p; ops.push_back(o); };
  addp("*=231", 0, {1, 2, 0}); addp("*=2143", 0, {1, 0, 3, 2}); addp("/=312", 1, {2, 0, 1}); addp("/=24135", 1, {1, 3, 0, 2, 4});
  { Op o; o.n = "*=X4"; o.k = 2; o.s = {1, 0, 1, 0}; ops.push_back(o); o.n = "*=125"; o.s = {0, 0, 1, 0, 0}; ops.push_back(o); }
  addp("inverse", 3, {}); addp("square", 4, {}); addp("self*=", 5, {}); addp("rounds", 6, {}); addp("conj 2341", 7, {1, 2, 3, 0});
  addp("power-2", 8, {}); addp("resize5", 9, {}); addp("swap", 10, {2, 0, 1, 3});
  std::vector<int> seq;
  std::set<std::string> seen;
  std::function<void(int)> go = [&](int d) {
    if (d == 0) {
      CASE("history ", [&] { std::string s; for (int i : seq) s += std::string(ops[i].n) + "; "; return s; }()) {
        row r(3); P m = ref::id(3);
        for (int i : seq) {
          Op &o = ops[i];
          switch (o.k) {
            case 0: r *= mk(o.p); m = ref::mul(m, o.p); break;
            case 1: r /= mk(o.p); m = ref::div(m, o.p); break;
            case 2: r *= mkc(o.s); m = ref::mul(ref::ext(m, o.s.size()), ref::sw_perm(o.s)); break;
            case 3: r = r.inverse(); m = ref::inv(m); break;
            case 4: r = r.power(2); m = ref::mul(m, m); break;
            case 5: r *= r; m = ref::mul(m, m); break;
            case 6: r.rounds(); m = ref::id(m.size()); break;
            case 7: r = r.conjugate(mk(o.p)); m = ref::mul(ref::mul(ref::inv(o.p), m), o.p); break;
            case 8: r = r.power(-2); m = ref::pw(m, -2); break;
            case 9: if (m.size() <= 5) { r.resize(5); m = ref::ext(m, 5); } break;
            case 10: { row t = mk(o.p); t.swap(r); row u(t); r = u; } break;
          }
          EXPECT(eq(r, m), "history", "after ", o.n, ": ", show(r), " not ", show(m));
        }
        if (seen.insert(ref::str(m)).second) vf::states();
        vf::outcome(ref::str(m));
      } END_CASE
      return;
    }
    for (size_t i = 0; i < ops.size(); ++i) { seq.push_back(i); go(d - 1); seq.pop_back(); }
  };
  for (int d = 1; d <= D; ++d) go(d);
}
VF_SECTION(permuters) {  // permute()/post_permute() over every 3-change sequence on 4 bells
  auto cs = ref::changes(4);
  for (auto &a : cs) for (auto &b : cs) for (auto &c : cs)
    CASE("permuters ", ref::pn(a), ".", ref::pn(b), ".", ref::pn(c)) {
      vf::states();
      std::vector<change> v = {mkc(a), mkc(b), mkc(c)};
      P q = ref::id(4); std::vector<P> pre, post;
      for (auto *s : {&a, &b, &c}) { pre.push_back(q); q = ref::mul(q, ref::sw_perm(*s)); post.push_back(q); }
      { std::vector<row> o; std::transform(v.begin(), v.end(), std::back_inserter(o), permute(4));
        for (int i = 0; i < 3; ++i) EXPECT(eq(o[i], post[i]), "permute", i); }
      { std::vector<row> o; std::transform(v.begin(), v.end(), std::back_inserter(o), post_permute(4));
        for (int i = 0; i < 3; ++i) EXPECT(eq(o[i], pre[i]), "post-permute", i); }
      { row r(4); std::vector<row> o; std::transform(v.begin(), v.end(), std::back_inserter(o), permute(r));
        for (int i = 0; i < 3; ++i) EXPECT(eq(o[i], post[i]), "permute-ref", i); EXPECT(eq(r, q), "permute-ref-final", show(r)); }
      { row r(4); std::vector<row> o; std::transform(v.begin(), v.end(), std::back_inserter(o), post_permute(r));
        for (int i = 0; i < 3; ++i) EXPECT(eq(o[i], pre[i]), "post-permute-ref", i); EXPECT(eq(r, q), "post-permute-ref-final", show(r)); }
      permuter pm(4); for (auto &x : v) pm(x); EXPECT(eq(pm.get(), q), "permuter-get", show(pm.get()));
      { permuter pr(4); for (auto &x : v) pr(row(4) * x); EXPECT(eq(pr.get(), q), "permuter-row", show(pr.get())); }
      // row blocks, in all four shapes, from rounds and from another start
      for (int fl = 0; fl < 4; ++fl) {
        std::vector<change> w = {v[0], v[1], v[2], v[1]};
        std::vector<P> e; P z = ref::id(4);
        size_t n = (fl & row_block::half_lead_only ? 2 : 4) + (fl & row_block::no_final_lead_head ? 0 : 1);
        const ref::Sw *ss[] = {&a, &b, &c, &b};
        for (size_t i = 0; i < n; ++i) { e.push_back(z); if (i < 4) z = ref::mul(z, ref::sw_perm(*ss[i])); }
        row_block rb(w, fl);
        EXPECT(rb.size() == n, "row-block-size", "flags ", fl, " size ", rb.size());
        for (size_t i = 0; i < n && i < rb.size(); ++i) EXPECT(eq(rb[i], e[i]), "row-block", "flags ", fl, " row ", i);
        for (auto &st : {P{3, 1, 0, 2}, P{1, 0, 2, 3, 4}}) {
          row_block r2(w, mk(st), fl);
          EXPECT(r2.size() == n, "row-block-size", "flags ", fl, " size ", r2.size());
          for (size_t i = 0; i < n && i < r2.size(); ++i) EXPECT(eq(r2[i], ref::mul(st, e[i])), "row-block-start", "flags ", fl, " row ", i);
          rb.set_start(mk(st)); rb.recalculate();
          for (size_t i = 0; i < n && i < rb.size(); ++i) EXPECT(eq(rb[i], ref::mul(st, e[i])), "row-block-restart", "flags ", fl, " row ", i);
        }
        // recalculate from the middle leaves earlier rows alone
        row_block r3(w, fl); r3[1] = mk({2, 3, 0, 1}); r3.recalculate(1);
        EXPECT(eq(r3[0], e[0]), "row-block-partial", "row 0 changed");
        for (size_t i = 1; i < n; ++i) EXPECT(eq(r3[i], ref::mul(P{2, 3, 0, 1}, ref::mul(ref::inv(e[1]), e[i]))), "row-block-partial", "flags ", fl, " row ", i);
      }
    } END_CASE
}
VF_SECTION(blocks) {   // row blocks of every length, in all four shapes
  auto cs = ref::changes(3);
  std::vector<ref::Sw> m;
  std::function<void()> go = [&]() {
    CASE("row blocks of ", [&]{ std::string s; for (auto &c : m) s += ref::pn(c) + "."; return s; }()) {
      vf::states(); std::vector<change> v; std::vector<P> e(1, ref::id(m.empty() ? 0 : 3));
      for (auto &c : m) { v.push_back(mkc(c)); e.push_back(ref::mul(e.back(), ref::sw_perm(c))); }
      for (int fl = 0; fl < 4; ++fl) {
        size_t n = (fl & row_block::half_lead_only ? m.size() / 2 : m.size()) + (fl & row_block::no_final_lead_head ? 0 : 1);
        row_block rb(v, fl); EXPECT(rb.size() == n, "row-block-size", "flags ", fl, " size ", rb.size());
        for (size_t i = 0; i < n && i < rb.size(); ++i) EXPECT(eq(rb[i], e[i]), "row-block", "flags ", fl, " row ", i);
        P st{2, 0, 1}; row_block rs(v, mk(st), fl); EXPECT(rs.size() == n, "row-block-size", "flags ", fl, " size ", rs.size());
        for (size_t i = 0; i < n && i < rs.size(); ++i) EXPECT(eq(rs[i], ref::mul(st, e[i])), "row-block-start", "flags ", fl, " row ", i);
      }
    } END_CASE
    if ((int)m.size() < vf::tier(6, 8)) for (auto &c : cs) { m.push_back(c); go(); m.pop_back(); }
  };
  go();
}
