// P11: proof: truth, counts and failure lists follow from the rows given.
#include "rl.h"
#include <ringing/pointers.h>
#include <ringing/streamutils.h>
#include <ringing/proof.h>
#include <list>
using namespace ringing;
using namespace rl;
using ref::P;
typedef std::map<P, std::vector<int>> FI;   // false row -> lines
static FI got(prover::failinfo const &f) { FI o; for (auto &d : f) { auto &v = o[un(d._row)]; v.insert(v.end(), d._lines.begin(), d._lines.end()); } return o; }
static FI want(std::vector<P> const &rows, int max) { FI o; if (max < 0) return o; std::map<P, std::vector<int>> c; for (size_t i = 0; i < rows.size(); ++i) c[rows[i]].push_back((int)i + 1); for (auto &p : c) if ((int)p.second.size() > max) o.insert(p); return o; }
static std::string shf(FI const &f) { std::string s; for (auto &p : f) { s += ref::str(p.first) + ":"; for (int i : p.second) s += " " + std::to_string(i); s += "; "; } return s; }
static bool truth(std::vector<P> const &rows, int max) { return want(rows, max).empty(); }
static size_t dups(std::vector<P> const &rows) { std::set<P> s(rows.begin(), rows.end()); return rows.size() - s.size(); }

static std::vector<P> A3() { return {ref::id(3), {1, 0, 2}, {1, 2, 0}}; }
static void state(prover const &p, std::vector<P> const &rows, int max, std::vector<P> const &alpha) {
  EXPECT(p.truth() == truth(rows, max), "truth", p.truth() ? "true" : "false", " after ", rows.size(), " rows");
  EXPECT(p.size() == rows.size(), "size", p.size());
  EXPECT(p.duplicates() == dups(rows), "duplicates", p.duplicates(), " not ", dups(rows));
  for (auto &a : alpha) EXPECT(p.count_row(mk(a)) == (size_t)std::count(rows.begin(), rows.end(), a), "count", show(a), ": ", p.count_row(mk(a)));
}
// every list of rows, every limit: adding
VF_SECTION(lists) {
  auto al = A3(); int L = vf::tier(7, 9); std::vector<int> s;
  std::function<void()> go = [&]() {
    CASE("rows ", [&]{ std::string o; for (int i : s) o += " " + ref::str(al[i]); return o; }()) {
      std::vector<P> rows; for (int i : s) rows.push_back(al[i]);
      std::vector<row> rr; for (auto &p : rows) rr.push_back(mk(p));
      for (int max = -1; max <= 3; ++max) {
        vf::states();
        { prover p(max); std::vector<P> h; for (auto &r : rows) { h.push_back(r); bool t = p.add_row(mk(r)); EXPECT(t == truth(h, max), "add-returns", "row ", h.size(), " of ", rows.size(), " limit ", max); } state(p, rows, max, al); }
        { prover::failinfo fi; prover p(fi, max); std::vector<P> h; for (auto &r : rows) { h.push_back(r); bool t = p.add_row(mk(r)); EXPECT(t == truth(h, max), "add-returns-info", "row ", h.size(), " limit ", max); } state(p, rows, max, al);
          EXPECT(got(fi) == want(rows, max), "failure-list", "limit ", max, ": ", shf(got(fi)), " not ", shf(want(rows, max)));
          EXPECT(fi.size() == got(fi).size(), "failure-list-repeats", "a row is listed twice"); }
        if (max < 0) continue;
        typedef std::vector<row>::const_iterator I; typedef proof<I> PR; I b = rr.begin(), e = rr.end();
        bool t = truth(rows, max);
        PR a(b, e, max); EXPECT(bool(int(a)) == t && (!a) == !t, "proof", "limit ", max); EXPECT(got(a.failed()) == want(rows, max), "proof-list", "limit ", max, ": ", shf(got(a.failed())), " not ", shf(want(rows, max)));
        PR q(b, e, max, true); EXPECT(bool(int(q)) == t, "quick-proof", "limit ", max); EXPECT(q.failed().empty(), "quick-proof-list", "");
        { std::ostringstream os; os << a; std::string w; if (t) w = "True\n"; else { w = "False\n"; for (auto &d : a.failed()) { w += "Row " + ref::str(un(d._row)) + " is repeated on lines"; for (int i : d._lines) w += " " + std::to_string(i); w += "\n"; } } EXPECT(os.str() == w, "proof-text", os.str()); }
        if (max == 1) { PR c(b, e); EXPECT(bool(int(c)) == t && got(c.failed()) == want(rows, 1), "proof-once", ""); PR d; EXPECT(!int(d) && d.failed().empty(), "default", ""); EXPECT(d.prove(b, e) == t && bool(int(d)) == t, "prove", ""); 
          EXPECT(d.prove(b, e, true) == t, "prove-quick", ""); }
        // in two blocks, the first known to be true
        for (size_t k = 0; k <= rr.size(); ++k) { std::vector<P> first(rows.begin(), rows.begin() + k); if (!truth(first, max)) break; PR c(b, b + k, b + k, e, max); EXPECT(bool(int(c)) == t && got(c.failed()) == want(rows, max), "two-blocks", "after ", k, ": ", shf(got(c.failed()))); PR d(b, b + k, b + k, e, max, true); EXPECT(bool(int(d)) == t, "two-blocks-quick", k); if (max == 1) { PR f(b, b + k, b + k, e); EXPECT(bool(int(f)) == t, "two-blocks-once", k); } }
        // the same object, proving again
        PR z(b, e, max); for (int m2 = 0; m2 <= 2; ++m2) { bool r = z.prove(b, e, m2); EXPECT(r == truth(rows, m2) && bool(int(z)) == r && got(z.failed()) == want(rows, m2), "prove-again", "limit ", max, " then ", m2, ": ", shf(got(z.failed()))); }
      }
    } END_CASE
    if ((int)s.size() < L) for (int i = 0; i < 3; ++i) { if (s.empty() && i) break; s.push_back(i); go(); s.pop_back(); }
  };
  go();
}
// every history of adding and removing, checked after each step
VF_SECTION(histories) {
  auto al = A3(); int L = vf::tier(6, 8); std::vector<int> ops;   // 0..2 add, 3..5 remove
  std::function<void()> go = [&]() {
    if (!ops.empty()) CASE("history", [&]{ std::string o; for (int i : ops) o += (i < 3 ? " +" : " -") + ref::str(al[i % 3]); return o; }()) {
      for (int max = 1; max <= 2; ++max) {
        vf::states();
        prover::failinfo fi; prover p(max), q(fi, max); std::vector<P> rows; bool lifo = true;
        for (int o : ops) {
          P r = al[o % 3];
          if (o < 3) { rows.push_back(r); bool a = p.add_row(mk(r)), b = q.add_row(mk(r)); EXPECT(a == truth(rows, max) && b == a, "add-returns", ""); }
          else {
            bool have = std::count(rows.begin(), rows.end(), r), ta = false, tb = false;
            try { p.remove_row(mk(r)); } catch (std::logic_error const &) { ta = true; }
            try { q.remove_row(mk(r)); } catch (std::logic_error const &) { tb = true; }
            EXPECT(ta == !have && tb == !have, "remove-missing", show(r));
            if (have) { if (rows.back() != r) lifo = false; for (size_t i = rows.size(); i-- > 0;) if (rows[i] == r) { rows.erase(rows.begin() + i); break; } }
          }
          state(p, rows, max, al); state(q, rows, max, al);
          FI g = got(fi), w = want(rows, max);
          if (lifo) EXPECT(g == w, "failure-list", "limit ", max, ": ", shf(g), " not ", shf(w));
          else { bool ok = g.size() == w.size(); for (auto &x : w) if (!g.count(x.first) || g[x.first].size() != x.second.size()) ok = false; EXPECT(ok, "failure-rows", "limit ", max, ": ", shf(g), " not ", shf(w)); }
        }
      }
    } END_CASE
    if ((int)ops.size() < L) for (int i = 0; i < 6; ++i) { if (i % 3 > (ops.empty() ? 0 : *std::max_element(ops.begin(), ops.end()) == 0 ? 1 : 2)) continue; if (!vf::thorough() && ops.size() >= 5 && i % 3 == 2) continue; ops.push_back(i); go(); ops.pop_back(); }
  };
  go();
}
// branches of a prover, two deep, with rows added and removed in the branch
VF_SECTION(branches) {
  auto al = A3(); al.pop_back(); int L = vf::tier(7, 9); std::vector<int> ops;  // 0,1 add; 2,3 remove; 4 branch
  std::function<void(int)> go = [&](int nb) {
    if (!ops.empty() && nb) CASE("branch history", [&]{ std::string o; for (int i : ops) o += i == 4 ? " |" : (i < 2 ? " +" : " -") + ref::str(al[i % 2]); return o; }()) {
      for (int max = 1; max <= 2; ++max) for (int info = 0; info < 2; ++info) {
        vf::states(); prover::failinfo fi;
        shared_pointer<prover> p(info ? new prover(fi, max) : new prover(max)); std::vector<P> rows; size_t base = 0; std::vector<std::pair<shared_pointer<prover>, std::vector<P>>> held; bool lifo = true;
        for (int o : ops) {
          if (o == 4) { held.push_back({p, rows}); p = prover::create_branch(p); base = rows.size(); }
          else { P r = al[o % 2];
            if (o < 2) { rows.push_back(r); EXPECT(p->add_row(mk(r)) == truth(rows, max), "branch-add-returns", ""); }
            else { bool have = std::count(rows.begin() + base, rows.end(), r), t = false; try { p->remove_row(mk(r)); } catch (std::logic_error const &) { t = true; } EXPECT(t == !have, "branch-remove", show(r)); if (have) { if (rows.back() != r) lifo = false; for (size_t i = rows.size(); i-- > base;) if (rows[i] == r) { rows.erase(rows.begin() + i); break; } } } }
          state(*p, rows, max, al);
          if (info) { FI g = got(fi), w = want(rows, max); bool ok = g.size() == w.size(); for (auto &x : w) if (!g.count(x.first) || g[x.first].size() != x.second.size()) ok = false; EXPECT(ok && (!lifo || g == w), "branch-failure-list", "limit ", max, ": ", shf(g), " not ", shf(w)); }
        }
        for (auto &h : held) state(*h.first, h.second, max, al);   // what was branched from is as it was
      }
    } END_CASE
    if ((int)ops.size() < L) for (int i = 0; i < 5; ++i) { if (i == 4 && nb == 2) continue; if (i != 4 && nb == 0 && ops.size() >= 3) continue; if (!vf::thorough() && ops.size() >= 6 && i == 3) continue; ops.push_back(i); go(nb + (i == 4)); ops.pop_back(); }
  };
  go(0);
}
VF_SECTION(misc) {
  CASE("proving disabled") { auto al = A3(); prover p; p.disable_proving(); std::vector<P> rows; for (int k = 0; k < 5; ++k) { rows.push_back(al[k % 2]); EXPECT(p.add_row(mk(al[k % 2])), "disabled", ""); } state(p, rows, -1, al); shared_pointer<prover> c(new prover); c->disable_proving(); auto b = prover::create_branch(c); EXPECT(b->add_row(mk(al[0])) && b->add_row(mk(al[0])) && b->truth(), "disabled-branch", ""); } END_CASE
  // every subset of the extent on 4, with one row again anywhere
  auto ps = ref::perms(4);
  for (int n = 0; n <= 24; ++n) for (int x = 0; x < n; ++x) CASE("extent prefix ", n, " with row ", x, " again") { vf::states(); std::vector<row> v; for (int i = 0; i < n; ++i) v.push_back(mk(ps[i])); typedef proof<std::vector<row>::iterator> PR; PR a(v.begin(), v.end()); EXPECT(int(a) == 1 && a.failed().empty(), "prefix-true", ""); v.push_back(v[x]); PR b(v.begin(), v.end()); EXPECT(!b && b.failed().size() == 1 && b.failed().front()._row == v[x] && b.failed().front()._lines == std::list<int>({x + 1, n + 1}), "prefix-false", ""); PR c(v.begin(), v.end(), 2); EXPECT(int(c), "prefix-twice", ""); } END_CASE
}
