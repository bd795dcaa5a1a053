// P21: methsearch lists exactly the methods that meet the criteria.
// Every method with the given bells, hunts and lead length is enumerated here
// from the definition of a change and of the treble's path; each criterion is
// a predicate on it; each combination of criteria is one run of the program.
#include "app.h"
#include "ms.h"
#include <algorithm>
#include <cstring>
using namespace ref;
struct C { std::string opt; std::function<bool(M const &)> f, lax; }; // one criterion: its option and its meaning
typedef std::vector<C> Slot;
static std::vector<Slot> slots(W const &w) {
  std::vector<Slot> v; bool sy = w.L % 2 == 0, full = w.zf == w.n - 1 - w.zb;
  Slot F; F.push_back({"", [&](M const &m) { return w.nontrivial(m) && w.lead(m); }, [&](M const &m) { return w.nontrivial(m) && w.lead(m, 1); }}); if (w.U) F.push_back({"-Fh", [&](M const &m) { return w.nontrivial(m) && w.half(m); }}); F.push_back({"-Fl", F[0].f, F[0].lax}); F.push_back({"-Fc", [&](M const &m) { return w.nontrivial(m) && w.lead(m) && w.course(m); }, [&](M const &m) { return w.nontrivial(m) && w.course(m, 1); }}); F.push_back({"-Fn", [&](M const &m) { return w.nontrivial(m); }}); F.push_back({"-Fx", [&](M const &) { return true; }});
  if (w.U == 1 && !w.G && w.zf == 0 && w.zb == w.n - 1 && w.n <= 5) F.push_back({"-Fe", [&](M const &m) { return w.nontrivial(m) && w.lead(m) && w.extent(m, false); }});
  v.push_back(F);
  v.push_back({{"", [&](M const &m) { return w.proper(m); }}, {"-A", [&](M const &) { return true; }}});
  auto add = [&](std::vector<C> x) { Slot s; s.push_back({"", [](M const &) { return true; }}); for (auto &y : x) s.push_back(y); v.push_back(s); };
  { std::vector<C> x; if (sy) x.push_back({"-s", [&](M const &m) { return w.sym1('s', m); }}); if (sy && full) { x.push_back({"-k", [&](M const &m) { return w.sym1('k', m); }}); x.push_back({"-d", [&](M const &m) { return w.sym1('d', m); }}); x.push_back({"-sd", [&](M const &m) { return w.sym1('s', m) && w.sym1('d', m); }}); x.push_back({"-sk", x[3].f}); x.push_back({"-dk", x[3].f}); x.push_back({"-sdk", x[3].f}); } add(x); }
  { std::vector<C> x; for (int k = 2; k <= 5; ++k) x.push_back({"-p" + std::to_string(k), [&, k](M const &m) { return w.blows(m) <= k; }}); x.push_back({"-p", x[0].f}); x.push_back({"-p0", [](M const &) { return true; }}); add(x); }
  { std::vector<C> x; for (int k = 1; k <= std::min(4, w.n); ++k) x.push_back({"-l" + std::to_string(k), [&, k](M const &m) { return w.maxplaces(m) <= k; }}); x.push_back({"-l", [&](M const &m) { return w.maxplaces(m) <= 2; }}); add(x); }
  { std::vector<C> x; for (int k = 1; k <= 3; ++k) x.push_back({"-j" + std::to_string(k), [&, k](M const &m) { return w.adj(m) <= k; }}); add(x); }
  if (w.U <= 1 && (w.U || w.n % 2 == 0)) add({{"-w", [&](M const &m) { return w.right(m); }}});
  if (w.U == 1 && full) add({{"-f", [&](M const &m) { return w.no78(m); }}});
  if (w.U && w.zf == 0 && w.zb == w.n - 1) add({{"-r", [&](M const &m) { return w.regular(m); }}, {"-c", [&](M const &m) { return w.cyclic(m); }}});
  if (w.U % 2 == 1 && full) add({{"-e", [&](M const &m) { return w.limited(m[w.lept()]); }}});
  if (w.U == 1 && (w.zb - w.zf) % 2 == 1 && w.zf == 0 && w.zb > 1) add({{"-S", [&](M const &m) { return w.cross_sections(m, 'S'); }}, {"-T", [&](M const &m) { return w.cross_sections(m, 'T'); }}, {"--delight", [&](M const &m) { return w.cross_sections(m, 'D'); }}});
  if (w.G && w.U == 1) { add({{"-y", [&](M const &m) { return w.sections(m); }}}); if (w.G % 2) add({{"-P", [&](M const &m) { return w.parity(m); }}}); }
  return v;
}
static void sweep(W const &w, int depth, int part = 0, int of = 1) { int count = 0;
  auto S = slots(w); std::vector<std::vector<std::vector<char>>> bit(S.size()), lax(S.size()); std::vector<std::string> text; for (auto &m : w.all) text.push_back(w.txt(m) + "\t" + str(w.lh(m))); bool done = false;
  auto fill = [&] { if (done) return; done = true; for (size_t s = 0; s < S.size(); ++s) for (auto &c : S[s]) { std::vector<char> v; v.reserve(w.all.size()); for (auto &m : w.all) v.push_back(c.f(m)); bit[s].push_back(v); if (c.lax) for (size_t i = 0; i < v.size(); ++i) v[i] = c.lax(w.all[i]); lax[s].push_back(v); } };
  std::vector<int> forced; std::vector<std::string> fa; for (char c : w.force) fa.push_back(c == '2' ? "-l2" : c == 'n' ? "" : std::string("-") + c);
  std::function<void(size_t, int, std::vector<int>)> rec = [&](size_t s, int left, std::vector<int> pick) {
    if (s == S.size()) {
      for (int base = 0; base < 2; ++base) { if (base && (pick[0] || pick[1])) continue; auto pk = pick; if (base) { pk[1] = 1; for (size_t i = 0; i < S[0].size(); ++i) if (S[0][i].opt == (w.has('n') ? "-Fn" : "-Fx")) pk[0] = i; }
        if (w.has('n') && S[0][pk[0]].opt == "-Fx") continue;
        std::vector<std::string> a = w.args(); for (auto &x : fa) if (!x.empty()) a.push_back(x); std::string sym; bool clash = false; for (size_t i = 0; i < S.size(); ++i) { auto &o = S[i][pk[i]].opt; if (!o.empty()) a.push_back(o); if (i == 2 && !o.empty() && (w.has('s') || w.has('d') || w.has('k'))) clash = o.find(w.force[0]) == std::string::npos; if (o == "-P") clash = clash || !(S[2][pk[2]].opt.find('s') != std::string::npos || w.has('s')); if (o.size() > 1 && w.has(o[1]) && o != "-s") clash = true; if (o.compare(0, 2, "-l") == 0 && w.has('2')) clash = true; }
        if (clash) continue; std::string nm; for (auto &x : a) nm += x + " ";
        if (count++ % of != part) continue;
        CASE(nm) { fill();
          vf::states(); std::vector<std::string> want, alt; for (size_t k = 0; k < w.all.size(); ++k) { bool ok = true; for (size_t i = 1; ok && i < S.size(); ++i) ok = bit[i][pk[i]][k]; if (ok && bit[0][pk[0]][k]) want.push_back(text[k]); if (ok && lax[0][pk[0]][k]) alt.push_back(text[k]); }
          auto o = app::run("methsearch", a); auto got = lines(o.out); std::sort(want.begin(), want.end()); std::sort(alt.begin(), alt.end());
          bool none = o.rc == 1 && o.out.empty() && o.err.find("No such method can exist") != std::string::npos; // said so before searching
          std::sort(got.begin(), got.end());
          if (S[0][pk[0]].opt == "-Fe") { std::set<std::string> loose; for (size_t k = 0; k < w.all.size(); ++k) if (w.lead(w.all[k], 1) && !w.lead(w.all[k])) loose.insert(text[k]); auto drop = [&](std::vector<std::string> &v) { v.erase(std::remove_if(v.begin(), v.end(), [&](std::string const &x) { return loose.count(x); }), v.end()); }; drop(got); drop(want); }
          EXPECT(got == want || got == alt, "methods", diff(got, want), " ", o.err.substr(0, 200)); if (none) return;
          EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, " ", o.err.substr(0, 200)); vf::states(want.size()); vf::outcome(vf::cat(want.size()));
        } END_CASE
      }
      return;
    }
    for (int i = 0; i < (int)S[s].size(); ++i) { if (i && !left) break; auto p = pick; p.push_back(i); rec(s + 1, left - (i ? 1 : 0), p); }
  };
  rec(0, depth, {});
}
VF_SECTION(hunt_3) { sweep(W(3, 1, 0), vf::tier(2, 4)); sweep(W(2, 1, 0), vf::tier(2, 3)); }
VF_SECTION(hunt_4) { sweep(W(4, 1, 0), vf::tier(2, 4)); }
VF_SECTION(hunt_5) { sweep(W(5, 1, 0), vf::tier(2, 3), 0, 2); }
VF_SECTION(hunt_5_2) { sweep(W(5, 1, 0), vf::tier(2, 3), 1, 2); }
VF_SECTION(hunt_6) { sweep(W(6, 1, 0, 0, "s"), vf::tier(2, 3), 0, 3); }
VF_SECTION(hunt_6_2) { sweep(W(6, 1, 0, 0, "s"), vf::tier(2, 3), 1, 3); }
VF_SECTION(hunt_6_3) { sweep(W(6, 1, 0, 0, "s"), vf::tier(2, 3), 2, 3); }
VF_SECTION(hunt_6_double) { sweep(W(6, 1, 0, 0, "d"), vf::tier(2, 3)); }
VF_SECTION(hunt_6_rotational) { sweep(W(6, 1, 0, 0, "k"), vf::tier(2, 3)); }
VF_SECTION(twin_4) { sweep(W(4, 2, 0), vf::tier(2, 4)); sweep(W(5, 2, 0), vf::tier(2, 3)); }
VF_SECTION(twin_6) { sweep(W(6, 2, 0), vf::tier(2, 3)); }
VF_SECTION(triple) { sweep(W(5, 3, 0), vf::tier(2, 3)); sweep(W(6, 3, 0), vf::tier(2, 3)); }
VF_SECTION(principles_3) { for (int l = 1; l <= 8; ++l) sweep(W(3, 0, 0, l), vf::tier(2, 3)); }
VF_SECTION(principles_4) { for (int l = 1; l <= 6; ++l) sweep(W(4, 0, 0, l), vf::tier(2, 3)); }
VF_SECTION(principles_5) { for (int l = 1; l <= vf::tier(4, 5); ++l) sweep(W(5, 0, 0, l), vf::tier(2, 3)); }
VF_SECTION(dodging_4) { sweep(W(4, 1, 1), vf::tier(2, 3), 0, 2); }
VF_SECTION(dodging_4_2) { sweep(W(4, 1, 1), vf::tier(2, 3), 1, 2); }
VF_SECTION(dodging_4_more) { sweep(W(4, 1, 2, 0, "s"), vf::tier(2, 3)); sweep(W(2, 1, 1), 2); sweep(W(2, 1, 3), 2); }
VF_SECTION(dodging_6) { sweep(W(6, 1, 1, 0, "sw"), vf::tier(1, 2)); }
VF_SECTION(little) { sweep(W(4, 1, 0, 0, "", 0, 2), vf::tier(2, 3)); sweep(W(5, 1, 0, 0, "", 0, 2), vf::tier(2, 3)); sweep(W(4, 1, 0, 0, "", 1, 2), vf::tier(2, 3)); sweep(W(5, 1, 0, 0, "", 1, 3), vf::tier(2, 3)); sweep(W(6, 1, 0, 0, "s", 0, 3), vf::tier(2, 3)); sweep(W(5, 1, 1, 0, "s", 0, 1), vf::tier(2, 3)); }

VF_SECTION(first_row) { // the first row of the lead is proved too
  W w(4, 1, 0); for (auto &m : w.all) if (w.nontrivial(m) && w.lead(m, 1) && !w.lead(m)) CASE(w.name() + "-A " + w.txt(m)) { auto o = app::run("methsearch", {"-b4", "-U1", "-A", "--mask=" + w.txt(m)}); EXPECT(o.rc == 0 && o.out.empty(), "first-row", "lists ", o.out, o.err); } END_CASE
}
