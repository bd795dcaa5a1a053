// P35: touches written for MicroSiril are proved as MicroSiril would prove them.
#include "gsrun.h"
using namespace gs;
typedef std::vector<std::string> V;
static unsigned hashof(std::string const &s) { unsigned h = 7; for (char c : s) h = h * 31 + (unsigned char)c; return h; }
static N lst(std::vector<N> v) { N r = v.back(); for (size_t i = v.size() - 1; i-- > 0;) r = mk(LIST, {v[i], r}); return r; }
// every way of asking for it
static char const *const ways[] = {"--msiril", "--sirilic", "msiril", "microsiril", "gmsiril", "gmicrosiril", "sirilic", "gsirilic", "/x/msiril", "./sirilic"};
static app::Out run(int way, V args, std::string const &in) { if (ways[way][0] == '-') args.insert(args.begin() + (args.empty() || way % 3 ? 0 : args.size()), ways[way]); else app::argv0() = ways[way]; auto o = app::run("gsiril", args, in, 30); app::argv0().clear(); return o; }
static World fresh() { World w; w.msiril = true; return w; }
static void check(app::Out const &o, World const &w, bool ok) { int rc = !ok ? 2 : w.failed ? 1 : 0; EXPECT(o.out == w.out, "output", show(o.out), " not ", show(w.out), " ", show(o.err)); EXPECT(o.rc == rc, "status", o.rc, " not ", rc, " ", show(o.err)); EXPECT(ok ? o.err.empty() : !o.err.empty(), "errors", show(o.err)); vf::outcome(o.out); vf::states(); }
struct Prog { World w = fresh(); std::string text, first; bool ok = true, proved = false; std::set<std::string> init;
  Prog() { for (auto &s : w.st) init.insert(s.first); }
  void def(std::string const &n, N e, bool dflt = false) { if (!ok) return; if (!(dflt && w.st.count(n))) w.st[n] = e; if (first.empty() && !init.count(n)) first = n; }
  void prove(N e) { if (ok) { proved = true; try { w.prove(e); } catch (Err const &) { ok = false; } } }
  void end() { if (ok && !proved && !first.empty()) prove(sym(first)); }
};
struct Line { std::string text; std::function<void(Prog &)> act; };
static std::vector<Line> pool() {
  auto D = [](std::string n, N e, bool d = false) { return [=](Prog &p) { p.def(n, e, d); }; }; auto R = [](N e) { return [=](Prog &p) { p.prove(e); }; }; N x = pn(4, "+-"), y = pn(4, "+14"), z = pn(4, "+12"), pl = lst({x, y}), s3 = lst({pn(4, "&-14-"), z});
  return {
    {"a-1 = +-.14/ lead", D("a_m1", pl)}, {"A-1=&-14-, +12 / \"not a string\" = (", D("a_m1", s3)}, {"B% = 4 a-1", D("b_p", mk(REP, {sym("a_m1")}, "", 4))}, {"b%= 3(a-1), \"$ @ #\"", D("b_p", lst({mk(REP, {sym("a_m1")}, "", 3), str("$ @ #")}))}, {"Touch! = b%, / a comment\n  2a-1,\n / another, with / slash\n \"${a-1}\"", D("touch_e", lst({sym("b_p"), mk(REP, {sym("a_m1")}, "", 2), str("${a-1}")}))},
    {"touch! ?= 8 A-1", D("touch_e", mk(REP, {sym("a_m1")}, "", 8), true)}, {"PROVE Touch!", R(sym("touch_e"))}, {"Prove 2B%", R(mk(REP, {sym("b_p")}, "", 2))}, {"prove (a-1, / one\n A-1)", R(lst({sym("a_m1"), sym("a_m1")}))}, {"2 Extents", [](Prog &p) { if (p.ok) p.w.extents = 2; }}, {"/ only a comment = 3", [](Prog &) {}}, {"TRUE = \"T #{$}\"", [=](Prog &p) { p.def("true", str("T #{$}")); }}, {"False = # = 1", nullptr},
    {"Conflict = \"F$ at #$$\"", D("conflict", str("F$ at #$$"))}, {"everyROW = \"@\\\"", D("everyrow", str("@\\"))}, {"n =", D("n", mk(NOP))}, {"Rounds '2143'", [](Prog &p) { if (p.ok) p.w.rounds = prow("2143"); }}, {"; a-1 = +34 ; ;", D("a_m1", pn(4, "+34"))}, {"8 ROWS", [](Prog &p) { if (p.ok) p.w.length(8, 8); }}, {"echo \"Echo ${x} #/\"", [](Prog &p) { if (p.ok) p.w.echo(str("Echo ${x} #/")); }}};
}
VF_SECTION(programs) { // every short list of statements
  auto ps = pool(); for (size_t i = 0; i < ps.size();) if (!ps[i].act) ps.erase(ps.begin() + i); else ++i; int depth = vf::tier(3, 4); std::function<void(std::vector<int>)> rec = [&](std::vector<int> v) {
    CASE("program ", [&] { std::string s; for (int i : v) s += std::to_string(i) + " "; return s; }()) {
      Prog p; p.w.bells = 4; std::string t = "4 bells / here\n"; for (int i : v) { t += ps[i].text + "\n"; ps[i].act(p); } p.end(); unsigned h = 0; for (int i : v) h = h * 7 + i; int way = h % 10; check(run(way, {}, t), p.w, p.ok);
      if (v.size() < 2) for (int k = 0; k < 10; ++k) check(run(k, {}, t), p.w, p.ok); if (v.size() < 3) { std::string f = app::put("p.sir", t); check(run((way + 5) % 10, {"-f", f}, ""), p.w, p.ok); }
    } END_CASE
    if ((int)v.size() < depth) for (size_t i = 0; i < ps.size(); ++i) { auto u = v; u.push_back(i); rec(u); }
  }; rec({});
}
VF_SECTION(comments) { // a comment wherever a line may end, and nowhere else
  struct T { std::string t; int ok; }; // what follows each token: 0 nothing may, 1 a new line may, 2 the statement ends
  std::vector<std::vector<T>> progs = {{{"a", 0}, {"=", 0}, {"(", 1}, {"+-", 1}, {",", 1}, {"+14", 1}, {")", 0}, {",", 1}, {"\"#\"", 2}}, {{"a", 0}, {"=", 0}, {"4", 0}, {"(", 1}, {"2", 1}, {"(", 1}, {"+12", 1}, {")", 1}, {",", 1}, {"+14", 1}, {")", 2}}, {{"a", 0}, {"=", 0}, {"&-14-", 0}, {",", 1}, {"+12", 0}, {",", 1}, {"b", 2}, {"b", 0}, {"=", 0}, {"\"/\"", 2}}};
  std::vector<N> val = {lst({pn(4, "+-"), pn(4, "+14"), str("#")}), mk(REP, {lst({mk(REP, {pn(4, "+12")}, "", 2), pn(4, "+14")})}, "", 4), lst({pn(4, "&-14-"), pn(4, "+12"), sym("b")})};
  char const *const cm[] = {" ", "/\n", "/ x = ( \"\n", "//\n", " /,)\n\n", "\n"};
  for (size_t k = 0; k < progs.size(); ++k) { std::vector<int> gap; for (size_t i = 0; i < progs[k].size(); ++i) if (progs[k][i].ok == 1) gap.push_back(i); long total = 1; for (size_t i = 0; i < gap.size(); ++i) total *= 6; long stride = total > 8000 ? vf::tier(total / 4000 | 1, total / 40000 | 1) : 1; for (long c = 0; c < total; c += stride) CASE("comments ", k, " ", c) {
    long d = c; std::string t = "/start\n4 bells/\n"; size_t g = 0; for (size_t i = 0; i < progs[k].size(); ++i) { t += progs[k][i].t; if (progs[k][i].ok == 1) { t += cm[d % 6]; d /= 6; ++g; } else t += progs[k][i].ok == 2 ? c % 2 ? "/ end\n" : "\n" : " "; }
    Prog p; p.w.bells = 4; p.def("a", val[k]); if (k == 2) p.def("b", str("/")); p.end(); check(run(c % 10, {}, t), p.w, p.ok); } END_CASE }
  for (auto &t : {"a = +- / .14", "a / = +14\n= +-", "a = / +-\n", "a = 2 / 2\n+-", "prove / a\n a = +-"}) CASE("cut short ", t) { // the rest of the line is not read
    auto o = run(0, {"-b4"}, t); std::string s = t; World w = fresh(); w.bells = 4; bool ok = true; if (s[4] == '+') { w.prove(pn(4, "+-")); } else if (s == "a = / +-\n") w.prove(mk(NOP)); else ok = false; check(o, w, ok); } END_CASE
}
VF_SECTION(names) { // every short name, in either case
  std::string sig = "aB1%-!_"; int depth = vf::tier(4, 5); std::vector<std::string> cur = {""}; for (int k = 1; k <= depth; ++k) { std::vector<std::string> nx; for (auto &s : cur) for (char c : sig) nx.push_back(s + c); cur = nx; for (auto &s : cur) { if (!isalpha((unsigned char)s[0])) continue; CASE("name ", s) {
    std::string up, lo; for (char c : s) { up += toupper(c); lo += tolower(c); } Prog p; p.w.bells = 4; p.def("q", lst({pn(4, "+-"), str("#")})); p.def("r", lst({mk(REP, {lst({sym("q"), pn(4, "+14")})}, "", 4)})); int form = hashof(s) % 3; if (form == 1) { p.proved = false; } p.prove(sym("r"));
    std::string t = "4 bells\n" + s + " = +-, \"#\"\nzz" + s + "=4(" + up + ", +14)\n"; if (form == 0) t += "prove zz" + lo + "\n"; else if (form == 1) t += "PROVE ZZ" + s + " / " + s + "\n"; else t += "Prove zZ" + up + ";"; check(run(hashof(s) % 10, {}, t), p.w, p.ok);
    if (form == 0) { auto o = run(1, {"-b4", "-Pzz" + up}, t.substr(0, t.find("prove"))); check(o, p.w, p.ok); } // the one asked for rather than the first
    if (s.find_first_of("%-!") != std::string::npos) { auto o = app::run("gsiril", {"-b4", "-e", s + " = +14"}); EXPECT(o.rc == 2 && o.out.empty() && !o.err.empty(), "only-here", o.rc, show(o.out)); }
  } END_CASE } }
  for (auto &s : {"1a", "%a", "-a", "!a", "%", "-", "!", "1"}) CASE("no name ", s) { auto o = run(0, {"-b4"}, std::string(s) + " = +14\n"); EXPECT(o.rc == 2 && o.out.empty() && !o.err.empty(), "refused", o.rc, show(o.out)); vf::states(); } END_CASE
}
VF_SECTION(strings) { // every short string, which holds no variables
  std::string sig = "${}#@_\\a/"; int depth = vf::tier(4, 5); std::vector<std::string> cur = {""}; for (int k = 1; k <= depth; ++k) { std::vector<std::string> nx; for (auto &s : cur) for (char c : sig) nx.push_back(s + c); cur = nx; for (size_t i = 0; i < cur.size(); i += 40) CASE("strings of ", k, " from ", i) {
    Prog p; p.w.bells = 4; std::string t = "4 bells\n"; for (size_t j = i; j < cur.size() && j < i + 40; ++j) { std::string const &s = cur[j]; size_t e = 0; while (e < s.size() && s[s.size() - 1 - e] == '\\') ++e; (void)e; t += "prove +-, \"" + s + "\", +12.34, \"" + s + "\"\n"; N e1 = str(s); p.prove(lst({pn(4, "+-"), e1, pn(4, "+12.34"), e1})); } check(run(i / 40 % 10, {}, t), p.w, p.ok); } END_CASE }
}
VF_SECTION(underlines) { // in Sirilic mode only, an underscore turns underlining on and off, where the terminal can do it
  for (int way = 0; way < 8; ++way) for (auto &s : {"a_b_c", "_", "__", "_@_ _#_", "a_ $_b"}) CASE("underline ", ways[way], " ", s) { Prog p; p.w.bells = 4; p.prove(lst({pn(4, "+-"), str(s)})); auto o = run(way, {}, std::string("4 bells\nprove +-,\"") + s + "\"\n"); check(o, p.w, p.ok); } END_CASE
}
VF_SECTION(disabled) { // what MicroSiril had another meaning for
  for (auto &t : {"row_mask /1*/", "prove { /1*/: +- }", "prove +- + +-", "prove 3 % 2", "a = +- . +14", "a = 1 == 1", "a = 1 != 1", "prove +- && +-", "prove +- || +-", "a = +- << 1", "a = +- >> 1", "n := 1; prove ++n", "n := 1; prove --n", "prove [+-]", "a = +- & +14"}) for (int way = 0; way < 2; ++way) CASE("disabled ", t, " ", way) { auto o = run(way, {"-b4"}, std::string(t) + "\n"); EXPECT(o.rc == 2 && !o.err.empty() && o.out.find("true") == std::string::npos, "refused", o.rc, show(o.out)); vf::states(); } END_CASE
}
VF_SECTION(prove) { // -P names another; the first is not one from the initial definitions, an option or a module
  app::put("mod.gsir", "z = +12\n"); std::string dir = app::work(); struct S { std::string t; std::string n; N e; }; std::vector<S> ss = {{"a = +-,\"a\"\n", "a", lst({pn(4, "+-"), str("a")})}, {"B = 2(+14),\"b\"\n", "b", lst({mk(REP, {pn(4, "+14")}, "", 2), str("b")})}, {"k = +14, \"k\"\n", "k", lst({pn(4, "+14"), str("k")})}, {"import mod\n", "", N()}, {"TRUE = \"t\"\n", "true", str("t")}, {"prove +12.12\n", "!", lst({pn(4, "+12"), pn(4, "+12")})}, {"finish = \"f\"\n", "finish", str("f")}};
  char const *const opt[] = {"", "-P", "-PB", "-Pa", "--prove=K", "-PA,b"}; std::function<void(std::vector<int>)> rec = [&](std::vector<int> v) {
    if (!v.empty()) for (int k = 0; k < 6; ++k) CASE("prove ", [&] { std::string s; for (int i : v) s += char('0' + i); return s; }(), " ", opt[k]) {
      Prog p; p.w.bells = 4; p.w.st["k"] = pn(4, "+12"); p.init.insert("k"); std::string t; for (int i : v) { t += ss[i].t; if (ss[i].n == "!") p.prove(ss[i].e); else if (!ss[i].n.empty()) p.def(ss[i].n, ss[i].e); else p.w.st["z"] = pn(4, "+12"); }
      if (k < 2) p.end(); else if (k == 2) p.prove(sym("b")); else if (k == 3) p.prove(sym("a")); else if (k == 4) p.prove(sym("k")); else p.prove(lst({sym("a"), sym("b")}));
      V a = {"--msiril", "-b4", "-Dk=+12"}; if (k) a.push_back(opt[k]); auto o = app::run("gsiril", a, t, 30, {"GSIRIL_LIBRARY_PATH=" + dir}); check(o, p.w, p.ok);
    } END_CASE
    if (v.size() < (size_t)vf::tier(3, 4)) for (size_t i = 0; i < ss.size(); ++i) { auto u = v; u.push_back(i); rec(u); }
  }; rec({});
}
