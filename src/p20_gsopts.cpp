// P20: options mean what the matching statements mean; limits, modules, filters and modes.
#include "gsrun.h"
#include <sys/stat.h>
using namespace gs;
static N lst(std::vector<N> v) { N r = v.back(); for (size_t i = v.size() - 1; i-- > 0;) r = mk(LIST, {v[i], r}); return r; }
static void check(app::Out const &o, World const &w, int rc, std::string err = "") {
  EXPECT(o.out == w.out, "output", show(o.out), " not ", show(w.out), " ", show(o.err)); EXPECT(o.rc == rc, "status", o.rc, " not ", rc, " ", show(o.err)); EXPECT(rc == 2 || rc == 3 ? !o.err.empty() : o.err == err, "errors", show(o.err)); vf::outcome(o.out + o.err);
}
static std::vector<N> touches() { N x = pn(4, "+-"), y = pn(4, "+14"), z = pn(4, "+12"); return {mk(REP, {lst({x, y})}, "", 4), lst({x, y, x, x}), lst({x, y, x}), mk(REP, {lst({mk(REP, {lst({x, y})}, "", 3), x, z})}, "", 3), mk(REP, {lst({x, y})}, "", 8)}; }
// every way of giving each setting, as an option or as a statement
static void forms(int quiet) {
  auto T = touches(); char const *len[][3] = {{"", "", ""}, {"8-8", "8", "8 rows"}, {"9-20", "9-20", "9 to 20 rows"}, {"3-7", "3-7", "3 to 7 rows"}}; L lo[] = {0, 8, 9, 3}, hi[] = {0, 8, 20, 7};
  for (int b = 0; b < 3; ++b) for (int x = 0; x < 3; ++x) for (int r = 0; r < 3; ++r) for (int l = 0; l < 7; ++l) for (int m = 0; m < 3; ++m) for (int d = 0; d < 2; ++d) for (int p = 0; p < 3; ++p) for (int src = 0; src < 3; ++src) for (size_t t = 0; t < T.size(); ++t) {
    if (r == 1 && b == 0) continue; if (d == 1 && b == 0) continue; // these options need the bells
    if (!vf::g.thorough && (b + x + r + l + m + d + p + src + t) % 5) continue;
    CASE("bells ", b, " extents ", x, " rounds ", r, " length ", l, " mask ", m, " define ", d, " prove ", p, " source ", src, " touch ", t, " quiet ", quiet) {
      vf::states(); World w; w.bells = 4; std::vector<std::string> a; std::string s, post;
      if (b == 0) s += "4 bells\n"; else if (b == 1) a.push_back("-b4"); else a.push_back("--bells=4");
      if (x) w.extents = 2; if (x == 1) { a.push_back("-n"); a.push_back("2"); } if (x == 2) s += "2 extents\n";
      if (r) w.rounds = prow("2143"); if (r == 1) a.push_back("-r2143"); if (r == 2) s += "rounds '2143'\n";
      int li = (l + 1) / 2; if (li) { w.length(lo[li], hi[li]); if (l % 2) a.push_back(std::string("--length=") + len[li][1]); else s += std::string(len[li][2]) + "\n"; }
      if (m == 1) { a.push_back("--row-mask=?*4"); w.mask = "?*4"; } if (m == 2) { s += "row_mask /?*4/\n"; if (quiet != 3) w.mask = "?*4"; }
      if (quiet == 3) { a.push_back("-E"); w.everyrow_only = true; w.st["everyrow"] = str("@"); } else { if (quiet) a.push_back(quiet == 1 ? "-q" : "-qq"); w.quiet = quiet; s += "everyrow = \"@ #\"\n"; w.st["everyrow"] = str("@ #"); }
      if (d) { a.push_back("-Dt = " + text(T[t])); } else s += "t = " + text(T[t]) + "\n"; w.st["t"] = T[t];
      s += "echo \"e\"\n"; w.echo(str("e")); if (p == 0) s += "prove t\n"; else if (p == 1) a.push_back("-Pt"); else a.push_back("--prove=t, t"); N e = p == 2 ? lst({sym("t"), sym("t")}) : sym("t"); w.prove(e);
      std::string in; if (src == 0) { a.push_back("-e"); a.push_back(s); } else if (src == 1) { a.push_back("-f"); a.push_back(app::put("f.sir", s)); } else in = s;
      check(app::run("gsiril", a, in), w, w.failed ? 1 : 0);
    } END_CASE
  }
}
VF_SECTION(forms_aloud) { forms(0); }
VF_SECTION(forms_quiet) { forms(1); }
VF_SECTION(forms_silent) { forms(2); }
VF_SECTION(forms_rows) { forms(3); }
// the whole status: any false touch of several, and errors, decide it
VF_SECTION(status) {
  auto T = touches(); int n = T.size(); for (int k = 0; k <= 3; ++k) { int tot = 1; for (int i = 0; i < k; ++i) tot *= n; for (int c = 0; c < tot; ++c) for (int q = 0; q < 3; ++q) for (int bad = 0; bad < 3; ++bad) CASE("touches ", c, "/", k, " quiet ", q, " ending ", bad) {
    vf::states(); World w; w.bells = 4; w.quiet = q; std::string s = "4 bells\n"; int v = c; for (int i = 0; i < k; ++i, v /= n) { s += "prove " + text(T[v % n]) + "\n"; w.prove(T[v % n]); } if (bad == 1) s += "prove nothing\n"; if (bad == 2) s += "error \"E\"\nprove +1234\n";
    std::vector<std::string> a = {"-e", s}; if (q) a.push_back(q == 1 ? "-q" : "-qq"); auto o = app::run("gsiril", a); if (bad == 2) { EXPECT(o.out == w.out && o.rc == 1 && o.err == "E\n", "error-statement", o.rc, show(o.out), show(o.err)); } else check(o, w, bad ? 2 : w.failed ? 1 : 0);
  } END_CASE }
  for (auto &x : std::vector<std::vector<std::string>>{{"-b2", "-N"}, {"-b0x", "-N"}, {"-n0", "-N"}, {"-r21", "-N"}, {"-b4", "-r21", "-N"}, {"-b4", "-r1123", "-N"}, {"-N", "-e", "x=1"}, {"-e", "x=1", "-f", "/dev/null"}, {"-N", "-f", "/dev/null"}, {"--filter", "-b4"}, {"--filter", "-e", "x=1"}, {"--length=9-3", "-N"}, {"--length=x", "-N"}, {"--length=3-x", "-N"}, {"--nosuch", "-N"}, {"-N", "-f/no/such/file"}, {"-b999", "-N"}, {"-f", "/no/such/file"}}) { std::string id; for (auto &y : x) id += y + " "; CASE("refused: ", id) { auto o = app::run("gsiril", x); EXPECT(o.rc == 3 && o.out.empty() && !o.err.empty(), "refused", o.rc, show(o.out), show(o.err)); } END_CASE }
}
// open ended lengths
VF_SECTION(lengths) {
  auto T = touches(); for (auto &e : T) for (L lo = 0; lo <= 26; ++lo) for (L hi = 0; hi <= 26; ++hi) { if (hi && lo > hi) continue; if (!vf::g.thorough && lo % 3 && hi % 3) continue; CASE(lo, "-", hi, " ", text(e)) {
    vf::states(); World w; w.bells = 4; w.length(lo, hi ? hi : 1000000); if (!hi) w.st.erase("max_length"); if (!lo && !hi) w.length(0, 0); w.prove(e); std::vector<std::string> a = {"-b4", "-e", "prove " + text(e)}; if (lo || hi) a.push_back("--length=" + (lo ? std::to_string(lo) : std::string()) + "-" + (hi ? std::to_string(hi) : std::string())); check(app::run("gsiril", a), w, w.failed ? 1 : 0); } END_CASE }
}
// -P alone proves the first thing the input itself defines
VF_SECTION(first_symbol) {
  struct S { std::string t; int d; }; std::vector<S> ss = {{"a = +-\n", 0}, {"b = +14\n", 1}, {"a = +12\n", 0}, {"c ?= +34\n", 2}, {"k = +1234\n", 9}, {"true = \"T\"\n", 9}, {"import mod1\n", 8}, {"echo \"x\"\n", 7}, {"d := methname(+-)\n", 7}};
  std::map<int, std::string> val; std::string dir = app::work(); app::put("mod1.gsir", "z = +12\nb = +1234\n");
  int depth = vf::tier(3, 4); std::function<void(std::vector<int>)> rec = [&](std::vector<int> v) {
    if (!v.empty()) { bool opt = true; for (int form = 0; form < 3; ++form) CASE("first of ", [&] { std::string s; for (int i : v) s += char('0' + i); return s; }(), " form ", form) {
      (void)opt; vf::states(); World w; w.bells = 4; w.st["everyrow"] = str("@"); std::string s; std::string first; std::set<std::string> known = {"k", "true"}; w.st["k"] = pn(4, "+14"); bool bad = false;
      for (int i : v) { s += ss[i].t; auto def = [&](std::string n, N e, bool dflt = false) { if (dflt && known.count(n)) return; w.st[n] = e; if (known.insert(n).second && first.empty()) first = n; }; switch (i) { case 0: def("a", pn(4, "+-")); break; case 1: def("b", pn(4, "+14")); break; case 2: def("a", pn(4, "+12")); break; case 3: def("c", pn(4, "+34"), true); break; case 4: w.st["k"] = pn(4, "+1234"); break; case 5: w.st["true"] = str("T"); break; case 6: w.st["z"] = pn(4, "+12"); w.st["b"] = pn(4, "+1234"); known.insert("z"); known.insert("b"); break; case 7: w.echo(str("x")); break; case 8: bad = true; break; } }
      if (bad) return; if (first.empty()) { if (form == 2) { return; } } else w.prove(sym(first));
      std::vector<std::string> a = {form == 1 ? "--prove" : "-P", "-b4", "-Dk=+14", "-Deveryrow=\"@\""}; std::string in; if (form == 2) in = s; else { a.push_back("-e"); a.push_back(s); }
      check(app::run("gsiril", a, in, 30, {"GSIRIL_LIBRARY_PATH=" + dir}), w, w.failed ? 1 : 0);
    } END_CASE }
    if ((int)v.size() < depth) for (int i = 0; i < 8; ++i) { auto u = v; u.push_back(i); rec(u); }
  }; rec({});
}
// any limit up to the work a program does stops it part way, saying so; any greater one does nothing
VF_SECTION(node_limit) {
  auto T = touches(); T.push_back(mk(REP, {mk(IF, {mk(AND, {pat("1*"), mk(NOT, {mk(ROUNDS)})}), pn(4, "+12"), N(), lst({pn(4, "+-"), pn(4, "+14")})})}, "", 6)); T.push_back(lst({mk(IASG, {num(3)}, "n"), mk(REP, {lst({mk(IASG, {mk(ADD, {sym("n"), mk(MUL, {num(2), mk(LENGTH)})})}, "n"), str("${n}"), pn(4, "+-")})}, "", 2)}));
  for (auto &e : T) for (int twice = 0; twice < 2; ++twice) {
    std::string s = "everyrow = \"@\"\nprove " + text(e) + "\n"; if (twice) s += "prove " + text(e) + "\necho \"end\"\n"; auto all = app::run("gsiril", {"-b4", "--print-node-count", "-e", s}); long n = 0; if (sscanf(all.err.c_str(), "Executed %ld nodes", &n) != 1) n = -1;
    World w; w.bells = 4; w.st["everyrow"] = str("@"); w.prove(e); if (twice) { w.prove(e); w.echo(str("end")); }
    CASE("count ", text(e), " ", twice) { check(all, w, w.failed ? 1 : 0, all.err); EXPECT(n > 3, "counted", all.err); } END_CASE
    size_t last = 0; for (long l = 0; l <= n + 3; ++l) CASE("limit ", l, " of ", n, " ", text(e), " ", twice) {
      vf::states(); auto o = app::run("gsiril", {"-b4", "--node-limit=" + std::to_string(l), "-e", s}); bool ok = l == 0 || l > n; vf::outcome(o.out);
      if (ok) check(o, w, w.failed ? 1 : 0); else { EXPECT(o.rc == 2 && !o.err.empty(), "stopped", o.rc, show(o.err)); EXPECT(w.out.compare(0, o.out.size(), o.out) == 0, "prefix", show(o.out)); if (vf::g.only.empty()) EXPECT(o.out.size() >= last, "monotone", l); last = o.out.size(); }
    } END_CASE
  }
  for (auto &t : {"repeat { false: +- }", "repeat(+-.14)", "repeat { 1 == 1: }"}) for (long l : {1, 2, 10, 100, 1000, 10000}) CASE("endless ", t, " ", l) { auto o = app::run("gsiril", {"-b4", "--node-limit=" + std::to_string(l), "-e", std::string("conflict=\n prove ") + t}); EXPECT(o.rc == 2 && !o.err.empty(), "stopped", o.rc); } END_CASE
}
VF_SECTION(prove_one) {
  auto T = touches(); int n = T.size(); for (int k = 0; k <= 3; ++k) { int tot = 1; for (int i = 0; i < k; ++i) tot *= n; for (int c = 0; c < tot; ++c) CASE("touches ", c, "/", k) {
    vf::states(); World w; w.bells = 4; std::string s; int v = c; for (int i = 0; i < k; ++i, v /= n) { s += "prove " + text(T[v % n]) + "\n"; if (!i) w.prove(T[v % n]); } check(app::run("gsiril", {"-b4", "--prove-one", "-e", s}), w, k != 1 ? 2 : w.failed ? 1 : 0); } END_CASE }
}
VF_SECTION(determine_bells) {
  std::vector<std::pair<std::string, int>> ss = {{"4 bells\n", 4}, {"5 bells\n", 5}, {"12 bells\n", 12}, {"prove 'P'\n", 0}, {"prove 'P', \"x\"\n", 0}, {"prove 3 swap(1)\n", 0}, {"echo \"e\"\n", -1}};
  int depth = vf::tier(4, 5); std::function<void(std::vector<int>)> rec = [&](std::vector<int> v) {
    if (!v.empty()) CASE("program ", [&] { std::string s; for (int i : v) s += char('0' + i); return s; }()) {
      vf::states(); std::string s, want; int b = 6; for (int i : v) { std::string t = ss[i].first; size_t p = t.find('P'); if (p != std::string::npos) t.replace(p, 1, "2134"); s += t; if (ss[i].second > 0) b = ss[i].second; if (!ss[i].second) want += std::to_string(b) + " bells\n"; if (ss[i].second < 0) want += "e\n"; }
      auto o = app::run("gsiril", {"-b6", "--determine-bells", "-e", s}); EXPECT(o.out == want && o.rc == 0 && o.err.empty(), "output", show(o.out), " not ", show(want), o.rc, show(o.err)); vf::outcome(o.out); } END_CASE
    if ((int)v.size() < depth) for (size_t i = 0; i < ss.size(); ++i) { auto u = v; u.push_back(i); rec(u); }
  }; rec({});
}
// what is executed, in order, with the row at the time
VF_SECTION(tracing) {
  auto c = base(4, 1, ""); def(c, "a", lst({pn(4, "+-"), sym("b")})); def(c, "b", lst({pn(4, "+14"), str("b#")})); def(c, "e", mk(NOP)); def(c, "everyrow", str("@"));
  std::vector<N> es = flat(grow({sym("a"), sym("b"), sym("e"), pn(4, "+-")}, {[](N x) { return mk(REP, {x}, "", 2); }}, {[](N a, N b) { return mk(LIST, {a, b}); }, [](N a, N b) { return mk(IF, {pat("*4"), a, N(), b}); }}, vf::tier(4, 5))); es.push_back(lst({mk(ASG, {sym("b")}, "a"), sym("a")})); es.push_back(mk(REP, {lst({sym("a")})}, "", 4)); es.push_back(lst({mk(IF, {mk(LIST, {sym("a"), pat("*4")}), sym("b")})}));
  struct F { std::vector<std::string> a; bool all; std::vector<std::string> t; int q; }; std::vector<F> fs = {{{"--trace-all-symbols"}, true, {}, 0}, {{"--trace-symbol=a"}, false, {"a"}, 0}, {{"--trace-symbol=b", "--trace-symbol=e"}, false, {"b", "e"}, 0}, {{"--trace-symbol=rounds"}, false, {"rounds"}, 0}, {{"--trace-symbol=everyrow"}, false, {"everyrow"}, 0}, {{"--trace-symbol=nosuch"}, false, {"nosuch"}, 0}, {{"--trace-symbol=a", "--row-mask=?*4"}, false, {"a"}, 0}, {{"--trace-all-symbols", "--trace-symbol=a"}, true, {"a"}, 0}, {{"--trace-symbol=true", "-q"}, false, {"true"}, 1}, {{"--trace-all-symbols", "-qq"}, true, {}, 2}};
  for (auto &f : fs) for (auto &e : es) CASE(f.a[0], " ", f.a.back(), " ", text(e)) {
    World w(c.w); w.traceall = f.all; w.traces = f.t; w.quiet = f.q; if (f.a.back() == "--row-mask=?*4") w.mask = "?*4"; if (f.all) return; vf::states(); w.prove(e); auto a = f.a; a.push_back("-e"); a.push_back(c.pre + "prove " + text(e)); check(app::run("gsiril", a), w, w.failed ? 1 : 0); } END_CASE
  // with everything traced, what the program itself prints is unchanged, and each line added names a symbol it defines
  for (auto &f : fs) if (f.all) for (auto &e : es) CASE(f.a[0], " ", f.a.back(), " all ", text(e)) {
    vf::states(); World w(c.w), u(c.w); w.traceall = true; w.quiet = u.quiet = f.q; w.prove(e); u.prove(e); auto a = f.a; a.push_back("-e"); a.push_back(c.pre + "prove " + text(e)); auto o = app::run("gsiril", a);
    auto split = [](std::string const &s, bool own) { std::string r; std::istringstream is(s); std::string l; while (std::getline(is, l)) { size_t t = l.find('\t'); if (t == std::string::npos ? own : (l.substr(t + 1).compare(0, 2, "__") != 0) != own) r += l + "\n"; if (t != std::string::npos && own && l.substr(t + 1).compare(0, 2, "__")) r += l + "\n"; } return r; };
    (void)split; auto plain = [](std::string const &s) { std::string r; std::istringstream is(s); std::string l; while (std::getline(is, l)) if (l.find('\t') == std::string::npos) r += l + "\n"; return r; }; auto mine = [](std::string const &s) { std::string r; std::istringstream is(s); std::string l; while (std::getline(is, l)) if (l.find("\t__") == std::string::npos) r += l + "\n"; return r; };
    EXPECT(plain(o.out) == u.out, "untraced", show(o.out), " not ", show(u.out)); EXPECT(mine(o.out) == mine(w.out), "traced", show(o.out), " not ", show(w.out)); EXPECT(o.rc == (w.failed ? 1 : 0) && o.err.empty(), "status", o.rc, show(o.err)); vf::outcome(o.out); } END_CASE
}
// modules: found along the path, give their definitions, and leave everything else as it was
VF_SECTION(modules) {
  std::string d = app::work(), d1 = d + "/m1", d2 = d + "/m2"; mkdir(d1.c_str(), 0700); mkdir(d2.c_str(), 0700);
  app::put("m1/one.gsir", "a = +-\n"); app::put("m2/one.gsir", "a = +12\n"); app::put("m2/two.sir", "import one\nb = +14, \"two\"\n"); app::put("m1/bells.gsir", "6 bells\n5 bells\n4 bells\na = +-\nb = +14\n6 bells\n"); app::put("m1/six.gsir", "6 bells\nc = \"c\"\n"); app::put("m2/plain", "a = +1234\nb = \"plain@\"\n"); app::put("m1/says.gsir", "echo \"says\"\nprove a\n"); app::put("m1/end.gsir", "b = +34\nend\nb = ???\n"); app::put("m2/bad.gsir", "a = +12\nbad bad\n");
  struct M { std::string n; std::function<bool(World &, bool)> f; }; auto sa = [](std::string n, N e) { return [=](World &w) { w.st[n] = e; }; }; N X = pn(4, "+-"), Y = pn(4, "+14"), Z = pn(4, "+12");
  auto one = [=](World &w, bool rev) { w.st["a"] = rev ? Z : X; return true; };
  std::vector<M> ms = {{"one", one}, {"two", [=](World &w, bool rev) { one(w, rev); w.st["b"] = mk(LIST, {Y, str("two")}); return true; }}, {"bells", [=](World &w, bool) { w.st["a"] = X; w.st["b"] = Y; return true; }}, {"six", [=](World &w, bool) { w.st["c"] = str("c"); return true; }}, {"plain", [=](World &w, bool) { w.st["a"] = pn(4, "+1234"); w.st["b"] = str("plain@"); return true; }}, {"says", [=](World &w, bool) { w.echo(str("says")); w.prove(sym("a")); return true; }}, {"end", [=](World &w, bool) { w.st["b"] = pn(4, "+34"); return true; }}, {"bad", [=](World &w, bool) { w.st["a"] = Z; return false; }}, {"absent", [](World &, bool) { return false; }}};
  (void)sa;
  for (int rev = 0; rev < 2; ++rev) for (size_t i = 0; i < ms.size(); ++i) for (size_t j = 0; j <= ms.size(); ++j) for (int form = 0; form < 4; ++form) for (int dis = 0; dis < 2; ++dis) CASE("modules ", ms[i].n, " ", j < ms.size() ? ms[j].n : std::string("-"), " form ", form, " path ", rev, " disabled ", dis) {
    vf::states(); World w; w.bells = 4; w.st["everyrow"] = str("@"); w.st["a"] = pn(4, "+1234"); w.st["b"] = str("b"); std::vector<std::string> a = {"-b4", "-Deveryrow=\"@\"", "-Da=+1234", "-Db=\"b\""}; std::string s; bool ok = true, stmt = false; if (dis) a.push_back("--disable-import");
    std::vector<size_t> k = {i}; if (j < ms.size()) k.push_back(j); int n = 0; for (size_t m : k) { bool opt = form & (1 << n++); std::string nm = ms[m].n; if (opt) { if (n == 2 && !(form & 1)) return; a.push_back("-m" + nm); if (ok) { if (dis && nm == "two") ok = false; else ok = ms[m].f(w, rev); } } else { s += (n == 1 ? "import " + nm : "import \"" + nm + "\"") + "\n"; stmt = true; if (ok) ok = !dis && ms[m].f(w, rev); } }
    (void)stmt; s += "prove a, b, a\n"; if (ok) w.prove(lst({sym("a"), sym("b"), sym("a")})); a.push_back("-e"); a.push_back(s);
    auto o = app::run("gsiril", a, "", 30, {"GSIRIL_LIBRARY_PATH=" + (rev ? d2 + ":" + d1 : d1 + ":" + d2)}); if (!ok) { EXPECT(o.rc == 2 || o.rc == 3 || o.rc == 1, "status", o.rc); EXPECT(!o.err.empty() && o.out == w.out, "refused", show(o.out), show(o.err)); vf::outcome(o.out); } else check(o, w, w.failed ? 1 : 0);
  } END_CASE
}
// a filter passes exactly those methods for which every proof succeeds
VF_SECTION(filter) {
  auto ch = ref::changes(4); std::vector<std::vector<ref::Sw>> meths; for (auto &x : ch) { meths.push_back({x}); for (auto &y : ch) { meths.push_back({x, y}); for (auto &z : ch) meths.push_back({x, y, z}); } } for (auto &x : ch) for (auto &y : ch) for (auto &z : ch) for (auto &l : ch) meths.push_back({x, y, z, l});
  auto pnof = [](std::vector<ref::Sw> const &m, int style) { std::string s = style == 1 ? "+" : ""; for (size_t i = 0; i < m.size(); ++i) { std::string x = ref::pn(m[i]); if (x == "X") x = style == 2 ? "-" : "x"; else if (i && isdigit((unsigned char)s.back())) s += "."; s += x; } return s; };
  auto text_of = [](std::vector<ref::Sw> const &m) { std::vector<P> v; for (auto &x : m) v.push_back(ref::sw_perm(x)); auto n = std::make_shared<Node>(); n->k = PN; n->pn = v; n->s = "?"; return N(n); };
  struct G { std::vector<std::string> a; std::string prog; std::function<void(World &)> f; bool whole; std::string ms, lhs; }; auto pv = [](N e) { return [e](World &w) { w.prove(e); }; };
  std::vector<G> gs = {{{}, "prove 3(m, lh)", pv(mk(REP, {lst({sym("m"), sym("lh")})}, "", 3)), false, "m", "lh"}, {{}, "prove 2(m,lh)\nprove m, lh, lh", [](World &w) { w.prove(mk(REP, {lst({sym("m"), sym("lh")})}, "", 2)); w.prove(lst({sym("m"), sym("lh"), sym("lh")})); }, false, "m", "lh"}, {{"--lead-includes-lh"}, "prove 2 m, lh", pv(lst({mk(REP, {sym("m")}, "", 2), sym("lh")})), true, "m", "lh"}, {{"--lead-symbol=q", "--lh-symbol=e"}, "prove 4(q,e)", pv(mk(REP, {lst({sym("q"), sym("e")})}, "", 4)), false, "q", "e"}, {{"-n2"}, "8 to 16 rows\neveryrow=\"never\"\nprove 4(m, lh), \"said\"", [](World &w) { w.extents = 2; w.length(8, 16); w.prove(mk(REP, {lst({sym("m"), sym("lh")})}, "", 4)); }, false, "m", "lh"}, {{"--payload-symbol=p"}, "prove 2(m,lh), {p == \"keep\": ; +-}", [](World &w) { w.prove(lst({mk(REP, {lst({sym("m"), sym("lh")})}, "", 2), mk(IF, {mk(EQ, {sym("p"), str("keep")}), mk(NOP), N(), pn(4, "+-")})})); }, false, "m", "lh"}, {{}, "echo \"<m>\"\nprove 6(m,lh)", [](World &w) { w.echo(str("<m>")); w.prove(mk(REP, {lst({sym("m"), sym("lh")})}, "", 6)); }, false, "m", "lh"}};
  size_t per = 25; for (size_t g = 0; g < gs.size(); ++g) for (size_t b = 0; b < meths.size(); b += per) for (int st = 0; st < 3; ++st) { if (!vf::g.thorough && (b / per + g + st) % 3) continue; CASE("filter ", g, " from ", b, " style ", st) {
    std::string in = st == 1 ? "\xEF\xBB\xBF" : "", pay[] = {"", "keep", "a  b", " keep "}; std::vector<std::pair<std::vector<ref::Sw>, std::string>> want; std::vector<std::string> pre; std::string echoes;
    for (size_t i = b; i < std::min(meths.size(), b + per); ++i) {
      vf::states(); std::string p = pay[(i + st) % 4]; in += (st == 2 ? "  " : "") + pnof(meths[i], st) + (p.empty() ? "" : (st ? "\t" : " ") + p) + (st == 2 ? " \n\n" : "\n"); p.erase(0, p.find_first_not_of(' ') == std::string::npos ? p.size() : p.find_first_not_of(' ')); while (!p.empty() && p.back() == ' ') p.pop_back();
      World w; w.bells = 4; w.filter = true; auto m = meths[i]; std::vector<ref::Sw> l = {m.back()}; if (!gs[g].whole) m.pop_back(); w.st[gs[g].ms] = text_of(m); w.st[gs[g].lhs] = text_of(l); w.st["p"] = str(p); gs[g].f(w); pre.push_back(w.out); if (!w.failed) want.push_back({meths[i], p}); else if (!w.out.empty()) want.push_back({{}, w.out}); if (!w.failed && !w.out.empty()) want.insert(want.end() - 1, {{}, w.out});
    }
    std::vector<std::string> a = {"--filter", "-b4"}; a.insert(a.end(), gs[g].a.begin(), gs[g].a.end()); a.push_back("-e"); a.push_back(gs[g].prog); auto o = app::run("gsiril", a, in); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, show(o.err));
    std::istringstream is(o.out); std::string l; size_t k = 0; for (; std::getline(is, l); ++k) { if (k >= want.size()) break; if (want[k].first.empty()) { EXPECT(l + "\n" == want[k].second, "echo", l); continue; } size_t t = l.find('\t'); std::vector<ref::Sw> got; bool ok = t != std::string::npos && ref::parse_pn(4, l.substr(0, t), got) && got == want[k].first; EXPECT(ok, "method", show(l), " not ", pnof(want[k].first, 0)); EXPECT(t != std::string::npos && l.substr(t + 1) == want[k].second, "payload", show(l), " not ", show(want[k].second)); if (!ok) return; }
    EXPECT(k == want.size() && is.eof(), "passed", k, " of ", want.size(), " ", show(o.out)); vf::outcome(o.out);
  } END_CASE }
}
// methods taken from a library
VF_SECTION(libraries) {
  std::string fn = app::put("min4.txt", "* 4\nPlain a &-14-14\nDouble a &-14-34\nPlain z +-.14\nOther a1 &-14.34\n"); auto leadend = [](std::string s) { return pn(4, s); };
  struct M { std::string title, lead, whole, lh, name; }; std::vector<M> ms = {{"Plain Bob Minimus", "+-14-14-14-", "+-14-14-14-12", "+12", "Plain"}, {"Double Bob Minimus", "+-14-34-14-", "+-14-34-14-12", "+12", "Double"}, {"Plain Minimus", "+-", "+-14", "+14", "Plain"}}; (void)leadend;
  std::vector<std::pair<std::string, std::vector<std::string>>> sf = {{"", {""}}, {"method_suffixes = \"Bob Minimus\"\n", {"Bob Minimus"}}, {"method_suffixes = \"Minimus:Bob Minimus\"\n", {"Minimus", "Bob Minimus"}}, {"method_suffixes = \"Bob Minimus:Minimus\"\n", {"Bob Minimus", "Minimus"}}, {"method_suffixes = \":Minimus\"\n", {"", "Minimus"}}, {"method_suffixes = \"Surprise Minimus:Minimus:Bob Minimus\"\n", {"Surprise Minimus", "Minimus", "Bob Minimus"}}};
  std::vector<std::string> qs = {"Plain", "Double", "Plain Bob", "Plain Bob Minimus", "Plain Minimus", "Double Bob Minimus", "Double Minimus", "Bob", "", "Missing"};
  for (auto &f : sf) for (auto &q : qs) for (int fun = 0; fun < 3; ++fun) for (int use = 0; use < 3; ++use) for (int env = 0; env < 3; ++env) CASE("suffixes ", vf::quote(f.first), " load ", vf::quote(q), " ", fun, use, env) {
    vf::states(); M const *m = 0; for (auto &s : f.second) { std::string t = s.empty() ? q : q + " " + s; for (auto &x : ms) if (!m && x.title == t) m = &x; }
    char const *fs[] = {"load", "loadm", "loadlh"}; std::string e = std::string(fs[fun]) + "(\"" + q + "\")", s = f.first + "everyrow = \"@\"\n"; World w; w.bells = 4; w.st["everyrow"] = str("@"); N body = m ? pn(4, fun == 0 ? m->whole : fun == 1 ? m->lead : m->lh) : N();
    if (use == 0) { s += "prove " + e + ", +1234\n"; if (m) w.prove(mk(LIST, {body, pn(4, "+1234")})); } else if (use == 1) { s += "x := " + e + "\nprove ~(x, 2 x)\n"; if (m) w.prove(mk(REV, {lst({body, mk(REP, {body}, "", 2)})})); } else { s += "x := " + e + "\ny := methname(x) . \"!\"\necho \"${y}\"\n"; if (m) w.echo(str(fun == 2 ? "!" : m->name + "!")); }
    if (use == 2 && fun == 2) return; // a lead end has no name
    std::vector<std::string> a = {"-b4"}; if (env == 0) a.push_back("-L" + fn); else if (env == 1) a.push_back("--library=" + fn); a.push_back("-e"); a.push_back(s); std::vector<std::string> ev; if (env == 2) ev.push_back("METHOD_LIBRARY=" + fn);
    auto o = app::run("gsiril", a, "", 30, ev); if (m) check(o, w, w.failed ? 1 : 0); else { EXPECT(o.rc == 2 && !o.err.empty() && o.out.empty(), "absent", o.rc, show(o.out)); }
  } END_CASE
  for (auto &e : {"load(\"Plain Bob Minimus\")", "loadm(\"x\")"}) CASE("no library ", e) { auto o = app::run("gsiril", {"-b4", "-e", std::string("prove ") + e}); EXPECT(o.rc == 2 && o.out.empty() && !o.err.empty(), "refused", o.rc, show(o.out)); } END_CASE
}
VF_SECTION(module_bells) { // a module may choose the number of bells only if nobody has
  app::put("six.gsir", "6 bells\n"); app::put("five.gsir", "5 bells\nk = \"k\"\n"); app::put("none.gsir", "k = \"n\"\n"); app::put("deep.gsir", "import five\n6 bells\nx := bells\necho \"deep ${x}\"\n");
  std::vector<std::pair<std::string, int>> ms = {{"six", 6}, {"five", 5}, {"none", 0}, {"deep", 5}};
  for (int b : {0, 4, 7}) for (int opt = 0; opt < 2; ++opt) for (int k = 1; k <= 3; ++k) for (int c = 0; c < 64; ++c) { if (c >> (2 * k)) continue; for (int forms = 0; forms < (1 << k); ++forms) CASE("bells ", b, opt ? " option" : " statement", " modules ", c, "/", k, " as ", forms) {
    if (opt && !b) return; vf::states(); int cur = 0; std::string s, want; std::vector<std::string> a; if (b && opt) { a.push_back("-b" + std::to_string(b)); cur = b; }
    auto imp = [&](int i) { auto &m = ms[i]; if (i == 3) { int in = cur ? cur : 5; (void)in; want += "deep 6\n"; if (!cur) cur = 6; } else if (!cur) cur = m.second; }; int v = c; bool later = false; for (int i = 0; i < k; ++i, v >>= 2) { if (forms >> i & 1) { if (later) return; a.push_back("-m" + ms[v & 3].first); imp(v & 3); } else { if (!later && b && !opt) { s += std::to_string(b) + " bells\n"; cur = b; } later = true; s += "import " + ms[v & 3].first + "\n"; imp(v & 3); } }
    if (!later && b && !opt) { s += std::to_string(b) + " bells\n"; cur = b; } if (!cur) return; s += "n := bells\necho \"${n}\"\nprove swap(1)\n"; want += std::to_string(cur) + "\n1 rows ending in " + ref::str(ref::ext(prow("21"), cur)) + "\nIs this OK?\n"; a.push_back("-e"); a.push_back(s);
    auto o = app::run("gsiril", a, "", 30, {"GSIRIL_LIBRARY_PATH=/nowhere:" + app::work()}); EXPECT(o.out == want && o.rc == 1 && o.err.empty(), "output", o.rc, show(o.out), " not ", show(want), show(o.err)); vf::outcome(o.out);
  } END_CASE }
}
VF_SECTION(cases) { // -I treats symbols and keywords alike in either case
  std::vector<std::string> nm = {"ab", "AB", "aB"}; int depth = vf::tier(3, 4); std::vector<std::pair<int, int>> st; for (int i = 0; i < 3; ++i) { st.push_back({0, i}); st.push_back({1, i}); st.push_back({2, i}); }
  std::function<void(std::vector<int>)> rec = [&](std::vector<int> v) {
    if (!v.empty()) for (int ins = 0; ins < 2; ++ins) for (int kw = 0; kw < 2; ++kw) CASE("case ", [&] { std::string s; for (int i : v) s += char('0' + i); return s; }(), ins ? " insensitive" : "", " ", kw) {
      if (kw && !ins) return; vf::states(); World w; w.bells = 4; w.st["everyrow"] = str("@"); std::string s = std::string(kw ? "EVERYROW" : "everyrow") + " = \"@\"\n"; bool ok = true;
      for (int i : v) { std::string n = nm[st[i].second], key = ins ? "ab" : n; if (st[i].first == 0) { s += n + " = +-\n"; if (ok) w.st[key] = pn(4, "+-"); } else if (st[i].first == 1) { s += n + " := \"s\"\n"; if (ok) w.st[key] = str("s"); } else { s += std::string(kw ? "PROVE " : "prove ") + n + ", +14\n"; if (ok) try { w.prove(lst({sym(key), pn(4, "+14")})); } catch (Err const &) { ok = false; } } }
      std::vector<std::string> a = {"-b4"}; if (ins) a.push_back("-I"); a.push_back("-e"); a.push_back(s); check(app::run("gsiril", a), w, !ok ? 2 : w.failed ? 1 : 0);
    } END_CASE
    if ((int)v.size() < depth) for (size_t i = 0; i < st.size(); ++i) { auto u = v; u.push_back(i); rec(u); }
  }; rec({});
}
VF_SECTION(string_options) { // -S gives a symbol its text just as it stands
  std::string sig = "@#$\\n\"'{}a="; std::vector<std::string> cur = {""}; for (int k = 0; k <= vf::tier(2, 3); ++k) { for (auto &s : cur) for (int use = 0; use < 2; ++use) CASE("-S ", s, " use ", use) { vf::states(); auto o = app::run("gsiril", {"-b4", "-Ss=" + s, "-e", use ? "prove {s == s: \"same\"}" : "v := s . \"\"\necho \"x\""}); EXPECT(o.rc == (use ? 0 : 0), "accepted", o.rc, show(o.err)); } END_CASE std::vector<std::string> nx; for (auto &s : cur) for (char c : sig) nx.push_back(s + c); cur = nx; }
}
