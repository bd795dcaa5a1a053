// P19: expressions and statements of the touch language mean what its guide says.
#include "gsrun.h"
using namespace gs;
typedef std::function<N(N)> U; typedef std::function<N(N, N)> B;
static N lst(std::vector<N> v) { N r = v.back(); for (size_t i = v.size() - 1; i-- > 0;) r = mk(LIST, {v[i], r}); return r; }
static N call(std::string f, std::vector<N> a = {}) { return mk(CALL, a, f); }
static N yesno(N c) { return mk(IF, {c, str("y"), N(), str("n")}); }
// ---- arithmetic ---------------------------------------------------------------
static void arith(int part, int parts, int full) {
  auto c = base(5, 1, ""); def(c, "k", num(4)); def(c, "z", mk(SUB, {num(1), num(8)}));
  std::vector<B> bi; for (K k : {ADD, SUB, MUL, DIV, MOD}) bi.push_back([k](N a, N b) { return mk(k, {a, b}); });
  auto all = flat(grow({num(0), num(2), num(3), sym("z"), mk(BELLS)}, {}, bi, vf::tier(5, 5))); std::vector<N> big, mine;
  if (vf::g.thorough) { auto x = flat(grow({num(2), num(3), sym("z"), sym("k")}, {}, bi, 7)); all.insert(all.end(), x.begin(), x.end()); } else { auto x = flat(grow({num(7), sym("z")}, {}, bi, 7)); all.insert(all.end(), x.begin(), x.end()); }
  { auto x = flat(grow({num(2), sym("z"), lst({mk(IASG, {num(9)}, "k"), num(5)}), lst({mk(IASG, {num(6)}, "k"), sym("k")}), sym("k")}, {}, bi, 5)); all.insert(all.end(), x.begin(), x.end()); }
  for (size_t i = 0; i < all.size(); ++i) if ((int)(i % parts) == part) mine.push_back(all[i]);
  plans("arith", {}, c.pre, c.w, mine, true, full, 60);
}
VF_SECTION(arith_a) { arith(0, 3, 0); }
VF_SECTION(arith_b) { arith(1, 3, 0); }
VF_SECTION(arith_c) { arith(2, 3, 0); }
VF_SECTION(arith_brackets) { arith(1, 2, 1); }
VF_SECTION(counting) { // ++ and -- give the new value and change only what the running touch sees
  auto c = base(4, 1, ""); c.pre += "n := 3\n"; c.w.st["n"] = num(3); std::vector<N> es;
  std::vector<B> bi; for (K k : {ADD, SUB, MUL}) bi.push_back([k](N a, N b) { return mk(k, {a, b}); });
  for (auto &e : flat(grow({mk(INC, {}, "n"), mk(DEC, {}, "n"), sym("n"), num(2)}, {}, bi, vf::tier(7, 9)))) es.push_back(lst({mk(IASG, {e}, "v"), str("${v} ${n}")}));
  plans("count", {}, c.pre, c.w, es);
}
// ---- truth --------------------------------------------------------------------
VF_SECTION(logic) {
  for (auto &r : {"1234", "2341", "1324"}) {
    auto c = base(4, 1, ""); c.w.rounds = prow(r); c.pre += std::string("rounds '") + r + "'\n"; def(c, "t", boolean(true)); std::vector<N> es;
    std::vector<B> bi = {[](N a, N b) { return mk(AND, {a, b}); }, [](N a, N b) { return mk(OR, {a, b}); }};
    for (auto &e : flat(grow({boolean(false), sym("t"), pat("1*"), lst({mk(ECHO, {}, "E"), boolean(true)}), lst({mk(ECHO, {}, "F"), boolean(false)})}, {[](N a) { return mk(NOT, {a}); }}, bi, vf::tier(5, 6)))) es.push_back(yesno(e));
    plans(std::string("logic at ") + r, {}, c.pre, c.w, es);
  }
}
VF_SECTION(logic_brackets) {
  auto c = base(4, 1, ""); std::vector<N> es; std::vector<B> bi = {[](N a, N b) { return mk(AND, {a, b}); }, [](N a, N b) { return mk(OR, {a, b}); }};
  for (int full = 0; full < 2; ++full) { es.clear(); for (auto &e : flat(grow({boolean(true), boolean(false)}, {[](N a) { return mk(NOT, {a}); }}, bi, vf::tier(7, 8)))) es.push_back(yesno(e)); plans(full ? "bracketed" : "plain", {}, c.pre, c.w, es, false, full); }
}
VF_SECTION(comparison) {
  auto c = base(4, 1, ""); def(c, "ten", num(10)); def(c, "s", str("10")); def(c, "row", str("@")); std::vector<N> es;
  std::vector<N> v = {num(0), num(1), num(2), num(11), sym("ten"), mk(SUB, {num(1), num(2)}), mk(BELLS), mk(LENGTH), str(""), str("1"), str("01"), str("2"), str("a"), str("ab"), str("b"), sym("s"), sym("row"), mk(CAT, {str("1"), num(0)}), boolean(true), boolean(false), mk(ROUNDS), mk(EQ, {num(1), num(1)}), call("at", {num(1)}), call("rowno")};
  for (auto &a : v) for (auto &b : v) for (K k : {EQ, NE, GT, LT, GE, LE}) { N e = mk(k, {a, b}); es.push_back(yesno(e)); es.push_back(yesno(mk(OR, {boolean(false), mk(NOT, {e})}))); }
  plans("compare", {}, c.pre, c.w, es, false, 0, 400);
  es.clear(); for (L a = 0; a < 13; ++a) for (L b = 0; b < 13; ++b) for (K k : {EQ, NE, GT, LT, GE, LE}) for (int f = 0; f < 4; ++f) { N x = num(a * 7 % 13), y = num(b); if (f & 1) x = mk(SUB, {x, num(6)}); if (f & 2) y = mk(SUB, {y, num(6)}); es.push_back(yesno(mk(k, {x, y}))); }
  plans("numbers", {}, c.pre, c.w, es);
}
// ---- text ---------------------------------------------------------------------
VF_SECTION(joining) {
  auto c = base(4, 1, ""); c.w.rounds = prow("2143"); c.pre += "rounds '2143'\n"; def(c, "s", str("<@#>")); def(c, "u", mk(CAT, {sym("s"), str("u")})); std::vector<N> es;
  for (auto &e : flat(grow({str(""), str("a"), str("@ "), str("#$"), num(7), sym("s"), sym("u"), mk(ADD, {num(1), num(2)}), mk(BELLS)}, {}, {[](N a, N b) { return mk(CAT, {a, b}); }}, vf::tier(5, 7)))) { es.push_back(e); }
  plans("join", {}, c.pre, c.w, es, true);
  es.clear(); for (auto &e : flat(grow({str("a"), str("@ "), num(7), sym("u")}, {}, {[](N a, N b) { return mk(CAT, {a, b}); }}, 5))) es.push_back(lst({pn(4, "+14"), mk(IASG, {e}, "v"), pn(4, "+-"), mk(AASG, {e}, "v"), str("${v}!")}));
  plans("join while ringing", {}, c.pre, c.w, es);
}
static void escapes(std::string sigma, int n, bool echo, std::string lead = "", std::string tail = "") {
  auto c = base(4, 1, ""); c.w.rounds = prow("2143"); c.pre += "rounds '2143'\n"; def(c, "v", str("V@")); def(c, "w", num(12)); std::vector<N> es; std::vector<std::string> cur = {""};
  for (int k = 0; k <= n; ++k) { for (auto &s : cur) es.push_back(str(lead + s + tail)); std::vector<std::string> nx; for (auto &s : cur) for (char x : sigma) nx.push_back(s + x); cur = nx; }
  if (!echo) for (auto &e : es) e = lst({pn(4, "+-"), e, str("|")});
  plans(echo ? "echo" : "ring", {}, c.pre, c.w, es, echo, 0, 400);
}
VF_SECTION(escapes_echo) { escapes("\\n't@#$ax4", vf::tier(5, 5), true); }
VF_SECTION(escapes_ring) { escapes("\\n't@#$ax4", vf::tier(5, 5), false); }
VF_SECTION(escapes_hex) { for (bool e : {true, false}) { escapes("04aFg\\@", 4, e, "\\x", "1"); escapes("03bEx", vf::tier(4, 5), e, "\\u", "1"); escapes("078f", 4, e, "\\u", "1"); escapes("03bE", vf::tier(2, 4), e, "\\U0000", "2a"); escapes("012d", vf::tier(2, 4), e, "\\U000", "03f"); } }
VF_SECTION(variables) { escapes("${}vw", vf::tier(6, 7), true); escapes("${}vw", 4, false, "", "$"); }
// ---- functions ----------------------------------------------------------------
VF_SECTION(functions) {
  for (int n = 3; n <= vf::tier(5, 6); ++n) {
    auto c = base(n, 1, ""); std::vector<N> es;
    for (auto &r : ref::perms(n)) {
      auto show = [&](N e) { es.push_back(lst({tr(r), mk(IASG, {e}, "v"), str("${v}")})); };
      for (int i = 1; i <= n; ++i) { show(call("at", {num(i)})); show(call("pos", {num(i)})); for (int j = 1; j <= n; ++j) if (i != j) es.push_back(lst({tr(r), call("swap", {num(i), num(j)}), str("@")})); if (i < n) es.push_back(lst({tr(r), call("swap", {num(i)}), str("@")})); show(call("at", {call("pos", {num(i)})})); show(mk(ADD, {call("at", {num(i)}), mk(MUL, {num(10), call("pos", {num(n)})})})); }
    }
    for (int i = 0; i <= n + 1; ++i) for (int j = 0; j <= n + 1; ++j) if (i < 1 || j < 1 || i > n || j > n || i == j) es.push_back(lst({call("swap", {num(i), num(j)}), str("@")}));
    for (auto &f : {"at", "swap", "pos", "rowno"}) for (int k = 0; k < 4; ++k) es.push_back(lst({mk(IASG, {call(f, std::vector<N>(k, num(2)))}, "v"), str("v")}));
    es.push_back(lst({call("swap", {num(n)}), str("@")})); for (L i : {0, n + 1, 100}) es.push_back(lst({mk(IASG, {call("at", {num(i)})}, "v"), str("${v}")}));
    for (int k = 0; k < 6; ++k) { std::vector<N> v; for (int i = 0; i < k; ++i) v.push_back(pn(n, n % 2 ? "+3" : "+-")); v.push_back(lst({mk(IASG, {call("rowno")}, "v"), str("${v}")})); es.push_back(lst(v)); }
    plans(vf::cat("functions on ", n), {}, c.pre, c.w, es);
  }
  auto c = base(4, 1, ""); std::vector<N> es; for (int k = 0; k <= 18; ++k) es.push_back(lst({mk(IASG, {call("stagename", {num(k)})}, "v"), str("${v}")})); plans("stages", {}, c.pre, c.w, es);
}
VF_SECTION(notation_text) {
  for (int n : {3, 4, 5, 6}) {
    auto c = base(n, 1, ""); auto ch = ref::changes(n); std::vector<N> es; std::vector<N> one; for (auto &x : ch) one.push_back(pn(n, "+" + ref::pn(x)));
    def(c, "m", one[1]); def(c, "l", lst({one[0], one[1]})); std::vector<N> at = one; if (at.size() > 6) at.resize(6); at.push_back(sym("m")); at.push_back(sym("l")); at.push_back(mk(REV, {sym("l")})); at.push_back(mk(REP, {sym("l")}, "", 2)); at.push_back(mk(MERGE, {sym("l"), one[2]}));
    for (auto &a : one) es.push_back(lst({mk(IASG, {call("pnstr", {a})}, "v"), str("${v}")}));
    for (auto &a : at) for (auto &b : at) { es.push_back(lst({mk(IASG, {call("pnstr", {a, b})}, "v"), str("${v}")})); for (auto &d : at) { es.push_back(lst({mk(IASG, {call("pnstr", {a, b, d})}, "v"), str("${v}")})); if (n < 5) es.push_back(lst({mk(IASG, {call("pnstr", {mk(LIST, {a, mk(REV, {mk(LIST, {b, d})})})})}, "v"), str("${v}")})); } }
    es.push_back(lst({mk(IASG, {call("pnstr", {str("x")})}, "v"), str("${v}")})); plans(vf::cat("pnstr on ", n), {}, c.pre, c.w, es);
  }
}
// ---- patterns -----------------------------------------------------------------
static std::vector<std::string> patterns(std::vector<std::string> const &sy, int n, int stars) {
  std::vector<std::string> out, cur = {""}; for (int k = 1; k <= n; ++k) { std::vector<std::string> nx; for (auto &p : cur) for (auto &s : sy) { if (s == "*" && (std::count(p.begin(), p.end(), '*') >= stars || (!p.empty() && p.back() == '*'))) continue; if (isdigit((unsigned char)s[0]) && p.find(s) != std::string::npos) continue; nx.push_back(p + s); } out.insert(out.end(), nx.begin(), nx.end()); cur = nx; } return out;
}
// a pattern which no row at all matches may be refused when it is read
static bool sane(std::string const &p, int n) { for (auto &r : ref::perms(n)) if (glob(p, 0, r, 0, 0)) return true; return false; }
static N extent4(N t) { N a = lst({t, pn(4, "+-"), t, pn(4, "+14")}); return mk(REP, {lst({mk(REP, {a}, "", 3), t, pn(4, "+-"), t, pn(4, "+12")})}, "", 3); }
static N extent3(N t) { return mk(REP, {lst({t, pn(3, "+3"), t, pn(3, "+1")})}, "", 3); }
VF_SECTION(pattern4) { auto c = base(4, 1, ""); std::vector<N> es; for (auto &p : patterns({"1", "3", "4", "?", "*", "[12]", "[134]"}, vf::tier(4, 5), 2)) if (sane(p, 4)) es.push_back(extent4(mk(IF, {pat(p), str("@")}))); plans("pattern", {}, c.pre, c.w, es); }
VF_SECTION(pattern3) { auto c = base(3, 1, ""); std::vector<N> es; for (auto &p : patterns({"1", "2", "3", "?", "*", "[12]", "[23]"}, vf::tier(5, 6), 3)) if (sane(p, 3)) es.push_back(extent3(mk(IF, {pat(p), str("@")}))); plans("pattern", {}, c.pre, c.w, es); }
VF_SECTION(runs) {
  auto c = base(4, 1, ""); std::vector<N> es; for (auto &f : {"runs", "frontruns", "backruns"}) { es.push_back(extent4(mk(IF, {call(f), str("@")}))); for (int l = 1; l <= 4; ++l) { es.push_back(extent4(mk(IF, {call(f, {num(l)}), str("@")}))); for (int d = -1; d <= 1; ++d) es.push_back(extent4(mk(IF, {call(f, {num(l), d < 0 ? mk(SUB, {num(0), num(1)}) : num(d)}), str("@")}))); } }
  plans("runs", {}, c.pre, c.w, es);
}
VF_SECTION(row_mask) {
  for (auto &p : patterns({"1", "4", "?", "*", "[12]", "[24]"}, 4, 1)) {
    if (!sane(p, 4)) continue;
    for (int f = 0; f < 2; ++f) { auto c = base(4, 1, ""); c.w.mask = p; std::vector<std::string> a; if (f) { a = {"-b4", "--row-mask=" + p}; c.pre = "1 extents\n"; } else c.pre += "row_mask /" + p + "/\n";
      plans(std::string(f ? "option " : "statement ") + p, a, c.pre, c.w, {extent4(str("@")), extent4(str("(@)\\")), extent4(lst({mk(IASG, {str("@#")}, "v"), str("${v}")}))}); }
  }
}
// ---- replacing changes --------------------------------------------------------
VF_SECTION(merge) {
  auto c = base(4, 1, "@"); std::vector<std::string> ch = {"-", "14", "12", "34", "1234"}; std::vector<N> es, bs, rs; std::vector<std::string> cur = {""};
  for (int k = 1; k <= vf::tier(4, 5); ++k) { std::string s = "+"; for (int i = 0; i < k; ++i) { std::string x = ch[(i * 2 + k) % 4]; if (isdigit((unsigned char)s.back()) && x != "-") s += "."; s += x; } bs.push_back(pn(4, s)); } bs.push_back(pn(4, "&-.14"));
  for (auto &x : ch) { rs.push_back(pn(4, "+" + x)); for (auto &y : ch) rs.push_back(pn(4, "+" + x + (x == "-" || y == "-" ? "" : ".") + y)); }
  rs.push_back(pn(4, "&-.14")); rs.push_back(pn(4, "&-.14.12")); def(c, "m", bs[2]); def(c, "r", rs[1]); def(c, "q", mk(SHR, {rs[1], num(2)})); bs.push_back(sym("m")); bs.push_back(lst({sym("m"), sym("m")})); rs.push_back(sym("r")); rs.push_back(sym("q"));
  for (auto &b : bs) for (auto &r : rs) { es.push_back(mk(MERGE, {b, r})); es.push_back(mk(REV, {mk(MERGE, {b, r})})); es.push_back(mk(REP, {mk(MERGE, {b, r})}, "", 2)); es.push_back(mk(LIST, {mk(ASG, {mk(MERGE, {b, r})}, "z"), sym("z")})); es.push_back(mk(LIST, {mk(IASG, {mk(MERGE, {b, r})}, "z"), mk(REV, {sym("z")})})); if (r->k != SYM) for (int k = 0; k <= 7; ++k) { es.push_back(mk(MERGE, {b, mk(SHL, {r, num(k)})})); es.push_back(mk(MERGE, {b, mk(SHR, {r, num(k)})})); } }
  plans("merge", {}, c.pre, c.w, es, false, 0, 500);
}

// ---- statements ---------------------------------------------------------------
// Programs made of statements in every order, nested in conditions and loops.
struct St { std::string t; std::function<void(World &)> f; };
static St seq(std::vector<St> v) { std::string t; for (auto &s : v) t += s.t + "\n"; if (!t.empty()) t.pop_back(); return {t, [v](World &w) { for (auto &s : v) s.f(w); }}; }
static bool truth(World &w, N c) { Ctx x(w); return x.evalB(c); }
static St ifs(std::vector<std::pair<N, St>> v) {
  std::string t; for (size_t i = 0; i < v.size(); ++i) { t += i == 0 ? "if " + text(v[i].first) : v[i].first ? "elseif " + text(v[i].first) : std::string("else"); t += "\n" + (v[i].second.t.empty() ? "" : v[i].second.t + "\n"); } t += "endif";
  return {t, [v](World &w) { for (auto &x : v) if (!x.first || truth(w, x.first)) { x.second.f(w); return; } }};
}
static St each(std::vector<N> v, std::string name, St b) { std::string t = "foreach ["; for (size_t i = 0; i < v.size(); ++i) t += (i ? ", " : "") + text(v[i]); t += "] as " + name + "\n" + b.t + "\nendfor"; return {t, [=](World &w) { for (auto &e : v) { w.st[name] = e; b.f(w); } }}; }
static St echo(N e) { return {"echo " + text(e), [e](World &w) { w.echo(e); }}; }
static St setq(std::string n, N e) { return {n + " = " + text(e), [=](World &w) { w.st[n] = e; }}; }
static St imm(std::string n, N e) { return {n + " := " + text(e), [=](World &w) { Ctx c(w); w.st[n] = c.eval(e); }}; }
static St pr(N e) { return {"prove " + text(e), [=](World &w) { w.prove(e); }}; }
static void program(std::string tag, St const &s) {
  CASE(tag, " ", s.t) {
    vf::states(); World w; w.bells = 4; w.st["everyrow"] = str("@"); w.st["n"] = num(0); bool err = false; try { s.f(w); } catch (Err const &e) { if (e.what == "skip") return; err = true; }
    auto o = app::run("gsiril", {"-f", app::put("s.sir", "4 bells\neveryrow = \"@\"\nn := 0\n" + s.t + "\n")}); vf::outcome(o.out); EXPECT(o.out == w.out, "output", show(o.out), " not ", show(w.out), " ", show(o.err)); EXPECT(o.rc == (err ? 2 : w.failed ? 1 : 0), "status", o.rc, " ", show(o.err)); EXPECT(o.err.empty() == !err, "errors", show(o.err));
  } END_CASE
}
static std::vector<St> simple() { return {echo(str("${n}")), imm("n", mk(ADD, {sym("n"), num(1)})), setq("n", mk(SUB, {num(5), mk(BELLS)})), pr(mk(REP, {pn(4, "+-")}, "", 2)), {"5 bells", [](World &w) { w.bells = 5; }}, {"2 extents", [](World &w) { w.extents = 2; }}}; }
VF_SECTION(if_statements) {
  auto S = simple(); std::vector<N> cs = {mk(EQ, {sym("n"), num(0)}), mk(GT, {sym("n"), num(1)}), boolean(true), boolean(false), mk(DEFINED, {}, "m")};
  for (int pre = 0; pre < 3; ++pre) for (auto &a : cs) for (size_t x = 0; x < S.size(); ++x) for (int form = 0; form < 4; ++form) for (auto &b : cs) { if (form < 2 && &b != &cs[0]) continue;
    for (size_t y = 0; y < S.size(); ++y) { if (!form && y) continue; if (form == 3 && y > 3) continue;
      std::vector<std::pair<N, St>> v = {{a, S[x]}}; if (form == 1) v.push_back({N(), S[y]}); if (form >= 2) v.push_back({b, S[y]}); if (form == 3) v.push_back({N(), seq({S[0], S[(x + y) % 4]})});
      program("if", seq({pre ? imm("n", num(pre)) : seq({}), ifs(v), echo(str("${n}.")), pr(mk(REP, {pn(4, "+-")}, "", 4))})); } }
}
VF_SECTION(nested) {
  auto S = simple(); std::vector<N> cs = {mk(EQ, {sym("n"), num(1)}), boolean(false), mk(LT, {sym("v"), num(2)})};
  for (auto &a : cs) for (auto &b : cs) for (size_t x = 0; x < 4; ++x) for (size_t y = 0; y < 4; ++y) for (int form = 0; form < 4; ++form) {
    St in = ifs({{b, S[x]}, {N(), S[y]}}), t;
    if (form == 0) t = ifs({{a, in}, {N(), S[y]}}); else if (form == 1) t = ifs({{a, seq({S[x], S[y]})}, {N(), seq({in, S[0]})}}); else if (form == 2) t = each({num(1), num(2)}, "v", seq({in, ifs({{a, S[y]}})})); else t = ifs({{a, each({num(1), num(3)}, "v", in)}, {N(), each({num(2)}, "v", seq({echo(str("${v}")), S[x]}))}});
    program("nest", seq({imm("v", num(1)), t, echo(str("${n} ${v}"))}));
  }
}
VF_SECTION(foreach_statements) {
  std::vector<N> v = {num(1), str("s@"), mk(ADD, {num(2), sym("n")}), sym("n")}; auto S = simple();
  for (size_t k = 0; k <= 3; ++k) { std::vector<std::vector<N>> ls = {{}}; for (size_t i = 0; i < k; ++i) { std::vector<std::vector<N>> nx; for (auto &l : ls) for (auto &e : v) { auto m = l; m.push_back(e); nx.push_back(m); } ls = nx; }
    for (auto &l : ls) for (size_t x = 0; x < S.size(); ++x) { if (l.empty()) continue; program("foreach", seq({each(l, "y", seq({echo(str("${y},")), S[x]})), echo(str("${y} ${n}"))})); } }
  program("touches", each({pn(4, "&-.14"), pn(4, "+-"), mk(REP, {pn(4, "&-.12")}, "", 2)}, "y", seq({pr(sym("y")), pr(mk(REP, {sym("y")}, "", 2))})));
  program("inner", each({num(1), num(2)}, "y", each({num(3), num(4)}, "z", echo(str("${y}${z}")))));
}
// The same program however it is laid out.
VF_SECTION(malformed) { // statements that cannot be understood are refused and nothing after them is done
  for (std::string t : {"foreach n as 5 { echo \"x\" }", "foreach n as { echo \"x\" }", "foreach as y { echo \"x\" }", "foreach n y { echo \"x\" }", "foreach n as \"y\" { echo \"x\" }", "foreach 1,2 as y z { echo \"x\" }", "foreach { echo \"x\" }", "while { echo \"x\" }", "if { echo \"x\" }", "if (1) echo", "else { }", "5 = 3", "\"a\" = 3", "n m = 3", "prove", "rounds", "rounds 12", "4 5 bells", "n bells", "bells", "extents", "1 +", "(1", "n = (1", "n = 1)", "n = {", "n = }", "n := ", "import", "row_mask", "end 1", "{", "}", "1 > 2 ? prove n"}) CASE(t) {
    auto o = app::run("gsiril", {}, "4 bells\nn = 1\n" + t + "\necho \"after\"\n"); EXPECT(o.rc == 1 || o.rc == 2, "status", t, " ", o.rc, " ", o.out.substr(0, 80)); EXPECT(o.out.find("after") == std::string::npos, "carried on", t, " ", o.out.substr(0, 80)); EXPECT(!o.err.empty(), "no message", t); vf::states(); vf::outcome(o.err);
  } END_CASE
}
VF_SECTION(layout) {
  std::vector<std::string> seps = {"\n", ";", " ; ", "\n\n", " // a comment; prove z\n", ";\n", "\n// x\n", "\n \t\n"}, joins = {",", ", ", ",\n", " ,\n  ", ", // more\n"}, ends = {"", "\n", ";", " // end", "\nend\nprove b", "\nquit\n?", "\nexit\nprove b"};
  std::vector<std::string> want = {"2143", "2413", "4231", "4321", "3412", "3142", "1324", "1234"};
  for (auto &s1 : seps) for (auto &s2 : seps) for (auto &j : joins) for (auto &j2 : joins) for (auto &e : ends) for (int sp = 0; sp < 2; ++sp) for (int br = 0; br < 2; ++br) { if ((br && sp) || (!vf::g.thorough && (s1 == "\n") + (s2 == "\n") + (j == ",") + (j2 == ",") + e.empty() < 3)) continue; CASE(vf::quote(s1), " ", vf::quote(s2), " ", vf::quote(j), " ", vf::quote(j2), " ", vf::quote(e), " ", sp, br) {
    vf::states(); std::string q = sp ? "  " : ""; std::string t = q + "4 bells" + s1 + "everyrow=" + q + "\"@\"" + s2 + q + "b=+-" + j + "+14" + s1 + "prove " + q + (br ? "(\nb" + j2 + "b\n" + j2 + "2" + (j == ",\n" ? "\n" : " ") + "(b)\n)" : "b" + j2 + "b" + j2 + "2 b") + e;
    auto o = app::run("gsiril", {"-f", app::put("l.sir", t)}); std::string w; for (auto &r : want) w += r + "\n"; w += "8 rows ending in 1234\nTouch is true\n"; EXPECT(o.out == w && o.rc == 0 && o.err.empty(), "output", o.rc, " ", show(o.out), show(o.err)); vf::outcome(t);
  } END_CASE }
}
