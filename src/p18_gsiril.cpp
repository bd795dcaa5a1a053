// P18: proving a touch reports exactly what ringing it through would show.
#include "gsrun.h"
using namespace gs;
static void grammar(std::string tag, Cfg c, int size, int part, int parts, int full = 0, bool slim = false) {
  int n = c.w.bells; std::string last = ref::sym(n - 1);
  def(c, "a", pn(n, n % 2 ? "+" + last : "+-")); def(c, "b", mk(LIST, {pn(n, n % 2 ? "+1" : "+1" + last), str("b")}));
  std::vector<N> at = {sym("a"), sym("b"), pn(n, n % 2 ? "&3.1" : "&-.1" + last), str("s#")}; if (!slim) at.push_back(tr(n == 3 ? prow("231") : ref::ext(prow("231"), n)));
  std::vector<std::function<N(N)>> un = {[](N e) { return mk(REP, {e}, "", 2); }, [](N e) { return mk(REV, {e}); }, [](N e) { return mk(LOOP, {mk(LIST, {e, mk(IF, {mk(ROUNDS), mk(BREAK)})})}); }};
  if (!slim) { un.push_back([](N e) { return mk(MUL, {num(3), e}); }); un.push_back([&](N e) { return mk(LOOP, {mk(IF, {pat("1*"), mk(BREAK), N(), e})}); }); un.push_back([](N e) { return mk(REP, {e}, "", 0); }); }
  std::vector<std::function<N(N, N)>> bi = {[](N a, N b) { return mk(LIST, {a, b}); }, [last](N a, N b) { return mk(IF, {pat("*" + last), a, N(), b}); }};
  if (!slim) bi.push_back([](N a, N b) { return mk(IF, {pat("?[23]*"), a, pat("2*"), b}); });
  auto all = flat(grow(at, un, bi, size)); std::vector<N> mine; for (size_t i = 0; i < all.size(); ++i) if ((int)(i % parts) == part) mine.push_back(all[i]);
  plans(tag, {}, c.pre, c.w, mine, false, full, 400);
}
VF_SECTION(touch4_a) { grammar("4 bells", base(4, 1), vf::tier(5, 6), 0, 2); }
VF_SECTION(touch4_b) { grammar("4 bells", base(4, 1), vf::tier(5, 6), 1, 2); }
VF_SECTION(touch4_twice) { auto c = base(4, 2, "@$"); grammar("4 bells twice", c, vf::tier(4, 6), 0, 1); }
VF_SECTION(touch3) { auto c = base(3, 1, "#@"); def(c, "conflict", str("c@$")); def(c, "rounds", str("r#")); grammar("3 bells", c, vf::tier(5, 6), 0, 1, 0, true); }
VF_SECTION(touch3_twice) { auto c = base(3, 2, "@"); def(c, "conflict", str("c@$")); def(c, "rounds", str("r#")); grammar("3 bells twice", c, vf::tier(5, 6), 0, 1, 0, true); }
VF_SECTION(brackets) { auto c = base(4, 1); def(c, "conflict", str("c@")); grammar("bracketed", c, vf::tier(4, 5), 0, 1, 1); }
VF_SECTION(starting_row) {
  for (auto &r : ref::perms(4)) for (int form = 0; form < 2; ++form) {
    auto c = base(4, 1); P q = r; if (form) { while (!q.empty() && q.back() == (int)q.size() - 1) q.pop_back(); if (q.size() < 2 || q.size() == 4) continue; }
    c.w.rounds = q; c.pre += "rounds '" + ref::str(q) + "'\n"; def(c, "rounds", str("r#")); grammar("from " + ref::str(q), c, vf::tier(3, 4), 0, 1, 0, true);
  }
}
// Every special symbol in turn given its own text, ending the proof or not, for touches of every kind.
static std::vector<std::pair<std::string, N>> kinds(int n) {
  auto l = [](std::vector<N> v) { N r = v.back(); for (size_t i = v.size() - 1; i-- > 0;) r = mk(LIST, {v[i], r}); return r; };
  N x = pn(n, "+-"), y = pn(n, "+14"), z = pn(n, "+12");
  return {{"nothing", mk(LIST, {mk(REP, {x}, "", 0), mk(REP, {x}, "", 0)})}, {"one row", x}, {"two rows", mk(REP, {x}, "", 2)}, {"course", mk(REP, {l({x, y})}, "", 4)}, {"not round", l({x, y, x})}, {"early repeat", l({x, x, x, y})}, {"repeat at the end", l({mk(REP, {l({x, y})}, "", 4), x})},
    {"lead", l({mk(REP, {l({x, y})}, "", 3), x, z})}, {"extent", mk(REP, {l({mk(REP, {l({x, y})}, "", 3), x, z})}, "", 3)}, {"twice over", mk(REP, {l({x, y})}, "", 8)}, {"false and round", l({mk(REP, {x}, "", 4)})}, {"ended early", l({x, y, mk(ENDPROOF), y, x})}, {"ended round", l({x, x, mk(ENDPROOF), y, x})}, {"stops itself", l({x, str("stop$$"), y})}, {"stops in a loop", mk(REP, {l({x, str("stop$$")})}, "", 3)}, {"breaks a loop", l({mk(REP, {l({x, mk(BREAK)})}, "", 3), x})}};
}
static void hooks(int ext, L lo, L hi) {
  static char const *names[] = {"start", "finish", "abort", "rounds", "conflict", "true", "notround", "false", "tooshort", "toolong", "everyrow"};
  std::vector<std::pair<std::string, N>> vals = {{"null", mk(NOP)}, {"text", str("<@#$>")}, {"text without a line", str("<@#$>\\")}, {"stop", str("<@#$>$$")}, {"text then stop", mk(LIST, {str("<#>"), mk(LIST, {str("$$"), str("never")})})}, {"ringing", mk(LIST, {pn(4, "+1234"), str("+")})}};
  for (auto &k : kinds(4)) for (int h = -1; h < 11; ++h) for (size_t v = 0; v < vals.size(); ++v) {
    if (h < 0 && v) continue; if (v == 5 && h != 0 && h != 1) continue;
    auto c = base(4, ext, ""); if (h >= 0) { c.w.st[names[h]] = vals[v].second; c.pre += std::string(names[h]) + " = " + text(vals[v].second) + "\n"; }
    if (hi) { c.w.length(lo, hi); c.pre += lo == hi ? std::to_string(lo) + " rows\n" : std::to_string(lo) + " to " + std::to_string(hi) + " rows\n"; }
    for (int q = 0; q < 3; ++q) CASE(k.first, ", ", h < 0 ? std::string("all defaults") : vf::cat(names[h], " ", vals[v].first), ", ", ext, " extents, ", lo, "-", hi, ", quiet ", q) {
      vf::states(); World w(c.w); w.quiet = q; w.prove(k.second); std::vector<std::string> a; if (q) a.push_back(q == 1 ? "-q" : "-qq"); a.push_back("-e"); a.push_back(c.pre + "prove " + text(k.second));
      auto o = app::run("gsiril", a); vf::outcome(o.out); EXPECT(o.out == w.out, "output", show(o.out), " not ", show(w.out)); EXPECT(o.rc == (w.failed ? 1 : 0), "status", "exit status ", o.rc, " ", show(o.err)); EXPECT(o.err.empty(), "errors", show(o.err));
    } END_CASE
  }
}
VF_SECTION(hooks_once) { hooks(1, 0, 0); }
VF_SECTION(hooks_twice) { hooks(2, 0, 0); }
VF_SECTION(hooks_exact) { hooks(1, 8, 8); }
VF_SECTION(hooks_range) { hooks(1, 3, 9); }
VF_SECTION(hooks_range_twice) { hooks(2, 8, 15); }
// Assignments while ringing: what each symbol means at every moment, and that none outlives the proof.
VF_SECTION(assignment) {
  auto c = base(4, 1, "@"); def(c, "a", pn(4, "+-")); def(c, "b", pn(4, "+14")); def(c, "x", sym("a")); def(c, "s", str("s#")); c.pre += "n := 1\n"; c.w.st["n"] = num(1);
  std::vector<N> st = {sym("x"), mk(ASG, {sym("b")}, "x"), mk(ASG, {sym("a")}, "x"), mk(IASG, {str("i#@")}, "s"), mk(ASG, {mk(LIST, {sym("b"), str("l#")})}, "s"), sym("s"), mk(AASG, {str("+$")}, "s"), mk(INC, {}, "n"), mk(DEC, {}, "n"), mk(IASG, {mk(ADD, {sym("n"), mk(LENGTH)})}, "n"), mk(REP, {mk(LIST, {sym("x"), mk(IF, {mk(EQ, {sym("loop_counter"), sym("n")}), mk(BREAK)})})}, "", 3), mk(IF, {mk(GT, {sym("n"), num(1)}), sym("x"), mk(LE, {sym("n"), num(0)}), sym("s")}), mk(IASG, {sym("n")}, "s"), mk(IF, {mk(DEFINED, {}, "y"), sym("y"), N(), mk(ASG, {sym("x")}, "y")})};
  std::vector<N> all; int depth = vf::tier(3, 4);
  std::function<void(std::vector<N>)> rec = [&](std::vector<N> v) {
    if (!v.empty()) { std::vector<N> u; for (auto &e : v) u.push_back(e); N tail = mk(LIST, {sym("x"), mk(LIST, {sym("s"), str("${n}.$.#")})}); for (size_t i = u.size(); i-- > 0;) tail = mk(LIST, {u[i], tail}); all.push_back(tail); }
    if ((int)v.size() < depth) for (auto &s : st) { auto w = v; w.push_back(s); rec(w); }
  };
  rec({}); plans("assign", {}, c.pre, c.w, all, false, 0, 3000);
}
// Definitions as statements: each replaces the last, is looked up when used, and := fixes its value at once.
VF_SECTION(definitions) {
  struct S { std::string t; std::function<void(World &)> f; };
  auto prove = [](N e) { return S{"prove " + text(e), [e](World &w) { w.prove(e); }}; };
  auto set = [](std::string n, N e) { return S{n + " = " + text(e), [n, e](World &w) { w.st[n] = e; }}; };
  auto dflt = [](std::string n, N e) { return S{n + " ?= " + text(e), [n, e](World &w) { if (!w.st.count(n)) w.st[n] = e; }}; };
  auto imm = [](std::string n, N e) { return S{n + " := " + text(e), [n, e](World &w) { Ctx c(w); w.st[n] = c.eval(e); }}; };
  auto echo = [](N e) { return S{"echo " + text(e), [e](World &w) { w.echo(e); }}; };
  N a = pn(4, "+-"), b = pn(4, "+14"); std::vector<S> ss = {set("x", a), set("x", mk(LIST, {b, sym("y")})), set("y", str("y@")), dflt("x", b), dflt("y", str("d#")), imm("y", str("i@#")), set("z", sym("x")), prove(sym("x")), prove(mk(REP, {sym("z")}, "", 2)), prove(mk(LIST, {mk(ASG, {b}, "x"), mk(LIST, {sym("x"), mk(SAVE, {}, "x")})})), imm("m", mk(ADD, {num(1), num(2)})), echo(str("${m}${y}\\")), set("m", num(7)), imm("m", mk(MUL, {sym("m"), sym("m")}))};
  int depth = vf::tier(4, 5); std::string pre = "4 bells\neveryrow = \"@\"\n";
  std::vector<std::vector<int>> seqs; std::function<void(std::vector<int>)> rec = [&](std::vector<int> v) { if ((int)v.size() == depth) { seqs.push_back(v); return; } for (size_t i = 0; i < ss.size(); ++i) { auto w = v; w.push_back(i); rec(w); } }; rec({});
  // a sequence that is refused at some point is judged up to there; its own prefix has then been judged already
  std::vector<std::pair<std::string, std::string>> good; std::set<std::string> badseen; std::vector<std::pair<std::string, std::string>> bad;
  for (auto &v : seqs) { World w; w.bells = 4; w.st["everyrow"] = str("@"); std::string t; bool ok = true; try { for (int i : v) { t += ss[i].t + "\n"; ss[i].f(w); } } catch (Err const &e) { ok = false; if (e.what != "skip" && badseen.insert(t).second && bad.size() < 1500) bad.push_back({t, w.out}); } if (ok) good.push_back({t, w.out}); }
  // symbols cannot be undefined again, so each sequence has its own process, several sequences with their symbols renamed
  auto rename = [](std::string t, std::string k) { std::string o; bool q = false; for (size_t i = 0; i < t.size(); ++i) { char c = t[i]; bool id = isalpha((unsigned char)c); bool alone = id && (i == 0 || !isalnum((unsigned char)t[i - 1])) && (i + 1 == t.size() || !isalnum((unsigned char)t[i + 1])); if (c == '"') q = !q; o += c; if (alone && strchr("xyzm", c) && (!q || (i && t[i - 1] == '{'))) o += k; } return o; };
  size_t per = 60; std::vector<std::string> outs; size_t cb = 0, ce = 0; app::Out o; bool one = !vf::g.only.empty();
  for (size_t i = 0; i < good.size(); ++i) CASE(good[i].first) {
    vf::states(); if (one || i >= ce) { cb = i; ce = one ? i + 1 : std::min(good.size(), i + per); std::string t = pre; for (size_t k = cb; k < ce; ++k) t += "echo \"~~\"\n" + rename(good[k].first, std::to_string(k)); o = app::run("gsiril", {"-f", app::put("d.sir", t)}); outs.clear(); size_t p = o.out.find("~~\n"); while (p != std::string::npos) { size_t q = o.out.find("~~\n", p + 3); outs.push_back(o.out.substr(p + 3, q == std::string::npos ? q : q - p - 3)); p = q; } }
    EXPECT(i - cb < outs.size() && outs[i - cb] == good[i].second, "output", i - cb < outs.size() ? show(outs[i - cb]) : "stopped: " + show(o.err), " not ", show(good[i].second)); vf::outcome(good[i].second);
  } END_CASE
  for (auto &b : bad) CASE("refused: ", b.first) { vf::states(); auto o = app::run("gsiril", {"-e", pre + b.first}); EXPECT(o.rc == 2 && !o.err.empty() && o.out == b.second, "refused", "status ", o.rc, " ", show(o.out), " not ", show(b.second)); } END_CASE
}
