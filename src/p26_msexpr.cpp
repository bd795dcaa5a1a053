// P26: methsearch's expressions, requirements and command invocations do what its manual says.
#include "app.h"
#include "refmeth.h"
#include "ms.h"
#include <climits>
#include <sys/stat.h>
#include <memory>
typedef std::vector<std::string> A;
typedef long long I;
static std::string joined(A const &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
struct Err {}; struct Sup {}; struct Abt {}; struct Unc {}; // how an evaluation ends without a value; Unc: the manual does not say
struct Env { int n = 0; std::map<std::string, std::string> var; int status = 0; A trace; };
// ---- tokens -----------------------------------------------------------------------
// a token is an operator, a number, $name, "string with its quote in front, or a keyword
struct Ex { std::string op; std::vector<Ex> kid; };
static int prec(std::string const &t) { // from the manual's table, loosest first
  static std::map<std::string, int> m; if (m.empty()) { char const *l[] = {"||", "&&", "~~", "== != eq ne", "< > <= >= lt gt le ge", "+ - .", "* / %"}; for (int i = 0; i < 7; ++i) { std::stringstream s(l[i]); std::string x; while (s >> x) m[x] = i; } }
  auto i = m.find(t); return i == m.end() ? -1 : i->second;
}
struct Bad {}; // not an expression
struct Reader {
  A const &t; size_t i = 0; bool unc = false; Reader(A const &t) : t(t) {}
  std::string peek() const { return i < t.size() ? t[i] : ""; }
  Ex all() { Ex e = comma(); if (i < t.size()) throw Bad(); return e; }
  Ex comma() { Ex e = cond(); while (peek() == ",") { ++i; Ex r = cond(); e = Ex{",", {e, r}}; } return e; }
  Ex cond() { Ex c = bin(0); if (peek() != "?") return c; ++i; Ex a = cond(); if (peek() == ",") { unc = true; throw Bad(); } if (peek() != ":") throw Bad(); ++i; Ex b = cond(); return Ex{"?", {c, a, b}}; }
  Ex bin(int l) { if (l == 7) return one(); Ex e = bin(l + 1); while (prec(peek()) == l) { std::string o = t[i++]; Ex r = bin(l + 1); e = Ex{o, {e, r}}; } return e; }
  Ex one() { std::string p = peek(); if (p == "(") { ++i; Ex e = comma(); if (peek() != ")") throw Bad(); ++i; return e; } if (p.empty()) throw Bad(); char c = p[0];
    if (isdigit((unsigned char)c)) { errno = 0; strtoll(p.c_str(), 0, 10); if (errno) throw Bad(); } else if (!((c == '$' && p.size() > 1) || c == '"' || c == '\'' || p == "suppress" || p == "abort")) throw Bad();
    ++i; return Ex{p, {}}; }
};
static I num(std::string const &s) {
  size_t b = 0, e = s.size(); while (b < e && isspace((unsigned char)s[b])) ++b; while (e > b && isspace((unsigned char)s[e - 1])) --e; bool sp = b || e < s.size(); size_t k = b; if (k < e && (s[k] == '+' || s[k] == '-')) ++k; if (k == e) throw Err();
  for (size_t j = k; j < e; ++j) if (!isdigit((unsigned char)s[j])) throw Err(); if (sp) throw Unc(); errno = 0; I v = strtoll(s.c_str(), 0, 10); if (errno) throw Err(); return v;
}
struct PT { bool star; std::set<int> in; };
static bool pattern(int n, std::string const &s, std::vector<PT> &v) { // well formed, with bells in range
  auto bell = [&](char c) { char const *p = strchr(SYM, c); return c && p && p - SYM < n ? int(p - SYM) : -1; };
  for (size_t i = 0; i < s.size(); ++i) { PT t{false, {}}; if (s[i] == '*') t.star = true; else if (s[i] == '?') for (int b = 0; b < n; ++b) t.in.insert(b); else if (s[i] == '[') { for (++i; i < s.size() && s[i] != ']'; ++i) { int b = bell(s[i]); if (b < 0) return false; t.in.insert(b); } if (i == s.size() || t.in.empty()) return false; } else { int b = bell(s[i]); if (b < 0) return false; t.in.insert(b); } v.push_back(t); }
  return true;
}
static bool fits(std::vector<PT> const &t, size_t i, P const &r, size_t p) { if (i == t.size()) return p == r.size(); if (t[i].star) return fits(t, i + 1, r, p) || (p < r.size() && fits(t, i, r, p + 1)); return p < r.size() && t[i].in.count(r[p]) && fits(t, i + 1, r, p + 1); }
static bool match(int n, std::string const &rs, std::string const &ps) {
  P r; for (char c : rs) { char const *p = strchr(SYM, c); if (!c || !p) throw Err(); r.push_back(p - SYM); } std::vector<char> seen(64); for (int b : r) { if (b >= (int)r.size() || seen[b]) throw Err(); seen[b] = 1; } if ((int)r.size() != n) throw Unc();
  std::vector<PT> t; if (ps.empty() || !pattern(n, ps, t)) throw Unc(); int fixed = 0; bool star = false; for (auto &x : t) { fixed += !x.star; star = star || x.star; } if (fixed > n || (!star && fixed < n)) throw Unc(); return fits(t, 0, r, 0);
}
static std::string eval(Ex const &e, Env &v);
static I ieval(Ex const &e, Env &v) { return num(eval(e, v)); }
static std::string eval(Ex const &e, Env &v) {
  std::string const &o = e.op; auto ch = [&](bool b) { return std::string(b ? "1" : "0"); };
  if (e.kid.empty()) { if (isdigit((unsigned char)o[0])) return std::to_string(strtoll(o.c_str(), 0, 10)); if (o == "suppress") throw Sup(); if (o == "abort") throw Abt(); if (o[0] != '$') return o.substr(1);
    if (o[1] == '!') { v.trace.push_back(o); return o.substr(3); } auto i = v.var.find(o); if (i == v.var.end()) throw Unc(); if (i->second == "<ERROR>") throw Err(); return i->second; }
  if (o == "?") return eval(e.kid[ieval(e.kid[0], v) ? 1 : 2], v); if (o == "&&") return ch(ieval(e.kid[0], v) && ieval(e.kid[1], v)); if (o == "||") return ch(ieval(e.kid[0], v) || ieval(e.kid[1], v)); if (o == ",") { eval(e.kid[0], v); return eval(e.kid[1], v); }
  // the order in which the arguments of the others are evaluated is not defined
  std::string a, b; int ea = 0, eb = 0; bool str = o == "." || (isalpha((unsigned char)o[0])) || o == "~~"; I x = 0, y = 0;
  auto arg = [&](Ex const &k, std::string &s, I &i, int &z) { try { s = eval(k, v); if (!str) i = num(s); } catch (Err) { z = 1; } catch (Sup) { z = 2; } catch (Abt) { z = 3; } }; arg(e.kid[0], a, x, ea); arg(e.kid[1], b, y, eb);
  if (ea && eb && ea != eb) throw Unc(); int z = ea ? ea : eb; if (z == 1) throw Err(); if (z == 2) throw Sup(); if (z == 3) throw Abt();
  if (o == "~~") return ch(match(v.n, a, b)); if (o == ".") return a + b; if (o == "lt") return ch(a < b); if (o == "gt") return ch(a > b); if (o == "le") return ch(a <= b); if (o == "ge") return ch(a >= b); if (o == "eq") return ch(a == b); if (o == "ne") return ch(a != b);
  if (o == "<") return ch(x < y); if (o == ">") return ch(x > y); if (o == "<=") return ch(x <= y); if (o == ">=") return ch(x >= y); if (o == "==") return ch(x == y); if (o == "!=") return ch(x != y);
  I r = 0; bool ov = false; if (o == "+") ov = __builtin_add_overflow(x, y, &r); else if (o == "-") ov = __builtin_sub_overflow(x, y, &r); else if (o == "*") ov = __builtin_mul_overflow(x, y, &r); else if (y == 0) throw Err(); else if (y == -1) { if (o == "/") ov = __builtin_sub_overflow(I(0), x, &r); else r = 0; } else r = o == "/" ? x / y : x % y;
  if (ov) throw Unc(); return std::to_string(r);
}
enum Kind { VALUE, ERROR, SUPPRESS, ABORT, REFUSED, UNCLAIMED };
struct Res { Kind k; std::string v; };
static Res result(A const &t, Env &env) {
  Reader r(t); Ex e; try { e = r.all(); } catch (Bad) { return {r.unc ? UNCLAIMED : REFUSED, ""}; }
  try { return {VALUE, eval(e, env)}; } catch (Err) { return {ERROR, "<ERROR>"}; } catch (Sup) { return {SUPPRESS, ""}; } catch (Abt) { return {ABORT, ""}; } catch (Unc) { return {UNCLAIMED, ""}; }
}
static std::string text(A const &t) { std::string s; for (auto &x : t) s += (s.empty() ? "" : " ") + (x[0] == '"' || x[0] == '\'' ? x + x[0] : x); return s; }
// ---- the method on which expressions are evaluated ----------------------------------
static char const *const STD = "4:X.14.12\n";
static Env std_env() { Env e; e.n = 4; e.var = {{"$B", "4"}, {"$L", "3"}, {"$u", "1"}, {"$l", "3142"}, {"$1h", "X"}, {"$9h", "<ERROR>"}, {"$1,2p", "X.14"}};
  std::vector<Sw> q; parse_pn(4, "X.14.12", q); P r = id(4); for (auto &c : q) r = mul(r, sw_perm(c)); e.var["$l"] = str(r); int h = 0; for (int i = 0; i < 4; ++i) h += r[i] == i; e.var["$u"] = std::to_string(h); e.var["$1h"] = pn(q[0]); e.var["$1,2p"] = pn(q[0]) + "." + pn(q[1]); return e; }
static app::Out ask(std::string const &f, A const &more = {}) { A a{"-U0", "-A", "-Fx", "-I", "-R" + f}; a.insert(a.end(), more.begin(), more.end()); return app::run("methsearch", a, STD); }
static bool found(Res const &r) { if (r.k != VALUE) return false; try { return num(r.v) != 0; } catch (Err) { return false; } }
struct Batch { // format strings, each of which ends its line, with what they print
  std::vector<std::pair<std::string, std::string>> v; size_t size = 0, max;
  Batch(size_t m = 300) : max(m) {} ~Batch() { flush(); }
  void add(std::string const &f, std::string const &w) { v.push_back({f, w + "\n"}); size += f.size(); if (v.size() >= max || size > 60000) flush(); }
  void flush() { if (v.empty()) return; std::string f, w; for (auto &g : v) { f += g.first + "\\n"; w += g.second; vf::outcome(g.second); }
    CASE("from ", vf::quote(v[0].first), " to ", vf::quote(v.back().first)) { vf::states(v.size()); auto o = ask(f + "\\"); EXPECT(o.rc == 0 && o.err.empty(), "status", o.rc, " ", o.err.substr(0, 160)); if (o.out == w) return;
      for (auto &g : v) { auto r = ask(g.first); EXPECT(r.rc == 0 && r.out == g.second, "value", vf::quote(g.first), " gave ", r.rc, " ", vf::quote(r.out.substr(0, 60)), " not ", vf::quote(g.second)); } } END_CASE v.clear(); size = 0; }
};
static void refused(std::string const &what, A const &a) { CASE(what) { A x{"-U0", "-A", "-Fx", "-I"}; x.insert(x.end(), a.begin(), a.end()); auto r = app::run("methsearch", x, STD); vf::states(); vf::outcome("refused"); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "refused", r.rc, " ", vf::quote(r.out.substr(0, 60)), " ", r.err.substr(0, 80)); } END_CASE }
static void required(A const &t, Res const &r) { CASE("-Q", text(t)) { auto o = app::run("methsearch", {"-U0", "-A", "-Fx", "-I", "-RY", "-Q" + text(t)}, STD); vf::states(); vf::outcome(found(r) ? "found" : "not"); EXPECT(o.rc == 0 && o.out == (found(r) ? "Y\n" : "") && o.err.empty(), "required", o.rc, " ", vf::quote(o.out), " for ", r.v, " ", o.err.substr(0, 80)); } END_CASE }
static void judge(Batch &b, A const &t, Env &env, bool q = false) { // a token sequence in $[ ], and in -Q if q
  Res r = result(t, env); if (r.k == UNCLAIMED) return; std::string f = "$[" + text(t) + "]";
  if (r.k == REFUSED) { refused(f, {"-R" + f}); if (q) refused("-Q" + text(t), {"-Q" + text(t)}); return; }
  if (r.k == SUPPRESS || r.k == ABORT) { CASE(f) { auto o = ask("x" + f + "y"); vf::states(); vf::outcome("none"); EXPECT(o.rc == 0 && o.out.empty() && o.err.empty(), "suppressed", o.rc, " ", vf::quote(o.out), " ", o.err.substr(0, 80)); } END_CASE } else b.add(f, r.v);
  if (q) required(t, r);
}
static A const OPS = {"*", "/", "%", "+", "-", ".", "<", ">", "<=", ">=", "lt", "gt", "le", "ge", "==", "!=", "eq", "ne", "~~", "&&", "||", ","};
// ---- operators and their arguments --------------------------------------------------
static A const LEAF = {"0", "1", "2", "7", "10", "007", "\"", "\"a", "'b", "\"2", "'10", "\"-1", "\"-7", "\"+3", "\"1342", "\"1*", "$u", "$B", "$l", "$L", "$9h", "\"4294967297", "\"9223372036854775807", "\"-9223372036854775808", "\"9223372036854775808", "9223372036854775807", "\"1.5", "\"--1", "\"0x10", "\"x1"};
VF_SECTION(pairs) { Env e = std_env(); Batch b; for (auto &x : LEAF) { judge(b, {x}, e, true); for (auto &o : OPS) for (auto &y : LEAF) judge(b, {x, o, y}, e); } }
static void required_pairs(int s) { Env e = std_env(); int k = 0; for (auto &x : LEAF) for (auto &o : OPS) for (auto &y : LEAF) if (k++ % 4 == s) { Res r = result({x, o, y}, e); if (r.k != UNCLAIMED && (vf::tier(0, 1) || k % 3 == 0)) required({x, o, y}, r); } }
VF_SECTION(required_pairs_1) { required_pairs(0); }
VF_SECTION(required_pairs_2) { required_pairs(1); }
VF_SECTION(required_pairs_3) { required_pairs(2); }
VF_SECTION(required_pairs_4) { required_pairs(3); }
static void triples(int s) { Env e = std_env(); Batch b; A l = {"0", "1", "\"a", "'-2", "$l", "3"}; if (vf::tier(0, 1)) l.insert(l.end(), {"\"", "10", "\"1*", "$9h"}); int k = 0; for (auto &o : OPS) for (auto &p : OPS) if (k++ % 2 == s) for (auto &x : l) for (auto &y : l) for (auto &z : l) judge(b, {x, o, y, p, z}, e); }
VF_SECTION(triples_1) { triples(0); }
VF_SECTION(triples_2) { triples(1); }
VF_SECTION(brackets) { Env e = std_env(); Batch b; A l = {"0", "1", "'-2", "3"}; for (auto &o : OPS) for (auto &p : OPS) for (auto &x : l) for (auto &y : l) for (auto &z : l) { judge(b, {"(", x, o, y, ")", p, z}, e); judge(b, {x, o, "(", y, p, z, ")"}, e); } }
static void quads(int s) { Env e = std_env(); Batch b; std::vector<A> ls = {{"7", "2", "3", "5"}, {"0", "\"4", "1", "2"}, {"12", "0", "'1", "1"}}; if (vf::tier(0, 1)) ls.insert(ls.end(), {{"1", "1", "0", "1"}, {"\"2", "10", "'9", "0"}, {"$l", "\"1342", "1", "0"}, {"5", "$B", "\"a", "1"}}); int k = 0; for (auto &o : OPS) for (auto &p : OPS) for (auto &q : OPS) if (k++ % 2 == s) for (auto &l : ls) { judge(b, {l[0], o, l[1], p, l[2], q, l[3]}, e); judge(b, {l[0], o, "(", l[1], p, l[2], ")", q, l[3]}, e); } }
VF_SECTION(quads_1) { quads(0); }
VF_SECTION(quads_2) { quads(1); }
// ---- conditionals --------------------------------------------------------------------
static void sequences(A const &al, int valid, int any, bool q) { // every sequence of these tokens
  Env e = std_env(); Batch b; A t; std::function<void()> go = [&]() { if (!t.empty()) { Reader r(t); bool ok = true; try { r.all(); } catch (Bad) { ok = r.unc; } if (ok || (int)t.size() <= any) judge(b, t, e, q && (int)t.size() <= any); } if ((int)t.size() < valid) for (auto &x : al) { t.push_back(x); go(); t.pop_back(); } }; go();
}
VF_SECTION(conditionals) { sequences({"0", "1", "?", ":"}, vf::tier(9, 11), vf::tier(5, 6), true); sequences({"2", "'a", "?", ":", "(", ")"}, vf::tier(7, 8), vf::tier(3, 4), true); sequences({"0", "3", "?", ":", ",", "||"}, vf::tier(7, 8), vf::tier(3, 4), true); }
// ---- what is not an expression ----------------------------------------------------------
static void malformed(int s) { Env e = std_env(); Batch b; A al = {"1", "\"a", "$u", "+", "==", "&&", "~~", "?", ":", ",", "(", ")", "lt", "foo", "suppress", "abort", "&", "|", "=", "!", "-", ".", "~", "$$", "$)", "$%", "@", "{", "^", ";", "_a", "9223372036854775808"}; int k = 0, n = al.size(), L = vf::tier(3, 3);
  std::function<void(A &)> go = [&](A &t) { if (!t.empty() && k++ % 4 == s && (vf::tier(0, 1) || t.size() < 3 || k % 5 == 0)) { Res r; A u = t; for (auto &x : u) if (x.size() == 2 && x[0] == '$' && !isalpha((unsigned char)x[1])) x = "@"; r = result(u, e); if (r.k == REFUSED) { std::string f = "$[" + text(t) + "]"; refused(f, {"-R" + f}); refused("-H" + f, {"-q", "-H" + f}); refused("-Q" + text(t), {"-Q" + text(t)}); } else judge(b, t, e, true); } if ((int)t.size() < L) for (int i = 0; i < n; ++i) { t.push_back(al[i]); go(t); t.pop_back(); } }; A t; go(t); }
VF_SECTION(malformed_1) { malformed(0); }
VF_SECTION(malformed_2) { malformed(1); }
VF_SECTION(malformed_3) { malformed(2); }
VF_SECTION(malformed_4) { malformed(3); }
// ---- how expressions and strings are written ---------------------------------------------
// the tokens of the expression which begins at s[i], up to the ] which ends it (or the end of the string if there is none to be); false if it is not closed
static bool tokens(std::string const &s, size_t &i, bool close, A &t) {
  while (i < s.size()) { char c = s[i]; if (isspace((unsigned char)c)) { ++i; continue; } if (c == '"' || c == '\'') { size_t j = s.find(c, i + 1); if (j == std::string::npos) return false; t.push_back(s.substr(i, j - i)); i = j + 1; continue; }
    if (c == ']') { if (!close) return false; int d = 0; for (auto &x : t) if (x == "(") ++d; else if (x == ")" && --d < 0) return false; if (d) return false; ++i; return true; }
    if (isdigit((unsigned char)c)) { size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) ++j; t.push_back(s.substr(i, j - i)); i = j; continue; }
    std::string two = s.substr(i, 2); if (two.size() == 2 && prec(two) >= 0) { t.push_back(two); i += 2; continue; } if (isalpha((unsigned char)c)) { size_t j = i; while (j < s.size() && isalnum((unsigned char)s[j])) ++j; t.push_back(s.substr(i, j - i)); i = j; continue; } t.push_back(std::string(1, c)); ++i; }
  return !close;
}
static void written(std::string const &alpha, int len, int shard, int of) { Env e = std_env(); Batch b; std::string s; int k = 0;
  std::function<void()> go = [&]() { if (!s.empty() && k++ % of == shard) { for (int q = 0; q < 2; ++q) { A t; size_t i = 0; bool closed = q ? tokens(s, i, false, t) : tokens(s + "]", i, true, t); std::string f = q ? s : "$[" + s + "]", rest = q ? "" : (s + "]").substr(closed ? i : 0); Res r = closed ? result(t, e) : Res{REFUSED, ""}; if (r.k == UNCLAIMED) continue;
        if (!q && closed && rest.find('$') != std::string::npos) continue; if (r.k == REFUSED) refused((q ? "-Q" : "-R") + f, {(q ? "-Q" : "-R") + f}); else if (!q) b.add(f, r.v + rest); else required(t, r); } }
    if ((int)s.size() < len) for (char c : alpha) { s += c; go(); s.pop_back(); } }; go(); }
VF_SECTION(strings_1) { written("\"'()]1", vf::tier(4, 5), 0, 2); }
VF_SECTION(strings_2) { written("\"'()]1", vf::tier(4, 5), 1, 2); }
VF_SECTION(strings_3) { written("\"a'[ ", vf::tier(4, 5), 0, 1); written("\"\t)1\n", vf::tier(3, 4), 0, 1); }
VF_SECTION(spacing) { written("1<=>!", vf::tier(4, 5), 0, 1); written("1&|?:", vf::tier(4, 5), 0, 1); written("2.-+ ", vf::tier(4, 5), 0, 1); written("9%*/,", vf::tier(4, 4), 0, 1); written("0~\"1", vf::tier(4, 5), 0, 1); }
VF_SECTION(every_byte) { for (int c = 1; c < 256; ++c) { if (strchr("$\\%", c)) continue; Env e = std_env(); Batch b(1); for (auto &s : A{std::string(1, c), std::string("1") + char(c) + "2", std::string("\"a") + char(c) + "z\""}) { A t; size_t i = 0; bool ok = tokens(s + "]", i, true, t); Res r = ok ? result(t, e) : Res{REFUSED, ""}; if (r.k == UNCLAIMED) continue; std::string f = "$[" + s + "]"; if (r.k == REFUSED) refused("-R" + vf::quote(f), {"-R" + f}); else b.add(f, r.v + (s + "]").substr(i)); } } }
// ---- patterns --------------------------------------------------------------------------
VF_SECTION(patterns) { Env e; e.n = 4; Batch b; A al = {"1", "2", "3", "4", "?", "*", "[12]", "[134]"}; std::vector<std::pair<std::string, int>> ps; std::function<void(std::string, int)> go = [&](std::string s, int k) { if (!s.empty()) ps.push_back({s, k}); if (k < vf::tier(4, 5)) for (auto &x : al) go(s + x, k + 1); }; go("", 0); std::vector<P> rs; P r = id(4); do rs.push_back(r); while (std::next_permutation(r.begin(), r.end()));
  int k = 0; for (auto &p : ps) for (size_t i = 0; i < rs.size(); ++i) if (vf::tier(0, 1) || (i + k++) % 5 == 0) { Res w = result({"\"" + str(rs[i]), "~~", "\"" + p.first}, e); if (w.k != UNCLAIMED) b.add("$[\"" + str(rs[i]) + "\"~~\"" + p.first + "\"]", w.v); }
  for (auto &s : A{"1123", "12a4", "0123", "1235", "2", "x", "1 2", "-", "12345", "124"}) { Res w = result({"'" + s, "~~", "\"1*"}, e); if (w.k != UNCLAIMED) b.add("$['" + s + "' ~~ \"1*\"]", w.v); }
  for (auto &s : A{"[", "]", "[1", "1]", "*[", "<", "<foo>", "a*", "5*", "*0", "^*"}) { CASE("malformed pattern ", s) { auto o = ask("$[\"1234\" ~~ \"" + s + "\"]|$[\"1\"]"); vf::states(); EXPECT(o.rc == 0 && o.out == "<ERROR>|1\n", "pattern-error", s, " gave ", o.rc, " ", o.out, o.err.substr(0, 100)); } END_CASE } }
// ---- short circuits and commands -------------------------------------------------------
static std::string command(std::string const &t, std::string const &log) { return "$(echo " + t.substr(0, 3).substr(2) + " >>" + log + "; echo " + t.substr(3) + ")"; } // $!kvalue
static void traced(std::vector<A> const &es, std::string const &log, bool q) { // expressions whose commands leave a trace
  std::vector<std::pair<std::string, std::string>> v; std::string first, last; Env env = std_env(); std::string f, w, tr; size_t n = 0; auto flush = [&]() { if (!n) return; CASE((q ? "-Q" : "commands from "), first, q ? "" : " to ", q ? "" : last) { std::ofstream(log.c_str()).close(); auto o = q ? app::run("methsearch", {"-U0", "-A", "-Fx", "-I", "-RY", "-Q" + f}, STD) : ask(f + "\\"); vf::states(n); vf::outcome(tr); EXPECT(o.rc == 0 && o.err.empty() && o.out == w, "value", " gave ", o.rc, " ", vf::quote(o.out.substr(0, 100)), " not ", vf::quote(w.substr(0, 100)), o.err.substr(0, 80)); std::ifstream i(log.c_str()); std::string g, l; while (getline(i, l)) g += l + " "; EXPECT(g == tr, "evaluated", " ran ", g.substr(0, 200), " not ", tr.substr(0, 200)); } END_CASE f = w = tr = ""; n = 0; };
  for (auto &t : es) { env.trace.clear(); Res r = result(t, env); if (r.k == UNCLAIMED || r.k == REFUSED) continue; if (!n) first = text(t); last = text(t); A u = t; for (auto &x : u) if (x.compare(0, 2, "$!") == 0) x = command(x, log); std::string s; for (auto &x : u) s += x + " "; f += q ? s : "$[" + s + "]\\n"; w += q ? (found(r) ? "Y\n" : "") : r.v + "\n"; for (auto &x : env.trace) tr += x.substr(2, 1) + " "; ++n; if (q || n == 25) flush(); }
  flush();
}
static void circuits(int s) { std::vector<A> es; A op = {"&&", "||", ","}, v = {"0", "1", "2", "x"}; int k = 0; auto c = [](char n, std::string const &v) { return std::string("$!") + n + v; };
  for (auto &x : v) for (auto &y : v) for (auto &o : op) { es.push_back({c('a', x), o, c('b', y)}); for (auto &z : v) { for (auto &p : op) { es.push_back({c('a', x), o, c('b', y), p, c('c', z)}); es.push_back({c('a', x), o, "(", c('b', y), p, c('c', z), ")"}); } es.push_back({c('a', x), o, c('b', y), "?", c('c', z), ":", c('d', "4")}); es.push_back({c('d', "1"), "?", c('a', x), ":", c('b', y), o, c('c', z)}); es.push_back({c('a', x), "?", c('b', y), "?", c('c', z), ":", c('d', "5"), ":", c('e', "6")}); es.push_back({c('a', x), "+", "1", o, c('b', y), "+", "0"}); } }
  std::vector<A> mine; for (auto &e : es) if (k++ % 2 == s) mine.push_back(e); traced(mine, app::work() + "/log" + std::to_string(s), false); std::vector<A> some; for (size_t i = s; i < es.size(); i += vf::tier(6, 1)) some.push_back(es[i]); traced(some, app::work() + "/log" + std::to_string(s), true); }
VF_SECTION(short_circuits_1) { circuits(0); }
VF_SECTION(short_circuits_2) { circuits(1); }
VF_SECTION(commands) { // what is passed to the shell, and what comes of its output
  Env e = std_env(); std::string l = e.var["$l"], u = e.var["$u"]; std::vector<std::pair<std::string, std::string>> v = {{"$(echo a)", "a"}, {"$(printf a)", "a"}, {"$(true)", ""}, {"x$(echo $l)y", "x" + l + "y"}, {"$(echo '$l' | sed s/$B/x/)", std::string(l).replace(l.find("4"), 1, "x")}, {"$(echo $[$B+1])", "5"}, {"$(echo $[$B+1] $[\")\"])", "?"}, {"$((echo a$); echo b)", "a\nb"}, {"$[$(echo 3)+$(echo 4)]", "7"}, {"$[$(echo $[$(echo 3)+1])*2]", "8"}, {"$(echo $(echo a))", "a"}, {"$(echo $(echo $(echo $l)))", l}, {"$[$(echo 1 2) eq \"1 2\"]", "1"}, {"$[($(echo 5)) - (1)]", "4"}, {"$[$(echo a) . $(echo b)]", "ab"}, {"$[$(true)+1]", "<ERROR>"}, {"$[$(true) eq \"\"]", "1"}, {"$(echo a)$(echo b) $(echo c)", "ab c"}, {"$(printf '%%s' x)", "x"}, {"$(echo $[(1+2)*3])", "9"}, {"$(echo $[$(echo $l) ~~ \"1*\"] $[1?\"a\":\"b\"])", "1 a"}, {"$(echo $1,2p)", e.var["$1,2p"]}, {"$(echo $$u)", "?"}, {"$(yes abcdefghi | head -n 2000 | tr -d '\\n')", "*"}, {"$(head -c 4095 /dev/zero | tr '\\0' a | wc -c)", "4095"}, {"$(exit 3)a", "a"}, {"$(echo a; exit 3)", "a"}, {"$(nonexistent-command-xyz 2>/dev/null)b", "b"}, {"$(echo \"$[1]\")", "1"}, {"$(echo $9h)", "?"}, {"$[$(echo $[0-5])/2]", "-2"}, {"$[$(echo -7)%3]", "-1"}};
  if (l[0] != '1') v[20].second = "0 a"; for (auto &c : v) { if (c.second == "?") continue; std::string w = c.second; if (w == "*") { w = ""; for (int i = 0; i < 2000; ++i) w += "abcdefghi"; } CASE(vf::quote(c.first)) { auto o = ask(c.first); vf::states(); vf::outcome(o.out); EXPECT(o.rc == 0 && o.out == w + "\n" && o.err.empty(), "command", " gave ", o.rc, " ", vf::quote(o.out.substr(0, 60)), " not ", vf::quote(w.substr(0, 60)), o.err.substr(0, 60)); auto p = ask("[" + c.first + "|$B|" + c.first + "]"); EXPECT(p.out == "[" + w + "|4|" + w + "]\n", "command-twice", " gave ", vf::quote(p.out.substr(0, 100))); } END_CASE }
  for (int n : {1, 100, 4094, 4095, 4096, 4097, 8190, 8191, 65535, 65536, 70000, 200000}) CASE("output of ", n) { auto o = ask("$(head -c " + std::to_string(n) + " /dev/zero | tr '\\\\0' a)"); vf::states(); EXPECT(o.rc == 0 && o.out == std::string(n, 'a') + "\n", "output", n, " gave ", o.out.size(), " ", o.err.substr(0, 50)); } END_CASE
  std::string sh = app::put("mysh", "#!/bin/sh\necho \"$#:$1:$2\"\n"); chmod(sh.c_str(), 0755); for (int k = 0; k < 3; ++k) CASE("SHELL ", k) { A env; if (k == 1) env = {"SHELL="}; if (k == 2) env = {"SHELL=" + sh}; auto o = app::run("methsearch", {"-U0", "-A", "-Fx", "-I", "-R$(echo $B $[1+1])"}, STD, 30, env); vf::states(); EXPECT(o.rc == 0 && o.out == (k == 2 ? "2:-c:echo 4 2\n" : "4 2\n"), "shell", vf::quote(o.out)); } END_CASE
  for (auto &s : A{"$(", "$(echo", "$(echo $[1)", "$[$(echo]", "$(echo $(echo)", "$[1", "$[", "$(echo $[1]", "$($[)", "$(echo $q", "$(echo $)", "$[(1]", "$[1)]", "$["}) refused("-R" + s, {"-R" + s}); for (auto &s : A{"$(echo", "$[1", "(1", "1)", "1]", ")", "]", "(", "$(echo $[1)", "[1]", "\"", "'", "1 \"", "", " "}) refused("-Q" + s, {"-Q" + s});
}
// ---- the exit status of commands --------------------------------------------------------
static void statuses(int s) { A el = {"$?", "$(true)", "$(false)", "$(exit 3)", "$[$(exit 2), $?]", "$(echo $(exit 4)$?)", "$2?"}; A f; int k = 0; std::string in = std::string(STD) + "4:X.14.14\n"; std::function<void()> go = [&]() { if (!f.empty() && k++ % 4 == s) { std::string fs, w; int st = 0; for (auto &x : f) { fs += x + "|"; if (x == "$?") w += std::to_string(st); else if (x == "$2?") w += " " + std::to_string(st); else if (x == "$(true)") st = 0; else if (x == "$(false)") st = 1; else if (x == "$(exit 3)") st = 3; else if (x[1] == '[') w += std::to_string(st = 2); else { w += "4"; st = 0; } w += "|"; }
      CASE(fs) { auto o = app::run("methsearch", {"-U0", "-A", "-Fx", "-I", "-R" + fs}, in); vf::states(2 * f.size()); vf::outcome(w); EXPECT(o.rc == 0 && o.out == w + "\n" + w + "\n", "status", vf::quote(o.out), " not ", vf::quote(w)); } END_CASE } if ((int)f.size() < vf::tier(3, 4)) for (auto &x : el) { f.push_back(x); go(); f.pop_back(); } }; go(); }
VF_SECTION(statuses_1) { statuses(0); }
VF_SECTION(statuses_2) { statuses(1); }
VF_SECTION(statuses_3) { statuses(2); }
VF_SECTION(statuses_4) { statuses(3); }
// ---- requirements, suppress and abort in searches -------------------------------------------
struct Need { char const *q; std::function<bool(refmeth::RefM const &, P const &)> f; };
static std::vector<Need> needs() { typedef refmeth::RefM R; return {{"1", [](R const &, P const &) { return true; }}, {"0", [](R const &, P const &) { return false; }}, {"$o == 3", [](R const &, P const &l) { return order(l) == 3; }}, {"$o >= 3 || $u == 2", [](R const &r, P const &l) { return order(l) >= 3 || r.hunts() == 2; }}, {"$b < 3", [](R const &r, P const &) { return r.maxblows() < 3; }}, {"$l ~~ \"12*\"", [](R const &, P const &l) { return l[0] == 0 && l[1] == 1; }}, {"$l lt \"1342\"", [](R const &, P const &l) { return str(l) < "1342"; }}, {"$u * $o % 2", [](R const &r, P const &l) { return r.hunts() * order(l) % 2 != 0; }}, {"$B - $o", [](R const &, P const &l) { return (int)l.size() != order(l); }}, {"$1h eq $3h", [](R const &r, P const &) { return r.m[0] == r.m[2]; }}, {"$1h.$2h ne $3h.$4h, $o != 2", [](R const &, P const &l) { return order(l) != 2; }}, {"$o == 1 ? $b == 2 : $u == 1", [](R const &r, P const &l) { return order(l) == 1 ? r.maxblows() == 2 : r.hunts() == 1; }}, {"1 / 0", [](R const &, P const &) { return false; }}, {"1 || 1 % 0", [](R const &, P const &) { return true; }}, {"$2,3p eq $3,4p", [](R const &r, P const &) { return r.m[1] == r.m[2] && r.m[2] == r.m[3]; }}, {"$p ~~ \"1*\"", [](R const &, P const &) { return false; }}}; }

struct Listing { A pn, lh; std::vector<refmeth::RefM> r; std::vector<P> l; }; // the methods of a search, in the order they are found
static Listing listing(W const &w, A const &a) {
  A b(a); b.push_back("-R$p"); auto o = app::run("methsearch", b); Listing L; std::stringstream s(o.out); std::string x; while (getline(s, x)) { std::vector<Sw> q; if (!parse_pn(w.n, x, q)) continue; L.pn.push_back(x); L.r.emplace_back(w.n, q); P l = id(w.n); for (auto &c : q) l = mul(l, sw_perm(c)); L.l.push_back(l); } return L;
}
static A base(W const &w) { A a = w.args(); for (auto &x : A{"-A", "-Fx"}) a.push_back(x); for (char c : w.force) a.push_back(std::string("-") + c); return a; }
static std::string show(std::string const &s) { return s.size() > 80 ? s.substr(0, 80) + "..." : s; }
static void searches(std::function<void(W const &, A const &, Listing const &)> f) {
  std::vector<std::unique_ptr<W>> ws; ws.emplace_back(new W(4, 1, 0)); ws.emplace_back(new W(3, 0, 0, 4)); ws.emplace_back(new W(4, 0, 0, 3)); ws.emplace_back(new W(5, 1, 0, 0, "s")); ws.emplace_back(new W(4, 2, 0)); if (vf::tier(0, 1)) { ws.emplace_back(new W(4, 1, 1, 0, "s")); ws.emplace_back(new W(6, 1, 0, 0, "s2")); }
  for (auto &w : ws) { A a = base(*w); Listing L = listing(*w, a); CASE("listing of ", w->name(), w->force) { vf::states(L.pn.size()); EXPECT(L.pn.size() == w->all.size() && !L.pn.empty(), "listing", L.pn.size(), " not ", w->all.size()); } END_CASE f(*w, a, L); }
}
static A with(A a, A const &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
VF_SECTION(requirements) { // -Q finds those for which it is true, in the same order; several must all be true
  auto ns = needs(); searches([&](W const &w, A const &a, Listing const &L) { for (size_t i = 0; i < ns.size(); ++i) for (size_t j = 0; j <= ns.size(); ++j) for (int how = 0; how < 4; ++how) { if (j == ns.size() && how > 1) continue; if (w.L < 4 && (i == 9 || i == 10 || i == 14 || j == 9 || j == 10 || j == 14)) continue; if (vf::tier(1, 0) && j < ns.size() && (i + j * 3 + how) % 3) continue;
      A q; std::string x = ns[i].q, y = j < ns.size() ? ns[j].q : ""; bool err2 = i == 12; if (j == ns.size()) q = {"-Q" + x}; else if (how < 2) q = {"-Q" + x, "--require=" + y}; else q = {"-Q(" + x + (how == 2 ? ") && (" : ") || (") + y + ")"}; CASE(w.name(), w.force, " ", joined(q)) {
        std::string want; size_t n = 0; for (size_t k = 0; k < L.pn.size(); ++k) { auto ok = [&](size_t z) { return ns[z].f(L.r[k], L.l[k]); }; bool t = ok(i), e1 = err2 || (i == 15), b; if (j == ns.size()) b = t; else if (how < 2 || how == 2) b = t && ok(j); else b = !e1 && (t || ok(j)); if (b) { ++n; want += how % 2 ? "" : std::to_string(n) + " " + L.pn[k] + "\n"; } }
        auto o = app::run("methsearch", with(with(a, q), how % 2 ? A{"-q", "--raw-count"} : A{"-R$# $p"})); if (how % 2) want = std::to_string(n) + "\n"; vf::states(L.pn.size()); vf::outcome(o.out); EXPECT(o.rc == 0 && o.err.empty() && o.out == want, "required", o.rc, " ", show(o.out), " not ", show(want), o.err.substr(0, 80)); } END_CASE } }); }
VF_SECTION(keywords) { // suppress hides a method which is still numbered and counted; abort ends the search before it
  auto ns = needs(); searches([&](W const &w, A const &a, Listing const &L) { for (size_t i = 0; i < ns.size(); ++i) { if (w.L < 4 && (i == 9 || i == 10 || i == 14)) continue; if (i == 12 || i == 15) continue; std::string c = ns[i].q; for (int how = 0; how < 12; ++how) CASE(w.name(), w.force, " ", c, " ", how) {
      A q; std::string want; std::map<std::string, int> h; size_t n = 0; bool over = false; for (size_t k = 0; k < L.pn.size(); ++k) { bool t = ns[i].f(L.r[k], L.l[k]); std::string no = std::to_string(k + 1); ++n; if (how == 10 && !t) ++h[str(L.l[k])]; else if (how != 10) ++h[str(L.l[k])]; if (over) continue; switch (how) { case 0: case 1: case 2: case 3: if (!t) want += no + " " + L.pn[k] + (how == 1 ? "x" : "") + "\n"; break; case 4: case 5: case 6: if (t) over = true; else want += no + " " + L.pn[k] + "\n"; break; case 7: if (t) over = true; else want += L.pn[k] + "\n"; break; case 8: if (t) over = true; else if (k % 2 == 0) want += no + "\n"; break; case 9: if (!t) want += L.pn[k] + "\n"; break; } }
      switch (how) { case 0: q = {"-R$# $p$[(" + c + ") ? suppress : \"\"]", "--raw-count"}; want += std::to_string(n) + "\n"; break; case 1: q = {"-R$# $p$[(" + c + ") && suppress, \"x\"]"}; break; case 2: q = {"-R$[(" + c + ") ? (suppress) : \"\"]$# $p"}; break; case 3: q = {"-R$# $p$(true $[((" + c + ") == 0) || suppress])"}; break;
        case 4: q = {"-R$# $p$[(" + c + ") ? abort : \"\"]"}; break; case 5: q = {"-R$[(" + c + ") ? abort : \"\"]$# $p"}; break; case 6: q = {"-R$# $p$(true $[((" + c + ") == 0) || abort])"}; break; case 7: q = {"-R$p", "-Q(" + c + ") ? abort : 1"}; break; case 8: q = {"-R$#$[(" + c + ") ? abort : $# % 2 ? \"\" : suppress]"}; break; case 9: q = {"-R$p", "-Q(" + c + ") ? \"\" : 1"}; break;
        case 10: q = {"-q", "-H$c $l$[(" + c + ") ? suppress : \"\"]"}; break; case 11: q = {"-R$p$[suppress]", "-H$c $l"}; break; }
      if (how == 10 || how == 11) for (auto &e : h) want += std::to_string(e.second) + " " + e.first + "\n"; if (n > 400 && (how == 3 || how == 6)) return;
      auto o = app::run("methsearch", with(a, q), "", 120); std::string got = o.out; if (how == 0 || how >= 10) { A g; std::stringstream s(got); std::string x; while (getline(s, x)) if (!x.empty()) g.push_back(x); std::sort(g.begin(), g.end()); A v; std::stringstream s2(want); while (getline(s2, x)) v.push_back(x); std::sort(v.begin(), v.end()); got = ""; want = ""; for (auto &x : g) got += x + "\n"; for (auto &x : v) want += x + "\n"; }
      vf::states(L.pn.size()); vf::outcome(got); EXPECT(o.rc == 0 && o.err.empty() && got == want, "keyword", o.rc, " ", joined(q), " ", show(got), " not ", show(want), o.err.substr(0, 80)); } END_CASE }
    for (size_t k = 1; k <= std::min<size_t>(L.pn.size() + 1, 20); ++k) CASE(w.name(), w.force, " abort at ", k) { std::string want; for (size_t j = 0; j + 1 < k && j < L.pn.size(); ++j) want += L.pn[j] + "0\n"; auto o = app::run("methsearch", with(a, {"-R$p$[$# == " + std::to_string(k) + " && abort]"})); vf::states(k); EXPECT(o.rc == 0 && o.out == want, "abort-at", show(o.out), " not ", show(want)); } END_CASE }); }
