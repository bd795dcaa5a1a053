// P22: rowcalc evaluates every row expression as documented (rowexpr in the
// methsearch manual): precedence, associativity, rows with the treble or the
// tenors left out, sets, groups, files, commands and standard input.
#include "app.h"
#include "ref.h"
#include "refpn.h"
#include "vf.h"
#include <algorithm>
using namespace ref;
typedef std::vector<P> L; // the rows of an expression, with repetitions
static P strip(P p) { while (p.size() > 1 && p.back() == (int)p.size() - 1) p.pop_back(); return p; }
struct Bad {};
static bool torow(std::string s, P &r) { // the treble and any tenors may be left out
  if (s.find('1') == std::string::npos) s = "1" + s;
  r.clear(); for (char c : s) { char const *q = strchr(SYM, c); if (!q || !c) return false; r.push_back(q - SYM); }
  std::vector<char> seen(r.size(), 0); for (int x : r) { if (x >= (int)r.size() || seen[x]) return false; seen[x] = 1; } return true;
}
struct Ev { // evaluates a list of tokens
  std::vector<std::string> t; size_t i = 0; std::map<std::string, L> files; bool ambiguous = false;
  bool more() const { return i < t.size(); } bool is(char const *s) const { return more() && t[i] == s; }
  bool lit(std::string const &s) const { return !s.empty() && strchr(SYM, s[0]); }
  static P conj(P const &a, P const &b) { return mul(mul(inv(b), a), b); }
  template <class F> L cross(L const &a, L const &b, F f) { L v; for (auto &x : a) for (auto &y : b) v.push_back(f(x, y)); return v; }
  L all() { L v = diff(); if (more()) throw Bad(); return v; }
  L diff() { L a = mult(); while (is("-")) { ++i; L b = mult(), c; std::set<P> no; for (auto &x : b) no.insert(strip(x)); for (auto &x : a) if (!no.count(strip(x))) c.push_back(x); a = c; } return a; }
  L mult() { L a = power(); while (is("*") || is("/") || is("\\")) { char op = t[i++][0]; L b = power(); a = cross(a, b, [&](P const &x, P const &y) { return op == '*' ? mul(x, y) : op == '/' ? mul(x, inv(y)) : mul(inv(x), y); }); } return a; }
  L power() {
    L a = atom(); if (!is("^")) return a; ++i; int s = 0; if (is("-")) s = -1, ++i; else if (is("+")) s = 1, ++i;
    bool alone = more() && !(i + 1 < t.size() && t[i + 1] == "^"); P r;
    if (more() && t[i].find_first_not_of("0123456789") == std::string::npos && alone && (s || t[i].size() == 1 || !torow(t[i], r))) { long long k = std::stoll(t[i++]); if (s < 0) k = -k; L v; for (auto &x : a) v.push_back(pw(k < 0 ? inv(x) : x, k < 0 ? -k : k)); return v; }
    if (s) throw Bad(); if (is("(") && i + 2 < t.size() && t[i + 2] == ")" && t[i + 1].size() == 1) ambiguous = true;
    L b = power(); return cross(a, b, conj);
  }
  L list(char const *end) { L v; if (is(end)) throw Bad(); while (true) { L a = diff(); v.insert(v.end(), a.begin(), a.end()); if (is(",")) { ++i; continue; } if (!is(end)) throw Bad(); ++i; return v; } }
  static L group(L const &g) { std::set<P> s; size_t n = 1; for (auto &x : g) n = std::max(n, x.size()); std::vector<P> todo = {id(n)}; s.insert(todo[0]); while (!todo.empty()) { P p = todo.back(); todo.pop_back(); for (auto &x : g) { P q = mul(p, ext(x, n)); if (s.insert(q).second) todo.push_back(q); } } return L(s.begin(), s.end()); }
  L atom() {
    if (!more()) throw Bad(); std::string s = t[i++];
    if (s == "(") { L v = diff(); if (!is(")")) throw Bad(); ++i; return v; }
    if (s == "{") return list("}"); if (s == "<") return group(list(">"));
    if (files.count(s)) return files[s]; P r; if (lit(s) && torow(s, r)) return {r}; throw Bad();
  }
};
static std::vector<std::string> lines(std::string const &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
static std::string join(std::vector<std::string> const &t, char const *sep = " ") { std::string s; for (auto &x : t) s += (s.empty() ? "" : sep) + x; return s; }
static std::vector<std::string> show(L const &l, int n) { std::vector<std::string> v; for (auto &x : l) v.push_back(n ? str(ext(strip(x), n)) : str(strip(x))); std::sort(v.begin(), v.end()); return v; }
struct Item { std::string text; bool ok; L want; };
// Many expressions in one run, on standard input, each followed by a mark.
static void batch(std::vector<Item> const &items, std::vector<std::string> args = {}, int n = 8) {
  static std::string const mark = "7654321"; std::string mk; { P r; torow(mark, r); mk = str(ext(r, std::max(n, 7))); }
  std::string in; size_t bad = 0; for (auto &x : items) { in += x.text + "\n" + mark + "\n"; bad += !x.ok; }
  args.push_back("-b" + std::to_string(n)); auto o = app::run("rowcalc", args, in); EXPECT(o.rc == 0, "status", o.rc, " ", o.err.substr(0, 200));
  auto out = lines(o.out); size_t k = 0, errs = 0;
  for (auto &x : items) {
    std::vector<std::string> got; while (k < out.size() && out[k] != mk) got.push_back(out[k++]); EXPECT(k < out.size(), "output", "stopped at ", x.text); if (k >= out.size()) return; ++k;
    std::sort(got.begin(), got.end()); auto want = x.ok ? show(x.want, n) : std::vector<std::string>(); EXPECT(got == want, "rows", x.text, ": ", join(got), " not ", x.ok ? join(want) : "refused"); vf::states(); vf::outcome(join(want));
  }
  for (auto &l : lines(o.err)) errs += l.compare(0, 5, "Error") == 0; EXPECT(errs == bad, "refusals", errs, " refused, not ", bad);
}
static bool eval(std::vector<std::string> const &t, Item &it, std::map<std::string, L> const &files = {}) {
  Ev e; e.t = t; e.files = files; it.text = join(t); it.want.clear(); it.ok = true; try { it.want = e.all(); } catch (Bad) { it.ok = false; } return !e.ambiguous;
}
static void each(std::vector<std::string> const &alpha, int len, std::vector<std::string> pre, std::function<void(std::vector<std::string> const &)> f) { f(pre); if (!len) return; for (auto &a : alpha) { auto p = pre; p.push_back(a); each(alpha, len - 1, p, f); } }
// ---- literals --------------------------------------------------------
VF_SECTION(literals) {
  for (std::string a : {"1", "2", "3", "4", "0", "21", "E", "T"}) CASE(a) {
    std::vector<Item> v; std::vector<std::string> al = {"", "1", "2", "3", "4", "0", "E"};
    std::vector<std::string> w = {a}; for (int k = 0; k < vf::tier(3, 4); ++k) { std::vector<std::string> nx; for (auto &s : w) for (auto &c : al) nx.push_back(s + c); std::sort(nx.begin(), nx.end()); nx.erase(std::unique(nx.begin(), nx.end()), nx.end()); w = nx; }
    for (auto &s : w) { Item it; if (eval({s}, it)) v.push_back(it); bool num = s.find_first_not_of("0123456789") == std::string::npos; if (num) for (std::string sg : {"", "-", "+"}) { std::vector<std::string> t = {"23451", "^"}; if (!sg.empty()) t.push_back(sg); t.push_back(s); Item i2; if (eval(t, i2)) v.push_back(i2); } }
    batch(v, {}, 12);
  } END_CASE
}
VF_SECTION(spacing) { // blanks are not needed
  for (std::string op : {"*", "/", "\\", "^", "-", "^-", "^+"}) CASE(op) { std::vector<Item> v; for (std::string a : {"2341", "{2341, 1324}", "<2341>", "(2341)"}) for (std::string b : {"2143", "3", "{2143,12}", "< (2143),1324 >"}) for (std::string sp : {"", " ", "\t"}) {
      if (op.size() == 2 && b != "3") continue; Ev e; std::string s; std::vector<std::string> t; for (char c : a + " " + op + " " + b + " ") { if (isdigit(c)) s += c; else { if (!s.empty()) t.push_back(s); s.clear(); if (c != ' ') t.push_back(std::string(1, c)); } } Item it; if (!eval(t, it)) continue; it.text = sp + a + sp + op + sp + b + sp; if (it.text.find("<(") == std::string::npos) v.push_back(it); } batch(v); } END_CASE
}
// ---- operators on rows --------------------------------------------------
VF_SECTION(operators) {
  std::vector<std::string> R = {"2341", "21", "1342"}, O = {"*", "/", "\\", "^", "-"}, E = {"2", "-1", "3"};
  for (auto &o1 : O) for (auto &o2 : O) for (auto &o3 : O) CASE(o1 + o2 + o3) {
    std::vector<Item> v; std::vector<std::string> os = {o1, o2, o3}; each(R, 4, {}, [&](std::vector<std::string> const &r) { if (r.size() < 2) return; std::vector<std::string> t = {r[0]}; for (size_t i = 1; i < r.size(); ++i) { t.push_back(os[i - 1]); t.push_back(r[i]); }
      int k = r.size(); for (int a = 0; a < k; ++a) for (int b = a; b < k; ++b) { auto u = t; if (a < b) { u.insert(u.begin() + 2 * b + 1, ")"); u.insert(u.begin() + 2 * a, "("); } else if (a) continue; Item it; if (eval(u, it)) v.push_back(it); } });
    for (auto &e : E) for (auto &a : R) for (auto &b : R) { std::vector<std::string> t = {a, o1, b, "^"}; if (e[0] == '-') { t.push_back("-"); t.push_back(e.substr(1)); } else t.push_back(e); t.push_back(o2); t.push_back(a); t.push_back(o3); t.push_back(b); Item it; if (eval(t, it)) v.push_back(it); }
    batch(v);
  } END_CASE
}
// ---- every short sequence of tokens is accepted or refused ----------------
VF_SECTION(grammar) {
  std::vector<std::string> T = {"2143", "2", "(", ")", "{", "}", "<", ">", ",", "*", "^", "-", "+"};
  for (auto &a : T) for (auto &b : T) CASE(a + " " + b) { std::vector<Item> v; each(T, vf::tier(2, 3), {a, b}, [&](std::vector<std::string> const &t) { Item it; if (eval(t, it)) v.push_back(it); }); batch(v); } END_CASE
}
// ---- sets within sets, on both sides of every operator --------------------
static std::vector<std::string> toks(std::string const &s) { std::vector<std::string> t; std::string w; for (char c : s + " ") { if (strchr(SYM, c)) w += c; else { if (!w.empty()) t.push_back(w); w.clear(); if (c != ' ') t.push_back(std::string(1, c)); } } return t; }
static std::vector<std::string> sets(int depth) {
  std::vector<std::string> a = {"2143", "{1324,2143}", "<231>"}; if (!depth) return a; auto b = sets(depth - 1); auto v = b;
  for (size_t i = 0; i < b.size(); ++i) { v.push_back("{" + b[i] + ",1243}"); v.push_back("(" + b[i] + "-2143)"); if (i < 6) { v.push_back("<" + b[i] + ">"); for (size_t j = 0; j < std::min<size_t>(b.size(), 3); ++j) { v.push_back("{" + b[i] + "," + b[j] + "}"); v.push_back("(" + b[i] + "*" + b[j] + ")"); v.push_back("(" + b[i] + "^" + b[j] + ")"); } } }
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
VF_SECTION(sets) {
  auto S = sets(vf::tier(1, 2)); if (vf::tier(0, 1)) { auto d = sets(2); S.assign(d.begin(), d.end()); }
  for (auto &a : S) for (std::string op : {"*", "/", "\\", "^", "-"}) CASE(a + " " + op) { std::vector<Item> v; size_t tot = 0; for (auto &b : S) { Item it; if (!eval(toks(a + op + b), it) || it.want.size() > 3000) continue; it.text = "{" + a + op + b + ",1324}"; it.want.push_back(P{0, 2, 1, 3}); for (size_t k; (k = it.text.find("<(")) != std::string::npos;) it.text.insert(k + 1, " "); tot += it.want.size(); v.push_back(it); } batch(v); vf::states(tot); } END_CASE
}
// ---- the same sets from files, commands and standard input ----------------
static std::string shown(std::string e) { for (size_t k; (k = e.find("<(")) != std::string::npos;) e.insert(k + 1, " "); return e; }
VF_SECTION(sources) {
  std::vector<std::string> seps = {"\n", " ", ",", ";", ":", "\t", "\r\n", ", \n"}; L const rows = {{1, 0}, {0, 2, 1}, {3, 2, 1, 0}};
  std::vector<std::string> ops = {"*", "/", "\\", "^", "-"}; std::vector<std::string> others = {"2143", "{1324,2143}", "<2341>", "F", "{F,2143}", "{2143-2143,F}", "(F*{21,12})"};
  for (std::string src : {"file", "command", "stdin"}) for (auto &op : ops) for (auto &o : others) for (int side = 0; side < 2; ++side) for (int w = 0; w < 3; ++w) CASE(src + " " + op + " " + o + (side ? " right" : " left") + std::to_string(w)) {
    std::string body; for (auto &r : rows) body += str(r) + seps[(w * 7 + op[0] + o.size()) % seps.size()]; std::string f = app::put("rows", body), g = app::put("rows2", "2143\n1342\n");
    std::string S = src == "file" ? "<(" + f + ")" : src == "command" ? "$(/bin/cat " + f + ")" : "<(-)"; std::string Z = w == 0 ? "Z" : w == 1 ? "{Z,123}" : "(2143*Z)";
    std::string e = side ? o + op + Z : Z + op + o; std::vector<std::string> t; for (auto &x : toks(e)) t.push_back(x); Item it; // F and Z are symbols too
    std::map<std::string, L> files; files["Z"] = rows; files["F"] = {{1, 0, 3, 2}, {0, 2, 3, 1}}; if (!eval(t, it, files)) return;
    std::string txt; for (char c : shown(e)) txt += c == 'Z' ? S : c == 'F' ? "<( " + g + " )" : std::string(1, c);
    auto r = app::run("rowcalc", {"-b4", txt}, src == "stdin" ? body : ""); auto got = lines(r.out); std::sort(got.begin(), got.end()); auto want = show(it.want, 4); EXPECT(got == want && r.rc == 0, "rows", txt, ": ", join(got), " not ", join(want), " status ", r.rc, r.err.substr(0, 100)); vf::states();
    auto c = app::run("rowcalc", {"-b4", "-c", txt}, src == "stdin" ? body : ""); EXPECT(c.rc == 0 && c.out == std::to_string(want.size()) + "\n", "count", c.out);
  } END_CASE
}
VF_SECTION(formats) {
  std::vector<std::string> al = {"", " ", ",", ";", ":", "\t", "\r", "\n", "\n\n", " , "};
  for (auto &a : al) for (auto &b : al) for (auto &c : al) for (int bom = 0; bom < 2; ++bom) CASE(vf::cat(vf::quote(a), vf::quote(b), vf::quote(c), bom)) {
    std::string f = app::put("rows", (bom ? "\xEF\xBB\xBF" : "") + a + "2143" + b + "321" + c); bool two = !b.empty(); std::string want = two ? "2143\n3214\n" : "";
    for (std::string S : {"<(" + f + ")", "$(/bin/cat " + f + ")", std::string("<(-)")}) { if (bom && S[0] == '$') continue; auto r = app::run("rowcalc", {"-b4", S}, S == "<(-)" ? (bom ? "\xEF\xBB\xBF" : "") + a + "2143" + b + "321" + c : ""); EXPECT(two ? r.rc == 0 && r.out == want : r.rc == 1 && r.out.empty() && !r.err.empty(), "rows", S, r.rc, r.out, r.err.substr(0, 80)); vf::states(); }
  } END_CASE
  CASE("missing file") { auto r = app::run("rowcalc", {"<(" + app::work() + "/none)"}); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "status", r.rc, r.err); } END_CASE
  CASE("empty file") { app::put("none", ""); auto r = app::run("rowcalc", {"{<(" + app::work() + "/none),21}"}); EXPECT(r.rc == 0 && r.out == "21\n", "rows", r.rc, r.out, r.err); } END_CASE
}
// ---- the number of bells ------------------------------------------------
VF_SECTION(bells) {
  auto all = perms_upto(vf::tier(4, 5)); for (auto &p : all) if (!p.empty()) for (int b = 0; b <= 7; ++b) CASE(str(p) + " " + std::to_string(b)) {
    for (int trebleless = 0; trebleless < 2; ++trebleless) { std::string s = str(p); if (trebleless) { if (p[0] || p.size() < 2) continue; s = s.substr(1); }
      for (int c = 0; c < 2; ++c) { std::vector<std::string> a; if (b) a.push_back("-b" + std::to_string(b)); if (c) a.push_back("-c"); a.push_back(s); auto r = app::run("rowcalc", a); bool ok = true; if (b) for (int i = 0; i < b; ++i) ok = ok && at(p, i) < b; P q = b ? ext(p, b) : p;
        if (ok) { q.resize(b ? b : p.size()); EXPECT(r.rc == 0 && r.err.empty() && r.out == (c ? "1" : str(q)) + "\n", "rows", s, " ", r.rc, r.out, r.err); } else EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "refused", s, " ", r.rc, r.out); vf::states(); } }
  } END_CASE
  for (int b : {-1, 256, 257, 1000}) CASE(b) { auto r = app::run("rowcalc", {"-b" + std::to_string(b), "21"}); EXPECT(r.rc == 1 && r.out.empty(), "refused", r.rc, r.out); } END_CASE
}
VF_SECTION(several) { // each argument is an expression; the first refused ends the run
  std::vector<std::string> A = {"21", "2143*<231>", "22", "2^", "{321,21}"}; each(A, vf::tier(3, 4), {}, [&](std::vector<std::string> const &t) { if (t.empty()) return; CASE(join(t)) {
    std::vector<std::string> want; bool bad = false; for (auto &x : t) { Item it; eval(toks(x), it); if (!it.ok) { bad = true; break; } auto v = show(it.want, 4); want.insert(want.end(), v.begin(), v.end()); }
    std::vector<std::string> a = {"-b4"}; a.insert(a.end(), t.begin(), t.end()); auto r = app::run("rowcalc", a); auto got = lines(r.out); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); EXPECT(got == want && r.rc == (bad ? 1 : 0) && r.err.empty() == !bad, "rows", r.rc, " ", join(got), " not ", join(want)); vf::states(); } END_CASE });
}
// ---- -C: changes too ------------------------------------------------------
VF_SECTION(changes_too) {
  for (int n = 2; n <= vf::tier(5, 6); ++n) for (auto &c : changes(n)) CASE(vf::cat(n, " ", pn(c))) {
    for (auto &d : changes(n)) for (std::string op : {"*", "/", "\\", "^", "-"}) { std::string a = pn(c), b = pn(d); P x = sw_perm(c), y = sw_perm(d); P w = op == "*" || op == "/" || op == "\\" ? mul(x, y) : Ev::conj(x, y); if (op == "^") { P r; if (b.find_first_not_of("0123456789") == std::string::npos && b.size() == 1) continue; }
      auto r = app::run("rowcalc", {"-C", "-b" + std::to_string(n), a + op + b}); std::string want = op == "-" ? (x == y ? "" : str(x) + "\n") : str(w) + "\n"; EXPECT(r.rc == 0 && r.out == want, "rows", a, op, b, ": ", r.rc, r.out, r.err); vf::states(); }
    for (auto &p : perms(n)) { Sw s; if (parse_change(n, str(p), s)) continue; auto r = app::run("rowcalc", {"-C", "-b" + std::to_string(n), str(p) + "*" + pn(c)}); EXPECT(r.rc == 0 && r.out == str(mul(p, sw_perm(c))) + "\n", "rows", str(p), r.out, r.err); vf::states(); }
  } END_CASE
  CASE("-C needs -b") { auto r = app::run("rowcalc", {"-C", "21"}); EXPECT(r.rc == 1 && r.out.empty(), "refused", r.rc); } END_CASE
}
