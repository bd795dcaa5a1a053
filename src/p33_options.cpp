// P33: every program reads its command line, and its response files, by the same rules.
#include "app.h"
#include "vf.h"
#include "args.h"
#include <ringing/row.h>
#include <algorithm>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/stat.h>
typedef std::vector<std::string> V;
static std::string join(V const &t, char const *sep = " ") { std::string s; for (auto &x : t) s += (s.empty() ? "" : sep) + x; return s; }
static std::string quote(V const &t) { std::string s; for (auto &x : t) s += "[" + x + "]"; return s; }
static V lines(std::string const &s) { V v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
struct Grab { std::ostream &o; std::streambuf *b; std::ostringstream s; Grab(std::ostream &o) : o(o), b(o.rdbuf(s.rdbuf())) {} ~Grab() { o.rdbuf(b); } };
// ---- the options given to the real parser, and what they set ------------
struct Vals { bool a = false, d = true; int v = 0, n = 0, l = 1; std::string s, o; V m, rest; std::pair<size_t, size_t> r{0, 0}; std::string w, q, x; bool operator==(Vals const &b) const { return a == b.a && d == b.d && v == b.v && n == b.n && l == b.l && s == b.s && o == b.o && m == b.m && rest == b.rest && r == b.r && w == b.w && q == b.q && x == b.x; } std::string str() const { std::ostringstream t; t << "a" << a << " d" << d << " v" << v << " n" << n << " l" << l << " s[" << s << "] o[" << o << "] m" << quote(m) << " r" << r.first << "," << r.second << " w" << w << " q[" << q << "] x[" << x << "] rest" << quote(rest); return t.str(); } };
static std::string delegated, delegated2; static void del(std::string const &s) { delegated += "(" + s + ")"; } static void del2(std::string const &s, arg_parser const &ap) { delegated2 += ap.program_name() + "(" + s + ")"; }
static bool real(V const &args, Vals &r, std::string &err, bool noexpand = false) {
  arg_parser p("/some/where/lt-prog", "Description", "OPTIONS"); ringing::row w; init_val<bool, false> a; init_val<int, 0> n; delegated.clear(); delegated2.clear();
  p.add(new help_opt); p.add(new version_opt); p.add(new boolean_opt('a', "aa", "", a)); p.add(new boolean_opt('d', "dd", "", r.d, false)); p.add(new repeated_boolean_opt('v', "verbose", "", r.v)); p.add(new integer_opt('n', "num", "", "N", n)); p.add(new integer_opt('l', "loop", "", "N", r.l, -1)); p.add(new string_opt('s', "str", "", "S", r.s)); p.add(new string_opt('o', "opt", "", "S", r.o, "dflt")); p.add(new strings_opt('m', "multi", "", "S", r.m)); p.add(new range_opt('r', "range", "", "R", r.r)); p.add(new row_opt('w', "row", "", "R", w)); p.add(new delegate_opt('q', "", "", "S", &del)); p.add(new delegate_opt('\0', "xx", "", "S", &del2)); p.set_default(new strings_opt('\0', "", "", "", r.rest));
  std::vector<char const *> av; av.push_back("/some/where/lt-prog"); for (auto &s : args) av.push_back(s.c_str()); av.push_back(0); Grab g(std::cerr); bool ok = p.parse(args.size() + 1, av.data()); err = g.s.str(); r.a = a; r.n = n; std::ostringstream t; t << w; r.w = t.str(); r.q = delegated; r.x = delegated2; return ok;
}
// ---- the same, from the rules -------------------------------------------
static bool spc(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool number(std::string const &t, long long &v, long long lo, long long hi) { size_t i = 0, j = t.size(); while (i < j && spc(t[i])) ++i; while (j > i && spc(t[j - 1])) --j; bool neg = false; if (i < j && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-'; if (i == j) return false; v = 0; for (; i < j; ++i) { if (t[i] < '0' || t[i] > '9') return false; v = v * 10 + (t[i] - '0'); if (v > 100000000000000ll) return false; } if (neg) v = -v; return v >= lo && v <= hi; }
static bool integer(std::string const &t, int &v) { long long x; if (!number(t, x, -2147483648ll, 2147483647ll)) return false; v = (int)x; return true; }
static bool range(std::string const &t, std::pair<size_t, size_t> &r) { size_t d = t.find('-'); long long x; size_t a = 0, b = size_t(-1); if (d == std::string::npos) { if (!number(t, x, 0, 1ll << 60)) return false; r = {(size_t)x, (size_t)x}; return true; } if (d) { if (!number(t.substr(0, d), x, 0, 1ll << 60)) return false; a = x; } if (d + 1 < t.size()) { if (!number(t.substr(d + 1), x, 0, 1ll << 60)) return false; b = x; } if (b < a) return false; r = {a, b}; return true; }
static bool row(std::string const &t, std::string &w) { try { ringing::row r(t); std::ostringstream o; o << r; w = o.str(); return true; } catch (std::exception const &) { return false; } } // how rows are written is another property
struct Def { char c; char const *l; int arg; }; // arg: 0 none, 1 needed, 2 optional
static Def const defs[] = {{'a', "aa", 0}, {'d', "dd", 0}, {'v', "verbose", 0}, {'n', "num", 1}, {'l', "loop", 2}, {'s', "str", 1}, {'o', "opt", 2}, {'m', "multi", 1}, {'r', "range", 1}, {'w', "row", 1}, {'q', "", 1}, {0, "xx", 1}};
static bool apply(Def const &d, std::string const &arg, Vals &r) { switch (d.c) { case 'a': r.a = true; return true; case 'd': r.d = false; return true; case 'v': ++r.v; return true; case 'n': return integer(arg, r.n); case 'l': if (arg.empty()) { r.l = -1; return true; } return integer(arg, r.l); case 's': r.s = arg; return true; case 'o': r.o = arg.empty() ? "dflt" : arg; return true; case 'm': r.m.push_back(arg); return true; case 'r': return range(arg, r.r); case 'w': return row(arg, r.w); case 'q': r.q += "(" + arg + ")"; return true; default: r.x += "prog(" + arg + ")"; return true; } }
static bool expected(V const &t, Vals &r) {
  bool only = false; for (size_t i = 0; i < t.size(); ++i) { std::string const &s = t[i]; if (only || s.empty() || s[0] != '-' || s == "-") { r.rest.push_back(s); continue; } if (s == "--") { only = true; continue; }
    if (s[1] == '-') { size_t e = s.find('='); std::string nm = s.substr(2, e == std::string::npos ? e : e - 2); Def const *d = 0; for (auto &x : defs) if (*x.l && nm == x.l) d = &x; if (!d) return false; bool has = e != std::string::npos; if (has && !d->arg) return false; if (!has && d->arg == 1) return false; if (!apply(*d, has ? s.substr(e + 1) : "", r)) return false; continue; }
    for (size_t j = 1; j < s.size(); ++j) { Def const *d = 0; for (auto &x : defs) if (x.c == s[j]) d = &x; if (!d) return false; if (!d->arg) { if (!apply(*d, "", r)) return false; continue; } std::string a = s.substr(j + 1); if (a.empty() && d->arg == 1) { if (i + 1 >= t.size() || (t[i + 1].size() > 1 && t[i + 1][0] == '-')) return false; a = t[++i]; } if (!apply(*d, a, r)) return false; break; } }
  return true;
}
static void check(V const &t) { Vals r, w; std::string err; bool ok = real(t, r, err), want = expected(t, w); vf::states(); EXPECT(ok == want, "accepted", quote(t), ok ? " accepted" : " refused", " ", err); EXPECT(!ok || r == w, "values", quote(t), " set ", r.str(), " not ", w.str()); EXPECT(ok ? err.empty() : err.compare(0, 6, "prog: ") == 0 && err.find('\n') == err.size() - 1, "message", quote(t), " said ", err); vf::outcome(want ? std::to_string(w.rest.size()) : "refused"); }
static V const tokens = {"-a", "-av", "-vav", "-d", "-n", "-n3", "-n=3", "-nx", "-n-3", "-an", "-an7", "--num=3", "--num", "--num=", "--num=4=5", "-l", "-l4", "-lx", "-la", "--loop", "--loop=4", "--loop=", "-s", "-sfoo", "-s-", "--str=foo", "--str=", "--str=a=b", "-o", "-ofoo", "--opt", "--opt=x", "-m", "-mp", "--multi=q r", "-r1-3", "-r3-1", "-r-4", "-r4-", "-w2143", "-wx", "-w11", "-w312", "-q", "-qfoo", "--q", "--xx", "--xx=1", "--aa", "--aa=1", "--aa=", "--a", "--unknown", "-Z", "-aZv", "--", "---", "-", "foo", "", "7", "-7", "-dv", "--verbose", "=", "a=b"};
VF_SECTION(sequences) {
  size_t N = tokens.size(); CASE("none") { check({}); } END_CASE
  for (size_t i = 0; i < N; ++i) CASE(tokens[i] + " and up to " + (vf::tier(1, 2) > 1 ? "three" : "two") + " more") { check({tokens[i]}); for (auto &b : tokens) { check({tokens[i], b}); for (auto &c : tokens) { check({tokens[i], b, c}); if (vf::tier(0, 1)) for (auto &d : tokens) check({tokens[i], b, c, d}); } } } END_CASE
}
VF_SECTION(clusters) { // every short cluster of letters
  std::string al = "advnlso-1Zq="; int L = vf::tier(4, 6); for (char c0 : al) for (char c1 : al) CASE(std::string("-") + c0 + c1 + "...") { std::vector<std::string> q = {std::string("-") + c0, std::string("-") + c0 + c1}; for (size_t i = 0; i < q.size(); ++i) { check({q[i]}); check({q[i], "5"}); check({q[i], "-a"}); if (i && (int)q[i].size() < L + 1) for (char c : al) q.push_back(q[i] + c); } } END_CASE
}
VF_SECTION(numbers) { // every short text as an integer, a range and a row
  std::string al = "0129-+ x."; int L = vf::tier(4, 6); for (char c0 : al) CASE(std::string("numbers from '") + c0 + "'") { std::vector<std::string> q = {std::string(1, c0)}; for (size_t i = 0; i < q.size(); ++i) { std::string s = q[i]; check({"--num=" + s}); check({"--loop=" + s}); size_t d = s.find('-'); if (d == std::string::npos || s.find('-', d + 1) == std::string::npos) check({"--range=" + s}); if ((int)s.size() < L) for (char c : al) q.push_back(s + c); } } END_CASE
  CASE("limits") { for (auto s : {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967297", "99999999999", "000000000000000000001", "0x10", "1e3", "1 2", "\t5", "5\n"}) { check({std::string("--num=") + s}); check({std::string("-n") + s}); } for (auto s : {"4294967296-4294967297", "0-0", "-", "5-5", "5-4", "10-9", "9-10", " 3 - 4 "}) check({std::string("-r") + s}); } END_CASE
  std::string rl = "1234i "; for (char c0 : rl) CASE(std::string("rows from '") + c0 + "'") { std::vector<std::string> q = {std::string(1, c0)}; for (size_t i = 0; i < q.size(); ++i) { check({"--row=" + q[i]}); if (q[i].size() < 5) for (char c : rl) q.push_back(q[i] + c); } } END_CASE
}
// ---- response files ------------------------------------------------------
static V split(std::string const &s) { V v; bool in = false, esc = false; char q = 0; std::string t; for (char c : s) { if (esc) { t += c; esc = false; in = true; } else if (c == '\\') esc = in = true; else if (q) { if (c == q) q = 0; else t += c; } else if (c == '\'' || c == '"') { q = c; in = true; } else if (spc(c)) { if (in) v.push_back(t); t.clear(); in = false; } else { t += c; in = true; } } if (in) v.push_back(t); return v; }
static void file(std::string const &body) { std::string f = app::put("resp", body); V pre = {"-a", "x"}, want; Vals r, w; V all = pre; for (auto &s : split(body)) all.push_back(s); all.push_back("last"); for (auto &s : all) if (!s.empty() && s[0] == '@') return; std::string err; bool ok = real({"-a", "x", "@" + f, "last"}, r, err), e = expected(all, w); vf::states(); EXPECT(ok == e && (!ok || r == w), "response", "[", body, "] read as ", r.str(), " not ", w.str()); }
VF_SECTION(responses) {
  std::string al = "b '\"\\\n"; int L = vf::tier(6, 8); for (char c0 : al) for (char c1 : al) CASE("files from '" + std::string(1, c0) + c1 + "'") { std::vector<std::string> q; if (c1 == 'b') q.push_back(std::string(1, c0)); q.push_back(std::string() + c0 + c1); size_t first = q.size() - 1; for (size_t i = 0; i < q.size(); ++i) { file(q[i]); if (i >= first && (int)q[i].size() < L) for (char c : al) q.push_back(q[i] + c); } vf::outcome(std::to_string(q.size())); } END_CASE
  CASE("nothing in it") { for (auto s : {"", " ", "\n", "\t \r\n\n", "\f\v"}) file(s); } END_CASE
  for (int k : {1, 6, 7, 8, 9, 15, 16, 17, 31, 33, 100, 1000}) CASE(std::to_string(k) + " arguments") { std::string b; for (int i = 0; i < k; ++i) b += (i % 3 ? "arg" : "'a b'") + std::to_string(i) + (i % 2 ? "\n" : " "); file(b); file(b + std::string(500, 'z')); } END_CASE
  // options split between files: every token either on the command line or in a file
  for (auto &a : tokens) CASE("token " + a) { auto esc = [](std::string const &s) { if (s.empty()) return std::string("''"); std::string r; for (char c : s) { if (spc(c) || c == '\\' || c == '\'' || c == '"') r += '\\'; r += c; } return r; }; for (auto &b : tokens) { Vals w; bool e = expected({a, b, "end"}, w); for (int k = 0; k < 4; ++k) { std::string f = app::put("r1", esc(a) + "\n" + (k & 1 ? esc(b) + "\n" : "")), g = app::put("r2", esc(b)); V t = k == 0 ? V{"@" + f, b, "end"} : k == 1 ? V{"@" + f, "end"} : k == 2 ? V{a, "@" + g, "end"} : V{"@" + app::put("r3", "@" + app::work() + "/r1 end")}; Vals r; std::string err; bool ok = real(t, r, err); vf::states(); EXPECT(ok == e && (!ok || r == w), "response", quote({a, b}), " split ", k, " read as ", r.str(), " not ", w.str()); } } } END_CASE
}
VF_SECTION(nested) { // three files, each holding any two of: a word, itself, another
  V t = {"one", "@1", "@2", "@3", "\"two three\""}; std::string d = app::work() + "/"; int n = t.size(), total = n * n * n * n * n * n; for (int c = 0; c < total; c += 1) { if (vf::tier(1, 0) && c % 7) continue; int k = c; std::vector<V> f(3); for (int i = 0; i < 6; ++i) { f[i / 2].push_back(t[k % n]); k /= n; }
    std::string nm; for (auto &x : f) nm += quote(x) + " "; CASE(nm) { bool loop = false; V all; long budget = 400; std::function<void(int)> go = [&](int i) { if (loop || --budget < 0) { loop = true; return; } for (auto &s : f[i]) { if (s[0] == '@') go(s[1] - '1'); else all.push_back(s[0] == '"' ? "two three" : s); } }; go(0); vf::states(); if (loop) { vf::outcome("loop"); return; } for (int i = 0; i < 3; ++i) { std::string b; for (auto &s : f[i]) b += (s[0] == '@' ? "@" + d + "f" + s.substr(1) : s) + "\n"; app::put("f" + std::to_string(i + 1), b); } Vals r, w; std::string err; bool ok = real({"@" + d + "f1", "end"}, r, err); all.push_back("end"); expected(all, w); EXPECT(ok && r == w, "nested", r.str(), " not ", w.str()); vf::outcome(std::to_string(all.size())); } END_CASE }
}
// ---- the text of --help -------------------------------------------------
static V words(std::string const &s) { V v; std::istringstream i(s); std::string w; while (i >> w) v.push_back(w); return v; }
VF_SECTION(help) {
  V ws = {"a", "to", "word", "longest-word", "medium,", std::string(53, 'w'), std::string(52, 'y'), std::string(20, 'q')}; int n = ws.size();
  for (int k = 0; k < n * n * n; ++k) CASE("description " + std::to_string(k)) { for (int rep = 1; rep < vf::tier(7, 14); ++rep) for (int form = 0; form < 6; ++form) {
      std::string desc; V dw; for (int i = 0; i < rep; ++i) for (int x : {k % n, k / n % n, k / n / n}) { dw.push_back(ws[x]); desc += (desc.empty() ? "" : " ") + ws[x]; }
      arg_parser p("prog", "About", "OPTIONS\nFILE"); bool a; std::string s; std::string head; if (form == 0) { p.add(new boolean_opt('a', "", desc, a)); head = "-a"; } else if (form == 1) { p.add(new boolean_opt('a', "all", desc, a)); head = "-a, --all"; } else if (form == 2) { p.add(new boolean_opt('\0', "all-of-the-things", desc, a)); head = "--all-of-the-things"; } else if (form == 3) { p.add(new string_opt('s', "string", desc, "STR", s)); head = "-s, --string=STR"; } else if (form == 4) { p.add(new string_opt('s', "string", desc, "STR", s, "x")); head = "-s, --string[=STR]"; } else { p.add(new string_opt('s', "string-with-long-name", desc, "STR", s)); head = "-s, --string-with-long-name=STR"; }
      Grab g(std::cout); p.help(); V l = lines(g.s.str()), got; bool in = false; size_t hd = 0; for (size_t i = 0; i < l.size(); ++i) { if (!in && l[i].compare(0, head.size() + 2, "  " + head) == 0) { in = true; hd = i; for (auto &x : words(l[i].substr(head.size() + 2))) got.push_back(x); EXPECT(l[i].size() <= 78, "help", "line of ", l[i].size()); continue; } if (in) { if (l[i].empty()) break; EXPECT(l[i].compare(0, 25, std::string(25, ' ')) == 0 && l[i].size() <= 78 && (l[i].size() == 25 || l[i][25] != ' '), "help", "line [", l[i], "]"); for (auto &x : words(l[i])) got.push_back(x); } }
      EXPECT(in && join(got, "") == join(dw, ""), "help", "printed ", join(got)); EXPECT(l.size() > 3 && l[0] == "About" && l[2] == "Usage: prog OPTIONS" && l[3] == "  or:  prog FILE", "help", "top ", join(l)); vf::states(); (void)hd; } vf::outcome("ok"); } END_CASE
}
// ---- the programs themselves ---------------------------------------------
static V const apps = {"extent", "fextent", "gsiril", "methodlib", "methsearch", "musgrep", "printmethod", "psline", "ringmethod", "rowcalc", "spliceplan", "splices", "touchsearch"};
struct O { char c; std::string l; int arg; };
static std::vector<O> options(std::string const &a) { std::vector<O> v; auto r = app::run(a, {"--help"}); bool list = false; for (auto &l : lines(r.out)) { if (l.size() < 4 || l.compare(0, 2, "  ") || l[2] != '-') continue; list = true; O o{0, "", 0}; size_t i = 2; if (l[3] != '-') { o.c = l[3]; i = 4; if (l.compare(4, 4, ", --") == 0) i = 6; } if (l.compare(i, 2, "--") == 0) { i += 2; while (i < l.size() && (isalnum(l[i]) || l[i] == '-')) o.l += l[i++]; if (i < l.size() && l[i] == '=') o.arg = 1; if (l.compare(i, 2, "[=") == 0) o.arg = 2; } v.push_back(o); } (void)list; return v; }
VF_SECTION(programs) {
  for (auto &a : apps) {
    CASE(a + " --help and --version") { auto h = app::run(a, {"--help"}), q = app::run(a, {"-?"}), v = app::run(a, {"--version"}), w = app::run(a, {"-V"}); EXPECT(h.rc == 0 && h.err.empty() && h.out.find("Usage: ") != std::string::npos && h.out.find("--help") != std::string::npos && h.out == q.out && q.rc == 0, "help", h.rc, q.rc); EXPECT(v.rc == 0 && v.err.empty() && v.out.find(a) != std::string::npos && v.out.find("Ringing Class Library") != std::string::npos && v.out == w.out && w.rc == 0, "version", v.rc, v.out); EXPECT(options(a).size() >= 3, "help", "no options listed"); vf::states(); auto e = app::run(a, {"@" + app::put("r", "--version\n")}); EXPECT(e.rc == 0 && e.out == v.out, "response", e.rc, e.out); } END_CASE
    for (auto &bad : std::vector<V>{{"--no-such-option"}, {"--no-such-option=3"}, {"--=3"}, {"-\x7f"}, {"--help=1"}, {"--version=1"}, {"@/no/such/file"}, {"@" + app::work()}, {"@" + app::work() + "/loop"}}) CASE(a + " " + join(bad)) { app::put("loop", "@" + app::work() + "/loop"); auto r = app::run(a, bad, "1\n"); EXPECT(r.rc > 0 && r.rc < 100 && r.out.empty() && !r.err.empty(), "refused", r.rc, r.out.substr(0, 80), r.err.substr(0, 80)); vf::states(); } END_CASE
    for (auto &o : options(a)) { std::string nm = o.l.empty() ? std::string("-") + o.c : "--" + o.l; CASE(a + " " + nm) { V bad; if (o.arg == 1) { if (!o.l.empty()) bad.push_back("--" + o.l); if (o.c) bad.push_back(std::string("-") + o.c); } else if (o.arg == 0 && !o.l.empty()) bad.push_back("--" + o.l + "=x"); for (auto &b : bad) { auto r = app::run(a, {b}, "1\n"); EXPECT(r.rc > 0 && r.rc < 100 && r.out.empty() && !r.err.empty() && r.err.find(b.substr(0, b.find('='))) != std::string::npos, "refused", b, " ", r.rc, r.out.substr(0, 80), r.err.substr(0, 80)); } vf::states();
        // both names mean the same: with a bad option after it, neither is called unknown
        V both; if (!o.l.empty()) both.push_back("--" + o.l + (o.arg == 1 ? "=1" : "")); if (o.c && o.arg != 2) both.push_back(std::string("-") + o.c + (o.arg == 1 ? "1" : "")); if (o.l != "help" && o.l != "version") for (auto &b : both) { auto r = app::run(a, {b, "--no-such-option"}, "1\n"); EXPECT(r.rc > 0 && r.rc < 100 && r.err.find("Unrecognised option: " + b.substr(0, b.find('='))) == std::string::npos, "known", b, " ", r.rc, r.err.substr(0, 80)); } vf::outcome(std::to_string(o.arg)); } END_CASE }
  }
}
