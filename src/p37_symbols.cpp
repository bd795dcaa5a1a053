// P37: whatever symbols stand for the bells, every program gives the same answer in those symbols.
#include "app.h"
#include "vf.h"
#include <algorithm>
#include <set>
#include <sstream>
typedef std::vector<std::string> V;
static std::string const D = "1234567890ETABCDFGHJKLMNPQRSUVWYZ";
// text standing for bells is marked, so that nothing else is translated
static std::string b(std::string const &s) { return "\1" + s + "\2"; }
static std::string tr(std::string s, std::string const &sym) { for (char &c : s) { size_t k = D.find(c); if (k != std::string::npos) { if (k >= sym.size()) abort(); c = sym[k]; } } return s; }
static std::string in(std::string const &s, std::string const &sym) { std::string o; bool on = false; for (char c : s) if (c == 1) on = true; else if (c == 2) on = false; else o += on ? tr(std::string(1, c), sym) : std::string(1, c); return o; }
static V lines(std::string const &s) { V v; std::istringstream i(s); std::string l; while (getline(i, l)) v.push_back(l); return v; }
static std::string sorted(std::string const &s) { V v = lines(s); std::sort(v.begin(), v.end()); std::string r; for (auto &x : v) r += x + "\n"; return r; }
// the parts of the output which stand for bells
enum Kind { ROWS, FIRST, NOTATION, TEXT, BYTES, LAST, ANYORDER, NOTES, SAID };
static bool rowish(std::string const &s) { if (s.empty()) return false; for (char c : s) if (D.find(c) == std::string::npos) return false; return true; }
static std::string want(std::string const &out, Kind k, std::string const &sym) {
  if (k == BYTES) return out; if (k == ROWS) return tr(out, sym); if (k == ANYORDER) return sorted(tr(out, sym)); std::string r;
  for (auto &l : lines(out)) {
    if (k == SAID) r += (l.empty() || l[0] == '<' ? l : tr(l, sym)) + "\n";
    if (k == FIRST) { size_t t = l.find_first_of("\t:"); if (t == std::string::npos) t = l.size(); r += tr(l.substr(0, t), sym) + l.substr(t) + "\n"; }
    if (k == NOTES) { size_t t = l.find('\t'); if (t == std::string::npos) t = l.size(); std::string q; for (char c : l.substr(0, t)) q += D.find(c) == std::string::npos || c == 'X' ? std::string(1, c) : tr(std::string(1, c), sym); r += q + l.substr(t) + "\n"; }
    if (k == LAST) { size_t t = l.rfind(' '); t = t == std::string::npos ? 0 : t + 1; r += l.substr(0, t) + (rowish(l.substr(t)) ? tr(l.substr(t), sym) : l.substr(t)) + "\n"; }
    if (k == NOTATION) { size_t t = l.find(": "), e = t == std::string::npos ? t : l.find_first_not_of(D, t + 2); if (t != std::string::npos && !l.compare(0, 2, "  ")) { if (e == std::string::npos) e = l.size(); r += l.substr(0, t + 2) + tr(l.substr(t + 2, e - t - 2), sym) + l.substr(e) + "\n"; } else r += l + "\n"; }
    if (k == TEXT) { std::string o; size_t i = 0; while (i < l.size()) { if (l[i] == '(') { size_t e = l.find(')', i); if (e == std::string::npos) e = l.size(); std::string x = l.substr(i + 1, e - i - 1), y = x; y.erase(std::remove_if(y.begin(), y.end(), [](char c) { return c == ' ' || c == 'X' || c == '-'; }), y.end()); if (rowish(y) && l.find("%%") != 0 && l.find("div PB (") == std::string::npos) { std::string q; for (char c : x) q += c == 'X' ? "X" : tr(std::string(1, c), sym); o += "(" + q; } else o += "(" + x; i = e; } else o += l[i++]; } r += o + "\n"; }
  }
  return r;
}
// upper case, lower case, digits in another order, case-sensitive, one with I and O, and one mixing all
static V const SETS = {"ABCDEFGHJKLM", "zywvutsrqponm", "TE0987654321", "aAbBcCdDeEfF", "ABCDEFGHIJOK", "1b2Ca3Zy9T0E"};
struct Ask { std::string prog; V args; std::string input; Kind kind; };
static app::Out go(Ask const &a, std::string const &sym) { V args; for (auto &x : a.args) args.push_back(in(x, sym.empty() ? D : sym)); return app::run(a.prog, args, in(a.input, sym.empty() ? D : sym), 40, sym.empty() ? V() : V{"BELL_SYMBOLS=" + sym}); }
static void same(Ask const &a) {
  auto d = go(a, ""); std::string what = a.prog; for (auto &x : a.args) what += " " + in(x, D);
  EXPECT(d.rc >= 0 && d.rc < 1000, "ends", what, ": ", d.rc); vf::outcome(a.prog + (d.rc ? " refuses" : "")); size_t k = 0;
  for (auto &s : SETS) { auto o = go(a, s); if (a.kind == ANYORDER) o.out = sorted(o.out); vf::states(); std::string w = want(d.out, a.kind, s);
    EXPECT(o.rc == d.rc, "status", what, " with ", s, ": ", o.rc, " not ", d.rc, " ", o.err.substr(0, 80)); if (o.rc != d.rc) continue; if (o.out == w) continue; auto x = lines(w), y = lines(o.out); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
    EXPECT(false, "answer", what, " with ", s, ": line ", i + 1, " is ", i < y.size() ? y[i].substr(0, 60) : "missing", " not ", i < x.size() ? x[i].substr(0, 60) : "there"); ++k; }
  // case makes no difference when all the symbols are of one case
  for (size_t j = 0; j < 3; j += 1) { auto &s = SETS[j]; bool lower = false, upper = false; for (char c : s) { lower |= islower(c) != 0; upper |= isupper(c) != 0; } if (lower && upper) continue; std::string alt = s; for (char &c : alt) c = lower ? toupper(c) : tolower(c); if (alt.find('x') != std::string::npos) continue;
    V args; for (auto &x : a.args) args.push_back(in(x, alt)); auto o = app::run(a.prog, args, in(a.input, alt), 40, {"BELL_SYMBOLS=" + s}); if (a.kind == ANYORDER) o.out = sorted(o.out); vf::states(); EXPECT(o.rc == d.rc && o.out == want(d.out, a.kind, s), "case", what, " in ", alt, " with ", s, ": ", o.rc, " ", o.out.substr(0, 60)); }
}
static std::string name(Ask const &a) { std::string s = a.prog; for (auto &x : a.args) s += " " + in(x, D); if (!a.input.empty()) s += " < " + in(a.input.substr(0, 40), D); return s; }
static V rows(int n) { std::string r(D, 0, n); V v; do v.push_back(r); while (std::next_permutation(r.begin(), r.end())); return v; }
static std::string joined(V const &v) { std::string s; for (auto &x : v) s += x + "\n"; return s; }
// every mask up to a length over bells and wildcards
static V masks(int n, size_t len) { V v(1, ""); size_t a = 0; std::string al = "*?" + D.substr(0, n); for (size_t l = 0; l < len; ++l) { size_t e = v.size(); for (; a < e; ++a) for (char c : al) { if (isdigit(c) && v[a].find(c) != std::string::npos) continue; if (c == '*' && !v[a].empty() && v[a][v[a].size() - 1] == '*') continue; v.push_back(v[a] + c); } } v.erase(v.begin()); return v; }
VF_SECTION(extent) {
  for (int n = 1; n <= 6; ++n) for (V more : {V(), V{"-i"}, V{"-t"}}) { Ask a{"extent", {"-b" + std::to_string(n)}, "", ROWS}; a.args.insert(a.args.end(), more.begin(), more.end()); CASE(name(a)) { same(a); } END_CASE }
  for (auto &m : masks(4, vf::tier(2, 4))) { Ask a{"extent", {"-b4", "-m" + b(m)}, "", ROWS}; CASE(name(a)) { same(a); } END_CASE }
  for (int n : {7, 9, 12}) { Ask a{"extent", {"-b" + std::to_string(n), "-m" + b(D.substr(0, n - 4)) + "*"}, "", ROWS}; CASE(name(a)) { same(a); } END_CASE }
}
VF_SECTION(musgrep) {
  for (int n = 3; n <= 5; ++n) for (auto &m : masks(n, vf::tier(n == 3 ? 3 : 2, n == 5 ? 3 : 4))) { Ask a{"musgrep", {"-b" + std::to_string(n), b(m)}, b(joined(rows(n))), ROWS}; CASE(name(a)) { same(a); } END_CASE }
  for (V more : V{"-i", "-v", "-c"}.size() ? std::vector<V>{{"-b4", "[" + b("12") + "]*"}, {"-b4", "*[" + b("34") + "][" + b("12") + "]"}, {"-b4", b("*1") + "?", b("4*")}, {"-b12", "*" + b("0ET")}} : std::vector<V>()) { Ask a{"musgrep", more, more[0] == "-b12" ? b("1234567890ET\n2143658709TE\nTE0987654321\n") : b(joined(rows(4))), ROWS}; CASE(name(a)) { same(a); } END_CASE }
}
VF_SECTION(rowcalc) {
  auto r3 = rows(3), r4 = rows(4); for (auto &x : r4) { std::string t; for (auto &y : r4) { t += b(x) + "*" + b(y) + "\n" + b(x) + "^-1*" + b(y) + "\n" + b(x) + "/" + b(y) + "\n" + b(x) + "\\" + b(y) + "\n"; } for (int k = -4; k <= 4; ++k) t += b(x) + "^" + std::to_string(k) + "\n"; Ask a{"rowcalc", {}, t, ROWS}; CASE(name(a)) { same(a); } END_CASE }
  Ask a{"rowcalc", {}, b("2143658709TE") + "*" + b("234567890ET1") + "\n" + b("34567890ET12") + "^5\n", ROWS}; CASE(name(a)) { same(a); } END_CASE
}
static V const pn4 = {"&-14-14,12", "&-14-14,14", "-14.12.14-14,12", "&34.12.14,12", "&3.1,1", "14-12-34", "&-1-1,2", "&-4-34,1"}, pn6 = {"&-16-16-16,12", "&-36-14-12-36-14-56,12", "&-3-4-2-3-4-5,2", "&3.1.5.1.5,1", "-16-16-16-16-16-14"};
static std::string pn(std::string const &s) { std::string o; for (char c : s) if (isdigit(c) || c == 'E' || c == 'T') o += b(std::string(1, c)); else o += c; return o; }
VF_SECTION(methods) {
  for (int n : {4, 6}) for (auto &m : n == 4 ? pn4 : pn6) { Ask a{"printmethod", {"-b" + std::to_string(n), pn(m)}, "", ROWS}; CASE(name(a)) { same(a); } END_CASE }
  // every method of up to three changes
  V ch = {"-", "12", "14", "34", "1", "4", "2", "3"}; for (auto &x : ch) for (auto &y : ch) { std::string t; if (x != "-" && y != "-") t = x + "." + y; else t = x + y; if (t[0] == '-') t = "+" + t; Ask a{"printmethod", {"-b4", pn(t)}, "", ROWS}; CASE(name(a)) { same(a); } END_CASE }
  for (int n : {8, 10, 12}) { std::string l = "1" + D.substr(n - 1, 1), t = "&"; for (int i = 0; i < n / 2; ++i) t += "-" + l; Ask a{"printmethod", {"-b" + std::to_string(n), pn(t + ",12")}, "", ROWS}; CASE(name(a)) { same(a); } END_CASE }
  for (auto &m : pn4) for (V more : std::vector<V>{{}, {"-l" + b("2")}, {"-b" + b("3")}, {"-l" + b("3") + ",red,2"}, {"-pall"}, {"-pnone"}, {"-n"}}) { Ask a{"psline", more, "", TEXT}; a.args.push_back("4:" + pn(m)); CASE(name(a)) { same(a); } END_CASE }
}
VF_SECTION(methsearch) {
  std::vector<V> as; for (V base : std::vector<V>{{"-b4", "-U1"}, {"-b4", "-G1", "-s"}, {"-b5", "-G1", "-s"}, {"-b4", "-U0", "-n4"}, {"-b3", "-U0", "-n4"}}) for (V f : std::vector<V>{{"-R$p $l"}, {"-R$r"}, {"-R$Q"}, {"-H$l"}}) { if (f[0] == "-R$r" && base[1] == "-U0") continue; V v = base; v.push_back("-q"); v.insert(v.end(), f.begin(), f.end()); as.push_back(v); }
  for (auto &v : as) { Ask a{"methsearch", v, "", v.back().compare(0, 2, "-H") ? ROWS : ANYORDER}; CASE(name(a)) { same(a); } END_CASE }
  for (std::string m : {"-14-*", "-*-12", "*14.12*", "[-14]*", "-[12,34]-*", "34*"}) { Ask a{"methsearch", {"-b4", "-U1", "-q", "-m" + pn(m), "-R$p $l"}, "", ROWS}; CASE(name(a)) { same(a); } END_CASE }
  for (std::string m : {"13*", "*2", "1*4", "*34*", "1423"}) { Ask a{"methsearch", {"-b4", "-U1", "-q", "-Q", b("1423"), "-R$p $l", "--music=" + b(m)}, "", ROWS}; a.args = {"-b4", "-U1", "-q", "-M" + b(m), "-R$p $l"}; CASE(name(a)) { same(a); } END_CASE }
}
// what is said of methods, which does not depend on the symbols, and the criteria which do
VF_SECTION(said) {
  struct { int n; std::string o; V ms; } g[] = {{5, "-G0", {"&5.1.5.1.5,125", "&5.1.5.1.5,1", "&3.1.5.1.5,125", "&5.1.5.1.5,123", "&5.1.5.1.5,145", "&5.1.5.3.5,145", "&3.1.5.3.1,123"}}, {6, "-G1", {"&-36-14-12-36-14-56,12", "&-36-14-12-36-14-56,16", "&-36-14-12-36-14-56,14", "&-34-14-12-16-34-16,12", "&34-36.14-12-36.14-16.56,12", "&-34-16-12-16-12-56,12", "&-34-16-12-16-34-56,16"}}, {8, "-G1", {"&-38-14-1258-36-14-58-16-78,12", "&-38-14-1258-36-14-58-16-78,18", "&-58-14.58-12.38.14-14.38.14-14.38,12", "&34-38-12-18.34-34.18-16.34-16.78,18", "&-56-14.56-12.58.14-12.58.14-12.58,12", "&-38-14-58-16-12-38-14-78,12", "&-38-14-58-16-12-38-14-78,18"}}, {10, "-G1", {"&-30-14-1250-36-1470-58-16-70-18-90,12", "&-30-14-1250-36-1470-58-16-70-18-90,10"}}};
  for (auto &x : g) for (std::string f : {"$L", "$d", "$D", "$F", "$u", "$o", "$O", "$C", "$S", "$M", "$b", "$B", "$y", "$s", "$2P", "$V", "$U", "$G"}) { std::string t; for (auto &m : x.ms) t += pn(m) + "\n"; Ask a{"methsearch", {"-b" + std::to_string(x.n), x.o, "-I", "-A", "-p0", "-Fx", "-R" + f}, t, f == "$O" || f == "$2P" || f == "$U" || f == "$V" ? SAID : BYTES}; if (f == "$D" || f == "$d") a.args.push_back("-r"); CASE(name(a)) { same(a); } END_CASE }
  for (int n : {4, 5, 6, 7}) for (V more : std::vector<V>{{"-e"}, {"-E"}, {"-E", "-r"}, {"-e", "-f"}, {"-r"}, {"-c"}, {"-E", "-p2"}, {"-S"}, {"-w"}}) { V v = {"-b" + std::to_string(n), "-s", "-q", "-C"}; if (n > 5) v.push_back("-l2"); v.insert(v.end(), more.begin(), more.end()); Ask a{"methsearch", v, "", BYTES}; CASE(name(a)) { same(a); } END_CASE }
  for (V more : std::vector<V>{{"-U2"}, {"-U2", "-E"}, {"-U2", "-e"}, {"-U0", "-n6"}}) { V v = {"-b5", "-s", "-q", "-C"}; v.insert(v.end(), more.begin(), more.end()); Ask a{"methsearch", v, "", BYTES}; CASE(name(a)) { same(a); } END_CASE }
}
VF_SECTION(touches) {
  for (std::string m : {"&-16-16-16,12", "&-36-14-12-36-14-56,12"}) for (V more : std::vector<V>{{}, {"-c" + std::string("b=") + pn("14")}, {"-cs=" + pn("1234")}, {"-L5"}}) { Ask a{"touchsearch", {"-b6"}, "", BYTES}; a.args.insert(a.args.end(), more.begin(), more.end()); a.args.push_back(pn(m)); CASE(name(a)) { same(a); } END_CASE }
  for (auto &m : pn4) for (V more : std::vector<V>{{}, {"-r" + b("1342")}, {"-P" + b("1342")}, {"-i"}, {"-k"}, {"-k", "-c" + b("12")}}) { Ask a{"fextent", {"-b4", "--seed=1", "-n10", "--print-leads"}, "", NOTATION}; a.args.insert(a.args.end(), more.begin(), more.end()); a.args.push_back(pn(m)); CASE(name(a)) { same(a); } END_CASE }
}
VF_SECTION(splices) {
  V ms = {"-14-14-14-12", "-14-14-34-12", "34-14-14-14", "-14.12.14-14-14", "-14-14-14-14", "-34-14-12-14"}; for (size_t i = 0; i < ms.size(); ++i) for (size_t j = 0; j < i; ++j) for (V more : std::vector<V>{{}, {"-s"}, {"-p"}}) { Ask a{"splices", {"-b4"}, pn(ms[i]) + "\tX\n" + pn(ms[j]) + "\tY\n", more.empty() || more[0] != "-p" ? BYTES : NOTES}; a.args.insert(a.args.end(), more.begin(), more.end()); CASE(name(a)) { same(a); } END_CASE if (more.empty()) { Ask p{"spliceplan", {"-b4"}, a.input, BYTES}; CASE(name(p)) { same(p); } END_CASE } }
}
VF_SECTION(ringmethod) { for (int n : {1, 4, 8, 12}) for (V more : {V(), V{"-o" + b("1") + "=0.5"}}) { std::string r = D.substr(0, n), t; for (int k = 0; k < 3; ++k) { t += r + "\n"; std::rotate(r.begin(), r.begin() + 1, r.end()); } Ask a{"ringmethod", {"-b" + std::to_string(n), "-r200"}, b(t), BYTES}; a.args.insert(a.args.end(), more.begin(), more.end()); CASE(name(a)) { same(a); } END_CASE } }
// bells for which there is no symbol are shown by number
VF_SECTION(few) {
  for (std::string s : {"", "1", "AB", "abc", "4321"}) for (int n = 1; n <= 6; ++n) CASE("extent of ", n, " with '", s, "'") { auto d = app::run("extent", {"-b" + std::to_string(n)}, ""), o = app::run("extent", {"-b" + std::to_string(n)}, "", 20, {"BELL_SYMBOLS=" + s}); std::string w; for (char c : d.out) { size_t k = D.find(c); if (k == std::string::npos) w += c; else if (k < s.size()) w += s[k]; else w += "{" + std::to_string(k + 1) + "}"; } EXPECT(d.rc == 0 && o.rc == 0 && o.out == w, "few", s, " ", o.rc, " ", o.out.substr(0, 60)); vf::states(); } END_CASE
  for (std::string s : {"", "1", "AB", "abc"}) CASE("printmethod with '", s, "'") { for (std::string p : {"&-{1}{4}-{1}{4},{1}{2}", "{3}.{1}"}) { int n = p[0] == '&' ? 4 : 3; std::string q; for (char c : p) if (c != '{' && c != '}') q += c; auto d = app::run("printmethod", {"-b" + std::to_string(n), q}), o = app::run("printmethod", {"-b" + std::to_string(n), p}, "", 20, {"BELL_SYMBOLS=" + s}); std::string w; for (char c : d.out) { size_t k = D.find(c); if (k == std::string::npos) w += c; else if (k < s.size()) w += s[k]; else w += "{" + std::to_string(k + 1) + "}"; } EXPECT(o.rc == 0 && o.out == w, "few", s, " ", p, " ", o.rc, " ", o.out.substr(0, 60), o.err.substr(0, 60)); vf::states(); } } END_CASE
}