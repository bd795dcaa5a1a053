// gs.h - reference interpreter for the touch proving language, written from its guide.
#ifndef GS_H
#define GS_H
#include "ref.h"
#include "refpn.h"
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace gs {
using ref::P;
typedef long long L;
struct Node; typedef std::shared_ptr<Node const> N;
enum K { PN, TR, STR, SYM, LIST, REP, MUL, REV, IF, LOOP, BREAK, NOP, ASG, IASG, AASG, INT, BOOL, ADD, SUB, DIV, MOD, CAT, AND, OR, NOT, EQ, NE, GT, LT, GE, LE, PAT, ROUNDS, BELLS, LENGTH, PROVING, ENDPROOF, DEFINED, INC, DEC, CALL, MUSIC, ECHO, SAVE, MERGE, SHL, SHR };
struct Node { K k; L n = 0; std::string s; std::vector<N> c; std::vector<P> pn; P row; };
inline N mk(K k, std::vector<N> c = {}, std::string s = "", L n = 0) { auto p = std::make_shared<Node>(); p->k = k; p->c = c; p->s = s; p->n = n; return p; }
inline N sym(std::string s) { return mk(SYM, {}, s); }
inline N str(std::string s) { return mk(STR, {}, s); }
inline N num(L n) { return mk(INT, {}, "", n); }
inline N boolean(bool b) { return mk(BOOL, {}, "", b); }
inline N pn(int bells, std::string s) { auto p = std::make_shared<Node>(); p->k = PN; p->s = s; std::vector<ref::Sw> v; if (!ref::parse_pn(bells, s, v)) abort(); for (auto &x : v) p->pn.push_back(ref::sw_perm(x)); return p; }
inline N tr(P r) { auto p = std::make_shared<Node>(); p->k = TR; p->row = r; return p; }
struct Err { std::string what; };
struct Stop { bool abort; };
enum T { tb, ti, tn };

// text of an expression, with as few brackets as the precedences allow
inline int prec(Node const &e) {
  switch (e.k) {
  case ASG: case IASG: case AASG: return 0; case LIST: return 1; case OR: return 2; case AND: return 3;
  case EQ: case NE: case GT: case LT: case GE: case LE: return 4; case MERGE: return 5; case SHL: case SHR: return 6; case ADD: case SUB: return 7;
  case MUL: case DIV: case MOD: case CAT: return 8; case REP: case REV: case NOT: case LOOP: case INC: case DEC: case DEFINED: case ECHO: case SAVE: return 9; default: return 10;
  }
}
inline std::string text(N const &e, int full = 0);
inline std::string sub(N const &e, int need, int full) { std::string t = text(e, full); return prec(*e) < need || (full && prec(*e) < 10) ? "(" + t + ")" : t; }
inline std::string text(N const &p, int full) {
  Node const &e = *p; static char const *op[] = {"==", "!=", ">", "<", ">=", "<="};
  auto bin = [&](std::string o, int pr, int l, int r) { return sub(e.c[0], pr + l, full) + o + sub(e.c[1], pr + r, full); };
  switch (e.k) {
  case PN: return e.s; case TR: return "'" + ref::str(e.row) + "'"; case STR: return "\"" + e.s + "\""; case SYM: return e.s;
  case LIST: return bin(", ", 1, 1, 0); case REP: return std::to_string(e.n) + " " + sub(e.c[0], 9, full); case REV: return "~" + sub(e.c[0], 9, full); case NOT: return "! " + sub(e.c[0], 9, full);
  case MUL: return bin(" * ", 8, 0, 1); case DIV: return bin(" /\n ", 8, 0, 1); case MOD: return bin(" % ", 8, 0, 1); case CAT: return bin(" . ", 8, 0, 1);
  case ADD: return bin(" + ", 7, 0, 1); case SUB: return bin(" - ", 7, 0, 1);
  case AND: return bin(" && ", 3, 1, 0); case OR: return bin(" || ", 2, 1, 0);
  case EQ: case NE: case GT: case LT: case GE: case LE: return bin(std::string(" ") + op[e.k - EQ] + " ", 4, 1, 1);
  case MERGE: return bin(" & ", 5, 1, 1); case SHL: return bin(" << ", 6, 1, 1); case SHR: return bin(" >> ", 6, 1, 1);
  case IF: { std::string t = "{"; for (size_t i = 0; i < e.c.size(); i += 2) { t += i ? "; " : " "; if (e.c[i]) t += text(e.c[i], full) + ": "; if (e.c[i + 1]->k != NOP) t += text(e.c[i + 1], full); } return t + " }"; }
  case LOOP: return "repeat " + sub(e.c[0], 9, full); case BREAK: return "break"; case NOP: return "";
  case ASG: return e.s + " = " + text(e.c[0], full); case IASG: return e.s + " := " + text(e.c[0], full); case AASG: return e.s + " .= " + text(e.c[0], full);
  case INT: return std::to_string(e.n); case BOOL: return e.n ? "true" : "false"; case PAT: return "/" + e.s + "/"; case ROUNDS: return "rounds"; case BELLS: return "bells"; case LENGTH: return "length";
  case PROVING: return "proving"; case ENDPROOF: return "endproof"; case DEFINED: return "defined " + e.s; case INC: return "++" + e.s; case DEC: return "--" + e.s; case ECHO: return "echo \"" + e.s + "\""; case SAVE: return "save " + e.s;
  case CALL: { std::string t = e.s + "("; for (size_t i = 0; i < e.c.size(); ++i) t += (i ? ", " : "") + sub(e.c[i], 2, full); return t + ")"; }
  case MUSIC: return "?";
  }
  return "?";
}

// does a row match a pattern of bells, ?, * and [sets]
inline bool glob(std::string const &p, size_t i, P const &r, size_t j, std::vector<int> *wild) {
  if (i == p.size()) return j == r.size();
  if (p[i] == '*') { // the shortest run that works, as every wildcard list is only asked for where it is unique
    for (size_t k = j; k <= r.size(); ++k) { std::vector<int> w; if (glob(p, i + 1, r, k, &w)) { if (wild) { wild->assign(r.begin() + j, r.begin() + k); wild->insert(wild->end(), w.begin(), w.end()); } return true; } }
    return false;
  }
  if (j >= r.size()) return false;
  if (p[i] == '?') { std::vector<int> w; if (!glob(p, i + 1, r, j + 1, &w)) return false; if (wild) { wild->assign(1, r[j]); wild->insert(wild->end(), w.begin(), w.end()); } return true; }
  if (p[i] == '[') { size_t e = p.find(']', i); if (e == std::string::npos || p.substr(i + 1, e - i - 1).find(ref::sym(r[j])) == std::string::npos) return false; return glob(p, e + 1, r, j + 1, wild); }
  return ref::sym(r[j]) == std::string(1, p[i]) && glob(p, i + 1, r, j + 1, wild);
}

struct World {
  int bells = 0, extents = 1; P rounds; L minlen = 0, maxlen = 0; std::string mask = "*";
  std::map<std::string, N> st; std::vector<std::function<int(P const &)>> music; std::string out; int quiet = 0; bool everyrow_only = false, filter = false, msiril = false, traceall = false; std::vector<std::string> traces; bool failed = false, done = false;
  L steps = 0, limit = 20000;
  World() {
    st["__summary__"] = str("# rows ending in @");
    auto l = [](std::vector<N> v) { N r = v.back(); for (size_t i = v.size() - 1; i-- > 0;) r = mk(LIST, {v[i], r}); return r; };
    N s = sym("__summary__"); st["__music__"] = mk(MUSIC);
    st["true"] = l({s, str("Touch is true"), sym("__music__")}); st["notround"] = l({s, str("Is this OK?")}); st["false"] = l({s, str("Touch is false in $ rows")});
    st["tooshort"] = l({s, str("Touch is too short: \\"), str("at least ${min_length} rows expected")}); st["toolong"] = str("Touch exceeds maximum length of ${max_length} rows$$");
    st["conflict"] = l({s, str("Touch not completed due to false row$$")}); for (auto &n : {"rounds", "start", "finish", "abort", "everyrow"}) st[n] = mk(NOP);
  }
  void length(L a, L b) { minlen = a; maxlen = b; st.erase("min_length"); st.erase("max_length"); if (a) st["min_length"] = num(a); if (b) st["max_length"] = num(b); }
  P start() const { return ref::ext(rounds.empty() ? ref::id(bells) : rounds, bells); }
  void prove(N const &e); void echo(N const &e);
};
struct Ctx {
  World &w; P r, last; bool proving = true, silent, clone = false; L maxlen; std::map<P, int> cnt; L len = 0, dups = 0; bool isfalse = false; L score = 0;
  std::map<std::string, N> dyn; Ctx *parent = 0;
  explicit Ctx(World &w) : w(w), r(w.start()), silent(w.quiet >= 2 || w.everyrow_only || w.filter), maxlen(w.maxlen) {}
  void put(std::string const &s, bool up = false) { if (up && parent) return parent->put(s); if (!silent && !clone) w.out += s; }
  N look(std::string const &s) const { auto i = dyn.find(s); if (i != dyn.end()) return i->second; auto j = w.st.find(s); if (j == w.st.end()) throw Err{"Unknown symbol: " + s}; return j->second; }
  // run a symbol, reporting it if it is being traced
  void execsym(std::string const &s, int dir) {
    bool all = w.traceall && s != "everyrow", t = all || std::find(w.traces.begin(), w.traces.end(), s) != w.traces.end();
    if (t && !clone) w.out += (ref::str(r) + (w.traceall || w.traces.size() > 1 ? "\t" + s : std::string()) + "\n");
    exec(look(s), dir);
  }
  Ctx copy() { Ctx c(*this); c.clone = true; c.maxlen = 0; c.parent = this; return c; }
  bool isrounds() { auto i = cnt.find(r); return r == w.start() && i != cnt.end() && i->second == w.extents; }
  void ring(P const &c) {
    r = ref::mul(r, c); if (!proving) return;
    int n = ++cnt[r]; ++len; if (n > 1) ++dups; bool bad = !clone && n > w.extents; if (bad) isfalse = true;
    for (auto &m : w.music) score += m(r);
    bool s = silent; if (w.everyrow_only) silent = false; execsym("everyrow", 1); silent = s;
    if (maxlen && len > maxlen) execsym("toolong", 1);
    if (isrounds()) execsym("rounds", 1);
    if (bad) execsym("conflict", 1);
  }
  // replace the marks in a string
  std::string fill(std::string const &s, bool &stop, bool &nonl) {
    std::string o; stop = nonl = false;
    for (size_t i = 0; i < s.size(); ++i) switch (s[i]) {
      case '@': { std::vector<int> m; if (!glob(w.mask, 0, r, 0, &m)) { nonl = true; return ""; } for (int b : m) o += ref::sym(b); break; }
      case '$': if (i + 1 < s.size() && s[i + 1] == '{' && !w.msiril) { size_t j = s.find('}', i); if (j == std::string::npos) throw Err{"Incomplete variable"}; Ctx c = copy(); o += c.evalS(look(s.substr(i + 2, j - i - 2))); i = j; }
                else if (i + 1 < s.size() && s[i + 1] == '$') { ++i; stop = true; } else o += std::to_string(dups); break;
      case '#': o += std::to_string(len); break;
      case '\\': if (i + 1 == s.size()) nonl = true; else { o += s[i]; o += s[++i]; } break;
      default: o += s[i];
    }
    return o;
  }
  static std::string utf8(unsigned v) { std::string o; if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xF0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } return o; }
  static std::string unescape(std::string const &s) {
    std::string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] != '\\') o += s[i]; else {
      if (++i == s.size()) throw Err{"Unexpected backslash"}; char c = s[i];
      if (c == 'n') o += '\n'; else if (c == 't') o += '\t'; else if (c == '\'') o += '"';
      else if (c == 'x' || c == 'u' || c == 'U') { size_t l = c == 'x' ? 2 : c == 'u' ? 4 : 8; if (i + l >= s.size()) throw Err{"Incomplete escape"}; unsigned long v = 0; for (size_t k = 1; k <= l; ++k) { char h = s[i + k]; if (!isxdigit((unsigned char)h)) throw Err{"Invalid hexadecimal"}; v = v * 16 + (isdigit((unsigned char)h) ? h - '0' : toupper(h) - 'A' + 10); } if (v >= 0x110000) throw Err{"out of range"}; o += utf8(v); i += l; }
      else o += c;
    } return o;
  }
  T type(N const &p) {
    switch (p->k) { case LIST: return type(p->c[1]); case SYM: return type(look(p->s)); case INT: case ADD: case SUB: case DIV: case MOD: case BELLS: case LENGTH: case INC: case DEC: return ti;
      case BOOL: case AND: case OR: case NOT: case EQ: case NE: case GT: case LT: case GE: case LE: case PAT: case ROUNDS: case PROVING: case DEFINED: return tb;
      case MUL: return type(p->c[0]) == ti && type(p->c[1]) == ti ? ti : tn; case CALL: return p->s == "at" || p->s == "pos" || p->s == "rowno" || p->s == "music" ? ti : tn; default: return tn; }
  }
  static bool isI(K k) { return k == INT || k == ADD || k == SUB || k == DIV || k == MOD || k == BELLS || k == LENGTH || k == INC || k == DEC; }
  static bool isB(K k) { return k == BOOL || k == AND || k == OR || k == NOT || (k >= EQ && k <= LE) || k == PAT || k == ROUNDS || k == PROVING || k == DEFINED; }
  static bool isF(std::string const &s) { for (auto &f : {"at", "pos", "rowno", "swap", "stagename", "music", "pnstr", "runs", "crus", "frontruns", "backruns", "load", "loadm", "loadlh", "methname"}) if (s == f) return true; return false; }
  N call(Node const &e) {
    if (w.st.find(e.s) == w.st.end() && dyn.find(e.s) == dyn.end() && !isF(e.s)) throw Err{"Unknown symbol"};
    if (e.s == "at") { if (e.c.size() != 1) throw Err{"args"}; L i = evalI(e.c[0]); if (i < 1 || i > w.bells) throw Err{"range"}; return num(r[i - 1] + 1); }
    if (e.s == "pos") { if (e.c.size() != 1) throw Err{"args"}; L b = evalI(e.c[0]); for (int i = 0; i < w.bells; ++i) if (r[i] == b - 1) return num(i + 1); throw Err{"skip"}; }
    if (e.s == "rowno") { if (e.c.size()) throw Err{"args"}; return num(len); }
    if (e.s == "music") { if (e.c.size()) throw Err{"args"}; return num(score); }
    if (e.s == "swap") { if (e.c.size() < 1 || e.c.size() > 2) throw Err{"args"}; L i = evalI(e.c[0]) - 1, j = e.c.size() == 2 ? evalI(e.c[1]) - 1 : i + 1; if (i < 0 || j < 0 || i >= w.bells || j >= w.bells || i == j) throw Err{"swap"}; P t = ref::id(w.bells); std::swap(t[i], t[j]); return tr(t); }
    if (e.s == "stagename") { if (e.c.size() != 1) throw Err{"args"}; static char const *nm[] = {"Two", "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus", "Sextuples", "Fourteen", "Septuples", "Sixteen"}; L n = evalI(e.c[0]); if (n < 3 || n > 16) throw Err{"skip"}; return mk(STR, {}, nm[n - 2], 1); }
    if (e.s == "pnstr") { if (e.c.empty()) throw Err{"args"}; Ctx c = copy(); std::vector<P> v; for (auto &a : e.c) { auto x = c.evalPN(a); v.insert(v.end(), x.begin(), x.end()); } std::string t; bool dot = false; for (auto &x : v) { std::string y; for (int i = 0; i < w.bells; ++i) if (x[i] == i) y += ref::sym(i); if (y.empty()) { t += "X"; dot = false; } else { if (dot) t += "."; t += y; dot = true; } } return mk(STR, {}, t, 1); }
    throw Err{"skip"};
  }
  static int runat(P const &r, int i, int n, int d) { if (i < 0 || i + n > (int)r.size()) return 0; for (int j = 1; j < n; ++j) if (r[i + j] != r[i + j - 1] + d) return 0; return 1; }
  static int runs(P const &r, int pos, int len, int dir) { int n = r.size(), k = 0; for (int i = 0; i + len <= n; ++i) { if ((pos == 1 && i) || (pos == 2 && i + len != n)) continue; if (dir >= 0) k += runat(r, i, len, 1); if (dir <= 0) k += runat(r, i, len, -1); } return k; }
  L evalI(N const &p) {
    Node const &e = *p; tick();
    switch (e.k) {
    case LIST: exec(e.c[0], 1); return evalI(e.c[1]); case SYM: return evalI(look(e.s)); case INT: return e.n; case BELLS: return w.bells; case LENGTH: return len;
    case ADD: { L a = evalI(e.c[0]), b = evalI(e.c[1]); return a + b; } case SUB: { L a = evalI(e.c[0]), b = evalI(e.c[1]); return a - b; }
    case DIV: { L a = evalI(e.c[0]), b = evalI(e.c[1]); if (!b) throw Err{"zero"}; L q = (a < 0 ? -a : a) / (b < 0 ? -b : b); return (a < 0) != (b < 0) ? -q : q; }
    case MOD: { L a = evalI(e.c[0]), b = evalI(e.c[1]); if (!b) throw Err{"zero"}; L m = (a < 0 ? -a : a) % (b < 0 ? -b : b); return a < 0 ? -m : m; }
    case MUL: { if (type(p) != ti) throw Err{"int"}; L a = evalI(e.c[0]), b = evalI(e.c[1]); return a * b; }
    case INC: case DEC: { L v = evalI(look(e.s)) + (e.k == INC ? 1 : -1); dyn[e.s] = num(v); return v; }
    case CALL: return evalI(call(e));
    default: throw Err{"Unable to evaluate expression as an integer"};
    }
  }
  bool evalB(N const &p) {
    Node const &e = *p; tick();
    switch (e.k) {
    case LIST: exec(e.c[0], 1); return evalB(e.c[1]); case SYM: return evalB(look(e.s)); case BOOL: return e.n; case AND: return evalB(e.c[0]) && evalB(e.c[1]); case OR: return evalB(e.c[0]) || evalB(e.c[1]); case NOT: return !evalB(e.c[0]);
    case PAT: return glob(e.s, 0, r, 0, 0); case ROUNDS: return isrounds(); case PROVING: return proving; case DEFINED: return dyn.count(e.s) || w.st.count(e.s) || isF(e.s);
    case EQ: case NE: case GT: case LT: case GE: case LE: {
      T a = type(e.c[0]), b = type(e.c[1]); int c; K k = e.k;
      if (a == tb && b == tb) { bool x = evalB(e.c[0]), y = evalB(e.c[1]); if (k != EQ && k != NE) throw Err{"bool"}; c = (int)x - (int)y; }
      else if (a == tb || b == tb) throw Err{"bool"};
      else if (a == ti && b == ti) { L x = evalI(e.c[0]), y = evalI(e.c[1]); c = x < y ? -1 : x > y; }
      else { std::string x = evalS(e.c[0]), y = evalS(e.c[1]); if ((a == ti || b == ti) && k != EQ && k != NE) throw Err{"mixed"}; c = x < y ? -1 : x > y; }
      return k == EQ ? c == 0 : k == NE ? c != 0 : k == GT ? c > 0 : k == LT ? c < 0 : k == GE ? c >= 0 : c <= 0; }
    case CALL: if (e.s == "runs" || e.s == "frontruns" || e.s == "backruns") { if (e.c.size() > 2) throw Err{"args"}; L l = e.c.size() ? evalI(e.c[0]) : 4, d = e.c.size() > 1 ? evalI(e.c[1]) : 0; return runs(r, e.s == "runs" ? 0 : e.s == "frontruns" ? 1 : 2, l, d) > 0; } return evalB(call(e));
    default: throw Err{"Unable to evaluate expression as a boolean"};
    }
  }
  std::string evalS(N const &p, bool *nonl = 0) {
    Node const &e = *p; tick();
    if (isI(e.k) || e.k == MUL) { if (type(p) != ti) throw Err{"str"}; return std::to_string(evalI(p)); }
    switch (e.k) {
    case LIST: exec(e.c[0], 1); return evalS(e.c[1], nonl); case SYM: return evalS(look(e.s), nonl);
    case STR: { if (e.n & 1) { if (nonl) *nonl = e.n & 4; return e.s; } bool s, n; std::string t = fill(e.s, s, n); if (nonl) *nonl = n; return t; }
    case CAT: { std::string a = evalS(e.c[0]), b = evalS(e.c[1]); return a + b; } case CALL: return evalS(call(e));
    default: throw Err{"Unable to evaluate expression as a string"};
    }
  }
  std::vector<P> evalPN(N const &p) {
    Node const &e = *p; tick();
    switch (e.k) {
    case PN: return e.pn; case SYM: return evalPN(look(e.s)); case LIST: { auto a = evalPN(e.c[0]), b = evalPN(e.c[1]); a.insert(a.end(), b.begin(), b.end()); return a; }
    case REV: { auto a = evalPN(e.c[0]); return std::vector<P>(a.rbegin(), a.rend()); } case REP: { std::vector<P> v; for (L i = 0; i < e.n; ++i) { auto a = evalPN(e.c[0]); v.insert(v.end(), a.begin(), a.end()); } return v; }
    case MERGE: { auto b = evalPN(e.c[0]); N m = e.c[1]; K k = PN; L off = 0; while (m->k == SYM) m = look(m->s); if (m->k == SHL || m->k == SHR) { k = m->k; off = evalI(m->c[1]); m = m->c[0]; } else if (m->k != PN) throw Err{"replacement"};
      auto x = evalPN(m); L at = k == SHR ? off - 1 : k == SHL ? (L)b.size() - 1 - off : (L)b.size() - (L)std::max<size_t>(x.size(), 1); if (at < 0 || at + (L)x.size() > (L)b.size() || (k != SHR && at >= (L)b.size()) || (k == SHL && off < 0)) throw Err{"overrun"}; std::copy(x.begin(), x.end(), b.begin() + at); return b; }
    case CALL: return evalPN(call(e));
    default: throw Err{"Unable to evaluate expression as a static block"};
    }
  }
  N eval(N const &p) {
    Node const &e = *p; tick(); if (isI(e.k)) return num(evalI(p)); if (isB(e.k)) return boolean(evalB(p));
    switch (e.k) {
    case LIST: exec(e.c[0], 1); return eval(e.c[1]); case SYM: return eval(look(e.s)); case MUL: if (type(p) != ti) throw Err{"eval"}; return num(evalI(p));
    case STR: { if (e.n & 1) return p; bool s, n; std::string t = fill(e.s, s, n); return mk(STR, {}, t, 1 | (n ? 4 : 0) | (s ? 8 : 0)); }
    case CAT: return mk(STR, {}, evalS(p), 1);
    case IF: { for (size_t i = 0; i < e.c.size(); i += 2) if (test(e.c[i])) return eval(e.c[i + 1]); throw Err{"Reached end of alternatives"}; }
    case MERGE: { auto n = std::make_shared<Node>(); n->k = PN; n->pn = evalPN(p); return n; }
    case CALL: return call(e); default: throw Err{"Unable to evaluate expression"};
    }
  }
  bool test(N const &t) { if (!t) return true; Ctx c = copy(); try { return c.evalB(t); } catch (Stop const &) { return false; } }
  void tick() { if (++w.steps > w.limit) throw Err{"skip"}; }
  void exec(N const &p, int dir) {
    Node const &e = *p; tick();
    auto fwd = [&] { if (dir < 0) throw Err{"backwards"}; };
    if (isI(e.k)) { fwd(); evalI(p); return; } if (isB(e.k)) { fwd(); evalB(p); return; }
    switch (e.k) {
    case NOP: return;
    case PN: if (dir > 0) for (auto &c : e.pn) ring(c); else for (size_t i = e.pn.size(); i-- > 0;) ring(e.pn[i]); return;
    case TR: if (dir < 0) throw Err{"skip"}; ring(e.row); return;
    case STR: { bool s, n; std::string t; if (e.n & 1) { t = e.s; n = e.n & 4; s = e.n & 8; } else t = fill(e.s, s, n); put(unescape(t)); if (!n) put("\n"); if (s) throw Stop{true}; return; }
    case ECHO: { bool s, n; std::string t = fill(e.s, s, n); put(unescape(t), true); if (!n) put("\n", true); if (s) throw Stop{true}; return; }
    case SYM: execsym(e.s, dir); return;
    case LIST: if (dir > 0) { exec(e.c[0], dir); exec(e.c[1], dir); } else { exec(e.c[1], dir); exec(e.c[0], dir); } return;
    case REP: loop(e.c[0], e.n, dir); return; case LOOP: loop(e.c[0], -1, dir); return;
    case MUL: { bool a = type(e.c[0]) == ti, b = type(e.c[1]) == ti; if (a && b) { fwd(); evalI(p); } else if (a) { L n = evalI(e.c[0]); loop(e.c[1], n, dir); } else if (b) { L n = evalI(e.c[1]); loop(e.c[0], n, dir); } else throw Err{"mult"}; return; }
    case REV: exec(e.c[0], -dir); return; case BREAK: fwd(); throw Stop{false};
    case IF: fwd(); for (size_t i = 0; i < e.c.size(); i += 2) if (test(e.c[i])) { exec(e.c[i + 1], dir); return; } return;
    case ASG: fwd(); dyn[e.s] = e.c[0]; return; case IASG: fwd(); dyn[e.s] = eval(e.c[0]); return; case AASG: { fwd(); std::string a = evalS(look(e.s)), b = evalS(e.c[0]); dyn[e.s] = mk(STR, {}, a + b, 1); return; }
    case CAT: put(unescape(evalS(p))); return;
    case ENDPROOF: if (proving) last = r; proving = false; return; case CALL: fwd(); exec(call(e), dir); return;
    case MERGE: { auto v = evalPN(p); if (dir > 0) for (auto &c : v) ring(c); else for (size_t i = v.size(); i-- > 0;) ring(v[i]); return; }
    case MUSIC: if (score > 0) { put("Music score: " + std::to_string(score)); put("\n"); } return;
    case SAVE: if (!clone) w.st[e.s] = look(e.s); return;
    default: throw Err{"exec"};
    }
  }
  void loop(N const &c, L n, int dir) {
    bool had = dyn.count("loop_counter") || w.st.count("loop_counter"); N old = had ? look("loop_counter") : N();
    struct R { Ctx &c; bool had; N old; ~R() { if (had) c.dyn["loop_counter"] = old; else c.dyn.erase("loop_counter"); } } rr{*this, had, old};
    try { for (L i = 1; n == -1 || i <= n; ++i) { dyn["loop_counter"] = num(i); exec(c, dir); } } catch (Stop const &s) { if (s.abort) throw; }
  }
};
inline void World::prove(N const &e) {
  Ctx c(*this); done = true;
  auto last = [&](std::string const &s) { try { c.execsym(s, 1); } catch (Stop const &) {} };
  try { c.execsym("start", 1); c.exec(e, 1); c.execsym("finish", 1); }
  catch (Stop const &s) { if (s.abort) { last("abort"); failed = true; } return; }
  if (c.isfalse) { last("false"); failed = true; }
  else if ((c.proving ? c.r : c.last) != start()) { last("notround"); failed = true; }
  else if (minlen && c.len < minlen) { last("tooshort"); failed = true; }
  else { if (quiet) c.silent = true; last("true"); }
}
inline void World::echo(N const &e) { Ctx c(*this); if (quiet < 2) c.silent = false; bool n = false; std::string t = c.evalS(e, &n); t = Ctx::unescape(t); out += t; if (!n) out += "\n"; }
} // namespace gs
#endif
