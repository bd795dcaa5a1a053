// gfx.h - what a PostScript program paints, by interpreting it, and what a PDF file paints, by
// reading its objects and content streams.  Both give the same kind of picture.
#ifndef VF_GFX_H
#define VF_GFX_H
#include <array>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace gfx {
typedef std::array<double, 3> Col;
struct Mat { double a = 1, b = 0, c = 0, d = 1, e = 0, f = 0; };
inline Mat mul(Mat const &m, Mat const &n) { return {m.a * n.a + m.b * n.c, m.a * n.b + m.b * n.d, m.c * n.a + m.d * n.c, m.c * n.b + m.d * n.d, m.e * n.a + m.f * n.c + n.e, m.e * n.b + m.f * n.d + n.f}; } // m first
inline void app(Mat const &m, double x, double y, double &X, double &Y) { X = m.a * x + m.c * y + m.e; Y = m.b * x + m.d * y + m.f; }
struct Text { std::string s; double xl, xr, y, size; std::string font; Col col; }; // in the page's own (upright) axes
struct Seg { double x1, y1, x2, y2, w; Col col; };
struct Circle { double x, y, r; bool fill; Col col; };
struct Rect { double x1, y1, x2, y2; Col col; };
struct Page { std::vector<Text> texts; std::vector<Seg> segs; std::vector<Circle> circles; std::vector<Rect> rects; };
struct Pic { std::vector<Page> pages; double w = 0, h = 0; std::vector<std::string> fonts; std::map<std::string, std::string> dsc; };
struct bad : std::runtime_error { bad(std::string const &s) : std::runtime_error(s) {} };
inline double num(std::string const &s) { char *e; double v = strtod(s.c_str(), &e); if (s.empty() || *e) throw bad("not a number: " + s); return v; }
inline bool isnum(std::string const &s) { char *e; strtod(s.c_str(), &e); return !s.empty() && !*e && (isdigit((unsigned char)s[0]) || strchr("+-.", s[0])); }
inline std::string literal(std::string const &t, size_t &i) { // a string in parentheses, from after the (
  std::string s; int depth = 1; for (;;) { if (i >= t.size()) throw bad("unterminated string"); char c = t[i++];
    if (c == '(') ++depth; if (c == ')' && !--depth) return s;
    if (c == '\\') { if (i >= t.size()) throw bad("unterminated string"); c = t[i++]; if (c >= '0' && c <= '7') { int v = c - '0'; for (int k = 0; k < 2 && i < t.size() && t[i] >= '0' && t[i] <= '7'; ++k) v = v * 8 + t[i++] - '0'; c = (char)v; } else if (c == 'n') c = '\n'; else if (c == 'r') c = '\r'; else if (c == 't') c = '\t'; else if (c == 'b') c = '\b'; else if (c == 'f') c = '\f'; else if (c == '\n') continue; }
    s += c; } }
// widths in thousandths: Courier, Helvetica and Times as Adobe publish them
inline int width(std::string const &font, unsigned char c) {
  if (font == "Courier") return 600;
  static int const hu[] = {667, 667, 722, 722, 667, 611, 778, 722, 278, 500, 667, 556, 833, 722, 778, 667, 778, 722, 667, 611, 722, 667, 944, 667, 667, 611}, hl[] = {556, 556, 500, 556, 556, 278, 556, 556, 222, 222, 500, 222, 833, 556, 556, 556, 556, 333, 500, 278, 556, 500, 722, 500, 500, 500};
  static int const tu[] = {722, 667, 667, 722, 611, 556, 722, 722, 333, 389, 722, 611, 889, 722, 722, 556, 722, 667, 556, 611, 722, 722, 944, 722, 722, 611}, tl[] = {444, 500, 444, 500, 444, 333, 500, 500, 278, 278, 500, 278, 778, 500, 500, 500, 500, 333, 389, 278, 500, 500, 722, 500, 500, 444};
  bool t = font == "Times-Roman"; if (c >= '0' && c <= '9') return t ? 500 : 556; if (c >= 'A' && c <= 'Z') return (t ? tu : hu)[c - 'A']; if (c >= 'a' && c <= 'z') return (t ? tl : hl)[c - 'a'];
  if (c == ' ') return t ? 250 : 278; if (c == '-') return t ? 333 : 333; if (c == '(' || c == ')') return 333; if (c == '.' || c == ',' ) return t ? 250 : 278; return 500; }
// ---------------------------------------------------------------- PostScript
struct PS {
  struct Obj; typedef std::shared_ptr<std::vector<Obj>> Proc; typedef std::shared_ptr<std::map<std::string, Obj>> Dict; typedef std::shared_ptr<std::string> Str;
  enum T { NUM, STR, NAME, XNAME, PROC, DICT, BOOL, FONT, SAVE, MARK };
  struct Obj { T t; double n = 0; Str s; std::string nm; Proc p; Dict d; };
  struct G { Mat m; Col col{{0, 0, 0}}; double lw = 1, size = 0; std::string font; bool cur = false; double cx = 0, cy = 0; bool haspath = false, curved = false; std::vector<std::vector<std::pair<double, double>>> path; std::vector<double> bbox; };
  std::vector<Obj> st; std::map<std::string, Obj> dict; G g; std::vector<G> gs; std::vector<G> saves; Pic pic; Page page; long steps = 0;
  static Obj N(double v) { Obj o; o.t = NUM; o.n = v; return o; }
  static Obj B(bool v) { Obj o; o.t = BOOL; o.n = v; return o; }
  static Obj S(std::string const &v) { Obj o; o.t = STR; o.s = std::make_shared<std::string>(v); return o; }
  static Obj Nm(std::string const &v) { Obj o; o.t = NAME; o.nm = v; return o; }
  Obj pop() { if (st.empty()) throw bad("stack underflow"); Obj o = st.back(); st.pop_back(); return o; }
  double popn() { Obj o = pop(); if (o.t != NUM) throw bad("number expected"); return o.n; }
  Obj pop(T t) { Obj o = pop(); if (o.t != t) throw bad("wrong type of operand"); return o; }
  void need() { if (!g.cur) throw bad("no current point"); }
  void moveto(double x, double y) { g.cur = true; g.cx = x; g.cy = y; double X, Y; app(g.m, x, y, X, Y); g.path.push_back({{X, Y}}); }
  void lineto(double x, double y) { need(); g.cx = x; g.cy = y; double X, Y; app(g.m, x, y, X, Y); g.path.back().push_back({X, Y}); }
  void clear() { g.cur = false; g.curved = false; g.path.clear(); g.bbox.clear(); }
  void paint(bool fill) { for (auto &p : g.path) { if (g.curved) { double x1 = 1e9, x2 = -1e9, y1 = 1e9, y2 = -1e9; for (auto &q : p) { x1 = std::min(x1, q.first); x2 = std::max(x2, q.first); y1 = std::min(y1, q.second); y2 = std::max(y2, q.second); } page.circles.push_back({(x1 + x2) / 2, (y1 + y2) / 2, (x2 - x1) / 2, fill, g.col}); }
      else if (fill) throw bad("fill of a straight path"); else for (size_t i = 0; i + 1 < p.size(); ++i) page.segs.push_back({p[i].first, p[i].second, p[i + 1].first, p[i + 1].second, g.lw, g.col}); } clear(); }
  double swid(std::string const &s) { double w = 0; for (unsigned char c : s) w += width(g.font, c) * g.size / 1000; return w; }
  void show(std::string const &s) { need(); if (g.font.empty()) throw bad("no font"); double w = swid(s), X, Y, X2, Y2, X3, Y3; app(g.m, g.cx, g.cy, X, Y); app(g.m, g.cx + w, g.cy, X2, Y2); app(g.m, g.cx, g.cy + g.size, X3, Y3);
    if (std::fabs(Y2 - Y) > 1e-3) { page.texts.push_back({s, Y, Y2, -X, std::hypot(X3 - X, Y3 - Y), g.font, g.col}); page.texts.back().xl = Y; } else page.texts.push_back({s, X, X2, Y, std::hypot(X3 - X, Y3 - Y), g.font, g.col}); // turned pages are put upright below
    g.cx += w; }
  void run(Proc p) { auto keep = p; for (auto &o : *keep) exec(o); }
  void call(Obj const &o) { if (o.t == PROC) run(o.p); else exec(o); }
  void exec(Obj const &o) { if (++steps > 50000000) throw bad("too many steps"); if (o.t != XNAME) { st.push_back(o); return; } std::string const &n = o.nm; auto i = dict.find(n); if (i != dict.end()) { Obj v = i->second; if (v.t == PROC) run(v.p); else st.push_back(v); return; } op(n); }
  void op(std::string const &n) {
    if (n == "def") { Obj v = pop(), k = pop(NAME); dict[k.nm] = v; } else if (n == "bind") { if (st.empty()) throw bad("bind"); } else if (n == "dup") { Obj o = pop(); st.push_back(o); st.push_back(o); } else if (n == "pop") pop(); else if (n == "exch") { Obj b = pop(), a = pop(); st.push_back(b); st.push_back(a); }
    else if (n == "add") { double b = popn(), a = popn(); st.push_back(N(a + b)); } else if (n == "sub") { double b = popn(), a = popn(); st.push_back(N(a - b)); } else if (n == "mul") { double b = popn(), a = popn(); st.push_back(N(a * b)); } else if (n == "div") { double b = popn(), a = popn(); if (b == 0) throw bad("division by zero"); st.push_back(N(a / b)); }
    else if (n == "idiv") { double b = popn(), a = popn(); if (b == 0 || b != std::floor(b) || a != std::floor(a)) throw bad("idiv"); st.push_back(N((double)((long)a / (long)b))); } else if (n == "neg") st.push_back(N(-popn()));
    else if (n == "index") { int k = (int)popn(); if (k < 0 || k >= (int)st.size()) throw bad("index"); st.push_back(Obj(st[st.size() - 1 - k])); } else if (n == "copy") { int k = (int)popn(); if (k < 0 || k > (int)st.size()) throw bad("copy"); size_t b = st.size() - k; for (int j = 0; j < k; ++j) st.push_back(Obj(st[b + j])); }
    else if (n == "roll") { int j = (int)popn(), k = (int)popn(); if (k < 0 || k > (int)st.size()) throw bad("roll"); if (k) { std::vector<Obj> v(st.end() - k, st.end()); for (int i = 0; i < k; ++i) st[st.size() - k + (((i + j) % k) + k) % k] = v[i]; } }
    else if (n == "eq") { Obj b = pop(), a = pop(); bool e = a.t == NUM && b.t == NUM ? a.n == b.n : (a.t == NAME || a.t == XNAME) && (b.t == NAME || b.t == XNAME) && a.nm == b.nm; st.push_back(B(e)); } else if (n == "ge") { double b = popn(), a = popn(); st.push_back(B(a >= b)); } else if (n == "le") { double b = popn(), a = popn(); st.push_back(B(a <= b)); } else if (n == "gt") { double b = popn(), a = popn(); st.push_back(B(a > b)); } else if (n == "lt") { double b = popn(), a = popn(); st.push_back(B(a < b)); }
    else if (n == "and") { Obj b = pop(BOOL), a = pop(BOOL); st.push_back(B(a.n && b.n)); } else if (n == "true" || n == "false") st.push_back(B(n == "true"));
    else if (n == "if") { Obj p = pop(PROC), c = pop(BOOL); if (c.n) run(p.p); } else if (n == "ifelse") { Obj q = pop(PROC), p = pop(PROC), c = pop(BOOL); run(c.n ? p.p : q.p); } else if (n == "repeat") { Obj p = pop(PROC); int k = (int)popn(); for (int i = 0; i < k; ++i) run(p.p); }
    else if (n == "for") { Obj p = pop(PROC); double lim = popn(), inc = popn(), init = popn(); for (double v = init; inc > 0 ? v <= lim : v >= lim; v += inc) { st.push_back(N(v)); run(p.p); } } else if (n == "forall") { Obj p = pop(PROC); Obj s = pop(STR); for (unsigned char c : std::string(*s.s)) { st.push_back(N(c)); run(p.p); } }
    else if (n == "exec") { Obj o = pop(); call(o); } else if (n == "type") { Obj o = pop(); Obj r; r.t = XNAME; r.nm = o.t == STR ? "stringtype" : o.t == PROC ? "arraytype" : o.t == NUM ? "integertype" : "nametype"; st.push_back(r); } else if (n == "string") st.push_back(S(std::string((size_t)popn(), '\0'))); else if (n == "dict") { popn(); Obj o; o.t = DICT; o.d = std::make_shared<std::map<std::string, Obj>>(); st.push_back(o); }
    else if (n == "put") { Obj v = pop(), k = pop(), o = pop(); if (o.t == STR) { if (k.t != NUM || v.t != NUM || k.n < 0 || k.n >= o.s->size()) throw bad("put"); (*o.s)[(size_t)k.n] = (char)(int)v.n; } else if (o.t == DICT) (*o.d)[key(k)] = v; else throw bad("put"); }
    else if (n == "get") { Obj k = pop(), o = pop(); if (o.t == STR) { if (k.t != NUM || k.n < 0 || k.n >= o.s->size()) throw bad("get"); st.push_back(N((unsigned char)(*o.s)[(size_t)k.n])); } else if (o.t == DICT) { auto i = o.d->find(key(k)); if (i == o.d->end()) throw bad("get: no such key"); st.push_back(i->second); } else throw bad("get"); }
    else if (n == "stringwidth") { Obj s = pop(STR); st.push_back(N(swid(*s.s))); st.push_back(N(0)); } else if (n == "findfont") { Obj f = pop(NAME); Obj o; o.t = FONT; o.nm = f.nm; o.n = 1; st.push_back(o); } else if (n == "scalefont") { double s = popn(); Obj f = pop(FONT); f.n *= s; st.push_back(f); } else if (n == "setfont") { Obj f = pop(FONT); g.font = f.nm; g.size = f.n; }
    else if (n == "moveto") { double y = popn(), x = popn(); moveto(x, y); } else if (n == "rmoveto") { double y = popn(), x = popn(); need(); moveto(g.cx + x, g.cy + y); } else if (n == "lineto") { double y = popn(), x = popn(); lineto(x, y); } else if (n == "rlineto") { double y = popn(), x = popn(); need(); lineto(g.cx + x, g.cy + y); } else if (n == "newpath") clear(); else if (n == "closepath") {} else if (n == "currentpoint") { need(); st.push_back(N(g.cx)); st.push_back(N(g.cy)); }
    else if (n == "arc") { double b = popn(), a = popn(), r = popn(), y = popn(), x = popn(); if (b - a != 360) throw bad("arc not a circle"); g.path.clear(); g.curved = true; double X, Y, X2, Y2; app(g.m, x - r, y - r, X, Y); app(g.m, x + r, y + r, X2, Y2); g.path.push_back({{X, Y}, {X2, Y2}}); g.cur = true; g.cx = x + r; g.cy = y; }
    else if (n == "charpath") { pop(BOOL); Obj s = pop(STR); need(); g.bbox = {g.cx, g.cy, g.cx + swid(*s.s), g.cy + 0.6 * g.size}; } else if (n == "pathbbox") { if (g.bbox.empty()) throw bad("pathbbox"); for (double v : g.bbox) st.push_back(N(v)); }
    else if (n == "rectfill") { double h = popn(), w = popn(), y = popn(), x = popn(), X, Y, X2, Y2; app(g.m, x, y, X, Y); app(g.m, x + w, y + h, X2, Y2); page.rects.push_back({X, Y, X2, Y2, g.col}); }
    else if (n == "stroke") paint(false); else if (n == "fill") paint(true); else if (n == "show") { Obj s = pop(STR); show(*s.s); } else if (n == "setlinewidth") g.lw = popn(); else if (n == "setgray") { double v = popn(); g.col = Col{{v, v, v}}; } else if (n == "setrgbcolor") { double b = popn(), gr = popn(), r = popn(); g.col = Col{{r, gr, b}}; }
    else if (n == "gsave") gs.push_back(g); else if (n == "grestore") { if (gs.empty()) throw bad("grestore without gsave"); g = gs.back(); gs.pop_back(); } else if (n == "save") { Obj o; o.t = SAVE; o.n = saves.size(); saves.push_back(g); st.push_back(o); } else if (n == "restore") { Obj o = pop(SAVE); if (o.n + 1 != saves.size() || !gs.empty()) throw bad("restore"); g = saves.back(); saves.pop_back(); }
    else if (n == "translate") { double y = popn(), x = popn(); Mat t; t.e = x; t.f = y; g.m = mul(t, g.m); fixcp(t); } else if (n == "scale") { double y = popn(), x = popn(); Mat t; t.a = x; t.d = y; g.m = mul(t, g.m); if (g.cur) { g.cx /= x; g.cy /= y; } } else if (n == "rotate") { double a = popn(); if (a != 90) throw bad("rotation"); Mat t{0, 1, -1, 0, 0, 0}; g.m = mul(t, g.m); g.cur = false; }
    else if (n == "showpage") { if (!st.empty()) throw bad("operands left at the end of a page"); pic.pages.push_back(page); page = Page(); clear(); } else throw bad("undefined: " + n); }
  void fixcp(Mat const &t) { if (g.cur) { g.cx -= t.e; g.cy -= t.f; } }
  static std::string key(Obj const &k) { if (k.t == NUM) return std::to_string((int)k.n); if (k.t == NAME) return k.nm; throw bad("key"); }
  void parse(std::string const &t, std::vector<Obj> *into, size_t &i, bool nested) {
    for (;;) { while (i < t.size() && isspace((unsigned char)t[i])) ++i; if (i >= t.size()) { if (nested) throw bad("unterminated procedure"); return; }
      char c = t[i]; Obj o; if (c == '%') { while (i < t.size() && t[i] != '\n') ++i; continue; }
      if (c == '(') { ++i; o = S(literal(t, i)); } else if (c == '{') { ++i; o.t = PROC; o.p = std::make_shared<std::vector<Obj>>(); parse(t, o.p.get(), i, true); } else if (c == '}') { ++i; if (!nested) throw bad("stray }"); return; }
      else { size_t b = i; if (c == '/') ++i; while (i < t.size() && !isspace((unsigned char)t[i]) && !strchr("(){}/%[]<>", t[i])) ++i; if (i == b) throw bad(std::string("stray ") + c); std::string w = t.substr(b, i - b); if (c == '/') o = Nm(w.substr(1)); else if (isnum(w)) o = N(num(w)); else { o.t = XNAME; o.nm = w; } }
      if (into) into->push_back(o); else if (o.t == STR) { o.s = std::make_shared<std::string>(*o.s); exec(o); } else exec(o); } }
};
inline Pic postscript(std::string const &t) { // throws bad; the document's comments are in dsc (the last of each kind), "pages seen" among them
  if (t.compare(0, 14, "%!PS-Adobe-3.0")) throw bad("no PostScript header"); if (t.size() < 6 || t.substr(t.size() - 6) != "%%EOF\n") throw bad("no %%EOF at the end"); PS p; size_t i = 0; p.parse(t, 0, i, false); bool eps = t.substr(0, t.find('\n')).find("EPSF") != std::string::npos;
  if (eps) { if (!p.st.empty() || !p.gs.empty()) throw bad("operands or graphics states left at the end"); if (!p.pic.pages.empty()) throw bad("showpage in an EPS file"); p.pic.pages.push_back(p.page); } else if (!p.st.empty() || !p.gs.empty() || !p.saves.empty() || !p.page.texts.empty() || !p.page.segs.empty()) throw bad("something left at the end");
  int n = 0; for (size_t b = 0; b < t.size();) { size_t e = t.find('\n', b); std::string l = t.substr(b, e - b); b = e == std::string::npos ? t.size() : e + 1; if (l.compare(0, 2, "%%")) continue; size_t c = l.find(':'); std::string k = l.substr(2, c == std::string::npos ? c : c - 2), v = c == std::string::npos ? "" : l.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); if (k == "Page") { ++n; std::string w = std::to_string(n); if (v != w + " " + w) throw bad("page comment " + v); } else p.pic.dsc[k] = v; }
  p.pic.dsc["pages seen"] = std::to_string(n); return p.pic; }
// Turn a page painted a quarter turn anticlockwise back, given the width of the sheet.
inline void upright(Page &p, double w) { for (auto &t : p.texts) t.y = -t.y, t.y = w - t.y; for (auto &s : p.segs) { Seg o = s; s.x1 = o.y1; s.y1 = w - o.x1; s.x2 = o.y2; s.y2 = w - o.x2; } for (auto &c : p.circles) { double x = c.x; c.x = c.y; c.y = w - x; } for (auto &r : p.rects) { Rect o = r; r.x1 = o.y1; r.y1 = w - o.x1; r.x2 = o.y2; r.y2 = w - o.x2; } }
// ---------------------------------------------------------------- PDF
struct PDF {
  std::string const &t; std::map<int, size_t> off; Pic pic;
  explicit PDF(std::string const &x) : t(x) {}
  static bool sp(char c) { return isspace((unsigned char)c) || c == '\0'; }
  struct V { char k = 0; std::string s; std::vector<V> a; std::map<std::string, V> d; int ref = 0; }; // k: n number, / name, ( string, [ array, < dict, R ref, w word
  V val(size_t &i) const { while (i < t.size() && sp(t[i])) ++i; if (i >= t.size()) throw bad("PDF: end of file"); V v; char c = t[i];
    if (c == '/') { size_t b = ++i; while (i < t.size() && !sp(t[i]) && !strchr("()<>[]/", t[i])) ++i; v.k = '/'; v.s = t.substr(b, i - b); return v; } if (c == '(') { ++i; v.k = '('; v.s = literal(t, i); return v; }
    if (c == '[') { ++i; v.k = '['; for (;;) { while (i < t.size() && sp(t[i])) ++i; if (i < t.size() && t[i] == ']') { ++i; return v; } v.a.push_back(val(i)); refs(v.a); } }
    if (c == '<' && t.compare(i, 2, "<<") == 0) { i += 2; v.k = '<'; for (;;) { while (i < t.size() && sp(t[i])) ++i; if (t.compare(i, 2, ">>") == 0) { i += 2; return v; } V k = val(i); if (k.k != '/') throw bad("PDF: key expected"); V x = val(i); if (x.k == 'n') { size_t j = i; try { V y = val(j), z; if (y.k == 'n') { z = val(j); if (z.k == 'w' && z.s == "R") { x.ref = atoi(x.s.c_str()); x.k = 'R'; i = j; } } } catch (bad &) {} } if (v.d.count(k.s)) throw bad("PDF: key twice"); v.d[k.s] = x; } }
    size_t b = i; while (i < t.size() && !sp(t[i]) && !strchr("()<>[]/", t[i])) ++i; if (i == b) throw bad(std::string("PDF: stray ") + c); v.s = t.substr(b, i - b); v.k = isnum(v.s) ? 'n' : 'w'; return v; }
  static void refs(std::vector<V> &a) { size_t n = a.size(); if (n >= 3 && a[n - 1].k == 'w' && a[n - 1].s == "R" && a[n - 2].k == 'n' && a[n - 3].k == 'n') { a[n - 3].k = 'R'; a[n - 3].ref = atoi(a[n - 3].s.c_str()); a.resize(n - 2); } }
  V obj(int n, std::string *stream = 0) { if (!off.count(n)) throw bad("PDF: no object " + std::to_string(n)); size_t i = off[n]; V a = val(i), b = val(i), c = val(i); if (a.s != std::to_string(n) || b.s != "0" || c.s != "obj") throw bad("PDF: object " + std::to_string(n) + " is not where the table says"); V v = val(i); size_t j = i; V e = val(j);
    if (e.s == "stream") { i = j; if (t.compare(i, 2, "\r\n") == 0) i += 2; else if (t[i] == '\n') ++i; else throw bad("PDF: stream line"); V l = v.d["Length"]; if (l.k == 'R') l = obj(l.ref); size_t len = (size_t)num(l.s); if (i + len > t.size()) throw bad("PDF: stream too long"); if (stream) *stream = t.substr(i, len); i += len; if (i < t.size() && t[i] == '\n') ++i; if (t.compare(i, 9, "endstream")) throw bad("PDF: length of stream is wrong"); i += 9; e = val(i); } if (e.s != "endobj") throw bad("PDF: endobj expected"); return v; }
  struct G { Mat m; Col f{{0, 0, 0}}, s{{0, 0, 0}}; double lw = 1; };
  void content(std::string const &c, Page &pg, std::map<std::string, std::string> const &fonts) {
    PDF p(c); size_t i = 0; std::vector<V> a; G g; std::vector<G> st; std::string font; double size = 0, tc = 0, tz = 1, tl = 0; bool text = false; double lx = 0, ly = 0, tx = 0; std::vector<std::vector<std::pair<double, double>>> path; bool curved = false; std::vector<Rect> rects;
    auto n = [&](size_t k, size_t of) { if (a.size() != of || a[k].k != 'n') throw bad("PDF: operands"); return num(a[k].s); };
    auto show = [&](std::string const &s) { if (!text || font.empty()) throw bad("PDF: text outside BT"); double x0 = lx + tx; double w = 0; for (unsigned char ch : s) w += width(font, ch) * size / 1000 * tz; double X, Y, X2, Y2; app(g.m, x0, ly, X, Y); app(g.m, x0 + w, ly, X2, Y2); if (std::fabs(Y2 - Y) > 1e-3) pg.texts.push_back({s, Y, Y2, -X, size, font, g.f}); else pg.texts.push_back({s, X, X2, Y, size, font, g.f}); tx += w + tc * tz * s.size(); };
    auto pt = [&](double x, double y) { double X, Y; app(g.m, x, y, X, Y); return std::make_pair(X, Y); };
    for (;;) { while (i < c.size() && sp(c[i])) ++i; if (i >= c.size()) break; V v = p.val(i); if (v.k != 'w') { a.push_back(v); continue; } std::string const &o = v.s;
      if (o == "q") st.push_back(g); else if (o == "Q") { if (st.empty()) throw bad("PDF: Q without q"); g = st.back(); st.pop_back(); } else if (o == "cm") { Mat m{n(0, 6), n(1, 6), n(2, 6), n(3, 6), n(4, 6), n(5, 6)}; g.m = mul(m, g.m); }
      else if (o == "g") { double x = n(0, 1); g.f = Col{{x, x, x}}; } else if (o == "G") { double x = n(0, 1); g.s = Col{{x, x, x}}; } else if (o == "rg") g.f = Col{{n(0, 3), n(1, 3), n(2, 3)}}; else if (o == "RG") g.s = Col{{n(0, 3), n(1, 3), n(2, 3)}}; else if (o == "w") g.lw = n(0, 1);
      else if (o == "BT") { if (text) throw bad("PDF: BT"); text = true; lx = ly = tx = 0; } else if (o == "ET") { if (!text) throw bad("PDF: ET"); text = false; } else if (o == "Tf") { if (a.size() != 2 || a[0].k != '/' || !fonts.count(a[0].s)) throw bad("PDF: unknown font"); font = fonts.at(a[0].s); size = num(a[1].s); } else if (o == "Td") { lx += n(0, 2); ly += n(1, 2); tx = 0; } else if (o == "Tc") tc = n(0, 1); else if (o == "Tz") tz = n(0, 1) / 100; else if (o == "TL") tl = n(0, 1); else if (o == "T*") { if (!a.empty()) throw bad("PDF: operands"); ly -= tl; tx = 0; }
      else if (o == "Tj") { if (a.size() != 1 || a[0].k != '(') throw bad("PDF: Tj"); show(a[0].s); } else if (o == "TJ") { if (a.size() != 1 || a[0].k != '[') throw bad("PDF: TJ"); for (auto &e : a[0].a) if (e.k == 'n') tx -= num(e.s) / 1000 * size * tz; else if (e.k == '(') show(e.s); else throw bad("PDF: TJ"); }
      else if (o == "m") path.push_back({pt(n(0, 2), n(1, 2))}); else if (o == "l") { if (path.empty()) throw bad("PDF: l without m"); path.back().push_back(pt(n(0, 2), n(1, 2))); } else if (o == "c") { if (path.empty()) throw bad("PDF: c without m"); curved = true; n(0, 6); path.back().push_back(pt(n(4, 6), n(5, 6))); } else if (o == "re") { auto q = pt(n(0, 4), n(1, 4)), r = pt(n(0, 4) + n(2, 4), n(1, 4) + n(3, 4)); rects.push_back({q.first, q.second, r.first, r.second, g.f}); }
      else if (o == "S" || o == "f") { if (text) throw bad("PDF: path in text"); for (auto &q : path) if (curved) { double x1 = 1e9, x2 = -1e9, y1 = 1e9, y2 = -1e9; for (auto &z : q) { x1 = std::min(x1, z.first); x2 = std::max(x2, z.first); y1 = std::min(y1, z.second); y2 = std::max(y2, z.second); } pg.circles.push_back({(x1 + x2) / 2, (y1 + y2) / 2, (x2 - x1) / 2, o == "f", o == "f" ? g.f : g.s}); } else if (o == "f") throw bad("PDF: fill of a straight path"); else for (size_t k = 0; k + 1 < q.size(); ++k) pg.segs.push_back({q[k].first, q[k].second, q[k + 1].first, q[k + 1].second, g.lw, g.s}); if (o == "f") pg.rects.insert(pg.rects.end(), rects.begin(), rects.end()); path.clear(); rects.clear(); curved = false; }
      else throw bad("PDF: operator " + o); a.clear(); }
    if (!a.empty() || !st.empty() || text || !path.empty()) throw bad("PDF: content left over"); }
  Pic read() {
    if (t.compare(0, 7, "%PDF-1.") || t.size() < 6 || t.substr(t.size() - 6) != "%%EOF\n") throw bad("PDF: header or end"); size_t sx = t.rfind("startxref\n"); if (sx == std::string::npos) throw bad("PDF: no startxref"); size_t i = (size_t)atol(t.c_str() + sx + 10); if (t.compare(i, 5, "xref\n")) throw bad("PDF: startxref is wrong"); i += 5; int first, count; int used; if (sscanf(t.c_str() + i, "%d %d%n", &first, &count, &used) != 2 || first) throw bad("PDF: xref"); i += used; if (t[i] != '\n') throw bad("PDF: xref"); ++i;
    for (int k = 0; k < count; ++k, i += 20) { std::string e = t.substr(i, 20); if (e.size() != 20 || e[10] != ' ' || e[16] != ' ' || e[18] != ' ' || e[19] != '\n') throw bad("PDF: xref entry " + e); for (int j = 0; j < 10; ++j) if (!isdigit((unsigned char)e[j])) throw bad("PDF: xref entry " + e); if (!k) { if (e != "0000000000 65535 f \n") throw bad("PDF: free entry"); } else { if (e.substr(11, 5) != "00000" || e[17] != 'n') throw bad("PDF: xref entry " + e); off[k] = (size_t)atol(e.c_str()); } }
    if (t.compare(i, 7, "trailer")) throw bad("PDF: trailer"); i += 7; V tr = val(i); if (tr.d["Size"].s != std::to_string(count)) throw bad("PDF: size"); for (auto &o : off) obj(o.first); V root = obj(tr.d["Root"].ref); if (root.d["Type"].s != "Catalog") throw bad("PDF: catalogue"); if (tr.d.count("Info")) obj(tr.d["Info"].ref); V pages = obj(root.d["Pages"].ref); if (pages.d["Type"].s != "Pages") throw bad("PDF: pages"); V kids = pages.d["Kids"]; if (pages.d["Count"].s != std::to_string(kids.a.size())) throw bad("PDF: count of pages"); V mb = pages.d["MediaBox"]; if (mb.a.size() != 4 || num(mb.a[0].s) || num(mb.a[1].s)) throw bad("PDF: media box"); pic.w = num(mb.a[2].s); pic.h = num(mb.a[3].s); pic.dsc["Rotate"] = pages.d["Rotate"].s; std::map<std::string, std::string> fonts; for (auto &f : pages.d["Resources"].d["Font"].d) { V d = obj(f.second.ref); if (d.d["Type"].s != "Font" || d.d["Name"].s != f.first) throw bad("PDF: font"); fonts[f.first] = d.d["BaseFont"].s; pic.fonts.push_back(d.d["BaseFont"].s); }
    std::vector<char> seen(count + 1); for (auto &k : kids.a) { if (k.k != 'R' || seen[k.ref]++) throw bad("PDF: page twice"); V pg = obj(k.ref); if (pg.d["Type"].s != "Page" || pg.d["Parent"].ref != root.d["Pages"].ref) throw bad("PDF: page"); std::string s; obj(pg.d["Contents"].ref, &s); Page p; content(s, p, fonts); pic.pages.push_back(p); } return pic; }
};
inline Pic pdf(std::string const &t) { PDF p(t); return p.read(); }
} // namespace gfx
#endif
