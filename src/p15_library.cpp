// P15: method library files of every format read as the methods written in them.
#include "rl.h"
#include "refpn.h"
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <ringing/method.h>
#include <ringing/library.h>
#include <ringing/litelib.h>
#include <ringing/mslib.h>
#include <ringing/cclib.h>
#include <ringing/xmllib.h>
#include <ringing/peal.h>
using namespace ringing;
using namespace rl;
typedef std::vector<ref::Sw> M;
struct Peal { int d, m, y; std::string where; };
struct Want { int b; M m; std::string name, base; std::string payload; int ref = 0; Peal tower{0, 0, 0, ""}, hand{0, 0, 0, ""}; std::string rw, ccc; };
static std::string dir() { static std::string d; if (d.empty()) { char const *w = getenv("VF_WORK"); d = std::string(w ? w : "/tmp") + "/p15-" + vf::g.section + "-" + std::to_string(getpid()); mkdir(d.c_str(), 0700); } return d; }
static std::string put(std::string const &fn, std::string const &txt) { std::string p = dir() + "/" + fn; std::ofstream o(p.c_str(), std::ios::binary); o << txt; return p; }
static M pnm(int n, std::string const &s) { M m; if (!ref::parse_pn(n, s, m)) { std::cerr << "bad notation " << s << "\n"; abort(); } return m; }
static bool same(method const &m, int b, M const &w) { if (m.bells() != b || m.size() != w.size()) return false; for (size_t i = 0; i < w.size(); ++i) if (m[i] != mkc(w[i])) return false; return true; }
static void entry(library_entry const &e, Want const &w, std::string const &at) {
  EXPECT(!e.null() && e.bells() == w.b, "stage", at, ": ", e.bells());
  if (e.bells() != w.b) return;
  EXPECT(same(e.meth(), w.b, w.m), "method", at, ": ", e.pn());
  EXPECT(same(method(e.pn(), e.bells()), w.b, w.m), "notation", at, ": ", e.pn());
  EXPECT(e.name() == w.name, "name", at, ": ", vf::quote(e.name()), " not ", vf::quote(w.name));
  EXPECT(e.base_name() == w.base && e.meth().name() == w.base, "base-name", at, ": ", vf::quote(e.base_name()), " not ", vf::quote(w.base));
  EXPECT(e.fullname() == method(e.meth(), w.base).fullname(), "fullname", at, ": ", e.fullname());
}
static bool samepeal(peal const &p, Peal const &w) { return p.when().day == w.d && p.when().month == w.m && p.when().year == w.y && p.where() == w.where; }
template <class F> static void facet(library_entry const &e, bool has, char const *what, std::string const &at, std::function<bool(typename F::type const &)> ok) {
  EXPECT(e.template has_facet<F>() == has, what, at, ": has ", e.template has_facet<F>());
  if (has) { bool t = false; try { EXPECT(ok(e.template get_facet<F>()), what, at, ": wrong"); } catch (std::runtime_error const &) { t = true; } EXPECT(!t, what, at, ": refused"); EXPECT(e.get_facet(F::id).get() && e.get_facet(F::id)->get_id() == F::id, what, at, ": wrong kind"); }
  else { bool t = false; try { e.template get_facet<F>(); } catch (std::runtime_error const &) { t = true; } EXPECT(t, what, at, ": invented"); EXPECT(!e.get_facet(F::id), what, at, ": not null"); }
}
static std::string lower(std::string s) { for (char &c : s) c = tolower(c); return s; }
// every way of looking at a library that is known to hold these
static void lib(library &l, std::vector<Want> const &w, std::function<void(library_entry const &, Want const &, std::string const &)> more, bool again = true) {
  vf::states();
  EXPECT(l.good(), "good", "");
  for (int pass = 0; pass < (again ? 2 : 1); ++pass) {
    size_t k = 0; std::vector<library_entry> kept;
    auto i = l.begin(), e = l.end();
    for (; i != e && k < w.size() + 2; ++i, ++k) { if (k < w.size()) { entry(*i, w[k], vf::cat("entry ", k)); if (more) more(*i, w[k], vf::cat("entry ", k)); EXPECT(i->bells() == w[k].b, "arrow", k); } kept.push_back(*i); }
    EXPECT(k == w.size(), "entries", k, " entries, not ", w.size()); if (k != w.size()) return;
    for (k = 0; k < w.size(); ++k) { entry(kept[k], w[k], vf::cat("kept ", k)); if (more) more(kept[k], w[k], vf::cat("kept ", k)); }
  }
  if (!again) return;
  EXPECT(l.empty() == w.empty(), "empty", "");
  std::list<method> ms; EXPECT(l.mdir(ms) == (int)w.size() && ms.size() == w.size(), "mdir", ms.size()); { size_t k = 0; for (auto &m : ms) { EXPECT(same(m, w[k].b, w[k].m) && m.name() == w[k].base, "mdir", k); ++k; } }
  std::list<std::string> ns; EXPECT(l.dir(ns) == (int)w.size(), "dir", ns.size()); { size_t k = 0; for (auto &n : ns) { EXPECT(n == w[k].name, "dir", n); ++k; } }
  for (size_t k = 0; k < w.size(); ++k) {
    // found by name (the first of that name, in any case), with or without its stage; by notation; by title
    for (int st : {0, w[k].b, w[k].b + 1}) for (int up = 0; up < 2; ++up) {
      size_t f = 0; while (f < w.size() && !(lower(w[f].name) == lower(w[k].name) && (!st || w[f].b == st))) ++f;
      std::string q = w[k].name; if (up) for (char &c : q) c = toupper(c);
      bool t = false; try { method m = l.load(q, st); EXPECT(f < w.size() && same(m, w[f].b, w[f].m), "load", q, " on ", st); } catch (library_base::invalid_name const &) { t = true; } EXPECT(t == (f == w.size()), "load", q, " on ", st, t ? " not found" : " found");
    }
    size_t f = 0; while (!(w[f].b == w[k].b && w[f].m == w[k].m)) ++f;
    std::vector<change> v; for (auto &c : w[k].m) v.push_back(mkc(c)); library_entry r = l.find(method(v)); EXPECT(!r.null(), "find-notation", k); if (!r.null()) entry(r, w[f], vf::cat("found ", k));
    std::string title = method(method(v), w[k].base).fullname(); f = 0; for (; f < w.size(); ++f) { std::vector<change> u; for (auto &c : w[f].m) u.push_back(mkc(c)); if (method(method(u), w[f].base).fullname() == title) break; }
    library_entry s = l.find(title); EXPECT(!s.null(), "find-title", title); if (!s.null()) entry(s, w[f], "titled " + title);
  }
  EXPECT(l.find(method("X.12", 4)).null() && l.find(std::string("No Such Method")).null(), "find-absent", "");
  bool t = false; try { l.load("No Such Method"); } catch (library_base::invalid_name const &) { t = true; } EXPECT(t, "load-absent", "");
}
// ---- lite libraries ----------------------------------------------------------
struct Line { std::string txt; int b; std::string pn, payload; };   // b: 0 none given, -1 not an entry
static std::vector<Line> const LINES = {{"X.14.X.14,12", 0, "X.14.X.14,12", ""}, {"4:&X.14.X,12 Plain  Bob\t1 ", 4, "&X.14.X,12", "Plain  Bob\t1"}, {"", -1, "", ""}, {" \t", -1, "", ""}, {"\t 5:3.1.3.1.3.1\tpay", 5, "3.1.3.1.3.1", "pay"}, {"  34 x", 0, "34", "x"}, {"6:-  ", 6, "-", ""}, {"4:1234 4:X two", 4, "1234", "4:X two"}};
VF_SECTION(lite) {
  int L = vf::tier(3, 4); std::vector<int> f;
  std::function<void()> go = [&]() {
    for (int fl = 0; fl < 8; ++fl) { bool nl = fl & 1, bom = fl & 2, crlf = fl & 4; if (f.empty() && (crlf || !nl)) continue;
      CASE("lines ", [&] { std::string s; for (int i : f) s += char('0' + i); return s; }(), nl ? "" : " without newline", bom ? " bom" : "", crlf ? " crlf" : "") {
        std::string txt = bom ? "\xEF\xBB\xBF" : ""; for (size_t i = 0; i < f.size(); ++i) { txt += LINES[f[i]].txt; if (nl || i + 1 < f.size()) txt += crlf ? "\r\n" : "\n"; }
        std::string fn = put("lite", txt);
        for (int req : {0, 4, 5, 6}) for (int pay = 0; pay < 2; ++pay) {
          std::vector<Want> w; for (int i : f) { Line const &x = LINES[i]; if (x.b < 0) continue; if (req ? (x.b && x.b != req) : !x.b) continue; Want v; v.b = req ? req : x.b; v.m = pnm(v.b, x.pn); v.payload = x.payload; v.name = v.base = pay ? x.payload : ""; w.push_back(v); }
          auto more = [&](library_entry const &e, Want const &v, std::string const &at) { facet<litelib::payload>(e, true, "payload", at, [&](std::string const &s) { return s == v.payload; }); facet<rw_ref>(e, false, "no-facet", at, [](std::string const &) { return false; }); };
          litelib a(req, fn, pay ? litelib::payload_is_name : 0); lib(a, w, more);
          std::istringstream is(txt); litelib s(req, is, pay ? litelib::payload_is_name : 0); lib(s, w, more, false);
        }
      } END_CASE }
    if ((int)f.size() < L) for (size_t i = 0; i < LINES.size(); ++i) { f.push_back(i); go(); f.pop_back(); }
  };
  go();
  CASE("missing file") { litelib a(6, dir() + "/nosuch"); EXPECT(!a.good() && a.begin() == a.end(), "missing", ""); } END_CASE
}
static std::vector<M> methods_for(int n) {
  std::vector<std::string> s;
  if (n == 4) s = {"&X.14.X.14,12", "&X.14.X.34,12", "&X.12.X.14,12", "&X.14.12.14,14", "X.14.X.12", "&X.14.34.X,14", "12.14.X.34"};
  if (n == 5) s = {"&5.1.5.1.5,125", "3,&1.5.1.5.1", "&3.1.5.1.5,1", "3.1.3.1.3", "&5.1.345.1.5,125"};
  if (n == 6) s = {"&X.16.X.16.X.16,12", "&X.36.X.14.X.12.X.36.X.14.X.56,12", "&X.34.X.16.X.12.X.36.X.12.X.16,12", "&X.34.X.14.X.12.X.36.X.14.X.56,12", "&X.16.X.12.X.36.X.12.X.16.X.56,16", "&X.14.X.36.X.16.X,16", "&X.16.X.12.X.16.X.12.X.16,14", "&34.16.X.16,12", "&X.16.X.16,16", "X.16.34.16"};
  if (n == 8) s = {"&X.38.X.14.X.1258.X.36.X.14.X.58.X.16.X.78,12", "&X.18.X.18.X.18.X.18,12", "&X.18.X.58.X.18,18"};
  std::vector<M> v; for (auto &x : s) v.push_back(pnm(n, x)); return v;
}
static method mm(M const &m, std::string const &n) { std::vector<change> v; for (auto &c : m) v.push_back(mkc(c)); return method(v, n); }
static std::string pntext(M const &m) { std::string s; for (size_t i = 0; i < m.size(); ++i) s += (i ? "." : "") + ref::pn(m[i]); return s; }
// the name within a title, for every class, stage, and awkward name
VF_SECTION(lite_names) {
  std::vector<std::string> names = {"", "A", "Norwich", "Two Words", "Minor", "Bob Minor Minor", "Major Surprise Fish", "Place to Bob", "Littleport", "Delightful", "Bobby", "St Clement's", "Surprise Me", "Minorca", "x"};
  for (int n : {4, 5, 6, 8}) for (auto &m : methods_for(n)) for (auto &nm : names) CASE("name ", vf::quote(nm), " for ", pntext(m), " on ", n) {
    std::string title = mm(m, nm).fullname(); if (mm(m, nm).methclass() == method::M_PRINCIPLE) { for (auto &bad : {"Minor", "Bob Minor Minor", "Place to Bob"}) if (nm == bad) return; }
    Want w; w.b = n; w.m = m; w.name = title; w.base = nm;
    std::istringstream is(pntext(m) + "  " + title + "\n"); litelib l(n, is, litelib::payload_is_name); lib(l, {w}, nullptr, false);
  } END_CASE
  // a title that is only a stage, or less
  for (auto &t : {"Minor", "Bob Minor", "Bob", "Differential Little Surprise Minor", "Little Bob Minor", "Minor ", "aMinor", "Minor Minor", "Bob Bob Minor", " "}) CASE("title ", vf::quote(t)) {
    std::string s(t), e(t); while (!s.empty() && s[s.size() - 1] == ' ') s.erase(s.size() - 1);
    std::string b = s; auto strip = [&](std::string const &x) { if (b.size() >= x.size() && b.substr(b.size() - x.size()) == x) { b.erase(b.size() - x.size()); while (!b.empty() && b[b.size() - 1] == ' ') b.erase(b.size() - 1); return true; } return false; };
    if (strip("Minor")) { bool c = strip("Bob") || strip("Surprise"); if (c) strip("Little"); strip("Differential"); }
    std::istringstream is("6:X.16 " + std::string(t) + "\n"); litelib l(0, is, litelib::payload_is_name); auto i = l.begin(); EXPECT(i != l.end() && i->name() == s, "title-name", i->name()); if (s != "aMinor") EXPECT(i->base_name() == b, "title-base", vf::quote(i->base_name()), " not ", vf::quote(b));
  } END_CASE
}
// ---- MicroSIRIL --------------------------------------------------------------
VF_SECTION(microsiril) {
  struct H { std::string txt; int b; }; std::vector<H> heads = {{"", 0}, {"* 6", 6}, {"*ID Surprise6", 6}, {"*x p4", 4}, {"*header", 0}, {"* Maximus12 1", 12}};
  struct E { std::string pn, lh; std::string meaning; };
  std::vector<E> es; for (char c : std::string("abcdefghklmpqrs")) { std::string le = (c >= 'a' && c <= 'f') || c == 'p' || c == 'q' ? "2" : "1"; es.push_back({"&-4-14", std::string(1, c), "&-4-14," + le}); es.push_back({"&-4-14", std::string(1, c) + "1", "&-4-14," + le}); }
  es.push_back({"&-4-14", "14z", "&-4-14,14"}); es.push_back({"&-4-14", "1234z", "&-4-14,1234"}); es.push_back({"&-4-14", "-z", "&-4-14,-"}); es.push_back({"+-4-14.2", "z", "+-4-14.2"}); es.push_back({"+4.14.34.2", "a", "+4.14.34.2"}); es.push_back({"&4.X.14", "", "&4.X.14,1"});
  std::vector<std::string> names = {"Plain", "A", "X-Y", "9Tailors", "Name", "St_Clements"};
  auto run = [&](std::string const &txt, int fileb, std::vector<std::pair<int, size_t>> const &ent, std::vector<std::string> const &nm, std::string const &fn) {
    std::vector<Want> w; for (size_t i = 0; i < ent.size(); ++i) { Want v; v.b = ent[i].first ? ent[i].first : fileb; v.m = pnm(v.b, es[ent[i].second].meaning); v.name = v.base = nm[i]; w.push_back(v); }
    std::string p = put(fn, txt); mslib l(p); lib(l, w, nullptr); unlink(p.c_str());
  };
  size_t k = 0; int W = vf::tier(3, 4);
  // every sequence of headers and entries
  std::vector<int> seq; std::function<void()> go = [&]() {
    if (!seq.empty()) for (int fl = 0; fl < 4; ++fl) CASE("file", [&] { std::string s; for (int x : seq) s += " " + std::to_string(x); return s; }(), " ", fl) {
      std::string txt; int b = 0; std::vector<std::pair<int, size_t>> ent; std::vector<std::string> nm; size_t q = 0;
      for (size_t i = 0; i < seq.size(); ++i) { int x = seq[i]; std::string ln; if (x < 4) { H const &h = heads[x + (x == 3)]; ln = h.txt; if (h.b) b = h.b; } else { size_t e = (k + q * 7) % es.size(); ent.push_back({b, e}); nm.push_back(names[(k / 3 + q) % names.size()]); ++q; ln = nm.back() + " " + es[e].lh + " " + es[e].pn; } txt += ln; if (i + 1 < seq.size() || !(fl & 1)) txt += fl & 2 ? "\r\n" : "\n"; }
      ++k; if (fl & 2) for (int x : seq) if (x == 0) return;   // a blank line with a carriage return is not blank
      run(txt, 5, ent, nm, fl & 1 ? "surprise5.txt" : "methods5");
    } END_CASE
    if ((int)seq.size() < W) for (int x = 0; x < 6; ++x) { seq.push_back(x); go(); seq.pop_back(); }
  };
  go();
  for (size_t e = 0; e < es.size(); ++e) for (size_t h = 1; h < heads.size(); ++h) { if (!heads[h].b) continue; CASE("entry ", es[e].lh, " ", es[e].pn, " on ", heads[h].b) { run(heads[h].txt + "\nPlain " + es[e].lh + " " + es[e].pn + "\n", 0, {{heads[h].b, e}}, {"Plain"}, "plain.txt"); } END_CASE }
  for (auto &bad : {"", "\n\n", "* 6\n", "One two\n", "one two three four\n", "Copyright 2010 the Central Council\n", "No. Name Notation\n"}) CASE("not a library ", vf::quote(bad)) { std::string p = put("bad", bad); mslib l(p); EXPECT(l.begin() == l.end(), "not-microsiril", ""); } END_CASE
}

// ---- Central Council collections ---------------------------------------------
static std::string pnrange(M const &m, size_t a, size_t b) { std::string s; for (size_t i = a; i < b; ++i) { std::string t = ref::pn(m[i]); if (t == "X") s += "-"; else { if (!s.empty() && s[s.size() - 1] != '-') s += "."; s += t; } } return s; }
struct Lay { int kind; bool tower, place, hand, rw, ccc; };   // kind 0: hl le lh; 1: hl lh; 2: lh
static void pad(std::string &s, size_t n) { while (s.size() < n) s += ' '; }
static std::string date(Peal const &p) { return p.d ? (p.d < 10 ? "0" : "") + std::to_string(p.d) + "." + (p.m < 10 ? "0" : "") + std::to_string(p.m) + "." + std::to_string(p.y) : ""; }
struct Cols { size_t name = 6, notn = 0, hl = 0, le = 0, lh = 0, tower = 0, place = 0, hand = 0, rw = 0, ccc = 0; std::string head; };
static Cols header(Lay const &l, size_t width) {
  Cols c; std::string h = "  No. Name"; pad(h, c.notn = 6 + width); h += "Notation"; pad(h, h.size() + 24);
  auto col = [&](size_t &at, std::string const &t, size_t w) { at = h.size(); h += t; pad(h, at + w); };
  if (l.kind < 2) col(c.hl, "hl", 6);
  if (l.kind < 1) col(c.le, "le", 6);
  col(c.lh, "lh", 10);
  if (l.tower) { col(c.tower, "Tower bells", 12); if (l.place) col(c.place, "Place", 20); }
  if (l.hand) col(c.hand, "Handbells", 11);
  if (l.rw) col(c.rw, "RW ref", 12);
  if (l.ccc) col(c.ccc, "CCC", 6);
  while (h[h.size() - 1] == ' ') h.erase(h.size() - 1);
  c.head = h; return c;
}
static std::string ccentry(Cols const &c, Lay const &l, Want const &w, std::string const &raw) {
  std::string s = w.ref < 10 ? "   " : "  "; s += std::to_string(w.ref); pad(s, c.name); s += raw; std::string out;
  if (raw.size() + 2 > c.notn - c.name) { out = s + "\n"; s = ""; }
  pad(s, c.notn); size_t n = w.m.size();
  if (l.kind == 0) { s += pnrange(w.m, 0, n / 2 - 1); pad(s, c.hl); s += pnrange(w.m, n / 2 - 1, n / 2); pad(s, c.le); s += pnrange(w.m, n - 1, n); }
  else if (l.kind == 1) { size_t k = (n - 1) / 2; std::string b = pnrange(w.m, 1, 1 + k); std::string a = pnrange(w.m, 0, 1); s += a + (a == "-" || b[0] == '-' ? "" : ".") + b; pad(s, c.hl); s += pnrange(w.m, 1 + k, 2 + k); }
  else s += pnrange(w.m, 0, n);
  pad(s, c.lh); s += "156342";
  if (l.tower) { if (w.tower.d || (l.place && !w.tower.where.empty())) { pad(s, c.tower); s += date(w.tower); if (l.place && !w.tower.where.empty()) { pad(s, c.place); s += w.tower.where; } } }
  if (l.hand && w.hand.d) { pad(s, c.hand); s += date(w.hand); }
  if (l.rw && !w.rw.empty()) { pad(s, c.rw); s += w.rw; }
  if (l.ccc && !w.ccc.empty()) { pad(s, c.ccc); s += w.ccc; }
  return out + s;
}
static void ccmore(library_entry const &e, Want const &w, std::string const &at) {
  facet<cclib::ref>(e, true, "ref", at, [&](int r) { return r == w.ref; });
  facet<first_tower_peal>(e, w.tower.d || !w.tower.where.empty(), "tower-peal", at, [&](peal const &p) { return samepeal(p, w.tower); });
  facet<first_hand_peal>(e, w.hand.d, "hand-peal", at, [&](peal const &p) { return samepeal(p, w.hand); });
  facet<rw_ref>(e, !w.rw.empty(), "rw-ref", at, [&](std::string const &s) { return s == w.rw; });
  facet<cc_collection_id>(e, !w.ccc.empty(), "cc-id", at, [&](std::string const &s) { return s == w.ccc; });
  facet<litelib::payload>(e, false, "no-payload", at, [](std::string const &) { return false; });
}
// the title of the table a method belongs in, its name there and its full name without stage
static std::string cctitle(int b, int cl, std::string const &base, std::string &raw, std::string &name) {
  int main = cl & method::M_MASK; bool little = cl & method::M_LITTLE, diff = cl & method::M_DIFFERENTIAL; std::string st = method::stagename(b), t, c = method::classname(main);
  raw = name = base;
  if (main == method::M_PRINCIPLE || main == method::M_UNKNOWN) { if (diff) name += " Differential"; return st + (diff ? " differentials" : " principles"); }
  if (diff) { raw += " Differential"; t += "Differential "; } if (little) { raw += " Little"; t += "Little "; }
  name = c.empty() ? raw : raw + " " + c; if (main == method::M_HYBRID) c = "Hybrid";
  if (main == method::M_BOB || main == method::M_PLACE || main == method::M_SLOW_COURSE) { raw = name; return t + "Plain " + st + " methods"; }
  return t + c + " " + st + " methods";
}
static int kindof(M const &m) { size_t n = m.size(); bool a = n % 2 == 0, b = n % 2 == 0; for (size_t i = 0; i + 1 < n / 2 && a; ++i) a = m[i] == m[n - 2 - i]; if (a && n > 2) return 0; for (size_t i = 1; i < n / 2 && b; ++i) b = m[i] == m[n - i]; return b && n > 2 ? 1 : 2; }
static Want ccwant(int n, M const &m, std::string const &base, int ref, std::string &title, std::string &raw) {
  Want w; w.b = n; w.m = m; w.base = base; w.ref = ref; title = cctitle(n, mm(m, base).methclass(), base, raw, w.name); return w;
}
VF_SECTION(collection) {
  auto kind = [](M const &m) { return mm(m, "A").methclass() & method::M_MASK; }; auto principle = [&](M const &m) { return kind(m) == method::M_PRINCIPLE; };
  auto vague = [&](M const &m) { return principle(m) && (mm(m, "A").methclass() & method::M_LITTLE); };   // no table for these
  std::vector<std::string> names = {"Cambridge", "Double Norwich", "St Clement's", "A", "Bob", "Placer", "Surprise Fish"};
  // each method, on its own, in each layout with each set of other columns filled
  for (int n : {4, 5, 6, 8}) for (auto &m : methods_for(n)) if (!vague(m)) for (int lay = 0; lay < 32; ++lay) for (int fill = 0; fill < 4; ++fill) {
    Lay l{kindof(m), bool(lay & 1), bool(lay & 2), bool(lay & 4), bool(lay & 8), bool(lay & 16)}; if (l.place && !l.tower) continue;
    CASE("collection ", pntext(m), " on ", n, " layout ", lay, " filled ", fill) {
      std::string nm = names[(lay + fill + n) % names.size()], title; if (nm == "Bob" && principle(m)) nm = "Bobby"; std::string raw; Want w = ccwant(n, m, nm, lay + 1, title, raw);
      if (l.tower && (fill & 1)) w.tower = {1 + lay, 1 + fill, 1715 + lay, l.place ? "Norwich, St Peter" : ""};
      if (l.tower && l.place && fill == 2) w.tower = {0, 0, 0, "Oxford"};
      if (l.hand && (fill & 2)) w.hand = {31, 12, 2009, ""};
      if (l.rw && fill != 1) w.rw = fill == 0 ? "1998/123" : "123"; if (l.ccc && fill != 2) w.ccc = fill == 0 ? "5" : "77a";
      Cols c = header(l, 24);
      put("cc", "Collection, Copyright Central Council 2010\n\n" + title + "\n\n" + c.head + "\n" + ccentry(c, l, w, raw) + "\n");
      cclib a(dir() + "/cc"); lib(a, {w}, ccmore);
    } END_CASE
  }
}
VF_SECTION(collection_tables) {
  // files of several tables: every sequence of classes, so no table affects the next
  struct T { int n; std::string pn; }; std::vector<T> ts = {{6, "&X.16.X.16.X.16,12"}, {6, "&X.36.X.14.X.12.X.36.X.14.X.56,12"}, {6, "&X.34.X.16.X.12.X.36.X.12.X.16,12"}, {6, "&X.16.X.16,16"}, {5, "5.1.3.1"}, {5, "3,&1.5.1.5.1"}, {4, "&X.14.12.14,14"}, {4, "12.14.X.34"}, {6, "&X.14.X.36.X.16.X,16"}, {8, "&X.38.X.14.X.1258.X.36.X.14.X.58.X.16.X.78,12"}};
  std::vector<int> seq; int D = vf::tier(3, 4); std::vector<std::string> names = {"Bob", "Alpha", "A Fishmonger and Judith's Hat", "Place", "Bleaklow Little", "Slow Course"};
  std::function<void()> go = [&]() {
    if (!seq.empty()) CASE("tables", [&] { std::string s; for (int x : seq) s += " " + std::to_string(x); return s; }()) {
      std::string txt = "Methods Copyright 2010\n"; std::vector<Want> ws; int ref = 0;
      for (size_t i = 0; i < seq.size(); ++i) { T const &t = ts[seq[i]]; M m = pnm(t.n, t.pn); Lay l{kindof(m), i % 2 == 0, true, i % 3 == 0, i % 2 == 1, i % 2 == 0}; if (!l.tower) l.place = false; Cols c = header(l, 20 + 4 * (i % 2)); std::string title;
        std::string body; for (int k = 0; k < 2; ++k) { std::string raw; std::string base = k ? names[(i + seq[i]) % names.size()] : "Only"; if (t.pn == "5.1.3.1" || t.pn == "&X.16.X.16,16" || t.pn == "&X.14.X.36.X.16.X,16") base += "s"; Want w = ccwant(t.n, m, base, ++ref, title, raw); if (l.tower && k) w.tower = {1, 2, 1903, "Leeds"}; if (l.hand && !k) w.hand = {3, 4, 1905, ""}; if (l.rw) w.rw = "19/" + std::to_string(ref); if (l.ccc && k) w.ccc = "9"; body += ccentry(c, l, w, raw) + "\n"; ws.push_back(w); }
        txt += "\n" + title + "\n" + std::string(30, '-') + "\n" + c.head + "\n\n" + body; }
      put("cc", txt); cclib a(dir() + "/cc"); lib(a, ws, ccmore);
    } END_CASE
    if ((int)seq.size() < D) for (size_t x = 0; x < ts.size(); ++x) { seq.push_back(x); go(); seq.pop_back(); }
  };
  go();
  for (auto &bad : {"", "Copyright \n", "no notice\nSurprise Minor methods\n No. Name   Notation\n", "Copyright x\nSurprise Minor methods\n  No. Name         Notation         lh\n"}) CASE("empty collection ", vf::quote(bad)) { put("cc", bad); cclib a(dir() + "/cc"); EXPECT(a.begin() == a.end(), "no-entries", ""); } END_CASE
}
// ---- the generic interface ---------------------------------------------------
VF_SECTION(generic) {
  cclib::registerlib(); xmllib::registerlib(); mslib::registerlib();
  M m6 = pnm(6, "&X.36.X.14.X.12.X.36.X.14.X.56,12"); std::string title, raw; Want c = ccwant(6, m6, "Cambridge", 1, title, raw); Lay l{0, true, true, true, true, true}; Cols co = header(l, 20);
  std::string cc = "Copyright 2010\n" + title + "\n" + co.head + "\n" + ccentry(co, l, c, raw) + "\n", ms = "* 6\nNorwich l &-3-4-2-3-4-5\n";
  std::string xml = "<?xml version=\"1.0\"?>\n<methods xmlns=\"http://methods.ringing.org/NS/method\"><method><name>Xml</name><title>Xml Surprise Minor</title><stage>6</stage><pn><symblock>x36x14x12x36x14x56</symblock><symblock>12</symblock></pn></method></methods>\n";
  Want x(c); x.base = "Xml"; x.name = "Xml Surprise Minor"; Want n; n.b = 6; n.m = pnm(6, "&-3-4-2-3-4-5,1"); n.base = n.name = "Norwich";
  struct F { char const *fn; std::string txt; Want w; int kind; }; std::vector<F> fs = {{"a.cc", cc, c, 0}, {"b6.ms", ms, n, 1}, {"c.xml", xml, x, 2}};
  std::string d1 = dir() + "/one", d2 = dir() + "/two"; mkdir(d1.c_str(), 0700); mkdir(d2.c_str(), 0700);
  for (auto &f : fs) {
    std::string p = put(f.fn, f.txt); { std::ofstream o((d2 + "/" + f.fn).c_str()); o << f.txt; }
    CASE("recognised ", f.fn) { library a(p); EXPECT(a.good(), "recognised", ""); if (a.good()) { lib(a, {f.w}, nullptr); EXPECT((f.kind == 0) == a.begin()->has_facet<cclib::ref>(), "kind", ""); library b(a); lib(b, {f.w}, nullptr); library e; e = b; lib(e, {f.w}, nullptr); } } END_CASE
    for (auto &path : {d2, d1 + ":" + d2, d2 + ":" + d1, d1 + ":/nonexistent:" + d2, ":" + d2, d1 + "::" + d2 + ":"}) CASE("path ", path.substr(dir().size() > path.size() ? 0 : 0).size(), " ", f.fn, " ", std::count(path.begin(), path.end(), ':')) { library::setpath(path); library a(f.fn); EXPECT(a.good(), "on-path", ""); if (a.good()) lib(a, {f.w}, nullptr); library::setpath(""); } END_CASE
    CASE("not on path ", f.fn) { library::setpath(d1); library a(f.fn); EXPECT(!a.good() && a.begin() == a.end() && a.empty(), "not-on-path", ""); library b(std::string("/") + f.fn); EXPECT(!b.good(), "absolute", ""); library::setpath(""); } END_CASE
    CASE("path from the environment ", f.fn) { setenv("METHLIBPATH", d2.c_str(), 1); library::setpath_from_env(); library a(f.fn); EXPECT(a.good(), "env", ""); setenv("METHOD_LIBRARY_PATH", d1.c_str(), 1); library::setpath_from_env(); library b(f.fn); EXPECT(!b.good(), "env-order", ""); unsetenv("METHLIBPATH"); unsetenv("METHOD_LIBRARY_PATH"); library::setpath(""); } END_CASE
  }
  CASE("nothing") { library a; EXPECT(!a.good() && !a.writeable() && a.begin() == a.end(), "default", ""); library b(""); EXPECT(!b.good(), "empty-name", ""); library_entry e; EXPECT(e.null(), "null", ""); } END_CASE
  for (auto &bad : {"", "hello\n", "<html/>", "<methods", "Copyright 2010\n", "one two\n"}) CASE("unrecognised ", vf::quote(bad)) { std::string p = put("bad", bad); library a(p); EXPECT(!a.good() && a.empty(), "unrecognised", ""); } END_CASE
}
