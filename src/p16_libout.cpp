// P16: methods written out, kept in method sets and read back from XML keep everything about them.
#include "rl.h"
#include "refpn.h"
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <ringing/method.h>
#include <ringing/library.h>
#include <ringing/litelib.h>
#include <ringing/cclib.h>
#include <ringing/mslib.h>
#include <ringing/xmllib.h>
#include <ringing/xmlout.h>
#include <ringing/methodset.h>
#include <ringing/method_stream.h>
#include <ringing/peal.h>
using namespace ringing;
using namespace rl;
typedef std::vector<ref::Sw> M;
static std::string dir() { static std::string d; if (d.empty()) { char const *w = getenv("VF_WORK"); d = std::string(w ? w : "/tmp") + "/p16-" + vf::g.section + "-" + std::to_string(getpid()); mkdir(d.c_str(), 0700); } return d; }
static std::string put(std::string const &fn, std::string const &txt) { std::string p = dir() + "/" + fn; std::ofstream o(p.c_str(), std::ios::binary); o << txt; return p; }
static std::string slurp(std::string const &p) { std::ifstream i(p.c_str(), std::ios::binary); std::ostringstream s; s << i.rdbuf(); return s.str(); }
static M pnm(int n, std::string const &s) { M m; if (!ref::parse_pn(n, s, m)) { std::cerr << "bad notation " << s << "\n"; abort(); } return m; }
static method mm(M const &m, std::string const &n) { std::vector<change> v; for (auto &c : m) v.push_back(mkc(c)); return method(v, n); }
static bool same(method const &m, int b, M const &w) { if (m.bells() != b || m.size() != w.size()) return false; for (size_t i = 0; i < w.size(); ++i) if (m[i] != mkc(w[i])) return false; return true; }
struct Facets { bool tower = false, hand = false, rw = false, cc = false, pay = false; peal tp, hp; std::string r, c, p; };
// an entry of the kind a library would supply
class E : public library_entry::impl {
public:
  method m; std::string n, notn; std::map<library_facet_id, shared_pointer<library_facet_base>> f;
  E(method const &m, std::string const &n, std::string const &notn) : m(m), n(n), notn(notn) {}
  virtual impl *clone() const { return new E(*this); }
  virtual std::string name() const { return n; }
  virtual std::string base_name() const { return m.name(); }
  virtual std::string pn() const { return notn; }
  virtual int bells() const { return m.bells(); }
  virtual bool readentry(library_base &) { return false; }
  virtual shared_pointer<library_facet_base> get_facet(library_facet_id const &id) const { auto i = f.find(id); return i == f.end() ? shared_pointer<library_facet_base>() : i->second; }
  virtual void set_facet(shared_pointer<library_facet_base> const &x) { f[x->get_id()] = x; }
};
static library_entry mke(M const &m, std::string const &base, Facets const &fc, std::string const &notn = "") {
  method x = mm(m, base); library_entry e(new E(x, base, notn.empty() ? x.format(method::M_DASH) : notn));
  if (fc.tower) e.set_facet<first_tower_peal>(fc.tp); if (fc.hand) e.set_facet<first_hand_peal>(fc.hp); if (fc.rw) e.set_facet<rw_ref>(fc.r); if (fc.cc) e.set_facet<cc_collection_id>(fc.c); if (fc.pay) e.set_facet<litelib::payload>(fc.p);
  return e;
}
static bool samepeal(peal const &a, peal const &b) { return a.when().day == b.when().day && a.when().month == b.when().month && a.when().year == b.when().year && a.where() == b.where(); }
static void facets(library_entry const &e, Facets const &f, std::string const &at) {
  EXPECT(e.has_facet<first_tower_peal>() == f.tower, "tower-peal", at); if (f.tower) EXPECT(samepeal(e.get_facet<first_tower_peal>(), f.tp), "tower-peal", at, ": ", e.get_facet<first_tower_peal>().where());
  EXPECT(e.has_facet<first_hand_peal>() == f.hand, "hand-peal", at); if (f.hand) { EXPECT(e.get_facet(first_hand_peal::id)->get_id() == first_hand_peal::id, "hand-peal-kind", at); EXPECT(samepeal(e.get_facet<first_hand_peal>(), f.hp), "hand-peal", at, ": ", e.get_facet<first_hand_peal>().where()); }
  EXPECT(e.has_facet<rw_ref>() == f.rw, "rw-ref", at); if (f.rw) EXPECT(e.get_facet<rw_ref>() == f.r, "rw-ref", at);
  EXPECT(e.has_facet<cc_collection_id>() == f.cc, "cc-id", at); if (f.cc) EXPECT(e.get_facet<cc_collection_id>() == f.c, "cc-id", at);
  EXPECT(e.has_facet<litelib::payload>() == f.pay, "payload", at); if (f.pay) EXPECT(e.get_facet<litelib::payload>() == f.p, "payload", at);
}
static std::vector<std::pair<int, M>> const &grid() {
  static std::vector<std::pair<int, M>> g; if (g.empty()) {
    for (auto &p : {"&X.14.X.14,12", "X.14.X.12", "&X.12.X.14,12", "&X.14.12.14,14", "&X.14.34.X,14", "12.14.X.34", "X", "&14.X,X", "12.X.12"}) g.push_back({4, pnm(4, p)});
    for (auto &p : {"&5.1.5.1.5,125", "3,&1.5.1.5.1", "3.1.3.1.3", "&5.1.345.1.5,125", "1.3.5", "5.1.3.1"}) g.push_back({5, pnm(5, p)});
    for (auto &p : {"&X.36.X.14.X.12.X.36.X.14.X.56,12", "&X.34.X.16.X.12.X.36.X.12.X.16,12", "&X.34.X.14.X.12.X.36.X.14.X.56,12", "&X.16.X.12.X.36.X.12.X.16.X.56,16", "&X.14.X.36.X.16.X,16", "&X.16.X.12.X.16.X.12.X.16,14", "&34.16.X.16,12", "&X.16.X.16,16", "X.16.34.16", "&X.14.X.14.X.56,16", "12,&X.16.X.16.X.16"}) g.push_back({6, pnm(6, p)});
    for (auto &p : {"&X.38.X.14.X.1258.X.36.X.14.X.58.X.16.X.78,12", "&X.18.X.58.X.18,18"}) g.push_back({8, pnm(8, p)});
    g.push_back({12, pnm(12, "&X.1T.X.1T.X.1T.X.1T.X.1T.X.1T,12")}); g.push_back({3, pnm(3, "&3.1.3,1")}); g.push_back({2, pnm(2, "X.12")});
  } return g;
}
// ---- a small reader of XML ---------------------------------------------------
struct X { std::string name, text; std::map<std::string, std::string> attr; std::vector<X> kids; X const *kid(std::string const &n) const { for (auto &k : kids) if (k.name == n) return &k; return 0; } size_t count(std::string const &n) const { size_t c = 0; for (auto &k : kids) c += k.name == n; return c; } };
struct XP {
  std::string const &s; size_t i = 0; bool bad = false; XP(std::string const &s) : s(s) {}
  void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
  std::string nm() { size_t j = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("-_:.", s[i]))) ++i; if (i == j) bad = true; return s.substr(j, i - j); }
  std::string un(std::string const &t) { std::string o; for (size_t k = 0; k < t.size(); ++k) { if (t[k] != '&') { if (t[k] == '<') bad = true; o += t[k]; continue; } size_t e = t.find(';', k); if (e == std::string::npos) { bad = true; return o; } std::string x = t.substr(k + 1, e - k - 1); if (x == "lt") o += '<'; else if (x == "gt") o += '>'; else if (x == "amp") o += '&'; else if (x == "apos") o += '\''; else if (x == "quot") o += '"'; else if (x.size() > 1 && x[0] == '#') { long c = x[1] == 'x' ? strtol(x.c_str() + 2, 0, 16) : strtol(x.c_str() + 1, 0, 10); if (c < 128) o += char(c); else if (c < 2048) { o += char(192 | c >> 6); o += char(128 | (c & 63)); } else { o += char(224 | c >> 12); o += char(128 | (c >> 6 & 63)); o += char(128 | (c & 63)); } } else bad = true; k = e; } return o; }
  bool skip() { ws(); for (;;) { if (s.compare(i, 2, "<?") == 0) i = s.find("?>", i) + 2; else if (s.compare(i, 4, "<!--") == 0) i = s.find("-->", i) + 3; else return i < s.size() && s[i] == '<'; ws(); } }
  X elt() { X x; if (i >= s.size() || s[i] != '<') { bad = true; return x; } ++i; x.name = nm();
    for (;;) { ws(); if (bad || i >= s.size()) { bad = true; return x; } if (s[i] == '/') { ++i; if (s[i] != '>') bad = true; ++i; return x; } if (s[i] == '>') { ++i; break; } std::string a = nm(); if (s[i] != '=') { bad = true; return x; } ++i; char q = s[i]; if (q != '"' && q != '\'') { bad = true; return x; } size_t e = s.find(q, ++i); if (e == std::string::npos || x.attr.count(a)) { bad = true; return x; } x.attr[a] = un(s.substr(i, e - i)); i = e + 1; }
    for (;;) { if (bad) return x; size_t e = s.find('<', i); if (e == std::string::npos) { bad = true; return x; } x.text += un(s.substr(i, e - i)); i = e; if (s.compare(i, 4, "<!--") == 0) { i = s.find("-->", i) + 3; continue; } if (s.compare(i, 2, "</") == 0) { i += 2; if (nm() != x.name) bad = true; ws(); if (s[i] != '>') bad = true; ++i; return x; } x.kids.push_back(elt()); } }
};
static std::string kidtext(X const &x, std::string const &n, std::string const &at) { EXPECT(x.count(n) == 1, "element", at, ": ", x.count(n), " <", n, ">"); X const *k = x.kid(n); return k ? k->text : "?"; }
static void checkpeal(X const *p, peal const &want, std::string const &at) {
  EXPECT(p != 0, "written-peal", at); if (!p) return; char d[64] = ""; if (want.when().day) snprintf(d, 64, "%04d-%02d-%02d", want.when().year, want.when().month, want.when().day);
  X const *dt = p->kid("date"), *l = p->kid("location"); EXPECT((dt ? dt->text : "") == d, "written-date", at); EXPECT((l ? l->text : "") == want.where(), "written-location", at); EXPECT(p->kids.size() == size_t(!!dt) + !!l, "written-peal-extra", at);
}
static void written(X const &x, int n, M const &m, std::string const &base, Facets const &f, std::string const &at) {
  method t = mm(m, base); int cl = t.methclass(), mc = cl & method::M_MASK;
  EXPECT(x.name == "method", "written", at);
  EXPECT(kidtext(x, "name", at) == base, "written-name", at, ": ", kidtext(x, "name", at)); EXPECT(kidtext(x, "title", at) == t.fullname(), "written-title", at); EXPECT(kidtext(x, "stage", at) == std::to_string(n), "written-stage", at);
  EXPECT(kidtext(x, "classes", at) == method::classname(mc), "written-classes", at, ": ", kidtext(x, "classes", at));
  X const *p = x.kid("pn"); EXPECT(p && x.count("pn") == 1, "written-notation", at);
  if (p) { M g; bool ok = false; std::string txt; if (p->kids.size() == 1 && p->kids[0].name == "block") { txt = p->kids[0].text; ok = ref::parse_pn(n, txt, g); bool pal = false; if (m.size() % 2 == 0) for (size_t a = 0; a < m.size() / 2; ++a) { bool q = true; for (size_t j = 0; j < m.size(); ++j) q = q && m[j] == m[(2 * a + m.size() - j) % m.size()]; pal = pal || q; } EXPECT(!pal, "written-symmetry", at, ": ", txt); } else if (p->kids.size() == 2 && p->kids[0].name == "symblock" && p->kids[1].name == "symblock") { txt = "&" + p->kids[0].text + ",&" + p->kids[1].text; ok = ref::parse_pn(n, txt, g); } EXPECT(ok && g == m, "written-notation", at, ": ", txt); }
  ref::P r = ref::id(n); for (auto &c : m) r = ref::mul(r, ref::sw_perm(c)); EXPECT(kidtext(x, "lead-head", at) == ref::str(r), "written-lead-head", at, ": ", kidtext(x, "lead-head", at));
  X const *c = x.kid("classification"); EXPECT(c && c->count("cc-class") == 1 && c->count("lhcode") == 1 && c->kids.size() == 2, "written-classification", at);
  if (c && c->kid("cc-class") && c->kid("lhcode")) {
    static std::map<int, std::string> const names = {{method::M_PRINCIPLE, "principle"}, {method::M_BOB, "plain/bob"}, {method::M_PLACE, "plain/place"}, {method::M_TREBLE_BOB, "treble-dodging/treble-bob"}, {method::M_SURPRISE, "treble-dodging/surprise"}, {method::M_DELIGHT, "treble-dodging/delight"}, {method::M_TREBLE_PLACE, "treble-place"}, {method::M_ALLIANCE, "alliance"}, {method::M_HYBRID, "hybrid"}, {method::M_SLOW_COURSE, "slow-course"}};
    std::map<std::string, std::string> want; if (mc != method::M_UNKNOWN) want["class"] = names.at(mc); if (cl & method::M_LITTLE) want["little"] = "true"; if (cl & method::M_DIFFERENTIAL) want["differential"] = "true"; auto got = c->kid("cc-class")->attr; got.erase("xmlns"); EXPECT(got == want, "written-class", at);
    std::string code = t.lhcode(); auto lg = c->kid("lhcode")->attr; if (code.empty() || code[0] == 'z') EXPECT(!lg.count("code") && lg.count("xsi:nil") && lg["xsi:nil"] == "true", "written-lhcode", at); else EXPECT(lg.count("code") && lg["code"] == code && !lg.count("xsi:nil"), "written-lhcode", at, ": ", lg["code"]);
  }
  X const *pf = x.kid("performances"); EXPECT(!!pf == (f.tower || f.hand), "written-performances", at); if (pf) { EXPECT(pf->kids.size() == size_t(f.tower) + f.hand, "written-performances", at); if (f.tower) checkpeal(pf->kid("firsttower"), f.tp, at + " tower"); if (f.hand) checkpeal(pf->kid("firsthand"), f.hp, at + " hand"); }
  X const *rf = x.kid("refs"); EXPECT(!!rf == (f.rw || f.cc), "written-refs", at); if (rf) { EXPECT(rf->kids.size() == size_t(f.rw) + f.cc, "written-refs", at); if (f.rw) EXPECT(kidtext(*rf, "rwref", at) == f.r, "written-rwref", at); if (f.cc) EXPECT(kidtext(*rf, "ccc", at) == f.c, "written-ccc", at); }
}
struct T { int n; M m; std::string base; Facets f; };
static std::vector<std::string> const NAMES = {"Cambridge", "", "St Clement's", "A & B", "<Tag>", "\"Quoted\"", "B\xC3\xB6" "b \xE2\x82\xAC", "Two  Spaces", "a&amp;b", "]]>"};
static Facets mkf(int k) { Facets f; f.tower = k & 1; f.hand = k & 2; f.rw = k & 4; f.cc = k & 8; f.tp = k % 3 ? peal(peal::date(1 + k, 2, 1903), k % 3 == 1 ? "Leeds, St <Peter> & Paul" : "") : peal(peal::date(), "Oxford"); f.hp = peal(peal::date(31, 12, 2009), k % 2 ? "Hall" : ""); f.r = "1998/12" + std::to_string(k); f.c = "<" + std::to_string(k); return f; }
static void writtenfile(std::string const &txt, std::vector<T> const &ts, std::string const &at) {
  XP p(txt); X d; if (p.skip()) d = p.elt(); else p.bad = true; EXPECT(!p.bad && d.name == "methods", "well-formed", at, ": ", vf::quote(txt.substr(0, 200))); if (p.bad) return; EXPECT(d.attr["xmlns"] == "http://methods.ringing.org/NS/method", "namespace", at);
  EXPECT(d.kids.size() == ts.size(), "written-methods", at, ": ", d.kids.size()); for (size_t i = 0; i < ts.size() && i < d.kids.size(); ++i) written(d.kids[i], ts[i].n, ts[i].m, ts[i].base, ts[i].f, vf::cat(at, " method ", i));
}
static void readback(library const &l, std::vector<T> const &ts, std::string const &at) {
  vf::states();
  for (int pass = 0; pass < 2; ++pass) { size_t k = 0; for (auto i = l.begin(); i != l.end() && k <= ts.size(); ++i, ++k) if (k < ts.size()) { T const &t = ts[k]; EXPECT(i->bells() == t.n && same(i->meth(), t.n, t.m), "read-method", at, " ", k, ": ", i->pn()); EXPECT(i->base_name() == t.base && i->meth().name() == t.base, "read-name", at, " ", k); EXPECT(i->name() == mm(t.m, t.base).fullname() && i->fullname() == i->name(), "read-title", at, " ", k); } EXPECT(k == ts.size(), "read-methods", at, ": ", k); }
}
static void write_read(std::vector<T> const &ts, int how, std::string const &at) {
  std::string p = dir() + "/out.xml"; unlink(p.c_str());
  if (how < 2) { xmlout o(p); if (how == 0) for (auto &t : ts) o.append(mke(t.m, t.base, t.f)); else if (how == 1) { std::vector<library_entry> v; for (auto &t : ts) v.push_back(mke(t.m, t.base, t.f)); std::copy(v.begin(), v.end(), o.begin()); o.flush(); o.flush(); } } else { std::vector<library_entry> v; for (auto &t : ts) v.push_back(mke(t.m, t.base, t.f)); multilibout ml; EXPECT(ml.empty(), "multi-empty", ""); ml.add(new xmlout(p)); ml.add(new xmlout(dir() + "/second.xml")); EXPECT(!ml.empty(), "multi-empty", ""); ml.append(v.begin(), v.end()); ml.flush(); EXPECT(slurp(p) == slurp(dir() + "/second.xml"), "multi", ""); }
  writtenfile(slurp(p), ts, at);
  xmllib l(xmllib::filename, p); EXPECT(l.good(), "read-good", at); readback(l, ts, at);
  library g(p); EXPECT(g.good(), "read-recognised", at); readback(g, ts, at);
}
VF_SECTION(xml_methods) {
  xmllib::registerlib();
  auto const &g = grid(); for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < NAMES.size(); ++j) CASE("method ", i, " called ", vf::quote(NAMES[j])) { T t{g[i].first, g[i].second, NAMES[j], Facets()}; write_read({t}, (i + j) % 3, ""); } END_CASE
  for (size_t i = 0; i < g.size(); ++i) for (int k = 0; k < 16; ++k) CASE("method ", i, " facets ", k) { T t{g[i].first, g[i].second, "Cambridge", mkf(k)}; write_read({t}, k % 3, ""); } END_CASE
  // sequences: nothing of one method reaches the next
  int D = vf::tier(2, 3); std::vector<int> kinds = {0, 5, 1, 8, 11, 26}, fc = {0, 1, 6, 9, 15}; std::vector<std::pair<int, int>> seq;
  std::function<void()> go = [&]() { CASE("sequence", [&] { std::string s; for (auto &p : seq) s += vf::cat(" ", p.first, "/", p.second); return s; }()) { std::vector<T> ts; for (auto &p : seq) ts.push_back({g[p.first].first, g[p.first].second, NAMES[(p.first + p.second) % NAMES.size()], mkf(p.second)}); write_read(ts, seq.size() % 3, ""); } END_CASE if ((int)seq.size() < D) for (int a : kinds) for (int b : fc) { seq.push_back({a, b}); go(); seq.pop_back(); } }; go();
  // to the standard output
  for (auto &fn : {"-", ""}) CASE("standard output ", vf::quote(fn)) { std::vector<T> ts = {{6, grid()[15].second, "Cambridge", mkf(3)}}; std::string p = dir() + "/stdout"; int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), save = dup(1); fflush(stdout); dup2(fd, 1); { xmlout o(fn); o.append(mke(ts[0].m, ts[0].base, ts[0].f)); o.flush(); } fflush(stdout); dup2(save, 1); close(fd); close(save); writtenfile(slurp(p), ts, "stdout"); } END_CASE
}
// every method of up to a few changes
VF_SECTION(xml_all_methods) {
  xmllib::registerlib();
  for (int n = 2; n <= 4; ++n) { auto ch = ref::changes(n); int D = n == 2 ? 6 : n == 3 ? vf::tier(5, 6) : vf::tier(4, 5); M m; std::function<void()> go = [&]() { if (!m.empty()) CASE("method ", [&] { std::string s; for (auto &c : m) s += " " + ref::pn(c); return s; }()) { write_read({T{n, m, "A", Facets()}}, 0, ""); } END_CASE if ((int)m.size() < D) for (auto &c : ch) { m.push_back(c); go(); m.pop_back(); } }; go(); }
}
// ---- documents in the formats read -------------------------------------------
struct PN { std::string xml; bool ok; std::string meaning; };
struct LOC { std::string xml, cc, ours; };
VF_SECTION(xml_documents) {
  xmllib::registerlib();
  std::vector<PN> pns = {{"<pn><symblock>x36x14x12x36x14x56</symblock><symblock>12</symblock></pn>", true, "&x36x14x12x36x14x56,12"}, {"<pn> <!-- c --> <symblock>3</symblock>\n<symblock>1.5.1.5.1</symblock></pn>", true, "&3,&1.5.1.5.1"}, {"<pn><block>3.1.34x12</block></pn>", true, "3.1.34x12"}, {"<pn><block>1.<!-- c -->3</block></pn>", true, "1.3"}, {"<pn><block><![CDATA[34]]>.1</block></pn>", true, "34.1"}, {"<pn><symblock>x</symblock></pn>", false, ""}, {"<pn><other>x</other></pn>", false, ""}, {"<pn/>", false, ""}, {"", false, ""}, {"<notation>x1.4</notation>", true, "x1.4"}, {"<notation>x14x36,12</notation><symmetry>palindromic</symmetry>", true, "&x14x36,12"}, {"<symmetry>palindromic double rotational</symmetry><notation>x14x36,12.34</notation>", true, "&x14x36,&12.34"}, {"<symmetry>rotational</symmetry><notation>x14x36</notation>", true, "x14x36"}, {"<notation>x14x36</notation><symmetry>palindromic</symmetry>", true, "x14x36"}};
  std::string P = "http://methods.ringing.org/NS/method", C = "http://www.cccbr.org.uk/methods/schemas/2007/05/methods";
  auto loc = [](int k, bool cc, std::string &want) { std::vector<std::pair<std::string, std::string>> parts = cc ? std::vector<std::pair<std::string, std::string>>{{"room", "Bar"}, {"building", "Hall & Co"}, {"town", "Leeds"}, {"county", "Yorkshire"}, {"region", "North"}, {"country", "UK"}} : std::vector<std::pair<std::string, std::string>>{{"dedication", "St Mary"}, {"place", "Leeds"}, {"county", "Yorkshire"}, {"country", "UK"}}; std::string x, esc; want = ""; if (k < 0) return x; for (size_t i = 0; i < parts.size(); ++i) if (k >> i & 1) { std::string t = parts[i].second; want += (want.empty() ? "" : ", ") + t; size_t a = t.find('&'); if (a != std::string::npos) t.replace(a, 1, "&amp;"); x = (k & 32) && i % 2 ? "<" + parts[i].first + ">" + t + "</" + parts[i].first + ">" + x : x + "<" + parts[i].first + ">" + t + "</" + parts[i].first + ">"; } return "<location>" + x + "</location>"; };
  auto pealx = [&](std::string const &elt, bool cc, int kind, int k, peal &want) { std::string w, x = loc(kind == 1 ? -1 : k, cc, w), d = kind == 2 ? "" : "<date>1903-02-" + std::to_string(10 + kind) + "</date>"; want = peal(kind == 2 ? peal::date() : peal::date(10 + kind, 2, 1903), w); return "<" + elt + ">" + (k % 2 ? x + d : d + "\n" + x) + "</" + elt + ">"; };
  auto look = [&](library const &l, std::vector<T> const &ts, std::vector<bool> const &ok, std::string const &at) { vf::states(); for (int pass = 0; pass < 2; ++pass) { size_t k = 0; for (auto i = l.begin(); i != l.end() && k <= ts.size(); ++i, ++k) if (k < ts.size()) { T const &t = ts[k]; EXPECT(i->name() == t.base + " Title" && i->base_name() == t.base, "xml-name", at, k, ": ", i->base_name(), "/", i->name()); bool th = false; try { EXPECT(same(i->meth(), t.n, t.m), "xml-method", at, k, ": ", i->pn(), " on ", i->bells()); } catch (std::runtime_error const &) { th = true; } EXPECT(th == !ok[k], "xml-refused", at, k); facets(*i, t.f, vf::cat(at, k)); library_entry c(*i); facets(c, t.f, "copy"); } EXPECT(k == ts.size(), "xml-count", at, k, " not ", ts.size()); } };
  for (int cc = 0; cc < 2; ++cc) for (size_t p = 0; p < pns.size(); ++p) for (int st = 0; st < 3; ++st) for (int ord = 0; ord < 2; ++ord) CASE(cc ? "collection" : "methods", " notation ", p, " stage ", st, " order ", ord) {
    int n = 6; std::string stage = st == 0 ? "<stage>6</stage>" : st == 1 ? "<stage> 6 </stage>" : ""; bool ok = pns[p].ok && (st < 2 || cc); std::string nm = "<name>Foo &amp; Co</name><title>Foo &amp; Co Title</title>";
    std::string me = ord ? "<method>" + pns[p].xml + "<!-- x -->" + stage + nm + "</method>" : "<method id=\"m1\">\n " + nm + "<classes>Surprise</classes>" + stage + "<nonsense><pn/><stage>4</stage></nonsense>" + pns[p].xml + "\n</method>";
    std::string doc = "<?xml version=\"1.0\"?>\n" + (cc ? "<collection xmlns=\"" + C + "\"><collectionName>X</collectionName><methodSet><properties>" + (st == 2 ? "<stage>6</stage>" : "<stage>8</stage>") + "</properties>" + me + "</methodSet></collection>" : "<methods xmlns=\"" + P + "\"><note>x</note>" + me + "</methods>");
    T t{n, ok ? pnm(n, pns[p].meaning) : M(), "Foo & Co", Facets()}; xmllib l(xmllib::filename, put("d.xml", doc)); look(l, {t}, {ok}, "");
  } END_CASE
  for (int cc = 0; cc < 2; ++cc) for (int has = 0; has < 4; ++has) for (int k1 = 0; k1 < 4; ++k1) for (int k = -1; k < 128; ++k) { if (!cc && k >= 0 && ((k & 16) || (k & 64))) continue; if (has != 3 && k > 8) continue; CASE(cc ? "collection" : "methods", " peals ", has, " kind ", k1, " location ", k) {
    T t{6, pnm(6, "x16"), "P", Facets()}; t.f.tower = has & 1; t.f.hand = has & 2; std::string x; if (has & 1) x += pealx(cc ? "firstTowerbellPeal" : "first-tower", cc, k1, k, t.f.tp); if (has & 2) { std::string y = pealx(cc ? "firstHandbellPeal" : "first-hand", cc, (k1 + 1) % 4, (k + 5) % 16, t.f.hp); x = k % 3 ? x + y : y + x; }
    std::string me = "<method><name>P</name><title>P Title</title><stage>6</stage><pn><block>x16</block></pn>" + x + "</method>"; xmllib l(xmllib::filename, put("d.xml", cc ? "<collection><methodSet>" + me + "</methodSet></collection>" : "<methods>" + me + "</methods>")); look(l, {t}, {true}, "");
  } END_CASE }
  // collections of several sets, some empty, with and without stages of their own
  int D = vf::tier(3, 4); std::vector<int> seq; std::function<void()> go = [&]() {
    for (int ws = 0; ws < 2; ++ws) CASE("sets", [&] { std::string s; for (int x : seq) s += " " + std::to_string(x); return s; }(), ws ? " spaced" : "") { std::string x; std::vector<T> ts; std::vector<bool> ok; for (int k : seq) { int ps = k % 3 == 0 ? 0 : k % 3 == 1 ? 6 : 8; if (k >= 12) { x += "<other><method/></other>"; continue; } x += "<methodSet>"; if (ps) x += "<properties><stage>" + std::to_string(ps) + "</stage></properties>"; for (int q = 0; q < (k / 3) % 4 && q < 3; ++q) { bool own = q == 1; int n = own ? 4 : ps; std::string nm = "N" + std::to_string(ts.size()); x += (ws ? "\n  <!-- m -->" : "") + std::string("<method><title>") + nm + " Title</title><name>" + nm + "</name>" + (own ? "<stage>4</stage>" : "") + "<notation>x14</notation></method>"; ts.push_back({n, n ? pnm(n, "x14") : M(), nm, Facets()}); ok.push_back(n != 0); } x += "</methodSet>"; if (ws) x += "\n"; } xmllib l(xmllib::filename, put("d.xml", "<collection>" + x + "</collection>")); look(l, ts, ok, ""); } END_CASE
    if ((int)seq.size() < D) for (int x = 0; x < 13; ++x) { seq.push_back(x); go(); seq.pop_back(); } }; go();
  for (auto &bad : {"", "x", "<methods>", "<methods></method>", "<other/>", "<methods/><methods/>", "<a><methods/></a>", "<methods>&bad;</methods>"}) CASE("refused ", vf::quote(bad)) { std::string p = put("b.xml", bad); bool t = false; try { xmllib l(xmllib::filename, p); } catch (std::exception const &) { t = true; } EXPECT(t, "not-refused", ""); library g(p); EXPECT(!g.good(), "not-refused", ""); } END_CASE
  CASE("no file") { bool t = false; try { xmllib l(xmllib::filename, dir() + "/nosuch.xml"); } catch (std::exception const &) { t = true; } EXPECT(t, "not-refused", ""); } END_CASE
  for (auto &e : {"<methods/>", "<collection/>", "<collection><methodSet/></collection>", "<methods><note/></methods>"}) CASE("no methods in ", e) { xmllib l(xmllib::filename, put("e.xml", e)); EXPECT(l.good() && l.empty() && l.begin() == l.end() && l.find(std::string("x")).null(), "empty", ""); } END_CASE
}
// ---- method sets -------------------------------------------------------------
VF_SECTION(method_sets) {
  // appends, facet storing, setting and clearing in every order
  struct Me { int n; std::string pn, name; }; std::vector<Me> ms = {{4, "x.14", "A"}, {4, "x.14", "B"}, {4, "x.14.x", "C"}, {5, "5.1", "A"}, {4, "14.x", "A"}};
  struct Ent { M m; int n; std::string name; Facets f; };
  struct Op { int k, a; }; std::vector<Op> ops; for (int i = 0; i < 5; ++i) ops.push_back({0, i}); for (int i = 0; i < 4; ++i) ops.push_back({1, i}); for (int i = 0; i < 3; ++i) ops.push_back({2, i}); ops.push_back({3, 0}); ops.push_back({4, 0}); ops.push_back({5, 0}); ops.push_back({6, 0});
  int D = vf::tier(3, 4); std::vector<int> seq;
  auto run = [&]() {
    methodset s; methodset *cur = &s; std::vector<Ent> w; bool st[3] = {false, false, false}; methodset keep;
    auto add = [&](Me const &x, Facets const &f) { M m = pnm(x.n, x.pn); for (auto &e : w) if (e.m == m) return; w.push_back({m, x.n, x.name, f}); };
    for (int o : seq) { Op const &op = ops[o];
      if (op.k == 0) { s.append(mm(pnm(ms[op.a].n, ms[op.a].pn), ms[op.a].name)); add(ms[op.a], Facets()); }
      if (op.k == 1) { Facets f = mkf(op.a == 0 ? 5 : op.a == 1 ? 15 : op.a == 2 ? 10 : 1); library_entry e = mke(pnm(ms[op.a].n, ms[op.a].pn), ms[op.a].name, f); if (o % 2) s.libout::append(e); else s.push_back(e); Facets g; if (st[0]) { g.tower = f.tower; g.tp = f.tp; } if (st[1]) { g.rw = f.rw; g.r = f.r; } if (st[2]) { g.hand = f.hand; g.hp = f.hp; } add(ms[op.a], g); }
      if (op.k == 2) { if (op.a == 0) s.store_facet<first_tower_peal>(); if (op.a == 1) s.store_facet<rw_ref>(); if (op.a == 2) s.store_facet(first_hand_peal::id); st[op.a] = true; }
      if (op.k == 3) { s.clear(); w.clear(); }
      if (op.k == 4) { M m = pnm(4, "x.14"); library_entry e = s.find(mm(m, "")); bool there = false; for (auto &x : w) if (x.m == m) { there = true; x.f.cc = true; x.f.c = "seven"; } EXPECT(e.null() == !there, "set-find", ""); if (there) { library_entry c(e); e.set_facet<cc_collection_id>("seven"); EXPECT(c.has_facet<cc_collection_id>(), "set-facet-shared", ""); } }
      if (op.k == 5) { size_t k = 0; for (auto i = s.begin(); i != s.end(); ++i, ++k) { library_entry e = *i; e.set_facet<rw_ref>("new" + e.name()); } EXPECT(k == w.size(), "set-count", k); for (auto &x : w) { x.f.rw = true; x.f.r = "new" + x.name; } }
      if (op.k == 6) { methodset t(s.begin(), s.end()); EXPECT(t.size() == w.size(), "set-copy", t.size()); for (auto i = t.begin(); i != t.end(); ++i) facets(*i, Facets(), "copied"); methodset sh(s); EXPECT(sh.size() == w.size(), "set-share", ""); EXPECT(t.append(s.begin(), s.end()) == w.size() && t.size() == w.size(), "set-append", ""); }
    }
    vf::states(); EXPECT(s.size() == w.size(), "set-size", s.size(), " not ", w.size()); EXPECT(s.empty() == w.empty() && s.good(), "set-empty", "");
    std::vector<bool> seen(w.size()); size_t k = 0; for (auto i = s.begin(); i != s.end(); ++i, ++k) { bool f = false; for (size_t j = 0; j < w.size(); ++j) if (!seen[j] && same(i->meth(), w[j].n, w[j].m)) { f = seen[j] = true; EXPECT(i->name() == w[j].name && i->base_name() == w[j].name && i->bells() == w[j].n, "set-entry", i->name()); EXPECT(same(method(i->pn(), i->bells()), w[j].n, w[j].m), "set-notation", i->pn()); facets(*i, w[j].f, "entry " + w[j].name); } EXPECT(f, "set-extra", i->name()); } EXPECT(k == w.size(), "set-iterated", k);
    for (auto &x : w) { library_entry e = s.find(mm(x.m, "Zzz")); EXPECT(!e.null() && e.name() == x.name, "set-find", x.name); if (!e.null()) facets(e, x.f, "found"); std::string ti = mm(x.m, x.name).fullname(); library_entry t = s.find(ti); EXPECT(!t.null() && t.fullname() == ti, "set-find-title", ti); EXPECT(s.load(x.name, x.n).bells() == x.n, "set-load", x.name); }
    EXPECT(s.find(mm(pnm(4, "34"), "")).null() && s.find(std::string("Nonesuch")).null(), "set-absent", "");
  };
  std::function<void()> go = [&]() { CASE("history", [&] { std::string s; for (int o : seq) s += vf::cat(" ", ops[o].k, ".", ops[o].a); return s; }()) { run(); } END_CASE if ((int)seq.size() < D) for (size_t o = 0; o < ops.size(); ++o) { seq.push_back(o); go(); seq.pop_back(); } }; go();
  CASE("every method") { methodset s; size_t n = 0; std::vector<M> all; for (int b = 2; b <= 5; ++b) { auto ch = ref::changes(b); for (auto &x : ch) { all.push_back(M{x}); for (auto &y : ch) { all.push_back(M{x, y}); if (b < 5) for (auto &z : ch) all.push_back(M{x, y, z}); } } } for (int pass = 0; pass < 2; ++pass) { for (auto &m : all) { s.append(mm(m, std::to_string(n++ % all.size()))); } EXPECT(s.size() == all.size(), "set-size", s.size()); } size_t k = 0; for (auto &m : all) { library_entry e = s.find(mm(m, "")); EXPECT(!e.null() && e.name() == std::to_string(k) && same(e.meth(), m[0].size(), m), "set-find", k); ++k; } } END_CASE
  // libraries imported by name and from the environment
  mslib::registerlib(); xmllib::registerlib();
  for (int k = 0; k < 4; ++k) CASE("import ", k) { std::string a = put("a6.ms", "One l &-3-4-2\nTwo a &-3-4-5\n"), b = put("b6.ms", "One l &-3-4-2\nThree b &-3-4\n"), bad = put("bad", "?"); methodset s; size_t n = 0; bool t = false;
    try { if (k == 0) { n = s.import_library(a); EXPECT(n == 2 && s.size() == 2, "import", n); n = s.import_library(b); EXPECT(n == 2 && s.size() == 3, "import", n); } if (k == 1) { setenv("METHOD_LIBRARY", (a + ":" + b).c_str(), 1); n = s.import_libraries_from_env(); EXPECT(n == 4 && s.size() == 3, "import-env", n); } if (k == 2) { setenv("METHOD_LIBRARY", "", 1); EXPECT(s.import_libraries_from_env() == 0 && s.size() == 0, "import-none", ""); unsetenv("METHOD_LIBRARY"); EXPECT(s.import_libraries_from_env() == 0, "import-none", ""); } if (k == 3) s.import_library(bad); } catch (std::runtime_error const &) { t = true; } EXPECT(t == (k == 3), "import-bad", ""); unsetenv("METHOD_LIBRARY"); } END_CASE
}
// ---- writing lightweight libraries to the standard output --------------------
VF_SECTION(method_streams) {
  auto cap = [&](std::function<void()> const &f) { std::ostringstream o; std::streambuf *b = std::cout.rdbuf(o.rdbuf()); try { f(); } catch (...) { std::cout.rdbuf(b); throw; } std::cout.rdbuf(b); return o.str(); };
  std::vector<std::string> srcs = {"own", "set", "lite", "lite-named", "microsiril", "collection", "xml"}; method_stream::name_form forms[] = {method_stream::payload_or_name, method_stream::payload, method_stream::name, method_stream::full_title, method_stream::none};
  cclib::registerlib();
  for (size_t i = 0; i < grid().size(); ++i) for (auto &src : srcs) for (int inc = 0; inc < 2; ++inc) for (int fo = 0; fo < 5; ++fo) CASE("method ", i, " from ", src, inc ? " with bells" : "", " form ", fo) {
    int n = grid()[i].first; M m = grid()[i].second; std::string base = "Two Words", name = base, pay; bool haspay = false; std::vector<library_entry> es; std::string notn; for (size_t k = 0; k < m.size(); ++k) notn += (k ? "." : "") + ref::pn(m[k]); std::string title = mm(m, base).fullname();
    methodset ms; std::istringstream is; library keep;
    if (src == "own") { Facets f; f.pay = haspay = i % 2; f.p = pay = "Some Payload"; es.push_back(mke(m, base, f, notn)); if (!haspay) pay = ""; }
    else if (src == "set") { ms.append(mm(m, base)); es.assign(ms.begin(), ms.end()); }
    else if (src == "lite" || src == "lite-named") { bool nd = src == "lite-named"; is.str(notn + " " + title + "\n"); litelib l(n, is, nd ? litelib::payload_is_name : 0); haspay = true; pay = title; if (nd) name = title; else { name = ""; title = mm(m, "").fullname(); } es.assign(l.begin(), l.end()); }
    else if (src == "microsiril") { base = name = "Two-Words"; title = mm(m, base).fullname(); mslib l(put("m" + std::to_string(n), base + " z +" + notn + "\n")); es.assign(l.begin(), l.end()); }
    else if (src == "collection") { size_t z = m.size(); if (z % 2 || z < 4) return; for (size_t k = 0; k + 1 < z / 2; ++k) if (!(m[k] == m[z - 2 - k])) return; method t = mm(m, base); int cl = t.methclass() & method::M_MASK; if (cl < method::M_TREBLE_BOB || cl > method::M_ALLIANCE || (t.methclass() & (method::M_LITTLE | method::M_DIFFERENTIAL))) return; auto rng = [&](size_t a, size_t b) { std::string s; for (size_t k = a; k < b; ++k) { std::string x = ref::pn(m[k]); if (x == "X") s += "-"; else { if (!s.empty() && s[s.size() - 1] != '-') s += "."; s += x; } } return s; }; std::string h = "  No. Name            Notation                                hl      le      lh", x = "   1  Two Words"; auto pad = [](std::string &s, size_t k) { while (s.size() < k) s += ' '; }; pad(x, h.find("Notation")); x += rng(0, z / 2 - 1); pad(x, h.find("hl")); x += rng(z / 2 - 1, z / 2); pad(x, h.find("le")); x += rng(z - 1, z); pad(x, h.find("lh")); x += "12345"; cclib l(put("cc", "Copyright 2010\n" + method::classname(cl) + " " + method::stagename(n) + " methods\n" + h + "\n" + x + "\n")); name = base + " " + method::classname(cl); es.assign(l.begin(), l.end()); }
    else { std::string p = dir() + "/s.xml"; { xmlout o(p); o.append(mke(m, base, Facets())); } xmllib l(xmllib::filename, p); name = title; es.assign(l.begin(), l.end()); }
    vf::states(); EXPECT(es.size() == 1, "source", es.size()); if (es.size() != 1) return;
    std::string out = cap([&] { method_stream o(inc, forms[fo]); o.append(es[0]); });
    std::string want = fo == 0 ? haspay ? pay : name : fo == 1 ? pay : fo == 2 ? name : fo == 3 ? title : "";
    EXPECT(!out.empty() && out[out.size() - 1] == '\n' && std::count(out.begin(), out.end(), '\n') == 1, "stream-line", vf::quote(out)); if (out.empty()) return;
    EXPECT(std::count(out.begin(), out.end(), '\t') == (fo < 4), "stream-tab", vf::quote(out)); size_t tab = out.find('\t'); if (fo < 4 && tab != std::string::npos) EXPECT(out.substr(tab + 1) == want + "\n", "stream-name", vf::quote(out)); EXPECT((out.find(':') != std::string::npos && out.find(':') < tab) == inc && (!inc || out.compare(0, out.find(':'), std::to_string(n)) == 0), "stream-bells", vf::quote(out));
    std::istringstream back(out); litelib l(inc ? 0 : n, back, litelib::payload_is_name); auto b = l.begin(); EXPECT(b != l.end(), "stream-readable", vf::quote(out)); if (b == l.end()) return; EXPECT(b->bells() == n && same(b->meth(), n, m), "stream-read-back", vf::quote(out)); EXPECT(b->get_facet<litelib::payload>() == want, "stream-read-name", vf::quote(out)); ++b; EXPECT(b == l.end(), "stream-extra", "");
  } END_CASE
}
VF_SECTION(facet_ids) {
  CASE("identifiers") { std::vector<library_facet_id const *> v = {&first_tower_peal::id, &first_hand_peal::id, &rw_ref::id, &cc_collection_id::id, &litelib::payload::id, &cclib::ref::id}; for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) { library_facet_id a(*v[i]), b(first_tower_peal::id); b = *v[j]; EXPECT((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (b > a) && (a <= b) == !(b < a) && (a >= b) == !(a < b) && (i == j ? !(a < b) : (a < b) != (b < a)), "ids", i, j); for (auto *c : v) EXPECT(!(a < b && b < *c) || a < *c, "ids-order", ""); } } END_CASE
}
