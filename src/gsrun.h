// gsrun.h - run many small touch programs through the real prover and compare with the reference.
#ifndef GSRUN_H
#define GSRUN_H
#include "app.h"
#include "gs.h"
#include "vf.h"
namespace gs {
inline std::string show(std::string const &s) { return vf::quote(s.size() > 300 ? s.substr(0, 300) + "..." : s); }
struct Item { std::string text; bool echo; bool err = false; std::string out; };
// what the reference says a statement does, starting from BASE each time; false if the case is outside what is specified
inline bool plan(World const &base, N const &e, bool echo, int full, Item &it) {
  World w(base); it.echo = echo; it.text = (echo ? "echo (" : "prove (") + text(e, full) + ")";
  try { if (echo) w.echo(e); else w.prove(e); } catch (Err const &x) { if (x.what == "skip") return false; it.err = true; }
  it.out = w.out; return true;
}
// run items [b,e) in one process; returns how many were reached, with the output of each
inline size_t chunk(std::vector<std::string> const &args, std::string const &pre, std::vector<Item> const &v, size_t b, size_t e, std::vector<std::string> &outs, app::Out &o) {
  std::string t = pre; for (size_t i = b; i < e; ++i) t += "echo \"~~" + std::to_string(i) + "~~\"\n" + v[i].text + "\n"; t += "echo \"~~end~~\"\n";
  std::string f = app::put("prog.sir", t); std::vector<std::string> a = args; a.push_back("-f"); a.push_back(f); o = app::run("gsiril", a);
  outs.clear(); size_t at = 0;
  for (size_t i = b; i < e; ++i) {
    std::string m = "~~" + std::to_string(i) + "~~\n", n = i + 1 < e ? "~~" + std::to_string(i + 1) + "~~\n" : "~~end~~\n"; size_t p = o.out.find(m, at); if (p == std::string::npos) break; p += m.size();
    size_t q = o.out.find(n, p); if (q == std::string::npos) { outs.push_back(o.out.substr(p)); return i - b; } // died part way through this one
    outs.push_back(o.out.substr(p, q - p)); at = q;
  }
  return outs.size();
}
inline void runall(std::string const &tag, std::vector<std::string> const &args, std::string const &pre, std::vector<Item> const &v, size_t per = 400) {
  std::vector<Item> good, bad; for (auto &i : v) (i.err ? bad : good).push_back(i);
  size_t cb = 0, ce = 0; std::vector<std::string> outs; app::Out o; size_t done = 0;
  bool one = !vf::g.only.empty();
  for (size_t i = 0; i < good.size(); ++i) CASE(tag, " ", good[i].text) {
    vf::states();
    if (one || i >= ce || (done < ce - cb && i > cb + done)) { cb = i; ce = one ? i + 1 : std::min(good.size(), i + per); done = chunk(args, pre, good, cb, ce, outs, o); }
    size_t k = i - cb;
    if (k < done) { vf::outcome(outs[k]); EXPECT(outs[k] == good[i].out, "output", "prints ", show(outs[k]), " not ", show(good[i].out)); }
    else EXPECT(false, "stopped", "ended with status ", o.rc, " after ", k < outs.size() ? show(outs[k]) : std::string("nothing"), ": ", show(o.err), "; expected ", show(good[i].out));
  } END_CASE
  for (size_t i = 0; i < bad.size(); ++i) CASE(tag, " ", bad[i].text) {
    vf::states(); std::vector<std::string> os; app::Out oo; size_t d = chunk(args, pre, bad, i, i + 1, os, oo);
    EXPECT(d == 0 && oo.rc == 2 && !oo.err.empty(), "refused", "should be refused: status ", oo.rc, " ", os.empty() ? std::string() : show(os[0]), show(oo.err));
    EXPECT(os.empty() || bad[i].out == os[0], "output-before-error", os.empty() ? std::string() : show(os[0]), " not ", show(bad[i].out));
  } END_CASE
}
inline void plans(std::string const &tag, std::vector<std::string> const &args, std::string const &pre, World const &base, std::vector<N> const &es, bool echo = false, int full = 0, size_t maxerr = 3000) {
  std::vector<Item> v; size_t ne = 0; for (auto &e : es) { Item it; if (plan(base, e, echo, full, it)) { if (it.err && ++ne > maxerr) continue; v.push_back(it); } }
  runall(tag, args, pre, v);
}
inline P prow(std::string const &s) { P p; for (char c : s) p.push_back(c - '1'); return p; }
inline std::vector<std::vector<N>> grow(std::vector<N> const &atoms, std::vector<std::function<N(N)>> const &un, std::vector<std::function<N(N, N)>> const &bi, int size) {
  std::vector<std::vector<N>> s(size + 1); s[1] = atoms;
  for (int k = 2; k <= size; ++k) { for (auto &e : s[k - 1]) for (auto &u : un) s[k].push_back(u(e)); for (int a = 1; a + 1 < k; ++a) for (auto &x : s[a]) for (auto &y : s[k - 1 - a]) for (auto &b : bi) s[k].push_back(b(x, y)); }
  return s;
}
inline N pat(std::string s) { return mk(PAT, {}, s); }
inline std::vector<N> flat(std::vector<std::vector<N>> const &v) { std::vector<N> r; for (auto &x : v) r.insert(r.end(), x.begin(), x.end()); return r; }
struct Cfg { std::string pre; World w; };
inline Cfg base(int bells, int ext, std::string every = "@") {
  Cfg c; c.w.bells = bells; c.w.extents = ext; c.pre = std::to_string(bells) + " bells\n" + std::to_string(ext) + " extents\n";
  if (!every.empty()) { c.pre += "everyrow = \"" + every + "\"\n"; c.w.st["everyrow"] = str(every); }
  return c;
}
inline void def(Cfg &c, std::string n, N e) { c.w.st[n] = e; c.pre += n + " = " + text(e) + "\n"; }
} // namespace gs
#endif
