// P36: ringmethod strikes each bell when and as it should, whatever the errors of striking.
#include "app.h"
#include "vf.h"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <map>
#include <sstream>
#include <stdint.h>
typedef std::vector<std::string> V;
extern "C" int ringmethod_main(int argc, char **argv);
// ---- every error of striking is chosen here: early, on time or late --------
static std::vector<int> script; static size_t spos; struct Draw { double mean, sd; int k; }; static std::vector<Draw> draws;
extern "C" double __wrap__ZN7ringing21random_normal_deviateEdd(double mean, double sd) { int k = 0; if (sd > 0) { if (spos == script.size()) script.push_back(0); k = script[spos++]; } draws.push_back({mean, sd, k}); return mean + (k == 1 ? -sd : k == 2 ? sd : 0); }
static bool next() { while (!script.empty() && script.back() == 2) script.pop_back(); if (script.empty()) return false; ++script.back(); return true; }
static std::string join(V const &t) { std::string s; for (auto &x : t) s += (s.empty() ? "" : " ") + x; return s; }
struct Res { int rc; std::string out, err; };
static Res exec(V const &args, std::string const &in) { V a = {"ringmethod"}; a.insert(a.end(), args.begin(), args.end()); std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(0); spos = 0; draws.clear(); std::ostringstream o, e; std::istringstream i(in); auto *ib = std::cin.rdbuf(i.rdbuf()); auto *ob = std::cout.rdbuf(o.rdbuf()); auto *eb = std::cerr.rdbuf(e.rdbuf()); std::cin.clear(); int rc = ringmethod_main(a.size(), v.data()); std::cin.rdbuf(ib); std::cout.rdbuf(ob); std::cerr.rdbuf(eb); return {rc, o.str(), e.str()}; }
// ---- what should be heard ----------------------------------------------------
struct Off { double h = 0, b = 0, sh = -1, sb = -1; };
struct Cfg { int n = 4; int rate = 60; int speed = 180; int freq = 587; double hs = 1; double dev = 0; std::map<int, Off> off; V args, rows; };
static char const SYM[] = "1234567890ETABCDFGHJKLMNPQRSUVWYZ";
static uint32_t le(std::string const &s, size_t i, int k) { uint32_t v = 0; while (k--) v = v << 8 | (unsigned char)s[i + k]; return v; }
static double pitch(int n, int b, double f) { static int const maj[] = {0, 2, 4, 5, 7, 9, 11}; int up = n - 1 - b; return f * pow(2, up / 7 + maj[up % 7] / 12.); }
static std::vector<double> const &note(Cfg const &c, int b, size_t len) {
  static std::map<std::vector<int>, std::vector<double>> memo; auto &w = memo[{c.n, b, c.freq, c.rate}]; double A = 1; for (int i = 0; i <= b; ++i) A *= 1.02; double f = pitch(c.n, b, c.freq); struct { double f, d; } part[] = {{f / 4, .5}, {f / 2, 2.5}, {f * pow(2, -9 / 12.), 2.5}, {f * pow(2, -5 / 12.), 2.5}, {f, 2.5}};
  for (size_t k = w.size(); k < len; ++k) { double s = 0; for (auto &p : part) s -= A * exp(-p.d * (k + 1) / c.rate) * sin((k + 2) * 2 * M_PI * p.f / c.rate); w.push_back(s * 1000); } return w;
}
static void header(Cfg const &c, std::string const &o) { EXPECT(o.size() >= 44 && !o.compare(0, 4, "RIFF") && !o.compare(8, 8, "WAVEfmt ") && !o.compare(36, 4, "data"), "header", o.substr(0, 4)); if (o.size() < 44) return; EXPECT(le(o, 16, 4) == 16 && le(o, 20, 2) == 1 && le(o, 22, 2) == 1 && le(o, 32, 2) == 2 && le(o, 34, 2) == 16, "header", "format"); EXPECT(le(o, 24, 4) == (uint32_t)c.rate && le(o, 28, 4) == 2u * c.rate, "rate", le(o, 24, 4), " ", le(o, 28, 4), " for ", c.rate); EXPECT(le(o, 4, 4) == 0xffffffffu && le(o, 40, 4) == 0xffffffffu, "header", "lengths"); EXPECT(o.size() % 2 == 0, "header", "odd length"); }
// one run, with the errors of striking given by script
static void hear(Cfg const &c, std::string const &what) {
  std::string in; for (auto &r : c.rows) in += r + "\n"; Res r = exec(c.args, in); std::string how = what; if (!script.empty()) { how += " with"; for (int k : script) how += k == 1 ? " early" : k == 2 ? " late" : " right"; }
  EXPECT(r.rc == 0 && r.err.empty(), "failed", how, ": ", r.rc, " ", r.err.substr(0, 80)); if (r.rc) return; header(c, r.out); if (r.out.size() < 44) return; std::string const d = r.out.substr(44); size_t len = d.size() / 2;
  double sep = c.speed * 60 / 2500. / (2 * c.n + 1); std::vector<std::pair<long, int>> hit; size_t k = 0, near = 0; // near: strikes within rounding of a sample
  std::vector<std::vector<long>> at(c.n); double endat = 0;
  for (size_t j = 0; j < c.rows.size(); ++j) { std::string row = c.rows[j]; for (int b = row.size(); b < c.n; ++b) row += SYM[b]; for (int i = 0; i < c.n; ++i, ++k) {
    int b = strchr(SYM, row[i]) - SYM; Off o; if (c.off.count(b)) o = c.off.at(b); double mean = j % 2 ? o.b : o.h, sd = j % 2 ? o.sb : o.sh; if (sd < 0) sd = c.dev;
    EXPECT(k < draws.size() && draws[k].mean == mean && draws[k].sd == sd, "deviation", how, " bell ", b + 1, " row ", j, " drawn with ", k < draws.size() ? draws[k].mean : 99, ",", k < draws.size() ? draws[k].sd : 99, " not ", mean, ",", sd); if (k >= draws.size()) return;
    double pos = i + (double)j * c.n + (j / 2) * c.hs + mean + (draws[k].k == 1 ? -sd : draws[k].k == 2 ? sd : 0), t = pos * sep * c.rate; if (t != 0 && fabs(t - floor(t + .5)) < 1e-6) ++near; long s = (long)t; if (s < 0) s = 0; at[b].push_back(s); if (i == c.n - 1) endat = s; } }
  EXPECT(k == draws.size(), "deviation", how, ": ", draws.size(), " strikes for ", k);
  if (c.rows.empty()) { EXPECT(len == 0, "silence", how, ": ", len, " samples with nothing to ring"); vf::states(); vf::outcome("nothing"); return; }
  EXPECT(fabs(len - (endat + 5. * c.rate)) <= 258 + 2 * sep * c.rate, "length", how, ": ", len, " samples, not ", endat + 5 * c.rate);
  // what each bell sounds like, from each strike to the next, in the only way that rounding leaves open
  std::vector<double> want(len, 0); for (int b = 0; b < c.n; ++b) { auto &w = note(c, b, len + 1); std::sort(at[b].begin(), at[b].end()); for (size_t s = 0; s < at[b].size(); ++s) { size_t e = s + 1 < at[b].size() ? at[b][s + 1] : len; for (size_t t = at[b][s]; t < e && t < len; ++t) want[t] += w[t - at[b][s]]; } }
  size_t bad = len, from = 0; if (near) { from = len; } for (size_t t = from; t < len; ++t) { double got = (int16_t)le(d, 2 * t, 2); if (fabs(want[t]) < 32767 && fabs(got - want[t]) > 1.01) { bad = t; break; } }
  std::string ctx; if (bad < len) for (int b = 0; b < c.n; ++b) for (long s : at[b]) ctx += " " + std::to_string(b + 1) + "@" + std::to_string(s);
  EXPECT(bad == len, "sound", how, ": sample ", bad, " is ", (int16_t)le(d, 2 * (bad < len ? bad : 0), 2), " not ", bad < len ? want[bad] : 0, ";", ctx); vf::states(len + 1); vf::outcome(near ? "near" : "exact");
}
static void explore(Cfg const &c, std::string const &what) { script.clear(); do hear(c, what); while (next()); vf::outcome("ok"); }
static std::string num(double x) { std::ostringstream o; o << x; return o.str(); }
static Cfg cfg(int n, V rows, V more = {}) { Cfg c; c.n = n; c.rows = rows; c.args = {"-b" + std::to_string(n), "-r60"}; c.args.insert(c.args.end(), more.begin(), more.end()); return c; }
static V allrows(int n) { std::string r(SYM, n); V v; do v.push_back(r); while (std::next_permutation(r.begin(), r.end())); return v; }
static bool deep() { return vf::thorough(); }
// every sequence of rows
static void seqs(V const &all, int depth, std::vector<V> &out) { out.push_back({}); size_t a = 0; for (int d = 0; d < depth; ++d) { size_t e = out.size(); for (; a < e; ++a) for (auto &r : all) { V v = out[a]; v.push_back(r); out.push_back(v); } } }
VF_SECTION(order) {
  for (int n = 1; n <= 4; ++n) { std::vector<V> ss; seqs(allrows(n), n == 1 ? 6 : n == 2 ? 5 : n == 3 ? (deep() ? 4 : 3) : (deep() ? 3 : 2), ss); size_t i = 0; for (double hs : {1., 0., .7}) for (size_t lo = 0; lo < ss.size(); lo += 50) { CASE(n, " bells, -h", hs, " from ", lo) { for (size_t k = lo; k < std::min(ss.size(), lo + 50); ++k) { Cfg c = cfg(n, ss[k], {"-s182"}); c.speed = 182; if (hs != 1) { c.hs = hs; c.args.push_back("-h" + num(hs)); } explore(c, join(c.args) + " of " + join(c.rows)); } } END_CASE } }
}
VF_SECTION(pitch) {
  int top = 33; for (int n = 1; n <= top; ++n) for (int f : {587, 300, 1000, 61}) for (int rate : {200, 441, 2000}) CASE(n, " bells at ", f, " of ", rate) { if (n > 16 && rate > 441) return; Cfg c = cfg(n, {std::string(SYM, n), std::string(SYM, n)}); c.rate = rate; c.freq = f; c.speed = 191; c.args = {"-b" + std::to_string(n), "-r" + std::to_string(rate), "-f" + std::to_string(f), "-s191"}; std::reverse(c.rows[1].begin(), c.rows[1].end()); explore(c, join(c.args)); } END_CASE
  for (int n : {1, 6, 7, 8, 14, 15}) CASE("default pitch on ", n) { Cfg c = cfg(n, {std::string(SYM, n)}); c.args = {"-b" + std::to_string(n)}; c.rate = 22050; explore(c, join(c.args)); } END_CASE
}
VF_SECTION(speed) {
  struct { char const *a; int m; } sp[] = {{"180", 180}, {"179", 179}, {"3h", 180}, {"3h1", 181}, {"3h10", 190}, {"3h10m", 190}, {"3:10", 190}, {"2:59", 179}, {"190m", 190}, {"1h", 60}, {"0h61", 61}, {"200", 200}, {"4h", 240}, {"10h07m", 607}};
  for (auto &s : sp) for (int n : {1, 3, 6, 12}) for (int rate : {60, 97, 8000}) CASE(s.a, " on ", n, " at ", rate) { Cfg c = cfg(n, {}); c.rate = rate; c.speed = s.m; c.args = {"-b" + std::to_string(n), "-r" + std::to_string(rate), std::string("-s") + s.a}; std::string r(SYM, n); for (int k = 0; k < (rate > 100 ? 2 : 5); ++k) { c.rows.push_back(r); std::rotate(r.begin(), r.begin() + 1, r.end()); } if (s.m * 60 / 2500. / (2 * n + 1) * rate <= 2.0001) return; explore(c, join(c.args)); } END_CASE
}
VF_SECTION(headers) { for (int rate : {50, 200, 255, 256, 257, 1000, 8000, 11025, 22050, 44100, 48000, 65535, 65536, 65537, 96000, 192000, 1000000, 16777216, 20000000}) CASE(rate) { Cfg c; c.rate = rate; Res r = exec({"-b6", "-r" + std::to_string(rate)}, ""); EXPECT(r.rc == 0 && r.out.size() == 44, "silence", r.rc, " ", r.out.size()); header(c, r.out); vf::states(); } END_CASE }
// fixed errors of striking, for one and two bells
struct O { char const *txt; double h, b, sh, sb; };
static O const offs[] = {{"0.5", .5, .5, -1, -1}, {"-0.5", -.5, -.5, -1, -1}, {"1.3", 1.3, 1.3, -1, -1}, {"-1.3", -1.3, -1.3, -1, -1}, {"0.3;-0.7", .3, -.7, -1, -1}, {";0.4", 0, .4, -1, -1}, {"0.4;", .4, 0, -1, -1}, {"-1.4;1.4", -1.4, 1.4, -1, -1}, {"1.4;-1.4", 1.4, -1.4, -1, -1}, {"", 0, 0, -1, -1}};
static O const devs[] = {{",0.3", 0, 0, .3, .3}, {"0.2,0.3", .2, .2, .3, .3}, {"-0.2,0", -.2, -.2, 0, 0}, {"0.1,0.2;-0.3,0.4", .1, -.3, .2, .4}, {",0.2;", 0, 0, .2, -1}, {";,0.35", 0, 0, -1, .35}, {"0.6;0.1,0.25", .6, .1, -1, .25}};
static Off off(O const &o) { Off r; r.h = o.h; r.b = o.b; r.sh = o.sh; r.sb = o.sb; return r; }
static std::string named(int b, int style) { return style ? std::to_string(b + 1) : std::string(1, SYM[b]); }
VF_SECTION(offsets) {
  for (int n : {4, 5, 12}) for (int b = 0; b < n; ++b) for (auto &o : offs) CASE(n, " bells, ", b + 1, "=", o.txt) { V rs; std::string r(SYM, n); rs.push_back(r); std::reverse(r.begin(), r.end()); rs.push_back(r); std::rotate(r.begin(), r.begin() + 1, r.end()); rs.push_back(r); std::reverse(r.begin(), r.end()); rs.push_back(r); for (size_t len = 1; len <= rs.size(); ++len) for (int style = 0; style < 2; ++style) { if (style && b < 9 && n == 12) continue; Cfg c = cfg(n, V(rs.begin(), rs.begin() + len), {"-o" + named(b, style && b > 8) + "=" + o.txt, "-s187"}); c.speed = 187; c.off[b] = off(o); explore(c, join(c.args) + " of " + join(c.rows)); } } END_CASE
  for (int b = 0; b < 4; ++b) for (int d = 0; d < 4; ++d) if (b != d) for (auto &o : offs) CASE("two bells ", b + 1, "=", o.txt, " ", d + 1) { for (auto &p : offs) for (int len = 1; len <= (deep() ? 3 : 2); ++len) { V rs = {"1234", "2143", "2413"}; rs.resize(len); Cfg c = cfg(4, rs, {"-o" + named(b, 0) + "=" + o.txt, "--offset=" + named(d, 0) + "=" + p.txt, "-s187"}); c.speed = 187; c.off[b] = off(o); c.off[d] = off(p); explore(c, join(c.args) + " of " + join(c.rows)); } } END_CASE
}
// errors chosen at random: every way for each bell to be early, right or late
VF_SECTION(deviations) {
  for (auto &r : allrows(3)) for (double d : {.3, .45}) for (double hs : {1., 0.}) CASE("-d", d, " -h", hs, " of ", r) { for (int len = 1; len <= (deep() ? 3 : 2); ++len) { V rs = {"123", r, "213"}; rs.resize(len); if (len == 3 && d > .4) continue; Cfg c = cfg(3, rs, {"-d" + num(d), "-h" + num(hs), "-s187"}); c.speed = 187; c.dev = d; c.hs = hs; explore(c, join(c.args) + " of " + join(rs)); } } END_CASE
  for (auto &o : devs) for (int b = 0; b < 4; ++b) for (double d : {0., .15}) CASE(b + 1, "=", o.txt, " -d", d) { V rs = {"1234", "2143", "2413", "4231"}; for (int len = 1; len <= (d > 0 ? 2 : 4); ++len) { Cfg c = cfg(4, V(rs.begin(), rs.begin() + len), {"-o" + named(b, 0) + "=" + o.txt, "-s187"}); c.speed = 187; if (d > 0) c.args.push_back("--deviation=" + num(d)); c.dev = d; c.off[b] = off(o); if (len == 2 && d > 0 && !deep()) { Cfg e = c; e.rows = {"2143", "2413"}; c.n = 4; } explore(c, join(c.args) + " of " + join(c.rows)); } } END_CASE
}
VF_SECTION(covers) { for (int n = 2; n <= 8; ++n) for (int m = 1; m <= n; ++m) CASE(m, " of ", n) { std::string r(SYM, m); V rs; for (int k = 0; k < 3; ++k) { rs.push_back(r); std::rotate(r.begin(), r.begin() + 1, r.end()); } Cfg c = cfg(n, rs, {"-s182"}); c.speed = 182; explore(c, join(c.args) + " of " + join(rs)); c.args.push_back("--seed=5"); explore(c, join(c.args)); } END_CASE }
VF_SECTION(refused) {
  for (auto &a : std::vector<V>{{}, {"-b0"}, {"-b-1"}, {"-b99999"}, {"-bx"}, {"-b6", "-r0"}, {"-b6", "-r-1"}, {"-b6", "-r1"}, {"-b6", "-s1", "-r500"}, {"-b6", "-s0"}, {"-b6", "-s-3"}, {"-b6", "-d-1"}, {"-b6", "-dx"}, {"-b6", "-hx"}, {"-b6", "-sx"}, {"-b6", "-s3hx"}, {"-b6", "-o1"}, {"-b6", "-o="}, {"-b6", "-o1=x"}, {"-b6", "-o1=,x"}, {"-b6", "-o1=,-1"}, {"-b6", "-o1=1,"}, {"-b6", "-o!=1"}, {"-b6", "-oxx=1"}, {"-b6", "-o1=1;x"}, {"-b6", "-o1=1;,-2"}, {"-b6", "-z"}, {"-b6", "x"}, {"-b6", "--seed=x"}}) CASE(join(a)) { auto r = app::run("ringmethod", a, "123456\n"); EXPECT(r.rc == 1 && r.out.empty() && !r.err.empty(), "accepted", r.rc, " ", r.out.size(), " ", r.err.substr(0, 60)); vf::states(); } END_CASE
  for (int n = 1; n <= 8; ++n) for (int m = n + 1; m <= 9; ++m) for (int at = 0; at < 3; ++at) CASE(m, " bells in row ", at, " on ", n) { std::string in; for (int k = 0; k < 3; ++k) in += std::string(SYM, k == at ? m : n) + "\n"; auto r = app::run("ringmethod", {"-b" + std::to_string(n), "-r200"}, in); EXPECT(r.rc == 1 && !r.err.empty(), "more bells", r.rc, " ", r.err.substr(0, 60)); vf::states(); } END_CASE
}

