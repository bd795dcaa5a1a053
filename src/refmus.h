// Music patterns, matched as the manual of methsearch describes them.
#pragma once
#include "ref.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <set>
#include <string>
#include <vector>
using namespace ref;
struct Tk { bool star; std::set<int> in; };
struct Pat { int h = 1, b = 1; std::function<int(P const &)> count; bool ok = true; };
static bool wild(int n, std::string const &s, std::vector<Tk> &v) {
  auto bell = [&](char c) { char const *p = c ? strchr(SYM, c) : 0; return p && p - SYM < n ? int(p - SYM) : -1; }; int fixed = 0; bool star = false;
  for (size_t i = 0; i < s.size(); ++i) { Tk t{false, {}}; if (s[i] == '*') t.star = star = true; else if (s[i] == '?') { for (int b = 0; b < n; ++b) t.in.insert(b); } else if (s[i] == '[') { for (++i; i < s.size() && s[i] != ']'; ++i) { int b = bell(s[i]); if (b < 0) return false; t.in.insert(b); } if (i == s.size()) return false; } else { int b = bell(s[i]); if (b < 0) return false; t.in.insert(b); } if (!t.star) ++fixed; v.push_back(t); }
  if (!star && fixed <= n) v.push_back(Tk{true, {}}); return true;
}
static bool fits(std::vector<Tk> const &t, size_t i, P const &r, size_t p) { if (i == t.size()) return p == r.size(); if (t[i].star) return fits(t, i + 1, r, p) || (p < r.size() && fits(t, i, r, p + 1)); return p < r.size() && t[i].in.count(r[p]) && fits(t, i + 1, r, p + 1); }
static int runs(P const &r, int n, int at) { int k = 0, L = r.size(); for (int i = 0; i + n <= L; ++i) { if (at == 1 && i) continue; if (at == 2 && i + n != L) continue; for (int d : {1, -1}) { bool ok = true; for (int j = 1; j < n; ++j) ok = ok && r[i + j] == r[i + j - 1] + d; k += ok; } } return k; }
static P named_row(std::string const &s, int n) { P r; if (s == "rounds") return id(n); if (s == "reverse-rounds") { for (int i = n; i--;) r.push_back(i); return r; } if (s == "tittums") { for (int i = 0; i < (n + 1) / 2; ++i) { r.push_back(i); if (i + (n + 1) / 2 < n) r.push_back(i + (n + 1) / 2); } return r; }
  for (int i = 0; i < n; i += 2) r.push_back(i); if (s == "kings") std::reverse(r.begin(), r.end()); for (int i = 1; i < n; i += 2) r.push_back(i); return r; }
static Pat pattern(int n, std::string s) {
  Pat p; size_t c = s.find(':'); if (c != std::string::npos) { std::string sc = s.substr(0, c); s = s.substr(c + 1); size_t k = sc.find(','); p.h = atoi(sc.c_str()); p.b = k == std::string::npos ? p.h : atoi(sc.c_str() + k + 1); }
  if (s[0] == '<') { std::string m = s.substr(1, s.size() - 2); size_t k = m.find("-runs"); if (m == "CRUs") p.count = [n](P const &r) { int z = 0; if (n < 6) return 0; for (int i = 4; i < 6; ++i) z += r[i] >= 3 && r[i] <= 5; bool ok = z == 2; for (int i = 6; i < n; ++i) ok = ok && r[i] == i; return int(ok); };
    else if (k != std::string::npos) { int at = m.compare(0, 6, "front-") == 0 ? 1 : m.compare(0, 5, "back-") == 0 ? 2 : 0, len = atoi(m.c_str() + (at == 1 ? 6 : at == 2 ? 5 : 0)); p.ok = len >= 3 && len <= n; p.count = [=](P const &r) { return runs(r, len, at); }; }
    else { P q = named_row(m, n); p.count = [q](P const &r) { return int(r == q); }; } return p; }
  std::vector<Tk> t; p.ok = wild(n, s, t); p.count = [t](P const &r) { return int(fits(t, 0, r, 0)); }; return p;
}
