// refpn.h - reference reader for place notation.
#ifndef REFPN_H
#define REFPN_H
#include "ref.h"
#include <cctype>
#include <cstring>
namespace ref {
// one change; false if it is not place notation for a change on n bells
inline bool parse_change(int n, std::string const &t, Sw &s) {
  s.assign(n, 0);
  if (t.empty()) return n == 0;
  std::vector<int> pl;
  if (t != "x" && t != "X" && t != "-") for (size_t i = 0; i < t.size();) {
    char u = (char)toupper((unsigned char)t[i]);
    if (u == 'O') u = '0';
    if (u == 'I') u = '1';
    char const *p = u ? strchr(SYM, u) : 0;
    if (p) { pl.push_back(p - SYM); ++i; continue; }
    if (t[i] != '{') return false;
    size_t j = i + 1, v = 0;
    while (j < t.size() && isspace((unsigned char)t[j])) ++j;
    if (j < t.size() && t[j] == '+') ++j;
    size_t d = j;
    while (j < t.size() && isdigit((unsigned char)t[j])) { if (v < 9999) v = v * 10 + (t[j] - '0'); ++j; }
    if (j == d) return false;
    while (j < t.size() && isspace((unsigned char)t[j])) ++j;
    if (j >= t.size() || t[j] != '}' || v > 256 || v < 1) return false;
    pl.push_back(v - 1); i = j + 1;
  }
  int at = 0; bool first = true;
  for (int p : pl) {
    if (p >= n || p < at) return false;
    if ((p - at) % 2) { if (!first) return false; at = 1; }
    for (int i = at; i + 1 < p; i += 2) s[i] = 1;
    at = p + 1; first = false;
  }
  for (int i = at; i + 1 < n; i += 2) s[i] = 1;
  return true;
}
// Whole notation.  blocks := block (',' block)*; block := [&|+] [.] changes;
// changes separated by '.', or by a cross; '&' reflects the block about its
// last change.  Blanks may stand around separators and at the start.
inline bool parse_pn(int n, std::string const &t, std::vector<Sw> &out) {
  size_t i = 0, e = t.size();
  auto ws = [&] { while (i < e && isspace((unsigned char)t[i])) ++i; };
  auto sep = [&](char c) { ws(); if (i < e && t[i] == c) ++i; ws(); };
  ws();
  while (i < e) {
    std::vector<Sw> blk; bool sym = t[i] == '&';
    if (t[i] == '&' || t[i] == '+') { ++i; sep('.'); }
    for (;;) {
      if (i >= e) break;
      char c = t[i];
      if (c == 'x' || c == 'X' || c == '-') { Sw s; if (!parse_change(n, "X", s)) return false; blk.push_back(s); ++i; sep('.'); continue; }
      if (!isalnum((unsigned char)c) && c != '{') break;
      std::string tok;
      while (i < e) {
        if (t[i] == '{') { size_t j = t.find('}', i); if (j == std::string::npos) return false; tok += t.substr(i, j - i + 1); i = j + 1; }
        else if (isalnum((unsigned char)t[i]) && t[i] != 'x' && t[i] != 'X') tok += t[i++];
        else break;
      }
      Sw s; if (!parse_change(n, tok, s)) return false;
      blk.push_back(s); sep('.');
    }
    out.insert(out.end(), blk.begin(), blk.end());
    if (sym && !blk.empty()) for (size_t k = blk.size() - 1; k-- > 0;) out.push_back(blk[k]);
    if (i < e) { if (t[i] != ',') return false; sep(','); }
  }
  return true;
}
} // namespace ref
#endif
