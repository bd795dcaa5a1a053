// P02: the textual form of bells and rows.
#include "rl.h"
#include <functional>
#include <cstring>
using namespace ringing;
using namespace rl;
using ref::P;

static int rd(char c) { try { return (int)bell::read_char(c); } catch (bell::invalid const &) { return -1; } }

// reference: value of a bell at s[i..]; returns index or -1; advances i.
// STREAM: the stream form does not allow blanks inside the braces.
static int bell_at(std::string const &s, size_t &i, bool stream) {
  if (i >= s.size()) return -1;
  char c = s[i];
  if (c == '{') {
    size_t j = i + 1;
    if (!stream) { while (j < s.size() && isspace((unsigned char)s[j])) ++j; }
    if (j < s.size() && s[j] == '+') ++j;
    size_t k = j; unsigned long v = 0;
    while (k < s.size() && isdigit((unsigned char)s[k])) { if (v < 100000) v = v * 10 + (s[k] - '0'); ++k; }
    if (k == j) return -1;
    if (!stream) while (k < s.size() && isspace((unsigned char)s[k])) ++k;
    if (k >= s.size() || s[k] != '}') return -1;
    if (v < 1 || v > 256) return -1;
    i = k + 1;
    return v - 1;
  }
  char u = (char)toupper((unsigned char)c);
  if (u == 'O') u = '0';
  if (u == 'I') u = '1';
  if (!u) return -1;
  char const *p = strchr(ref::SYM, u);
  if (!p) return -1;
  ++i;
  return p - ref::SYM;
}
#include <cstring>

VF_SECTION(symbols) {
  struct S { const char *s; int mode; };   // 0 upper, 1 lower, 2 mixed
  std::vector<std::string> sets = {"", "1234567890ETABCDFGHJKLMNPQRSUVWYZ", "1234567890ET", "1234567890et", "123456789OET",
    "I234567890", "abcdefgh", "ABCDEFGH", "AbCdEf", "12345678", "!@#$%^&*", "1", "ABC0", "ABCO", "ABC1", "Z"};
  for (auto &st : sets) {
    CASE("symbol set ", vf::quote(st)) {
      bell::set_symbols(st.empty() ? NULL : st.c_str());
      std::string s = st.empty() ? std::string(ref::SYM) : st;
      EXPECT(bell::MAX_BELLS == s.size(), "symbol-count", bell::MAX_BELLS);
      std::string up, lo;
      for (char c : s) { up += toupper(c); lo += tolower(c); }
      int mode = up == s ? 0 : lo == s ? 1 : 2;
      for (int b = 0; b < 256; ++b) {
        vf::states();
        EXPECT(bell(b).to_char() == (b < (int)s.size() ? s[b] : '*'), "to-char", "bell ", b + 1, " gave ", bell(b).to_char());
        std::ostringstream os; os << bell(b);
        std::string e = b < (int)s.size() ? std::string(1, s[b]) : vf::cat("{", b + 1, "}");
        EXPECT(os.str() == e, "bell-print", "bell ", b + 1, " printed ", os.str());
        // the printed form reads back as the same bell, both ways
        const char *end = 0; const char *t = e.c_str();
        bell r = bell::read_extended(t, &end);
        EXPECT((int)r == b && end == t + e.size(), "bell-round-trip", e, " read as ", (int)r + 1);
        std::istringstream is(e); bell q; is >> q;
        EXPECT(is && (int)q == b && is.peek() == EOF, "bell-stream-round-trip", e, " read as ", (int)q + 1);
      }
      for (int c = 0; c < 256; ++c) {
        char ch = (char)c;
        int got = rd(ch);
        EXPECT(bell::is_symbol(ch) == (got >= 0), "symbol-consistency", "char ", vf::quote(std::string(1, ch)), " is_symbol ", bell::is_symbol(ch), " read ", got);
        char k = mode == 0 ? toupper(c) : mode == 1 ? tolower(c) : c;
        size_t pos = k ? s.find(k) : std::string::npos;
        int e = pos == std::string::npos ? -1 : (int)pos;
        if (e < 0 && mode != 1) {
          auto has = [&](char x) { return s.find(x) != std::string::npos; };
          if (k == 'I' && has('1')) e = s.find('1');
          if (k == '1' && has('I')) e = s.find('I');
          if (k == 'O' && has('0')) e = s.find('0');
          if (k == '0' && has('O')) e = s.find('O');
        }
        if (mode != 1 || (k != 'i' && k != 'o' && k != '1' && k != '0') || e >= 0)
          EXPECT(got == e, "read-char", "char ", vf::quote(std::string(1, ch)), " read ", got, " not ", e);
        bell fc(7);
        try { fc.from_char(ch); EXPECT((int)fc == got, "from-char", (int)fc); } catch (bell::invalid const &) { EXPECT(got < 0 && (int)fc == 7, "from-char", "refused"); }
      }
      bell::set_symbols(NULL);
    } END_CASE
  }
  CASE("symbols restored, and from the environment") {
    for (int i = 0; i < 33; ++i) EXPECT(bell(i).to_char() == ref::SYM[i], "to-char", i);
    setenv("VF_SYMS", "abcd", 1);
    bell::set_symbols_from_env("VF_SYMS"); EXPECT(bell(0).to_char() == 'a' && bell::MAX_BELLS == 4, "env-symbols", "");
    unsetenv("VF_SYMS_NONE"); bell::set_symbols_from_env("VF_SYMS_NONE"); EXPECT(bell(0).to_char() == 'a', "env-symbols-unset", "");
    bell::set_symbols(NULL);
    EXPECT(bell(0).to_char() == '1' && bell::MAX_BELLS == 33, "restore", "");
  } END_CASE
}

static void strings(std::string const &alpha, int len, std::function<void(std::string const &)> const &f) {
  std::string s;
  std::function<void()> go = [&] { f(s); if ((int)s.size() == len) return; for (char c : alpha) { s += c; go(); s.pop_back(); } };
  go();
}

VF_SECTION(extended) {  // read_extended on every short brace form
  strings("1250{} -+x", vf::tier(6, 7), [](std::string const &s) {
    if (s.empty() || s[0] == 'x') return;
    CASE("read_extended ", vf::quote(s)) {
      vf::states();
      size_t i = 0; int e = bell_at(s, i, false);
      const char *t = s.c_str(), *end = 0;
      int got; try { got = bell::read_extended(t, &end); } catch (bell::invalid const &) { got = -1; }
      EXPECT(got == e, "read-extended", "read ", got, " not ", e);
      if (e >= 0) EXPECT(end == t + i, "read-extended-end", "stopped after ", end - t, " characters, not ", i);
      if (e >= 0) { bell b = bell::read_extended(t); EXPECT((int)b == e, "read-extended", "without end pointer"); }
      // the stream form
      i = 0; e = bell_at(s, i, true);
      if (s[0] != ' ') {
        std::istringstream is(s); bell b(77); is >> b;
        EXPECT(!is.fail() == (e >= 0), "bell-stream", "state ", is.rdstate(), " expected ", e);
        if (e >= 0) EXPECT((int)b == e, "bell-stream", "read ", (int)b, " not ", e);
        std::istringstream i3(s); i3.exceptions(std::ios::badbit);
        bool thrown = false; try { bell y; i3 >> y; } catch (std::exception const &) { thrown = true; }
        EXPECT(thrown == (e < 0), "bell-stream-exceptions", "thrown ", thrown);
      }
    } END_CASE
  });
}

VF_SECTION(rows) {  // row text: every string over a small alphabet
  strings("1234{} x\n", vf::tier(6, 7), [](std::string const &s) {
    CASE("row text ", vf::quote(s)) {
      vf::states();
      P p; size_t i = 0; bool ok = true;
      while (i < s.size()) { int b = bell_at(s, i, false); if (b < 0) { ok = false; break; } p.push_back(b); }
      if (ok) { P q = p; std::sort(q.begin(), q.end()); if (q != ref::id(p.size())) ok = false; }
      for (int how = 0; how < 4; ++how) {
        row r("21"); bool got = true;
        try { if (how == 0) r = row(s); else if (how == 1) r = row(s.c_str()); else if (how == 2) r = s; else r = s.c_str(); }
        catch (std::invalid_argument const &) { got = false; }
        EXPECT(got == ok, "row-parse", "accepted ", got, " expected ", ok, " via ", how);
        if (ok && got) EXPECT(eq(r, p), "row-parse", "gave ", show(r));
        if (!got) EXPECT(eq(r, P{1, 0}), "row-parse-strong", "assignment that threw left ", show(r));
      }
      // stream: blanks skipped, then as many bells as there are
      i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i;
      P q; bool bad = false; size_t j = i;
      while (j < s.size()) {
        size_t k = j; int b = bell_at(s, k, true);
        if (b < 0) { if (s[j] == '{') bad = true; break; }
        q.push_back(b); j = k;
      }
      { P z = q; std::sort(z.begin(), z.end()); if (z != ref::id(q.size())) bad = true; }
      std::istringstream is(s); row r("21"); is >> r;
      bool good = !bad && !q.empty();
      EXPECT(!is.fail() == good, "row-stream", "state ", is.rdstate(), " expected ", good ? "success" : "failure");
      if (good && is) {
        EXPECT(eq(r, q), "row-stream", "gave ", show(r));
        EXPECT((is.flags() & std::ios::skipws) != 0, "row-stream-flags", "skipws lost");
        is.clear(); std::string rest; std::getline(is, rest, '\x01');
        EXPECT(rest == s.substr(j), "row-stream-rest", "left ", vf::quote(rest), " not ", vf::quote(s.substr(j)));
      }
    } END_CASE
  });
}

static void trip(P const &p) {
  row r = mk(p);
  std::ostringstream os; os << r;
  EXPECT(os.str() == ref::str(p), "row-print", "printed ", os.str());
  EXPECT(row(os.str()) == r, "row-round-trip", os.str());
  row q; std::istringstream is(os.str() + " 21"); is >> q;
  if (!p.empty()) EXPECT(is && q == r, "row-stream-round-trip", os.str());
  row q2; is >> q2; if (!p.empty()) EXPECT(is && eq(q2, P{1, 0}), "row-stream-next", "");
  std::string plain; for (int b : p) plain += b < 33 ? ref::SYM[b] : '*';
  EXPECT(r.print() == plain, "row-print-plain", r.print());
  std::string low = os.str(); for (char &c : low) c = tolower(c);
  EXPECT(row(low) == r, "row-lower-case", low);
}
VF_SECTION(round_trip) {
  for (int n = 0; n <= vf::tier(7, 8); ++n) for (auto &p : ref::perms(n)) CASE("round trip ", ref::str(p)) { vf::states(); trip(p); } END_CASE
  for (int n = 9; n <= 256; ++n)
    for (int k = 0; k < 4; ++k) CASE("round trip family ", k, " on ", n) {
      P p = ref::id(n);
      if (k == 1) std::reverse(p.begin(), p.end());
      if (k == 2) std::rotate(p.begin(), p.begin() + 1, p.end());
      if (k == 3) { P q; for (int i = 1; i < n; i += 2) q.push_back(i); for (int i = 0; i < n; i += 2) q.push_back(i); p = q; }
      vf::states(); trip(p);
      // one repeated or missing bell is refused wherever it is
      if (n <= 40) for (int i = 0; i < n; ++i) {
        P q = p; q[i] = q[(i + 1) % n];
        bool thrown = false; try { mk(q); } catch (row::invalid const &) { thrown = true; }
        EXPECT(thrown, "row-invalid-data", "accepted a repeated bell at ", i);
        q = p; q[i] = n;
        thrown = false; try { if (n < 256) mk(q); else thrown = true; } catch (row::invalid const &) { thrown = true; }
        EXPECT(thrown, "row-invalid-data", "accepted a missing bell at ", i);
        thrown = false; try { row z(ref::str(q)); } catch (std::invalid_argument const &) { thrown = true; }
        EXPECT(thrown, "row-invalid-text", "accepted a missing bell at ", i);
      }
    } END_CASE
  // every vector of up to 4 (5) bells drawn from 0..5: accepted iff a permutation
  int L = vf::tier(5, 6);
  std::vector<bell> v;
  std::function<void()> go = [&] {
    CASE("data ", [&] { std::string s; for (bell b : v) s += char('1' + (int)b); return s; }()) {
      vf::states();
      std::set<int> s; bool ok = true; for (bell b : v) { s.insert(b); if ((int)b >= (int)v.size()) ok = false; } if (s.size() != v.size()) ok = false;
      bool got = true; try { row r(v); } catch (row::invalid const &) { got = false; }
      EXPECT(got == ok, "row-data", "accepted ", got);
      row z("132"); std::vector<bell> w(v); got = true; try { z.swap(w); } catch (row::invalid const &) { got = false; }
      EXPECT(got == ok, "row-swap-data", "accepted ", got);
    } END_CASE
    if ((int)v.size() == L) return;
    for (int b = 0; b <= L; ++b) { v.push_back(bell(b)); go(); v.pop_back(); }
  };
  go();
}
