// vf.h - the explorer's kernel: sections of exhaustively enumerated cases run
// against the real library, with counting, crash/hang capture and replay.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

struct Fail { std::string cat, kase, detail; };

struct G {
  std::string section;
  bool thorough = false;
  std::string only;               // replay: run only this case
  bool replaying = false;
  uint64_t cases = 0, states = 0, transitions = 0, traces = 0, nfail = 0;
  std::map<std::string, uint64_t> failcats;
  std::vector<Fail> fails;
  std::unordered_set<std::string> outcomes;  // distinct observed outcomes
  bool outcomes_capped = false;
  std::vector<std::string> samples;
  std::vector<std::string> notes;
  std::function<std::string()> const *cur = nullptr;
};
extern G g;

inline bool thorough() { return g.thorough; }
template <class T> inline T tier(T quick, T deep) { return g.thorough ? deep : quick; }

void fail(std::string const &cat, std::string const &detail);
inline void states(uint64_t n = 1) { g.states += n; }
inline void trans(uint64_t n = 1) { g.transitions += n; }
inline void traces(uint64_t n = 1) { g.traces += n; }
inline void outcome(std::string const &s) {
  if (g.outcomes.size() < 200000) g.outcomes.insert(s); else g.outcomes_capped = true;
}
inline void sample(std::string const &s) { if (g.samples.size() < 8) g.samples.push_back(s); }
inline void note(std::string const &s) { g.notes.push_back(s); }

// Run one case.  ID is called only when a name for the case is needed.
void run_case(std::function<std::string()> const &id, std::function<void()> const &body);

struct Reg { Reg(char const *name, void (*fn)()); };
std::vector<std::pair<std::string, void (*)()>> &registry();

template <class... A> std::string cat(A const &...a) {
  std::ostringstream os; int d[] = {0, ((os << a), 0)...}; (void)d; return os.str();
}
std::string quote(std::string const &s);   // printable form
} // namespace vf

#define VF_SECTION(name) \
  static void vf_sec_##name(); \
  static vf::Reg vf_reg_##name(#name, vf_sec_##name); \
  static void vf_sec_##name()

// EXPECT(condition, category, detail...)
#define EXPECT(c, category, ...) \
  do { vf::trans(); if (!(c)) vf::fail((category), vf::cat(__VA_ARGS__)); } while (0)

// CASE(id-expression) { body } END_CASE
#define CASE(...) { std::function<std::string()> const vf_id = [&]() -> std::string { return vf::cat(__VA_ARGS__); }; \
  std::function<void()> const vf_body = [&]() -> void
#define END_CASE ; vf::run_case(vf_id, vf_body); }

#endif
