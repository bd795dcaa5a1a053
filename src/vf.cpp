#include "vf.h"
#include <csignal>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <typeinfo>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:exitcode=99:handle_abort=0:handle_segv=0:handle_sigfpe=0:hard_rss_limit_mb=6000:max_allocation_size_mb=3000:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1";
}
#endif

int vf_late = 0; // programs that did not end in time
namespace vf {
G g;
static std::string out_file;
static bool dumped = false;

std::vector<std::pair<std::string, void (*)()>> &registry() {
  static std::vector<std::pair<std::string, void (*)()>> r;
  return r;
}
Reg::Reg(char const *name, void (*fn)()) { registry().push_back({name, fn}); }

std::string quote(std::string const &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

static std::string js(std::string const &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

static std::string curid() {
  if (!g.cur) return "(outside a case)";
  try { return (*g.cur)(); } catch (...) { return "(unprintable case)"; }
}

void fail(std::string const &c, std::string const &detail) {
  ++g.nfail;
  uint64_t n = ++g.failcats[c];
  if (n <= 400 && g.fails.size() < 4000) {
    Fail f; f.cat = c; f.kase = curid(); f.detail = detail;
    g.fails.push_back(f);
  }
  if (g.replaying) std::cerr << "  FAIL " << c << "\n    case: " << curid() << "\n    " << detail << "\n";
}

static void dump(char const *status) {
  if (dumped) return;
  dumped = true;
  FILE *f = out_file.empty() ? stdout : fopen(out_file.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"section\":%s,\"status\":\"%s\",\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,"
             "\"traces\":%llu,\"nfail\":%llu,\"outcomes\":%llu,\"outcomes_capped\":%s,",
          js(g.section).c_str(), status, (unsigned long long)g.cases, (unsigned long long)g.states,
          (unsigned long long)g.transitions, (unsigned long long)g.traces, (unsigned long long)g.nfail,
          (unsigned long long)g.outcomes.size(), g.outcomes_capped ? "true" : "false");
  fprintf(f, "\"samples\":[");
  for (size_t i = 0; i < g.samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", js(g.samples[i]).c_str());
  fprintf(f, "],\"notes\":[");
  for (size_t i = 0; i < g.notes.size(); ++i) fprintf(f, "%s%s", i ? "," : "", js(g.notes[i]).c_str());
  fprintf(f, "],\"failcats\":{");
  bool first = true;
  for (auto const &p : g.failcats) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\"fails\":[");
  for (size_t i = 0; i < g.fails.size(); ++i)
    fprintf(f, "%s{\"cat\":%s,\"case\":%s,\"detail\":%s}", i ? "," : "", js(g.fails[i].cat).c_str(),
            js(g.fails[i].kase).c_str(), js(g.fails[i].detail).c_str());
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f); else fflush(f);
}

static void on_death() {
  static bool once = false;
  if (once) return;
  once = true;
  fail("crash", "the process was stopped by a memory error or fatal signal (see stderr)");
  dump("crash");
}
static void on_signal(int s) {
  static volatile sig_atomic_t once = 0;
  if (once) _exit(98);
  once = 1;
  char const *n = s == SIGVTALRM ? "hang" : "crash";
  std::string d = s == SIGVTALRM ? "one case used more than its CPU budget (no progress)"
                                 : std::string("fatal signal ") + strsignal(s);
  fail(n, d);
  dump(n);
  _exit(98);
}

static uint64_t last_case = (uint64_t)-1;
static unsigned stuck = 0;
static void on_tick(int) {
  if (g.cases == last_case && g.cur) { if (++stuck >= 12) on_signal(SIGVTALRM); }
  else { stuck = 0; last_case = g.cases; }
}

void run_case(std::function<std::string()> const &id, std::function<void()> const &body) {
  if (!g.only.empty() && id() != g.only) return;
  // Once something has failed, do not go on for ever: the programs under test
  // may hang or crawl in every remaining case.
  static time_t first = 0;
  if (g.nfail && !first) first = time(0);
  if (g.nfail && ((vf_late >= 4) || (!g.thorough && time(0) - first > 200))) {
    static bool said = false; if (!said) { said = true; note("cut short after a failure"); }
    return;
  }
  ++g.cases;
  std::function<std::string()> const *old = g.cur;
  g.cur = &id;
  try { body(); }
  catch (std::exception const &e) {
    int st; char *n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
    fail("unexpected-exception", std::string("unexpected exception ") + (n ? n : "?") + ": " + e.what());
    free(n);
  }
  catch (...) { fail("unexpected-exception", "unexpected exception of unknown type"); }
  if (g.samples.size() < 3 || (g.cases & (g.cases - 1)) == 0) { if (g.samples.size() < 8) g.samples.push_back(id()); }
  g.cur = old;
}
} // namespace vf

int main(int argc, char **argv) {
  using namespace vf;
  std::string sec;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--list") { for (auto &p : registry()) std::cout << p.first << "\n"; return 0; }
    else if (a == "--section") sec = argv[++i];
    else if (a == "--tier") g.thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--out") out_file = argv[++i];
    else if (a == "--only") g.only = argv[++i];
    else if (a == "--replay") g.replaying = true;
  }
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(on_death);
#else
  { struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)8 << 30; setrlimit(RLIMIT_AS, &rl); }
#endif
  static char altstack[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
  sigaltstack(&ss, 0);
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
  for (int s : sigs) {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, 0);
  }
  { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
    sigaction(SIGVTALRM, &sa, 0);
    struct itimerval it; it.it_interval.tv_sec = it.it_value.tv_sec = 5;
    it.it_interval.tv_usec = it.it_value.tv_usec = 0; setitimer(ITIMER_VIRTUAL, &it, 0); }
  g.section = sec;
  for (auto &p : registry()) if (p.first == sec) {
    try { p.second(); }
    catch (std::exception const &e) { fail("unexpected-exception", std::string("outside a case: ") + e.what()); }
    dump("done");
    return g.nfail ? 1 : 0;
  }
  std::cerr << "no such section: " << sec << "\n";
  return 2;
}
