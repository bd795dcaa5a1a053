// app.h - run one of the real command-line programs and capture what it does.
#ifndef VF_APP_H
#define VF_APP_H
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <string>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
extern int vf_late;
namespace app {
struct Out { int rc = -1; std::string out, err; };
inline std::string &argv0() { static std::string s; return s; } // the name to run the next program under
inline std::string work() { char const *w = getenv("VF_WORK"); return w ? w : "/tmp"; }
inline std::string put(std::string const &fn, std::string const &txt) { std::string p = work() + "/" + fn; std::ofstream o(p.c_str(), std::ios::binary); o << txt; return p; }
// exit status; 1000+n if ended by signal n; -1 if it did not end in time
inline Out run(std::string const &name, std::vector<std::string> const &args, std::string const &in = "", double secs = 30, std::vector<std::string> const &env = {}) {
  std::string key = "VF_APP_"; for (char c : name) key += toupper(c);
  char const *exe = getenv(key.c_str()); if (!exe) { fprintf(stderr, "no %s\n", key.c_str()); abort(); }
  std::string inf = "/dev/null"; if (!in.empty()) inf = put("stdin." + std::to_string(getpid()), in);
  std::string called = argv0().empty() ? exe : argv0(); std::vector<char *> av; av.push_back((char *)called.c_str()); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(0);
  std::vector<std::string> es = env; es.push_back("LC_ALL=C"); es.push_back("TERM=dumb"); es.push_back("PATH=/usr/bin:/bin");
  std::vector<char *> ev; for (auto &e : es) ev.push_back((char *)e.c_str()); ev.push_back(0);
  int o[2], e[2]; if (pipe2(o, O_CLOEXEC) || pipe2(e, O_CLOEXEC)) abort();
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, inf.c_str(), O_RDONLY, 0);
  posix_spawn_file_actions_adddup2(&fa, o[1], 1); posix_spawn_file_actions_adddup2(&fa, e[1], 2);
  pid_t pid = 0; int rc = posix_spawn(&pid, exe, &fa, 0, av.data(), ev.data());
  posix_spawn_file_actions_destroy(&fa); close(o[1]); close(e[1]);
  Out r; if (rc) { fprintf(stderr, "cannot run %s: %s\n", exe, strerror(rc)); abort(); }
  timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); bool late = false;
  struct pollfd pf[2] = {{o[0], POLLIN, 0}, {e[0], POLLIN, 0}}; int open = 2; char buf[65536];
  while (open) {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t); double left = secs - (t.tv_sec - t0.tv_sec) - (t.tv_nsec - t0.tv_nsec) * 1e-9;
    if (left <= 0 || r.out.size() > 400000000) { late = true; break; }
    poll(pf, 2, (int)(left * 1000) + 1);
    for (int k = 0; k < 2; ++k) if (pf[k].fd >= 0 && (pf[k].revents & (POLLIN | POLLHUP | POLLERR))) {
      ssize_t n = read(pf[k].fd, buf, sizeof buf); if (n <= 0) { pf[k].fd = -1; --open; } else (k ? r.err : r.out).append(buf, n);
    }
  }
  if (late) { ++vf_late; kill(pid, SIGKILL); }
  int st = 0; waitpid(pid, &st, 0); close(o[0]); close(e[0]);
  r.rc = late ? -1 : WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  return r;
}
} // namespace app
#endif
