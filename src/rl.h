// rl.h - glue between the reference model and the library's public API.
#ifndef RL_H
#define RL_H
#include <ringing/common.h>
#include <ringing/bell.h>
#include <ringing/row.h>
#include <ringing/change.h>
#include "vf.h"
#include "ref.h"
namespace rl {
inline ringing::row mk(ref::P const &p) { std::vector<ringing::bell> v; for (int b : p) v.push_back(ringing::bell(b)); return ringing::row(v); }
inline ref::P un(ringing::row const &r) { ref::P p; for (int i = 0; i < r.bells(); ++i) p.push_back((int)r[i]); return p; }
inline bool eq(ringing::row const &r, ref::P const &p) {
  if (r.bells() != (int)p.size()) return false;
  for (int i = 0; i < (int)p.size(); ++i) if ((int)r[i] != p[i]) return false;
  return true;
}
inline ringing::change mkc(ref::Sw const &s) { ringing::change c((int)s.size()); for (int i = 0; i + 1 < (int)s.size(); ++i) if (s[i]) c.swappair(i); return c; }
inline std::string show(ringing::row const &r) { return ref::str(un(r)) + "(" + std::to_string(r.bells()) + ")"; }
inline std::string show(ref::P const &r) { return ref::str(r) + "(" + std::to_string(r.size()) + ")"; }
}
#endif
