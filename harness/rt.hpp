// Running a case on the runtime stand-in.
#pragma once
#include "hpx_shim.hpp"
#include "pbt.hpp"
#include <sstream>

namespace rt {
inline void gen_sched(pbt::Src &s, pbt::Case &c) {
  c.set("sched", s.range(0, 4));
  c.set("sseed", s.range(0, 1 << 20));
}
inline bool valid_sched(const pbt::Case &c) { return c["sched"] >= 0 && c["sched"] <= 4; }

inline void configure(const pbt::Case &c) {
  auto &k = vshim::cfg();
  k = vshim::config();
  k.sched_mode = int(c.get("sched", 0));
  k.sched_seed = std::uint64_t(c.get("sseed", 0));
  k.localities = unsigned(c.get("locs", 1));
  k.threads = unsigned(c.get("threads", 4));
}
template <typename F> auto on_runtime(const pbt::Case &c, F f) -> decltype(f()) {
  configure(c);
  std::unique_ptr<decltype(f())> r;
  vshim::run_root([&] { r.reset(new decltype(f())(f())); });
  if (!r) pbt::fail("the multiplication ended without a result");
  return std::move(*r);
}
inline void sched_labels(const pbt::Case &c, pbt::Ctx &x) {
  static const char *n[] = {"fifo", "lifo", "random", "child-first", "priority"};
  x.label(std::string("sched:") + n[c["sched"] % 5]);
}
// std::cout of the code under test, captured (it is also what users see)
struct Quiet {
  std::ostringstream s;
  std::streambuf *old;
#ifdef THREADED
  Quiet() {}
#else
  Quiet() : old(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
#endif
};
}
