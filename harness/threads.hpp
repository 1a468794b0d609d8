// The same property when several threads do the work at once, each on data of
// its own: a target made from a target.  Built with ThreadSanitizer, so that a
// conflict counts even when the values happen to come out right.
#pragma once
#include "pbt.hpp"
#include <atomic>
#include <exception>
#include <memory>
#include <thread>

namespace pbt {
inline Case part_of(const Case &c, const std::string &prefix) {
  Case p;
  for (auto &k : c.kv)
    if (k.first.compare(0, prefix.size(), prefix) == 0) p.set(k.first.substr(prefix.size()), k.second);
  return p;
}
inline Target concurrently(const Target &one) {
  Target t;
  t.name = one.name + " in threads";
  t.gen = [one](Src &s) {
    Case c;
    c.set("threads", s.range(2, 4));
    c.set("other", s.range(0, 1)); // do the threads work on different shapes?
    Case a = one.gen(s);
    for (auto &k : a.kv) c.set("a." + k.first, k.second);
    if (c["other"]) a = one.gen(s);
    for (auto &k : a.kv) c.set("b." + k.first, k.second);
    return c;
  };
  t.valid = [one](const Case &c) {
    return c["threads"] >= 2 && c["threads"] <= 8 && (!one.valid || (one.valid(part_of(c, "a.")) && one.valid(part_of(c, "b."))));
  };
  t.run = [one](const Case &c, Ctx &x) {
    std::size_t n = std::size_t(c["threads"]);
    std::vector<Ctx> ctx(n);
    std::vector<std::string> msg(n);
    std::vector<std::thread> th;
    std::atomic<std::size_t> ready{0};
    for (std::size_t k = 0; k < n; ++k)
      th.emplace_back([&, k] {
        Case mine = part_of(c, k % 2 ? "b." : "a.");
        if (mine.has("seed")) mine.set("seed", mine["seed"] + 101 * std::int64_t(k));
        ready.fetch_add(1, std::memory_order_relaxed); // no order between the threads
        while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        try {
          one.run(mine, ctx[k]);
        } catch (const Failure &f) {
          msg[k] = f.msg;
        } catch (const std::exception &e) {
          msg[k] = std::string("unexpected exception: ") + e.what();
        }
      });
    for (auto &h : th) h.join();
    for (std::size_t k = 0; k < n; ++k)
      if (!msg[k].empty()) fail(fmt("thread %zu of %zu: ", k, n) + msg[k]);
    for (std::size_t k = 0; k < 2; ++k)
      for (auto &l : ctx[k].labels) x.label(l);
    x.label(fmt("threads:%zu", n));
    x.label_if(c["other"], "threads on different shapes");
    x.nontrivial = ctx[0].nontrivial || ctx[1].nontrivial;
    x.note = ctx[0].note;
  };
  return t;
}
// THREADED builds have the threaded form of each listed target, others the plain one
inline std::vector<Target> threaded(std::vector<Target> v, std::initializer_list<const char *> names) {
#ifdef THREADED
  std::vector<Target> r;
  for (auto &t : v)
    for (auto *n : names)
      if (t.name == n) r.push_back(concurrently(t));
  for (auto &t : v)
    if (t.name.compare(0, 7, "shared ") == 0) r.push_back(t); // runs threads itself
  return r;
#else
  (void)names;
  return v;
#endif
}
}
