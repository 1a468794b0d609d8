// Property-based-testing engine: interface used by the target files.
//
// A target is a named property: a generator that draws every random choice
// from a Src (backed by rapidcheck generators, so that cases shrink), and an
// executable check of one case.  Cases are flat, named integers; matrices and
// longer data are derived from them by pure functions, so that a case is its
// own replay file.
//
// Only pbt.cpp knows rapidcheck; the same target can be driven by another
// source of choices (fuzz.cpp: libFuzzer).
#pragma once
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Case {
  std::vector<std::pair<std::string, std::int64_t>> kv;
  Case() {}
  Case(std::initializer_list<std::pair<std::string, std::int64_t>> l) : kv(l) {}
  std::int64_t operator[](const char *name) const;
  std::int64_t get(const char *name, std::int64_t dflt) const;
  bool has(const char *name) const;
  void set(const std::string &name, std::int64_t v);
  std::string str() const;
};

// source of random choices
struct Src {
  virtual ~Src() {}
  // uniform in [lo,hi]; shrinks towards lo
  virtual std::int64_t range(std::int64_t lo, std::int64_t hi) = 0;
  bool chance(int num, int den) { return range(1, den) > den - num; }
  // one of the given values; shrinks towards the first
  std::int64_t pick(const std::vector<std::int64_t> &v) {
    return v[std::size_t(range(0, std::int64_t(v.size()) - 1))];
  }
};

struct Failure {
  std::string msg;
};
[[noreturn]] void fail(const std::string &msg);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Ctx {
  std::vector<std::string> labels;
  bool nontrivial = false;
  std::string note; // written to the samples
  void label(const std::string &l) { labels.push_back(l); }
  void label_if(bool c, const std::string &l) {
    if (c) labels.push_back(l);
  }
};

struct Target {
  std::string name;
  std::function<Case(Src &)> gen;
  std::function<void(const Case &, Ctx &)> run;
  std::vector<Case> corpus;                // boundary cases, run first
  std::function<bool(const Case &)> valid; // inside the property's domain?
};

// defined by each target file
std::vector<Target> targets();

// splitmix64 stream: pure function of a case field, used to fill data
struct Stream {
  std::uint64_t s;
  explicit Stream(std::uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ULL + 0x1234567) {}
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return n <= 1 ? 0 : next() % n; }
  std::int64_t in(std::int64_t lo, std::int64_t hi) { return lo + std::int64_t(below(std::uint64_t(hi - lo + 1))); }
  double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
};
}
