// C10 loop nests and blocked index iteration
//
// Built once per part: 1 variants/index_iterator.hpp, 2 its copy in
// memory_layout (same names), 3 memory_layout/loop_nest.hpp, 4 looped.hpp,
// 5 the loop-nest study in learning/.
#include "rt.hpp"
#include "threads.hpp"

#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <map>
#include <vector>

#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#if PART == 2
#include "memory_layout/index_iterator.hpp"
#elif PART == 1
#include "variants/index_iterator.hpp"
#elif PART == 3
#include "memory_layout/loop_nest.hpp"
#elif PART == 4
#include "variants/looped.hpp"
#elif PART == 5
#include <bits/stdc++.h> // not inside the namespace below
#define main learning_main
namespace learning {
#include "learning_unit.hpp"
}
#undef main
#endif

using namespace pbt;

namespace {
using Point = std::vector<std::int64_t>;
std::string show(const Point &p) {
  std::string s = "(";
  for (std::size_t i = 0; i < p.size(); ++i) s += (i ? "," : "") + std::to_string(p[i]);
  return s + ")";
}
std::string key(const char *p, std::int64_t d) { return p + std::to_string(d); }
std::int64_t at(const Case &c, const char *p, std::int64_t d) { return c[key(p, d).c_str()]; }

// every grid point lower + i * step below upper, last dimension fastest
std::vector<Point> grid(const Point &lo, const Point &hi, const Point &step) {
  std::vector<Point> r = {{}};
  for (std::size_t d = 0; d < lo.size(); ++d) {
    std::vector<Point> n;
    for (auto &p : r)
      for (std::int64_t v = lo[d]; v < hi[d]; v += step[d]) {
        n.push_back(p);
        n.back().push_back(v);
      }
    r.swap(n);
  }
  return r;
}
template <typename F> void with_dim(std::int64_t dim, F f) {
  switch (dim) {
  case 1: f(std::integral_constant<std::size_t, 1>()); break;
  case 2: f(std::integral_constant<std::size_t, 2>()); break;
  case 3: f(std::integral_constant<std::size_t, 3>()); break;
  case 4: f(std::integral_constant<std::size_t, 4>()); break;
  default: f(std::integral_constant<std::size_t, 5>());
  }
}
void compare_sequence(const std::vector<Point> &got, const std::vector<Point> &want) {
  for (std::size_t i = 0; i < got.size() || i < want.size(); ++i) {
    if (i >= got.size()) fail(fmt("ended after %zu of %zu calls, missing ", got.size(), want.size()) + show(want[i]));
    if (i >= want.size()) fail("extra call with " + show(got[i]));
    if (got[i] != want[i]) fail(fmt("call %zu is for ", i) + show(got[i]) + " instead of " + show(want[i]));
  }
}

// ------------------------------------------------------------ plain loop nests
// scaled steps: not a power of two, and bounds that are not whole steps apart
void gen_uneven(Src &s, Case &c) {
  c.set("odd", c["far2"] > 1 && s.chance(1, 3) ? s.range(1, 1000) : 0);
  for (std::int64_t d = 0; d < c["dim"]; ++d)
    if (c["far2"] > 1) c.set(key("jit", d), s.chance(1, 3) ? 0 : s.chance(1, 2) ? s.range(-1, 1) : s.range(-(std::int64_t(1) << 40), std::int64_t(1) << 40));
}
void gen_bounds(Src &s, Case &c, bool negative) {
  std::int64_t dim = s.pick({1, 2, 2, 3, 3, 4, 5});
  c.set("dim", dim);
  for (std::int64_t d = 0; d < dim; ++d) {
    std::int64_t most = dim == 1 ? 60 : dim == 2 ? 16 : dim == 3 ? 8 : 4;
    c.set(key("lo", d), s.chance(1, 2) ? 0 : s.range(negative ? -20 : 0, 30));
    if (s.chance(1, 25)) most *= dim <= 2 ? 30 : 5;
    c.set(key("len", d), s.chance(1, 12) ? s.range(-3, 0) : s.range(1, most));
    c.set(key("st", d), s.chance(1, 2) ? 1 : s.range(1, most + 3));
  }
  c.set("far", s.chance(1, 6) ? s.range(0, 62) : 0); // lower bounds shifted by a power of two (where the type allows)
  c.set("far2", s.chance(1, 2) ? c["far"] : 0);      // and the steps
  gen_uneven(s, c);
  c.set("inner", s.range(0, 3)); // a call that runs a loop nest itself (1), throws (2)
}
bool valid_bounds(const Case &c, bool negative) {
  for (std::int64_t d = 0; d < c["dim"]; ++d) {
    if (!c.has(key("st", d).c_str()) || at(c, "st", d) < 1) return false;
    if (!negative && (at(c, "lo", d) < 0)) return false;
  }
  return c["dim"] >= 1 && c["dim"] <= 5;
}
struct Bounds {
  Point lo, hi, step;
  explicit Bounds(const Case &c, bool negative, std::int64_t widest = 62) {
    std::int64_t far = std::min(c.get("far", 0), widest), by = far > 1 ? std::int64_t(1) << (far - 1) : 0;
    std::int64_t scale = c.get("far2", 0) > 1 && far > 10 ? (std::int64_t(1) << (far - 10)) + c.get("odd", 0) : 1;
    if (widest < 40) scale = 1;
    for (std::int64_t d = 0; d < c["dim"]; ++d) {
      lo.push_back(at(c, "lo", d) + (d % 2 ? by : by / 2));
      std::int64_t h = lo.back() + std::min<std::int64_t>(at(c, "len", d), (std::int64_t(1) << 61) / scale) * scale;
      if (scale > 1 && at(c, "len", d) > 0) h += c.get(key("jit", d).c_str(), 0) % scale; // a little more or less than whole steps
      hi.push_back(!negative && h < 0 ? 0 : h);
      step.push_back(at(c, "st", d) * scale);
    }
  }
};
// A callback that itself runs a loop nest (inner 1) or gives up with an
// exception (inner 2) half-way; nest(bounds, visit) is the function under test.
struct Stop {};
template <typename N> std::vector<Point> drive(const Case &c, const Bounds &b, std::size_t points, N nest) {
  std::vector<Point> got;
  std::int64_t inner = c.get("inner", 0);
  std::size_t at = points / 2, calls = 0;
  auto small = [&] {
    Point l(b.lo.size(), 1), h(b.lo.size(), 4), s(b.lo.size(), 2);
    h.back() = 3;
    Case plain = {{"dim", c["dim"]}};
    for (std::size_t d = 0; d < b.lo.size(); ++d) {
      plain.set(key("lo", d), 1);
      plain.set(key("len", d), d + 1 == b.lo.size() ? 2 : 3);
      plain.set(key("st", d), 2);
    }
    Bounds sb(plain, false);
    std::vector<Point> in;
    nest(sb, [&](const Point &p) { in.push_back(p); });
    compare_sequence(in, grid(sb.lo, sb.hi, sb.step));
  };
  auto visit = [&](const Point &p) {
    got.push_back(p);
    if (calls++ == at) {
      if (inner == 1) small();
      if (inner == 2) throw Stop();
    }
  };
  if (inner == 2) {
    bool thrown = false;
    try {
      nest(b, visit);
    } catch (const Stop &) {
      thrown = true;
    }
    if (thrown != (points > 0)) fail("an exception thrown by the function does not reach the caller");
    if (got.size() != (points ? at + 1 : 0)) fail("calls went on after an exception");
    got.clear();
    calls = 0;
    inner = 0;
  }
  nest(b, visit);
  return got;
}
void nest_labels(const Case &c, const Bounds &b, std::size_t points, Ctx &x) {
  x.label(key("dimensions:", c["dim"]));
  x.label_if(points == 0, "empty range");
  bool rem = false, off = false;
  for (std::size_t d = 0; d < b.lo.size(); ++d) {
    rem = rem || (b.hi[d] > b.lo[d] && (b.hi[d] - b.lo[d]) % b.step[d]);
    off = off || b.lo[d];
  }
  x.label_if(rem, "step does not divide the extent");
  x.label_if(off, "lower bound not 0");
  x.label_if(c.get("far", 0) > 33, "indices beyond 32 bits");
  x.label_if(c.get("inner", 0) == 1, "nested inside its own callback");
  x.label_if(c.get("inner", 0) == 2, "callback throws");
  x.label_if(points > 5000, "more than 5000 points");
  x.note = fmt("%zu points", points);
  x.nontrivial = points > 1;
}

#if PART == 3
template <std::size_t dim, typename T, typename V> void nest_c(const Bounds &b, V visit) {
  T lo[dim], hi[dim], st[dim];
  for (std::size_t d = 0; d < dim; ++d) lo[d] = T(b.lo[d]), hi[d] = T(b.hi[d]), st[d] = T(b.step[d]);
  util::loop_nest<dim>(lo, hi, st, [&](const T(&i)[dim]) { visit(Point(i, i + dim)); });
}
template <std::size_t dim, typename T, typename V> void nest_a(const Bounds &b, V visit) {
  std::array<T, dim> lo, hi, st;
  for (std::size_t d = 0; d < dim; ++d) lo[d] = T(b.lo[d]), hi[d] = T(b.hi[d]), st[d] = T(b.step[d]);
  util::loop_nest<dim>(lo, hi, st, [&](const std::array<T, dim> &i) { visit(Point(i.begin(), i.end())); });
}
Case gen_nest(Src &s) {
  Case c;
  c.set("form", s.range(0, 3));
  gen_bounds(s, c, c["form"] >= 2);
  return c;
}
void run_nest(const Case &c, Ctx &x) {
  std::int64_t form = c["form"];
  Bounds b(c, form >= 2, form == 2 ? 29 : 62);
  std::vector<Point> got, want = grid(b.lo, b.hi, b.step);
  with_dim(c["dim"], [&](auto d) {
    constexpr std::size_t D = decltype(d)::value;
    if (form == 0) got = drive(c, b, want.size(), [](const Bounds &k, auto v) { nest_c<D, std::size_t>(k, v); });
    else if (form == 1) got = drive(c, b, want.size(), [](const Bounds &k, auto v) { nest_a<D, std::size_t>(k, v); });
    else if (form == 2) got = drive(c, b, want.size(), [](const Bounds &k, auto v) { nest_c<D, int>(k, v); });
    else got = drive(c, b, want.size(), [](const Bounds &k, auto v) { nest_a<D, long>(k, v); });
  });
  compare_sequence(got, want);
  static const char *n[] = {"c array, size_t", "std::array, size_t", "c array, int", "std::array, long"};
  x.label(n[form]);
  nest_labels(c, b, want.size(), x);
}
std::vector<Case> corpus_nest() {
  std::vector<Case> v;
  for (std::int64_t f = 0; f < 4; ++f)
    for (std::int64_t d = 1; d <= 5; ++d)
      for (std::int64_t k = 0; k < 4; ++k) {
        Case c = {{"form", f}, {"dim", d}};
        for (std::int64_t i = 0; i < d; ++i) {
          c.set(key("lo", i), k == 0 ? 0 : i + 1);
          c.set(key("len", i), k == 3 && i == d - 1 ? 0 : 2 + (i + k) % 3);
          c.set(key("st", i), k == 2 ? 1 + (i + d) % 3 : 1);
        }
        v.push_back(c);
      }
  return v;
}

#endif
#if PART == 5
// ------------------------------------------------------------ Looper
Case gen_looper(Src &s) {
  Case c;
  std::int64_t dim = s.range(1, 4);
  c.set("dim", dim);
  c.set("signed", s.range(0, 1));
  c.set("lo", c["signed"] ? s.range(-9, 9) : s.range(0, 20));
  c.set("len", s.chance(1, 10) ? 0 : s.range(1, dim == 1 ? 60 : dim == 2 ? 16 : dim == 3 ? 7 : 4));
  return c;
}
void run_looper(const Case &c, Ctx &x) {
  std::int64_t dim = c["dim"];
  Point lo(dim, c["lo"]), hi(dim, c["lo"] + c["len"]), st(dim, 1);
  std::vector<Point> got, want = grid(lo, hi, st);
  auto note = [&](auto... i) { got.push_back(Point{std::int64_t(i)...}); };
  with_dim(dim, [&](auto d) {
    constexpr std::size_t D = decltype(d)::value;
    if (c["signed"]) {
      learning::Looper<D, int> l{int(lo[0]), int(hi[0])};
      l.iterate_simple(note);
    } else {
      learning::Looper<D, std::size_t> l{std::size_t(lo[0]), std::size_t(hi[0])};
      l.iterate_simple(note);
    }
  });
  compare_sequence(got, want);
  x.label(key("dimensions:", dim));
  x.label_if(want.empty(), "empty range");
  x.nontrivial = want.size() > 1;
}
#endif

#if PART <= 2
// loop nest over vectors
Case gen_vnest(Src &s) {
  Case c;
  gen_bounds(s, c, false);
  return c;
}
void run_vnest(const Case &c, Ctx &x) {
  Bounds b(c, false);
  std::vector<Point> got, want = grid(b.lo, b.hi, b.step);
  with_dim(c["dim"], [&](auto d) {
    constexpr std::size_t D = decltype(d)::value;
    got = drive(c, b, want.size(), [](const Bounds &k, auto v) {
      std::vector<std::size_t> lo(k.lo.begin(), k.lo.end()), hi(k.hi.begin(), k.hi.end()), st(k.step.begin(), k.step.end());
      index_iterator::loop_nest<D>(lo, hi, st, [&](auto... i) { v(Point{std::int64_t(i)...}); });
      for (std::size_t d = 0; d < D; ++d)
        if (lo[d] != std::size_t(k.lo[d]) || hi[d] != std::size_t(k.hi[d]) || st[d] != std::size_t(k.step[d])) fail("the bounds were modified");
    });
  });
  compare_sequence(got, want);
  nest_labels(c, b, want.size(), x);
}

#endif
#if PART <= 2 || PART == 4
// ------------------------------------------------------------ blocked iteration
// levels 0 (finest) .. L-1; block[l] is a multiple of block[l-1] and of the
// final step
void gen_blocking(Src &s, Case &c, bool steps) {
  std::int64_t dim = s.pick({1, 2, 2, 3, 3, 4});
  c.set("dim", dim);
  c.set("levels", s.range(0, 3));
  for (std::int64_t d = 0; d < dim; ++d) {
    std::int64_t most = dim == 1 ? 80 : dim == 2 ? 20 : dim == 3 ? 9 : 5;
    c.set(key("lo", d), s.chance(1, 2) ? 0 : s.range(0, 20));
    if (s.chance(1, 25)) most *= dim <= 2 ? 12 : 3;
    c.set(key("len", d), s.chance(1, 15) ? s.range(-3, 0) : s.range(1, most));
    c.set(key("st", d), !steps || s.chance(1, 2) ? 1 : s.range(1, 5));
    for (std::int64_t l = 0; l < c["levels"]; ++l)
      c.set(key("f", l) + key("_", d), s.chance(1, 3) ? 1 : s.range(1, 4)); // factor to the finer level
  }
  for (std::int64_t l = 0; l < c["levels"]; ++l)
    for (std::int64_t d = 0; d < dim; ++d) c.set(key("p", l) + key("_", d), s.range(0, 1));
  c.set("far", s.chance(1, 6) ? s.range(0, 62) : 0);
  c.set("far2", steps && s.chance(1, 2) ? c["far"] : 0);
  gen_uneven(s, c);
}
bool valid_blocking(const Case &c) {
  if (c["dim"] < 1 || c["dim"] > 4 || c["levels"] < 0 || c["levels"] > 3) return false;
  for (std::int64_t d = 0; d < c["dim"]; ++d) {
    if (!c.has(key("st", d).c_str()) || at(c, "st", d) < 1 || at(c, "lo", d) < 0) return false;
    for (std::int64_t l = 0; l < c["levels"]; ++l) {
      if (!c.has((key("f", l) + key("_", d)).c_str()) || c[(key("f", l) + key("_", d)).c_str()] < 1) return false;
      if (!c.has((key("p", l) + key("_", d)).c_str())) return false;
    }
  }
  return !c.has("sched") || rt::valid_sched(c);
}
struct Blocking : Bounds {
  std::vector<std::vector<std::size_t>> block;
  std::vector<std::vector<bool>> par;
  std::vector<bool> any;
  explicit Blocking(const Case &c) : Bounds(c, false) {
    std::size_t dim = lo.size();
    std::vector<std::size_t> cur(step.begin(), step.end());
    any.assign(dim, false);
    for (std::int64_t l = 0; l < c["levels"]; ++l) {
      std::vector<bool> p(dim);
      for (std::size_t d = 0; d < dim; ++d) {
        cur[d] *= std::size_t(c[(key("f", l) + key("_", d)).c_str()]);
        p[d] = c[(key("p", l) + key("_", d)).c_str()] != 0;
        if (p[d]) any[d] = true;
      }
      block.push_back(cur);
      par.push_back(p);
    }
  }
};
struct Visit {
  Point p;
  std::uint64_t item;
};
void compare_set(const std::vector<Visit> &got, const Blocking &b, bool items) {
  std::vector<Point> want = grid(b.lo, b.hi, b.step);
  std::map<Point, int> seen;
  for (auto &v : got)
    if (++seen[v.p] > 1) fail("point " + show(v.p) + " visited more than once");
  for (auto &p : want)
    if (!seen.count(p)) fail("point " + show(p) + " not visited");
  if (seen.size() != want.size()) {
    std::map<Point, int> w;
    for (auto &p : want) w[p] = 1;
    for (auto &v : got)
      if (!w.count(v.p)) fail("point " + show(v.p) + " is not a point of the grid");
  }
  if (!items) return;
  std::map<Point, std::uint64_t> item;
  for (auto &v : got) {
    Point q;
    for (std::size_t d = 0; d < v.p.size(); ++d)
      if (b.any[d]) q.push_back(v.p[d]);
    auto r = item.insert({q, v.item});
    if (r.first->second != v.item) fail("point " + show(v.p) + " belongs to another concurrent work item than a point that agrees in all parallel dimensions");
  }
}
void block_labels(const Case &c, const Blocking &b, std::size_t n, Ctx &x) {
  x.label(key("dimensions:", c["dim"]));
  x.label(key("levels:", c["levels"]));
  bool rem = false, big = false, par = false, off = false;
  for (std::size_t l = 0; l < b.block.size(); ++l)
    for (std::size_t d = 0; d < b.lo.size(); ++d) {
      std::size_t e = std::size_t(std::max<std::int64_t>(0, b.hi[d] - b.lo[d]));
      rem = rem || e % b.block[l][d];
      big = big || b.block[l][d] > e;
      par = par || b.par[l][d];
    }
  for (auto l : b.lo) off = off || l;
  x.label_if(rem, "block does not divide the extent");
  x.label_if(big, "block larger than the extent");
  x.label_if(par, "parallel dimensions");
  x.label_if(off, "lower bound not 0");
  x.label_if(c.get("far", 0) > 33, "indices beyond 32 bits");
  x.label_if(n == 0, "empty range");
  x.nontrivial = n > 1 && c["levels"] >= 1;
}
// ------------------------------------------------------------ sizes that do not match
// In a child of its own: refusing is an exception or termination, before the
// function is called and before anything outside the vectors is touched.
Case gen_sizes(Src &s) {
  Case c;
  c.set("dim", s.range(1, 4));
  c.set("kind", s.range(0, 3)); // bounds, blocks of a level, parallel dimensions of a level, iterator
  c.set("other", s.pick({1, 2, 3, 4, 0, 5, 9}));
  c.set("third", s.range(0, 2)); // iterator: which one is of the other length
  c.set("len", s.range(1, 4));
  c.set("levels", s.range(0, 2));
  c.set("par", s.range(0, 1));
  if (PART == 4 && c["kind"] == 2) c.set("kind", 1);
  if (c["other"] == c["dim"]) c.set("other", c["dim"] + 1);
  return c;
}
bool valid_sizes(const Case &c) {
  return c["dim"] >= 1 && c["dim"] <= 4 && c["other"] >= 0 && c["other"] <= 9 && c["other"] != c["dim"] && c["kind"] >= 0 && c["kind"] <= 3 && c["levels"] >= 0 &&
         c["levels"] <= 2 && c["len"] >= 1 && c["len"] <= 4 && !(PART == 4 && c["kind"] == 2) && c["third"] >= 0 && c["third"] <= 2;
}
void run_sizes(const Case &c, Ctx &x) {
#if PART == 4
  using namespace looped;
#else
  using namespace index_iterator;
#endif
  std::size_t n = std::size_t(c["dim"]), m = std::size_t(c["other"]);
  std::int64_t kind = c["kind"];
  auto vec = [](std::size_t k, std::size_t v) {
    std::vector<std::size_t> r(k, v);
    r.shrink_to_fit();
    return r;
  };
  std::fflush(nullptr);
  pid_t p = fork();
  if (p < 0) std::abort();
  if (p == 0) {
    std::set_terminate([] { _exit(11); });
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rt::on_runtime(c, [&] {
      try {
        if (kind == 3) {
          auto lo = vec(c["third"] == 0 ? m : n, 0), hi = vec(c["third"] == 1 ? m : n, 4), st = vec(c["third"] == 2 ? m : n, 1);
          dim_index_iterator<std::size_t> it(lo, hi, st);
          (void)it;
        } else {
          blocking_pseudo_execution_policy<std::size_t> pol(n);
          auto level = [&](std::size_t blocks, std::size_t pars) {
#if PART == 4
            (void)pars;
            pol.add_blocking(vec(blocks, 2));
#else
            pol.add_blocking(vec(blocks, 2), std::vector<bool>(pars, c["par"] != 0));
#endif
          };
          for (std::int64_t l = 0; l < c["levels"]; ++l) level(n, n);
          if (kind == 1) level(m, n);
          if (kind == 2) level(n, m);
          if (kind == 0) {
            // one of the two has the iteration's dimension count
            auto lo = vec(c["third"] == 0 ? m : n, 0), hi = vec(c["third"] == 0 ? n : m, std::size_t(c["len"]));
            auto called = [](auto &&...) { _exit(13); };
#if PART == 4
            iterate_indices(pol, lo, hi, called);
#else
            with_dim(c["dim"], [&](auto d) {
              constexpr std::size_t D = decltype(d)::value;
              if constexpr (D <= 4) iterate_indices<D>(pol, lo, hi, called);
            });
#endif
          }
        }
      } catch (const std::exception &) {
        _exit(10);
      }
      _exit(12);
      return 0;
    });
    _exit(14);
  }
  int st = 0;
  waitpid(p, &st, 0);
  static const char *what[] = {"bounds of different lengths", "a level with another number of blocks", "a level with another number of parallel dimensions",
                               "an iterator over vectors of different lengths"};
  bool refused = (WIFEXITED(st) && (WEXITSTATUS(st) == 10 || WEXITSTATUS(st) == 11)) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
  if (!refused) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 12) fail(std::string(what[kind]) + ": accepted");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 13) fail(std::string(what[kind]) + ": not refused before the function was called");
    fail(std::string(what[kind]) + fmt(": neither an error nor termination (status %d)", st));
  }
  x.label(what[kind]);
  x.nontrivial = true;
}
#if PART <= 2
Case gen_blocked(Src &s) {
  Case c;
  gen_blocking(s, c, true);
  c.set("steps", s.range(0, 1));
  if (!c["steps"]) c.set("far2", 0);
  if (!c["steps"])
    for (std::int64_t d = 0; d < c["dim"]; ++d) c.set(key("st", d), 1);
  rt::gen_sched(s, c);
  return c;
}
void run_blocked(const Case &c, Ctx &x) {
  Blocking b(c);
  std::vector<Visit> got;
  std::vector<std::size_t> lo(b.lo.begin(), b.lo.end()), hi(b.hi.begin(), b.hi.end()), st(b.step.begin(), b.step.end());
  rt::Quiet q;
  rt::on_runtime(c, [&] {
    with_dim(c["dim"], [&](auto d) {
      constexpr std::size_t D = decltype(d)::value;
      if constexpr (D <= 4) {
        index_iterator::blocking_pseudo_execution_policy<std::size_t> pol(D);
        bool unit = true;
        for (auto v : st) unit = unit && v == 1;
        if (c["steps"] || !unit) pol.set_final_steps(st);
        for (std::size_t l = 0; l < b.block.size(); ++l) pol.add_blocking(b.block[l], b.par[l]);
        index_iterator::iterate_indices<D>(pol, lo, hi, [&](auto... i) {
          got.push_back({Point{std::int64_t(i)...}, vshim::item_path()});
        });
      }
    });
    return 0;
  });
  compare_set(got, b, true);
  block_labels(c, b, got.size(), x);
  rt::sched_labels(c, x);
  x.label_if(vshim::stats().par_chunks > 1, "several chunks");
}
#endif
#if PART == 4
Case gen_looped(Src &s) {
  Case c;
  gen_blocking(s, c, false);
  rt::gen_sched(s, c);
  return c;
}
void run_looped(const Case &c, Ctx &x) {
  Blocking b(c);
  std::vector<Visit> got;
  std::vector<std::size_t> lo(b.lo.begin(), b.lo.end()), hi(b.hi.begin(), b.hi.end());
  rt::Quiet q;
  rt::on_runtime(c, [&] {
    looped::blocking_pseudo_execution_policy<std::size_t> pol(lo.size());
    for (auto &l : b.block) pol.add_blocking(l);
    looped::iterate_indices(pol, lo, hi, [&](const std::vector<std::size_t> &i) { got.push_back({Point(i.begin(), i.end()), 0}); });
    return 0;
  });
  compare_set(got, b, false);
  block_labels(c, b, got.size(), x);
}
#endif
std::vector<Case> corpus_blocked(bool steps) {
  std::vector<Case> v;
  for (std::int64_t e = 0; e <= 7; ++e)
    for (std::int64_t f = 1; f <= 4; ++f)
      for (std::int64_t g = 1; g <= 3; ++g)
        for (std::int64_t p = 0; p < 4; ++p) {
          Case c = {{"dim", 2}, {"levels", 2}, {"lo0", p}, {"len0", e}, {"st0", steps ? 1 + p % 2 : 1}, {"lo1", 0}, {"len1", (e + g) % 6}, {"st1", 1},
                    {"f0_0", f}, {"f0_1", g}, {"f1_0", g}, {"f1_1", 2}, {"p0_0", p & 1}, {"p0_1", 0}, {"p1_0", p >> 1}, {"p1_1", (e + f) & 1}};
          if (steps) c.set("steps", 1);
          c.set("sched", (e + f + g) % 5);
          c.set("sseed", e * f);
          v.push_back(c);
        }
  return v;
}
#endif
}

std::vector<Target> pbt::targets() {
  std::vector<Target> t;
#if PART == 1
  t.push_back({"vector nest", gen_vnest, run_vnest, {}, [](const Case &c) { return valid_bounds(c, false); }});
  t.push_back({"blocked", gen_blocked, run_blocked, corpus_blocked(true), valid_blocking});
  t.push_back({"sizes", gen_sizes, run_sizes, {}, valid_sizes});
#elif PART == 2
  t.push_back({"layout vector nest", gen_vnest, run_vnest, {}, [](const Case &c) { return valid_bounds(c, false); }});
  t.push_back({"layout blocked", gen_blocked, run_blocked, corpus_blocked(true), valid_blocking});
  t.push_back({"layout sizes", gen_sizes, run_sizes, {}, valid_sizes});
#elif PART == 3
  t.push_back({"loop nest", gen_nest, run_nest, corpus_nest(), [](const Case &c) { return valid_bounds(c, c["form"] >= 2); }});
#elif PART == 4
  t.push_back({"looped blocked", gen_looped, run_looped, corpus_blocked(false), valid_blocking});
  t.push_back({"looped sizes", gen_sizes, run_sizes, {}, valid_sizes});
#elif PART == 5
  t.push_back({"looper", gen_looper, run_looper, {}, [](const Case &c) { return c["dim"] >= 1 && c["dim"] <= 4 && c["len"] >= 0 && (c["signed"] || c["lo"] >= 0); }});
#endif
  return threaded(t, {"loop nest"});
}
