// C05 combined, kernel_tiled, kernel_test
#include "mm.hpp"
#include "rt.hpp"
#include "region.hpp"
#include <omp.h>

#include "reference_kernels/kernel_test.hpp"
#include "reference_kernels/kernel_tiled.hpp"
#include "variants/combined.hpp"

using namespace pbt;
using namespace mm;

#ifndef MAXN
#define MAXN 260
#endif

namespace {
enum { COMBINED, TILED, TEST };

// kernel_test.cpp only works for these (see known-findings.txt: it lies under a
// name that may not be edited); everything else of it is excluded here
bool test_works(const Case &c) { return c["n"] % 4 == 0 && c["n"] >= 452 && c["n"] <= 512 && c["transposed"] == 0; }

Case gen(Src &s, int variant) {
  Case c;
  std::int64_t n;
  static const std::vector<std::int64_t> edges = {5,  8,   16,  32,  35,  64,  70,  105, 128, 140, 192, 210,
                                                  256, 280, 320, 384, 420, 455, 490, 512, 576, 640, 768, 840};
  std::vector<std::int64_t> e;
  for (auto v : edges)
    if (v <= MAXN) e.push_back(v);
  switch (s.range(0, 3)) {
  case 0: n = s.range(1, 12); break;
  case 1: n = s.range(1, MAXN < 300 ? MAXN : 300); break;
  default: n = oracle::gen_near(s, e, 1, 1, MAXN);
  }
  if (variant == TEST) n = s.chance(1, 4) ? 512 : 4 * s.range(113, 128);
  c.set("n", n);
  c.set("transposed", variant != TILED ? 0 : s.range(0, 1));
  c.set("reps", n > 300 ? s.pick({1, 1, 2}) : s.pick({1, 2, 2, 3}));
  c.set("calls", n > 300 ? 1 : s.pick({1, 1, 2}));
  c.set("verbose", s.pick({0, 0, 1, 2}));
  c.set("omp", s.range(1, 4));
  if (variant != COMBINED) region::gen(s, c);
  gen_contents(s, c);
  if (n <= 150) gen_again(s, c);
  if (variant == COMBINED) rt::gen_sched(s, c);
  return c;
}
bool valid(const Case &c) {
  return c["n"] >= 1 && c["reps"] >= 1 && c["calls"] >= 1 && c["omp"] >= 1 && valid_contents(c) && valid_again(c) && (!c.has("sched") || rt::valid_sched(c));
}
void run(const Case &c, Ctx &x, int variant) {
  std::size_t n = c["n"];
  bool tr = c["transposed"] != 0;
  std::uint64_t reps = c["reps"], verbose = c["verbose"];
  omp_set_num_threads(int(c["omp"]));
  rt::Quiet q;
  steps(c, x, [&](const Case &c, Mats &m, std::vector<double> &A, std::vector<double> &B) {
  std::vector<std::vector<double>> R;
  double duration = 0;
  if (variant == COMBINED) {
    R = rt::on_runtime(c, [&] {
      std::vector<std::vector<double>> r;
      combined::combined k(n, A, B, reps, verbose);
      for (int i = 0; i < c["calls"]; ++i) r.push_back(k.matrix_multiply(duration));
      return r;
    });
  } else if (variant == TILED) {
    kernel_tiled::kernel_tiled k(n, A, B, tr, reps, verbose);
    for (int i = 0; i < c["calls"]; ++i) region::call(c, [&] { R.push_back(k.matrix_multiply(duration)); });
  } else {
    kernel_test::kernel_test k(n, A, B, tr, reps, verbose);
    for (int i = 0; i < c["calls"]; ++i) region::call(c, [&] { R.push_back(k.matrix_multiply()); });
  }
  for (auto &C : R) verdict(m.ref, C);
  });
  content_label(c, x);
  if (variant == COMBINED) rt::sched_labels(c, x);
  else x.label(tr ? "B transposed" : "B plain");
  region::label(c, x);
  x.label_if(reps > 1, "repetitions");
  x.label_if(c["calls"] > 1, "second call on the same object");
  x.label_if(n > 256, "more than one outer block");
  x.label_if(n % 35 == 0 || n % 64 == 0, "size fills inner blocks");
  x.label_if(n % 64 == 1 || n % 64 == 63 || n % 35 == 1 || n % 35 == 34, "size next to a block multiple");
  x.nontrivial = n >= 2;
}
std::vector<Case> corpus(int variant) {
  std::vector<Case> v;
  if (MAXN > 300 && variant != TEST) {
    Case c = {{"n", 2}, {"transposed", 0}, {"reps", 256}, {"calls", 1}, {"verbose", 0}, {"omp", 2}, {"kind", oracle::INTS}, {"seed", 7}};
    if (variant == COMBINED) c.set("sched", 1), c.set("sseed", 1);
    v.push_back(c);
  }
  if (variant == TEST) {
    for (std::int64_t n : {452, 480, 508, 512})
      v.push_back({{"n", n}, {"transposed", 0}, {"reps", 1}, {"calls", 1}, {"verbose", 0}, {"omp", 2}, {"kind", n % 3 ? oracle::INTS : oracle::ENUM}, {"seed", n}});
    return v;
  }
  for (std::int64_t n : {1, 2, 3, 4, 5, 8, 9, 16, 17, 35, 36, 63, 64, 65, 70, 71, 128, 129, 140, 255, 256, 257, 260, 419, 420, 421, 511, 512, 513}) {
    if (n > MAXN) continue;
    if (MAXN > 300 && n < 60) continue;
    Case c = {{"n", n}, {"transposed", variant == COMBINED ? 0 : n % 2}, {"reps", 1 + (n <= 300)}, {"calls", 1}, {"verbose", 0}, {"omp", 2}, {"kind", n % 3 ? oracle::INTS : oracle::ENUM}, {"seed", n}};
    if (variant == COMBINED) {
      c.set("sched", n % 5);
      c.set("sseed", n);
    }
    v.push_back(c);
  }
  return v;
}
Target target(const char *name, int variant) {
  return {name, [variant](Src &s) { return gen(s, variant); }, [variant](const Case &c, Ctx &x) { run(c, x, variant); }, corpus(variant),
          [variant](const Case &c) { return valid(c) && (variant != TEST || test_works(c)); }};
}
}

std::vector<Target> pbt::targets() {
  return {target("combined", COMBINED), target("kernel_tiled", TILED), target("kernel_test", TEST)};
}
