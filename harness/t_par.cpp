// C04 algorithms, looped, semi
#include "mm.hpp"
#include "rt.hpp"

#include "variants/algorithms.hpp"
#include "variants/looped.hpp"
#include "variants/semi.hpp"

using namespace pbt;
using namespace mm;

#ifndef MAXN
#define MAXN 70
#endif

namespace {
enum { ALGORITHMS, LOOPED, SEMI };

Case gen(Src &s, int variant) {
  Case c;
  std::int64_t n;
  if (s.chance(1, 150)) {
    n = s.chance(1, 3) ? oracle::gen_near(s, {256}, 60, 1, 316) : s.range(MAXN + 1, 2 * MAXN);
  } else switch (s.range(0, 3)) {
  case 0: n = s.range(1, 9); break;
  case 1: n = oracle::gen_near(s, {4, 8, 16, 32, 64}, 2, 1, MAXN); break;
  case 2: n = s.range(1, 24); break;
  default: n = s.range(1, MAXN);
  }
  c.set("n", n);
  // small blocks of a large matrix only cost time
  std::int64_t least = n <= 20 ? 1 : n <= 40 ? 2 : n <= MAXN ? 4 : n <= 2 * MAXN ? 8 : 32;
  auto block = [&](std::int64_t lo, std::int64_t off) {
    std::int64_t v;
    if (s.chance(1, 40)) return gen_vast(s);
    switch (s.range(0, 4)) {
    case 0: v = std::int64_t(1) << s.range(0, 7); break;
    case 1: v = s.range(1, n); break;
    case 2: v = s.range(n > 2 ? n - 2 : 1, n + 2); break;
    case 3: v = s.range(1, 2 * n + 3); break;
    default: return off;
    }
    return v < lo ? lo : v;
  };
  c.set("br", block(least, 0));
  c.set("bi", block(variant == SEMI ? 1 : least, 128));
  gen_contents(s, c);
  gen_again(s, c);
  rt::gen_sched(s, c);
  return c;
}
bool valid(const Case &c) {
  return c["n"] >= 1 && c["br"] >= 0 && c["bi"] >= 1 && valid_contents(c) && valid_again(c) && rt::valid_sched(c);
}
void run(const Case &c, Ctx &x, int variant) {
  Case d = c;
  d.set("transposed", 1);
  std::size_t n = c["n"], br = c["br"], bi = c["bi"];
  rt::Quiet q;
  steps(d, x, [&](const Case &c, Mats &m, std::vector<double> &A, std::vector<double> &B) {
  std::vector<double> C = rt::on_runtime(c, [&]() -> std::vector<double> {
    if (variant == ALGORITHMS) {
      algorithms::algorithms a(n, A, B, bi, br);
      return a.matrix_multiply();
    }
    if (variant == LOOPED) {
      looped::looped a(n, A, B, br, bi);
      return a.matrix_multiply();
    }
    semi::semi a(n, A, B, br, bi);
    return a.matrix_multiply();
  });
  verdict(m.ref, C);
  });
  content_label(c, x);
  rt::sched_labels(c, x);
  x.label_if(br == 0, "result block disabled");
  x.label_if(br > n, "result block larger than matrix");
  x.label_if(br && n % br, "result block not dividing");
  x.label_if(bi > n, "input block larger than matrix");
  x.label_if(n % bi != 0, "input block not dividing");
  x.label_if(n % 4 != 0, "size not a multiple of 4");
  x.label_if(vshim::stats().par_chunks > 1, "several chunks");
  x.nontrivial = n >= 2 && ((br && n % br) || n % bi || n % 4 || vshim::stats().par_chunks > 1);
}
std::vector<Case> corpus() {
  std::vector<Case> v;
  for (std::int64_t n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13})
    for (std::int64_t br : {0, 1, 2, 3, 4, 5, 8, 16})
      for (std::int64_t bi : {1, 2, 3, 4, 7, 8, 16})
        v.push_back({{"n", n}, {"br", br}, {"bi", bi}, {"kind", (n + br + bi) % 3 ? oracle::INTS : oracle::ENUM}, {"seed", n + br}, {"sched", (n + bi) % 5}, {"sseed", br}});
  return v;
}
Target target(const char *name, int variant) {
  return {name, [variant](Src &s) { return gen(s, variant); }, [variant](const Case &c, Ctx &x) { run(c, x, variant); }, corpus(), valid};
}
}

std::vector<Target> pbt::targets() {
  return {target("algorithms", ALGORITHMS), target("looped", LOOPED), target("semi", SEMI)};
}
