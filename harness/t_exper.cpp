// C11 optimisation experiments (otherExperiments/), built with the flags of
// their Makefile.  MAXN bounds the sizes.
#include "mm.hpp"
#include "region.hpp"

#include <cstdint>
#include <cstdlib>
#include <omp.h>

#include "otherExperiments/mult.hpp"

#ifndef MAXN
#define MAXN 512
#endif
using namespace pbt;

namespace {
struct Variant {
  const char *name;
  void (*f)(double *, double *, double *, const uint32_t);
  bool transposed;
  std::int64_t div;
};
const Variant V[] = {{"naive", multNaive, false, 1},           {"transposed", multTransposed, true, 1},
                     {"counter", multCounter, true, 1},        {"blocked2", multBlocked2, true, 2},
                     {"blocked4", multBlocked4, true, 4},      {"asm", multASM, true, 4},
                     {"exchanged", multExchanged, false, 128}, {"intrinLoop", multIntrinLoop, false, 128},
                     {"gpu", multGPU, true, 128},              {"register", multRegister, false, 256},
                     {"gpuasm", multGPUASM, true, 256}};

// 64-byte aligned array of exactly n*n doubles between two guard zones
struct Guarded {
  static const std::size_t G = 512;
  std::vector<double> v;
  double *p;
  std::size_t n;
  explicit Guarded(std::size_t n) : v(n + 2 * G + 8), n(n) {
    std::uintptr_t a = (std::uintptr_t(v.data() + G) + 63) / 64 * 64;
    p = reinterpret_cast<double *>(a);
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = mark(i);
  }
  static double mark(std::size_t i) { return 12345.0 + double(i % 97); }
  void check(const char *what) const {
    for (std::size_t i = 0; i < v.size(); ++i) {
      const double *q = v.data() + i;
      if (q >= p && q < p + n) continue;
      if (v[i] != mark(i)) fail(fmt("written outside %s, %ld components from its start", what, long(q - p)));
    }
  }
};

Case gen_for(Src &s, std::size_t k) {
  Case c;
  std::int64_t d = V[k].div;
  if (d <= 4 && MAXN > 256 && s.chance(1, 400)) c.set("n", d * s.range(130 / d, 400 / d));
  else if (d == 1) c.set("n", s.chance(1, 20) ? s.range(1, 130) : s.range(1, 40));
  else if (d <= 4) c.set("n", d * (s.chance(1, 20) ? s.range(1, 128 / d) : s.range(1, 48 / d)));
  else if (MAXN > 256 && s.chance(1, 16)) c.set("n", d * s.range(513 / d + 1, 768 / d));
  else c.set("n", d * s.range(1, MAXN / d));
  c.set("threads", s.chance(1, 20) ? s.range(9, 40) : s.range(1, 8));
  region::gen(s, c);
  mm::gen_contents(s, c);
  if (c["n"] <= 256) mm::gen_again(s, c);
  return c;
}
void run_for(const Case &c, Ctx &x, std::size_t k) {
  const Variant &v = V[k];
  std::size_t n = std::size_t(c["n"]);
  Case d = c;
  d.set("transposed", v.transposed);
  Guarded A(n * n), B(n * n), C(n * n);
  for (std::int64_t step = 0; step <= c.get("again", 0); ++step) {
  mm::Mats m(mm::step_case(d, step));
  std::copy(m.A.begin(), m.A.end(), A.p);
  std::copy(m.Bs.begin(), m.Bs.end(), B.p);
  std::fill(C.p, C.p + n * n, 0.0);
  omp_set_num_threads(int(c["threads"]));
  region::call(c, [&] { v.f(A.p, mm::same(c) ? A.p : B.p, C.p, std::uint32_t(n)); });
  A.check("A");
  B.check("B");
  C.check("the result");
  if (std::memcmp(A.p, m.A.data(), n * n * sizeof(double))) fail("A was modified");
  if (std::memcmp(B.p, m.Bs.data(), n * n * sizeof(double))) fail("B was modified");
  mm::verdict(m.ref, std::vector<double>(C.p, C.p + n * n));
  }
  x.label_if(c.get("again", 0) > 0, "storage used again with other contents");
  mm::content_label(c, x);
  x.label(fmt("threads:%d", int(c["threads"])));
  region::label(c, x);
  x.label_if(v.div > 4, fmt("n:%zu", n));
  x.nontrivial = n >= 2;
}
bool valid_for(const Case &c, std::size_t k) {
  return c["n"] >= 1 && c["n"] % V[k].div == 0 && c["threads"] >= 1 && c["threads"] <= 64 && mm::valid_contents(c) && mm::valid_again(c);
}
}

std::vector<Target> pbt::targets() {
  std::vector<Target> t;
  for (std::size_t k = 0; k < sizeof V / sizeof V[0]; ++k) {
    std::vector<Case> corpus;
    for (std::int64_t i = 1; i <= (V[k].div == 1 ? 20 : V[k].div <= 4 ? 10 : MAXN / V[k].div); ++i)
      corpus.push_back({{"n", V[k].div * i}, {"threads", 1 + i % 8}, {"kind", i % oracle::KINDS}, {"seed", i}});
    if (MAXN > 256 && V[k].div == 256) corpus.push_back({{"n", 768}, {"threads", 5}, {"kind", oracle::ENUM}, {"seed", 3}});
    t.push_back({V[k].name, [k](Src &s) { return gen_for(s, k); }, [k](const Case &c, Ctx &x) { run_for(c, x, k); }, corpus,
                 [k](const Case &c) { return valid_for(c, k); }});
  }
  return t;
}
