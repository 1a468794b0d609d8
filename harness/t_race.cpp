// C13 freedom from data races: real threads under ThreadSanitizer.
//
// Tasks and parallel loops run on std::thread (shim, VSHIM_THREADS), OpenMP on
// minigomp.cpp.  A race ends the process, which the engine reports.
#include "mm.hpp"
#include "rt.hpp"

#include <omp.h>

#if PART == 1
#include "variants/algorithms.hpp"
#include "variants/looped.hpp"
#include "variants/pseudodynamic.hpp"
#include "variants/semi.hpp"
#include "variants/single.hpp"
#elif PART == 2
#include "reference_kernels/kernel_test.hpp"
#include "reference_kernels/kernel_tiled.hpp"
#include "variants/combined.hpp"
#elif PART == 3
#include "otherExperiments/mult.hpp"
#include "reference_kernels/naive.hpp"
#endif

using namespace pbt;

namespace {
void threads(const Case &c) {
  auto &k = vshim::cfg();
  k.threads = unsigned(c["threads"]);
  omp_set_num_threads(int(c["threads"]));
}
// the product is decided by other properties
void outcome(const mm::Mats &m, const std::vector<double> &C, Ctx &x) {
  x.label_if(!oracle::compare(m.ref, C.data(), C.size()).empty(), "wrong product");
}
void labels(const Case &c, Ctx &x, bool nontrivial) {
  x.label(fmt("threads:%d", int(c["threads"])));
  x.nontrivial = nontrivial;
}
#if PART == 1
// ---------------------------------------------------------------- tasks
Case gen_task(Src &s, bool dist) {
  Case c;
  std::int64_t n = oracle::gen_pow2(s, 1, 5);
  c.set("n", n);
  c.set("transposed", s.range(0, 1));
  // at most 85 tasks
  std::int64_t lo = 0;
  while ((n >> lo) > 8) ++lo;
  c.set("br", s.chance(1, 8) ? 0 : std::int64_t(1) << s.range(lo, 5));
  c.set("bi", s.chance(1, 3) ? 0 : std::int64_t(1) << s.range(0, 5));
  c.set("reps", s.range(1, 2));
  c.set("threads", s.range(2, 8));
  c.set("verbose", s.chance(1, 6) ? s.range(1, 2) : 0);
  c.set("locs", dist ? s.range(1, 4) : 1);
  c.set("minwork", dist ? s.range(1, 64) : 1);
  c.set("kind", 0);
  c.set("seed", s.range(0, 999));
  return c;
}
bool valid_task(const Case &c) {
  std::int64_t n = c["n"], b = c["br"];
  return n >= 1 && !(n & (n - 1)) && n <= 32 && (b == 0 || n / b <= 8) && b >= 0 && c["reps"] >= 1 && c["threads"] >= 2 && c["locs"] >= 1 && c["locs"] <= 4 &&
         (c["bi"] & (c["bi"] - 1)) == 0 && (b & (b - 1)) == 0;
}
void run_task(const Case &c, Ctx &x, bool dist) {
  mm::Mats m(c);
  rt::Quiet q;
  std::vector<double> A = m.A, B = m.Bs;
  rt::configure(c);
  threads(c);
  std::vector<double> C = rt::on_runtime(c, [&] {
    std::size_t n = std::size_t(c["n"]), br = std::size_t(c["br"]), bi = std::size_t(c["bi"]), reps = std::size_t(c["reps"]), v = std::size_t(c["verbose"]);
    if (dist) {
      pseudodynamic::pseudodynamic p(n, A, B, c["transposed"] != 0, br, bi, std::size_t(c["minwork"]), 0, 0.0, reps, v);
      return p.matrix_multiply();
    }
    single::single p(n, A, B, c["transposed"] != 0, br, bi, reps, v);
    return p.matrix_multiply();
  });
  outcome(m, C, x);
  x.label_if(c["locs"] > 1, "several nodes");
  bool several = c["br"] > 0 && c["br"] < c["n"];
  x.label_if(several, "several tasks");
  labels(c, x, several);
}
// ---------------------------------------------------------------- loops
Case gen_loop(Src &s) {
  Case c;
  c.set("n", s.range(2, 28));
  c.set("transposed", 1);
  c.set("br", s.chance(1, 8) ? 0 : s.range(1, 16));
  c.set("bi", s.range(1, 16));
  c.set("threads", s.range(2, 8));
  c.set("kind", 0);
  c.set("seed", s.range(0, 999));
  return c;
}
bool valid_loop(const Case &c) { return c["n"] >= 1 && c["br"] >= 0 && c["bi"] >= 1 && c["threads"] >= 2; }
void run_loop(const Case &c, Ctx &x, int what) {
  mm::Mats m(c);
  rt::Quiet q;
  std::vector<double> A = m.A, B = m.Bs;
  std::size_t n = std::size_t(c["n"]), br = std::size_t(c["br"]), bi = std::size_t(c["bi"]);
  std::vector<double> C = rt::on_runtime(c, [&] {
    threads(c);
    if (what == 0) {
      algorithms::algorithms p(n, A, B, bi, br);
      return p.matrix_multiply();
    }
    if (what == 1) {
      looped::looped p(n, A, B, br, bi);
      return p.matrix_multiply();
    }
    semi::semi p(n, A, B, br, bi);
    return p.matrix_multiply();
  });
  outcome(m, C, x);
  labels(c, x, c["br"] > 0 && c["br"] < c["n"]);
}
#elif PART == 2
Case gen_padded(Src &s, int what) {
  Case c;
  // kernel_test: see t_padded.cpp
  c.set("n", what == 2 ? 4 * s.range(113, 128) : s.chance(1, 6) ? s.range(1, 256) : s.chance(1, 2) ? s.range(257, 420) : s.range(421, 560)); // several blocks in x or y
  c.set("transposed", s.range(0, 1));
  c.set("reps", s.chance(1, 4) ? 2 : 1);
  c.set("threads", s.range(2, 4));
  c.set("kind", 0);
  c.set("seed", s.range(0, 999));
  return c;
}
bool valid_padded(const Case &c) { return c["n"] >= 1 && c["reps"] >= 1 && c["threads"] >= 2; }
void run_padded(const Case &c0, Ctx &x, int what) {
  Case c = c0;
  if (what != 1) c.set("transposed", 0);
  mm::Mats m(c);
  rt::Quiet q;
  std::vector<double> A = m.A, B = m.Bs, C;
  std::size_t n = std::size_t(c["n"]), reps = std::size_t(c["reps"]);
  double d = 0;
  if (what == 0)
    C = rt::on_runtime(c, [&] {
      threads(c);
      combined::combined p(n, A, B, reps, 0);
      return p.matrix_multiply(d);
    });
  else {
    threads(c);
    if (what == 1) {
      kernel_tiled::kernel_tiled p(n, A, B, c["transposed"] != 0, reps, 0);
      C = p.matrix_multiply(d);
    } else {
      kernel_test::kernel_test p(n, A, B, c["transposed"] != 0, reps, 0);
      C = p.matrix_multiply();
    }
  }
  outcome(m, C, x);
  x.label(n > 420 ? "several blocks in x and y" : n > 256 ? "several blocks in y" : "one block");
  labels(c, x, n > 256);
}
#elif PART == 3
Case gen_naive(Src &s) {
  Case c;
  c.set("n", s.range(2, 40));
  c.set("transposed", s.range(0, 1));
  c.set("threads", s.range(2, 8));
  c.set("kind", 0);
  c.set("seed", s.range(0, 999));
  return c;
}
bool valid_naive(const Case &c) { return c["n"] >= 1 && c["threads"] >= 2; }
void run_naive(const Case &c, Ctx &x) {
  mm::Mats m(c);
  rt::Quiet q;
  threads(c);
  std::vector<double> A = m.A, B = m.Bs, C;
  std::size_t n = std::size_t(c["n"]);
  C = c["transposed"] ? naive_matrix_multiply_transposed(n, A, B) : naive_matrix_multiply(n, A, B);
  outcome(m, C, x);
  labels(c, x, true);
}
struct Variant {
  const char *name;
  void (*f)(double *, double *, double *, const uint32_t);
  bool transposed;
  std::int64_t div;
};
const Variant V[] = {{"experiment naive", multNaive, false, 1},         {"experiment transposed", multTransposed, true, 1},
                     {"counter", multCounter, true, 1},                 {"blocked2", multBlocked2, true, 2},
                     {"blocked4", multBlocked4, true, 4},               {"asm", multASM, true, 4},
                     {"exchanged", multExchanged, false, 128},          {"intrinLoop", multIntrinLoop, false, 128},
                     {"gpu", multGPU, true, 128},                       {"register", multRegister, false, 256},
                     {"gpuasm", multGPUASM, true, 256}};
const std::size_t NV = sizeof V / sizeof V[0];
Case gen_exper(Src &s, std::size_t k) {
  Case c;
  std::int64_t d = V[k].div;
  c.set("n", d >= 128 ? (d == 256 ? 512 : 256) : d * s.range(std::max<std::int64_t>(1, 2 / d), 48 / d));
  c.set("threads", s.range(2, 8));
  c.set("kind", 0);
  c.set("seed", s.range(0, 999));
  return c;
}
void run_exper(const Case &c0, Ctx &x, std::size_t k) {
  Case c = c0;
  c.set("transposed", V[k].transposed);
  mm::Mats m(c);
  std::size_t n = std::size_t(c["n"]);
  std::vector<double> sa(n * n + 8), sb(n * n + 8), sc(n * n + 8);
  auto al = [](std::vector<double> &v) { return reinterpret_cast<double *>((std::uintptr_t(v.data()) + 63) / 64 * 64); };
  double *A = al(sa), *B = al(sb), *C = al(sc);
  std::copy(m.A.begin(), m.A.end(), A);
  std::copy(m.Bs.begin(), m.Bs.end(), B);
  std::fill(C, C + n * n, 0.0);
  threads(c);
  V[k].f(A, B, C, std::uint32_t(n));
  outcome(m, std::vector<double>(C, C + n * n), x);
  labels(c, x, true);
}
#endif
}

std::vector<Target> pbt::targets() {
  std::vector<Target> t;
#if PART == 1
  t.push_back({"single", [](Src &s) { return gen_task(s, false); }, [](const Case &c, Ctx &x) { run_task(c, x, false); }, {}, valid_task});
  t.push_back({"pseudodynamic", [](Src &s) { return gen_task(s, true); }, [](const Case &c, Ctx &x) { run_task(c, x, true); }, {}, valid_task});
  static const char *n[] = {"algorithms", "looped", "semi"};
  for (int k = 0; k < 3; ++k) t.push_back({n[k], gen_loop, [k](const Case &c, Ctx &x) { run_loop(c, x, k); }, {}, valid_loop});
#elif PART == 2
  static const char *n[] = {"combined", "kernel_tiled", "kernel_test"};
  for (int k = 0; k < 3; ++k) t.push_back({n[k], [k](Src &s) { return gen_padded(s, k); }, [k](const Case &c, Ctx &x) { run_padded(c, x, k); }, {},
                 [k](const Case &c) { return valid_padded(c) && (k != 2 || (c["n"] % 4 == 0 && c["n"] >= 452 && c["n"] <= 512)); }});
#elif PART == 3
  t.push_back({"naive", gen_naive, run_naive, {}, valid_naive});
  for (std::size_t k = 0; k < NV; ++k)
    t.push_back({V[k].name, [k](Src &s) { return gen_exper(s, k); }, [k](const Case &c, Ctx &x) { run_exper(c, x, k); }, {},
                 [k](const Case &c) { return c["n"] >= 1 && c["n"] % V[k].div == 0 && c["threads"] >= 2; }});
#endif
  return t;
}
