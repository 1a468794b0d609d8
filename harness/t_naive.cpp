// C06 naive reference multiplication
#include "mm.hpp"
#include "threads.hpp"
#include "region.hpp"
#include <cstdint>
#include <exception>
#include <omp.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "reference_kernels/naive.hpp"

using namespace pbt;
using namespace mm;

namespace {
enum { F64, F32, I32, I64, U64, U32, I16, U8, I8, TYPES };
const char *tname[] = {"double", "float", "int32", "int64", "uint64", "uint32", "int16", "uint8", "int8"};

void gen_shape(Src &s, Case &c) {
  std::int64_t n;
  if (s.chance(1, 100)) {
#ifdef THREADED
    n = s.range(66, 120);
#else
    n = s.chance(1, 8) ? oracle::gen_near(s, {256, 512}, 40, 1, 552) : s.range(66, 200);
#endif
  } else switch (s.range(0, 3)) {
  case 0: n = s.range(0, 5); break;
  case 1: n = oracle::gen_near(s, {8, 16, 32, 64}, 1, 0, 65); break;
  default: n = s.range(0, 40);
  }
  c.set("n", n);
  c.set("transposed", s.range(0, 1));
  c.set("threads", s.range(1, 8));
  region::gen(s, c);
}
bool valid(const Case &c) {
  return c["n"] >= 0 && c["threads"] >= 1 && valid_contents(c) && valid_again(c) && c["type"] >= 0 && c["type"] < TYPES;
}
template <typename T> std::vector<T> call(const Case &c, std::vector<T> &A, std::vector<T> &B) {
  omp_set_num_threads(int(c["threads"]));
  std::vector<T> C;
  region::call(c, [&] { C = c["transposed"] ? naive_matrix_multiply_transposed<T>(c["n"], A, B) : naive_matrix_multiply<T>(c["n"], A, B); });
  return C;
}
template <typename T> std::vector<T> flip(const std::vector<T> &m, std::size_t n) {
  std::vector<T> t(n * n);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j) t[j * n + i] = m[i * n + j];
  return t;
}
// exact element types: every value and partial sum representable (or modular)
template <typename T> void exact(const Case &c, std::uint64_t span, bool is_signed) {
  std::size_t n = c["n"];
  std::vector<T> A(n * n), B(n * n), Bs(n * n);
  for (std::int64_t step = 0; step <= c.get("again", 0); ++step) {
  Stream s(c["seed"] + 7919 * step);
  auto draw = [&]() -> T {
    if (!is_signed) return T(s.next());
    return T(s.in(-std::int64_t(span), std::int64_t(span)));
  };
  for (auto &v : A) v = draw();
  for (auto &v : B) v = draw();
  if (same(c)) B = c["transposed"] ? flip(A, n) : A;
  std::vector<std::uint64_t> want(n * n, 0); // modulo 2^64
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j)
      for (std::size_t k = 0; k < n; ++k)
        want[i * n + j] += std::uint64_t(std::int64_t(A[i * n + k])) * std::uint64_t(std::int64_t(B[k * n + j]));
  std::vector<T> stored = c["transposed"] ? flip(B, n) : B;
  std::copy(stored.begin(), stored.end(), Bs.begin());
  std::vector<T> A0 = A, B0 = Bs;
  std::vector<T> C = call<T>(c, A, same(c) ? A : Bs);
  if (C.size() != n * n) fail(fmt("result has %zu components instead of %zu", C.size(), n * n));
  for (std::size_t i = 0; i < n * n; ++i)
    if (C[i] != T(std::int64_t(want[i])))
      fail(fmt("component (%zu,%zu): got %.17g, product is %.17g (%s)", i / n, i % n, double(C[i]), double(T(std::int64_t(want[i]))), tname[c["type"]]));
  if (A != A0 || Bs != B0) fail("an input matrix was modified");
  }
}
template <> void exact<std::uint64_t>(const Case &c, std::uint64_t, bool) {
  std::size_t n = c["n"];
  Stream s(c["seed"]);
  std::vector<std::uint64_t> A(n * n), B(n * n), want(n * n, 0);
  for (auto &v : A) v = s.next();
  for (auto &v : B) v = s.next();
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j)
      for (std::size_t k = 0; k < n; ++k) want[i * n + j] += A[i * n + k] * B[k * n + j];
  auto Bs = c["transposed"] ? flip(B, n) : B;
  auto A0 = A, B0 = Bs;
  auto C = call<std::uint64_t>(c, A, Bs);
  if (C != want) fail("product modulo 2^64 is wrong");
  if (A != A0 || Bs != B0) fail("an input matrix was modified");
}

Case gen_product(Src &s) {
  Case c;
  gen_shape(s, c);
  c.set("type", s.pick({F64, F64, F64, F64, F32, I32, I64, U64, U32, I16, U8, I8}));
  gen_contents(s, c);
  gen_again(s, c);
  c.set("special", c["type"] <= F32 && s.chance(1, 12));
  return c;
}
void run_product(const Case &c, Ctx &x) {
  std::size_t n = c["n"];
  if (c.get("special", 0) && c["type"] == F64) special<double>(c, 0, 0, n, [&](auto &A, auto &B) { return call<double>(c, A, B); });
  else if (c.get("special", 0) && c["type"] == F32) special<float>(c, 0, 0, n, [&](auto &A, auto &B) { return call<float>(c, A, B); });
  else switch (c["type"]) {
  case F64: {
    steps(c, x, [&](const Case &c, Mats &m, std::vector<double> &A, std::vector<double> &B) { verdict(m.ref, call<double>(c, A, B)); });
    content_label(c, x);
    break;
  }
  case F32: exact<float>(c, 99, true); break;
  case I32: exact<std::int32_t>(c, 2000, true); break;
  case I64: exact<std::int64_t>(c, 1 << 27, true); break;
  case U32: exact<std::uint32_t>(c, 0, false); break;
  case I16: exact<std::int16_t>(c, 32000, true); break;
  case U8: exact<std::uint8_t>(c, 0, false); break;
  case I8: exact<std::int8_t>(c, 127, true); break;
  default: exact<std::uint64_t>(c, 0, false);
  }
  x.label_if(c.get("special", 0), "infinities and NaNs");
  x.label(std::string("type:") + tname[c["type"]]);
  x.label(c["transposed"] ? "B transposed" : "B plain");
  x.label_if(c["threads"] > 1, "several threads");
  region::label(c, x);
  x.label_if(c["n"] == 0, "empty matrix");
  x.label_if(c["threads"] > c["n"], "more threads than rows");
  x.nontrivial = c["n"] >= 2;
}
std::vector<Case> corpus_product() {
  std::vector<Case> v;
  for (std::int64_t n = 0; n <= 12; ++n)
    for (std::int64_t ty = 0; ty < TYPES; ++ty)
      for (std::int64_t t : {0, 1})
        v.push_back({{"n", n}, {"transposed", t}, {"threads", 1 + (n + ty) % 4}, {"type", ty}, {"kind", n % 2 ? oracle::ENUM : oracle::INTS}, {"seed", n * 7 + ty}});
  return v;
}

#ifdef THREADED
// Several threads multiply the same operands.
template <typename T> void shared_product(const Case &c) {
  std::size_t n = c["n"], callers = c["callers"];
  std::vector<T> A(n * n), B(n * n), want(n * n, T(0));
  Stream s(c["seed"]);
  for (auto &v : A) v = T(s.in(-50, 50));
  for (auto &v : B) v = T(s.in(-50, 50));
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j)
      for (std::size_t k = 0; k < n; ++k) want[i * n + j] += A[i * n + k] * (c["transposed"] ? B[j * n + k] : B[k * n + j]);
  std::vector<T> A0 = A, B0 = B;
  std::vector<std::vector<T>> C(callers);
  std::vector<std::thread> th;
  std::atomic<std::size_t> ready{0};
  for (std::size_t h = 0; h < callers; ++h)
    th.emplace_back([&, h] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < callers) std::this_thread::yield();
      C[h] = call<T>(c, A, B);
    });
  for (auto &h : th) h.join();
  for (std::size_t h = 0; h < callers; ++h)
    if (C[h] != want) fail(fmt("thread %zu of %zu: not the product", h, callers));
  if (A != A0 || B != B0) fail("an input matrix was modified");
}
Case gen_shared(Src &s) {
  Case c;
  c.set("n", s.range(0, 40));
  c.set("transposed", s.range(0, 1));
  c.set("threads", s.range(1, 3));
  c.set("callers", s.range(2, 4));
  c.set("type", s.pick({F64, I64}));
  c.set("seed", s.range(0, 9999));
  return c;
}
void run_shared(const Case &c, Ctx &x) {
  if (c["type"] == F64) shared_product<double>(c);
  else shared_product<std::int64_t>(c);
  x.label(fmt("callers:%d", int(c["callers"])));
  x.nontrivial = c["n"] >= 2;
}
#endif
// too small operands: an error or termination, never a read outside or a result
Case gen_short(Src &s) {
  Case c;
  c.set("n", s.chance(1, 12) ? s.range(13, 150) : s.range(1, 12));
  c.set("transposed", s.range(0, 1));
  c.set("threads", s.range(1, 4));
  c.set("missingA", s.range(0, 3));
  c.set("missingB", s.range(0, 3));
  // the size is n multiples of 2^32, whose square is 0 in 64 bits; operands of a few components
  c.set("wrap", s.chance(1, 10));
  if (c["missingA"] == 0 && c["missingB"] == 0) c.set(s.range(0, 1) ? "missingA" : "missingB", s.range(1, 200));
  return c;
}
bool valid_short(const Case &c) {
  return c["n"] >= 1 && c["threads"] >= 1 && c["missingA"] >= 0 && c["missingB"] >= 0 && c["missingA"] + c["missingB"] >= 1;
}
void run_short(const Case &c, Ctx &x) {
  std::int64_t nn = c["n"] * c["n"];
  std::int64_t a = nn - c["missingA"], b = nn - c["missingB"];
  Case d = c;
  if (c.get("wrap", 0)) d.set("n", c["n"] << 32);
  std::fflush(nullptr);
  pid_t p = fork();
  if (p < 0) std::abort();
  if (p == 0) {
    // the first parallel region of this process
    std::set_terminate([] { _exit(11); });
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    try {
      std::vector<double> A(std::size_t(a < 0 ? 0 : a), 1.0), B(std::size_t(b < 0 ? 0 : b), 1.0);
      A.shrink_to_fit();
      B.shrink_to_fit();
      call<double>(d, A, B);
    } catch (const std::exception &) {
      _exit(10);
    }
    _exit(12);
  }
  int st = 0;
  waitpid(p, &st, 0);
  bool refused = (WIFEXITED(st) && (WEXITSTATUS(st) == 10 || WEXITSTATUS(st) == 11)) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
  if (!refused) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 12) fail("operands too small, but a result was returned");
    fail(fmt("operands too small: neither an error nor termination, but an access outside of them (status %d)", st));
  }
  x.label(WIFEXITED(st) && WEXITSTATUS(st) == 10 ? "exception" : "terminated");
  x.label_if(c.get("wrap", 0), "size whose square does not fit");
  x.nontrivial = c["n"] >= 2;
}
}

std::vector<Target> pbt::targets() {
  std::vector<Target> t = {{"naive", gen_product, run_product, corpus_product(), valid}, {"short operands", gen_short, run_short, {}, valid_short}};
#ifdef THREADED
  t.push_back({"shared operands", gen_shared, run_shared, {}, [](const Case &c) { return c["n"] >= 0 && c["callers"] >= 2 && c["callers"] <= 8 && c["threads"] >= 1 && c["threads"] <= 8; }});
#endif
  return threaded(t, {"naive"});
}
