// C07 block kernels and the multiplier component
#include "mm.hpp"
#include "rt.hpp"
#include "threads.hpp"
#include <type_traits>

#include "reference_kernels/kernel.hpp"
#include "variants/components/multiplier.hpp"

using namespace pbt;
using namespace mm;

namespace {
enum { PLAIN, TRANSPOSED, BLOCKED };
enum { F64, F32, I64, I32, U8, TYPES };
const char *kname[] = {"kernel", "kernel_transposed", "kernel_transposed_blocked"};

void gen_place(Src &s, Case &c, bool four) {
  std::int64_t n = s.chance(1, 3) ? s.range(1, 10) : s.chance(1, 80) ? s.range(41, 160) : s.range(1, 40);
  if (four && n < 4) n = 4;
  if (s.chance(1, 400)) n = s.range(161, 700);
  std::int64_t b, most = n <= 160 ? n : 48;
  if (four) b = 4 * s.range(1, most / 4);
  else b = s.chance(1, 4) ? most : s.range(1, most);
  c.set("n", n);
  c.set("b", b);
  c.set("x", s.chance(1, 3) ? n - b : s.range(0, n - b));
  c.set("y", s.chance(1, 3) ? n - b : s.range(0, n - b));
}
std::int64_t gen_input_block(Src &s, std::int64_t n) {
  if (s.chance(1, 40)) return gen_vast(s);
  switch (s.range(0, 3)) {
  case 0: return s.range(1, 4);
  case 1: return s.range(1, n);
  case 2: return s.range(n > 2 ? n - 1 : 1, n + 2);
  default: return s.range(1, 3 * n);
  }
}
bool valid_place(const Case &c) {
  return c["n"] >= 1 && c["b"] >= 1 && c["x"] >= 0 && c["y"] >= 0 && c["x"] + c["b"] <= c["n"] && c["y"] + c["b"] <= c["n"];
}
Case gen_kernel(Src &s, int k) {
  Case c;
  gen_place(s, c, k == BLOCKED);
  c.set("bi", k == BLOCKED ? gen_input_block(s, c["n"]) : 1);
  c.set("type", s.pick({F64, F64, F64, F32, I64, I32, U8}));
  gen_contents(s, c);
  gen_again(s, c);
  if (c["n"] > 160) c.set("type", s.pick({F32, I64, I32, U8})); // only the block is computed
  if (c["n"] > 160) c.set("again", 0);
  c.set("special", c["n"] <= 160 && c["type"] <= F32 && s.chance(1, 12));
  return c;
}
template <typename T> void call(int k, const Case &c, std::vector<T> &A, std::vector<T> &B, std::vector<T> &C) {
  std::size_t n = c["n"], x = c["x"], y = c["y"], b = c["b"], bi = c["bi"];
  if (k == PLAIN) kernel::kernel<T>(A, B, C, n, x, y, b);
  else if (k == TRANSPOSED) kernel::kernel_transposed<T>(A, B, C, n, x, y, b);
  else kernel::kernel_transposed_blocked<T>(A, B, C, n, x, y, b, bi);
}
template <typename T> void exact(int k, const Case &c, std::int64_t span) {
  std::size_t n = c["n"], x = c["x"], y = c["y"], b = c["b"];
  std::vector<T> A(n * n), B(n * n);
  for (std::int64_t step = 0; step <= c.get("again", 0); ++step) {
  Stream s(c["seed"] + 7919 * step);
  std::vector<long long> a(n * n), bb(n * n);
  for (auto &v : a) v = s.in(-span, span);
  for (auto &v : bb) v = s.in(-span, span);
  if (same(c))
    for (std::size_t i = 0; i < n * n; ++i) bb[k == PLAIN ? i : i % n * n + i / n] = a[i];
  for (std::size_t i = 0; i < n * n; ++i) A[i] = T(a[i]);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j) B[k == PLAIN ? i * n + j : j * n + i] = T(bb[i * n + j]);
  std::vector<T> A0 = A, B0 = B, C(b * b, T(0));
  call<T>(k, c, A, same(c) ? A : B, C);
  if (C.size() != b * b) fail("the block buffer was resized");
  for (std::size_t i = 0; i < b; ++i)
    for (std::size_t j = 0; j < b; ++j) {
      long long want = 0;
      for (std::size_t l = 0; l < n; ++l) want += a[(x + i) * n + l] * bb[l * n + y + j];
      if (C[i * b + j] != T(want)) fail(fmt("block component (%zu,%zu): got %.17g, product is %lld", i, j, double(C[i * b + j]), want));
    }
  if (A != A0 || B != B0) fail("an input matrix was modified");
  }
}
void labels(const Case &c, Ctx &x) {
  x.label_if(c["b"] == c["n"], "whole matrix");
  x.label_if(c["b"] < c["n"], "block inside the matrix");
  x.label_if(c["x"] != c["y"], "off-diagonal position");
  x.label_if(c["x"] + c["b"] == c["n"] || c["y"] + c["b"] == c["n"], "block at the border");
}
template <typename T> void odd(int k, const Case &c) {
  Case d = c;
  d.set("transposed", k != PLAIN);
  special<T>(d, c["x"], c["y"], c["b"], [&](std::vector<T> &A, std::vector<T> &B) {
    std::vector<T> C(c["b"] * c["b"], T(0));
    call<T>(k, c, A, B, C);
    return C;
  });
}
void run_kernel(const Case &c, Ctx &x, int k) {
  rt::Quiet q;
  if (c.get("special", 0) && c["type"] <= F32) {
    if (c["type"] == F64) odd<double>(k, c);
    else odd<float>(k, c);
    x.label("infinities and NaNs");
  } else if (c["type"] == F64) {
    Case d = c;
    d.set("transposed", k != PLAIN);
    steps(d, x, [&](const Case &c, Mats &m, std::vector<double> &A, std::vector<double> &B) {
      std::vector<double> C(c["b"] * c["b"], 0.0);
      call<double>(k, c, A, B, C);
      if (C.size() != std::size_t(c["b"] * c["b"])) fail("the block buffer was resized");
      std::string msg = oracle::compare_block(m.ref, C.data(), c["x"], c["y"], c["b"]);
      if (!msg.empty()) fail(msg);
    });
    content_label(c, x);
  } else if (c["type"] == F32) {
    exact<float>(k, c, 99);
    x.label("type:float");
  } else if (c["type"] == I32) {
    exact<std::int32_t>(k, c, 1800);
    x.label("type:int32");
  } else if (c["type"] == U8) {
    exact<std::uint8_t>(k, c, 99); // modulo 256
    x.label("type:uint8");
  } else {
    exact<std::int64_t>(k, c, 1 << 26);
    x.label("type:int64");
  }
  labels(c, x);
  if (k == BLOCKED) {
    x.label_if(c["bi"] > c["n"], "input block larger than matrix");
    x.label_if(c["n"] % c["bi"] != 0, "input block not dividing");
  }
  x.nontrivial = c["n"] >= 2;
}
std::vector<Case> corpus_kernel(int k) {
  std::vector<Case> v;
  for (std::int64_t n = 1; n <= 9; ++n)
    for (std::int64_t b = 1; b <= n; ++b) {
      if (k == BLOCKED && b % 4) continue;
      for (std::int64_t bi = 1; bi <= (k == BLOCKED ? n + 2 : 1); ++bi)
        v.push_back({{"n", n}, {"b", b}, {"x", n - b}, {"y", (n - b) / 2}, {"bi", bi}, {"type", (n + b) % 4 ? F64 : I64}, {"kind", n % 2 ? oracle::ENUM : oracle::INTS}, {"seed", n * 10 + b}});
    }
  return v;
}

// the component that selects a kernel
Case gen_mult(Src &s) {
  Case c;
  do gen_place(s, c, false);
  while (c["n"] > 160);
  c.set("transposed", s.range(0, 1));
  c.set("bi", s.chance(1, 4) ? 0 : gen_input_block(s, c["n"]));
  c.set("calls", s.pick({1, 1, 2}));
  gen_contents(s, c);
  gen_again(s, c);
  return c;
}
void run_mult(const Case &c, Ctx &x) {
  rt::Quiet q;
  std::size_t n = c["n"], X = c["x"], Y = c["y"], b = c["b"];
  rt::configure(c);
  steps(c, x, [&](const Case &c, Mats &m, std::vector<double> &A, std::vector<double> &B) {
  multiply_components::multiplier mu(n, A, B, c["transposed"] != 0, c["bi"], 0);
  for (int i = 0; i < c["calls"]; ++i) {
    std::vector<double> C = mu.calculate_submatrix(X, Y, b);
    if (C.size() != b * b) fail(fmt("block has %zu components instead of %zu", C.size(), b * b));
    std::string msg = oracle::compare_block(m.ref, C.data(), X, Y, b);
    if (!msg.empty()) fail(msg);
  }
  });
  content_label(c, x);
  labels(c, x);
  x.label_if(c["bi"] == 0, "input blocking disabled");
  x.label_if(b % 4 == 0, "block size a multiple of 4");
  x.label(c["transposed"] ? "B transposed" : "B plain");
  x.nontrivial = n >= 2;
}
std::vector<Case> corpus_mult() {
  std::vector<Case> v;
  for (std::int64_t n : {1, 2, 3, 4, 6, 8, 9})
    for (std::int64_t b = 1; b <= n; ++b)
      for (std::int64_t bi : {0, 1, 3, 4, 5, 16})
        for (std::int64_t t : {0, 1})
          v.push_back({{"n", n}, {"b", b}, {"x", (n - b) / 2}, {"y", n - b}, {"transposed", t}, {"bi", bi}, {"calls", 1}, {"kind", n % 2 ? oracle::ENUM : oracle::INTS}, {"seed", n + b}});
  return v;
}
#ifdef THREADED
// Several threads compute blocks of one product: the operands are shared, the
// buffers are not.
template <typename T> void shared_blocks(int k, const Case &c) {
  std::size_t n = c["n"], threads = c["threads"];
  std::vector<T> A(n * n), B(n * n);
  Stream s(c["seed"]);
  for (auto &v : A) v = T(s.in(-50, 50));
  for (auto &v : B) v = T(s.in(-50, 50));
  std::vector<Case> part(threads);
  for (std::size_t h = 0; h < threads; ++h) {
    std::int64_t b = k == BLOCKED ? 4 * s.in(1, c["n"] / 4) : s.in(1, c["n"]);
    part[h] = {{"n", c["n"]}, {"b", b}, {"x", s.in(0, c["n"] - b)}, {"y", s.in(0, c["n"] - b)}, {"bi", s.in(1, c["n"] + 2)}};
  }
  std::vector<T> A0 = A, B0 = B;
  std::vector<std::vector<T>> C(threads);
  for (std::size_t h = 0; h < threads; ++h) C[h].assign(std::size_t(part[h]["b"] * part[h]["b"]), T(0));
  std::vector<std::thread> th;
  std::atomic<std::size_t> ready{0};
  for (std::size_t h = 0; h < threads; ++h)
    th.emplace_back([&, h] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
      call<T>(k, part[h], A, B, C[h]);
    });
  for (auto &h : th) h.join();
  for (std::size_t h = 0; h < threads; ++h) {
    std::size_t b = part[h]["b"], x = part[h]["x"], y = part[h]["y"];
    if (C[h].size() != b * b) fail("the block buffer was resized");
    for (std::size_t i = 0; i < b; ++i)
      for (std::size_t j = 0; j < b; ++j) {
        T want = 0;
        for (std::size_t l = 0; l < n; ++l) want += A0[(x + i) * n + l] * (k == PLAIN ? B0[l * n + y + j] : B0[(y + j) * n + l]);
        if (C[h][i * b + j] != want) fail(fmt("thread %zu: block component (%zu,%zu) is wrong", h, i, j));
      }
  }
  if (A != A0 || B != B0) fail("an input matrix was modified");
}
Case gen_shared(Src &s) {
  Case c;
  c.set("k", s.range(0, 2));
  c.set("n", s.range(4, 40));
  c.set("threads", s.range(2, 4));
  c.set("type", s.pick({F64, I64}));
  c.set("seed", s.range(0, 9999));
  return c;
}
void run_shared(const Case &c, Ctx &x) {
  if (c["type"] == F64) shared_blocks<double>(int(c["k"]), c);
  else shared_blocks<std::int64_t>(int(c["k"]), c);
  x.label(kname[c["k"]]);
  x.nontrivial = true;
}
#endif
}

std::vector<Target> pbt::targets() {
  std::vector<Target> t;
  for (int k = 0; k < 3; ++k)
    t.push_back({kname[k], [k](Src &s) { return gen_kernel(s, k); }, [k](const Case &c, Ctx &x) { run_kernel(c, x, k); }, corpus_kernel(k),
                 [k](const Case &c) { return valid_place(c) && valid_contents(c) && valid_again(c) && c["bi"] >= 1 && c["type"] >= 0 && c["type"] < TYPES && (k != BLOCKED || c["b"] % 4 == 0); }});
  t.push_back({"multiplier", gen_mult, run_mult, corpus_mult(),
               [](const Case &c) { return valid_place(c) && valid_contents(c) && valid_again(c) && c["bi"] >= 0 && c["calls"] >= 1; }});
#ifdef THREADED
  t.push_back({"shared operands", gen_shared, run_shared, {}, [](const Case &c) { return c["n"] >= 4 && c["threads"] >= 2 && c["threads"] <= 8 && c["k"] >= 0 && c["k"] <= 2; }});
#endif
  return threaded(t, {"kernel", "kernel_transposed", "kernel_transposed_blocked"});
}
