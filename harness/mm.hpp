// Operands and verdict shared by the matrix-product targets.
#pragma once
#include "oracle.hpp"
#include <cmath>
#include <cstring>
#include <limits>
#include <string>

namespace mm {
inline void gen_contents(pbt::Src &s, pbt::Case &c) {
  c.set("kind", oracle::gen_kind(s));
  c.set("seed", s.range(0, 1 << 16));
}
// block sizes far larger than any matrix, around the limits of narrower types
inline std::int64_t gen_vast(pbt::Src &s) {
  const std::int64_t one = 1;
  return s.pick({one << 16, one << 31, (one << 32) - 1, one << 32, (one << 32) + 1, (one << 32) + 8, one << 40, one << 62, INT64_MAX});
}
inline bool valid_contents(const pbt::Case &c) { return c["kind"] >= 0 && c["kind"] < oracle::KINDS; }
inline void content_label(const pbt::Case &c, pbt::Ctx &x) {
  x.label(std::string("contents:") + oracle::kind_name(int(c["kind"])));
}

inline bool same(const pbt::Case &c) { return c["kind"] == oracle::SAME; }
struct Mats {
  std::vector<double> A, B, Bs; // Bs as stored
  oracle::Ref ref;
  explicit Mats(const pbt::Case &c) {
    std::size_t n = std::size_t(c["n"]);
    A = oracle::make_A(int(c["kind"]), c["seed"], n);
    B = oracle::make_B(int(c["kind"]), c["seed"], n);
    // one storage for both: transposed storage then means the product with the transposed matrix
    if (same(c) && c.get("transposed", 0)) B = oracle::transpose(A, n);
    ref = oracle::reference(int(c["kind"]), n, A, B);
    Bs = c.get("transposed", 0) ? oracle::transpose(B, n) : B;
  }
};
// Several multiplications one after the other on the same storage with other
// contents each time: whatever the code keeps between calls must not show.
inline void gen_again(pbt::Src &s, pbt::Case &c) { c.set("again", s.chance(1, 4) ? s.range(1, 2) : 0); }
inline bool valid_again(const pbt::Case &c) { return c.get("again", 0) >= 0 && c.get("again", 0) <= 4; }
inline pbt::Case step_case(const pbt::Case &c, std::int64_t i) {
  pbt::Case e = c;
  e.set("seed", c["seed"] + 7919 * i);
  return e;
}
template <typename F> void steps(const pbt::Case &c, pbt::Ctx &x, F f) {
  std::vector<double> A, B;
  for (std::int64_t i = 0; i <= c.get("again", 0); ++i) {
    pbt::Case e = step_case(c, i);
    Mats m(e);
    if (i == 0) {
      A = m.A;
      B = m.Bs;
    } else {
      std::copy(m.A.begin(), m.A.end(), A.begin());
      std::copy(m.Bs.begin(), m.Bs.end(), B.begin());
    }
    try {
      f(e, m, A, same(c) ? A : B);
    } catch (pbt::Failure &g) {
      if (i) g.msg += pbt::fmt(" (call %d on the same storage with other contents)", int(i) + 1);
      throw;
    }
    if (A.size() != m.A.size() || std::memcmp(A.data(), m.A.data(), A.size() * sizeof(double))) pbt::fail("input matrix A was modified");
    if (B.size() != m.Bs.size() || std::memcmp(B.data(), m.Bs.data(), B.size() * sizeof(double))) pbt::fail("input matrix B was modified");
  }
  x.label_if(c.get("again", 0) > 0, "storage used again with other contents");
}
// Operands with a few infinities and NaNs among small integers: whatever the
// order of summation, a component is NaN if a term is or if infinities of both
// signs meet, infinite if terms of one sign are, and exact otherwise.
// f(A, B as stored) returns the block of side b at (x, y).
template <typename T, typename F> void special(const pbt::Case &c, std::size_t x, std::size_t y, std::size_t b, F f) {
  std::size_t n = std::size_t(c["n"]);
  const std::uint64_t seed = std::uint64_t(c["seed"]);
  pbt::Stream s(seed * 2 + 5);
  std::vector<T> A(n * n), B(n * n);
  const T inf = std::numeric_limits<T>::infinity(), odd[] = {inf, -inf, std::numeric_limits<T>::quiet_NaN()};
  for (std::vector<T> *m : {&A, &B}) {
    for (auto &v : *m) v = T(s.in(-3, 3));
    if (n)
      for (std::size_t k = s.below(4); k-- > 0;) (*m)[s.below(n * n)] = odd[s.below(3)];
  }
  std::vector<T> Bs = B;
  if (c.get("transposed", 0))
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j) Bs[j * n + i] = B[i * n + j];
  std::vector<T> A0 = A, B0 = Bs, C = f(A, Bs);
  if (C.size() != b * b) pbt::fail(pbt::fmt("result has %zu components instead of %zu", C.size(), b * b));
  for (std::size_t i = 0; i < b; ++i)
    for (std::size_t j = 0; j < b; ++j) {
      T want = 0, got = C[i * b + j];
      for (std::size_t k = 0; k < n; ++k) want += A0[(x + i) * n + k] * B[k * n + y + j];
      if (std::isnan(want) ? !std::isnan(got) : !(got == want))
        pbt::fail(pbt::fmt("component (%zu,%zu): got %.17g, product is %.17g (operands with infinities or NaNs)", i, j, double(got), double(want)));
    }
  if ((n && std::memcmp(A.data(), A0.data(), n * n * sizeof(T))) || (n && std::memcmp(Bs.data(), B0.data(), n * n * sizeof(T)))) pbt::fail("an input matrix was modified");
}
inline void verdict(const oracle::Ref &r, const std::vector<double> &C) {
  std::string m = oracle::compare(r, C.data(), C.size());
  if (!m.empty()) pbt::fail(m);
}
inline void unchanged(const std::vector<double> &a, const std::vector<double> &b, const char *what) {
  if (a.size() != b.size() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) != 0)
    pbt::fail(std::string("input matrix ") + what + " was modified");
}
}
