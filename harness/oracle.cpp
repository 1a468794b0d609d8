#include "oracle.hpp"
#include <cmath>
#include <cfloat>
#include <cstdio>

namespace oracle {
using pbt::Stream;

const char *kind_name(int k) {
  static const char *n[] = {"ints", "sparse", "enum", "real", "wide", "cancel", "scaled", "structured", "same"};
  return k >= 0 && k < KINDS ? n[k] : "?";
}
bool exact(int k) { return k <= ENUM || k == STRUCT || k == SAME; }

// every structure keeps the values small integers
static void structured(std::vector<double> &m, std::size_t n, Stream &s) {
  for (auto &x : m) x = double(s.in(-9, 9));
  if (!n) return;
  std::size_t what = s.below(8), p = s.below(n), q = s.below(n);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j) {
      double &x = m[i * n + j];
      switch (what) {
      case 0: if ((i * 7 + p) % 3 == 0) x = 0; break;        // zero rows
      case 1: if ((j * 7 + p) % 3 == 0) x = 0; break;        // zero columns
      case 2: if (i < p || j < q) x = 0; break;              // a corner only
      case 3: if (i > j) x = 0; break;                       // upper triangle
      case 4: if (i < j) x = 0; break;                       // lower triangle
      case 5: x = m[(i % (p + 1)) * n + j]; break;           // repeated rows
      case 6: x = m[0]; break;                               // constant
      default: if (x == 0 || (i + j + p) % 2) x = -0.0; break; // negative zeros
      }
    }
}

static double wide(Stream &s) {
  double m = s.unit() * 2 - 1;
  return std::ldexp(m, int(s.in(-20, 20)));
}

std::vector<double> make_A(int kind, std::uint64_t seed, std::size_t n) {
  std::vector<double> m(n * n, 0.0);
  Stream s(seed * 2 + 1);
  switch (kind) {
  case INTS:
  case SAME:
    for (auto &x : m) x = double(s.in(-9, 9));
    break;
  case SPARSE: {
    std::size_t k = 1 + s.below(3);
    for (std::size_t i = 0; i < k && n; ++i) m[s.below(n * n)] = double(s.in(1, 7));
    break;
  }
  case ENUM:
    for (std::size_t i = 0; i < m.size(); ++i) m[i] = double(i + 1);
    break;
  case REAL:
    for (auto &x : m) x = s.unit() * 2 - 1;
    break;
  case WIDE:
    for (auto &x : m) x = wide(s);
    break;
  case SCALED: {
    double f = std::ldexp(1.0, int(s.in(-200, 200)));
    for (auto &x : m) x = (s.unit() * 2 - 1) * f;
    break;
  }
  case STRUCT:
    structured(m, n, s);
    break;
  default:
    for (std::size_t i = 0; i < m.size(); ++i) m[i] = (i % 2 ? -1 : 1) * (1048576.0 + s.unit());
  }
  return m;
}
std::vector<double> make_B(int kind, std::uint64_t seed, std::size_t n) {
  std::vector<double> m(n * n, 0.0);
  if (kind == SAME) return make_A(kind, seed, n);
  Stream s(seed * 2 + 2);
  switch (kind) {
  case INTS:
    for (auto &x : m) x = double(s.in(-9, 9));
    break;
  case SPARSE: {
    // rows that A's entries select, so that the product is not zero
    Stream a(seed * 2 + 1);
    std::size_t k = 1 + a.below(3);
    for (std::size_t i = 0; i < k && n; ++i) {
      std::size_t pos = a.below(n * n);
      a.in(1, 7);
      m[(pos % n) * n + s.below(n)] = double(s.in(1, 7));
    }
    if (n) m[s.below(n * n)] = double(s.in(1, 7));
    break;
  }
  case ENUM: {
    std::vector<std::size_t> p(n);
    for (std::size_t i = 0; i < n; ++i) p[i] = i;
    for (std::size_t i = n; i > 1; --i) std::swap(p[i - 1], p[s.below(i)]);
    for (std::size_t i = 0; i < n; ++i) m[i * n + p[i]] = double(s.in(1, 5));
    break;
  }
  case REAL:
    for (auto &x : m) x = s.unit() * 2 - 1;
    break;
  case WIDE:
    for (auto &x : m) x = wide(s);
    break;
  case SCALED: {
    double f = std::ldexp(1.0, int(s.in(-200, 200)));
    for (auto &x : m) x = (s.unit() * 2 - 1) * f;
    break;
  }
  case STRUCT:
    structured(m, n, s);
    break;
  default:
    for (auto &x : m) x = 1.0 + s.unit() * 1e-3;
  }
  return m;
}
std::vector<double> transpose(const std::vector<double> &m, std::size_t n) {
  std::vector<double> t(n * n);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j) t[j * n + i] = m[i * n + j];
  return t;
}

Ref reference(int kind, std::size_t n, const std::vector<double> &A, const std::vector<double> &B) {
  Ref r;
  r.n = n;
  r.is_exact = exact(kind);
  r.c.assign(n * n, 0.0);
  if (r.is_exact) {
    // integers far below 2^53: every partial sum is exact
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t k = 0; k < n; ++k) {
        double a = A[i * n + k];
        if (a == 0) continue;
        const double *b = &B[k * n];
        double *c = &r.c[i * n];
        for (std::size_t j = 0; j < n; ++j) c[j] += a * b[j];
      }
    return r;
  }
  r.tol.assign(n * n, 0.0);
  std::vector<long double> row(n);
  std::vector<double> mag(n);
  for (std::size_t i = 0; i < n; ++i) {
    std::fill(row.begin(), row.end(), 0.0L);
    std::fill(mag.begin(), mag.end(), 0.0);
    for (std::size_t k = 0; k < n; ++k) {
      long double a = A[i * n + k];
      double fa = std::fabs(A[i * n + k]);
      const double *b = &B[k * n];
      for (std::size_t j = 0; j < n; ++j) {
        row[j] += a * b[j];
        mag[j] += fa * std::fabs(b[j]);
      }
    }
    for (std::size_t j = 0; j < n; ++j) {
      r.c[i * n + j] = double(row[j]);
      // any summation order: |err| <= gamma_n * sum |a||b|; factor 2 spare
      r.tol[i * n + j] = 2.0 * double(n + 8) * DBL_EPSILON * mag[j] + DBL_MIN;
    }
  }
  return r;
}

static std::string one(const Ref &r, double got, std::size_t i, std::size_t j) {
  double want = r.c[i * r.n + j];
  bool ok = r.is_exact ? got == want : std::fabs(got - want) <= r.tol[i * r.n + j];
  if (ok) return "";
  return pbt::fmt("component (%zu,%zu): got %.17g, product is %.17g%s", i, j, got, want,
                  r.is_exact ? " (exact)" : pbt::fmt(" (tolerance %.3g)", r.tol[i * r.n + j]).c_str());
}
std::string compare(const Ref &r, const double *C, std::size_t size) {
  if (size != r.n * r.n) return pbt::fmt("result has %zu components instead of %zu", size, r.n * r.n);
  std::size_t bad = 0;
  std::string first;
  for (std::size_t i = 0; i < r.n; ++i)
    for (std::size_t j = 0; j < r.n; ++j) {
      std::string m = one(r, C[i * r.n + j], i, j);
      if (!m.empty() && bad++ == 0) first = m;
    }
  return bad ? first + pbt::fmt("; %zu of %zu components wrong", bad, size) : "";
}
std::string compare_block(const Ref &r, const double *C, std::size_t x0, std::size_t y0, std::size_t b) {
  std::size_t bad = 0;
  std::string first;
  for (std::size_t i = 0; i < b; ++i)
    for (std::size_t j = 0; j < b; ++j) {
      std::string m = one(r, C[i * b + j], x0 + i, y0 + j);
      if (!m.empty() && bad++ == 0) first = m;
    }
  return bad ? first + pbt::fmt("; %zu of %zu block components wrong", bad, b * b) : "";
}

std::vector<long long> product_ll(std::size_t n, const std::vector<long long> &A, const std::vector<long long> &B) {
  std::vector<long long> c(n * n, 0);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t k = 0; k < n; ++k)
      for (std::size_t j = 0; j < n; ++j) c[i * n + j] += A[i * n + k] * B[k * n + j];
  return c;
}

int gen_kind(pbt::Src &s) {
  // integers half of the time
  static const std::vector<std::int64_t> v = {SPARSE, INTS, INTS, INTS, ENUM, ENUM, REAL, REAL, WIDE, CANCEL, SCALED, STRUCT, STRUCT, SAME};
  return int(s.pick(v));
}
std::int64_t gen_pow2(pbt::Src &s, int lo, int hi) { return std::int64_t(1) << s.range(lo, hi); }
std::int64_t gen_near(pbt::Src &s, const std::vector<std::int64_t> &b, std::int64_t spread, std::int64_t lo, std::int64_t hi) {
  std::int64_t v = s.pick(b) + s.range(-spread, spread);
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
}
