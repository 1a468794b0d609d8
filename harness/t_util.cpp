// C14 matrix helpers: creation, transposition, printing
#include "rt.hpp"
#include "threads.hpp"

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <iostream>
#include <new>
#include <limits>
#include <set>
#include <sstream>
#include <type_traits>
#include <vector>

#include "util/create_identity_matrix.hpp"
#include "util/create_random_matrix.hpp"
#include "util/pattern_matrices.hpp"
#include "util/transpose_matrix.hpp"
#include "util/util.hpp"

using namespace pbt;

namespace {
template <typename T> struct Alloc {
  using value_type = T;
  Alloc() = default;
  template <typename U> Alloc(const Alloc<U> &) {}
  T *allocate(std::size_t n) { return static_cast<T *>(::operator new(n * sizeof(T))); }
  void deallocate(T *p, std::size_t) { ::operator delete(p); }
  template <typename U> bool operator==(const Alloc<U> &) const { return true; }
  template <typename U> bool operator!=(const Alloc<U> &) const { return false; }
};
const char *type_name(std::int64_t t) {
  static const char *n[] = {"double", "float", "int", "long"};
  return n[t];
}
template <typename F> void with_type(std::int64_t t, F f) {
  switch (t) {
  case 0: f(double()); break;
  case 1: f(float()); break;
  case 2: f(int()); break;
  default: f(long());
  }
}
std::int64_t size(Src &s) {
  return s.chance(1, 3) ? s.range(0, 8) : s.chance(1, 20) ? s.range(64, 160) : s.chance(1, 100) ? s.range(161, 420) : s.range(0, 40);
}

// ------------------------------------------------------------ creation
Case gen_create(Src &s) {
  Case c;
  c.set("what", s.range(0, 2));
  c.set("type", c["what"] == 2 ? s.range(0, 1) : s.range(0, 3));
  c.set("n", size(s));
  c.set("before", s.range(0, 5)); // calls made before
  return c;
}
template <typename T> void create(const Case &c) {
  std::size_t n = std::size_t(c["n"]);
  auto make = [&](std::size_t k) {
    return c["what"] == 0 ? util::create_identity_matrix<T>(k)
         : c["what"] == 1 ? util::create_enumerating_matrix<T>(k)
                          : util::create_random_matrix<T>(k);
  };
  for (std::int64_t i = 0; i < c["before"]; ++i) make(std::size_t((i * 7 + 3) % 11));
  std::vector<T> m = make(n);
  if (m.size() != n * n) fail(fmt("%zu components instead of %zu", m.size(), n * n));
  if (c["what"] == 0) {
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j)
        if (m[i * n + j] != T(i == j)) fail(fmt("identity: component (%zu,%zu) is %g", i, j, double(m[i * n + j])));
  } else if (c["what"] == 1) {
    for (std::size_t i = 0; i < n * n; ++i)
      if (m[i] != T(i)) fail(fmt("enumerating: component %zu is %g", i, double(m[i])));
  } else {
    for (std::size_t i = 0; i < n * n; ++i)
      if (!(m[i] >= T(0) && m[i] < T(1))) fail(fmt("random: component %zu is %g", i, double(m[i])));
    if (n >= 2) {
      std::set<std::vector<T>> rows, cols;
      for (std::size_t i = 0; i < n; ++i) {
        std::vector<T> r, k;
        for (std::size_t j = 0; j < n; ++j) r.push_back(m[i * n + j]), k.push_back(m[j * n + i]);
        if (!rows.insert(r).second) fail(fmt("random: row %zu repeats another row", i));
        if (!cols.insert(k).second) fail(fmt("random: column %zu repeats another column", i));
      }
    }
    if (make(n) != m) fail("random: a second call of the same size gives another matrix");
  }
}
void run_create(const Case &c, Ctx &x) {
  if (c["what"] == 2) {
    if (c["type"] == 0) create<double>(c);
    else create<float>(c);
  } else
    with_type(c["type"], [&](auto v) { create<decltype(v)>(c); });
  static const char *n[] = {"identity", "enumerating", "random"};
  x.label(n[c["what"]]);
  x.label(type_name(c["type"]));
  x.label_if(c["n"] == 0, "empty");
  x.nontrivial = c["n"] >= 2;
}
std::vector<Case> corpus_create() {
  std::vector<Case> v;
  for (std::int64_t w = 0; w < 3; ++w)
    for (std::int64_t n = 0; n <= 20; ++n) v.push_back({{"what", w}, {"type", n % (w == 2 ? 2 : 4)}, {"n", n}, {"before", n % 3}});
  return v;
}
bool valid_create(const Case &c) { return c["what"] >= 0 && c["what"] <= 2 && c["n"] >= 0; }

// ------------------------------------------------------------ contents
template <typename T> T value(Stream &g, std::int64_t style) {
  if (style == 0) return T(g.in(-99, 99));
  if (style == 1) return T(double(g.in(-999999, 999999)) / 1000.0);
  if (style == 3) { // the whole type
    if (g.below(8) == 0) {
      T ends[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::infinity(), T(-0.0),
                  std::numeric_limits<T>::denorm_min()};
      return ends[g.below(6)];
    }
    if (std::is_integral<T>::value) return T(g.next());
    return T(std::ldexp(g.unit() - 0.5, int(g.in(-120, 120))));
  }
  return T(g.in(0, 1 << 30)) * (g.below(2) ? T(1) : T(-1));
}
template <typename V> V contents(const Case &c, std::size_t n) {
  Stream g{std::uint64_t(c["seed"])};
  V m(n);
  for (auto &e : m) e = value<typename V::value_type>(g, c["style"]);
  return m;
}
// ------------------------------------------------------------ transposition
Case gen_transpose(Src &s) {
  Case c;
  c.set("form", s.range(0, 2)); // square, rectangular, rectangular with allocator
  c.set("type", s.range(0, 3));
  c.set("n", size(s));
  c.set("m", c["form"] == 0 ? c["n"] : s.chance(1, 6) ? c["n"] : size(s));
  c.set("style", s.range(0, 3));
  c.set("seed", s.range(0, 1 << 16));
  return c;
}
// org has m rows of n components
template <typename V, typename F> void transposed(const V &org, std::size_t n, std::size_t m, F tr) {
  V keep = org, arg = org;
  V r = tr(n, m, arg);
  if (r.size() != n * m) fail(fmt("%zu components instead of %zu", r.size(), n * m));
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < m; ++j)
      if (r[i * m + j] != keep[j * n + i]) fail(fmt("component (%zu,%zu) of the %zux%zu result is not component (%zu,%zu)", i, j, n, m, j, i));
  if (arg != keep) fail("the original was modified");
  V back = tr(m, n, r);
  if (back != keep) fail("transposing back does not restore the original");
  // the same storage with other contents: nothing may be remembered
  for (std::size_t i = 0; i < arg.size(); ++i) arg[i] = keep[i] / 2 + typename V::value_type(1 + i % 3);
  V again = tr(n, m, arg);
  if (again.size() != n * m) fail("another size for the same storage with other contents");
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < m; ++j)
      if (again[i * m + j] != arg[j * n + i]) fail(fmt("the same storage with other contents: component (%zu,%zu) is wrong", i, j));
}
void run_transpose(const Case &c, Ctx &x) {
  std::size_t n = std::size_t(c["n"]), m = std::size_t(c["m"]);
  with_type(c["type"], [&](auto v) {
    using T = decltype(v);
    if (c["form"] == 0) {
      transposed(contents<std::vector<T>>(c, n * n), n, n, [](std::size_t k, std::size_t, std::vector<T> &a) { return util::transpose_matrix(k, a); });
    } else if (c["form"] == 1) {
      transposed(contents<std::vector<T>>(c, n * m), n, m, [](std::size_t k, std::size_t l, std::vector<T> &a) { return util::transpose_matrix(k, l, a); });
    } else {
      using V = std::vector<T, Alloc<T>>;
      transposed(contents<V>(c, n * m), n, m, [](std::size_t k, std::size_t l, V &a) { return util::transpose_matrix(k, l, a); });
    }
  });
  static const char *f[] = {"square", "rectangular", "rectangular, allocator"};
  x.label(f[c["form"]]);
  x.label(type_name(c["type"]));
  x.label_if(n != m, "rows != columns");
  x.label_if(n == 0 || m == 0, "empty");
  x.nontrivial = n * m > 1;
}
bool valid_transpose(const Case &c) { return c["n"] >= 0 && c["m"] >= 0 && (c["form"] != 0 || c["n"] == c["m"]); }
std::vector<Case> corpus_transpose() {
  std::vector<Case> v;
  for (std::int64_t f = 0; f < 3; ++f)
    for (std::int64_t n = 0; n <= 6; ++n)
      for (std::int64_t m = f ? 0 : n; m <= (f ? 6 : n); ++m) v.push_back({{"form", f}, {"type", 0}, {"n", n}, {"m", m}, {"style", 0}, {"seed", 1}});
  return v;
}

// ------------------------------------------------------------ printing
Case gen_print(Src &s) {
  Case c;
  c.set("form", s.range(0, 7));
  c.set("type", s.range(0, 3));
  c.set("alloc", s.range(0, 1));
  bool rect = c["form"] & 1;
  c.set("n", s.chance(1, 3) ? s.range(0, 5) : s.chance(1, 20) ? s.range(21, 130) : s.range(0, 20));
  c.set("m", !rect ? c["n"] : s.chance(1, 20) ? s.range(21, 300) : s.range(0, 20));
  c.set("style", s.range(0, 3));
  c.set("seed", s.range(0, 1 << 16));
  c.set("twice", s.range(0, 1));
  return c;
}
// replaces both output streams for the life of the object
struct Capture {
  std::ostringstream host, hpxs;
  std::streambuf *old;
  Capture() : old(std::cout.rdbuf(host.rdbuf())) { new (&hpx::cout) hpx::ostream_wrap(hpxs); }
  ~Capture() {
    new (&hpx::cout) hpx::ostream_wrap(std::cout);
    std::cout.rdbuf(old);
  }
};
std::string squeeze(const std::string &s) {
  std::string r;
  for (char ch : s)
    if (ch != ' ' && ch != '\t') r += ch;
  return r;
}
template <typename V> void print(const Case &c) {
  std::size_t n = std::size_t(c["n"]), m = std::size_t(c["m"]);
  std::int64_t form = c["form"]; // bit 0 rectangular, bit 1 transposed, bit 2 through the runtime
  bool rect = form & 1, tr = form & 2, rt = form & 4;
  V a = contents<V>(c, n * m);
  Case c2 = c;
  c2.set("seed", c["seed"] + 4711);
  V b = contents<V>(c2, n * m), first = a;
  std::ostringstream want;
  for (std::int64_t k = 0; k <= c["twice"]; ++k) {
    if (k) a = b; // the same storage with other contents
    for (std::size_t i = 0; i < n; ++i) {
      for (std::size_t j = 0; j < m; ++j) want << (j ? "," : "") << (tr ? a[j * n + i] : a[i * m + j]);
      want << "\n";
    }
  }
  std::copy(first.begin(), first.end(), a.begin());
  V keep = a;
  std::string host, hpxs;
  {
    Capture cap;
    for (std::int64_t k = 0; k <= c["twice"]; ++k) {
      if (k) {
        std::copy(b.begin(), b.end(), a.begin());
        keep = b;
      }
      if (!rt && !tr && !rect) print_matrix_host(n, a);
      else if (!rt && !tr) print_matrix_host(n, m, a);
      else if (!rt && !rect) print_matrix_transposed_host(n, a);
      else if (!rt) print_matrix_transposed_host(n, m, a);
      else if (!tr && !rect) print_matrix(n, a);
      else if (!tr) print_matrix(n, m, a);
      else if (!rect) print_matrix_transposed(n, a);
      else print_matrix_transposed(n, m, a);
    }
    host = cap.host.str();
    hpxs = cap.hpxs.str();
  }
  if (a != keep) fail("printing modified the matrix");
  const std::string &got = rt ? hpxs : host, &other = rt ? host : hpxs;
  if (!other.empty()) fail(std::string("written to the ") + (rt ? "host" : "runtime") + " output as well or instead");
  if (squeeze(got) != want.str())
    fail(fmt("a %zux%zu matrix is printed as\n", n, m) + got.substr(0, 300) + "\ninstead of\n" + want.str().substr(0, 300));
}
void run_print(const Case &c, Ctx &x) {
  with_type(c["type"], [&](auto v) {
    using T = decltype(v);
    if (c["alloc"]) print<std::vector<T, Alloc<T>>>(c);
    else print<std::vector<T>>(c);
  });
  std::int64_t f = c["form"];
  x.label(std::string(f & 4 ? "print_matrix" : "print_matrix_host") + (f & 2 ? ", transposed" : "") + (f & 1 ? ", rectangular" : ""));
  x.label_if(c["n"] != c["m"], "rows != columns");
  x.label_if(c["n"] == 0 || c["m"] == 0, "empty");
  x.nontrivial = c["n"] * c["m"] > 1;
}
bool valid_print(const Case &c) { return c["n"] >= 0 && c["m"] >= 0 && ((c["form"] & 1) || c["n"] == c["m"]); }
std::vector<Case> corpus_print() {
  std::vector<Case> v;
  for (std::int64_t f = 0; f < 8; ++f)
    for (std::int64_t n = 0; n <= 4; ++n)
      for (std::int64_t m = f & 1 ? 0 : n; m <= (f & 1 ? 4 : n); ++m)
        v.push_back({{"form", f}, {"type", 0}, {"alloc", 0}, {"n", n}, {"m", m}, {"style", 0}, {"seed", 1}, {"twice", 0}});
  return v;
}
}

std::vector<Target> pbt::targets() {
  return threaded({{"create", gen_create, run_create, corpus_create(), valid_create},
          {"transpose", gen_transpose, run_transpose, corpus_transpose(), valid_transpose},
          {"print", gen_print, run_print, corpus_print(), valid_print}},
                  {"create", "transpose"});
}
