// C07, C08, C09, C14 far beyond 2^32 elements.  Storage is mapped and not reserved:
// only what is written takes memory, so views of enormous arrays cost nothing;
// converting one costs one pass over it.  Optimised, no sanitizer.
#include "pbt.hpp"

#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <utility>
#include <vector>

#include <sys/mman.h>

#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"
#include "util/create_identity_matrix.hpp"
#include "util/pattern_matrices.hpp"
#include "util/create_random_matrix.hpp"
#include "util/transpose_matrix.hpp"
#include "reference_kernels/kernel.hpp"

using namespace pbt;
namespace ml = memory_layout;

namespace {
template <typename T> struct Lazy {
  using value_type = T;
  Lazy() = default;
  template <typename U> Lazy(const Lazy<U> &) {}
  T *allocate(std::size_t n) {
    void *p = mmap(nullptr, n * sizeof(T) + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw std::bad_alloc();
    madvise(p, n * sizeof(T) + 1, MADV_NOHUGEPAGE);
    return static_cast<T *>(p);
  }
  void deallocate(T *p, std::size_t n) { munmap(p, n * sizeof(T) + 1); }
  template <typename U> void construct(U *) noexcept {} // mapped storage is zero
  template <typename U, typename... A> void construct(U *p, A &&... a) { ::new (static_cast<void *>(p)) U(std::forward<A>(a)...); }
  template <typename U> bool operator==(const Lazy<U> &) const { return true; }
  template <typename U> bool operator!=(const Lazy<U> &) const { return false; }
};
using Byte = unsigned char;
using Bytes = std::vector<Byte, Lazy<Byte>>;

// is there memory for n bytes and as many again?
bool roomy(std::size_t n) {
  std::FILE *f = std::fopen("/proc/meminfo", "r");
  if (!f) return false;
  char l[200];
  unsigned long long kb = 0;
  while (std::fgets(l, sizeof l, f))
    if (std::sscanf(l, "MemAvailable: %llu kB", &kb) == 1) break;
  std::fclose(f);
  return kb * 1024 > 2 * n + (4ULL << 30);
}
std::string key(const char *k, std::int64_t d) { return k + std::to_string(d); }

struct Shape {
  std::size_t dim, total = 1, tiles = 1, tile_total = 1;
  std::vector<std::size_t> count, tile, extent;
  std::vector<ml::tiling_info_dim> info;
  explicit Shape(const Case &c) : dim(std::size_t(c["dim"])) {
    for (std::size_t d = 0; d < dim; ++d) {
      count.push_back(std::size_t(c[key("c", d).c_str()]));
      tile.push_back(std::size_t(c[key("t", d).c_str()]));
      extent.push_back(count[d] * tile[d]);
      ml::tiling_info_dim i;
      i.tile_size_dir = tile[d];
      i.stride = extent[d];
      info.push_back(i);
      total *= extent[d];
      tiles *= count[d];
      tile_total *= tile[d];
    }
  }
  static std::vector<std::size_t> split(std::size_t f, const std::vector<std::size_t> &e) {
    std::vector<std::size_t> c(e.size());
    for (std::size_t d = e.size(); d-- > 0;) {
      c[d] = f % e[d];
      f /= e[d];
    }
    return c;
  }
  static std::size_t join(const std::vector<std::size_t> &c, const std::vector<std::size_t> &e) {
    std::size_t f = 0;
    for (std::size_t d = 0; d < e.size(); ++d) f = f * e[d] + c[d];
    return f;
  }
  std::size_t tiled(std::size_t row_major) const {
    std::vector<std::size_t> c = split(row_major, extent), t(dim), i(dim);
    for (std::size_t d = 0; d < dim; ++d) {
      t[d] = c[d] / tile[d];
      i[d] = c[d] % tile[d];
    }
    return join(t, count) * tile_total + join(i, tile);
  }
};
bool valid_shape(const Case &c) {
  if (c["dim"] < 1 || c["dim"] > 4) return false;
  double total = 1;
  for (std::int64_t d = 0; d < c["dim"]; ++d) {
    if (!c.has(key("t", d).c_str()) || c[key("t", d).c_str()] < 1 || c[key("c", d).c_str()] < 1) return false;
    total *= double(c[key("t", d).c_str()]) * double(c[key("c", d).c_str()]);
  }
  return total <= double(1ULL << 38);
}
template <typename F> void with_dim(std::size_t dim, F f) {
  switch (dim) {
  case 1: f(std::integral_constant<std::size_t, 1>()); break;
  case 2: f(std::integral_constant<std::size_t, 2>()); break;
  case 3: f(std::integral_constant<std::size_t, 3>()); break;
  default: f(std::integral_constant<std::size_t, 4>());
  }
}
// positions looked at: both ends, around powers of two, anywhere
std::size_t somewhere(Stream &r, std::size_t n) {
  switch (r.below(4)) {
  case 0: return r.below(2) ? 0 : n - 1;
  case 1: {
    std::size_t p = std::size_t(1) << r.below(38);
    p += r.below(5) - 2;
    return p < n ? p : n - 1;
  }
  default: return r.below(n);
  }
}

// ------------------------------------------------------------ C09
Case gen_far(Src &s) {
  Case c;
  std::int64_t dim = s.range(1, 4), bits = s.range(28, 36), tbits = 0;
  c.set("dim", dim);
  c.set("seed", s.range(0, 1 << 16));
  for (std::int64_t d = 0; d < dim; ++d) {
    std::int64_t k = s.range(1, dim <= 2 ? 9 : 4);
    std::int64_t b = d + 1 == dim ? bits - tbits : s.range(0, bits - tbits);
    std::int64_t t = (std::int64_t(1) << b) + (s.chance(1, 2) ? s.range(0, std::int64_t(1) << (b / 2)) : 0);
    tbits += b;
    c.set(key("c", d), k);
    c.set(key("t", d), t);
  }
  return c;
}
template <typename V, std::size_t... I> auto &call_op(V &v, const std::array<std::size_t, sizeof...(I)> &a, std::index_sequence<I...>) { return v(a[I]...); }
void run_far(const Case &c, Ctx &x) {
  Shape s(c);
  Bytes store(s.total);
  if (store.size() != s.total) fail("harness: no storage");
  Stream r(c["seed"]);
  std::map<std::size_t, Byte> model;
  with_dim(s.dim, [&](auto dd) {
    constexpr std::size_t dim = decltype(dd)::value;
    using View = ml::tile_view<dim, Byte, Lazy<Byte>>;
    std::size_t t = 0;
    auto touch = [&](View &v, std::size_t t) {
      if (v.size() != s.tile_total) fail(fmt("a view reports %zu elements instead of %zu", v.size(), s.tile_total));
      for (int k = 0; k < 3; ++k) {
        std::size_t i = somewhere(r, s.tile_total), pos = t * s.tile_total + i;
        auto ic = Shape::split(i, s.tile);
        std::array<std::size_t, dim> a;
        for (std::size_t d = 0; d < dim; ++d) a[d] = ic[d];
        const Byte *want = store.data() + pos;
        if (&v[i] != want) fail(fmt("tile %zu, flat offset %zu: another element", t, i));
        if (&v[a] != want) fail(fmt("tile %zu, index array of element %zu: another element", t, i));
        if (&call_op(v, a, std::make_index_sequence<dim>()) != want) fail(fmt("tile %zu, separate indices of element %zu: another element", t, i));
        v[a] = model[pos] = Byte(1 + r.below(255));
      }
    };
    ml::iterate_tiles<dim>(store, s.info, [&](View v) {
      if (t >= s.tiles) fail("more calls than tiles");
      auto want = Shape::split(t, s.count);
      for (std::size_t d = 0; d < dim; ++d) {
        if (v.get_tile_index()[d] != want[d]) fail(fmt("call %zu: wrong tile index", t));
        if (v.get_tiles_dir()[d] != s.count[d]) fail(fmt("call %zu: wrong number of tiles", t));
      }
      touch(v, t++);
    });
    if (t != s.tiles) fail(fmt("%zu calls for %zu tiles", t, s.tiles));
    std::size_t idx[dim];
    for (std::size_t d = 0; d < dim; ++d) idx[d] = s.count[d] - 1;
    View last(store, idx, s.info);
    touch(last, s.tiles - 1);
    // the helper that numbers coordinates
    for (int k = 0; k < 4; ++k) {
      std::size_t f = somewhere(r, s.total);
      auto co = Shape::split(f, s.extent);
      std::size_t ci[dim], ce[dim];
      std::array<std::size_t, dim> ai, ae;
      for (std::size_t d = 0; d < dim; ++d) ci[d] = ai[d] = co[d], ce[d] = ae[d] = s.extent[d];
      if (ml::flat_index<dim>(ai, ae) != f || ml::flat_index<dim>(ci, ce) != f) fail(fmt("flat_index of element %zu is not its row-major number", f));
    }
  });
  for (auto &e : model)
    if (store[e.first] != e.second) fail(fmt("element %zu was overwritten through a view of another one", e.first));
  x.label(s.total > (1ULL << 32) ? "more than 2^32 elements" : s.total > (1ULL << 31) ? "more than 2^31 elements" : "up to 2^31 elements");
  x.nontrivial = s.total > (1ULL << 31);
}

// ------------------------------------------------------------ C08
// a sparse array: the marks, zero elsewhere; says what differs
std::string differs(const Bytes &v, const std::map<std::size_t, Byte> &marks) {
  for (auto &e : marks)
    if (v[e.first] != e.second) return fmt("element %zu is %d instead of %d", e.first, v[e.first], e.second);
  std::size_t n = 0, i = 0;
  for (; i < v.size(); i += 1 << 20) {
    std::size_t end = i + (1 << 20) < v.size() ? i + (1 << 20) : v.size();
    unsigned long long k = 0;
    for (std::size_t j = i; j < end; ++j) k += v[j] != 0;
    n += k;
  }
  if (n != marks.size()) return fmt("%zu elements are not zero instead of %zu", n, marks.size());
  return "";
}
void run_layout(const Case &c, Ctx &x) {
  Shape s(c);
  x.label(s.total > (1ULL << 32) ? "more than 2^32 elements" : "up to 2^32 elements");
  if (!roomy(s.total)) {
    x.label("not run: too little memory");
    return;
  }
  Stream r(c["seed"]);
  std::map<std::size_t, Byte> marks, want;
  for (int k = 0; k < 1500; ++k) {
    std::size_t p = somewhere(r, s.total);
    Byte b = Byte(1 + r.below(255));
    marks[p] = want[s.tiled(p)] = b;
  }
  std::string m;
  with_dim(s.dim, [&](auto dd) {
    constexpr std::size_t dim = decltype(dd)::value;
    Bytes arg(s.total);
    for (auto &e : c["undo"] ? want : marks) arg[e.first] = e.second;
    Bytes res = c["undo"] ? ml::undo_tiling<dim>(arg, s.info) : ml::make_tiled<dim>(arg, s.info);
    if (res.size() != s.total) fail(fmt("%zu elements instead of %zu", res.size(), s.total));
    m = differs(res, c["undo"] ? marks : want);
  });
  if (!m.empty()) fail((c["undo"] ? "undo_tiling: " : "make_tiled: ") + m);
  x.nontrivial = s.total > (1ULL << 31);
}
Case gen_layout(Src &s) {
  Case c;
  c.set("dim", 2);
  c.set("undo", s.range(0, 1));
  c.set("seed", s.range(0, 1 << 16));
  std::int64_t t0 = s.range(1, 64), c0 = s.range(1, 9), c1 = s.range(1, 9);
  c.set("t0", t0);
  c.set("c0", c0);
  c.set("t1", ((std::int64_t(1) << 32) + (std::int64_t(1) << 24)) / (t0 * c0 * c1) + s.range(0, 9));
  c.set("c1", c1);
  return c;
}
std::vector<Case> corpus_layout() {
  return {{{"dim", 2}, {"undo", 0}, {"seed", 1}, {"t0", 3}, {"c0", 2}, {"t1", 143165577}, {"c1", 5}},
          {{"dim", 2}, {"undo", 1}, {"seed", 2}, {"t0", 2}, {"c0", 3}, {"t1", 119304648}, {"c1", 6}}};
}

// ------------------------------------------------------------ C14
void run_matrix(const Case &c, Ctx &x) {
  std::size_t n = std::size_t(c["n"]), m = std::size_t(c["m"]);
  static const char *what[] = {"identity", "transposition", "random floats", "enumerating"};
  x.label(what[c["what"]]);
  x.label(n * m > (1ULL << 32) ? "more than 2^32 components" : "up to 2^32 components");
  if (!roomy(n * m * (c["what"] == 3 ? 8 : c["what"] == 2 ? 4 : 1))) {
    x.label("not run: too little memory");
    return;
  }
  x.nontrivial = true;
  Stream r(c["seed"]);
  if (c["what"] == 0) {
    std::vector<Byte> id = util::create_identity_matrix<Byte>(n);
    if (id.size() != n * n) fail("identity: wrong size");
    std::size_t ones = 0, sum = 0;
    for (std::size_t i = 0; i < id.size(); ++i) sum += id[i];
    for (std::size_t i = 0; i < n; ++i) ones += id[i * n + i] == 1;
    if (ones != n || sum != n) fail(fmt("identity of size %zu: %zu ones on the diagonal, sum %zu", n, ones, sum));
    return;
  }
  if (c["what"] == 2) {
    std::vector<float> f = util::create_random_matrix<float>(n);
    if (f.size() != n * n) fail("random: wrong size");
    for (std::size_t i = 0; i < f.size(); ++i)
      if (!(f[i] >= 0.0f && f[i] < 1.0f)) fail(fmt("random floats of size %zu: component %zu is %.9g", n, i, double(f[i])));
    // rows and columns: each is recognised by a hash of its components
    std::vector<std::uint64_t> row(n, 1), col(n, 1);
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j) {
        std::uint32_t b;
        std::memcpy(&b, &f[i * n + j], 4);
        row[i] = (row[i] ^ b) * 0x9e3779b97f4a7c15ULL;
        col[j] = (col[j] ^ b) * 0x9e3779b97f4a7c15ULL;
      }
    std::sort(row.begin(), row.end());
    std::sort(col.begin(), col.end());
    if (std::adjacent_find(row.begin(), row.end()) != row.end()) fail(fmt("random floats of size %zu: a row is repeated", n));
    if (std::adjacent_find(col.begin(), col.end()) != col.end()) fail(fmt("random floats of size %zu: a column is repeated", n));
    return;
  }
  if (c["what"] == 3) {
    // beyond what a float or a narrow counter can number
    auto numbered = [&](auto v) {
      using T = decltype(v);
      std::vector<T> e = util::create_enumerating_matrix<T>(n);
      if (e.size() != n * n) fail("enumerating: wrong size");
      for (std::size_t i = 0; i < e.size(); ++i)
        if (e[i] != T(i)) fail(fmt("enumerating of size %zu: component %zu is %.17g", n, i, double(e[i])));
    };
    if (c["seed"] % 3 == 0) numbered(double());
    else if (c["seed"] % 3 == 1) numbered(std::int64_t());
    else numbered(float());
    return;
  }
  // transposition: the result has n rows of m components
  Bytes org(n * m);
  std::map<std::size_t, Byte> want;
  for (int k = 0; k < 1500; ++k) {
    std::size_t p = somewhere(r, n * m);
    org[p] = want[p % n * m + p / n] = Byte(1 + r.below(255));
  }
  Bytes res = util::transpose_matrix(n, m, org);
  if (res.size() != n * m) fail("transposition: wrong size");
  std::string d = differs(res, want);
  if (!d.empty()) fail(fmt("transposition to %zu rows of %zu: ", n, m) + d);
}
Case gen_matrix(Src &s) {
  Case c;
  c.set("what", s.pick({1, 1, 2, 0, 3}));
  c.set("seed", s.range(0, 1 << 16));
  std::int64_t n = c["what"] == 0 ? s.range(65537, 66000) : c["what"] == 2 ? s.range(500, 16000) : c["what"] == 3 ? s.range(4097, 9000) : s.range(1, 12), m = n;
  if (c["what"] == 1) {
    m = ((std::int64_t(1) << 32) + (std::int64_t(1) << 24)) / n;
    if (s.chance(1, 2)) std::swap(n, m);
  }
  c.set("n", n);
  c.set("m", m);
  return c;
}
std::vector<Case> corpus_matrix() {
  return {{{"what", 0}, {"seed", 1}, {"n", 65601}, {"m", 65601}},
          {{"what", 1}, {"seed", 1}, {"n", 3}, {"m", 1436000001}},
          {{"what", 2}, {"seed", 0}, {"n", 11400}, {"m", 11400}},
          {{"what", 3}, {"seed", 0}, {"n", 5000}, {"m", 5000}},
          {{"what", 3}, {"seed", 1}, {"n", 4200}, {"m", 4200}}};
}
bool valid_matrix(const Case &c) { return c["what"] >= 0 && c["what"] <= 3 && c["n"] >= 1 && c["m"] >= 1 && double(c["n"]) * double(c["m"]) < 6e9 && (c["what"] == 1 || c["n"] == c["m"]); }

// ------------------------------------------------------------ C07
// a vector of n elements whose storage is mapped, but neither written nor read
template <typename T> void stretch(std::vector<T> &v, std::size_t n) {
  v.reserve(n);
  T *p[3];
  static_assert(sizeof(v) == sizeof(p), "a vector is three pointers");
  std::memcpy(p, &v, sizeof p);
  p[1] = p[0] + n;
  std::memcpy(static_cast<void *>(&v), p, sizeof p);
  if (v.size() != n) fail("harness: no storage");
  madvise(reinterpret_cast<void *>((reinterpret_cast<std::uintptr_t>(p[0]) + 4095) / 4096 * 4096), n * sizeof(T) - 8192, MADV_NOHUGEPAGE);
}
template <typename T> void far_block(const Case &c, Ctx &x) {
  std::size_t n = c["n"], px = c["x"], py = c["y"], b = c["b"];
  std::vector<T> A, B, C(b * b, T(0));
  try {
    stretch(A, n * n);
    stretch(B, n * n);
  } catch (const std::bad_alloc &) {
    x.label("not run: too little memory");
    return;
  }
  Stream r(c["seed"]);
  std::vector<std::size_t> at{0, n - 1};
  for (int k = 0; k < 1000; ++k) at.push_back(somewhere(r, n));
  std::sort(at.begin(), at.end());
  at.erase(std::unique(at.begin(), at.end()), at.end());
  std::vector<std::int64_t> want(b * b, 0), u(b), v(b);
  for (std::size_t k : at) {
    for (std::size_t i = 0; i < b; ++i) A[(px + i) * n + k] = T(u[i] = r.in(-9, 9));
    for (std::size_t j = 0; j < b; ++j) (c["kernel"] == 0 ? B[k * n + py + j] : B[(py + j) * n + k]) = T(v[j] = r.in(-9, 9));
    for (std::size_t i = 0; i < b; ++i)
      for (std::size_t j = 0; j < b; ++j) want[i * b + j] += u[i] * v[j];
  }
  if (c["kernel"] == 0) kernel::kernel<T>(A, B, C, n, px, py, b);
  else if (c["kernel"] == 1) kernel::kernel_transposed<T>(A, B, C, n, px, py, b);
  else kernel::kernel_transposed_blocked<T>(A, B, C, n, px, py, b, std::size_t(c["bi"]));
  for (std::size_t i = 0; i < b; ++i)
    for (std::size_t j = 0; j < b; ++j)
      if (C[i * b + j] != T(want[i * b + j])) fail(fmt("size %zu, block at (%zu,%zu): component (%zu,%zu) is %lld instead of %lld", n, px, py, i, j, (long long)C[i * b + j], (long long)T(want[i * b + j])));
}
void run_kernel(const Case &c, Ctx &x) {
  static const char *name[] = {"kernel", "kernel_transposed", "kernel_transposed_blocked"};
  x.label(name[c["kernel"]]);
  x.label(c["n"] > 65535 ? "more than 2^32 components" : c["n"] > 46340 ? "more than 2^31 components" : "up to 2^31 components");
  x.nontrivial = c["n"] > 46340;
  if (c["type"] == 0) far_block<unsigned char>(c, x);
  else if (c["type"] == 1) far_block<short>(c, x);
  else far_block<int>(c, x);
}
Case gen_far_kernel(Src &s) {
  Case c;
  std::int64_t n = s.chance(1, 3) ? s.range(46300, 46500) : s.chance(1, 2) ? s.range(65520, 66000) : s.range(40000, 70000);
  c.set("kernel", s.range(0, 2));
  c.set("type", s.range(0, 2));
  std::int64_t b = c["kernel"] == 2 ? 4 * s.range(1, 4) : s.range(1, 12);
  c.set("n", n);
  c.set("b", b);
  c.set("x", s.chance(1, 3) ? n - b : s.range(0, n - b));
  c.set("y", s.chance(1, 3) ? n - b : s.range(0, n - b));
  c.set("bi", s.chance(1, 3) ? s.range(1, 300) : s.chance(1, 2) ? s.range(32000, 70000) : s.range(1, 2 * n));
  c.set("seed", s.range(0, 1 << 16));
  return c;
}
bool valid_far_kernel(const Case &c) {
  return c["kernel"] >= 0 && c["kernel"] <= 2 && c["type"] >= 0 && c["type"] <= 2 && c["n"] >= 64 && c["n"] <= 80000 && c["b"] >= 1 && c["b"] <= 64 && c["x"] >= 0 &&
         c["y"] >= 0 && c["x"] + c["b"] <= c["n"] && c["y"] + c["b"] <= c["n"] && c["bi"] >= 1 && (c["kernel"] != 2 || c["b"] % 4 == 0);
}
}

std::vector<Target> pbt::targets() {
  return {{"far views", gen_far, run_far, {}, valid_shape},
          {"vast layout", gen_layout, run_layout, corpus_layout(), valid_shape},
          {"far blocks", gen_far_kernel, run_kernel, {}, valid_far_kernel},
          {"vast matrices", gen_matrix, run_matrix, corpus_matrix(), valid_matrix}};
}
