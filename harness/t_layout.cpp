// C08 tiled layout, C09 tile views and iteration, C16 errors
// PART selects one of the three (compile time); 0 builds all
#ifndef PART
#define PART 0
#endif
#include "threads.hpp"

#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <limits>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <boost/align/aligned_allocator.hpp>

#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"
#include "util/matrix_multiplication_exception.hpp"

using namespace pbt;
namespace ml = memory_layout;

namespace {
const int MAXDIM = 7; // from 6 on with one element type

// ------------------------------------------------------------ element types
struct Rec {
  std::int64_t a = -1;
  char b = 'x';
  bool operator==(const Rec &o) const { return a == o.a && b == o.b; }
};
template <typename T> T value(std::uint64_t v);
template <> std::int64_t value(std::uint64_t v) { return std::int64_t(v); }
// all sorts of values; arrays of them are compared by representation
template <> double value(std::uint64_t v) {
  static const double odd[] = {-0.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::quiet_NaN(), 5e-324, -1.7976931348623157e308, 0.1};
  return v % 8 < 6 && v % 3 == 0 ? odd[v % 8] : double(v % (1ULL << 50));
}
template <typename T> bool same_value(const T &a, const T &b) { return a == b; }
bool same_value(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
template <typename T, typename U> bool same_array(const std::vector<T, U> &a, const std::vector<T, U> &b) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!same_value(a[i], b[i])) return false;
  return true;
}
template <> std::string value(std::uint64_t v) { return "element number " + std::to_string(v); }
template <> unsigned char value(std::uint64_t v) { return (unsigned char)(v * 37); }
template <> Rec value(std::uint64_t v) {
  Rec r;
  r.a = std::int64_t(v);
  r.b = char('a' + v % 26);
  return r;
}
const char *type_name[] = {"int64", "double aligned", "string", "unsigned char", "struct"};
const int TYPES = 5;

// ------------------------------------------------------------ shapes
struct Shape {
  std::size_t dim;
  std::vector<std::size_t> count, tile, extent; // extent = count * tile
  std::vector<ml::tiling_info_dim> info;
  std::size_t total = 1, tiles = 1, tile_total = 1;
  explicit Shape(const Case &c) : dim(std::size_t(c["dim"])) {
    for (std::size_t d = 0; d < dim; ++d) {
      count.push_back(std::size_t(c[("c" + std::to_string(d)).c_str()]));
      tile.push_back(std::size_t(c[("t" + std::to_string(d)).c_str()]));
      extent.push_back(count[d] * tile[d]);
      ml::tiling_info_dim i;
      i.tile_size_dir = tile[d];
      i.stride = extent[d];
      info.push_back(i);
      total *= extent[d];
      tiles *= count[d];
      tile_total *= tile[d];
    }
  }
  // coordinate of a row-major position
  std::vector<std::size_t> coord(std::size_t flat) const {
    std::vector<std::size_t> c(dim);
    for (std::size_t d = dim; d-- > 0;) {
      c[d] = flat % extent[d];
      flat /= extent[d];
    }
    return c;
  }
  std::size_t flat(const std::vector<std::size_t> &c) const {
    std::size_t f = 0;
    for (std::size_t d = 0; d < dim; ++d) f = f * extent[d] + c[d];
    return f;
  }
  // position in the tiled layout
  std::size_t tiled(const std::vector<std::size_t> &c) const {
    std::size_t t = 0, i = 0;
    for (std::size_t d = 0; d < dim; ++d) {
      t = t * count[d] + c[d] / tile[d];
      i = i * tile[d] + c[d] % tile[d];
    }
    return t * tile_total + i;
  }
  std::vector<std::size_t> tile_coord(std::size_t t) const {
    std::vector<std::size_t> c(dim);
    for (std::size_t d = dim; d-- > 0;) {
      c[d] = t % count[d];
      t /= count[d];
    }
    return c;
  }
  std::vector<std::size_t> inner_coord(std::size_t i) const {
    std::vector<std::size_t> c(dim);
    for (std::size_t d = dim; d-- > 0;) {
      c[d] = i % tile[d];
      i /= tile[d];
    }
    return c;
  }
  bool square() const {
    for (std::size_t d = 1; d < dim; ++d)
      if (extent[d] != extent[0] || tile[d] != tile[0]) return false;
    return true;
  }
};
void gen_shape(Src &s, Case &c, std::int64_t limit) {
#ifdef ONLY_DIM2
  std::int64_t dim = 2;
#else
  std::int64_t dim = s.pick({1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, s.range(5, MAXDIM)});
  if (dim > 5 && c.has("type")) c.set("type", 0);
#endif
  c.set("dim", dim);
  if (c.get("type", 2) != 2 && s.chance(1, 150)) { // extents beyond 256 and 65536
    std::int64_t budget = 140000;
    for (std::int64_t d = 0; d < dim; ++d) {
      std::int64_t most = d + 1 == dim ? budget : std::min<std::int64_t>(budget, s.chance(1, 2) ? 400 : 4);
      std::int64_t t = s.range(1, s.chance(1, 2) ? most : std::min<std::int64_t>(most, 300)), k = s.range(1, std::max<std::int64_t>(1, most / t));
      budget = std::max<std::int64_t>(1, budget / (t * k));
      c.set("t" + std::to_string(d), t);
      c.set("c" + std::to_string(d), k);
    }
    return;
  }
  bool big = s.chance(1, 6);
  std::int64_t budget = big ? 4 * limit : limit;
  for (std::int64_t d = 0; d < dim; ++d) {
    std::int64_t most = dim <= 2 ? 9 : dim == 3 ? 5 : 3;
    if (big) most = dim == 1 ? 100 : dim == 2 ? 24 : dim == 3 ? 9 : 4;
    std::int64_t t = s.range(1, most), k = s.range(1, most);
    if (s.chance(1, 60)) k = 0;
    while (k > 1 && t * k > budget) k--;
    while (t > 1 && t * k > budget) t--;
    if (k) budget /= t * k;
    if (budget < 1) budget = 1;
    c.set("t" + std::to_string(d), t);
    c.set("c" + std::to_string(d), k);
  }
}
bool valid_shape(const Case &c) {
#ifdef ONLY_DIM2
  if (c["dim"] != 2) return false;
#endif
  if (c["dim"] < 1 || c["dim"] > MAXDIM) return false;
  for (std::int64_t d = 0; d < c["dim"]; ++d)
    if (!c.has(("t" + std::to_string(d)).c_str()) || c[("t" + std::to_string(d)).c_str()] < 1 || c[("c" + std::to_string(d)).c_str()] < 0) return false;
  return true;
}
void shape_labels(const Shape &s, Ctx &x) {
  x.label("dimensions:" + std::to_string(s.dim));
  x.label_if(!s.square(), "non-square shape");
  x.label_if(s.total == 0, "empty array");
  x.label_if(s.total > 65536, "more than 65536 elements");
  x.label_if(s.tiles == 1, "single tile");
  x.label_if(s.tile_total == 1, "tiles of one element");
  x.nontrivial = s.tiles > 1 && s.tile_total > 1;
}
std::string show(const std::vector<std::size_t> &c) {
  std::string s = "(";
  for (std::size_t d = 0; d < c.size(); ++d) s += (d ? "," : "") + std::to_string(c[d]);
  return s + ")";
}
template <typename A> std::vector<std::size_t> to_vec(const A &a) { return std::vector<std::size_t>(a.begin(), a.end()); }

// run f.template go<dim>() for the dimension of the case
template <typename F> void with_dim(std::size_t dim, F f) {
#ifdef ONLY_DIM2
  f(std::integral_constant<std::size_t, 2>());
#else
  switch (dim) {
  case 1: f(std::integral_constant<std::size_t, 1>()); break;
  case 2: f(std::integral_constant<std::size_t, 2>()); break;
  case 3: f(std::integral_constant<std::size_t, 3>()); break;
  case 4: f(std::integral_constant<std::size_t, 4>()); break;
  case 5: f(std::integral_constant<std::size_t, 5>()); break;
  case 6: f(std::integral_constant<std::size_t, 6>()); break;
  default: f(std::integral_constant<std::size_t, 7>());
  }
#endif
}

// ------------------------------------------------------------ C08
template <typename T, typename U> std::vector<T, U> contents(std::size_t n, std::uint64_t seed) {
  std::vector<T, U> v(n);
  Stream s(seed);
  std::uint64_t base = s.below(1000), dup = s.below(4) == 0 ? 3 : 1;
  for (std::size_t i = 0; i < n; ++i) v[i] = value<T>(base + i / dup);
  return v;
}
template <std::size_t dim, typename T, typename U> void layout(const Case &c, const Shape &s) {
  std::vector<T, U> org = contents<T, U>(s.total, c["seed"]);
  const std::vector<T, U> keep = org;
  std::vector<T, U> tiled = ml::make_tiled<dim>(org, s.info);
  if (!same_array(org, keep)) fail("the source array was modified");
  for (std::size_t d = 0; d < dim; ++d)
    if (s.info[d].tile_size_dir != s.tile[d] || s.info[d].stride != s.extent[d]) fail("the tiling description was modified");
  if (tiled.size() != s.total) fail(fmt("tiled array has %zu elements instead of %zu", tiled.size(), s.total));
  for (std::size_t i = 0; i < s.total; ++i) {
    auto co = s.coord(i);
    if (!same_value(tiled[s.tiled(co)], keep[i])) fail("element " + show(co) + " is not at position " + std::to_string(s.tiled(co)) + " of the tiled array");
  }
  const std::vector<T, U> keep_tiled = tiled;
  std::vector<T, U> back = ml::undo_tiling<dim>(tiled, s.info);
  if (!same_array(tiled, keep_tiled)) fail("undoing the tiling modified the tiled array");
  if (!same_array(back, keep)) fail("undoing the tiling does not restore the array");
  // any tiled array, not only one made by make_tiled
  std::vector<T, U> other = contents<T, U>(s.total, c["seed"] + 77);
  back = ml::undo_tiling<dim>(other, s.info);
  if (back.size() != s.total) fail("untiled array has another size");
  for (std::size_t i = 0; i < s.total; ++i) {
    auto co = s.coord(i);
    if (!same_value(back[i], other[s.tiled(co)])) fail("element " + show(co) + " of the untiled array is wrong");
  }
  if (!same_array(ml::make_tiled<dim>(back, s.info), other)) fail("tiling again does not restore the tiled array");
#ifndef NO_FLAT
  // the helper that numbers coordinates, in both its forms
  for (std::size_t k = 0; k < 8 && s.total; ++k) {
    std::size_t i = k < 2 ? (s.total - 1) * k : (k * 7919 + std::size_t(c["seed"])) % s.total;
    auto co = s.coord(i);
    std::size_t ci[dim], ce[dim];
    std::array<std::size_t, dim> ai, ae;
    for (std::size_t d = 0; d < dim; ++d) ci[d] = ai[d] = co[d], ce[d] = ae[d] = s.extent[d];
    if (ml::flat_index<dim>(ai, ae) != i) fail("flat_index of " + show(co) + " (std::array) is not its row-major number");
    if (ml::flat_index<dim>(ci, ce) != i) fail("flat_index of " + show(co) + " (C array) is not its row-major number");
  }
#endif
  // the same storage with other contents: nothing may be remembered
  if (c.get("again", 0)) {
    std::vector<T, U> fresh = contents<T, U>(s.total, c["seed"] + 311);
    for (std::size_t i = 0; i < s.total; ++i) org[i] = fresh[i];
    std::vector<T, U> t2 = ml::make_tiled<dim>(org, s.info);
    for (std::size_t i = 0; i < s.total; ++i)
      if (!same_value(t2[s.tiled(s.coord(i))], fresh[i])) fail("tiling the same storage with other contents: element " + show(s.coord(i)) + " is wrong");
    for (std::size_t i = 0; i < s.total; ++i) tiled[i] = t2[i];
    if (!same_array(ml::undo_tiling<dim>(tiled, s.info), fresh)) fail("undoing the tiling of the same storage with other contents is wrong");
  }
}
// tiles and counts exchanged: as many elements in another arrangement
Case swapped(Case c) {
  for (std::int64_t d = 0; d < c["dim"]; ++d) {
    std::string k = std::to_string(d);
    std::int64_t a = c[("t" + k).c_str()], b = c[("c" + k).c_str()];
    if (a < 1 || b < 1) continue;
    c.set("t" + k, b);
    c.set("c" + k, a);
  }
  c.set("seed", c["seed"] + 1000);
  return c;
}
#if PART == 0 || PART == 8
Case gen_layout(Src &s) {
  Case c;
  c.set("type", s.range(0, TYPES - 1));
  c.set("seed", s.range(0, 9999));
  gen_shape(s, c, c["type"] == 2 ? 600 : 3000);
  c.set("again", s.range(0, 2));
  return c;
}
void run_layout(const Case &c, Ctx &x) {
  Shape s(c);
  with_dim(s.dim, [&](auto d) {
    constexpr std::size_t D = decltype(d)::value;
    if constexpr (D > 5) layout<D, std::int64_t, std::allocator<std::int64_t>>(c, s);
    else switch (c["type"]) {
    case 0:
      layout<D, std::int64_t, std::allocator<std::int64_t>>(c, s);
      if (c.get("again", 0) > 1) {
        Case other = swapped(c);
        layout<D, std::int64_t, std::allocator<std::int64_t>>(other, Shape(other));
        layout<D, std::int64_t, std::allocator<std::int64_t>>(c, s);
      }
      break;
    case 1: layout<D, double, boost::alignment::aligned_allocator<double, 64>>(c, s); break;
#ifndef ONLY_NUMBERS
    case 2: layout<D, std::string, std::allocator<std::string>>(c, s); break;
    case 4: layout<D, Rec, std::allocator<Rec>>(c, s); break;
#endif
    default: layout<D, unsigned char, std::allocator<unsigned char>>(c, s);
    }
  });
  x.label(std::string("type:") + type_name[c["type"]]);
  shape_labels(s, x);
  x.note = "extents " + show(s.extent) + " tiles " + show(s.tile);
}
#endif
std::vector<Case> corpus_layout() {
  std::vector<Case> v;
  // every small 1-d and 2-d shape
  for (std::int64_t a = 1; a <= 4; ++a)
    for (std::int64_t b = 1; b <= 4; ++b) {
      v.push_back({{"type", 0}, {"seed", 1}, {"dim", 1}, {"t0", a}, {"c0", b}});
      for (std::int64_t k = 1; k <= 3; ++k)
        for (std::int64_t l = 1; l <= 3; ++l)
          v.push_back({{"type", (a + b) % TYPES}, {"seed", 1}, {"dim", 2}, {"t0", a}, {"c0", k}, {"t1", b}, {"c1", l}});
    }
  for (int m = 0; m < 64; ++m)
    v.push_back({{"type", 0}, {"seed", 2}, {"dim", 3}, {"t0", 1 + (m & 1)}, {"c0", 1 + ((m >> 1) & 1)}, {"t1", 1 + 2 * ((m >> 2) & 1)}, {"c1", 1 + 2 * ((m >> 3) & 1)}, {"t2", 1 + 3 * ((m >> 4) & 1)}, {"c2", 1 + 4 * ((m >> 5) & 1)}});
  return v;
}

// ------------------------------------------------------------ C09
#if PART == 0 || PART == 9
template <typename V, std::size_t... I> auto &call_op(V &v, const std::array<std::size_t, sizeof...(I)> &a, std::index_sequence<I...>) {
  return v(a[I]...);
}
template <std::size_t dim, typename T, typename U> void views(const Case &c, const Shape &s, Ctx &x) {
  std::vector<T, U> store = contents<T, U>(s.total, c["seed"]);
  std::vector<T, U> model = store; // in storage order
  using View = ml::tile_view<dim, T, U>;
  std::vector<View> vs;
  // direct construction and iteration have to agree
  std::size_t calls = 0;
  auto inspect = [&](View &v, std::size_t t) {
    auto tc = s.tile_coord(t);
    if (to_vec(v.get_tile_index()) != tc) fail("call " + std::to_string(t) + ": view reports tile " + show(to_vec(v.get_tile_index())) + " instead of " + show(tc));
    if (to_vec(v.get_tiles_dir()) != s.count) fail("view reports " + show(to_vec(v.get_tiles_dir())) + " tiles per dimension instead of " + show(s.count));
    if (v.size() != s.tile_total) fail(fmt("view reports %zu elements instead of %zu", v.size(), s.tile_total));
  };
  auto storage = [&](View &v, std::size_t t) {
    for (std::size_t i = 0; i < s.tile_total; ++i) {
      auto ic = s.inner_coord(i);
      std::array<std::size_t, dim> a;
      for (std::size_t d = 0; d < dim; ++d) a[d] = ic[d];
      const T *want = &store[t * s.tile_total + i];
      if (&v[i] != want) fail(fmt("flat offset %zu addresses another element", i));
      if (&v[a] != want) fail("index array " + show(ic) + " addresses another element");
      if (&call_op(v, a, std::make_index_sequence<dim>()) != want) fail("separate indices " + show(ic) + " address another element");
    }
  };
  {
    // the description is gone when the views are used
    std::unique_ptr<std::vector<ml::tiling_info_dim>> info(new std::vector<ml::tiling_info_dim>(s.info));
    ml::iterate_tiles<dim>(store, *info, [&](View v) {
      if (calls >= s.tiles) fail("more calls than tiles");
      inspect(v, calls);
      storage(v, calls);
      vs.push_back(v);
      calls++;
    });
    for (std::size_t d = 0; d < dim; ++d) {
      if ((*info)[d].tile_size_dir != s.tile[d] || (*info)[d].stride != s.extent[d]) fail("iteration modified the tiling description");
      (*info)[d].tile_size_dir = (*info)[d].stride = 1;
    }
  }
  if (calls != s.tiles) fail(fmt("%zu calls for %zu tiles", calls, s.tiles));
  if (c.get("inner", 0) && s.tiles) {
    std::size_t outer = 0, at = s.tiles / 2;
    bool thrown = false;
    try {
      ml::iterate_tiles<dim>(store, s.info, [&](View v) {
        inspect(v, outer);
        if (outer == at && c["inner"] == 2) throw 1;
        if (outer == at) {
          // an array of another shape inside the function
          Case other = swapped(c);
          Shape os(other);
          std::vector<T, U> st2 = contents<T, U>(os.total, 5);
          std::size_t in = 0;
          ml::iterate_tiles<dim>(st2, os.info, [&](View w) {
            if (in >= os.tiles || to_vec(w.get_tile_index()) != os.tile_coord(in)) fail("iteration inside an iteration: wrong tile");
            if (w.size() != os.tile_total || &w[0] != &st2[in * os.tile_total]) fail("iteration inside an iteration: wrong elements");
            ++in;
          });
          if (in != os.tiles) fail("iteration inside an iteration: wrong number of calls");
          inspect(v, outer);
          storage(v, outer);
        }
        ++outer;
      });
    } catch (int) {
      thrown = true;
    }
    if (thrown != (c["inner"] == 2)) fail("an exception thrown by the function does not reach the caller");
    if (outer != (thrown ? at : s.tiles)) fail(fmt("%zu calls for %zu tiles with an iteration inside", outer, s.tiles));
  }
  if (!same_array(store, model)) fail("iteration modified the array");
  if (s.tiles == 0) return;
  for (std::size_t t = 0; t < s.tiles; ++t) { // still valid after the iteration
    inspect(vs[t], t);
    if (t < 3 || t + 1 == s.tiles) storage(vs[t], t);
  }
  // some directly constructed views, which share the storage
  Stream r(c["seed"] + 13);
  std::vector<std::size_t> owner(s.tiles);
  for (std::size_t t = 0; t < s.tiles; ++t) owner[t] = t;
  for (int i = 0; i < 4; ++i) {
    std::size_t t = r.below(s.tiles);
    auto tc = s.tile_coord(t);
    std::size_t idx[dim];
    for (std::size_t d = 0; d < dim; ++d) idx[d] = tc[d];
    {
      std::unique_ptr<std::vector<ml::tiling_info_dim>> info(new std::vector<ml::tiling_info_dim>(s.info));
      vs.push_back(View(store, idx, *info));
      for (auto &d : *info) d.tile_size_dir = d.stride = 1;
    }
    owner.push_back(t);
    for (std::size_t d = 0; d < dim; ++d) idx[d] = 0; // the view has its own copy
    inspect(vs.back(), t);
    storage(vs.back(), t);
  }
  // history of reads and writes through several views
  std::int64_t ops = c["ops"];
  for (std::int64_t k = 0; k < ops; ++k) {
    std::size_t w = r.below(vs.size()), i = r.below(s.tile_total), pos = owner[w] * s.tile_total + i;
    auto ic = s.inner_coord(i);
    std::array<std::size_t, dim> a;
    for (std::size_t d = 0; d < dim; ++d) a[d] = ic[d];
    unsigned mode = unsigned(r.below(3));
    T &ref = mode == 0 ? vs[w][i] : mode == 1 ? vs[w][a] : call_op(vs[w], a, std::make_index_sequence<dim>());
    if (!same_value(ref, model[pos])) fail("step " + std::to_string(k) + ": reading " + show(ic) + " of a view of tile " + show(s.tile_coord(owner[w])) + " gives another value than was written last");
    if (r.below(2)) {
      T nv = value<T>(5000 + std::uint64_t(k));
      ref = nv;
      model[pos] = nv;
    }
  }
  if (!same_array(store, model)) fail("after the history the array differs from what was written");
  // the storage addressed is that of the original coordinates
  std::vector<T, U> org = ml::undo_tiling<dim>(store, s.info);
  for (std::size_t i = 0; i < s.total; ++i)
    if (!same_value(org[i], model[s.tiled(s.coord(i))])) fail("element " + show(s.coord(i)) + " of the original array is addressed wrongly");
  x.label_if(ops > 20, "long history");
}
Case gen_views(Src &s) {
  Case c;
  c.set("type", s.range(0, TYPES - 1));
  c.set("seed", s.range(0, 9999));
  c.set("ops", s.range(0, 60));
  gen_shape(s, c, 1200);
  c.set("inner", s.range(0, 2));
  return c;
}
void run_views(const Case &c, Ctx &x) {
  Shape s(c);
  with_dim(s.dim, [&](auto d) {
    constexpr std::size_t D = decltype(d)::value;
    if constexpr (D > 5) views<D, std::int64_t, std::allocator<std::int64_t>>(c, s, x);
    else switch (c["type"]) {
    case 0: views<D, std::int64_t, std::allocator<std::int64_t>>(c, s, x); break;
    case 1: views<D, double, boost::alignment::aligned_allocator<double, 64>>(c, s, x); break;
#ifndef ONLY_NUMBERS
    case 2: views<D, std::string, std::allocator<std::string>>(c, s, x); break;
    case 4: views<D, Rec, std::allocator<Rec>>(c, s, x); break;
#endif
    default: views<D, unsigned char, std::allocator<unsigned char>>(c, s, x);
    }
  });
  x.label(std::string("type:") + type_name[c["type"]]);
  shape_labels(s, x);
  x.note = "extents " + show(s.extent) + " tiles " + show(s.tile);
}
#ifdef THREADED
// One array, several threads, each with views and tiles of its own (and one
// tile that all of them read).
template <std::size_t dim, typename T, typename U> void shared_views(const Case &c, const Shape &s) {
  std::vector<T, U> store = contents<T, U>(s.total, c["seed"]), model = store;
  using View = ml::tile_view<dim, T, U>;
  std::size_t n = std::size_t(c["threads"]);
  std::vector<std::string> msg(n);
  std::vector<std::thread> th;
  std::atomic<std::size_t> ready{0};
  std::vector<View> made;
  ml::iterate_tiles<dim>(store, s.info, [&](View v) { made.push_back(v); });
  if (made.size() != s.tiles) fail("wrong number of calls");
  for (std::size_t k = 0; k < n; ++k)
    th.emplace_back([&, k] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
      try {
        for (std::size_t t = s.tiles > 1 ? 0 : k ? s.tiles : 0; t < s.tiles; ++t) {
          bool read_only = t == 0 && s.tiles > 1;
          if (!read_only && t % n != k) continue;
          auto tc = s.tile_coord(t);
          std::size_t idx[dim];
          for (std::size_t d = 0; d < dim; ++d) idx[d] = tc[d];
          View v = c["made"] && !read_only ? made[t] : View(store, idx, s.info);
          if (v.size() != s.tile_total || to_vec(v.get_tile_index()) != tc || to_vec(v.get_tiles_dir()) != s.count) fail("a view reports wrong numbers");
          for (std::size_t i = 0; i < s.tile_total; ++i) {
            auto ic = s.inner_coord(i);
            std::array<std::size_t, dim> a;
            for (std::size_t d = 0; d < dim; ++d) a[d] = ic[d];
            std::size_t pos = t * s.tile_total + i;
            T &r = i % 3 == 0 ? v[i] : i % 3 == 1 ? v[a] : call_op(v, a, std::make_index_sequence<dim>());
            if (&r != &store[pos]) fail("element " + show(ic) + " of tile " + show(tc) + ": another element is addressed");
            if (!same_value(r, model[pos])) fail("element " + show(ic) + " of tile " + show(tc) + " has another value");
            if (!read_only) {
              T nv = value<T>(7000 + std::uint64_t(k + i));
              r = nv;
              model[pos] = nv;
              if (!same_value(v[a], nv)) fail("a value written is not read back");
            }
          }
        }
      } catch (const Failure &f) {
        msg[k] = f.msg;
      }
    });
  for (auto &h : th) h.join();
  for (std::size_t k = 0; k < n; ++k)
    if (!msg[k].empty()) fail(fmt("thread %zu of %zu: ", k, n) + msg[k]);
  if (!same_array(store, model)) fail("the array differs from what was written");
}
Case gen_shared(Src &s) {
  Case c;
  c.set("threads", s.range(2, 4));
  c.set("type", s.range(0, TYPES - 1));
  c.set("made", s.range(0, 1));
  c.set("seed", s.range(0, 9999));
  gen_shape(s, c, 600);
  return c;
}
void run_shared(const Case &c, Ctx &x) {
  Shape s(c);
  with_dim(s.dim, [&](auto d) {
    constexpr std::size_t D = decltype(d)::value;
    if constexpr (D > 5) shared_views<D, std::int64_t, std::allocator<std::int64_t>>(c, s);
    else switch (c["type"]) {
    case 0: shared_views<D, std::int64_t, std::allocator<std::int64_t>>(c, s); break;
#ifndef ONLY_NUMBERS
    case 2: shared_views<D, std::string, std::allocator<std::string>>(c, s); break;
#endif
    case 1: shared_views<D, double, boost::alignment::aligned_allocator<double, 64>>(c, s); break;
    default: shared_views<D, unsigned char, std::allocator<unsigned char>>(c, s);
    }
  });
  shape_labels(s, x);
  x.label(c["made"] ? "views from iteration" : "views made by the threads");
  x.nontrivial = s.tiles >= 2;
}
#endif
std::vector<Case> corpus_views() {
  std::vector<Case> v = corpus_layout();
  for (auto &c : v) c.set("ops", 12);
  return v;
}

#endif
// ------------------------------------------------------------ C16
#if PART == 0 || PART == 16
std::string text(const Case &c) {
  Stream s(c["seed"]);
  std::string t;
  for (std::int64_t i = 0; i < c["len"]; ++i) {
    switch (c["alphabet"]) {
    case 0: t += char('a' + s.below(26)); break;
    case 1: t += char(1 + s.below(255)); break; // any byte but NUL
    default: t += "%s%n: \n\t\"\\"[s.below(10)];
    }
  }
  return t;
}
template <typename E> void message(const Case &c, const char *prefix) {
  const std::string want = prefix + text(c);
  static_assert(std::is_base_of<std::exception, E>::value, "a standard exception");
  auto same = [&](const std::exception &e, const char *when) {
    if (want != e.what()) fail(std::string("description ") + when + " is not the prefix and the message");
    if (want != e.what()) fail(std::string("second reading ") + when + " gives another description");
  };
  // a description stays what it is while the exception lives, whatever others do
  E early(text(c));
  const char *held = early.what();
  auto still = [&](const char *when) {
    if (want != held) fail(std::string("the description obtained first has changed ") + when);
  };
  std::unique_ptr<E> kept;
  std::exception_ptr ptr;
  try {
    std::unique_ptr<std::string> m(new std::string(text(c)));
    E e(*m);
    for (auto &ch : *m) ch = '#';
    m.reset(); // the text given by the caller is gone
    same(e, "of the exception");
    E longer(text(c) + " and more"), shorter("?");
    if (std::string(prefix) + "?" != shorter.what() || want + " and more" != longer.what()) fail("another exception has the wrong description");
    still("after another exception's was read");
    throw e;
  } catch (const std::exception &e) {
    same(e, "in the handler");
    kept.reset(new E(static_cast<const E &>(e)));
    ptr = std::current_exception();
  }
  std::vector<std::string> churn; // reuse freed memory
  for (int i = 0; i < 8; ++i) churn.push_back(std::string(std::size_t(c["len"]) + 30, char('A' + i)));
  same(*kept, "of a copy after the original is gone");
  still("after others were thrown and caught");
  switch (c["use"]) {
  case 0: {
    E second(*kept);
    kept.reset();
    same(second, "of a copy of a copy");
    break;
  }
  case 1: {
    E other("other text");
    other = *kept;
    kept.reset();
    same(other, "after assignment");
    break;
  }
  case 2:
    try {
      std::rethrow_exception(ptr);
    } catch (const std::exception &e) {
      same(e, "after rethrowing");
    }
    break;
  default: {
    std::vector<E> many;
    for (int i = 0; i < 10; ++i) many.push_back(E(i % 2 ? "x" : text(c)));
    for (int i = 0; i < 10; i += 2) same(many[std::size_t(i)], "in a container");
    break;
  }
  }
}
Case gen_message(Src &s) {
  Case c;
  c.set("class", s.range(0, 1));
  c.set("len", s.chance(1, 2) ? s.range(0, 20) : s.chance(1, 60) ? s.range(3001, 90000) : s.range(0, 3000));
  c.set("alphabet", s.range(0, 2));
  c.set("use", s.range(0, 3));
  c.set("seed", s.range(0, 9999));
  return c;
}
void run_message(const Case &c, Ctx &x) {
  if (c["class"] == 0) message<ml::memory_layout_exception>(c, "memory_layout_exception: ");
  else message<util::matrix_multiplication_exception>(c, "matrix_multiplication_exception: ");
  x.label(c["class"] ? "matrix_multiplication_exception" : "memory_layout_exception");
  static const char *use[] = {"copy of a copy", "assignment", "rethrow", "container"};
  x.label(use[c["use"]]);
  x.label_if(c["len"] == 0, "empty message");
  x.nontrivial = c["len"] > 0;
}

// tiling descriptions of the wrong length
Case gen_mismatch(Src &s) {
  Case c;
  c.set("seed", s.range(0, 99));
  gen_shape(s, c, 200);
  c.set("given", s.chance(1, 4) ? c["dim"] : s.range(0, 8));
  c.set("undo", s.range(0, 1));
  c.set("elements", s.chance(1, 2) ? -1 : s.range(0, 50)); // -1: as many as the shape says
  return c;
}
bool valid_mismatch(const Case &c) {
  return valid_shape(c) && c["given"] >= 0 && c["elements"] >= -1;
}
void run_mismatch(const Case &c, Ctx &x) {
  Shape s(c);
  std::size_t given = std::size_t(c["given"]);
  std::vector<ml::tiling_info_dim> info = s.info;
  ml::tiling_info_dim extra;
  extra.tile_size_dir = 1;
  extra.stride = 1;
  info.resize(given, extra);
  bool match = given == s.dim;
  std::size_t n = match || c["elements"] < 0 ? s.total : std::size_t(c["elements"]);
  std::vector<std::int64_t> v = contents<std::int64_t, std::allocator<std::int64_t>>(n, c["seed"]);
  std::vector<std::int64_t> keep = v;
  int outcome = 0;
  std::string what;
  with_dim(s.dim, [&](auto d) {
    constexpr std::size_t D = decltype(d)::value;
    try {
      if (c["undo"]) ml::undo_tiling<D>(v, info);
      else ml::make_tiled<D>(v, info);
    } catch (const ml::memory_layout_exception &e) {
      outcome = 1;
      what = e.what();
    } catch (const std::exception &e) {
      outcome = 2;
      what = e.what();
    }
  });
  if (match && outcome) fail("a matching tiling description was rejected: " + what);
  if (!match && outcome == 0) fail(fmt("a description of %zu dimensions was accepted for %zu", given, s.dim));
  if (!match && outcome == 2) fail("rejected with another exception: " + what);
  if (!match && what.compare(0, 25, "memory_layout_exception: ") != 0) fail("the error has no description: " + what);
  if (v != keep) fail("the array was modified");
  x.label(match ? "matching description" : given > s.dim ? "too many dimensions" : "too few dimensions");
  x.nontrivial = !match;
}
std::vector<Case> corpus_mismatch() {
  std::vector<Case> v;
  for (std::int64_t d = 1; d <= MAXDIM; ++d)
    for (std::int64_t g = 0; g <= 8; ++g)
      for (std::int64_t u : {0, 1}) {
        Case c = {{"seed", 1}, {"dim", d}};
        for (std::int64_t i = 0; i < d; ++i) {
          c.set("t" + std::to_string(i), 2);
          c.set("c" + std::to_string(i), 1 + i % 2);
        }
        c.set("given", g);
        c.set("undo", u);
        c.set("elements", -1);
        v.push_back(c);
      }
  return v;
}
#endif
}

std::vector<Target> pbt::targets() {
  std::vector<Target> t;
#if PART == 0 || PART == 8
  t.push_back({"layout", gen_layout, run_layout, corpus_layout(), valid_shape});
#endif
#if PART == 0 || PART == 9
  t.push_back({"views", gen_views, run_views, corpus_views(), valid_shape});
#ifdef THREADED
  t.push_back({"shared views", gen_shared, run_shared, {}, [](const Case &c) { return valid_shape(c) && c["threads"] >= 2 && c["threads"] <= 8; }});
#endif
#endif
#if PART == 0 || PART == 16
  t.push_back({"messages", gen_message, run_message, {}, [](const Case &c) { return c["len"] >= 0; }});
  t.push_back({"mismatch", gen_mismatch, run_mismatch, corpus_mismatch(), valid_mismatch});
#endif
  return threaded(t, {"layout", "views", "messages", "mismatch"});
}
