// C01 single, C02 pseudodynamic, C03 work distribution
#include "mm.hpp"
#include "rt.hpp"

#include "variants/pseudodynamic.hpp"
#include "variants/single.hpp"
#include "variants/static_improved.hpp"

using namespace pbt;
using multiply_components::static_improved;
using namespace mm;

#ifndef MAXEXP
#define MAXEXP 6
#endif

namespace {

bool is_pow2(std::int64_t n) { return n >= 1 && (n & (n - 1)) == 0; }

// block sizes: disabled, one, dividing, not dividing, larger than the matrix
std::int64_t gen_block(Src &s, std::int64_t n, std::int64_t lo_cost) {
  std::int64_t v;
  if (s.chance(1, 40)) return gen_vast(s);
  switch (s.range(0, 3)) {
  case 0:
    v = std::int64_t(1) << s.range(0, 8);
    break;
  case 1:
    v = s.range(1, 2 * n + 3);
    break;
  case 2:
    v = s.range(1, n);
    break;
  default:
    return 0;
  }
  return v < lo_cost ? lo_cost : v;
}

bool valid_common(const Case &c) {
  return valid_contents(c) && valid_again(c) && c["reps"] >= 1 && (c["reps"] <= 4 || c["n"] <= 4) && c["reps"] <= 600 && rt::valid_sched(c) &&
         is_pow2(c["n"]) && c["br"] >= 0 && c["bi"] >= 0;
}

std::int64_t gen_n(Src &s) {
  if (s.chance(1, 120)) return std::int64_t(1) << s.pick({MAXEXP + 1, MAXEXP + 1, MAXEXP + 2});
  return oracle::gen_pow2(s, 0, MAXEXP);
}
// ------------------------------------------------------------------ C01
Case gen_single(Src &s) {
  Case c;
  std::int64_t n = gen_n(s);
  c.set("n", n);
  c.set("transposed", s.range(0, 1));
  c.set("br", gen_block(s, n, n / 16));
  c.set("bi", gen_block(s, n, 1));
  c.set("reps", c["n"] <= 2 && s.chance(1, 20) ? s.pick({255, 256, 257, 512}) : s.pick({1, 1, 1, 2, 3}));
  c.set("verbose", s.pick({0, 0, 0, 1, 2}));
  gen_contents(s, c);
  gen_again(s, c);
  rt::gen_sched(s, c);
  return c;
}
void run_single(const Case &c, Ctx &x) {
  rt::Quiet q;
  steps(c, x, [&](const Case &c, Mats &m, std::vector<double> &A, std::vector<double> &B) {
  std::vector<double> C = rt::on_runtime(c, [&] {
    single::single s(c["n"], A, B, c["transposed"] != 0, c["br"], c["bi"], c["reps"], c["verbose"]);
    return s.matrix_multiply();
  });
  verdict(m.ref, C);
  });
  std::int64_t n = c["n"], br = c["br"], bi = c["bi"];
  content_label(c, x);
  rt::sched_labels(c, x);
  x.label(c["transposed"] ? "B transposed" : "B plain");
  x.label_if(br == 0, "result block disabled");
  x.label_if(br > n, "result block larger than matrix");
  x.label_if(br && n % br, "result block not dividing");
  x.label_if(bi == 0, "input block disabled");
  x.label_if(bi && n % bi, "input block not dividing");
  x.label_if(vshim::stats().tasks > 8, "more than 8 tasks");
  x.note = fmt("%llu tasks", (unsigned long long)vshim::stats().tasks);
  x.nontrivial = n >= 2 && (vshim::stats().tasks > 3 || (br == 0 || br >= n));
}
std::vector<Case> corpus_single() {
  std::vector<Case> v;
  for (std::int64_t n : {1, 2, 4, 8, 16})
    for (std::int64_t br : {0, 1, 2, 3, 4, 5, 8, 16, 17})
      for (std::int64_t bi : {0, 1, 3, 4, 16, 20})
        for (std::int64_t t : {0, 1}) {
          if (br && n / br > 8) continue;
          v.push_back({{"n", n}, {"transposed", t}, {"br", br}, {"bi", bi}, {"reps", 1 + (n + br + bi) % 2}, {"verbose", 0},
                       {"kind", (n + br) % 3 == 0 ? oracle::ENUM : oracle::INTS}, {"seed", n * 100 + br}, {"sched", (br + bi + t) % 5}, {"sseed", bi}});
        }
  return v;
}

// ------------------------------------------------------------------ C02
void gen_distribution(Src &s, Case &c, std::int64_t n) {
  c.set("minwork", s.chance(1, 3) ? s.pick({0, 1, 256}) : s.range(0, n + 2));
  switch (s.range(0, 3)) {
  case 0: c.set("maxdiff", s.pick({0, 1, 10000})); break;
  case 1: c.set("maxdiff", s.range(0, n)); break;
  default: c.set("maxdiff", s.range(0, n * n + 2));
  }
  c.set("rel1024", s.chance(1, 3) ? s.pick({0, 51, 1024}) : s.range(0, 3072));
}
bool valid_distribution(const Case &c) {
  return c["minwork"] >= 0 && c["maxdiff"] >= 0 && c["rel1024"] >= 0 && c["locs"] >= 1;
}
Case gen_pseudo(Src &s) {
  Case c;
  std::int64_t n = gen_n(s);
  c.set("n", n);
  c.set("locs", s.chance(1, 12) ? s.range(10, 40) : s.range(1, 9));
  gen_distribution(s, c, n);
  if (n > 16 && c["minwork"] < n / 16) c.set("minwork", n / 16);
  c.set("transposed", s.range(0, 1));
  c.set("br", gen_block(s, n, n / 16));
  c.set("bi", gen_block(s, n, 1));
  c.set("reps", c["n"] <= 2 && s.chance(1, 20) ? s.pick({255, 256, 257, 512}) : s.pick({1, 1, 1, 2, 3}));
  c.set("verbose", s.pick({0, 0, 0, 1, 2}));
  gen_contents(s, c);
  gen_again(s, c);
  rt::gen_sched(s, c);
  return c;
}
void run_pseudo(const Case &c, Ctx &x) {
  rt::Quiet q;
  steps(c, x, [&](const Case &c, Mats &m, std::vector<double> &A, std::vector<double> &B) {
  std::vector<double> C = rt::on_runtime(c, [&] {
    pseudodynamic::pseudodynamic s(c["n"], A, B, c["transposed"] != 0, c["br"], c["bi"], c["minwork"], c["maxdiff"],
                                   double(c["rel1024"]) / 1024.0, c["reps"], c["verbose"]);
    return s.matrix_multiply();
  });
  verdict(m.ref, C);
  });
  std::int64_t locs = c["locs"];
  content_label(c, x);
  rt::sched_labels(c, x);
  x.label(locs == 1 ? "1 node" : locs == 2 ? "2 nodes (one computes)" : "3 or more nodes");
  x.label_if(c["reps"] > 1, "repetitions");
  x.label_if(vshim::stats().tasks > 8, "more than 8 tasks");
  x.note = fmt("%llu tasks", (unsigned long long)vshim::stats().tasks);
  x.nontrivial = c["n"] >= 2 && (locs >= 2 || vshim::stats().tasks > 4);
}
std::vector<Case> corpus_pseudo() {
  std::vector<Case> v;
  for (std::int64_t n : {1, 2, 4, 8, 16})
    for (std::int64_t locs : {1, 2, 3, 4, 5, 8})
      for (std::int64_t mw : {0, 1, 2, 4}) 
        for (std::int64_t br : {0, 2, 4, 128}) {
          v.push_back({{"n", n}, {"locs", locs}, {"minwork", mw}, {"maxdiff", (n + br) % 3}, {"rel1024", (mw * 10) % 60},
                       {"transposed", (locs + mw) % 2}, {"br", br}, {"bi", (n + mw) % 5 * 4}, {"reps", 1 + (locs + br / 2) % 2}, {"verbose", 0},
                       {"kind", (n + locs + br) % 3 ? oracle::ENUM : oracle::INTS}, {"seed", n * 10 + locs}, {"sched", (n + locs + mw + br) % 5}, {"sseed", locs + mw}});
        }
  return v;
}

// ------------------------------------------------------------------ C03
// the tolerance test itself, where it can be called from outside
template <typename S> auto tolerance_test_(S &s, std::vector<std::uint64_t> &l, bool, int) -> decltype(bool(s.fulfills_constraints(l))) {
  return s.fulfills_constraints(l);
}
template <typename S> bool tolerance_test_(S &, std::vector<std::uint64_t> &, bool otherwise, long) { return otherwise; }
bool tolerance_test(static_improved &s, std::vector<std::uint64_t> &l, bool otherwise) { return tolerance_test_(s, l, otherwise, 0); }
Case gen_sched(Src &s) {
  Case c;
  std::int64_t n = oracle::gen_pow2(s, 0, s.chance(1, 40) ? 12 : 10);
  c.set("n", n);
  c.set("locs", s.chance(1, 4) ? s.range(1, s.chance(1, 20) ? 400 : 64) : s.range(1, 12));
  gen_distribution(s, c, n);
  // at most 64 x 64 smallest packages
  std::int64_t floor = n / 64;
  if (c["minwork"] < floor) c.set("minwork", floor + s.range(0, 3));
  return c;
}
void run_sched(const Case &c, Ctx &x) {
  std::uint64_t n = c["n"], locs = c["locs"], minwork = c["minwork"], maxdiff = c["maxdiff"];
  double rel = double(c["rel1024"]) / 1024.0;
  std::vector<double> A, B;
  // only the distribution is computed; the object holds an n x n result
  static_improved si(n, A, B, true, 0, 0, minwork, maxdiff, rel, 1, 0);
  rt::Quiet q;
  auto all = si.create_schedule(locs);
  if (all.size() != locs) fail(fmt("schedule for %zu instead of %llu nodes", all.size(), (unsigned long long)locs));
  std::size_t packages = 0;
  for (auto &l : all)
    for (auto &w : l) {
      if (w.N < 1 || w.N > n || w.x + w.N > n || w.y + w.N > n)
        fail(fmt("package x=%llu y=%llu N=%llu outside of the matrix", (unsigned long long)w.x, (unsigned long long)w.y, (unsigned long long)w.N));
      packages++;
    }
  std::uint64_t area = 0;
  for (auto &l : all)
    for (auto &w : l) area += std::uint64_t(w.N) * w.N;
  if (area != n * n) fail(fmt("packages cover %llu of %llu components", (unsigned long long)area, (unsigned long long)(n * n)));
  // same total area + pairwise disjoint = exact cover
  struct Pkg {
    std::uint64_t x, y, N;
  };
  std::vector<Pkg> store;
  for (auto &l : all)
    for (auto &w : l) store.push_back({w.x, w.y, w.N});
  std::vector<const Pkg *> ws;
  for (auto &w : store) ws.push_back(&w);
  std::sort(ws.begin(), ws.end(), [](auto *a, auto *b) { return a->x < b->x; });
  for (std::size_t i = 0; i < ws.size(); ++i)
    for (std::size_t j = i + 1; j < ws.size() && ws[j]->x < ws[i]->x + ws[i]->N; ++j)
      if (ws[j]->y < ws[i]->y + ws[i]->N && ws[i]->y < ws[j]->y + ws[j]->N)
        fail(fmt("packages (x=%llu y=%llu N=%llu) and (x=%llu y=%llu N=%llu) overlap", (unsigned long long)ws[i]->x, (unsigned long long)ws[i]->y,
                 (unsigned long long)ws[i]->N, (unsigned long long)ws[j]->x, (unsigned long long)ws[j]->y, (unsigned long long)ws[j]->N));
  // a package of size k < n comes from splitting one of size 2k
  for (auto *w : ws)
    if (w->N < n && 2 * w->N <= minwork)
      fail(fmt("a package of size %llu was split although the minimum work size is %llu", (unsigned long long)(2 * w->N), (unsigned long long)minwork));
  // loads
  std::vector<std::uint64_t> load(locs, 0);
  for (std::size_t i = 0; i < locs; ++i)
    for (auto &w : all[i]) load[i] += std::uint64_t(w.N) * w.N;
  std::uint64_t mx = *std::max_element(load.begin(), load.end()), mn = *std::min_element(load.begin(), load.end());
  auto within = [&](std::uint64_t hi, std::uint64_t lo) {
    return hi - lo < maxdiff || (lo > 0 && double(hi - lo) / double(lo) < rel);
  };
  bool tol = within(mx, mn);
  std::uint64_t start_lo = locs > 1 ? 0 : n * n;
  bool tol_start = within(n * n, start_lo);
  if (tol_start && packages != 1) fail("the tolerance was met at the start, but the work was split");
  if (!tol)
    for (std::size_t i = 0; i < locs; ++i)
      if (load[i] == mx)
        for (auto &w : all[i])
          if (w.N > minwork && w.N >= 2 && std::uint64_t(w.N) * w.N <= 2 * (mx - mn))
            fail(fmt("distribution stopped with loads %llu..%llu (tolerances %llu, %g) although package N=%llu of the most loaded node %zu could be split (minimum %llu)",
                     (unsigned long long)mn, (unsigned long long)mx, (unsigned long long)maxdiff, rel, (unsigned long long)w.N, i, (unsigned long long)minwork));
  if (tolerance_test(si, load, tol) != tol) fail(fmt("tolerance test wrong for loads %llu..%llu", (unsigned long long)mn, (unsigned long long)mx));
  x.label(tol_start ? "tolerance met at start" : tol ? "balanced within tolerance" : "stopped at indivisible packages");
  x.label_if(packages > 16, "more than 16 packages");
  x.note = fmt("%zu packages, loads %llu..%llu", packages, (unsigned long long)mn, (unsigned long long)mx);
  x.nontrivial = locs >= 2 && packages >= 4;
}
std::vector<Case> corpus_sched() {
  std::vector<Case> v;
  for (std::int64_t n : {1, 2, 4, 8, 32})
    for (std::int64_t locs : {1, 2, 3, 4, 5, 7, 8, 16, 17})
      for (std::int64_t mw : {0, 1, 2, 3, 4, 8})
        for (std::int64_t md : {0, 1, 2, 8, 64})
          for (std::int64_t rel : {0, 51, 1024}) {
            if (mw > n) continue;
            v.push_back({{"n", n}, {"locs", locs}, {"minwork", mw}, {"maxdiff", md}, {"rel1024", rel}});
          }
  return v;
}

// tolerance test on arbitrary load vectors
Case gen_tol(Src &s) {
  Case c;
  c.set("len", s.range(1, 12));
  c.set("base", s.pick({0, 0, 1, 10, 1000, 1000000}));
  c.set("spread", s.pick({0, 1, 2, 10, 100, 100000}));
  c.set("maxdiff", s.chance(1, 2) ? s.range(0, 20) : s.range(0, 100100));
  c.set("rel1024", s.chance(1, 3) ? s.pick({0, 1, 51, 1024}) : s.range(0, 3072));
  c.set("seed", s.range(0, 1 << 16));
  c.set("edge", s.range(0, 6)); // 1..3: absolute, 4..6: relative tolerance at the boundary
  return c;
}
void run_tol(const Case &c, Ctx &x) {
  Stream st(c["seed"]);
  std::vector<std::uint64_t> load;
  for (std::int64_t i = 0; i < c["len"]; ++i) load.push_back(std::uint64_t(c["base"] + st.in(0, c["spread"])));
  std::vector<double> A, B;
  double rel = double(c["rel1024"]) / 1024.0;
  std::int64_t maxdiff = c["maxdiff"], edge = c["edge"];
  std::uint64_t mx = *std::max_element(load.begin(), load.end()), mn = *std::min_element(load.begin(), load.end());
  if (edge >= 1 && edge <= 3) maxdiff = std::max<std::int64_t>(0, std::int64_t(mx - mn) + edge - 2);
  if (edge >= 4) {
    // two nodes, difference exactly at, just below or just above the relative tolerance
    mn = 1024;
    mx = std::uint64_t(std::max<std::int64_t>(1024, 1024 + c["rel1024"] + edge - 5));
    load = {mx, mn};
    if (c["seed"] % 2) std::swap(load[0], load[1]);
    maxdiff = std::min<std::int64_t>(maxdiff, std::int64_t(mx - mn));
  }
  static_improved si(1, A, B, true, 0, 0, 1, maxdiff, rel, 1, 0);
  bool want = mx - mn < std::uint64_t(maxdiff) || (mn > 0 && double(mx - mn) / double(mn) < rel);
  std::vector<std::uint64_t> copy = load;
  bool got = tolerance_test(si, copy, want);
  if (got != want)
    fail(fmt("loads %llu..%llu, tolerances %lld and %g: reported %s", (unsigned long long)mn, (unsigned long long)mx,
             (long long)maxdiff, rel, got ? "within" : "outside"));
  if (copy != load) fail("the loads were modified");
  x.label(want ? "within tolerance" : "outside tolerance");
  x.label_if(mn == 0, "idle node");
  x.label_if(mx - mn == std::uint64_t(maxdiff), "difference equals the absolute tolerance");
  x.label_if(mn && double(mx - mn) / double(mn) == rel, "difference equals the relative tolerance");
  x.nontrivial = mx != mn;
}
}

std::vector<Target> pbt::targets() {
  std::vector<Target> t;
  t.push_back({"single", gen_single, run_single, corpus_single(), valid_common});
  t.push_back({"pseudodynamic", gen_pseudo, run_pseudo, corpus_pseudo(),
               [](const Case &c) { return valid_common(c) && valid_distribution(c); }});
  t.push_back({"schedule", gen_sched, run_sched, corpus_sched(),
               [](const Case &c) { return is_pow2(c["n"]) && valid_distribution(c) && (c["minwork"] >= c["n"] / 64); }});
  t.push_back({"tolerance", gen_tol, run_tol, {}, [](const Case &c) { return c["len"] >= 1; }});
  return t;
}
