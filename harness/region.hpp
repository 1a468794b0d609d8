// How the caller of an OpenMP function may stand: outside of any parallel
// region, inside one (where a nested region gets a single thread), or with the
// regions switched off.
#pragma once
#include "pbt.hpp"
#include <omp.h>

namespace region {
enum { OUTSIDE, INSIDE, OFF, DYNAMIC };
inline void gen(pbt::Src &s, pbt::Case &c) {
#ifndef THREADED
  c.set("region", s.chance(1, 8) ? s.range(INSIDE, DYNAMIC) : OUTSIDE);
#endif
}
inline void label(const pbt::Case &c, pbt::Ctx &x) {
  x.label_if(c.get("region", 0) == INSIDE, "called inside a parallel region");
  x.label_if(c.get("region", 0) == OFF, "parallel regions switched off");
}
template <typename F> void call(const pbt::Case &c, F f) {
#ifndef THREADED
  int levels = omp_get_max_active_levels();
  switch (c.get("region", 0)) {
  case INSIDE:
    omp_set_max_active_levels(1);
#pragma omp parallel num_threads(2)
    if (omp_get_thread_num() == 1 || omp_get_num_threads() == 1) f();
    break;
  case OFF:
    omp_set_max_active_levels(0);
    f();
    break;
  case DYNAMIC:
    omp_set_dynamic(1);
    f();
    omp_set_dynamic(0);
    break;
  default: f();
  }
  omp_set_max_active_levels(levels);
#else
  f();
#endif
}
}
