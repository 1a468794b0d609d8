// OpenMP runtime for the ThreadSanitizer build (C13).
//
// libgomp synchronises with futexes that ThreadSanitizer cannot see, so every
// fork and join would be reported.  This is the part of the ABI that GCC emits
// for the constructs OpenMP code of this kind uses, on std::thread: a team is
// created and joined per parallel region, work sharing hands out iterations
// with relaxed atomics (no ordering beyond what OpenMP promises), barriers and
// critical sections synchronise.
#include <atomic>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace {
struct Work { // one work-sharing construct
  std::atomic<long> next{0};
  long end = 0, incr = 1, chunk = 1;
  std::atomic<unsigned long long> unext{0};
  unsigned long long uend = 0, uincr = 1, uchunk = 1;
  bool up = true;
  std::atomic<int> single{0};
};
struct Team {
  unsigned n;
  std::mutex m;
  std::condition_variable cv;
  unsigned waiting = 0, phase = 0;
  std::mutex wm;
  std::map<unsigned, std::shared_ptr<Work>> works;
  explicit Team(unsigned n) : n(n) {}
  void barrier() {
    std::unique_lock<std::mutex> l(m);
    unsigned p = phase;
    if (++waiting == n) {
      waiting = 0;
      ++phase;
      cv.notify_all();
    } else
      cv.wait(l, [&] { return phase != p; });
  }
};
std::atomic<int> default_threads{4};
thread_local Team *team = nullptr;
thread_local unsigned me = 0, seq = 0;
thread_local int level = 0;
thread_local std::shared_ptr<Work> cur;
thread_local long static_pos = 0;
std::recursive_mutex crit, atom;
std::mutex names_m;
std::map<void **, std::unique_ptr<std::recursive_mutex>> names;
std::map<void *, std::unique_ptr<std::recursive_mutex>> locks;
std::recursive_mutex *lock_of(void *l, bool fresh) {
  std::lock_guard<std::mutex> g(names_m);
  auto &u = locks[l];
  if (!u || fresh) u.reset(new std::recursive_mutex);
  return u.get();
}

template <typename Init> std::shared_ptr<Work> enter(Init init) {
  if (!team) {
    auto w = std::make_shared<Work>();
    init(*w);
    return cur = w;
  }
  // the lock orders only the set-up of the construct: the first to arrive
  // fills in constants
  std::lock_guard<std::mutex> l(team->wm);
  auto &w = team->works[seq++];
  if (!w) {
    w = std::make_shared<Work>();
    init(*w);
  }
  return cur = w;
}
bool take(long *s, long *e) {
  Work &w = *cur;
  long step = w.chunk * w.incr;
  long v = w.next.fetch_add(step, std::memory_order_relaxed);
  if (w.incr > 0 ? v >= w.end : v <= w.end) return false;
  long x = v + step;
  if (w.incr > 0 ? x > w.end : x < w.end) x = w.end;
  *s = v;
  *e = x;
  return true;
}
bool utake(unsigned long long *s, unsigned long long *e) {
  Work &w = *cur;
  unsigned long long step = w.uchunk * w.uincr;
  unsigned long long v = w.unext.fetch_add(step, std::memory_order_relaxed);
  if (w.up ? v >= w.uend : v <= w.uend) return false;
  unsigned long long x = v + step;
  if (w.up ? x > w.uend : x < w.uend) x = w.uend;
  *s = v;
  *e = x;
  return true;
}
void prepare(long start, long end, long incr, long chunk) {
  enter([&](Work &w) {
    w.next.store(start, std::memory_order_relaxed);
    w.end = end;
    w.incr = incr;
    w.chunk = chunk > 0 ? chunk : 1;
  });
}
// explicit tasks: each runs on a thread of its own, ordered with its parent only
// by the fork and by the next synchronisation point of the parent
thread_local std::vector<std::thread> *kids = nullptr;
struct Kids {
  std::vector<std::thread> mine, *old;
  Kids() : old(kids) { kids = &mine; }
  ~Kids() {
    for (auto &t : mine) t.join();
    kids = old;
  }
};
void join_kids() {
  if (!kids) return;
  for (auto &t : *kids) t.join();
  kids->clear();
}
void spawn(void (*fn)(void *), std::shared_ptr<std::vector<char>> keep, char *p) {
  if (kids->size() >= 48) join_kids();
  Team *t = team;
  unsigned m = me;
  int lv = level;
  kids->emplace_back([=] {
    (void)keep;
    Kids k;
    team = t;
    me = m;
    level = lv;
    fn(p);
  });
}
std::shared_ptr<std::vector<char>> copy_arg(void *data, void (*cpy)(void *, void *), long size, long align, char **out) {
  auto buf = std::make_shared<std::vector<char>>(std::size_t(size + align) + 1);
  char *p = buf->data();
  if (align > 0) p += (align - long(std::size_t(p) % std::size_t(align))) % align;
  if (cpy)
    cpy(p, data);
  else if (size > 0)
    std::memcpy(p, data, std::size_t(size));
  *out = p;
  return buf;
}
void run_team(void (*fn)(void *), void *data, unsigned n, const std::shared_ptr<Work> &w) {
  Team t(n);
  Team *ot = team;
  unsigned om = me, os = seq;
  auto ow = cur;
  int lv = level;
  auto body = [&, lv](unsigned k) {
    team = &t;
    me = k;
    seq = 0;
    level = lv + 1;
    cur = w;
    {
      Kids k;
      fn(data);
    }
    cur.reset();
  };
  std::vector<std::thread> ts;
  for (unsigned k = 1; k < n; ++k) ts.emplace_back(body, k);
  body(0);
  for (auto &x : ts) x.join();
  team = ot;
  me = om;
  seq = os;
  cur = ow;
  level = lv;
}
unsigned team_size(unsigned asked) {
  if (level > 0) return 1; // nested regions are serialised by default
  unsigned n = asked ? asked : unsigned(default_threads.load());
  return n < 1 ? 1 : n > 16 ? 16 : n;
}
}

extern "C" {
void omp_set_num_threads(int n) { default_threads = n; }
int omp_get_num_threads() { return team ? int(team->n) : 1; }
int omp_get_max_threads() { return default_threads; }
int omp_get_thread_num() { return int(me); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return level > 0; }
int omp_get_level() { return level; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
double omp_get_wtime() { return 0.0; }
double omp_get_wtick() { return 1e-9; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, team_size(n), nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) {
  unsigned k = team_size(n);
  run_team(fn, data, k, nullptr);
  return k;
}
void GOMP_barrier() {
  join_kids();
  if (team) team->barrier();
}
void GOMP_critical_start() { crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
void GOMP_critical_name_start(void **p) {
  std::recursive_mutex *m;
  {
    std::lock_guard<std::mutex> l(names_m);
    auto &u = names[p];
    if (!u) u.reset(new std::recursive_mutex);
    m = u.get();
  }
  m->lock();
}
void GOMP_critical_name_end(void **p) {
  std::recursive_mutex *m;
  {
    std::lock_guard<std::mutex> l(names_m);
    m = names[p].get();
  }
  m->unlock();
}
void GOMP_atomic_start() { atom.lock(); }
void GOMP_atomic_end() { atom.unlock(); }
bool GOMP_single_start() {
  return enter([](Work &) {})->single.fetch_add(1, std::memory_order_relaxed) == 0;
}
void GOMP_ordered_start() { crit.lock(); }
void GOMP_ordered_end() { crit.unlock(); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool now, unsigned flags, void **, int) {
  char *p;
  auto buf = copy_arg(data, cpy, size, align, &p);
  if (flags & 8) join_kids(); // dependences: in the order of their creation
  if (!now || !team || !kids || (flags & 8))
    fn(p);
  else
    spawn(fn, buf, p);
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long num, int, long start,
                   long end, long step) {
  long n = step > 0 ? (end - start + step - 1) / step : (start - end - step - 1) / -step;
  if (n <= 0) return;
  long parts = num && long(num) < n ? long(num) : n < 8 ? n : 8;
  long at = start;
  for (long k = 0; k < parts; ++k) {
    long len = n / parts + (k < n % parts), to = at + len * step;
    char *p;
    auto buf = copy_arg(data, cpy, size, align, &p);
    reinterpret_cast<long *>(p)[0] = at;
    reinterpret_cast<long *>(p)[1] = to;
    if (team && kids)
      spawn(fn, buf, p);
    else
      fn(p);
    at = to;
  }
  join_kids();
}
void GOMP_taskwait() { join_kids(); }
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { join_kids(); }
int omp_get_thread_limit() { return 16; }
int omp_get_team_size(int l) { return l == level && team ? int(team->n) : 1; }
int omp_get_ancestor_thread_num(int l) { return l == level ? int(me) : 0; }
int omp_get_active_level() { return level; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *c) {
  *k = 2;
  *c = 1;
}
// locks: the mutex is found by the address of the object
void omp_init_lock(void *l) { lock_of(l, true); }
void omp_destroy_lock(void *l) {
  std::lock_guard<std::mutex> g(names_m);
  locks.erase(l);
}
void omp_set_lock(void *l) { lock_of(l, false)->lock(); }
void omp_unset_lock(void *l) { lock_of(l, false)->unlock(); }
int omp_test_lock(void *l) { return lock_of(l, false)->try_lock(); }
void omp_init_lock_with_hint(void *l, int) { omp_init_lock(l); }
void omp_init_nest_lock(void *l) { omp_init_lock(l); }
void omp_destroy_nest_lock(void *l) { omp_destroy_lock(l); }
void omp_set_nest_lock(void *l) { omp_set_lock(l); }
void omp_unset_nest_lock(void *l) { omp_unset_lock(l); }
int omp_test_nest_lock(void *l) { return omp_test_lock(l); }

#define LOOP(kind)                                                             \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *is, long *ie) { \
    prepare(s, e, i, c);                                                       \
    return take(is, ie);                                                       \
  }                                                                            \
  bool GOMP_loop_##kind##_next(long *is, long *ie) { return take(is, ie); }    \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { \
    auto w = std::make_shared<Work>();                                         \
    w->next = s;                                                               \
    w->end = e;                                                                \
    w->incr = i;                                                               \
    w->chunk = c > 0 ? c : 1;                                                  \
    run_team(fn, data, team_size(n), w);                                       \
  }                                                                            \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, \
                                    unsigned long long *is, unsigned long long *ie) { \
    enter([&](Work &w) {                                                       \
      w.unext.store(s, std::memory_order_relaxed);                             \
      w.uend = e;                                                              \
      w.uincr = i;                                                             \
      w.uchunk = c ? c : 1;                                                    \
      w.up = up;                                                               \
    });                                                                        \
    return utake(is, ie);                                                      \
  }                                                                            \
  bool GOMP_loop_ull_##kind##_next(unsigned long long *is, unsigned long long *ie) { return utake(is, ie); }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
#define LOOP0(kind)                                                            \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long *is, long *ie) {  \
    prepare(s, e, i, 1);                                                       \
    return take(is, ie);                                                       \
  }                                                                            \
  bool GOMP_loop_##kind##_next(long *is, long *ie) { return take(is, ie); }    \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned f) { \
    GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f);                    \
  }                                                                            \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, \
                                    unsigned long long *is, unsigned long long *ie) { \
    return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, is, ie);                \
  }                                                                            \
  bool GOMP_loop_ull_##kind##_next(unsigned long long *is, unsigned long long *ie) { return utake(is, ie); }
LOOP0(runtime)
LOOP0(nonmonotonic_runtime)
LOOP0(maybe_nonmonotonic_runtime)
void GOMP_loop_end() {
  join_kids();
  if (team) team->barrier();
}
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() {
  GOMP_loop_end();
  return false;
}
unsigned GOMP_sections_start(unsigned count) {
  prepare(1, long(count) + 1, 1, 1);
  long a, b;
  return take(&a, &b) ? unsigned(a) : 0;
}
unsigned GOMP_sections_next() {
  long a, b;
  return take(&a, &b) ? unsigned(a) : 0;
}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
  auto w = std::make_shared<Work>();
  w->next = 1;
  w->end = long(count) + 1;
  run_team(fn, data, team_size(n), w);
}
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() {}
}
