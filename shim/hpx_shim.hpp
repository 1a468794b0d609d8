// Stand-in for the parts of HPX that MatrixMultiplicationHPX uses.
//
// HPX itself is not installable here.  The shim implements the documented
// contract of the API (futures, continuations, components, actions, AGAS
// names, localities, parallel for loops) on top of a scheduler that the test
// harness owns:
//
//  * controlled mode (default): every task is a fiber, exactly one runs at a
//    time, and at every scheduling point (task creation, blocking wait, task
//    end) a generated decision stream says which runnable task continues.  A
//    case is therefore a pure function of its inputs.  "no runnable task while
//    somebody waits" is reported as a deadlock.
//  * threaded mode (VSHIM_THREADS, used with ThreadSanitizer): every task is a
//    std::thread, parallel loops are split over real threads.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include <boost/iterator/iterator_facade.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/program_options.hpp>

#ifndef HPX_APPLICATION_STRING
#define HPX_APPLICATION_STRING "matrix_multiply"
#endif
#ifndef HPX_FORWARD
#define HPX_FORWARD(T, ...) std::forward<T>(__VA_ARGS__)
#endif
#ifndef HPX_MOVE
#define HPX_MOVE(...) std::move(__VA_ARGS__)
#endif
#define HPX_VERSION_FULL 0x000999
#define HPX_HAVE_DATAPAR 1

// ---------------------------------------------------------------------------
// scheduler (implemented in hpx_shim.cpp)
// ---------------------------------------------------------------------------
namespace vshim {

struct config {
  std::uint64_t sched_seed = 0; // 0: first-in first-out
  int sched_mode = 0;           // 0 fifo, 1 lifo, 2 random, 3 run children first,
                                // 4 priority (PCT-like)
  unsigned localities = 1;
  unsigned threads = 4; // reported thread count / loop chunk parallelism
  // fault injection (C17)
  int fault_kind = 0;            // 0 none, 1 perturb action result, 2 drop loop
                                 // item, 3 perturb vector store
  std::uint64_t fault_index = 0; // which occurrence
  std::uint64_t fault_pos = 0;   // which element in it
  double fault_delta = 0.0;
};
config &cfg();

struct stats_t {
  std::uint64_t tasks = 0, switches = 0, par_items = 0, par_loops = 0,
                par_chunks = 0, blocked = 0, max_live = 0, vec_stores = 0,
                action_results = 0, faults_fired = 0;
};
stats_t &stats();

// run f as the root task and drain all tasks it created
void run_root(std::function<void()> f);
void spawn(std::function<void()> f, unsigned locality);
// block the current task until pred() is true
void wait_until(const std::function<bool()> &pred);
// wake tasks which wait for something (called after a state change)
void notify();
unsigned current_locality();
void set_locality(unsigned);
std::uint64_t decide(std::uint64_t bound); // next scheduling decision in [0,bound)
bool threaded();
// number of the parallel work item the calling code belongs to (path hash)
std::uint64_t &item_path();
[[noreturn]] void fatal(const std::string &msg);

std::recursive_mutex &out_mutex();

// true if this item must be dropped (fault injection)
bool fault_drop_item();
void fault_store(double *p, int n);
template <typename R> void fault_result(R &) {}
void fault_result(std::vector<double> &r);
bool faults_active();
std::function<void()> &on_elapsed(); // called whenever a timer is read
std::uint64_t fault_events(); // places where the selected fault could strike
}

namespace hpx {

// ------------------------------------------------------------------ id_type
struct component_record {
  std::shared_ptr<void> instance;
  unsigned locality = 0;
  ~component_record();
};

struct id_type {
  unsigned locality = 0;
  std::shared_ptr<component_record> rec; // null: the locality itself
  bool valid = false;
  id_type() = default;
  explicit id_type(unsigned loc) : locality(loc), valid(true) {}
  id_type(unsigned loc, std::shared_ptr<component_record> r)
      : locality(loc), rec(std::move(r)), valid(true) {}
  explicit operator bool() const { return valid; }
  friend bool operator==(const id_type &a, const id_type &b) {
    return a.valid == b.valid && a.locality == b.locality && a.rec == b.rec;
  }
  friend bool operator!=(const id_type &a, const id_type &b) { return !(a == b); }
  friend bool operator<(const id_type &a, const id_type &b) {
    return std::tie(a.locality, a.rec) < std::tie(b.locality, b.rec);
  }
};
std::ostream &operator<<(std::ostream &os, const id_type &id);

namespace naming {
using hpx::id_type;
inline std::uint32_t get_locality_id_from_id(const id_type &id) { return id.locality; }
inline std::uint32_t get_locality_id_from_gid(const id_type &id) { return id.locality; }
inline id_type get_locality_from_id(const id_type &id) { return id_type(id.locality); }
}

namespace detail {
bool agas_register(const std::string &name, const std::shared_ptr<component_record> &);
bool agas_unregister(const std::string &name);
std::shared_ptr<component_record> agas_resolve(const std::string &name);
void agas_reset();
}

// ------------------------------------------------------------------ iostreams
struct flush_t {};
struct endl_t {};
static const flush_t flush{};
static const endl_t endl{};
static const flush_t async_flush{};
static const endl_t async_endl{};

struct ostream_wrap {
  std::ostream &os;
  explicit ostream_wrap(std::ostream &o) : os(o) {}
  template <typename T> ostream_wrap &operator<<(const T &t) {
    std::lock_guard<std::recursive_mutex> l(vshim::out_mutex());
    os << t;
    return *this;
  }
  ostream_wrap &operator<<(std::ostream &(*m)(std::ostream &)) {
    std::lock_guard<std::recursive_mutex> l(vshim::out_mutex());
    os << m;
    return *this;
  }
  ostream_wrap &operator<<(std::ios_base &(*m)(std::ios_base &)) {
    std::lock_guard<std::recursive_mutex> l(vshim::out_mutex());
    os << m;
    return *this;
  }
  ostream_wrap &operator<<(const flush_t &) {
    std::lock_guard<std::recursive_mutex> l(vshim::out_mutex());
    os.flush();
    return *this;
  }
  ostream_wrap &operator<<(const endl_t &) {
    std::lock_guard<std::recursive_mutex> l(vshim::out_mutex());
    os << std::endl;
    return *this;
  }
};
extern ostream_wrap cout;
extern ostream_wrap cerr;

// ------------------------------------------------------------------ futures
enum class launch_policy { async, deferred, sync, fork, apply };
struct launch {
  static constexpr launch_policy async = launch_policy::async;
  static constexpr launch_policy deferred = launch_policy::deferred;
  static constexpr launch_policy sync = launch_policy::sync;
  static constexpr launch_policy fork = launch_policy::fork;
};

namespace detail {
struct unit {};
template <typename T> struct stored { using type = T; };
template <> struct stored<void> { using type = unit; };

template <typename T> struct shared_state {
  using value_type = typename stored<T>::type;
  std::mutex m;
  std::atomic<bool> ready{false};
  std::unique_ptr<value_type> value;
  std::exception_ptr ex;
  std::vector<std::function<void()>> continuations;

  bool is_ready() const { return ready.load(std::memory_order_acquire); }
  void finish() {
    std::vector<std::function<void()>> cs;
    {
      std::lock_guard<std::mutex> l(m);
      ready.store(true, std::memory_order_release);
      cs.swap(continuations);
    }
    for (auto &c : cs) c();
    vshim::notify();
  }
  void set_value(value_type v) {
    value.reset(new value_type(std::move(v)));
    finish();
  }
  void set_exception(std::exception_ptr e) {
    ex = e;
    finish();
  }
  void wait() {
    if (!is_ready())
      vshim::wait_until([this] { return is_ready(); });
  }
  // calls c now if ready, else when it becomes ready
  void on_ready(std::function<void()> c) {
    {
      std::lock_guard<std::mutex> l(m);
      if (!ready.load(std::memory_order_relaxed)) {
        continuations.push_back(std::move(c));
        return;
      }
    }
    c();
  }
};

template <typename R, typename F> struct runner {
  static void run(const std::shared_ptr<shared_state<R>> &s, F &f) {
    // continuations are started outside of the handler
    std::exception_ptr e;
    try {
      s->value.reset(new typename shared_state<R>::value_type(f()));
    } catch (...) {
      e = std::current_exception();
    }
    s->ex = e;
    s->finish();
  }
};
template <typename F> struct runner<void, F> {
  static void run(const std::shared_ptr<shared_state<void>> &s, F &f) {
    std::exception_ptr e;
    try {
      f();
      s->value.reset(new unit());
    } catch (...) {
      e = std::current_exception();
    }
    s->ex = e;
    s->finish();
  }
};
}

template <typename T> class future;
template <typename T> class shared_future;

namespace detail {
template <typename T> struct is_future : std::false_type {};
template <typename T> struct is_future<future<T>> : std::true_type {};
template <typename T> struct is_future<shared_future<T>> : std::true_type {};

template <typename Fut, typename F>
auto attach(Fut fut, F &&f) -> future<typename std::result_of<typename std::decay<F>::type(Fut)>::type>;
}

template <typename T> class future {
public:
  using state_type = detail::shared_state<T>;
  using result_type = T;
  std::shared_ptr<state_type> st;

  future() = default;
  explicit future(std::shared_ptr<state_type> s) : st(std::move(s)) {}
  future(future &&) = default;
  future &operator=(future &&) = default;
  future(const future &) = delete;
  future &operator=(const future &) = delete;
  // unwrapping constructor
  future(future<future<T>> &&o);

  bool valid() const { return !!st; }
  bool is_ready() const { return st && st->is_ready(); }
  bool has_value() const { return is_ready() && !st->ex; }
  bool has_exception() const { return is_ready() && !!st->ex; }
  void wait() const {
    if (!st) throw std::logic_error("hpx shim: wait on invalid future");
    st->wait();
  }
  T get() {
    if (!st) throw std::logic_error("hpx shim: get on invalid future (future has no valid shared state)");
    auto s = std::move(st);
    st.reset();
    s->wait();
    if (s->ex) std::rethrow_exception(s->ex);
    return take(s, static_cast<T *>(nullptr));
  }
  shared_future<T> share();
  template <typename F> auto then(F &&f) {
    if (!st) throw std::logic_error("hpx shim: then on invalid future");
    return detail::attach(std::move(*this), std::forward<F>(f));
  }
  template <typename F> auto then(launch_policy, F &&f) { return then(std::forward<F>(f)); }

private:
  template <typename U> static U take(std::shared_ptr<state_type> &s, U *) {
    return std::move(*s->value);
  }
  static void take(std::shared_ptr<state_type> &, void *) {}
};

template <typename T> class shared_future {
public:
  using state_type = detail::shared_state<T>;
  std::shared_ptr<state_type> st;
  shared_future() = default;
  explicit shared_future(std::shared_ptr<state_type> s) : st(std::move(s)) {}
  shared_future(future<T> &&f) : st(std::move(f.st)) {}
  bool valid() const { return !!st; }
  bool is_ready() const { return st && st->is_ready(); }
  void wait() const { st->wait(); }
  const typename detail::stored<T>::type &get() const {
    st->wait();
    if (st->ex) std::rethrow_exception(st->ex);
    return *st->value;
  }
  template <typename F> auto then(F &&f) const {
    return detail::attach(*this, std::forward<F>(f));
  }
  template <typename F> auto then(launch_policy, F &&f) const { return then(std::forward<F>(f)); }
};
template <typename T> shared_future<T> future<T>::share() { return shared_future<T>(std::move(*this)); }

template <typename T> future<T>::future(future<future<T>> &&o) {
  auto inner = std::make_shared<state_type>();
  auto outer = o.st;
  o.st.reset();
  outer->on_ready([outer, inner] {
    if (outer->ex) { inner->set_exception(outer->ex); return; }
    auto s = outer->value->st;
    s->on_ready([s, inner] {
      if (s->ex) inner->set_exception(s->ex);
      else { inner->value = std::move(s->value); inner->finish(); }
    });
  });
  st = inner;
}

namespace detail {
template <typename Fut, typename F>
auto attach(Fut fut, F &&f) -> future<typename std::result_of<typename std::decay<F>::type(Fut)>::type> {
  using G = typename std::decay<F>::type;
  using R = typename std::result_of<G(Fut)>::type;
  auto out = std::make_shared<shared_state<R>>();
  auto g = std::make_shared<G>(std::forward<F>(f));
  auto in = fut.st;
  unsigned loc = vshim::current_locality();
  auto holder = std::make_shared<Fut>(std::move(fut));
  in->on_ready([out, g, holder, loc] {
    // a continuation is a task of its own
    vshim::spawn([out, g, holder] {
      auto call = [&]() -> R { return (*g)(std::move(*holder)); };
      runner<R, decltype(call)>::run(out, call);
    }, loc);
  });
  return future<R>(out);
}
}

template <typename T> class promise {
  std::shared_ptr<detail::shared_state<T>> st = std::make_shared<detail::shared_state<T>>();
public:
  future<T> get_future() { return future<T>(st); }
  template <typename V> void set_value(V &&v) { st->set_value(std::forward<V>(v)); }
  void set_value() { st->set_value(detail::unit()); }
  void set_exception(std::exception_ptr e) { st->set_exception(e); }
};

template <typename T> future<typename std::decay<T>::type> make_ready_future(T &&t) {
  auto s = std::make_shared<detail::shared_state<typename std::decay<T>::type>>();
  s->set_value(std::forward<T>(t));
  return future<typename std::decay<T>::type>(s);
}
inline future<void> make_ready_future() {
  auto s = std::make_shared<detail::shared_state<void>>();
  s->set_value(detail::unit());
  return future<void>(s);
}

// waiting
namespace detail {
template <typename It> void wait_range(It b, It e) {
  for (; b != e; ++b)
    if (b->valid() && !b->is_ready()) b->wait();
}
}
template <typename T> void wait_all(std::vector<future<T>> &v) { detail::wait_range(v.begin(), v.end()); }
template <typename T> void wait_all(std::vector<future<T>> &&v) { detail::wait_range(v.begin(), v.end()); }
template <typename T> void wait_all(std::vector<shared_future<T>> &v) { detail::wait_range(v.begin(), v.end()); }
template <typename T, std::size_t n> void wait_all(std::array<future<T>, n> &v) { detail::wait_range(v.begin(), v.end()); }
inline void wait_all() {}
template <typename T, typename... R> void wait_all(future<T> &f, R &&... r) {
  f.wait();
  wait_all(std::forward<R>(r)...);
}
template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
void wait_all(It b, It e) { detail::wait_range(b, e); }

template <typename T> future<std::vector<future<T>>> when_all(std::vector<future<T>> &v) {
  auto out = std::make_shared<detail::shared_state<std::vector<future<T>>>>();
  auto fs = std::make_shared<std::vector<future<T>>>(std::move(v));
  v.clear();
  auto left = std::make_shared<std::atomic<std::size_t>>(fs->size() + 1);
  auto step = [out, fs, left] {
    if (--*left == 0) out->set_value(std::move(*fs));
  };
  std::vector<std::shared_ptr<detail::shared_state<T>>> sts;
  for (auto &f : *fs) sts.push_back(f.st);
  for (auto &s : sts) s->on_ready(step);
  step();
  return future<std::vector<future<T>>>(out);
}
template <typename T> future<std::vector<future<T>>> when_all(std::vector<future<T>> &&v) {
  auto w = std::move(v);
  return when_all(w);
}

// ------------------------------------------------------------------ components
namespace components {
template <typename C> struct component_base {
  using wrapping_type = C;
  id_type get_id() const;
  id_type get_unmanaged_id() const;
  component_record *shim_record = nullptr;
  std::weak_ptr<component_record> shim_self;
};
template <typename C> struct simple_component_base : component_base<C> {};
template <typename C> struct managed_component_base : component_base<C> {};
template <typename C> struct locking_hook : C {
  using C::C;
};
template <typename C> struct component { using type = C; };
template <typename C> struct simple_component { using type = C; };
template <typename C> struct managed_component { using type = C; };

template <typename C> id_type component_base<C>::get_id() const {
  auto s = shim_self.lock();
  if (!s) throw std::runtime_error("hpx shim: component has no id");
  return id_type(s->locality, s);
}
template <typename C> id_type component_base<C>::get_unmanaged_id() const { return get_id(); }

// client: a handle (shared ownership) to a possibly remote component
template <typename C> class client {
  id_type id_;

public:
  using server_component_type = C;
  client() = default;
  explicit client(const id_type &id) : id_(id) {}
  client(future<id_type> &&f) : id_(f.get()) {}
  const id_type &get_id() const {
    if (!id_.valid) throw std::runtime_error("hpx shim: client is not connected");
    return id_;
  }
  const id_type &get_gid() const { return get_id(); }
  bool valid() const { return id_.valid; }
  bool is_ready() const { return true; }
  void wait() const {}
  future<bool> register_as(std::string name, bool manage_lifetime = true) {
    (void)manage_lifetime;
    return make_ready_future(detail::agas_register(name, get_id().rec));
  }
  void connect_to(const std::string &name) {
    auto r = detail::agas_resolve(name);
    if (!r) throw std::runtime_error("hpx shim: no component registered as '" + name + "'");
    id_ = id_type(r->locality, r);
  }
};

template <typename C, typename S> class client_base : public client<S> {
public:
  using client<S>::client;
};

template <typename C, typename... Args>
id_type create(unsigned loc, Args &&... args) {
  auto rec = std::make_shared<component_record>();
  rec->locality = loc;
  unsigned here = vshim::current_locality();
  vshim::set_locality(loc);
  std::shared_ptr<C> inst;
  try {
    inst = std::make_shared<C>(std::forward<Args>(args)...);
  } catch (...) {
    vshim::set_locality(here);
    throw;
  }
  vshim::set_locality(here);
  inst->shim_record = rec.get();
  inst->shim_self = rec;
  rec->instance = inst;
  return id_type(loc, rec);
}
}

// ------------------------------------------------------------------ actions
namespace detail {
template <typename F> struct memfn;
template <typename C, typename R, typename... A> struct memfn<R (C::*)(A...)> {
  using component = C;
  using result = R;
  using args = std::tuple<typename std::decay<A>::type...>;
};
template <typename C, typename R, typename... A>
struct memfn<R (C::*)(A...) const> : memfn<R (C::*)(A...)> {};
template <typename R, typename... A> struct memfn<R (*)(A...)> {
  using component = void;
  using result = R;
  using args = std::tuple<typename std::decay<A>::type...>;
};

template <typename C, typename F, F f, typename R> struct invoke_member {
  template <typename Tup, std::size_t... I>
  static R go(C *c, Tup &t, std::index_sequence<I...>) {
    R r = (c->*f)(std::move(std::get<I>(t))...);
    vshim::fault_result(r);
    return r;
  }
};
template <typename C, typename F, F f> struct invoke_member<C, F, f, void> {
  template <typename Tup, std::size_t... I>
  static void go(C *c, Tup &t, std::index_sequence<I...>) {
    (c->*f)(std::move(std::get<I>(t))...);
  }
};
}

namespace actions {
template <typename F, F f> struct component_action {
  using traits = hpx::detail::memfn<F>;
  using component_type = typename traits::component;
  using result_type = typename traits::result;
  using args_type = typename traits::args;
  // the calling convention of an action: arguments are copied (they may travel
  // to another locality) and the member function runs where the component is
  static result_type call(const id_type &id, args_type &args) {
    if (!id.rec) throw std::runtime_error("hpx shim: action on something that is no component");
    auto keep = id.rec; // the component stays alive while it executes
    auto inst = std::static_pointer_cast<component_type>(keep->instance);
    return hpx::detail::invoke_member<component_type, F, f, result_type>::go(
        inst.get(), args,
        std::make_index_sequence<std::tuple_size<args_type>::value>());
  }
  template <typename... A> result_type operator()(const id_type &id, A &&... a) const {
    args_type t(std::forward<A>(a)...);
    return call(id, t);
  }
};
template <typename F, F f> struct plain_action {
  using traits = hpx::detail::memfn<F>;
  using result_type = typename traits::result;
  using args_type = typename traits::args;
  template <typename Tup, std::size_t... I>
  static result_type go(Tup &t, std::index_sequence<I...>) {
    return f(std::move(std::get<I>(t))...);
  }
  static result_type call(const id_type &, args_type &args) {
    return go(args, std::make_index_sequence<std::tuple_size<args_type>::value>());
  }
  template <typename... A> result_type operator()(const id_type &id, A &&... a) const {
    args_type t(std::forward<A>(a)...);
    return call(id, t);
  }
};
}

#define HPX_DEFINE_COMPONENT_ACTION_3(C, f, name)                              \
  struct name : ::hpx::actions::component_action<decltype(&C::f), &C::f> {}
#define HPX_DEFINE_COMPONENT_ACTION_2(C, f)                                    \
  struct f##_action : ::hpx::actions::component_action<decltype(&C::f), &C::f> {}
#define HPX_SHIM_PICK3(a, b, c, d, ...) d
#define HPX_DEFINE_COMPONENT_ACTION(...)                                       \
  HPX_SHIM_PICK3(__VA_ARGS__, HPX_DEFINE_COMPONENT_ACTION_3,                   \
                 HPX_DEFINE_COMPONENT_ACTION_2, )(__VA_ARGS__)
#define HPX_DEFINE_COMPONENT_CONST_ACTION HPX_DEFINE_COMPONENT_ACTION
#define HPX_DEFINE_COMPONENT_DIRECT_ACTION HPX_DEFINE_COMPONENT_ACTION
#define HPX_DEFINE_PLAIN_ACTION(f, name)                                       \
  struct name : ::hpx::actions::plain_action<decltype(&f), &f> {}
#define HPX_PLAIN_ACTION(f, name) HPX_DEFINE_PLAIN_ACTION(f, name)
// the real macros expand to declarations that need a trailing semicolon
#define HPX_SHIM_CAT2(a, b) a##b
#define HPX_SHIM_CAT(a, b) HPX_SHIM_CAT2(a, b)
#define HPX_SHIM_NOOP struct HPX_SHIM_CAT(hpx_shim_noop_, __LINE__)
#define HPX_REGISTER_COMPONENT(...) HPX_SHIM_NOOP
#define HPX_REGISTER_COMPONENT_MODULE(...) HPX_SHIM_NOOP
#define HPX_REGISTER_ACTION(...) HPX_SHIM_NOOP
#define HPX_REGISTER_ACTION_DECLARATION(...) HPX_SHIM_NOOP
#define HPX_REGISTER_MINIMAL_COMPONENT_FACTORY(...) HPX_SHIM_NOOP
#define HPX_PLAIN_ACTION_ID(...) HPX_SHIM_NOOP

// async on actions
template <typename Action, typename... A>
auto async(const id_type &id, A &&... a) -> future<typename Action::result_type> {
  using R = typename Action::result_type;
  auto st = std::make_shared<detail::shared_state<R>>();
  auto args = std::make_shared<typename Action::args_type>(std::forward<A>(a)...);
  unsigned loc = id.locality;
  auto target = std::make_shared<id_type>(id);
  vshim::spawn([st, args, target] {
    auto call = [&]() -> R { return Action::call(*target, *args); };
    detail::runner<R, decltype(call)>::run(st, call);
    target->rec.reset();
  }, loc);
  return future<R>(st);
}
template <typename Action, typename... A>
auto async(launch_policy, const id_type &id, A &&... a) {
  return async<Action>(id, std::forward<A>(a)...);
}
template <typename Action, typename C, typename... A>
auto async(const components::client<C> &c, A &&... a) {
  return async<Action>(c.get_id(), std::forward<A>(a)...);
}
// async on callables
namespace detail {
template <typename F, typename... A> struct callable_result {
  using type = typename std::result_of<typename std::decay<F>::type &(typename std::decay<A>::type...)>::type;
};
template <typename F, typename Tup, std::size_t... I>
decltype(auto) apply_tuple(F &f, Tup &t, std::index_sequence<I...>) {
  return f(std::move(std::get<I>(t))...);
}
}
template <typename F, typename... A>
auto async(F &&f, A &&... a)
    -> future<typename detail::callable_result<F, A...>::type> {
  using R = typename detail::callable_result<F, A...>::type;
  auto st = std::make_shared<detail::shared_state<R>>();
  auto g = std::make_shared<typename std::decay<F>::type>(std::forward<F>(f));
  auto args = std::make_shared<std::tuple<typename std::decay<A>::type...>>(std::forward<A>(a)...);
  vshim::spawn([st, g, args] {
    auto call = [&]() -> R {
      return detail::apply_tuple(*g, *args, std::make_index_sequence<sizeof...(A)>());
    };
    detail::runner<R, decltype(call)>::run(st, call);
  }, vshim::current_locality());
  return future<R>(st);
}
template <typename F, typename... A>
auto async(launch_policy, F &&f, A &&... a)
    -> future<typename detail::callable_result<F, A...>::type> {
  return async(std::forward<F>(f), std::forward<A>(a)...);
}
template <typename Action, typename... A> bool apply(const id_type &id, A &&... a) {
  async<Action>(id, std::forward<A>(a)...);
  return true;
}

// dataflow for callables over ready-able futures
template <typename F, typename... Fs>
auto dataflow(F &&f, future<Fs>... fs)
    -> future<typename std::result_of<typename std::decay<F>::type(future<Fs>...)>::type> {
  auto tup = std::make_shared<std::tuple<future<Fs>...>>(std::move(fs)...);
  auto g = std::make_shared<typename std::decay<F>::type>(std::forward<F>(f));
  return async([tup, g] {
    return detail::apply_tuple(*g, *tup, std::make_index_sequence<sizeof...(Fs)>());
  });
}

// ------------------------------------------------------------------ new_
struct default_distribution_policy {
  std::vector<id_type> locs;
};
using distribution_policy = default_distribution_policy;
inline default_distribution_policy default_layout(std::vector<id_type> v) { return {std::move(v)}; }
inline default_distribution_policy default_layout(const id_type &i) { return {{i}}; }

namespace detail {
template <typename T> struct new_impl; // T: component, client or arrays of them

template <typename C> struct new_impl<components::client<C>> {
  template <typename... A>
  static components::client<C> create(const id_type &where, A &&... a) {
    if (where.rec || !where.valid) throw std::runtime_error("hpx shim: new_ needs a locality");
    // arguments travel: copy them
    return components::client<C>(components::create<C>(where.locality, typename std::decay<A>::type(std::forward<A>(a))...));
  }
};
template <typename C> struct new_impl<components::client<C>[]> {
  template <typename... A>
  static future<std::vector<components::client<C>>>
  create(const default_distribution_policy &p, std::size_t count, const A &... a) {
    std::vector<components::client<C>> v;
    std::size_t n = p.locs.size();
    if (n == 0) throw std::runtime_error("hpx shim: empty distribution policy");
    // HPX: each locality gets count/n, the first count%n one more, grouped
    for (std::size_t l = 0; l < n; ++l) {
      std::size_t k = count / n + (l < count % n ? 1 : 0);
      for (std::size_t i = 0; i < k; ++i)
        v.push_back(components::client<C>(components::create<C>(p.locs[l].locality, typename std::decay<A>::type(a)...)));
    }
    auto s = std::make_shared<shared_state<std::vector<components::client<C>>>>();
    s->set_value(std::move(v));
    return future<std::vector<components::client<C>>>(s);
  }
};
template <typename C> struct new_impl {
  template <typename... A> static future<id_type> create(const id_type &where, A &&... a) {
    return make_ready_future(components::create<C>(where.locality, typename std::decay<A>::type(std::forward<A>(a))...));
  }
};
}
template <typename T, typename... A> auto new_(A &&... a) {
  return detail::new_impl<T>::create(std::forward<A>(a)...);
}
template <typename C, typename... A> future<id_type> local_new(A &&... a) {
  return make_ready_future(components::create<C>(vshim::current_locality(), std::forward<A>(a)...));
}

// ------------------------------------------------------------------ localities
inline id_type find_here() { return id_type(vshim::current_locality()); }
inline id_type find_root_locality() { return id_type(0); }
inline std::uint32_t get_locality_id() { return vshim::current_locality(); }
std::vector<id_type> find_all_localities();
std::vector<id_type> find_remote_localities();
future<std::uint32_t> get_num_localities();
struct sync_policy_t {};
inline std::uint32_t get_num_localities_sync() { return vshim::cfg().localities; }
std::size_t get_os_thread_count();
inline std::size_t get_num_worker_threads() { return get_os_thread_count(); }
std::size_t get_worker_thread_num();

namespace this_thread {
inline void yield() { vshim::wait_until([] { return true; }); }
template <typename D> void sleep_for(const D &) { yield(); }
}

namespace lcos {
using hpx::future;
using hpx::shared_future;
using hpx::wait_all;
using hpx::when_all;
using hpx::promise;
namespace local {
template <typename T> using promise = hpx::promise<T>;
struct spinlock {
  std::atomic<bool> f{false};
  void lock() {
    while (f.exchange(true, std::memory_order_acquire))
      vshim::wait_until([this] { return !f.load(); });
  }
  void unlock() { f.store(false, std::memory_order_release); vshim::notify(); }
  bool try_lock() { return !f.exchange(true, std::memory_order_acquire); }
};
using mutex = spinlock;
}
}
namespace components {
inline id_type find_here_() { return hpx::find_here(); }
}

// ------------------------------------------------------------------ util
namespace util {
template <typename Derived, typename Value, typename Tag, typename Ref = Value &,
          typename Dist = std::ptrdiff_t>
using iterator_facade = boost::iterator_facade<Derived, Value, Tag, Ref, Dist>;
using boost::iterators::iterator_core_access;

class high_resolution_timer {
  std::chrono::high_resolution_clock::time_point s;
public:
  high_resolution_timer() : s(std::chrono::high_resolution_clock::now()) {}
  void restart() { s = std::chrono::high_resolution_clock::now(); }
  double elapsed() const {
    if (vshim::on_elapsed()) vshim::on_elapsed()();
    return std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - s).count();
  }
  std::int64_t elapsed_microseconds() const { return std::int64_t(elapsed() * 1e6); }
  std::int64_t elapsed_nanoseconds() const { return std::int64_t(elapsed() * 1e9); }
  static double now() {
    return std::chrono::duration<double>(std::chrono::high_resolution_clock::now().time_since_epoch()).count();
  }
};

namespace detail {
template <typename F> struct unwrap_fn {
  F f;
  template <typename T, typename = typename std::enable_if<!std::is_void<T>::value>::type>
  auto operator()(future<T> x) -> decltype(std::declval<F &>()(std::declval<T>())) {
    return f(x.get());
  }
  template <typename T, typename G = F, typename = typename std::enable_if<std::is_void<T>::value>::type>
  auto operator()(future<T> x, T * = nullptr) -> decltype(std::declval<G &>()()) {
    x.get();
    return f();
  }
  template <typename T> auto operator()(shared_future<T> x) -> decltype(std::declval<F &>()(std::declval<T>())) {
    return f(x.get());
  }
  template <typename T, typename S, typename... R>
  decltype(auto) operator()(future<T> a, future<S> b, future<R>... r) {
    return f(a.get(), b.get(), r.get()...);
  }
};
}
template <typename F> detail::unwrap_fn<typename std::decay<F>::type> unwrapped(F &&f) {
  return {std::forward<F>(f)};
}
template <typename F> detail::unwrap_fn<typename std::decay<F>::type> unwrapping(F &&f) {
  return {std::forward<F>(f)};
}
template <typename T> T unwrapped(future<T> &&f) { return f.get(); }
template <typename T> std::vector<T> unwrapped(std::vector<future<T>> &v) {
  std::vector<T> r;
  for (auto &f : v) r.push_back(f.get());
  return r;
}
template <typename F, typename... A> auto bind(F &&f, A &&... a) {
  return std::bind(std::forward<F>(f), std::forward<A>(a)...);
}
template <typename S> using function = std::function<S>;
template <typename... T> using tuple = std::tuple<T...>;
using std::make_tuple;
using std::get;
}
using util::unwrapped;
using util::unwrapping;

// ------------------------------------------------------------------ parallel
namespace parallel {
struct static_chunk_size { std::size_t n = 0; explicit static_chunk_size(std::size_t n = 0) : n(n) {} };
struct auto_chunk_size { };
struct dynamic_chunk_size { std::size_t n = 0; explicit dynamic_chunk_size(std::size_t n = 0) : n(n) {} };
struct guided_chunk_size { std::size_t n = 0; explicit guided_chunk_size(std::size_t n = 0) : n(n) {} };
namespace execution {
struct seq_policy {
  template <typename X> seq_policy with(X &&) const { return {}; }
  template <typename X> seq_policy on(X &&) const { return {}; }
};
struct par_policy {
  std::size_t chunk = 0;
  par_policy with(const static_chunk_size &c) const { par_policy p; p.chunk = c.n; return p; }
  par_policy with(const dynamic_chunk_size &c) const { par_policy p; p.chunk = c.n; return p; }
  template <typename X> par_policy with(X &&) const { return {}; }
  template <typename X> par_policy on(X &&) const { return {}; }
};
static const seq_policy seq{};
static const par_policy par{};
static const par_policy par_unseq{};
static const par_policy datapar{};
using sequenced_policy = seq_policy;
using parallel_policy = par_policy;
}
using execution::par;
using execution::seq;
static const execution::par_policy par_vec{};
using sequential_execution_policy = execution::seq_policy;
using parallel_execution_policy = execution::par_policy;

namespace detail {
// runs chunk(0..nchunks-1), each possibly concurrently with the others
void run_chunks(std::size_t nchunks, const std::function<void(std::size_t)> &chunk);
// generated partition of [0,count)
std::vector<std::size_t> partition(std::size_t count, std::size_t chunk);

template <typename It, typename F>
It loop_n(It it, std::size_t n, F &f) {
  for (; n != 0; --n, ++it) f(*it);
  return it;
}
}

template <typename It, typename Size, typename F>
It for_each_n(const execution::seq_policy &, It it, Size n, F f) {
  return detail::loop_n(it, n < 0 ? 0 : std::size_t(n), f);
}
template <typename It, typename Size, typename F>
It for_each_n(const execution::par_policy &p, It first, Size cnt, F f) {
  std::size_t n = cnt < 0 ? 0 : std::size_t(cnt);
  if (n == 0) return first;
  std::vector<std::size_t> ends = detail::partition(n, p.chunk);
  // every chunk has its own iterator and its own copy of the function object
  std::vector<It> starts;
  starts.reserve(ends.size());
  It it = first;
  std::size_t pos = 0;
  for (std::size_t c = 0; c < ends.size(); ++c) {
    starts.push_back(it);
    if (c + 1 < ends.size())
      for (; pos < ends[c]; ++pos) ++it;
  }
  detail::run_chunks(ends.size(), [&](std::size_t c) {
    std::size_t b = c == 0 ? 0 : ends[c - 1];
    It i(starts[c]);
    F g(f);
    for (std::size_t k = b; k < ends[c]; ++k) {
      if (k != b) ++i;
      std::uint64_t saved = vshim::item_path();
      vshim::item_path() = (saved * 1000003ULL + k + 1) ^ 0x9e3779b97f4a7c15ULL;
      if (!vshim::fault_drop_item()) g(*i);
      vshim::item_path() = saved;
    }
  });
  return first;
}
template <typename P, typename It, typename F> It for_each(P &&p, It b, It e, F f) {
  std::size_t n = std::size_t(std::distance(b, e));
  for_each_n(p, b, n, f);
  return e;
}
namespace detail {
template <typename I> struct counting {
  I v;
  using iterator_category = std::forward_iterator_tag;
  using value_type = I;
  using difference_type = std::ptrdiff_t;
  using pointer = const I *;
  using reference = const I &;
  const I &operator*() const { return v; }
  counting &operator++() { ++v; return *this; }
  counting operator++(int) { auto c = *this; ++v; return c; }
  bool operator==(const counting &o) const { return v == o.v; }
  bool operator!=(const counting &o) const { return v != o.v; }
};
}
template <typename P, typename I, typename J, typename F>
typename std::enable_if<std::is_integral<I>::value>::type for_loop(P &&p, I b, J e, F f) {
  using K = typename std::common_type<I, J>::type;
  if (K(b) >= K(e)) return;
  for_each_n(p, detail::counting<K>{K(b)}, std::size_t(K(e) - K(b)), f);
}
template <typename I, typename J, typename F>
typename std::enable_if<std::is_integral<I>::value>::type for_loop(I b, J e, F f) {
  for_loop(seq, b, e, f);
}
template <typename P, typename I, typename J, typename S, typename F>
void for_loop_strided(P &&p, I b, J e, S s, F f) {
  using K = typename std::common_type<I, J>::type;
  if (K(b) >= K(e)) return;
  std::size_t n = (std::size_t(K(e) - K(b)) + std::size_t(s) - 1) / std::size_t(s);
  for_each_n(p, detail::counting<std::size_t>{0}, n, [=](std::size_t i) mutable { f(K(b + K(i * s))); });
}
template <typename P, typename It, typename T> void fill(P &&, It b, It e, const T &t) { std::fill(b, e, t); }
template <typename P, typename It, typename O> O copy(P &&, It b, It e, O o) { return std::copy(b, e, o); }
template <typename P, typename It, typename O, typename F> O transform(P &&, It b, It e, O o, F f) { return std::transform(b, e, o, f); }
}
namespace execution = parallel::execution;

// ------------------------------------------------------------------ runtime
int init(const boost::program_options::options_description &desc, int argc, char **argv);
int init(const boost::program_options::options_description &desc, int argc, char **argv,
         const std::vector<std::string> &cfg);
int init(int argc, char **argv);
int finalize();
inline int disconnect() { return finalize(); }
bool start(int argc, char **argv);
bool start(int argc, char **argv, const std::vector<std::string> &);
bool start(const boost::program_options::options_description &desc, int argc, char **argv,
           const std::vector<std::string> & = {});
bool start(const std::function<int(int, char **)> &f, int argc, char **argv,
           const std::vector<std::string> & = {});
int stop();

enum error { success = 0, bad_parameter = 1, invalid_status = 2 };
struct exception : std::runtime_error {
  using std::runtime_error::runtime_error;
};
}
