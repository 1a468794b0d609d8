#include "hpx_shim.hpp"

#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <sched.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define VSHIM_ASAN 1
#else
#define VSHIM_ASAN 0
#endif

int hpx_main(boost::program_options::variables_map &) __attribute__((weak));
int hpx_main(int, char **) __attribute__((weak));
int hpx_main() __attribute__((weak));

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept;
}

namespace vshim {

config &cfg() {
  static config c;
  return c;
}
stats_t &stats() {
  static stats_t s;
  return s;
}
std::recursive_mutex &out_mutex() {
  static std::recursive_mutex m;
  return m;
}
static thread_local std::uint64_t tl_item_path = 0;
static thread_local unsigned tl_locality = 0;

void fatal(const std::string &msg) {
  std::fflush(stdout);
  std::string m = "VSHIM-FATAL: " + msg + "\n";
  ssize_t r = ::write(2, m.data(), m.size());
  (void)r;
  _exit(97);
}

static std::uint64_t rng_state = 0;
static std::uint64_t rng_next() {
  std::uint64_t z = (rng_state += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
std::uint64_t decide(std::uint64_t bound) { return bound <= 1 ? 0 : rng_next() % bound; }

// ------------------------------------------------------------------ faults
static std::atomic<std::uint64_t> fault_counter{0};
std::function<void()> &on_elapsed() {
  static std::function<void()> f;
  return f;
}
std::uint64_t fault_events() { return fault_counter.load(); }
bool faults_active() { return cfg().fault_kind != 0; }
static bool fire() {
  if (fault_counter.fetch_add(1, std::memory_order_relaxed) == cfg().fault_index) {
    stats().faults_fired++;
    return true;
  }
  return false;
}
void fault_result(std::vector<double> &r) {
  if (!threaded()) stats().action_results++;
  if (cfg().fault_kind != 1 || r.empty()) return;
  if (fire()) r[cfg().fault_pos % r.size()] += cfg().fault_delta;
}
bool fault_drop_item() {
  if (!threaded()) stats().par_items++;
  if (cfg().fault_kind != 2) return false;
  return fire();
}
static std::atomic<std::uint64_t> stores{0};
void fault_store(double *p, int n) {
  if (cfg().fault_kind != 3) return;
  if (fire()) p[cfg().fault_pos % std::uint64_t(n)] += cfg().fault_delta;
}

#ifdef VSHIM_THREADS
// =================================================================== threads
bool threaded() { return true; }
static std::atomic<long> live{0};
unsigned current_locality() { return tl_locality; }
void set_locality(unsigned l) { tl_locality = l; }
std::uint64_t &item_path() { return tl_item_path; }

void wait_until(const std::function<bool()> &pred) {
  unsigned n = 0;
  while (!pred()) {
    if (++n < 64) sched_yield();
    else usleep(100);
  }
}
void notify() {}
void spawn(std::function<void()> f, unsigned locality) {
  live.fetch_add(1, std::memory_order_relaxed);
  std::uint64_t path = tl_item_path;
  std::thread([f = std::move(f), locality, path]() mutable {
    tl_locality = locality;
    tl_item_path = path;
    f();
    f = nullptr;
    live.fetch_sub(1, std::memory_order_release);
  }).detach();
}
void run_root(std::function<void()> f) {
  rng_state = cfg().sched_seed;
  fault_counter = 0;
  f();
  while (live.load(std::memory_order_acquire) != 0) usleep(50);
}
#else
// =================================================================== fibers
bool threaded() { return false; }

namespace {
const std::size_t STACK = 512 * 1024;
struct fiber {
  ucontext_t ctx;
  std::function<void()> fn;
  char *stack = nullptr;
  unsigned locality = 0;
  std::uint64_t path = 0;
  std::uint64_t seq = 0;
  std::uint64_t prio = 0;
  bool started = false, done = false;
  const std::function<bool()> *pred = nullptr;
  char eh[16] = {0};
  void *fake = nullptr;
};
std::list<fiber *> ready;   // runnable, in order of becoming runnable
std::list<fiber *> blocked; // waiting for a predicate
fiber *cur = nullptr;
ucontext_t sched_ctx;
char sched_eh[16];
void *sched_fake = nullptr;
const void *sched_bottom = nullptr;
std::size_t sched_size = 0;
bool recheck = false;
std::uint64_t seqno = 0, nlive = 0;
bool in_runtime = false;

void eh_swap(char *save, const char *load) {
  void *g = __cxxabiv1::__cxa_get_globals();
  std::memcpy(save, g, 16);
  std::memcpy(g, load, 16);
}

void to_scheduler(bool dying) {
  fiber *f = cur;
#if VSHIM_ASAN
  __sanitizer_start_switch_fiber(dying ? nullptr : &f->fake, sched_bottom, sched_size);
#endif
  eh_swap(f->eh, sched_eh);
  swapcontext(&f->ctx, &sched_ctx);
#if VSHIM_ASAN
  __sanitizer_finish_switch_fiber(f->fake, &sched_bottom, &sched_size);
#endif
}

void entry() {
#if VSHIM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
#endif
  fiber *f = cur;
  f->fn();
  f->fn = nullptr;
  f->done = true;
  to_scheduler(true);
}

void run(fiber *f) {
  cur = f;
  tl_locality = f->locality;
  tl_item_path = f->path;
  stats().switches++;
  if (!f->started) {
    f->started = true;
    char *m = static_cast<char *>(mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (m == MAP_FAILED) fatal("out of fiber stacks");
    mprotect(m, 4096, PROT_NONE);
    f->stack = m;
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = m + 4096;
    f->ctx.uc_stack.ss_size = STACK;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, entry, 0);
  }
#if VSHIM_ASAN
  __sanitizer_start_switch_fiber(&sched_fake, f->stack + 4096, STACK);
#endif
  eh_swap(sched_eh, f->eh);
  swapcontext(&sched_ctx, &f->ctx);
#if VSHIM_ASAN
  __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
#endif
  f->locality = tl_locality;
  f->path = tl_item_path;
  cur = nullptr;
  if (f->done) {
    nlive--;
    // a finished task's stack becomes inaccessible: a dangling reference to
    // one of its locals faults
    madvise(f->stack, STACK + 4096, MADV_DONTNEED);
    mprotect(f->stack, STACK + 4096, PROT_NONE);
#if VSHIM_ASAN
    __asan_unpoison_memory_region(f->stack, STACK + 4096);
#endif
    delete f;
  }
}

fiber *pick() {
  if (recheck) {
    recheck = false;
    for (auto it = blocked.begin(); it != blocked.end();) {
      if ((*(*it)->pred)()) {
        ready.push_back(*it);
        it = blocked.erase(it);
      } else
        ++it;
    }
  }
  if (ready.empty()) return nullptr;
  std::list<fiber *>::iterator it = ready.begin();
  switch (cfg().sched_mode) {
  case 1:
  case 3:
    it = std::prev(ready.end());
    break;
  case 2:
    it = std::next(ready.begin(), decide(std::min<std::uint64_t>(ready.size(), 64)));
    if (ready.size() > 64 && decide(2)) {
      it = std::prev(ready.end());
      std::advance(it, -long(decide(64)));
    }
    break;
  case 4: {
    auto best = ready.begin();
    for (auto i = ready.begin(); i != ready.end(); ++i)
      if ((*i)->prio > (*best)->prio) best = i;
    it = best;
    if (decide(16) == 0) (*it)->prio = rng_next();
    break;
  }
  default:
    break;
  }
  fiber *f = *it;
  ready.erase(it);
  return f;
}

void loop() {
  while (fiber *f = pick()) run(f);
  if (!blocked.empty()) fatal("deadlock: " + std::to_string(blocked.size()) + " task(s) wait forever");
}
}

unsigned current_locality() { return tl_locality; }
void set_locality(unsigned l) { tl_locality = l; }
std::uint64_t &item_path() { return tl_item_path; }
void notify() { recheck = true; }

void wait_until(const std::function<bool()> &pred) {
  if (!cur) {
    if (pred()) return;
    fatal("blocking wait outside of the runtime");
  }
  fiber *f = cur;
  stats().blocked++;
  if (pred()) { // pure yield
    ready.push_back(f);
    to_scheduler(false);
    return;
  }
  f->pred = &pred;
  blocked.push_back(f);
  to_scheduler(false);
  f->pred = nullptr;
}

void spawn(std::function<void()> fn, unsigned locality) {
  if (!in_runtime) fatal("task created outside of the runtime");
  fiber *f = new fiber;
  f->fn = std::move(fn);
  f->locality = locality;
  f->path = tl_item_path;
  f->seq = ++seqno;
  f->prio = rng_next();
  ready.push_back(f);
  stats().tasks++;
  nlive++;
  if (nlive > stats().max_live) stats().max_live = nlive;
  if (cur && (cfg().sched_mode == 3 || (cfg().sched_mode == 2 && decide(4) == 0) ||
              (cfg().sched_mode == 4 && decide(4) == 0))) {
    fiber *me = cur;
    if (cfg().sched_mode == 3)
      ready.push_front(me); // child first
    else
      ready.push_back(me);
    to_scheduler(false);
  }
}

void run_root(std::function<void()> fn) {
  rng_state = cfg().sched_seed;
  fault_counter = 0;
  stats() = stats_t();
  in_runtime = true;
  std::exception_ptr ex;
  spawn([&] {
    try {
      fn();
    } catch (...) {
      ex = std::current_exception();
    }
  }, 0);
  loop();
  in_runtime = false;
  tl_locality = 0;
  tl_item_path = 0;
  hpx::detail::agas_reset();
  if (ex) std::rethrow_exception(ex);
}
#endif
}

namespace hpx {

ostream_wrap cout(std::cout);
ostream_wrap cerr(std::cerr);

std::ostream &operator<<(std::ostream &os, const id_type &id) {
  std::ostringstream s;
  s << "{" << std::setw(16) << std::setfill('0') << std::hex << (id.locality + 1) << "}";
  return os << s.str();
}

component_record::~component_record() {}

namespace detail {
static std::mutex agas_m;
static std::map<std::string, std::weak_ptr<component_record>> &names() {
  static std::map<std::string, std::weak_ptr<component_record>> m;
  return m;
}
bool agas_register(const std::string &name, const std::shared_ptr<component_record> &r) {
  std::lock_guard<std::mutex> l(agas_m);
  auto &slot = names()[name];
  if (slot.lock()) return false; // taken by a live component
  slot = r;
  return true;
}
bool agas_unregister(const std::string &name) {
  std::lock_guard<std::mutex> l(agas_m);
  return names().erase(name) > 0;
}
std::shared_ptr<component_record> agas_resolve(const std::string &name) {
  std::lock_guard<std::mutex> l(agas_m);
  auto it = names().find(name);
  return it == names().end() ? nullptr : it->second.lock();
}
void agas_reset() {
  std::lock_guard<std::mutex> l(agas_m);
  names().clear();
}
}

std::vector<id_type> find_all_localities() {
  std::vector<id_type> v;
  for (unsigned i = 0; i < vshim::cfg().localities; ++i) v.push_back(id_type(i));
  return v;
}
std::vector<id_type> find_remote_localities() {
  std::vector<id_type> v;
  for (unsigned i = 0; i < vshim::cfg().localities; ++i)
    if (i != vshim::current_locality()) v.push_back(id_type(i));
  return v;
}
future<std::uint32_t> get_num_localities() {
  return make_ready_future(std::uint32_t(vshim::cfg().localities));
}
std::size_t get_os_thread_count() { return vshim::cfg().threads; }
std::size_t get_worker_thread_num() { return 0; }

namespace parallel {
namespace detail {
std::vector<std::size_t> partition(std::size_t count, std::size_t chunk) {
  std::vector<std::size_t> ends;
  if (chunk != 0) {
    for (std::size_t e = chunk; e < count; e += chunk) ends.push_back(e);
    ends.push_back(count);
    return ends;
  }
  if (vshim::threaded()) {
    // as many chunks as threads (never fewer than one item each)
    std::size_t n = std::min<std::size_t>(count, std::max(1u, vshim::cfg().threads));
    for (std::size_t i = 1; i <= n; ++i) ends.push_back(count * i / n);
    return ends;
  }
  if (vshim::cfg().sched_mode == 0) {
    ends.push_back(count);
    return ends;
  }
  std::size_t n = 1 + vshim::decide(std::min<std::size_t>(count, 64));
  std::set<std::size_t> cuts;
  for (std::size_t i = 1; i < n; ++i) cuts.insert(1 + vshim::decide(count));
  cuts.insert(count);
  for (std::size_t c : cuts) ends.push_back(c);
  return ends;
}
void run_chunks(std::size_t n, const std::function<void(std::size_t)> &chunk) {
  if (vshim::threaded()) {
    if (n == 1) { chunk(0); return; }
    unsigned loc = vshim::current_locality();
    std::vector<std::exception_ptr> ex(n);
    std::vector<std::thread> ts;
    std::size_t k = std::min<std::size_t>(n, 16);
    for (std::size_t t = 0; t < k; ++t)
      ts.emplace_back([&, t, loc] {
        vshim::set_locality(loc);
        for (std::size_t c = t; c < n; c += k) {
          try { chunk(c); } catch (...) { ex[c] = std::current_exception(); }
        }
      });
    for (auto &t : ts) t.join();
    for (auto &e : ex) if (e) std::rethrow_exception(e);
    return;
  }
  vshim::stats().par_loops++;
  vshim::stats().par_chunks += n;
  std::vector<std::size_t> order(n);
  std::iota(order.begin(), order.end(), std::size_t(0));
  if (vshim::cfg().sched_mode == 1) std::reverse(order.begin(), order.end());
  else if (vshim::cfg().sched_mode >= 2)
    for (std::size_t i = n; i > 1; --i) std::swap(order[i - 1], order[vshim::decide(i)]);
  // HPX: all chunks run, then errors are reported as a list
  std::exception_ptr e;
  for (std::size_t c : order) {
    try { chunk(c); } catch (...) { if (!e) e = std::current_exception(); }
  }
  if (e) std::rethrow_exception(e);
}
}
}

// ------------------------------------------------------------------ runtime
static int last_result = 0;

static int run_main(const std::function<int()> &f) {
  int r = 0;
  vshim::run_root([&] { r = f(); });
  return r;
}
int finalize() { return 0; }

int init(const boost::program_options::options_description &desc, int argc, char **argv) {
  namespace po = boost::program_options;
  std::vector<std::string> args;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 6, "--hpx:") == 0) {
      if (a.compare(0, 14, "--hpx:threads=") == 0 && std::atoi(a.c_str() + 14) > 0)
        vshim::cfg().threads = unsigned(std::atoi(a.c_str() + 14));
      continue;
    }
    args.push_back(a);
  }
  po::variables_map vm;
  try {
    po::store(po::command_line_parser(args).options(desc).run(), vm);
    po::notify(vm);
  } catch (const std::exception &e) {
    std::cerr << "hpx::init: " << e.what() << std::endl;
    return -1;
  }
  if (static_cast<int (*)(po::variables_map &)>(&::hpx_main) == nullptr)
    vshim::fatal("no hpx_main(variables_map&)");
  return run_main([&] { return ::hpx_main(vm); });
}
int init(const boost::program_options::options_description &desc, int argc, char **argv,
         const std::vector<std::string> &) {
  return init(desc, argc, argv);
}
static int call_main(int argc, char **argv) {
  int (*m2)(int, char **) = &::hpx_main;
  int (*m0)() = &::hpx_main;
  if (m2) return m2(argc, argv);
  if (m0) return m0();
  vshim::fatal("no hpx_main");
}
int init(int argc, char **argv) {
  return run_main([&] { return call_main(argc, argv); });
}
bool start(int argc, char **argv) {
  last_result = init(argc, argv);
  return true;
}
bool start(int argc, char **argv, const std::vector<std::string> &) { return start(argc, argv); }
bool start(const boost::program_options::options_description &desc, int argc, char **argv,
           const std::vector<std::string> &) {
  last_result = init(desc, argc, argv);
  return true;
}
bool start(const std::function<int(int, char **)> &f, int argc, char **argv,
           const std::vector<std::string> &) {
  last_result = run_main([&] { return f(argc, argv); });
  return true;
}
int stop() { return last_result; }
}
