// C12 command-line program, C17 truth of its self-check.
//
// The program is the application of /repo with main renamed (app_main).  Every
// run is a process of its own on the runtime stand-in; standard output is
// captured at full precision.
#include "oracle.hpp"
#include "rt.hpp"

#include <cmath>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <limits>
#include <omp.h>
#include <regex>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

int app_main(int, char **);
// the program's result, if it is a global of that name (fault kind 4)
extern std::vector<double> C __attribute__((weak));

using namespace pbt;

namespace {
struct Run {
  bool signalled = false;
  int status = 0;
  std::string out;
  bool ok() const { return !signalled && status == 0; }
  std::string how() const { return signalled ? fmt("killed by signal %d", status) : fmt("exit status %d", status); }
};
// shared with the runs: number of places where the fault could have struck
std::uint64_t *events = nullptr;
void share_events() {
  if (!events) events = static_cast<std::uint64_t *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  events[0] = events[1] = 0;
}
Run program(const Case &c, const std::vector<std::string> &args) {
  int fd = memfd_create("out", 0);
  if (fd < 0) {
    char name[] = "/tmp/vapp-XXXXXX";
    fd = mkstemp(name);
    unlink(name);
  }
  pid_t pid = fork();
  if (pid < 0) std::abort();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct itimerval t;
    std::memset(&t, 0, sizeof t);
    t.it_value.tv_sec = 90;
    setitimer(ITIMER_PROF, &t, nullptr);
    dup2(fd, 1);
    rt::configure(c);
    auto &k = vshim::cfg();
    k.fault_kind = int(c.get("fault", 0));
    k.fault_index = std::uint64_t(c.get("findex", 0));
    k.fault_pos = std::uint64_t(c.get("fpos", 0));
    static const double D[] = {0, 1, -1, 1e-3, 1e-8, 3e-10, 1e-12, 1e6, 1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), -1e-7, 8e-11, -1.3e-10};
    k.fault_delta = D[c.get("delta", 0)];
    omp_set_num_threads(k.fault_kind ? 1 : int(c.get("threads", 4)));
    std::cout.precision(17);
    if (k.fault_kind == 4 && &::C) {
      // the result is corrupted when the run time is taken, which is before it
      // is printed (a later hit is recognised by the printed result being right)
      std::uint64_t pos = k.fault_pos;
      double delta = k.fault_delta;
      std::int64_t shape = c.get("fshape", 0);
      std::uint64_t pos2 = std::uint64_t(c.get("fpos2", 0));
      vshim::on_elapsed() = [pos, pos2, delta, shape] {
        static bool done = false;
        if (done || ::C.empty()) return;
        done = true;
        std::size_t n = ::C.size(), p = pos % n, q = pos2 % n;
        switch (shape) {
        case 1: // errors that cancel in a sum
          ::C[p] += delta;
          ::C[q] -= delta;
          break;
        case 2: std::swap(::C[p], ::C[q]); break; // the same components, two exchanged
        case 3: std::rotate(::C.begin(), ::C.begin() + std::ptrdiff_t(p), ::C.end()); break;
        case 4: // every component off
          for (auto &v : ::C) v += delta;
          break;
        case 5: // from here on never computed
          for (std::size_t i = p; i < n; ++i) ::C[i] = 0.0;
          break;
        default: ::C[p] += delta;
        }
        if (events) events[1] = 1;
      };
    }
    std::vector<std::vector<char>> store;
    std::vector<char *> argv;
    store.push_back({'m', 'm', 0});
    for (auto &a : args) store.push_back(std::vector<char>(a.c_str(), a.c_str() + a.size() + 1));
    for (auto &s : store) argv.push_back(s.data());
    argv.push_back(nullptr);
    // an exception that leaves main ends the program
    int r = [&]() noexcept { return app_main(int(store.size()), argv.data()); }();
    if (events) *events = vshim::fault_events();
    std::cout.flush();
    std::fflush(nullptr);
    _exit(r & 255);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Run r;
  r.signalled = WIFSIGNALED(st);
  r.status = r.signalled ? WTERMSIG(st) : WEXITSTATUS(st);
  off_t n = lseek(fd, 0, SEEK_END);
  r.out.resize(std::size_t(n));
  if (n && pread(fd, &r.out[0], std::size_t(n), 0) != n) std::abort();
  close(fd);
  std::string cmd;
  for (auto &a : args) cmd += " " + a;
  if (r.signalled && r.status == SIGPROF) fail("did not terminate within 90 s of CPU time:" + cmd);
  if (r.signalled && (r.status == SIGKILL)) std::_Exit(77); // from outside: no verdict
  if (!r.signalled && r.status == 99) fail("memory error or undefined behaviour reported by the sanitizer:" + cmd);
  if (r.signalled && r.status != SIGABRT) fail(fmt("killed by signal %d:", r.status) + cmd);
  return r;
}
bool has(const Run &r, const std::string &s) { return r.out.find(s) != std::string::npos; }

// n rows of n numbers after the given heading; false if the heading is absent
bool matrix(const Run &r, const std::string &head, std::size_t n, bool last, std::vector<double> &m) {
  std::size_t p = last ? r.out.rfind(head) : r.out.find(head);
  if (p == std::string::npos) return false;
  std::istringstream is(r.out.substr(p + head.size()));
  std::string line;
  std::getline(is, line);
  m.clear();
  for (std::size_t i = 0; i < n; ++i) {
    if (!std::getline(is, line)) fail(head + fmt(" has only %zu rows", i));
    std::istringstream ls(line);
    std::string f;
    std::size_t k = 0;
    while (std::getline(ls, f, ',')) {
      char *e = nullptr;
      double v = std::strtod(f.c_str(), &e);
      while (e && *e == ' ') ++e;
      if (e == f.c_str() || (e && *e)) fail(head + fmt(" row %zu: \"", i) + line.substr(0, 80) + "\"");
      m.push_back(v);
      ++k;
    }
    if (k != n) fail(head + fmt(" row %zu has %zu components instead of %zu", i, k, n));
  }
  // one more row of numbers would be too many
  if (n > 1 && std::getline(is, line) && std::count(line.begin(), line.end(), ',') == std::int64_t(n - 1) &&
      line.find_first_not_of("0123456789.,eE+-infa ") == std::string::npos)
    fail(head + fmt(" has more than %zu rows", n));
  return true;
}
std::vector<double> times(const std::vector<double> &a, const std::vector<double> &b, std::size_t n) {
  std::vector<double> c(n * n, 0.0);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t k = 0; k < n; ++k)
      for (std::size_t j = 0; j < n; ++j) c[i * n + j] += a[i * n + k] * b[k * n + j];
  return c;
}

const char *ALG[] = {"single", "pseudodynamic", "algorithms", "looped", "semi", "kernel_test", "combined", "kernel_tiled"};
const int ALGS = 8;
bool needs_transposed(std::int64_t a) { return a >= 2 && a <= 4; }
bool needs_plain(std::int64_t a) { return a == 6; }
bool pow2_only(std::int64_t a) { return a <= 1; }

// -1: option omitted
struct Opts {
  std::vector<std::string> args;
  std::int64_t n, alg, transposed, reps, verbose, check;
};
std::string boolean(std::int64_t v, std::int64_t style) {
  static const char *t[] = {"1", "true", "True", "yes"}, *f[] = {"0", "false", "False", "no"};
  return (v ? t : f)[style & 3];
}
Opts options(const Case &c) {
  Opts o;
  auto add = [&](const char *name, const std::string &v) {
    if (c.get("spaced", 0)) {
      o.args.push_back(std::string("--") + name);
      o.args.push_back(v);
    } else
      o.args.push_back(std::string("--") + name + "=" + v);
  };
  auto num = [&](const char *name, const char *field, std::int64_t dflt) {
    std::int64_t v = c.get(field, -1);
    if (v >= 0) add(name, std::to_string(v));
    return v >= 0 ? v : dflt;
  };
  std::int64_t style = c.get("style", 0);
  o.n = num("n-value", "n", 4);
  std::int64_t a = c["alg"];
  if (a >= 0 && a < ALGS) add("algorithm", ALG[a]);
  o.alg = a < 0 ? 0 : a;
  std::int64_t t = c.get("transposed", -1);
  if (t >= 0) add("transposed", boolean(t, style));
  o.transposed = t >= 0 ? t : 1;
  t = c.get("check", -1);
  if (t >= 0) add("check", boolean(t, style >> 2));
  o.check = t >= 0 ? t : 0;
  o.reps = num("repetitions", "reps", 1);
  o.verbose = num("verbose", "verbose", 0);
  num("block-result", "br", 128);
  num("block-input", "bi", 128);
  num("min-work-size", "minwork", 256);
  num("max-work-difference", "maxdiff", 10000);
  t = c.get("rel", -1);
  if (t >= 0) add("max-relative-work-difference", std::to_string(double(t) / 100.0));
  if (c.get("shuffle", 0) && !c.get("spaced", 0)) {
    Stream g{std::uint64_t(c["shuffle"])};
    for (std::size_t i = o.args.size(); i > 1; --i) std::swap(o.args[i - 1], o.args[g.below(i)]);
  }
  if (c.get("hpxopt", 0)) o.args.push_back(fmt("--hpx:threads=%d", int(c["threads"])));
  return o;
}
std::string shown(const Opts &o) {
  std::string s;
  for (auto &a : o.args) s += " " + a;
  return s;
}

void gen_common(Src &s, Case &c, bool omit, int heavy) {
  std::int64_t a = s.chance(heavy, 16) ? s.range(6, 7) : s.chance(1, 60) ? 5 : s.range(0, 4);
  if (omit && s.chance(1, 10)) a = -1;
  c.set("alg", a);
  bool p2 = a <= 1;
  auto maybe = [&](const char *f, std::int64_t v) { c.set(f, omit && s.chance(1, 3) ? -1 : v); };
  maybe("n", p2 ? oracle::gen_pow2(s, 0, 5) : s.chance(1, 6) ? s.range(1, 70) : s.range(1, 24));
  maybe("transposed", needs_plain(a) ? s.chance(1, 5) : needs_transposed(a) ? s.chance(5, 6) : s.range(0, 1));
  maybe("check", s.range(0, 1));
  maybe("reps", a <= 1 && c["n"] >= 1 && c["n"] <= 2 && s.chance(1, 8) ? s.pick({255, 256, 257, 300}) : s.range(1, 3));
  maybe("verbose", s.pick({2, 2, 2, 0, 1, 3}));
  maybe("br", s.chance(1, 5) ? 0 : s.chance(1, 2) ? oracle::gen_pow2(s, 0, 6) : s.range(1, 40));
  maybe("bi", s.chance(1, 2) ? oracle::gen_pow2(s, 0, 6) : s.range(1, 40));
  maybe("minwork", s.chance(1, 3) ? s.range(0, 3) : s.range(0, 300));
  maybe("maxdiff", s.chance(1, 3) ? s.range(0, 4) : s.range(0, 2000));
  maybe("rel", s.range(0, 60));
  if (a == 5) { // see known-findings.txt
    c.set("n", 4 * s.range(113, 128));
    c.set("reps", 1);
    if (c["verbose"] > 2) c.set("verbose", 2);
  }
  c.set("style", s.range(0, 15));
  c.set("spaced", s.range(0, 1));
  c.set("shuffle", s.range(0, 1000));
  c.set("hpxopt", s.range(0, 1));
  c.set("threads", s.range(1, 8));
  c.set("locs", a == 1 ? s.range(1, 5) : 1);
  rt::gen_sched(s, c);
}
bool valid_common(const Case &c) {
  std::int64_t a = c["alg"] < 0 ? 0 : c["alg"], n = c.get("n", -1) < 0 ? 4 : c["n"];
  if (a >= ALGS || n < 1 || n > (a == 5 ? 512 : 200) || c["locs"] < 1 || c["threads"] < 1) return false;
  if (pow2_only(a) && (n & (n - 1))) return false;
  if (a == 5 && (n % 4 || n < 452)) return false;
  if (c.get("reps", -1) > 3 && (n > 2 || a > 1 || c["reps"] > 600)) return false;
  if (c.get("reps", -1) == 0 || c.get("bi", -1) == 0) return false;
  if (c.get("verbose", -1) > 3) return false;
  return rt::valid_sched(c) && c["locs"] <= 8;
}
bool supported(const Opts &o) { return !(needs_transposed(o.alg) && !o.transposed) && !(needs_plain(o.alg) && o.transposed); }

void no_result(const Run &r, const std::string &why) {
  if (has(r, "matrix C:") || has(r, "check passed") || has(r, "check failed") || has(r, "total time:"))
    fail(why + ", but a result is reported");
}

// ------------------------------------------------------------ documented algorithms
Case gen_options(Src &s) {
  Case c;
  gen_common(s, c, true, 2);
  return c;
}
void run_options(const Case &c, Ctx &x) {
  Opts o = options(c);
  Run r = program(c, o.args);
  std::size_t n = std::size_t(o.n);
  x.label(std::string("algorithm:") + (c["alg"] < 0 ? "(default)" : ALG[o.alg]));
  x.note = shown(o);
  if (!supported(o)) {
    x.label("refused");
    if (r.ok()) fail("unsupported storage order accepted:" + shown(o));
    no_result(r, "unsupported storage order" + shown(o));
    x.nontrivial = true;
    return;
  }
  if (!r.ok()) fail(r.how() + " for" + shown(o));
  std::string why = " for" + shown(o);
  std::vector<double> A, B, C;
  bool a = matrix(r, "matrix A:", n, false, A), b = matrix(r, "matrix B:", n, false, B);
  bool cc = matrix(r, "matrix C:", n, true, C);
  if (o.verbose >= 2) {
    if (!a || !b || !cc) fail("a matrix is not printed" + why);
    std::vector<double> want = times(A, B, n);
    for (std::size_t i = 0; i < n * n; ++i)
      if (!(std::fabs(C[i] - want[i]) <= 1e-9 * (1 + std::fabs(want[i]))))
        fail(fmt("C(%zu,%zu) is printed as %.17g, A*B has %.17g there", i / n, i % n, C[i], want[i]) + why);
    for (double v : A)
      if (!std::isfinite(v)) fail("A is not finite" + why);
    bool nz = false;
    for (double v : want) nz = nz || v != 0;
    if (!nz) fail("the operands are zero" + why);
  } else if (a || b || cc)
    fail("matrices are printed below verbosity 2" + why);
  bool passed = has(r, "check passed"), failed = has(r, "check failed");
  if (o.check ? !passed || failed : passed || failed)
    fail(std::string(o.check ? "check requested" : "check not requested") + (passed ? ", \"check passed\" printed" : ", \"check passed\" not printed") +
         (failed ? ", \"check failed\" printed" : "") + why);
  // reported size, repetitions and timings
  std::smatch m;
  if (!std::regex_search(r.out, m, std::regex("\\[N = (\\d+)\\] total time: ([-+0-9.eE]+)s")) || m[1] != std::to_string(o.n))
    fail("size and total time are not reported" + why);
  if (!std::regex_search(r.out, m, std::regex("average time per run: ([-+0-9.eE]+)s \\(repetitions = (\\d+)\\)")) || m[2] != std::to_string(o.reps))
    fail("average time and number of repetitions are not reported" + why);
  if (!has(r, "Gflops")) fail("no performance is reported" + why);
  x.label_if(o.verbose >= 2, "matrices printed");
  x.label_if(o.check, "check");
  x.label_if(c["locs"] > 1, "several nodes");
  int om = 0;
  for (auto &p : c.kv) om += p.second < 0;
  x.label_if(om > 0, "options omitted");
  x.nontrivial = o.verbose >= 2 || o.check || om > 0;
}
std::vector<Case> corpus_options() {
  std::vector<Case> v;
  auto base = [](std::int64_t a) {
    return Case{{"alg", a}, {"n", -1}, {"transposed", -1}, {"check", -1}, {"reps", -1}, {"verbose", -1}, {"br", -1}, {"bi", -1}, {"minwork", -1}, {"maxdiff", -1},
                {"rel", -1}, {"style", 0}, {"spaced", 0}, {"shuffle", 0}, {"hpxopt", 0}, {"threads", 4}, {"locs", 1}, {"sched", 0}, {"sseed", 0}};
  };
  for (std::int64_t a = -1; a < ALGS; ++a) {
    v.push_back(base(a)); // everything at its default
    for (std::int64_t t = 0; t < 2; ++t) {
      Case c = base(a);
      c.set("transposed", t);
      c.set("verbose", 2);
      c.set("check", 1);
      c.set("n", 8);
      v.push_back(c);
    }
    Case c = base(a);
    c.set("verbose", 2); // default size
    c.set("transposed", a == 6 ? 0 : -1);
    v.push_back(c);
  }
  Case k = base(5);
  k.set("n", 512);
  k.set("transposed", 0);
  k.set("verbose", 2);
  k.set("check", 1);
  v.push_back(k);
  return v;
}

// ------------------------------------------------------------ unknown names
std::string unknown_name(const Case &c) {
  Stream g{std::uint64_t(c["name"])};
  switch (c["how"]) {
  case 0: { // a documented name, mutilated
    std::string s = ALG[g.below(ALGS)];
    switch (g.below(5)) {
    case 0: s.pop_back(); break;
    case 1: s += "x"; break;
    case 2: s[0] = char(std::toupper(s[0])); break;
    case 3: s = " " + s; break;
    default: s[g.below(s.size())] = '-';
    }
    return s;
  }
  case 1: return std::vector<std::string>{"kernel", "none", "all", "naive", "help", "0", "combine", "kernel_", "tiled", "distributed", "Single", "SEMI"}[g.below(12)];
  default: {
    std::string s;
    for (std::uint64_t i = 0, n = 1 + g.below(12); i < n; ++i) s += char('a' + g.below(26));
    return s + "0";
  }
  }
}
Case gen_unknown(Src &s) {
  Case c;
  gen_common(s, c, true, 0);
  c.set("alg", ALGS);
  c.set("how", s.range(0, 2));
  c.set("name", s.range(0, 1 << 16));
  return c;
}
void run_unknown(const Case &c, Ctx &x) {
  Opts o = options(c);
  std::string name = unknown_name(c);
  o.args.push_back("--algorithm=" + name);
  Run r = program(c, o.args);
  if (r.signalled || r.status != 1) fail(r.how() + " instead of exit status 1 for" + shown(o));
  if (!has(r, "not a valid algorithm") || !has(r, name)) fail("the unknown name is not reported as invalid for" + shown(o));
  no_result(r, "unknown algorithm" + shown(o));
  x.note = name;
  x.nontrivial = true;
}
bool valid_unknown(const Case &c) { return c["how"] >= 0 && c["how"] <= 2 && c["alg"] == ALGS && c["locs"] >= 1 && c["threads"] >= 1 && rt::valid_sched(c); }

// ------------------------------------------------------------ help
Case gen_help(Src &s) {
  Case c;
  gen_common(s, c, true, 2);
  c.set("first", s.range(0, 1));
  return c;
}
void run_help(const Case &c, Ctx &x) {
  Opts o = options(c);
  o.args.insert(c["first"] ? o.args.begin() : o.args.end(), "--help");
  Run r = program(c, o.args);
  if (!r.ok()) fail(r.how() + " for" + shown(o));
  static const char *doc[][2] = {{"n-value", "4"}, {"transposed", "1"}, {"repetitions", "1"}, {"verbose", "0"}, {"block-result", "128"}, {"block-input", "128"},
                                 {"check", "0"}, {"algorithm", "single"}, {"min-work-size", "256"}, {"max-work-difference", "10000"},
                                 {"max-relative-work-difference", "0.05"}};
  for (auto &d : doc) {
    std::smatch m;
    if (!std::regex_search(r.out, m, std::regex(std::string("--") + d[0] + " arg\\s+\\(=([^)]*)\\)")))
      fail(std::string("option ") + d[0] + " or its default is not listed by --help");
    bool same = m[1] == d[1] || (d[1][0] >= '0' && d[1][0] <= '9' && std::fabs(std::strtod(m[1].str().c_str(), nullptr) - std::strtod(d[1], nullptr)) < 1e-12);
    if (!same) fail(std::string("the default of ") + d[0] + " is listed as " + m[1].str());
  }
  if (!has(r, "--help")) fail("--help is not listed");
  for (auto a : ALG)
    if (!has(r, a)) fail(std::string("algorithm ") + a + " is not listed by --help");
  no_result(r, "--help");
  if (has(r, "matrix A:") || has(r, "performance:")) fail("--help multiplies");
  x.note = shown(o);
  x.nontrivial = o.args.size() > 1;
}
bool valid_help(const Case &c) { return valid_common(c); }

// ------------------------------------------------------------ self-check (C17)
// fault kinds per algorithm: 1 a task's result, 2 a loop item dropped, 3 a vector store,
// 4 the result itself
std::vector<std::int64_t> kinds(std::int64_t a) {
  switch (a) {
  case 0: case 1: return {1, 4};
  case 2: return {2, 4};
  case 3: case 5: return {4};
  case 4: return {2, 3, 4};
  case 6: return {3, 2, 4};
  default: return {3};
  }
}
Case gen_check(Src &s) {
  Case c;
  gen_common(s, c, false, 2);
  std::int64_t a = c["alg"];
  c.set("transposed", needs_transposed(a) ? 1 : needs_plain(a) ? 0 : s.range(0, 1));
  c.set("check", 1);
  c.set("reps", s.chance(3, 4) ? 1 : s.range(1, 3));
  c.set("verbose", s.pick({2, 2, 2, 0, 1, 3}));
  if (s.chance(1, 8)) c.set("fault", 0);
  else c.set("fault", s.pick(kinds(a)));
  std::int64_t n = c["n"];
  c.set("fplace", c["fault"] == 0 || c["fault"] == 4 ? 0 : s.chance(1, 4) ? s.pick({999, 0, 998, 1}) : s.range(0, 999)); // per mille of the places where it can strike
  c.set("fpos", c["fault"] ? s.range(0, n * n) : 0);
  c.set("delta", c["fault"] ? s.range(1, 13) : 0);
  if (c["fault"] == 4) {
    c.set("fshape", s.chance(1, 2) ? 0 : s.range(1, 5));
    c.set("fpos2", s.range(0, n * n));
  }
  return c;
}
bool valid_check(const Case &c) {
  if (!valid_common(c) || c["alg"] < 0 || c["fault"] < 0 || c["fault"] > 4 || c["delta"] < 0 || c["delta"] > 13 || c.get("fshape", 0) < 0 || c.get("fshape", 0) > 5 || c.get("fpos2", 0) < 0 || c["fplace"] < 0 || c["fplace"] > 999) return false;
  if ((c["fault"] == 0) != (c["delta"] == 0)) return false;
  Opts o = options(c);
  return supported(o) && c["check"] == 1;
}
void run_check(const Case &c, Ctx &x) {
  Case d = c, quiet = c;
  if (c["verbose"] < 2) d.set("verbose", 2);
  Opts o = options(d);
  if (c["fault"]) share_events();
  if (c["fault"] && c["fault"] != 4) { // how often could it strike?
    d.set("findex", std::int64_t(1) << 60);
    Run probe = program(d, o.args);
    if (!probe.ok()) fail(probe.how() + " for" + shown(o));
    std::int64_t total = std::int64_t(*events), i = c["fplace"];
    if (total == 0) x.label("no place for the fault");
    i = i >= 998 ? total - 1000 + i : i <= 1 ? i : total * i / 1000;
    i = std::max<std::int64_t>(0, std::min(i, total - 1));
    d.set("findex", i);
    quiet.set("findex", i);
  }
  Run r = program(d, o.args);
  std::size_t n = std::size_t(o.n);
  x.label(std::string("algorithm:") + ALG[o.alg]);
  x.note = shown(o);
  if (!r.ok()) fail(r.how() + " for" + shown(o));
  std::vector<double> A, B, C;
  if (!matrix(r, "matrix A:", n, false, A) || !matrix(r, "matrix B:", n, false, B) || !matrix(r, "matrix C:", n, true, C))
    fail("a matrix is not printed for" + shown(o));
  std::vector<double> want = times(A, B, n);
  double worst = 0;
  for (std::size_t i = 0; i < n * n; ++i) {
    double e = std::fabs(C[i] - want[i]);
    worst = !(e <= worst) ? e : worst; // NaN stays
    if (std::isnan(e)) break;
  }
  if (c["fault"] == 4 && events[1] && c["delta"] != 6 && c["delta"] != 12 && worst < 0.9e-10) {
    x.label("corrupted only after printing"); // not what the check saw
    return;
  }
  // how far the tolerance is blurred by the rounding of either product
  double a = 0, b = 0;
  for (double v : A) a = std::max(a, std::fabs(v));
  for (double v : B) b = std::max(b, std::fabs(v));
  double blur = std::min(0.5e-10, 0.02e-10 + 8 * 2.3e-16 * double(n) * double(n) * a * b);
  bool right = worst < 1e-10 - blur, wrong = !(worst <= 1e-10 + 2 * blur);
  if (!right && !wrong) {
    x.label("too close to the tolerance");
    return;
  }
  auto verdict = [&](const Run &q, const Opts &p) {
    bool passed = has(q, "check passed"), failed = has(q, "check failed");
    if (passed == failed) fail(std::string(passed ? "both verdicts" : "no verdict") + " printed for" + shown(p));
    if (passed && wrong) fail(fmt("\"check passed\" although the result is off by %g for", worst) + shown(p));
    if (failed && right) fail(fmt("\"check failed\" although the result is right (off by %g) for", worst) + shown(p));
  };
  verdict(r, o);
  if (c["verbose"] < 2) {
    Opts p = options(c);
    Run q = program(quiet, p.args);
    if (!q.ok()) fail(q.how() + " for" + shown(p));
    verdict(q, p);
    x.label("quiet run as well");
  }
  static const char *shape[] = {"one component", "cancelling errors", "exchanged components", "rotated", "every component", "rest zero"};
  if (c["fault"] == 4) x.label(std::string("damage: ") + shape[c.get("fshape", 0)]);
  x.label(wrong ? "corrupted result" : c["fault"] ? "fault without effect" : "correct result");
  if (wrong) x.label(std::isnan(worst) ? "NaN" : std::isinf(worst) ? "infinite" : worst > 1e-4 ? "error > 1e-4" : "error <= 1e-4");
  x.nontrivial = wrong || n > 1;
}
std::vector<Case> corpus_check() {
  std::vector<Case> v;
  for (std::int64_t a = 0; a < ALGS; ++a)
    for (std::int64_t k = 0; k < 12; ++k) {
      std::int64_t n = 4;
      Case c = {{"alg", a}, {"n", n}, {"transposed", a == 6 ? 0 : 1}, {"check", 1}, {"reps", 1}, {"verbose", k % 2 ? 2 : 0}, {"br", 2}, {"bi", 2},
                {"minwork", 1}, {"maxdiff", 0}, {"rel", 0}, {"style", 0}, {"spaced", 0}, {"shuffle", 0}, {"hpxopt", 0}, {"threads", 4}, {"locs", 1},
                {"sched", 0}, {"sseed", 0}, {"fault", k ? kinds(a)[0] : 0}, {"fplace", k ? k * 83 : 0}, {"fpos", k}, {"delta", k ? k : 0}};
      v.push_back(c);
    }
  return v;
}
}

std::vector<Target> pbt::targets() {
  return {{"options", gen_options, run_options, corpus_options(), valid_common},
          {"unknown", gen_unknown, run_unknown, {}, valid_unknown},
          {"help", gen_help, run_help, {}, valid_help},
          {"self-check", gen_check, run_check, corpus_check(), valid_check}};
}
