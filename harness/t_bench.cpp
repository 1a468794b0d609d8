// C18 the benchmark program of the experiments (main renamed to bench_main).
//
// The multiplications are replaced by recording stand-ins that write a
// generated result, so that a run costs a second and the truth of the printed
// check value can be decided for any result.  Every run is a process of its own.
#include "oracle.hpp"

#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <new>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "otherExperiments/mult.hpp"

int bench_main(int, char **);
using namespace pbt;

// The program's arrays: at a chosen residue mod 64, with marked memory on both
// sides and an inaccessible page behind.
namespace {
const std::size_t PAGE = 4096;
struct Block {
  unsigned char *lo, *p, *end, *hi;
};
Block blocks[64];
int nblocks = 0;
bool placing = false;
std::int64_t residue = 0;
void *place(std::size_t size) {
  std::size_t pages = (size + PAGE - 1) / PAGE + 2;
  unsigned char *m = static_cast<unsigned char *>(mmap(nullptr, (pages + 1) * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (m == MAP_FAILED) std::_Exit(77);
  Block &b = blocks[nblocks++];
  b.hi = m + pages * PAGE;
  mprotect(b.hi, PAGE, PROT_NONE);
  std::uintptr_t p = std::uintptr_t(b.hi - size) / 64 * 64 + std::uintptr_t(residue) * 16;
  if (p + size > std::uintptr_t(b.hi)) p -= 64;
  b.p = reinterpret_cast<unsigned char *>(p);
  b.end = b.p + size;
  b.lo = b.p - 256;
  std::memset(b.lo, 0x5a, 256);
  std::memset(b.end, 0x5a, std::size_t(b.hi - b.end));
  return b.p;
}
bool marks_intact() {
  for (int i = 0; i < nblocks; ++i) {
    for (unsigned char *q = blocks[i].lo; q < blocks[i].p; ++q)
      if (*q != 0x5a) return false;
    for (unsigned char *q = blocks[i].end; q < blocks[i].hi; ++q)
      if (*q != 0x5a) return false;
  }
  return true;
}
bool placed(void *p) {
  for (int i = 0; i < nblocks; ++i)
    if (p >= blocks[i].lo && p < blocks[i].hi) return true;
  return false;
}
void *get(std::size_t size) {
  if (placing && size >= (1 << 20) && nblocks < 64) return place(size);
  if (void *p = std::malloc(size ? size : 1)) return p;
  throw std::bad_alloc();
}
}
void *operator new(std::size_t size) { return get(size); }
void *operator new[](std::size_t size) { return get(size); }
void operator delete(void *p) noexcept { if (!placed(p)) std::free(p); }
void operator delete[](void *p) noexcept { if (!placed(p)) std::free(p); }
void operator delete(void *p, std::size_t) noexcept { if (!placed(p)) std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { if (!placed(p)) std::free(p); }

namespace {
const char *NAME[] = {"naive", "transposed", "counter", "exchanged", "blocked2", "blocked4", "asm", "gpu", "gpuasm", "register", "intrinLoop"};
const int NAMES = 11;

// shared between the run and the check
struct Rec {
  int calls, variant;
  std::uint32_t n;
  int aligned, overlap, overrun;
  double norm2;          // of what was written
  std::int64_t badA, badB, badC; // first wrong component, -1: none
  double vA, vB, vC;
};
Rec *rec = nullptr;
std::int64_t pattern, pseed;

// what the stand-in writes: few or all components, several magnitudes
double write_result(double *C, std::size_t n) {
  Stream g{std::uint64_t(pseed)};
  long double s = 0;
  std::size_t nn = n * n;
  auto put = [&](std::size_t i, double v) { C[i] = v; };
  switch (pattern) {
  case 0: for (std::size_t i = 0; i < nn; ++i) C[i] = 2.0; break;
  case 1: { // a single component, first and last row or column preferred
    std::size_t e[] = {0, n - 1, 1, n - 2};
    std::size_t i = g.below(2) ? e[g.below(4)] : g.below(n), j = g.below(2) ? e[g.below(4)] : g.below(n);
    put(i * n + j, double(g.in(1, 1000)));
    break;
  }
  case 2: for (int k = 0; k < 100; ++k) put(g.below(nn), double(g.in(-50, 50))); break;
  case 3: { std::size_t i = g.below(n); for (std::size_t j = 0; j < n; ++j) put(i * n + j, double(g.in(-3, 3))); break; }
  case 4: { std::size_t j = g.below(n); for (std::size_t i = 0; i < n; ++i) put(i * n + j, double(g.in(-3, 3))); break; }
  case 5: for (std::size_t i = 0; i < nn; ++i) C[i] = double(i % 7) - 3.0; break;
  case 6: for (std::size_t i = 0; i < n; ++i) put(i * n + i, g.unit()); break;
  case 8: put(g.below(nn), std::nan("")); break;
  case 9: put(g.below(nn), std::numeric_limits<double>::infinity() * (g.below(2) ? 1 : -1)); break;
  case 10: for (std::size_t i = 0; i < nn; ++i) C[i] = (double(i % 11) - 5.0) * 1e-110; break;
  case 11: for (int k = 0; k < 3; ++k) put(g.below(nn), g.unit() * 1e110); put(nn - 1, 1e100); break;
  default: break; // nothing: zero
  }
  for (std::size_t i = 0; i < nn; ++i) s += static_cast<long double>(C[i]) * C[i];
  return double(s);
}
void called(int v, double *A, double *B, double *C, std::uint32_t n) {
  rec->variant = v;
  rec->n = n;
  if (rec->calls++) return;
  std::size_t nn = std::size_t(n) * n;
  rec->aligned = !(std::uintptr_t(A) % 64) && !(std::uintptr_t(B) % 64) && !(std::uintptr_t(C) % 64);
  auto meet = [&](double *p, double *q) { return p < q + nn && q < p + nn; };
  rec->overlap = meet(A, C) || meet(B, C) || meet(A, B);
  for (std::size_t i = 0; i < nn; ++i) {
    double b = i / n == i % n ? 1.0 : 0.0;
    if (rec->badA < 0 && A[i] != 2.0) rec->badA = std::int64_t(i), rec->vA = A[i];
    if (rec->badB < 0 && B[i] != b) rec->badB = std::int64_t(i), rec->vB = B[i];
    if (rec->badC < 0 && C[i] != 0.0) rec->badC = std::int64_t(i), rec->vC = C[i];
  }
  if (rec->overlap) return;
  rec->norm2 = write_result(C, n);
}
}
#define STAND_IN(k, f) void f(double *A, double *B, double *C, const uint32_t n) { called(k, A, B, C, n); }
STAND_IN(0, multNaive)
STAND_IN(1, multTransposed)
STAND_IN(2, multCounter)
STAND_IN(3, multExchanged)
STAND_IN(4, multBlocked2)
STAND_IN(5, multBlocked4)
STAND_IN(6, multASM)
STAND_IN(7, multGPU)
STAND_IN(8, multGPUASM)
STAND_IN(9, multRegister)
STAND_IN(10, multIntrinLoop)

namespace {
std::string other_name(const Case &c) {
  Stream g{std::uint64_t(c["name"])};
  std::string s = NAME[g.below(NAMES)];
  switch (c["how"]) {
  case 0: return ""; // none given
  case 1: s.pop_back(); break;
  case 2: s += char('a' + g.below(26)); break;
  case 3: s[0] = char(std::toupper(s[0])); break;
  case 4: s = std::string(1, " -."[g.below(3)]) + s; break;
  case 5: s[g.below(s.size())] = '_'; break;
  case 6: s = std::vector<std::string>{"blocked", "regBlock", "intrin", "help", "all", "omp", "vectorized", "intrinsics", "0", "blocked8", "gpu ", "asmgpu"}[g.below(12)]; break;
  default:
    s.clear();
    for (std::uint64_t i = 0, n = 1 + g.below(10); i < n; ++i) s += char('a' + g.below(26));
    s += "0";
  }
  for (auto n : NAME)
    if (s == n) s += "-"; // "gpuasm" without its end, say
  return s;
}
std::string field(const std::string &out, const char *label) {
  std::size_t p = out.find(label);
  if (p == std::string::npos) return "";
  p += std::strlen(label);
  return out.substr(p, out.find('\n', p) - p);
}
void run_bench(const Case &c, Ctx &x) {
  if (!rec) rec = static_cast<Rec *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::memset(rec, 0, sizeof *rec);
  rec->badA = rec->badB = rec->badC = -1;
  bool good = c["variant"] < NAMES;
  bool none = !good && c["how"] == 0;
  std::string name = good ? NAME[c["variant"]] : other_name(c);
  int fd = memfd_create("out", 0);
  if (fd < 0) {
    char t[] = "/tmp/vbench-XXXXXX";
    fd = mkstemp(t);
    unlink(t);
  }
  pattern = c["pattern"], pseed = c["pseed"];
  pid_t pid = fork();
  if (pid < 0) std::_Exit(77);
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct itimerval t;
    std::memset(&t, 0, sizeof t);
    t.it_value.tv_sec = 120;
    setitimer(ITIMER_PROF, &t, nullptr);
    dup2(fd, 1);
    std::vector<char> a(name.begin(), name.end());
    a.push_back(0);
    char self[] = "benchmark", extra[] = "naive";
    char *argv[] = {self, none ? nullptr : a.data(), none || !c["extra"] ? nullptr : extra, nullptr};
    residue = c["residue"];
    placing = true;
    int r = bench_main(none ? 1 : c["extra"] ? 3 : 2, argv);
    placing = false;
    rec->overrun = !marks_intact();
    std::cout.flush();
    std::fflush(nullptr);
    _exit(r & 255);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::string out;
  off_t len = lseek(fd, 0, SEEK_END);
  out.resize(std::size_t(len));
  if (len && pread(fd, &out[0], std::size_t(len), 0) != len) std::abort();
  close(fd);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) std::_Exit(77); // from outside: no verdict
  std::string who = none ? "without argument" : "\"" + name + "\"";
  if (WIFSIGNALED(st)) fail(fmt("killed by signal %d: ", WTERMSIG(st)) + who);
  if (WEXITSTATUS(st)) fail(fmt("exit status %d: ", WEXITSTATUS(st)) + who);
  x.note = who;
  x.nontrivial = true;
  if (!good) {
    if (rec->calls) fail(who + " ran " + NAME[rec->variant]);
    if (out.find("check:") != std::string::npos || out.find("Gflops") != std::string::npos) fail(who + ": a result is reported");
    if (out.find(none ? "no implementation specified" : "unknown implementation specified") == std::string::npos) fail(who + " is not reported as such");
    x.label(none ? "no name" : "unknown name");
    return;
  }
  x.label("variant:" + name);
  if (rec->calls != 1) fail(who + fmt(": %d multiplications were run", rec->calls));
  if (rec->variant != c["variant"]) fail(who + " ran " + NAME[rec->variant]);
  if (rec->n == 0 || rec->n % 256) fail(who + fmt(": size %u is not admissible for every variant", rec->n));
  if (!rec->aligned) fail(who + ": an operand is not aligned to 64 bytes");
  if (rec->overrun) fail(who + ": written outside the program's own arrays");
  if (rec->overlap) fail(who + ": the operands overlap");
  if (rec->badA >= 0) fail(who + fmt(": A[%ld] is %g instead of 2", long(rec->badA), rec->vA));
  if (rec->badB >= 0) fail(who + fmt(": B[%ld] is %g, B is not the identity", long(rec->badB), rec->vB));
  if (rec->badC >= 0) fail(who + fmt(": C[%ld] is %g instead of 0", long(rec->badC), rec->vC));
  double n = rec->n, want = std::sqrt(rec->norm2);
  std::string f = field(out, "total flops 2n^3 -> "), g = field(out, "gflop: "), k = field(out, "check: ");
  if (f.empty() || std::fabs(std::strtod(f.c_str(), nullptr) / (2 * n * n * n) - 1) > 1e-6) fail(who + ": total flops are reported as \"" + f + "\"");
  if (g.empty() || std::fabs(std::strtod(g.c_str(), nullptr) * 1e9 / (2 * n * n * n) - 1) > 1e-5) fail(who + ": gflop is reported as \"" + g + "\"");
  double said = std::strtod(k.c_str(), nullptr);
  bool as_is = std::isnan(want) ? std::isnan(said) : std::isinf(want) && said == want; // not a finite norm
  if (as_is && !k.empty()) {
  } else if (k.empty() || !(std::fabs(std::strtod(k.c_str(), nullptr) - want) <= 1e-5 * want)) fail(who + ": check value is reported as \"" + k + fmt("\", the norm of the result is %.12g", want));
  if (out.find("Gflops") == std::string::npos) fail(who + ": no performance is reported");
  x.label(fmt("result pattern:%d", int(c["pattern"])));
}
Case gen_bench(Src &s) {
  Case c;
  c.set("variant", s.chance(2, 3) ? s.range(0, NAMES - 1) : NAMES);
  c.set("how", c["variant"] == NAMES ? s.range(0, 7) : 0);
  c.set("name", c["variant"] == NAMES ? s.range(0, 1 << 16) : 0);
  c.set("extra", 0);
  c.set("residue", s.range(0, 3));
  c.set("pattern", s.range(0, 11));
  c.set("pseed", s.range(0, 1 << 16));
  return c;
}
bool valid_bench(const Case &c) {
  return c["variant"] >= 0 && c["variant"] <= NAMES && c["how"] >= 0 && c["how"] <= 7 && c["residue"] >= 0 && c["residue"] <= 3 && c["pattern"] >= 0 && c["pattern"] <= 11;
}
std::vector<Case> corpus() {
  std::vector<Case> v;
  for (std::int64_t k = 0; k < NAMES; ++k) v.push_back({{"variant", k}, {"how", 0}, {"name", 0}, {"extra", 0}, {"residue", k % 4}, {"pattern", (k % 2) * 4 + 1}, {"pseed", k}});
  for (std::int64_t k = 0; k < 8; ++k) v.push_back({{"variant", NAMES}, {"how", k}, {"name", k}, {"extra", 0}, {"residue", k % 4}, {"pattern", 0}, {"pseed", 0}});
  for (std::int64_t k = 0; k < 12; ++k) v.push_back({{"variant", k % NAMES}, {"how", 0}, {"name", 0}, {"extra", 0}, {"residue", (k + 1) % 4}, {"pattern", k}, {"pseed", 7 * k}});
  return v;
}
}
std::vector<Target> pbt::targets() { return {{"benchmark", gen_bench, run_bench, corpus(), valid_bench}}; }
