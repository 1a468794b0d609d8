// Property-based-testing engine: driving, isolation, shrinking, replay.
#include "pbt.hpp"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <rapidcheck.h>

namespace pbt {

std::int64_t Case::operator[](const char *name) const {
  for (auto &p : kv)
    if (p.first == name) return p.second;
  std::fprintf(stderr, "harness error: case has no field %s\n", name);
  std::abort();
}
std::int64_t Case::get(const char *name, std::int64_t d) const {
  for (auto &p : kv)
    if (p.first == name) return p.second;
  return d;
}
bool Case::has(const char *name) const {
  for (auto &p : kv)
    if (p.first == name) return true;
  return false;
}
void Case::set(const std::string &name, std::int64_t v) {
  for (auto &p : kv)
    if (p.first == name) {
      p.second = v;
      return;
    }
  kv.emplace_back(name, v);
}
std::string Case::str() const {
  std::string s;
  for (auto &p : kv) s += (s.empty() ? "" : " ") + p.first + "=" + std::to_string(p.second);
  return s;
}
static Case parse_case(const std::string &line) {
  Case c;
  std::istringstream is(line);
  std::string w;
  while (is >> w) {
    auto e = w.find('=');
    if (e != std::string::npos) c.set(w.substr(0, e), std::strtoll(w.c_str() + e + 1, nullptr, 10));
  }
  return c;
}
std::string fmt(const char *f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
void fail(const std::string &msg) { throw Failure{msg}; }

namespace {

double CPU_LIMIT = 90;   // seconds of CPU per case: more means it hangs
double WALL_LIMIT = 300; // seconds of wall clock per case: more is inconclusive
int ONLY_STATUS = 0;     // if set, only ending with this status is a failure of the case

std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') (r += '\\') += char(c);
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else r += char(c);
  }
  return r;
}

// ---------------------------------------------------------------- executor
struct Outcome {
  bool ok = true, inconclusive = false, crashed = false, hang = false, wall = false;
  std::string msg;
  bool nontrivial = false;
  std::vector<std::string> labels;
  std::string note;
};

bool write_all(int fd, const void *p, std::size_t n) {
  const char *c = static_cast<const char *>(p);
  while (n) {
    ssize_t r = ::write(fd, c, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    c += r;
    n -= std::size_t(r);
  }
  return true;
}
bool write_msg(int fd, const std::string &s) {
  std::uint32_t n = std::uint32_t(s.size());
  return write_all(fd, &n, 4) && write_all(fd, s.data(), s.size());
}
// 1 ok, 0 eof, -1 timeout
int read_all(int fd, void *p, std::size_t n, double timeout) {
  char *c = static_cast<char *>(p);
  while (n) {
    if (timeout > 0) {
      struct pollfd pf = {fd, POLLIN, 0};
      int r = ::poll(&pf, 1, int(timeout * 1000));
      if (r < 0 && errno == EINTR) continue;
      if (r == 0) return -1;
    }
    ssize_t r = ::read(fd, c, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return 0;
    c += r;
    n -= std::size_t(r);
  }
  return 1;
}
int read_msg(int fd, std::string &s, double timeout) {
  std::uint32_t n = 0;
  int r = read_all(fd, &n, 4, timeout);
  if (r != 1) return r;
  s.resize(n);
  return n ? read_all(fd, &s[0], n, timeout) : 1;
}

void arm_cpu(double sec) {
  struct itimerval t;
  std::memset(&t, 0, sizeof t);
  t.it_value.tv_sec = long(sec);
  t.it_value.tv_usec = long((sec - double(long(sec))) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}

class Worker {
public:
  const Target &t;
  std::string errfile;
  pid_t pid = -1;
  int to = -1, from = -1;
  std::vector<Case> history; // cases run by the live child
  std::uint64_t children = 0;

  Worker(const Target &t, std::string errfile) : t(t), errfile(std::move(errfile)) {}
  ~Worker() { stop(); }

  void start() {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) std::abort();
    std::fflush(nullptr);
    pid = fork();
    if (pid < 0) std::abort();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(a[1]);
      close(b[0]);
      // keep the pipes away from small descriptor numbers
      int in = fcntl(a[0], F_DUPFD, 200), out = fcntl(b[1], F_DUPFD, 200);
      close(a[0]);
      close(b[1]);
      int e = open(errfile.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
      int nul = open("/dev/null", O_RDWR);
      dup2(nul, 0);
      dup2(nul, 1);
      dup2(e, 2);
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      child(in, out);
      _exit(0);
    }
    close(a[0]);
    close(b[1]);
    fcntl(a[1], F_SETFD, FD_CLOEXEC);
    fcntl(b[0], F_SETFD, FD_CLOEXEC);
    to = a[1];
    from = b[0];
    history.clear();
    children++;
  }
  int stop() {
    if (pid < 0) return 0;
    close(to);
    close(from);
    kill(pid, SIGKILL);
    int st = 0;
    waitpid(pid, &st, 0);
    pid = -1;
    return st;
  }

  Outcome run(const Case &c) {
    Outcome o;
    if (pid < 0) start();
    history.push_back(c);
    std::string reply;
    int r = write_msg(to, c.str()) ? read_msg(from, reply, WALL_LIMIT) : 0;
    if (r == 1) {
      // status byte, nontrivial byte, then lines
      o.ok = reply[0] == 'P';
      o.nontrivial = reply[1] == '1';
      std::istringstream is(reply.substr(2));
      std::string l;
      while (std::getline(is, l)) {
        if (l[0] == 'L') o.labels.push_back(l.substr(1));
        else if (l[0] == 'N') o.note += l.substr(1);
        else o.msg += (o.msg.empty() ? "" : "\n") + l.substr(1);
      }
      return o;
    }
    if (r == -1) {
      o.inconclusive = o.wall = true;
      o.msg = "no answer within the wall-clock budget";
      stop();
      return o;
    }
    close(to);
    close(from);
    int st = 0;
    waitpid(pid, &st, 0);
    pid = -1;
    o.ok = false;
    o.crashed = true;
    std::ostringstream m;
    if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      if (s == SIGPROF) {
        o.hang = true;
        m << "did not terminate within " << CPU_LIMIT << " s of CPU time";
      } else if (s == SIGKILL) {
        // out of memory killer or an outside kill: not a verdict
        o.ok = true;
        o.crashed = false;
        o.inconclusive = true;
        m << "killed from outside";
      } else
        m << "killed by signal " << s << " (" << strsignal(s) << ")";
    } else
      m << "exited with status " << WEXITSTATUS(st);
    if (ONLY_STATUS && !(WIFEXITED(st) && WEXITSTATUS(st) == ONLY_STATUS)) {
      o.ok = true;
      o.wall = o.hang; // no more of them
      o.crashed = o.hang = false;
      o.inconclusive = true;
    }
    std::ifstream e(errfile);
    std::string line, text;
    int n = 0;
    while (std::getline(e, line)) {
      bool key = line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos ||
                 line.find("VSHIM-FATAL") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos ||
                 line.find("/repo/") != std::string::npos || line.find("terminate called") != std::string::npos ||
                 line.find("what():") != std::string::npos;
      if (key && n++ < 12) text += "\n  " + line.substr(0, 300);
    }
    o.msg = m.str() + text;
    return o;
  }

private:
  void child(int in, int out) {
    std::string line;
    while (read_msg(in, line, 0) == 1) {
      Case c = parse_case(line);
      Ctx ctx;
      std::string status = "P", msg;
      arm_cpu(CPU_LIMIT);
      try {
        t.run(c, ctx);
      } catch (const Failure &f) {
        status = "F";
        msg = f.msg;
      } catch (const std::exception &e) {
        status = "F";
        msg = std::string("unexpected exception: ") + e.what();
      }
      arm_cpu(0);
      std::string r = status + (ctx.nontrivial ? "1" : "0");
      for (auto &l : ctx.labels) r += "L" + l + "\n";
      if (!ctx.note.empty()) r += "N" + ctx.note + "\n";
      if (!msg.empty()) {
        std::istringstream is(msg);
        std::string l;
        while (std::getline(is, l)) r += "M" + l + "\n";
      }
      write_msg(out, r);
    }
  }
};

struct Report {
  std::uint64_t evaluations = 0, generated = 0, corpus = 0, inconclusive = 0, shrinks = 0, children = 0;
  std::set<std::uint64_t> nontrivial;
  std::set<std::uint64_t> distinct;
  std::map<std::string, std::uint64_t> labels;
  std::vector<std::string> samples;
  bool failed = false;
  std::vector<Case> repro; // one case, or a history
  std::string msg;
};

std::uint64_t hash_str(const std::string &s) {
  std::uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

class Campaign {
public:
  const Target &t;
  Report rep;
  Worker w;
  int child_life;
  int shrink_budget = 400;
  int retries = 1;
  double shrink_deadline = 0; // wall-clock, bounds only minimisation
  double deadline = 0;        // no new cases are started after it (0: none)
  std::uint64_t skipped = 0;

  Campaign(const Target &t, const std::string &err, int life) : t(t), w(t, err), child_life(life) {}

  static double now() {
    struct timeval tv;
    gettimeofday(&tv, nullptr);
    return double(tv.tv_sec) + double(tv.tv_usec) * 1e-6;
  }

  // executes one generated case; true = holds
  bool exec(const Case &c) {
    if (rep.failed) { // minimisation
      if (shrink_budget-- <= 0 || now() > shrink_deadline) return true;
      rep.shrinks++;
      w.stop();
      Outcome o = w.run(c);
      if (!o.ok && !o.hang) {
        rep.repro = {c};
        rep.msg = o.msg;
        return false;
      }
      return true;
    }
    if (deadline > 0 && now() > deadline) {
      skipped++;
      return true;
    }
    if (w.pid >= 0 && int(w.history.size()) >= child_life) w.stop();
    Outcome o = w.run(c);
    rep.evaluations++;
    if (o.inconclusive) {
      rep.inconclusive++;
      if (o.wall) deadline = 1; // one stuck case is enough
      return true;
    }
    std::string s = c.str();
    std::uint64_t h = hash_str(s);
    rep.distinct.insert(h);
    for (auto &l : o.labels) rep.labels[l]++;
    if (o.nontrivial && rep.nontrivial.insert(h).second) {
      // samples: a few early, then sparse
      std::size_t k = rep.nontrivial.size();
      if (rep.samples.size() < 2 || (rep.samples.size() < 6 && (k & (k - 1)) == 0))
        rep.samples.push_back(s + (o.note.empty() ? "" : "  # " + o.note));
    }
    if (o.ok) return true;
    return !failure(c, o);
  }

  // returns false if the failure could not be confirmed
  bool failure(const Case &c, const Outcome &first) {
    std::vector<Case> hist = w.history;
    if (hist.empty()) hist.push_back(c);
    shrink_deadline = now() + 120;
    if (first.hang) {
      rep.failed = true;
      rep.repro = {c};
      rep.msg = first.msg;
      shrink_budget = 0;
      return true;
    }
    w.stop();
    Outcome again = w.run(c);
    for (int i = 1; i < retries && again.ok; ++i) { // real threads: not every run shows it
      w.stop();
      again = w.run(c);
    }
    if (!again.ok) {
      rep.failed = true;
      rep.repro = {c};
      rep.msg = again.msg;
      return true;
    }
    // fails only after other cases in the same process: a history
    std::string msg;
    if (!fails(hist, msg)) {
      rep.inconclusive++;
      std::fprintf(stderr, "note: failure did not reproduce: %s: %s\n", c.str().c_str(), first.msg.c_str());
      return false;
    }
    rep.failed = true;
    for (std::size_t chunk = hist.size() / 2; chunk >= 1; chunk /= 2)
      for (std::size_t i = 0; i + 1 < hist.size();) {
        std::vector<Case> h2;
        for (std::size_t j = 0; j < hist.size(); ++j)
          if (j + 1 == hist.size() || j < i || j >= i + chunk) h2.push_back(hist[j]);
        std::string m2;
        if (h2.size() < hist.size() && shrink_budget-- > 0 && fails(h2, m2)) {
          hist = h2;
          msg = m2;
        } else
          i += chunk;
      }
    rep.repro = hist;
    rep.msg = msg;
    shrink_budget = 0;
    return true;
  }

  bool fails(const std::vector<Case> &h, std::string &msg) {
    w.stop();
    for (std::size_t i = 0; i < h.size(); ++i) {
      Outcome o = w.run(h[i]);
      if (!o.ok) {
        msg = o.msg;
        w.stop();
        return true;
      }
      if (o.crashed || o.inconclusive) break;
    }
    w.stop();
    return false;
  }

  // greedy reduction of the fields of a failing case
  void reduce() {
    if (!t.valid || rep.repro.size() != 1) return;
    bool progress = true;
    while (progress && shrink_budget > 0 && now() < shrink_deadline) {
      progress = false;
      Case best = rep.repro[0];
      for (std::size_t i = 0; i < best.kv.size(); ++i) {
        std::int64_t v = best.kv[i].second;
        std::vector<std::int64_t> cand = {0, 1, 2, v / 2, v - v / 4, v - 1};
        for (std::int64_t x : cand) {
          if (x >= v || x < 0) continue;
          Case c = best;
          c.kv[i].second = x;
          if (!t.valid(c)) continue;
          if (!exec(c)) {
            best = c;
            progress = true;
            break;
          }
          if (shrink_budget <= 0) return;
        }
      }
    }
  }
};

struct RcSrc : Src {
  std::int64_t range(std::int64_t lo, std::int64_t hi) override {
    if (hi <= lo) return lo;
    return *rc::gen::resize(100, rc::gen::inRange<std::int64_t>(lo, hi + 1));
  }
};
}
}

namespace rc {
// cases are printed through Case::str
inline void showValue(const pbt::Case &c, std::ostream &os) { os << c.str(); }
}

int pbt_main(int argc, char **argv) {
  using namespace pbt;
  std::map<std::string, std::string> opt;
  for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
  signal(SIGPIPE, SIG_IGN);
  if (opt.count("--cpu-limit")) CPU_LIMIT = std::atof(opt["--cpu-limit"].c_str());
  if (opt.count("--wall-limit")) WALL_LIMIT = std::atof(opt["--wall-limit"].c_str());
  std::vector<Target> ts = targets();
  if (opt.count("--list")) {
    for (auto &t : ts) std::printf("%s\n", t.name.c_str());
    return 0;
  }
  std::string name = opt["--target"];
  std::vector<Case> replay;
  if (opt.count("--replay")) {
    // lines: target NAME / case k=v ...
    std::ifstream f(opt["--replay"]);
    std::string l;
    while (std::getline(f, l)) {
      if (l.compare(0, 7, "target ") == 0) name = l.substr(7);
      if (l.compare(0, 5, "case ") == 0) replay.push_back(parse_case(l.substr(5)));
    }
  }
  const Target *t = nullptr;
  for (auto &x : ts)
    if (x.name == name) t = &x;
  if (!t) {
    std::fprintf(stderr, "harness error: no target %s\n", name.c_str());
    return 3;
  }
  std::string err = opt.count("--err") ? opt["--err"] : "/dev/null";
  int life = opt.count("--life") ? std::atoi(opt["--life"].c_str()) : 40;
  Campaign camp(*t, err, life);
  if (opt.count("--retries")) camp.retries = std::atoi(opt["--retries"].c_str());
  if (opt.count("--only")) ONLY_STATUS = std::atoi(opt["--only"].c_str());
  if (opt.count("--deadline")) camp.deadline = Campaign::now() + std::atof(opt["--deadline"].c_str());

  if (opt.count("--replay")) {
    std::string msg;
    bool f = camp.fails(replay, msg);
    std::printf("%s\n%s\n", f ? "FAILS" : "HOLDS", msg.c_str());
    return f ? 1 : 0;
  }

  long cases = std::atol(opt["--cases"].c_str());
  long shard = opt.count("--shard") ? std::atol(opt["--shard"].c_str()) : 0;
  long shards = opt.count("--shards") ? std::atol(opt["--shards"].c_str()) : 1;
  std::uint64_t seed = std::strtoull(opt["--seed"].c_str(), nullptr, 10);
  // rapidcheck is configured only through its environment variable
  Stream mix(seed * 1000 + std::uint64_t(shard) * 7 + hash_str(name));
  std::uint64_t rcseed = mix.next() | 1;
  std::string params = "seed=" + std::to_string(rcseed) + " max_success=" + std::to_string(cases) +
                       " max_size=100 max_discard_ratio=1";
  setenv("RC_PARAMS", params.c_str(), 1);

  for (std::size_t i = 0; i < t->corpus.size() && !camp.rep.failed; ++i)
    if (long(i) % shards == shard && (!t->valid || t->valid(t->corpus[i]))) {
      camp.rep.corpus++;
      if (!camp.exec(t->corpus[i])) camp.reduce();
    }
  if (!camp.rep.failed && cases > 0) {
    rc::check(t->name, [&] {
      RcSrc src;
      Case c = t->gen(src);
      if (!camp.rep.failed && !camp.skipped) camp.rep.generated++;
      if (!camp.exec(c)) RC_FAIL("property violated");
    });
    if (camp.rep.failed) camp.reduce();
  }
  camp.rep.children = camp.w.children;
  camp.w.stop();
  Report &r = camp.rep;
  std::ofstream o(opt["--out"]);
  o << "{\"target\":\"" << esc(name) << "\",\"evaluations\":" << r.evaluations << ",\"generated\":" << r.generated
    << ",\"corpus\":" << r.corpus << ",\"inconclusive\":" << r.inconclusive << ",\"skipped\":" << camp.skipped << ",\"shrinks\":" << r.shrinks
    << ",\"children\":" << r.children << ",\"distinct\":" << r.distinct.size() << ",\"labels\":{";
  bool first = true;
  for (auto &l : r.labels) {
    o << (first ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second;
    first = false;
  }
  o << "},\"nontrivial\":[";
  first = true;
  for (auto h : r.nontrivial) {
    o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\"";
    first = false;
  }
  o << "],\"samples\":[";
  first = true;
  for (auto &s : r.samples) {
    o << (first ? "" : ",") << "\"" << esc(s) << "\"";
    first = false;
  }
  o << "],\"failed\":" << (r.failed ? "true" : "false") << ",\"message\":\"" << esc(r.msg) << "\",\"repro\":[";
  first = true;
  for (auto &c : r.repro) {
    o << (first ? "" : ",") << "\"" << esc(c.str()) << "\"";
    first = false;
  }
  o << "]}\n";
  o.close();
  return 0;
}
