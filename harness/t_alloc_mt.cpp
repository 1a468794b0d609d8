// C15 with several threads: each keeps a few allocators alive, fills what they
// give and checks it again later.  No harness operator new here; ThreadSanitizer
// sees any storage shared by two threads, the pattern any overlap.
#include "threads.hpp"

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>

#include "aligned_allocator.hpp"

using namespace pbt;

namespace {
struct Odd {
  unsigned char b[24];
};
template <typename F> void with_type(std::int64_t t, F f) {
  switch (t) {
  case 0: f(double()); break;
  case 1: f(char()); break;
  case 2: f(std::int32_t()); break;
  default: f(Odd());
  }
}
Case gen(Src &s) {
  Case c;
  c.set("seed", s.range(0, 1 << 16));
  c.set("steps", s.range(1, 30));
  c.set("live", s.range(1, 5));
  return c;
}
void run(const Case &c, Ctx &x) {
  struct Slot {
    std::unique_ptr<alignment::aligned_allocator> a;
    unsigned char *p = nullptr;
    std::size_t bytes = 0;
    unsigned char mark = 0;
  };
  Stream r{std::uint64_t(c["seed"])};
  std::size_t live = std::size_t(c["live"]);
  std::vector<Slot> slot(live);
  auto intact = [&](Slot &s) {
    for (std::size_t i = 0; i < s.bytes; ++i)
      if (s.p[i] != (unsigned char)(s.mark + i)) fail(fmt("byte %zu of live storage was changed by others", i));
  };
  for (std::int64_t k = 0; k < c["steps"]; ++k) {
    Slot &s = slot[r.below(slot.size())];
    intact(s);
    s = Slot();
    s.a.reset(new alignment::aligned_allocator);
    std::size_t align = std::size_t(1) << (4 + r.below(9)), count = 1 + r.below(r.below(4) ? 40 : 3000);
    with_type(std::int64_t(r.below(4)), [&](auto v) {
      using T = decltype(v);
      if (align < alignof(T)) align = alignof(T);
      s.p = reinterpret_cast<unsigned char *>(s.a->template alloc<T>(count, align));
      s.bytes = count * sizeof(T);
    });
    if (!s.p || std::uintptr_t(s.p) % align) fail(fmt("storage is not aligned to %zu", align));
    s.mark = (unsigned char)r.next();
    for (std::size_t i = 0; i < s.bytes; ++i) s.p[i] = (unsigned char)(s.mark + i);
  }
  for (auto &s : slot) intact(s);
  x.nontrivial = c["steps"] > 1;
  x.label_if(c["live"] > 1, "several live allocators");
}
}

std::vector<Target> pbt::targets() {
  return threaded({{"histories", gen, run, {}, [](const Case &c) { return c["steps"] >= 1 && c["live"] >= 1; }}}, {"histories"});
}
