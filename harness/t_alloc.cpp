// C15 aligned allocator: generated histories of creating, filling, checking
// and destroying allocators, against a model of the live storage.
#include "pbt.hpp"

#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <vector>

#include <malloc.h>
#include <sanitizer/asan_interface.h>

#include "aligned_allocator.hpp"

using namespace pbt;

// every allocation made while the allocator under test is at work
namespace track {
struct Block {
  std::size_t size;
  int releases;
  bool array;
};
bool on = false;
std::map<std::uintptr_t, Block> *blocks = nullptr;
int bad_release = 0, bad_form = 0;
void note_new(void *p, std::size_t n, bool array) {
  if (!on || !p) return;
  on = false;
  (*blocks)[std::uintptr_t(p)] = {n, 0, array};
  on = true;
}
void note_delete(void *p, bool array) {
  if (!on || !p) return;
  on = false;
  auto it = blocks->find(std::uintptr_t(p));
  if (it != blocks->end()) it->second.releases++, bad_form += it->second.array != array;
  else bad_release++;
  on = true;
}
}
// While the allocator under test is at work, blocks start at a chosen multiple
// of 16 within a page (what new guarantees, and no more); the memory around
// them is poisoned.
namespace track {
std::size_t residue = 0; // in units of 16, 0: wherever malloc puts it
std::map<void *, void *> *moved = nullptr;
void *place(std::size_t n) {
  std::size_t total = (n + 8192) / 4096 * 4096 + 4096;
  char *b = static_cast<char *>(std::aligned_alloc(4096, total)), *p = b + 16 * residue;
  if (!b) throw std::bad_alloc();
  bool o = on;
  on = false;
  (*moved)[p] = b;
  on = o;
  __asan_poison_memory_region(b, std::size_t(p - b));
  std::size_t up = (n + 7) / 8 * 8;
  __asan_poison_memory_region(p + up, total - std::size_t(p - b) - up);
  return p;
}
void give_back(void *p) {
  if (moved) {
    auto it = moved->find(p);
    if (it != moved->end()) {
      void *b = it->second;
      bool o = on;
      on = false;
      moved->erase(it);
      on = o;
      __asan_unpoison_memory_region(b, malloc_usable_size(b));
      std::free(b);
      return;
    }
  }
  std::free(p);
}
}
// The default operators, recording; ASan still sees malloc and free.
#define GIVE(n, al, ar)                                                            \
  void *p = (al) ? std::aligned_alloc(al, ((n) + (al)-1) / (al) * (al) + (al)) \
            : track::on && track::residue ? track::place(n) : std::malloc((n) ? (n) : 1); \
  if (!p) throw std::bad_alloc();                                              \
  track::note_new(p, n, ar);                                                       \
  return p
#define TAKE(ar)                                                                   \
  track::note_delete(p, ar);                                                       \
  track::give_back(p)
void *operator new(std::size_t n) { GIVE(n, 0, false); }
void *operator new[](std::size_t n) { GIVE(n, 0, true); }
void *operator new(std::size_t n, std::align_val_t a) { GIVE(n, std::size_t(a), false); }
void *operator new[](std::size_t n, std::align_val_t a) { GIVE(n, std::size_t(a), true); }
void operator delete(void *p) noexcept { TAKE(false); }
void operator delete[](void *p) noexcept { TAKE(true); }
void operator delete(void *p, std::size_t) noexcept { TAKE(false); }
void operator delete[](void *p, std::size_t) noexcept { TAKE(true); }
void operator delete(void *p, std::align_val_t) noexcept { TAKE(false); }
void operator delete[](void *p, std::align_val_t) noexcept { TAKE(true); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { TAKE(false); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { TAKE(true); }

namespace {
struct Odd {
  unsigned char b[24];
};
struct Big {
  unsigned char b[72];
};
const int TYPES = 8;
template <typename F> void with_type(std::int64_t t, F f) {
  switch (t) {
  case 0: f(double()); break;
  case 1: f(char()); break;
  case 2: f(short()); break;
  case 3: f(int()); break;
  case 4: f(float()); break;
  case 5: f((long double)(0)); break;
  case 6: f(Odd()); break;
  default: f(Big());
  }
}
struct Live {
  alignas(alignment::aligned_allocator) unsigned char raw[sizeof(alignment::aligned_allocator)];
  bool alive = false;
  unsigned char *p = nullptr;
  std::size_t bytes = 0;
  std::uint64_t seed = 0;
  std::vector<std::uintptr_t> backing;
  alignment::aligned_allocator &a() { return *reinterpret_cast<alignment::aligned_allocator *>(raw); }
};
// storage beyond 4 GiB is only used at both ends
const std::size_t HUGE_BYTES = std::size_t(1) << 26, ENDS = 8192;
void fill(Live &l, std::uint64_t seed) {
  l.seed = seed;
  Stream g(seed);
  std::size_t i = 0;
  if (l.bytes > HUGE_BYTES) {
    for (; i < ENDS; ++i) l.p[i] = (unsigned char)(g.next());
    for (i = l.bytes - ENDS; i < l.bytes; ++i) l.p[i] = (unsigned char)(g.next());
    return;
  }
  for (; i + 8 <= l.bytes; i += 8) {
    std::uint64_t v = g.next();
    std::memcpy(l.p + i, &v, 8);
  }
  for (; i < l.bytes; ++i) l.p[i] = (unsigned char)(g.next());
}
void verify(Live &l, std::size_t k) {
  Stream g(l.seed);
  std::size_t i = 0;
  if (l.bytes > HUGE_BYTES) {
    for (; i < ENDS; ++i)
      if (l.p[i] != (unsigned char)(g.next())) fail(fmt("storage %zu changed at byte %zu although nobody wrote to it", k, i));
    for (i = l.bytes - ENDS; i < l.bytes; ++i)
      if (l.p[i] != (unsigned char)(g.next())) fail(fmt("storage %zu changed at byte %zu although nobody wrote to it", k, i));
    return;
  }
  for (; i + 8 <= l.bytes; i += 8) {
    std::uint64_t v = g.next(), w;
    std::memcpy(&w, l.p + i, 8);
    if (v != w) fail(fmt("storage %zu changed at byte %zu although nobody wrote to it", k, i));
  }
  for (; i < l.bytes; ++i)
    if (l.p[i] != (unsigned char)(g.next())) fail(fmt("storage %zu changed at byte %zu although nobody wrote to it", k, i));
}
void begin() {
  track::bad_release = track::bad_form = 0;
  track::on = true;
}
void end() { track::on = false; }

void destroy(std::vector<Live> &v, std::size_t k) {
  Live &l = v[k];
  verify(l, k);
  begin();
  l.a().~aligned_allocator();
  end();
  l.alive = false;
  if (track::bad_release) fail("an allocator released memory it does not own");
  if (track::bad_form) fail("backing storage released with the wrong form of delete");
  for (std::size_t j = 0; j < v.size(); ++j)
    for (auto b : v[j].backing) {
      int r = (*track::blocks)[b].releases;
      if (j == k && r != 1) fail(fmt("backing storage of allocator %zu released %d times", k, r));
      if (j != k && v[j].alive && r) fail(fmt("destroying allocator %zu released the storage of allocator %zu", k, j));
    }
  for (auto b : l.backing) track::blocks->erase(b);
  l.backing.clear();
}

// ops: op<i> (0 create, 1 refill, 2 verify, 3 destroy), a<i>.. parameters
Case gen(Src &s) {
  Case c;
  std::int64_t n = s.range(1, 14);
  bool huge = false;
  c.set("ops", n);
  for (std::int64_t i = 0; i < n; ++i) {
    std::string k = std::to_string(i);
    std::int64_t op = s.pick({0, 0, 0, 0, 1, 2, 3, 3, 4});
    c.set("op" + k, op);
    c.set("slot" + k, s.range(0, 20));
    c.set("res" + k, op != 0 ? 0 : s.chance(1, 3) ? s.range(0, 1) : s.range(0, 255));
    c.set("type" + k, op == 0 ? s.range(0, TYPES - 1) : 0);
    c.set("al" + k, op == 0 ? s.range(0, 12) : 0); // log2
    if (op == 0 && !huge && s.chance(1, 6000)) { // more bytes than 32 bits can count, at most once
      huge = true;
      std::int64_t t = s.pick({0, 1, 3, 7});
      c.set("type" + k, t);
      c.set("res" + k, 0);
      c.set("n" + k, t == 0 ? (1LL << 29) + s.range(1, 1 << 20) : t == 1 ? (1LL << 32) + s.range(1, 1 << 24) : t == 3 ? (1LL << 30) + s.range(1, 1 << 20) : (1LL << 26) + s.range(1, 1 << 20));
    } else
    c.set("n" + k, op != 0 ? 0 : s.chance(1, 2) ? s.range(1, 40) : s.chance(1, 4) ? s.range(1, 5000) : s.range(1, 600));
  }
  return c;
}
bool valid(const Case &c) {
  for (std::int64_t i = 0; i < c["ops"]; ++i) {
    std::string k = std::to_string(i);
    if (!c.has(("op" + k).c_str())) return false;
    std::int64_t op = c[("op" + k).c_str()], t = c[("type" + k).c_str()];
    std::int64_t r = c[("res" + k).c_str()];
    if (r < 0 || r > 255 || op < 0 || op > 4 || t < 0 || t >= TYPES) return false;
    if (op == 0 && c[("n" + k).c_str()] < 1) return false;
  }
  return c["ops"] >= 1;
}
void run(const Case &c, Ctx &x) {
  std::map<std::uintptr_t, track::Block> book;
  std::map<void *, void *> moved;
  track::moved = &moved;
  track::blocks = &book;
  struct Guard {
    ~Guard() {
      track::on = false;
      track::residue = 0;
      track::blocks = nullptr;
      track::moved = nullptr;
    }
  } guard;
  const std::size_t ops = std::size_t(c["ops"]);
  std::vector<Live> v(ops);
  bool huge = false;
  std::size_t made = 0, most = 0, live = 0, unaligned_base = 0, refills = 0;
  auto nth = [&](std::int64_t s) -> std::size_t {
    std::vector<std::size_t> l;
    for (std::size_t i = 0; i < made; ++i)
      if (v[i].alive && v[i].p) l.push_back(i);
    return l.empty() ? std::size_t(-1) : l[std::size_t(s) % l.size()];
  };
  for (std::int64_t i = 0; i < c["ops"]; ++i) {
    std::string ks = std::to_string(i);
    std::int64_t op = c[("op" + ks).c_str()];
    std::int64_t slot = c[("slot" + ks).c_str()];
    if (op == 0) {
      Live &l = v[made];
      std::size_t al = std::size_t(1) << c[("al" + ks).c_str()];
      std::size_t n = std::size_t(c[("n" + ks).c_str()]);
      with_type(c[("type" + ks).c_str()], [&](auto z) {
        using T = decltype(z);
        if (al < alignof(T)) al = alignof(T); // for the element type's own sake
        std::map<std::uintptr_t, track::Block> old = book;
        track::residue = std::size_t(c[("res" + ks).c_str()]);
        begin();
        new (l.raw) alignment::aligned_allocator();
        T *p = l.a().template alloc<T>(n, al);
        end();
        track::residue = 0;
        l.alive = true;
        for (auto &b : book)
          if (!old.count(b.first) && b.second.releases == 0) l.backing.push_back(b.first);
        l.p = reinterpret_cast<unsigned char *>(p);
        l.bytes = n * sizeof(T);
      });
      if (!l.p) fail("alloc returned a null pointer");
      if (std::uintptr_t(l.p) % al) fail(fmt("%p is not a multiple of %zu", (void *)l.p, al));
      for (std::size_t j = 0; j < made; ++j)
        if (v[j].alive && v[j].p && v[j].p < l.p + l.bytes && l.p < v[j].p + v[j].bytes)
          fail(fmt("storage of allocators %zu and %zu overlaps", j, made));
      // inside one block obtained from the system (if it came through new)
      bool inside = l.backing.empty();
      for (auto b : l.backing)
        if (std::uintptr_t(l.p) >= b && std::uintptr_t(l.p) + l.bytes <= b + book[b].size) {
          inside = true;
          unaligned_base += b % al != 0;
        }
      if (!inside) fail(fmt("%zu bytes at %p do not lie inside the memory obtained for them", l.bytes, (void *)l.p));
      fill(l, std::uint64_t(i) * 977 + 5);
      huge = huge || l.bytes > HUGE_BYTES;
      ++made;
      most = std::max(most, ++live);
    } else if (op == 4) { // an allocator that never allocates owns nothing
      std::map<std::uintptr_t, track::Block> old = book;
      alignas(alignment::aligned_allocator) unsigned char raw[sizeof(alignment::aligned_allocator)];
      std::memset(raw, 0xa5, sizeof raw);
      begin();
      alignment::aligned_allocator *e = new (raw) alignment::aligned_allocator();
      e->~aligned_allocator();
      end();
      if (track::bad_release) fail("an unused allocator released memory");
      for (auto &b : book)
        if (old.count(b.first) ? old[b.first].releases != b.second.releases : b.second.releases != 1)
          fail("an unused allocator changed what is allocated");
    } else {
      std::size_t k = nth(slot);
      if (k == std::size_t(-1)) continue;
      if (op == 1) {
        verify(v[k], k);
        fill(v[k], std::uint64_t(i) * 31 + 7);
        ++refills;
      } else if (op == 2)
        verify(v[k], k);
      else {
        destroy(v, k);
        --live;
      }
    }
  }
  for (std::size_t k = 0; k < made; ++k)
    if (v[k].alive) destroy(v, k);
  x.label(fmt("most live:%zu", std::min<std::size_t>(most, 6)));
  x.label_if(unaligned_base, "backing storage not aligned");
  x.label_if(refills, "refilled");
  x.label_if(huge, "more than 4 GiB");
  x.nontrivial = unaligned_base > 0 || most > 1;
}
std::vector<Case> corpus() {
  std::vector<Case> v;
  for (std::int64_t t = 0; t < TYPES; ++t)
    for (std::int64_t al = 0; al <= 12; ++al)
      for (std::int64_t n : {1, 2, 7, 64}) {
        Case c = {{"ops", 4}};
        for (std::int64_t i = 0; i < 4; ++i) {
          std::string k = std::to_string(i);
          c.set("op" + k, i == 3 ? 3 : 0);
          c.set("slot" + k, 1);
          c.set("res" + k, i == 3 ? 0 : i == 2 ? 255 : i);
          c.set("type" + k, i == 3 ? 0 : t);
          c.set("al" + k, i == 3 ? 0 : al);
          c.set("n" + k, i == 3 ? 0 : n + i);
        }
        v.push_back(c);
      }
  for (std::int64_t t : {0, 1}) {
    Case c = {{"ops", 2}};
    for (const char *k : {"0", "1"}) {
      bool big = k[0] == '0';
      c.set(std::string("op") + k, 0);
      c.set(std::string("slot") + k, 0);
      c.set(std::string("res") + k, 0);
      c.set(std::string("type") + k, t);
      c.set(std::string("al") + k, 6);
      c.set(std::string("n") + k, big ? (t ? (1LL << 32) + 100 : (1LL << 29) + 3) : 10);
    }
    v.push_back(c);
  }
  return v;
}
}
std::vector<Target> pbt::targets() { return {{"histories", gen, run, corpus(), valid}}; }
