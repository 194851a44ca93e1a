// Memory resources that record every allocation (ledger).
#pragma once
#include "vs_kelcoro.hpp"
#include "mt.hpp"
#include <memory_resource>

#define NOTSAN __attribute__((no_sanitize("thread"), noinline))
#define NOINL __attribute__((noinline))

namespace {

// ---- ledger: what each resource handed out (only one thread runs at a time; TSAN must not see it) ----
enum { MAXBLK = 512, MAXRES = 64 };
struct Blk {
  unsigned char* p;
  size_t n;
  int res;
};
Blk g_blk[MAXBLK];
int g_nblk, g_allocs, g_last_res, g_fail_in, g_failed, g_hits[MAXRES], g_res_objs;
struct AllocBoom {};
struct ArgBoom {};
struct Boom {
  int id;
};
// live objects inside frames
enum { MAXOBJ = 2048 };
const void* g_obj[MAXOBJ];
int g_nobj, g_ends;

NOTSAN void reset_ledger() {
  g_nblk = g_allocs = g_nobj = g_ends = g_failed = 0;
  g_last_res = -1;
  g_fail_in = 0;
  g_res_objs = 0;
  for (int& x : g_hits) x = 0;
}
NOTSAN void obj_born(const void* p) {
  VF_CHECK(g_nobj < MAXOBJ, "harness: too many objects");
  g_obj[g_nobj++] = p;
}
NOTSAN void obj_dead(const void* p) {
  for (int i = g_nobj; i-- > 0;)
    if (g_obj[i] == p) {
      g_obj[i] = g_obj[--g_nobj];
      return;
    }
  vf::fail("an object of a frame is destroyed twice or was never constructed");
}
NOTSAN bool must_fail() {
  if (g_fail_in && --g_fail_in == 0) return ++g_failed;
  return false;
}
NOTSAN void led_add(void* p, size_t n, int res) {
  VF_CHECK(g_nblk < MAXBLK, "harness: too many frames");
  g_blk[g_nblk++] = {(unsigned char*)p, n, res};
  g_allocs++;
  g_hits[res]++;
  g_last_res = res;
}
NOTSAN void led_del(void* q, size_t n, int res) {
  auto* p = (unsigned char*)q;
  int i = g_nblk;
  while (i-- > 0)
    if (g_blk[i].p == p) break;
  VF_CHECK(i >= 0, "resource %d was given back memory that is not allocated (or was given back before)", res);
  VF_CHECK(g_blk[i].res == res, "memory of resource %d was given to resource %d", g_blk[i].res, res);
  VF_CHECK(g_blk[i].n == n, "memory allocated with size %zu was given back with size %zu", g_blk[i].n, n);
  for (int k = 0; k < g_nobj; ++k)
    VF_CHECK(!((unsigned char*)g_obj[k] >= p && (unsigned char*)g_obj[k] < p + n), "a frame's memory was given back while an object lives in it");
  g_blk[i] = g_blk[--g_nblk];
}
NOTSAN int led_live() { return g_nblk; }
NOTSAN int led_allocs() { return g_allocs; }
NOTSAN int led_last() { return g_last_res; }
NOTSAN int objs_live() { return g_nobj; }
NOTSAN void set_fail(int n) { g_fail_in = n; }
NOTSAN int failed() { return g_failed; }
NOTSAN void res_obj(int d) { g_res_objs += d; }
NOTSAN int res_objs() { return g_res_objs; }
NOTSAN void count_end() { ++g_ends; }
NOTSAN int ends() { return g_ends; }

void* led_get(size_t n, int res) {
  VF_CHECK(n > 0, "an allocation of no bytes");
  if (must_fail()) throw AllocBoom{};
  void* p = ::malloc(n);  // exactly n bytes
  std::memset(p, 0xCD, n);
  led_add(p, n, res);
  return p;
}
void led_put(void* p, size_t n, int res) {
  led_del(p, n, res);
  std::memset(p, 0xDD, n);
  ::free(p);
}

// ---- resources: every one knows its id; ids above 16 are second instances ----
template <int ID>
struct Empty {
  VF_NO_SHORTCUTS(Empty)
  void* allocate(size_t n) { return led_get(n, ID); }
  void deallocate(void* p, size_t n) { led_put(p, n, ID); }
};
struct Led {  // referred to by pointer
  VF_NO_SHORTCUTS(Led)
  int id;
  void* allocate(size_t n) { return led_get(n, id); }
  void deallocate(void* p, size_t n) { led_put(p, n, id); }
};
struct Trivial {  // trivially destructible, by value, looks at itself after giving the memory back
  VF_NO_SHORTCUTS(Trivial)
  int id;
  int calls = 0;
  explicit Trivial(int id) : id(id) {}
  void* allocate(size_t n) { return led_get(n, id); }
  void deallocate(void* p, size_t n) {
    led_put(p, n, id);
    VF_CHECK(calls++ == 0 && id < MAXRES, "a resource's state changed");
  }
};
struct MoveOnly {
  VF_NO_SHORTCUTS(MoveOnly)
  std::unique_ptr<int> id;
  explicit MoveOnly(int i) : id(std::make_unique<int>(i)) {}
  int get() {
    VF_CHECK(id, "a resource without its state was used");
    return *id;
  }
  void* allocate(size_t n) { return led_get(n, get()); }
  void deallocate(void* p, size_t n) {
    led_put(p, n, get());
    VF_CHECK(*id < MAXRES, "a resource's state changed");
  }
};
struct Odd {  // no alignment, odd size
  VF_NO_SHORTCUTS(Odd)
  unsigned char pat[37];
  explicit Odd(int id) {
    for (auto& c : pat) c = id;
    res_obj(1);
  }
  Odd(Odd&& o) noexcept {
    std::memcpy(pat, o.pat, sizeof pat);
    std::memset(o.pat, 0xFF, sizeof pat);
    res_obj(1);
  }
  ~Odd() {
    std::memset(pat, 0xFE, sizeof pat);
    res_obj(-1);
  }
  int get() {
    for (auto& c : pat) VF_CHECK(c == pat[0] && c < MAXRES, "a resource's state is not what was passed");
    return pat[0];
  }
  void* allocate(size_t n) { return led_get(n, get()); }
  void deallocate(void* p, size_t n) {
    led_put(p, n, get());
    get();
  }
};
struct Tiny {
  VF_NO_SHORTCUTS(Tiny)
  unsigned char id;
  explicit Tiny(int i) : id(i) {}
  void* allocate(size_t n) { return led_get(n, id); }
  void deallocate(void* p, size_t n) {
    led_put(p, n, id);
    VF_CHECK(id < MAXRES, "a resource's state changed");
  }
};
struct alignas(16) Big {
  VF_NO_SHORTCUTS(Big)
  Big* self = this;
  long id;
  unsigned char ballast[100] = {};
  explicit Big(int i) : id(i) { res_obj(1); }
  Big(Big&& o) noexcept : id(std::exchange(o.id, -1)) { res_obj(1); }
  ~Big() {
    VF_CHECK(self == this, "a resource was copied as bytes");
    self = nullptr;
    res_obj(-1);
  }
  int get() {
    VF_CHECK(self == this, "a resource was copied as bytes");
    VF_CHECK((uintptr_t)this % 16 == 0, "a resource is not aligned");
    VF_CHECK(id >= 0 && id < MAXRES, "a resource's state is not what was passed");
    return id;
  }
  void* allocate(size_t n) { return led_get(n, get()); }
  void deallocate(void* p, size_t n) {
    led_put(p, n, get());
    get();
  }
};
template <int ID>
struct Fixed {  // default constructible, with state
  VF_NO_SHORTCUTS(Fixed)
  int id = ID;
  std::unique_ptr<int> x = std::make_unique<int>(ID);
  void* allocate(size_t n) { return led_get(n, id); }
  void deallocate(void* p, size_t n) {
    VF_CHECK(x && *x == id, "a resource without its state was used");
    led_put(p, n, id);
    VF_CHECK(*x == id, "a resource's state changed");
  }
};
struct Pmr : std::pmr::memory_resource {
  int id;
  explicit Pmr(int i) : id(i) {}
  void* do_allocate(size_t n, size_t al) override {
    VF_CHECK(al <= 16, "an alignment of %zu was asked", al);
    return led_get(n, id);
  }
  void do_deallocate(void* p, size_t n, size_t) override { led_put(p, n, id); }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

Led g_led[MAXRES];
Pmr* g_pmr[MAXRES];
void make_resources() {
  for (int i = 0; i < MAXRES; ++i) {
    g_led[i].id = i;
    static Pmr* once[MAXRES];
    if (!once[i]) once[i] = new Pmr(i);
    g_pmr[i] = once[i];
  }
}

}  // namespace
