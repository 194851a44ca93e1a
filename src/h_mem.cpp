// C22: the stack memory resource against a model of blocks.
#include "vs_kelcoro.hpp"

namespace {

size_t al16(size_t n) { return (n + 15) / 16 * 16; }

struct Blk {
  unsigned char* p;
  size_t len, seed;
};
unsigned char pat(size_t seed, size_t i) { return (unsigned char)(seed * 131 + i * 7 + (i >> 8)); }

// every piece of memory the resource may use: its buffer and what it took from the system
struct Region {
  unsigned char *b, *e;
};

struct Model {
  std::vector<Blk> st;           // live blocks
  std::vector<Region> sys;       // taken from the system, alive
  Region buf{nullptr, nullptr};  // initial buffer
  // free rest of the current block, if known
  unsigned char *cur = nullptr, *end = nullptr;

  Region* find(unsigned char* p, size_t n) {
    if (buf.b && p >= buf.b && p + n <= buf.e) return &buf;
    for (auto& r : sys)
      if (p >= r.b && p + n <= r.e) return &r;
    return nullptr;
  }
};

size_t g_seed;

struct Obj {
  std::optional<dd::stack_resource> r;
  Model m;
};

uint64_t n_sys;  // requests to the system so far

void* do_alloc(Obj& o, size_t len) {
  uint64_t before = vf::total_mallocs();
  auto* p = (unsigned char*)o.r->allocate(len);
  uint64_t asked = vf::total_mallocs() - before;
  Model& m = o.m;
  if (asked) {
    size_t n;
    auto* q = (unsigned char*)vf::last_malloc(&n);
    VF_CHECK(asked == 1, "one allocation asked the system %d times", (int)asked);
    m.sys.push_back({q, q + n});
    n_sys++;
  }
  VF_CHECK((uintptr_t)p % dd::coroframe_align() == 0, "block %p of %zu bytes is not aligned for a frame", p, len);
  Region* reg = m.find(p, len);
  VF_CHECK(reg, "block %p of %zu bytes is neither in the buffer nor in memory taken from the system", p, len);
  for (auto& b : m.st) VF_CHECK(p + len <= b.p || b.p + b.len <= p, "block of %zu bytes overlaps a live block of %zu bytes", len, b.len);
  if (m.cur && (size_t)(m.end - m.cur) >= al16(len)) {
    VF_CHECK(!asked, "the system was asked for %zu bytes although %zu are free in the current block", len, (size_t)(m.end - m.cur));
    VF_CHECK(p >= m.cur && p + len <= m.end, "%zu bytes were not taken from the free rest (%zu) of the current block", len, (size_t)(m.end - m.cur));
  }
  m.cur = p + al16(len);
  m.end = reg->e;
  if (m.cur > m.end) m.cur = m.end;
  size_t s = ++g_seed;
  for (size_t i = 0; i < len; ++i) p[i] = pat(s, i);
  m.st.push_back({p, len, s});
  return p;
}
void verify(const Blk& b) {
  for (size_t i = 0; i < b.len; ++i)
    if (b.p[i] != pat(b.seed, i)) vf::fail("a live block of %zu bytes changed at byte %zu", b.len, i);
}
void do_free(Obj& o) {
  Blk b = o.m.st.back();
  verify(b);
  o.m.st.pop_back();
  uint64_t before = vf::total_mallocs();
  o.r->deallocate(b.p, b.len);
  VF_CHECK(vf::total_mallocs() == before, "deallocation asked the system for memory");
  for (auto& x : o.m.st) verify(x);
  Region* reg = o.m.find(b.p, b.len);
  o.m.cur = b.p;
  o.m.end = reg->e;
}

void do_rewind(Obj& o) {
  for (auto& b : o.m.st) verify(b);
  uint64_t b = vf::total_mallocs();
  o.r->reuse_memory();
  VF_CHECK(vf::total_mallocs() == b, "rewinding asked the system for memory");
  o.m.st.clear();
  o.m.cur = o.m.buf.b;
  o.m.end = o.m.buf.e;
}

int g_big;  // large blocks this case may still have
size_t gen_len() {
  if (g_big && vf::chance(1, 6)) {
    --g_big;
    static const size_t base[] = {65536, 65536, 131072, 262144, 1 << 20};
    return base[vf::pick(5)] - 40 + vf::pick(80);
  }
  static const uint32_t ww[] = {6, 6, 3, 1};
  switch (vf::pick_w(ww, 4)) {
    case 0: return 1 + vf::pick(64);
    case 1: return 16 * (1 + vf::pick(20));
    case 2: return 1 + vf::pick(700);
    default: return 1 + vf::pick(20000);
  }
}

struct Step {
  bool alloc;
  size_t len;
};
// balanced: ends at the depth at which it began and never goes below
std::vector<Step> gen_pattern(bool open) {
  std::vector<Step> v;
  int depth = 0, n = vf::range(1, 12);
  for (int i = 0; i < n; ++i) {
    if (depth && vf::chance(2, 5)) v.push_back({false, 0}), --depth;
    else v.push_back({true, gen_len()}), ++depth;
  }
  while (!open && depth--) v.push_back({false, 0});
  return v;
}

VF_MODE(stack_mem, 200, true,
        "allocations (1..20000 bytes, in some cases up to 1 MB), last-in-first-out deallocations, rewinds, moves, move-assignments, destruction of up to 3 resources, with and without initial buffers of any "
        "size, against a model of blocks; balanced patterns are repeated 8 times and the last 3 must ask the system for nothing; non-trivial: >=2 blocks live at once and memory from the system in use") {
  alignas(16) static unsigned char store[3][4096 + 64];
  Obj obj[3];
  bool used_sys = false;
  size_t depth_max = 0;
  n_sys = 0;
  g_big = vf::chance(1, 40) ? 3 : 0;
  g_seed = 0;
  std::memset(store, 0xEE, sizeof store);
  size_t buflen[3] = {};
  auto create = [&](int i) {
    static const uint32_t ww[] = {2, 3, 2};
    size_t n = 0;
    switch (vf::pick_w(ww, 3)) {
      case 0: break;
      case 1: n = 16 * vf::pick(40); break;
      case 2: n = vf::pick(4097); break;
    }
    buflen[i] = std::max(buflen[i], n);
    vf::desc("R%d: buffer of %zu bytes\n", i, n);
    obj[i].m = Model{};
    if (n) {
      obj[i].r.emplace(std::span<unsigned char>(store[i], n));
      obj[i].m.buf = {store[i], store[i] + n};
      obj[i].m.cur = store[i];
      obj[i].m.end = store[i] + n;
    } else obj[i].r.emplace();
  };
  create(0);
  int steps = vf::range(2, 30);
  for (int s = 0; s < steps; ++s) {
    int i = vf::pick(3);
    if (!obj[i].r) i = 0;
    if (!obj[i].r) break;
    Obj& o = obj[i];
    static const uint32_t ww[] = {10, 7, 3, 1, 2, 2, 1, 1};
    switch (vf::pick_w(ww, 8)) {
      case 0: {
        size_t n = gen_len();
        vf::desc("R%d: allocate %zu\n", i, n);
        do_alloc(o, n);
        break;
      }
      case 1: {
        if (o.m.st.empty()) break;
        vf::desc("R%d: deallocate %zu\n", i, o.m.st.back().len);
        do_free(o);
        break;
      }
      case 2: {  // a pattern, again and again
        bool rewind = vf::chance(1, 4);  // instead of the deallocations at the end
        if (rewind) {
          for (auto& b : o.m.st) verify(b);
          do_rewind(o);
        }
        auto v = gen_pattern(rewind);
        int times = 8;
        vf::desc("R%d: %d times%s", i, times, rewind ? ", rewinding before each" : "");
        for (auto& x : v)
          if (x.alloc) vf::desc(" +%zu", x.len);
          else vf::desc(" -");
        vf::desc("\n");
        for (int t = 0; t < times; ++t) {
          uint64_t b = n_sys;
          if (rewind) do_rewind(o);
          for (auto& x : v) {
            if (x.alloc) do_alloc(o, x.len);
            else do_free(o);
            depth_max = std::max(depth_max, o.m.st.size());
          }
          // the first repetitions may still find the larger blocks below smaller ones
          VF_CHECK(t < 5 || n_sys == b, "repetition %d of the pattern asked the system for memory", t);
        }
        break;
      }
      case 3: {
        vf::desc("R%d: rewind\n", i);
        do_rewind(o);
        break;
      }
      case 4: {  // move to a new object
        int j = vf::pick(3);
        if (j == i || obj[j].r) break;
        vf::desc("R%d: moved into new R%d\n", i, j);
        uint64_t b = vf::total_mallocs();
        obj[j].r.emplace(std::move(*o.r));
        VF_CHECK(vf::total_mallocs() == b, "moving asked the system for memory");
        obj[j].m = o.m;
        o.m = Model{};
        if (vf::chance(1, 2)) {
          vf::desc("R%d: destroyed\n", i);
          o.r.reset();
        }
        for (auto& x : obj[j].m.st) verify(x);
        break;
      }
      case 5: {  // move-assign
        int j = vf::pick(3);
        if (j == i || !obj[j].r) break;
        vf::desc("R%d: move-assigned to R%d\n", i, j);
        *obj[j].r = std::move(*o.r);
        obj[j].m = o.m;
        o.m = Model{};
        for (auto& x : obj[j].m.st) verify(x);
        break;
      }
      case 6: {
        vf::desc("R%d: destroyed\n", i);
        for (auto& b : o.m.st) verify(b);
        o.r.reset();
        o.m = Model{};
        break;
      }
      case 7: {
        int j = vf::range(1, 2);
        bool taken = obj[j].r.has_value();  // its buffer may have moved on with another object
        for (auto& x : obj) taken |= x.m.buf.b == store[j];
        if (!taken) create(j);
        break;
      }
    }
    for (auto& x : obj) depth_max = std::max(depth_max, x.m.st.size()), used_sys |= !x.m.sys.empty();
  }
  for (int i = 0; i < 3; ++i) {
    // nothing outside the given buffers was written
    for (size_t k = buflen[i]; k < sizeof store[i]; ++k) VF_CHECK(store[i][k] == 0xEE, "memory behind the buffer of R%d was written", i);
  }
  for (auto& o : obj) {
    for (auto& b : o.m.st) verify(b);
    o.r.reset();
  }
  vf::label("system blocks", n_sys);
  if (depth_max >= 2 && used_sys) vf::nontrivial();
}

}  // namespace
