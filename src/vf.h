// Property-based testing engine: choice streams, failure reporting, statistics.
// The implementation (vf_core.cpp) is compiled WITHOUT sanitizers and keeps everything in
// plain arrays, so that neither ASAN nor TSAN sees the harness' own book-keeping.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>

namespace vf {

// ---- choices -------------------------------------------------------------
// Every random decision of a case comes from one of two recorded streams:
//  'p' (program: what is generated) and 's' (schedule: which thread runs, spurious wakeups...).
// A replay feeds recorded values back (value % n); an exhausted stream yields 0, so 0 must
// always be the simplest alternative.
uint32_t pick(uint32_t n);                       // uniform in [0,n), n>=1
uint32_t pick_w(const uint32_t* w, uint32_t n);  // weighted index
inline uint32_t range(uint32_t lo, uint32_t hi) {  // inclusive, simplest = lo
  return lo + pick(hi - lo + 1);
}
bool chance(uint32_t num, uint32_t den);  // true with probability num/den; 0 => false
uint32_t small(uint32_t max);             // skewed to small values, in [0,max]
uint32_t spick(uint32_t n);               // schedule stream, uniform
uint32_t spick_p(uint32_t n, uint32_t num, uint32_t den);  // 0 unless chance, else uniform 1..n-1
// schedule decision whose fresh value is proposed by the caller (policies); replay overrides
uint32_t sdecide(uint32_t n, uint32_t proposed);
uint64_t fresh();  // raw prng for policies: only influences proposals, never recorded
bool replaying();

// ---- outcome -------------------------------------------------------------
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void desc(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // human readable case text
void label(const char* name, uint64_t n = 1);  // distribution counters
void nontrivial();                             // by the mode's stated rule
void set_phase(const char* what);              // shown when the case crashes
void discard();                                // counts a case that turned out to be meaningless

#define VF_CHECK(cond, ...)        \
  do {                             \
    if (!(cond))                   \
      ::vf::fail(__VA_ARGS__);     \
  } while (0)

// a user's type that is what the language allows: its address and sequences with it are not taken the short way
#define VF_NO_SHORTCUTS(T)                \
  T* operator&() = delete;                \
  const T* operator&() const = delete;    \
  template <typename VfU>                 \
  void operator,(VfU&&) const = delete;

// ---- modes ---------------------------------------------------------------
struct Mode {
  const char* name;
  const char* rule;  // how cases are made, what makes one non-trivial
  void (*fn)();
  int batch;       // cases per forked child
  bool leakcheck;  // live heap blocks must not grow
  Mode* next;
  Mode(const char* name, const char* rule, void (*fn)(), int batch = 100, bool leakcheck = true);
};
#define VF_MODE(id, batch, leak, rule)                                \
  static void vf_mode_##id();                                         \
  static ::vf::Mode vf_mode_reg_##id(#id, rule, vf_mode_##id, batch, leak); \
  static void vf_mode_##id()

long live_blocks();  // heap blocks alive (sanitizer malloc hooks), 0 if unavailable
uint64_t total_mallocs();  // number of malloc calls so far
void* last_malloc(size_t* n);  // the latest one (single-threaded modes)

// called by the scheduler to say "the case hit the logical step limit" etc.
}  // namespace vf
